package main

// Reference model of RFC3164 parsing, organised as the RFC5424 one.

type ph3 uint8

const (
	bStart    ph3 = iota
	bPri          // n as in aPri
	bTs           // first byte of the timestamp
	bMon          // s: prefix of a month name (index in monPrefixes)
	bStamp        // n: position in "Mmm dd hh:mm:ss", s: what the previous character restricts
	b3339         // n: position in YYYY-MM-DDTHH:MM:SS
	b3339Off      // n: position in HH:MM of the offset
	bTsEnd        // after a complete timestamp
	bHost         // n bytes read
	bText         // first byte of the text
	bTag          // n bytes of what may be a tag
	bTagColon     // after tag ':' or tag '[' pid ']' ':'
	bTagSp        // after tag ': '
	bPid          // inside the brackets
	bPidEnd       // after ']'
	bTagged       // text after a tag
	bPlain        // text without tag
)

type ctl3 struct {
	ph ph3
	n  uint8
	s  uint8
}

var months = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

var monPrefixes = func() []string {
	seen := map[string]bool{}
	var o []string
	for _, m := range months {
		for i := 1; i <= 3; i++ {
			if !seen[m[:i]] {
				seen[m[:i]] = true
				o = append(o, m[:i])
			}
		}
	}
	return o
}()

var monNext = func() map[string]uint8 {
	o := map[string]uint8{}
	for i, p := range monPrefixes {
		o[p] = uint8(i)
	}
	return o
}()

func isCtrl(b byte) bool    { return b < 32 || b == 127 }
func isTagChar(b byte) bool { return isGraph(b) && b != ':' && b != '[' }

// verdicts
const (
	v3Plain    = iota // accepted
	v3Tagged          // accepted, with a tag
	v3Reject          // rejected
	v3Date            // rejected for the calendar
	v3AfterPri        // rejected, but with a priority
)

func step3(c ctl3, b byte, rfc3339 bool) (ctl3, bool) {
	bad := c
	switch c.ph {
	case bStart:
		if b == '<' {
			return ctl3{ph: bPri}, true
		}
	case bPri:
		if c.n > 0 && b == '>' {
			return ctl3{ph: bTs}, true
		}
		n, k := step5(ctl5{ph: aPri, n: c.n}, b, false)
		if k == eNone && n.ph == aPri {
			return ctl3{ph: bPri, n: n.n}, true
		}
	case bTs:
		if id, ok := monNext[string(b)]; ok {
			return ctl3{ph: bMon, s: id}, true
		}
		if rfc3339 && isDigit(b) {
			return ctl3{ph: b3339, n: 1}, true
		}
	case bMon:
		if id, ok := monNext[monPrefixes[c.s]+string(b)]; ok {
			if len(monPrefixes[id]) == 3 {
				return ctl3{ph: bStamp, n: 3}, true
			}
			return ctl3{ph: bMon, s: id}, true
		}
	case bStamp:
		switch {
		case c.n == 3 || c.n == 6:
			if b == ' ' {
				return ctl3{ph: bStamp, n: c.n + 1}, true
			}
		case c.n == 4:
			switch b {
			case ' ':
				return ctl3{ph: bStamp, n: 5, s: 0}, true
			case '1', '2', '3':
				return ctl3{ph: bStamp, n: 5, s: b - '0'}, true
			}
		case c.n == 5:
			if c.s == 0 && b >= '1' && b <= '9' || (c.s == 1 || c.s == 2) && isDigit(b) || c.s == 3 && (b == '0' || b == '1') {
				return ctl3{ph: bStamp, n: 6}, true
			}
		default: // 7..14 as 11..18 of the RFC3339 ones
			if s, ok := dateStep(c.n+4, c.s, b); ok {
				if c.n == 14 {
					return ctl3{ph: bTsEnd}, true
				}
				return ctl3{ph: bStamp, n: c.n + 1, s: s}, true
			}
		}
	case b3339:
		if c.n == 19 {
			switch b {
			case 'Z':
				return ctl3{ph: bTsEnd}, true
			case '+', '-':
				return ctl3{ph: b3339Off}, true
			}
			return bad, false
		}
		if s, ok := dateStep(c.n, c.s, b); ok {
			return ctl3{ph: b3339, n: c.n + 1, s: s}, true
		}
	case b3339Off:
		if s, ok := offStep(c.n, c.s, b); ok {
			if c.n == 4 {
				return ctl3{ph: bTsEnd}, true
			}
			return ctl3{ph: b3339Off, n: c.n + 1, s: s}, true
		}
	case bTsEnd:
		if b == ' ' {
			return ctl3{ph: bHost}, true
		}
	case bHost:
		if b == ' ' && c.n > 0 {
			return ctl3{ph: bText}, true
		}
		if isGraph(b) && c.n < 255 {
			return ctl3{ph: bHost, n: c.n + 1}, true
		}
	default: // the text
		if isCtrl(b) {
			return bad, false
		}
		switch c.ph {
		case bText:
			if isTagChar(b) {
				return ctl3{ph: bTag, n: 1}, true
			}
		case bTag:
			switch {
			case b == ':':
				return ctl3{ph: bTagColon}, true
			case b == '[':
				return ctl3{ph: bPid}, true
			case isTagChar(b) && c.n < 32:
				return ctl3{ph: bTag, n: c.n + 1}, true
			}
		case bPid:
			if b == ']' {
				return ctl3{ph: bPidEnd}, true
			}
			return ctl3{ph: bPid}, true
		case bPidEnd:
			if b == ':' {
				return ctl3{ph: bTagColon}, true
			}
		case bTagColon:
			if b == ' ' {
				return ctl3{ph: bTagSp}, true
			}
		case bTagSp, bTagged:
			return ctl3{ph: bTagged}, true
		}
		return ctl3{ph: bPlain}, true
	}
	return bad, false
}

// end3 is the verdict at the end of the input.
func end3(c ctl3) int {
	switch c.ph {
	case bTagged:
		return v3Tagged
	case bTag, bTagColon, bTagSp, bPid, bPidEnd, bPlain:
		return v3Plain
	}
	return v3Reject
}

type cfg3 struct {
	Best    bool   `json:",omitempty"`
	RFC3339 bool   `json:",omitempty"`
	Year    *int   `json:",omitempty"`
	Given   bool   `json:",omitempty"` // by an operator of the user's
	Locale  string `json:",omitempty"` // zone in which the timestamps are written
	Zone    string `json:",omitempty"` // zone in which they are presented
}

type res3 struct {
	ok    bool
	col   int   // of the error
	msg   *msgv // message in best effort mode (also in strict mode when accepted)
	ctl   ctl3
	stamp []int // month, day, hour, minute, second of a Stamp timestamp read
}

func monthOf(b []byte) int {
	for i, m := range months {
		if m == string(b) {
			return i + 1
		}
	}
	return 0
}

func nums(b []byte, at ...int) (o []int) {
	for _, i := range at {
		v := 0
		if b[i] != ' ' {
			v = int(b[i] - '0')
		}
		o = append(o, v*10+int(b[i+1]-'0'))
	}
	return
}

// ref3164 runs the reference on an input. The timestamp of the message is the one without options (year 0, UTC).
func ref3164(in []byte, rfc3339 bool) res3 {
	m := &msgv{pri: -1}
	c := ctl3{}
	r := res3{col: -1}
	pri, mark, textAt := -1, 0, -1
	var tag, pid string
	i := 0
	for ; i < len(in); i++ {
		b := in[i]
		n, ok := step3(c, b, rfc3339)
		if !ok {
			r.col = i
			break
		}
		if c.ph == bTsEnd { // the timestamp is judged now
			t := in[mark:i]
			if isDigit(t[0]) {
				ts, ok := stampOf(t)
				if !ok {
					r.col = i
					break
				}
				m.ts = ts
			} else {
				f := append([]int{monthOf(t[:3])}, nums(t, 4, 7, 10, 13)...)
				if f[1] > daysIn(0, f[0]) {
					r.col = i
					break
				}
				m.ts = mkStamp(0, f[0], f[1], f[2], f[3], f[4], 0, 0)
				r.stamp = f
			}
		}
		switch {
		case c.ph == bPri && c.n == 0, c.ph == bTs, c.ph == bHost && c.n == 0:
			mark = i
		case c.ph == bText:
			mark, textAt = i, i
		case c.ph == bPri && n.ph == bTs:
			pri = atoi(in[mark:i])
		case c.ph == bHost && n.ph == bText:
			m.host = field(in[mark:i])
		case c.ph == bTag && n.ph != bTag:
			tag = string(in[mark:i])
			mark = i + 1
			pid = ""
		case c.ph == bPid && n.ph == bPidEnd:
			pid = string(in[mark:i])
		case c.ph == bTagSp:
			textAt = i
			m.app = field([]byte(tag))
			if pid != "" {
				m.proc = field([]byte(pid))
			}
		}
		c = n
	}
	r.ctl = c
	if r.col < 0 {
		if end3(c) == v3Reject {
			r.col = i
		} else {
			r.ok = true
			m.text = strp(string(in[textAt:]))
		}
	}
	if pri >= 0 {
		m.pri = pri
		r.msg = m
	}
	return r
}

func model3(rfc3339 bool) automaton[ctl3] {
	return automaton[ctl3]{
		step: func(s ctl3, b byte) (ctl3, int, bool) {
			n, ok := step3(s, b, rfc3339)
			return n, v3Reject, ok
		},
		end: end3,
	}
}
