package main

import (
	"fmt"

	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// Reference model of RFC5424 parsing: a deterministic automaton with an explicit finite control state (ctl5), and a
// recorder on top of it which notes the fields whose end has been recognised.

type ph5 uint8

const (
	aStart  ph5 = iota
	aPri        // n: 0 right after '<', 1 after '1', 2 after '2'..'9', 3 after "19", 4 after "10".."18", 5 complete
	aVer        // n digits read so far
	aTs         // first byte of the timestamp
	aTsNil      // after the nil timestamp
	aTsDig      // n: position in YYYY-MM-DDTHH:MM:SS, s: what the previous digit restricts
	aTsFrac     // n fraction digits read
	aTsOff      // n: position in HH:MM of the offset, s as above
	aTsEnd      // after a complete timestamp
	aHost
	aApp
	aProc
	aMid
	aSD    // first byte of the structured data
	aSDNil // after the nil structured data
	aSDID  // n bytes of the element id read
	aPName // n bytes of the parameter name read
	aPQ    // opening quote
	aPVal  // s: utf-8 state
	aPEsc  // after a backslash
	aPEnd  // after the closing quote
	aSDEnd // after ']'
	aMsg   // free-form message
	aMsgC  // compliant message: n bytes of the BOM read
	aMsgU  // compliant message: UTF-8, s: utf-8 state
)

type ctl5 struct {
	ph ph5
	n  uint8
	s  uint8
}

type ek5 uint8

const (
	eNone ek5 = iota
	ePri
	ePrival
	eVersion
	eTimestamp
	eHostname
	eAppname
	eProcID
	eMsgID
	eSD
	eSDID
	eSDDup
	eSDParam
	eEscape
	eMsg
	eParse
	eDate // impossible calendar date
)

func (k ek5) text(compliant bool) string {
	switch k {
	case ePri:
		return rfc5424.ErrPri
	case ePrival:
		return rfc5424.ErrPrival
	case eVersion:
		return rfc5424.ErrVersion
	case eTimestamp:
		return rfc5424.ErrTimestamp
	case eHostname:
		return rfc5424.ErrHostname
	case eAppname:
		return rfc5424.ErrAppname
	case eProcID:
		return rfc5424.ErrProcID
	case eMsgID:
		return rfc5424.ErrMsgID
	case eSD:
		return rfc5424.ErrStructuredData
	case eSDID:
		return rfc5424.ErrSdID
	case eSDDup:
		return rfc5424.ErrSdIDDuplicated
	case eSDParam:
		return rfc5424.ErrSdParam
	case eEscape:
		return rfc5424.ErrEscape
	case eMsg:
		if compliant {
			return rfc5424.ErrMsgNotCompliant
		}
		return rfc5424.ErrMsg
	case eParse:
		return rfc5424.ErrParse
	}
	return ""
}

// UTF-8 automaton (RFC 3629): 0 between characters, otherwise what has to follow.
const (
	uIdle uint8 = iota
	u1          // one continuation byte
	u2          // two
	u3          // three
	uE0         // A0..BF then one
	uED         // 80..9F then one
	uF0         // 90..BF then two
	uF4         // 80..8F then two
	uBad
)

func utf8Step(s, b uint8) uint8 {
	tail := b >= 0x80 && b <= 0xBF
	switch s {
	case uIdle:
		switch {
		case b <= 0x7F:
			return uIdle
		case b >= 0xC2 && b <= 0xDF:
			return u1
		case b == 0xE0:
			return uE0
		case b == 0xED:
			return uED
		case b >= 0xE1 && b <= 0xEF:
			return u2
		case b == 0xF0:
			return uF0
		case b >= 0xF1 && b <= 0xF3:
			return u3
		case b == 0xF4:
			return uF4
		}
		return uBad
	case u1:
		if tail {
			return uIdle
		}
	case u2:
		if tail {
			return u1
		}
	case u3:
		if tail {
			return u2
		}
	case uE0:
		if b >= 0xA0 && b <= 0xBF {
			return u1
		}
	case uED:
		if b >= 0x80 && b <= 0x9F {
			return u1
		}
	case uF0:
		if b >= 0x90 && b <= 0xBF {
			return u2
		}
	case uF4:
		if b >= 0x80 && b <= 0x8F {
			return u2
		}
	}
	return uBad
}

func isGraph(b byte) bool  { return b >= 33 && b <= 126 }
func isDigit(b byte) bool  { return b >= '0' && b <= '9' }
func isSDName(b byte) bool { return isGraph(b) && b != '=' && b != ']' && b != '"' }

// dateStep walks YYYY-MM-DDTHH:MM:SS (n: position) or, from position 11, its time part.
// s restricts the digit at n given the previous one. ok is false when b cannot be there.
func dateStep(n, s, b byte) (ns byte, ok bool) {
	switch n {
	case 0, 1, 2, 3:
		return 0, isDigit(b)
	case 4, 7:
		return 0, b == '-'
	case 5: // month, first digit
		return b - '0', b == '0' || b == '1'
	case 6:
		if s == 0 {
			return 0, b >= '1' && b <= '9'
		}
		return 0, b >= '0' && b <= '2'
	case 8: // day, first digit
		return b - '0', b >= '0' && b <= '3'
	case 9:
		switch s {
		case 0:
			return 0, b >= '1' && b <= '9'
		case 3:
			return 0, b == '0' || b == '1'
		}
		return 0, isDigit(b)
	case 10:
		return 0, b == 'T'
	case 11: // hour, first digit
		if b == '2' {
			return 2, true
		}
		return 0, b == '0' || b == '1'
	case 12:
		if s == 2 {
			return 0, b >= '0' && b <= '3'
		}
		return 0, isDigit(b)
	case 13, 16:
		return 0, b == ':'
	case 14, 17:
		return 0, b >= '0' && b <= '5'
	case 15, 18:
		return 0, isDigit(b)
	}
	return 0, false
}

func offStep(n, s, b byte) (byte, bool) { // HH:MM of an offset
	return dateStep(n+11, s, b)
}

// step5 is the transition function. It returns the error kind when no transition exists for b.
func step5(c ctl5, b byte, compliant bool) (ctl5, ek5) {
	graph := func(max uint8, next ph5, e ek5) (ctl5, ek5) {
		if b == ' ' && c.n > 0 {
			return ctl5{ph: next}, eNone
		}
		if isGraph(b) && c.n < max {
			return ctl5{ph: c.ph, n: c.n + 1}, eNone
		}
		return c, e
	}
	switch c.ph {
	case aStart:
		if b == '<' {
			return ctl5{ph: aPri}, eNone
		}
		return c, ePri
	case aPri:
		if c.n > 0 && b == '>' {
			return ctl5{ph: aVer}, eNone
		}
		if isDigit(b) {
			switch c.n {
			case 0:
				switch b {
				case '0':
					return ctl5{ph: aPri, n: 5}, eNone
				case '1':
					return ctl5{ph: aPri, n: 1}, eNone
				}
				return ctl5{ph: aPri, n: 2}, eNone
			case 1:
				if b == '9' {
					return ctl5{ph: aPri, n: 3}, eNone
				}
				return ctl5{ph: aPri, n: 4}, eNone
			case 2, 4:
				return ctl5{ph: aPri, n: 5}, eNone
			case 3:
				if b <= '1' {
					return ctl5{ph: aPri, n: 5}, eNone
				}
			}
		}
		return c, ePrival
	case aVer:
		if c.n == 0 && b >= '1' && b <= '9' || c.n > 0 && c.n < 3 && isDigit(b) {
			return ctl5{ph: aVer, n: c.n + 1}, eNone
		}
		if c.n > 0 && b == ' ' {
			return ctl5{ph: aTs}, eNone
		}
		if c.n == 1 {
			return c, eParse
		}
		return c, eVersion
	case aTs:
		if b == '-' {
			return ctl5{ph: aTsNil}, eNone
		}
		if isDigit(b) {
			return ctl5{ph: aTsDig, n: 1}, eNone
		}
		return c, eTimestamp
	case aTsNil, aTsEnd:
		if b == ' ' {
			return ctl5{ph: aHost}, eNone
		}
		return c, eParse
	case aTsDig:
		if c.n == 19 { // after the seconds
			switch b {
			case '.':
				return ctl5{ph: aTsFrac}, eNone
			case 'Z':
				return ctl5{ph: aTsEnd}, eNone
			case '+', '-':
				return ctl5{ph: aTsOff}, eNone
			}
			return c, eTimestamp
		}
		if s, ok := dateStep(c.n, c.s, b); ok {
			return ctl5{ph: aTsDig, n: c.n + 1, s: s}, eNone
		}
		return c, eTimestamp
	case aTsFrac:
		if isDigit(b) && c.n < 6 {
			return ctl5{ph: aTsFrac, n: c.n + 1}, eNone
		}
		if c.n > 0 {
			switch b {
			case 'Z':
				return ctl5{ph: aTsEnd}, eNone
			case '+', '-':
				return ctl5{ph: aTsOff}, eNone
			}
		}
		return c, eTimestamp
	case aTsOff:
		if s, ok := offStep(c.n, c.s, b); ok {
			if c.n == 4 {
				return ctl5{ph: aTsEnd}, eNone
			}
			return ctl5{ph: aTsOff, n: c.n + 1, s: s}, eNone
		}
		return c, eTimestamp
	case aHost:
		return graph(255, aApp, eHostname)
	case aApp:
		return graph(48, aProc, eAppname)
	case aProc:
		return graph(128, aMid, eProcID)
	case aMid:
		return graph(32, aSD, eMsgID)
	case aSD:
		if b == '-' {
			return ctl5{ph: aSDNil}, eNone
		}
		if b == '[' {
			return ctl5{ph: aSDID}, eNone
		}
		return c, eSD
	case aSDNil:
		if b == ' ' {
			return msg0(compliant), eNone
		}
		return c, eParse
	case aSDID:
		if c.n > 0 {
			switch b {
			case ' ':
				return ctl5{ph: aPName}, eNone
			case ']':
				return ctl5{ph: aSDEnd}, eNone
			}
		}
		if isSDName(b) && c.n < 32 {
			return ctl5{ph: aSDID, n: c.n + 1}, eNone
		}
		return c, eSDID
	case aPName:
		if c.n > 0 && b == '=' {
			return ctl5{ph: aPQ}, eNone
		}
		if isSDName(b) && c.n < 32 {
			return ctl5{ph: aPName, n: c.n + 1}, eNone
		}
		return c, eSDParam
	case aPQ:
		if b == '"' {
			return ctl5{ph: aPVal}, eNone
		}
		return c, eSDParam
	case aPVal:
		if c.s == uIdle {
			switch b {
			case '"':
				return ctl5{ph: aPEnd}, eNone
			case '\\':
				return ctl5{ph: aPEsc}, eNone
			case ']':
				return c, eEscape
			}
		}
		if u := utf8Step(c.s, b); u != uBad {
			return ctl5{ph: aPVal, s: u}, eNone
		}
		if c.s == uIdle {
			return c, eEscape
		}
		return c, eSDParam
	case aPEsc:
		if b == '"' || b == '\\' || b == ']' {
			return ctl5{ph: aPVal}, eNone
		}
		return c, eEscape
	case aPEnd:
		switch b {
		case ' ':
			return ctl5{ph: aPName}, eNone
		case ']':
			return ctl5{ph: aSDEnd}, eNone
		}
		return c, eSDParam
	case aSDEnd:
		switch b {
		case '[':
			return ctl5{ph: aSDID}, eNone
		case ' ':
			return msg0(compliant), eNone
		}
		return c, eSD
	case aMsg:
		return c, eNone
	case aMsgC:
		if b == [3]byte{0xEF, 0xBB, 0xBF}[c.n] {
			if c.n == 2 {
				return ctl5{ph: aMsgU}, eNone
			}
			return ctl5{ph: aMsgC, n: c.n + 1}, eNone
		}
		return ctl5{ph: aMsg}, eNone
	case aMsgU:
		if u := utf8Step(c.s, b); u != uBad {
			return ctl5{ph: aMsgU, s: u}, eNone
		}
		return c, eMsg
	}
	return c, eParse
}

func msg0(compliant bool) ctl5 {
	if compliant {
		return ctl5{ph: aMsgC}
	}
	return ctl5{ph: aMsg}
}

// end5 is the verdict at the end of the input.
func end5(c ctl5) ek5 {
	switch c.ph {
	case aStart:
		return ePri
	case aPri:
		return ePrival
	case aVer:
		if c.n == 1 {
			return eParse
		}
		return eVersion
	case aTs, aTsDig, aTsFrac, aTsOff:
		return eTimestamp
	case aTsNil, aTsEnd:
		return eParse
	case aHost:
		return eHostname
	case aApp:
		return eAppname
	case aProc:
		return eProcID
	case aMid:
		return eMsgID
	case aSD:
		return eSD
	case aSDID:
		return eSDID
	case aPVal:
		if c.s == uIdle {
			return eEscape
		}
		return eSDParam
	case aPName, aPQ, aPEnd:
		return eSDParam
	case aPEsc:
		return eEscape
	case aMsgU:
		if c.s != uIdle {
			return eMsg
		}
	}
	return eNone
}

// res5 is the outcome of the reference on one input.
type res5 struct {
	kind ek5
	col  int
	err  string // expected error text ("" when accepted); for eDate only the column is specified
	msg  *msgv  // message in best effort mode (also in strict mode when accepted)
	ctl  ctl5   // control state where it stopped
}

func atoi(b []byte) int {
	n := 0
	for _, c := range b {
		n = n*10 + int(c-'0')
	}
	return n
}

// stampOf evaluates a grammatically correct RFC3339 timestamp; ok is false when the day is not in the calendar.
func stampOf(t []byte) (*stamp, bool) {
	y, mo, d := atoi(t[0:4]), atoi(t[5:7]), atoi(t[8:10])
	h, mi, s := atoi(t[11:13]), atoi(t[14:16]), atoi(t[17:19])
	i, nsec := 19, 0
	if t[i] == '.' {
		i++
		scale := 100000000
		for isDigit(t[i]) {
			nsec += int(t[i]-'0') * scale
			scale /= 10
			i++
		}
	}
	off := 0
	if t[i] != 'Z' {
		off = atoi(t[i+1:i+3])*3600 + atoi(t[i+4:i+6])*60
		if t[i] == '-' {
			off = -off
		}
	}
	if d > daysIn(y, mo) {
		return nil, false
	}
	return mkStamp(y, mo, d, h, mi, s, nsec, off), true
}

func strp(s string) *string { return &s }

func field(b []byte) *string {
	if len(b) == 1 && b[0] == '-' {
		return nil
	}
	return strp(string(b))
}

func unescape(b []byte) string {
	out := make([]byte, 0, len(b))
	for i := 0; i < len(b); i++ {
		if b[i] == '\\' && i+1 < len(b) {
			i++
		}
		out = append(out, b[i])
	}
	return string(out)
}

// ref5424 runs the reference on an input.
func ref5424(in []byte, compliant bool) res5 {
	m := &msgv{pri: -1}
	c := ctl5{}
	mark := 0
	var sd map[string]map[string]string
	var id, name, val string
	havePri, haveVer := false, false
	kind, col := eNone, 0
	msgAt := -1
	i := 0
	for ; ; i++ {
		eof := i == len(in)
		var b byte
		if !eof {
			b = in[i]
		}
		// what is judged when its end is seen, before looking at what follows
		if c.ph == aTsEnd {
			ts, ok := stampOf(in[mark:i])
			if !ok {
				kind, col = eDate, i
				break
			}
			m.ts = ts
		}
		if c.ph == aSDID && c.n > 0 && (eof || !isSDName(b) || c.n == 32) {
			if _, dup := sd[string(in[mark:i])]; dup {
				kind, col = eSDDup, i
				break
			}
		}
		if c.ph == aVer && c.n > 0 {
			m.ver = atoi(in[mark:i])
			haveVer = true
		}
		if eof {
			if k := end5(c); k != eNone {
				kind, col = k, i
			}
			break
		}
		n, k := step5(c, b, compliant)
		if k != eNone {
			kind, col = k, i
			break
		}
		if n.ph != c.ph || c.ph == aPri && c.n == 0 || c.ph == aVer && c.n == 0 ||
			(c.ph == aSDID || c.ph == aPName || c.ph == aHost || c.ph == aApp || c.ph == aProc || c.ph == aMid) && c.n == 0 {
			switch c.ph {
			case aPri:
				if c.n == 0 {
					mark = i
				} else {
					m.pri = atoi(in[mark:i])
					havePri = true
				}
			case aVer, aTs:
				if c.n == 0 {
					mark = i
				}
			case aHost:
				if c.n == 0 {
					mark = i
				} else {
					m.host = field(in[mark:i])
				}
			case aApp:
				if c.n == 0 {
					mark = i
				} else {
					m.app = field(in[mark:i])
				}
			case aProc:
				if c.n == 0 {
					mark = i
				} else {
					m.proc = field(in[mark:i])
				}
			case aMid:
				if c.n == 0 {
					mark = i
				} else {
					m.mid = field(in[mark:i])
				}
			case aSDID:
				if c.n == 0 {
					mark = i
				} else {
					id = string(in[mark:i])
					if sd == nil {
						sd = map[string]map[string]string{}
					}
					sd[id] = map[string]string{}
				}
			case aPName:
				if c.n == 0 {
					mark = i
				} else {
					name = string(in[mark:i])
				}
			case aPQ:
				mark = i + 1
			case aPVal:
				if n.ph == aPEnd {
					val = unescape(in[mark:i])
				}
			case aPEnd:
				sd[id][name] = val
			}
			if (c.ph == aSDNil || c.ph == aSDEnd) && b == ' ' {
				msgAt = i + 1
			}
		}
		c = n
	}
	m.sd = sd
	if msgAt >= 0 && i > msgAt {
		m.text = strp(string(in[msgAt:i]))
	}
	r := res5{kind: kind, col: col, ctl: c}
	if kind != eNone {
		r.err = fmt.Sprintf("%s [col %d]", kind.text(compliant), col)
	}
	if havePri && haveVer {
		r.msg = m
	}
	return r
}
