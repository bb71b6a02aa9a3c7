package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/common"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func init() {
	checks["P24"] = checkP24
	checks["P25"] = checkP25
	checks["P26"] = checkP26
	checks["P27"] = checkP27
	replay := func(kind string, f func() Scenario) {
		replayers[kind] = func(b json.RawMessage) (Scenario, error) {
			s := f()
			return s, json.Unmarshal(b, s)
		}
	}
	replay("lastError", func() Scenario { return &lastError{} })
	replay("endToEnd", func() Scenario { return &endToEnd{} })
	replay("scan", func() Scenario { return &scanRun{} })
	replay("tokenText", func() Scenario { return &tokenText{} })
	replay("robustParse", func() Scenario { return &robustParse{} })
	replay("robustStream", func() Scenario { return &robustStream{} })
	replay("robustBuild", func() Scenario { return &robustBuild{} })
	replay("robustMessage", func() Scenario { return &robustMessage{} })
	replay("robustFields", func() Scenario { return &robustFields{} })
	replay("oddOptions", func() Scenario { return &oddOptions{} })
}

// ---- P24: the error of the latest parse

// lastError: after each of the inputs, the machine tells the error Parse has returned.
type lastError struct {
	P      pcfg
	Inputs []B
}

func (l *lastError) Kind() string { return "lastError" }

func (l *lastError) Run() string {
	m := l.P.new()
	e, ok := m.(interface{ Err() error })
	if !ok {
		return fmt.Sprintf("%T has no Err method", m)
	}
	if err := e.Err(); err != nil {
		return "before the first parse: Err gives " + renderErr(err)
	}
	for i, in := range l.Inputs {
		msg, err := m.Parse(append([]byte{}, in...))
		was := render(msg)
		for k := 0; k < 2; k++ {
			if got := e.Err(); renderErr(got) != renderErr(err) || (got == nil) != (err == nil) {
				return fmt.Sprintf("input %d (%q): Parse returned the error %s, Err gives %s (asked %d times)", i, short(string(in)), renderErr(err), renderErr(got), k+1)
			}
		}
		if b, ok := m.(syslog.BestEfforter); ok && b.HasBestEffort() != l.P.Best {
			return "the best effort mode has changed"
		}
		if now := render(msg); now != was {
			return fmt.Sprintf("asking for the error has changed the message from %s to %s", was, now)
		}
	}
	return ""
}

// cfgs24 are the machines explored.
func cfgs24() (ps []pcfg) {
	for _, best := range modes() {
		for _, parser := range modes() {
			ps = append(ps, pcfg{Format: 5424, Best: best, Parser: parser}, pcfg{Format: 5424, Best: best, Compliant: true, Parser: parser},
				pcfg{Format: 3164, Best: best, Parser: parser}, pcfg{Format: 3164, Best: best, RFC3339: true, Parser: parser})
		}
	}
	return
}

// allInputs gives every input of the conformance suites to run: every state of the model, followed by every byte.
func allInputs(c *Ctx, p pcfg, depth int, run func(w *worker, in []byte)) {
	if p.Format == 5424 {
		e, idx := explore(model5(p.Compliant))
		c.addStates(e.n)
		c.addTransitions(e.n * 256)
		conform(c, e, func(prefix []byte) (int, bool) {
			r := ref5424(prefix, p.Compliant)
			if r.kind != eNone && r.col < len(prefix) {
				return 0, false
			}
			s, ok := idx[r.ctl]
			return s, ok
		}, skeletons5(), [][]byte{{}, []byte("x")}, depth, run)
		return
	}
	e, idx := explore(model3(p.RFC3339))
	c.addStates(e.n)
	c.addTransitions(e.n * 256)
	conform(c, e, func(prefix []byte) (int, bool) {
		r := ref3164(prefix, p.RFC3339)
		if r.col >= 0 && r.col < len(prefix) {
			return 0, false
		}
		s, ok := idx[r.ctl]
		return s, ok
	}, skeletons3(), bs("", "x", ": x"), depth, run)
}

func checkP24(c *Ctx) {
	for _, p := range cfgs24() {
		p := p
		cp := p.corpus()
		// histories: every sequence of three inputs of the corpus
		k := len(cp)
		c.parallel(k*k, func(w *worker, i int) {
			for j := 0; j < k; j++ {
				if !c.thorough() && k > 30 && (i+j)%(k/15) != 0 {
					continue
				}
				w.do(&lastError{P: p, Inputs: []B{B(cp[i/k]), B(cp[i%k]), B(cp[j])}})
			}
		})
		c.addStates(k * k)
		// every state of the model and every byte after it: first, after a success, after a failure; then a success
		good := p.skeletons()[0]
		bad := good[:3]
		allInputs(c, p, c.pick(0, 1), func(w *worker, in []byte) {
			w.do(&lastError{P: p, Inputs: []B{B(in), B(good), B(in), B(bad), B(in), B(good), B(bad)}})
		})
	}
	c.note("what", "on both formats, all modes, and the mutex-protected parsers too: Err compared with the error returned by each parse of every history")
}

// ---- P25: from the builder to the listener

// endToEnd: messages are built, rendered and framed; the parser gives them back.
type endToEnd struct {
	S    scfg
	Msgs [][]op
	Feed feed
}

func (t *endToEnd) Kind() string { return "endToEnd" }

func (t *endToEnd) Run() string {
	var st []byte
	var want []*msgv
	var texts []string
	for i, ops := range t.Msgs {
		m, e := &rfc5424.SyslogMessage{}, &msgv{pri: -1}
		for _, o := range ops {
			o.apply(m)
			o.applyModel(e)
		}
		s, err := m.String()
		if err != nil {
			return fmt.Sprintf("message %d (%s) cannot be rendered: %s", i, ops, err)
		}
		if t.S.Octet {
			st = append(st, frame(s)...)
		} else {
			st = append(append(st, s...), t.S.trailer())
		}
		want, texts = append(want, e), append(texts, s)
	}
	var got []*syslog.Result
	t.S.new(func(r *syslog.Result) { got = append(got, r) }).Parse((&planReader{data: st, f: t.Feed}).as(t.Feed.As))
	for i, r := range got {
		if i >= len(want) {
			return fmt.Sprintf("%d messages were sent, one more was received: %s", len(want), outcomeOf(r.Message, r.Error))
		}
		if r.Error != nil {
			return fmt.Sprintf("message %d (%s) is received with the error %s", i, short(texts[i]), renderErr(r.Error))
		}
		if d := diff5424(want[i], r.Message); d != "" {
			return fmt.Sprintf("message %d (%s) is received changed: %s", i, short(texts[i]), d)
		}
		m, ok := r.Message.(*rfc5424.SyslogMessage)
		if !ok {
			return fmt.Sprintf("message %d is a %T", i, r.Message)
		}
		if s, err := m.String(); err != nil || s != texts[i] {
			return fmt.Sprintf("message %d (%s) is rendered as %s, %s when received", i, short(texts[i]), short(s), renderErr(err))
		}
	}
	if len(got) < len(want) {
		return fmt.Sprintf("message %d (%s) is not received", len(got), short(texts[len(got)]))
	}
	return ""
}

// sendable: the framing can carry the message.
func (s scfg) sendable(ops []op) bool {
	e := &msgv{pri: -1}
	for _, o := range ops {
		o.applyModel(e)
	}
	if !e.valid() {
		return false
	}
	x := textOf(e)
	if s.Octet {
		return len(x) <= s.max()
	}
	return !strings.Contains(x, string([]byte{s.trailer(), '<'}))
}

func checkP25(c *Ctx) {
	base := []op{num("pri", 165), num("ver", 1)}
	header := []op{s1("ts", "2018-10-11T22:14:15.003Z"), s1("host", "host.example"), s1("app", "app"), s1("proc", "12"), s1("mid", "mid")}
	sds := [][]op{nil, {s1("id", "el@1")}, {par("b", "n", "v"), par("a", "m", "x\\]y\\\"\\\\z"), s1("id", "c")}, {par("el", "two", ""), par("el", "one", "h\u00e9\u4e16\U0001f600\n<\x00 "), par("EL", "One", "16 <1>1")}}
	texts := []string{"", "text", "a\nb\n", "\n", "\x00", "x\x00y", "\n\n<", "\x00<1>1 - - - - - -", "\n<1>1 - - - - - - evil", "16 <1>1 - - - - - -", "\xef\xbb\xbfbom \xc3\xa9", "\xff\xfe", " lead", "<", "trail ", "-", "[x]", "\r\n", "x\r"}
	var all [][]op
	for h := 0; h < 32; h++ {
		for _, sd := range sds {
			for _, t := range texts {
				ops := append([]op{}, base...)
				for i, o := range header {
					if h>>uint(i)&1 == 1 {
						ops = append(ops, o)
					}
				}
				ops = append(append(ops, sd...), s1("text", t))
				all = append(all, ops)
			}
		}
	}
	var sent tally
	try := func(w *worker, s scfg, msgs [][]op, fs ...feed) {
		for _, m := range msgs {
			if !s.sendable(m) {
				sent.hit(1)
				return
			}
		}
		sent.hit(0)
		for _, f := range fs {
			w.do(&endToEnd{S: s, Msgs: msgs, Feed: f})
		}
	}
	var cfgs []scfg
	for _, best := range modes() {
		cfgs = append(cfgs, scfg{Octet: true, Best: best}, scfg{Best: best}, scfg{NUL: true, Best: best})
	}
	feeds := append(basicFeeds(60), kindFeeds()...)
	plain := append(append([]op{}, base...), header[1])
	c.addStates(len(all))
	c.parallel(len(all), func(w *worker, i int) {
		for _, s := range cfgs {
			try(w, s, [][]op{all[i]}, feeds...)
			try(w, s, [][]op{all[i], plain, all[(i*7+3)%len(all)]}, feeds[:6]...)
			if i%16 == 0 {
				try(w, s, [][]op{all[i]}, singleSplits(120)...)
			}
		}
	})
	// pairs and triples
	var few [][]op
	for i := 0; i < len(all); i += 1 + len(all)/c.pick(60, 120) {
		few = append(few, all[i])
	}
	k := len(few)
	c.addStates(k * k)
	c.parallel(k*k, func(w *worker, i int) {
		for _, s := range cfgs {
			try(w, s, [][]op{few[i/k], few[i%k]}, feed{}, feed{Each: 1})
			try(w, s, [][]op{few[i/k], few[i%k], few[(i*i+1)%k], few[i/k]}, feed{}, feed{Each: 100, WithErr: true})
		}
	})
	// every priority, versions, every byte in every field
	c.parallel(256, func(w *worker, b int) {
		x := string([]byte{byte(b)})
		var msgs [][]op
		with := func(os ...op) { msgs = append(msgs, append(append([]op{}, base...), os...)) }
		with(num("pri", b))
		with(num("ver", b*4))
		with(num("ver", b))
		for _, f := range []string{"host", "app", "proc", "mid", "id", "text"} {
			for _, v := range []string{x, x + "x", "x" + x, "x" + x + x + "y"} {
				with(s1(f, v), s1("text", "t"+v))
			}
		}
		with(par(x, x, x), s1("text", x))
		with(par("i", "n", "a"+x), par("i", x, "b"), s1("text", x+"\n"))
		with(par("i", "n", "\\"+x+"c"), par("j"+x, "n", "b"), s1("text", x+"\x00"))
		for _, s := range cfgs {
			for i := range msgs {
				try(w, s, [][]op{msgs[i]}, feed{}, feed{Each: 1})
			}
			for i := 0; i+3 < len(msgs); i++ {
				try(w, s, msgs[i:i+3], feed{}, feed{Each: 7})
			}
		}
	})
	// code points in values and texts
	c.parallel(0x110, func(w *worker, i int) {
		var os [][]op
		for k := 0; k < 256; k += 3 {
			r := rune(i<<12 | k<<4 | k&15)
			if r > 0x10ffff || r >= 0xd800 && r < 0xe000 {
				continue
			}
			os = append(os, append(append([]op{}, base...), par("i", "n", string(r)), par("i", "m", "a"+string(r)+string(r)), s1("text", string(r))))
		}
		for _, s := range cfgs[:3] {
			if len(os) > 0 {
				try(w, s, os, feed{}, feed{Each: 13})
			}
		}
	})
	// fields of all lengths, large messages, long conversations
	for _, f := range []string{"host", "app", "proc", "mid", "id"} {
		f := f
		c.parallel(256, func(w *worker, n int) {
			o := append(append([]op{}, base...), s1(f, strings.Repeat("x", n)))
			for _, s := range cfgs {
				try(w, s, [][]op{o, plain}, feed{}, feed{Each: 64})
			}
		})
	}
	ps, ls := longPieces(), longSizes(c)
	c.parallel(len(ps)*len(ls), func(w *worker, i int) {
		for _, b := range around(ps[i/len(ls)], ls[i%len(ls)]) {
			x := append(append([]op{}, base...), s1("text", string(b)))
			y := append(append([]op{}, base...), par("i", "n", string(b)), s1("text", string(b)+"z"))
			for _, s := range cfgs {
				if s.Octet {
					s.Max = intp(30000)
				}
				try(w, s, [][]op{x, plain, y, x}, feed{}, feed{Each: ls[i%len(ls)]})
			}
		}
	})
	sizes := []int{}
	for n := 1; n <= c.pick(200, 1000); n++ {
		sizes = append(sizes, n)
	}
	for _, m := range []int{1000, 1024, 4096, 8192, 65536, 1 << 18} {
		for d := -40; d <= 40; d += c.pick(4, 1) {
			sizes = append(sizes, m+d)
		}
	}
	c.parallel(len(sizes), func(w *worker, i int) {
		n := sizes[i]
		a := append(append([]op{}, base...), s1("text", sized(n)))
		b := append(append([]op{}, base...), par("i", "n", string(rep('v', n))+"\\]"), s1("text", sized(n/2)))
		for _, s := range cfgs {
			if s.Octet {
				s.Max = intp(2*n + 100)
			}
			try(w, s, [][]op{a, b, plain, b, a}, feed{}, feed{Each: 4096}, feed{Each: n + 1, WithErr: true})
		}
	})
	c.parallel(12, func(w *worker, i int) {
		var os [][]op
		for j := 0; j < c.pick(3000, 20000); j++ {
			os = append(os, all[(j*(2*i+5)+i)%len(all)])
		}
		s := cfgs[i%6]
		if !s.Octet {
			kept := os[:0]
			for _, o := range os {
				if s.sendable(o) {
					kept = append(kept, o)
				}
			}
			os = kept
		}
		try(w, s, os, feed{}, feed{Each: 1000})
	})
	c.note("streams", sent.report(func(k int) string { return []string{"sent", "the framing cannot carry"}[k] }))
	c.note("what", "messages made by setter calls, rendered, framed in three ways and read back in both modes; each result compared with the model of the message that was built")
	c.assume("the non-transparent framing can carry a text which does not contain the trailer followed by '<'")
}

// ---- P26: the octet counting scanner

type scanRun struct {
	Data B
	Max  int
	Feed feed
}

func (s *scanRun) Kind() string { return "scan" }

// refTokens: the tokens of a stream up to its end.
func refTokens(d []byte, max int) (o []string) {
	i, n, ready := 0, uint64(0), false
	for i < len(d) {
		b := d[i]
		switch {
		case b >= '1' && b <= '9':
			k := i
			n, ready = 0, false
			over := false
			for ; k < len(d) && d[k] >= '0' && d[k] <= '9'; k++ {
				x := uint64(d[k] - '0')
				if n > (math.MaxInt-x)/10 {
					over = true
				} else {
					n = n*10 + x
				}
			}
			if over {
				n = math.MaxInt
			}
			o = append(o, "MSGLEN("+string(d[i:k])+")")
			i = k
		case b == ' ':
			ready = true
			o = append(o, "WS")
			i++
		case b == '<' && n > 0 && ready:
			if n > uint64(max) || uint64(len(d)-i) < n {
				return append(o, "EOF")
			}
			o = append(o, "SYSLOGMSG("+string(d[i:i+int(n)])+")")
			i += int(n)
			n, ready = 0, false
		default:
			o = append(o, "ILLEGAL("+string(d[i:i+1])+")")
			i++
		}
	}
	return append(o, "EOF")
}

// tooLong: a message longer than the maximum is met.
func tooLong(d []byte, max int) bool {
	a, b := refTokens(d, max), refTokens(d, math.MaxInt)
	return len(a) != len(b)
}

func (s *scanRun) Run() string {
	want := refTokens(s.Data, s.Max)
	sc := octetcounting.NewScanner((&planReader{data: append([]byte{}, s.Data...), f: s.Feed}).as(s.Feed.As), s.Max)
	for i, x := range want {
		t := sc.Scan()
		if got := t.String(); got != x {
			return fmt.Sprintf("token %d: expected %s, got %s", i, short(x), short(got))
		}
	}
	for k := 0; k < 2; k++ {
		if got := sc.Scan().String(); got != "EOF" {
			return fmt.Sprintf("after the end: got %s", short(got))
		}
	}
	return ""
}

type tokenText struct{ N int }

func (t *tokenText) Kind() string { return "tokenText" }

func (t *tokenText) Run() string {
	names := []string{"ILLEGAL", "EOF", "WS", "MSGLEN", "SYSLOGMSG"}
	e := "TokenType(" + strconv.Itoa(t.N) + ")"
	if t.N >= 0 && t.N < len(names) {
		e = names[t.N]
	}
	if got := octetcounting.TokenType(t.N).String(); got != e {
		return fmt.Sprintf("token type %d: expected %s, got %s", t.N, e, got)
	}
	return ""
}

func checkP26(c *Ctx) {
	c.serial(func(w *worker) {
		for n := -70000; n <= 70000; n++ {
			w.do(&tokenText{N: n})
		}
		for k := uint(16); k < 64; k++ {
			for d := -6; d <= 6; d++ {
				w.do(&tokenText{N: int(uint64(1)<<k + uint64(d))})
				w.do(&tokenText{N: -int(uint64(1)<<k + uint64(d))})
			}
		}
	})
	try := func(w *worker, d []byte, max int, fs ...feed) {
		if tooLong(d, max) {
			return
		}
		c.addTransitions(len(d))
		for _, f := range fs {
			w.do(&scanRun{Data: d, Max: max, Feed: f})
		}
	}
	// every string over the bytes that matter
	alpha := []byte{'0', '1', '3', '9', ' ', '<', 'a', '\n'}
	n := c.pick(6, 7)
	total := seqCount(len(alpha), n)
	c.addStates(total)
	c.parallel((total+1023)/1024, func(w *worker, j int) {
		for i := j * 1024; i < (j+1)*1024 && i < total; i++ {
			sq := seqAt(len(alpha), i)
			d := make([]byte, len(sq))
			for k, a := range sq {
				d[k] = alpha[a]
			}
			try(w, d, 8192, feed{}, feed{Each: 1}, feed{WithErr: true})
			try(w, d, 12, feed{Err: "boom"}, feed{Each: 2, Err: "boom", WithErr: true})
		}
	})
	c.note("all_strings", fmt.Sprintf("%d strings of up to %d bytes over %q", total, n, alpha))
	// every pair of bytes anywhere in streams of two frames
	for _, b := range []string{frame("<1>1") + frame("<2>3 456"), "4 x<1>1  <9 5\n7 <123 <67", "  3  <<<3 <<<"} {
		b := b
		c.parallel(len(b)*256, func(w *worker, i int) {
			p, x := i/256, byte(i%256)
			for y := 0; y < 256; y++ {
				d := []byte(b)
				d[p] = x
				if p+1 < len(d) {
					d[p+1] = byte(y)
				} else if y > 0 {
					break
				}
				try(w, d, 20, feed{}, feed{Each: 1})
			}
			for cut := 0; cut <= len(b); cut++ {
				ins := cat([]byte(b[:p]), []byte{x}, []byte(b[p:cut+b2i(cut < p)*(p-cut)]))
				try(w, ins, 8192, feed{}, feed{Each: 3}, feed{Err: "boom"})
			}
		})
	}
	// frames of all sizes, maxima of all sizes
	c.parallel(c.pick(300, 1200), func(w *worker, i int) {
		L := i + 1
		st := []byte(frame(sized(L)) + " " + frame("<"+strings.Repeat("9 ", i/2)) + "x" + frame(sized(L)) + frame("<"))
		for _, m := range []int{L + 20, 8192, 1 << 20, math.MaxInt} {
			try(w, st, m, append(basicFeeds(len(st)), kindFeeds()...)...)
			if L < 40 {
				try(w, st, m, singleSplits(len(st))...)
			}
		}
		try(w, []byte(frame(sized(L))+frame(sized(L))+frame(sized(L))), L, append(basicFeeds(len(st)), feed{Each: L + 20}, feed{Each: L + 19})...)
	})
	sizes := bigSizes(c)
	c.parallel(len(sizes), func(w *worker, i int) {
		L := sizes[i]
		st := []byte(frame(sized(L)) + frame("<") + frame(sized(L)) + "7" + frame(sized(3)))
		for _, m := range []int{L, L + 1, 1 << 21, math.MaxInt} {
			try(w, st, m, feed{}, feed{Each: 4096}, feed{Each: L + 20, WithErr: true}, feed{As: "bytes"}, feed{As: "bufio"})
			try(w, st[:L], m, feed{}, feed{Each: 4096})
		}
	})
	// long digit strings
	c.parallel(60, func(w *worker, i int) {
		for _, b := range []string{"1", "9", "10", "99"} {
			d := []byte(strings.Repeat(b, i+1) + " <1>1 - rest 3 <12")
			try(w, d, math.MaxInt, feed{}, feed{Each: 1})
			try(w, cat([]byte("x 2 <1"), d), math.MaxInt, feed{}, feed{Each: 1})
		}
	})
	c.serial(func(w *worker) {
		for _, x := range []string{"9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551618", "36893488147419103234", strings.Repeat("1", 9000)} {
			for _, m := range []int{math.MaxInt, 1 << 40} {
				w.do(&scanRun{Data: B(x + " <12 3 <12"), Max: m})
				w.do(&scanRun{Data: B("2 <1" + x + "<12 3 <12"), Max: m})
				w.do(&scanRun{Data: B(x), Max: m, Feed: feed{Each: 1}})
			}
		}
	})
	c.note("what", "tokens of the exported scanner compared with those of a reference scanner, and the texts of tokens and token types")
	c.assume("messages longer than the maximum given to the scanner are left unspecified, and so is what comes after the first end")
}

// ---- P27: whatever the input

// lookAt reads a message in every way.
func lookAt(m syslog.Message) {
	_ = m.Valid()
	for k := 0; k < 2; k++ {
		_, _, _, _, _ = m.FacilityMessage(), m.FacilityLevel(), m.SeverityMessage(), m.SeverityLevel(), m.SeverityShortLevel()
	}
}

// useAll uses a result in every way.
func useAll(m syslog.Message, err error) {
	if err != nil {
		_ = err.Error()
	}
	if isNilMessage(m) {
		return
	}
	lookAt(m)
	switch x := m.(type) {
	case *rfc5424.SyslogMessage:
		_, _ = x.String()
		x.SetPriority(13).SetVersion(2).SetParameter("i", "n", "v").SetElementID("j").SetMessage("m").SetHostname("h")
		_, _ = x.String()
	case *rfc3164.SyslogMessage:
		x.ComputeFromPriority(13)
	}
	_ = m.Valid()
}

type robustParse struct {
	P      pcfg
	Inputs []B
}

func (r *robustParse) Kind() string { return "robustParse" }

func (r *robustParse) Run() string {
	m := r.P.new()
	for _, in := range r.Inputs {
		msg, err := m.Parse(append([]byte{}, in...))
		if isNilMessage(msg) && err == nil {
			return fmt.Sprintf("input %q: neither a message nor an error", short(string(in)))
		}
		useAll(msg, err)
	}
	return ""
}

type robustStream struct {
	S    scfg
	Data B
	Feed feed
}

func (r *robustStream) Kind() string { return "robustStream" }

func (r *robustStream) Run() string {
	n := 0
	bad := ""
	p := r.S.new(func(res *syslog.Result) {
		n++
		if res == nil {
			bad = "a nil result is delivered"
			return
		}
		if isNilMessage(res.Message) && res.Error == nil {
			bad = "a result has neither a message nor an error"
		}
		useAll(res.Message, res.Error)
	})
	for k := 0; k < 2; k++ {
		n = 0
		p.Parse((&planReader{data: append([]byte{}, r.Data...), f: r.Feed}).as(r.Feed.As))
		if n > 2*len(r.Data)+2 {
			return fmt.Sprintf("%d results for %d bytes", n, len(r.Data))
		}
	}
	return bad
}

// robustBuild: setter calls, the message used after each.
type robustBuild struct{ Ops []op }

func (r *robustBuild) Kind() string { return "robustBuild" }

func (r *robustBuild) Run() string {
	m := &rfc5424.SyslogMessage{}
	for _, o := range r.Ops {
		o.apply(m)
		_ = m.Valid()
		s, err := m.String()
		if err == nil {
			msg, err := rfc5424.NewMachine(rfc5424.WithBestEffort()).Parse([]byte(s))
			useAll(msg, err)
		}
	}
	useAll(m, nil)
	return ""
}

// robustMessage: a message with fields of any value, set by hand.
type robustMessage struct{ Pri, Fac, Sev, Ver, SD int }

func (r *robustMessage) Kind() string { return "robustMessage" }

func (r *robustMessage) Run() string {
	u := func(n int) *uint8 {
		if n < 0 {
			return nil
		}
		x := uint8(n)
		return &x
	}
	b := syslog.Base{Priority: u(r.Pri), Facility: u(r.Fac), Severity: u(r.Sev)}
	e := ""
	if r.SD >= 4 {
		b.Hostname, b.Appname, b.ProcID, b.MsgID, b.Message = &e, &e, &e, &e, &e
		b.Timestamp = &time.Time{}
	}
	m := &rfc5424.SyslogMessage{Base: b, Version: uint16(r.Ver)}
	switch r.SD % 4 {
	case 1:
		m.StructuredData = &map[string]map[string]string{}
	case 2:
		m.StructuredData = &map[string]map[string]string{"a": nil, "": {"": ""}}
	case 3:
		var sd map[string]map[string]string
		m.StructuredData = &sd
	}
	// read only: setting parameters on a map that does not exist is the caller's doing
	lookAt(m)
	_, _ = m.String()
	lookAt(&rfc3164.SyslogMessage{Base: b})
	return ""
}

// robustFields: a message with texts, structured data and a time of any kind, set by hand.
type robustFields struct {
	Texts  [5]int // which text, of the host, application, process, message id and text
	ID, N  int    // structured data: which identifier, how many parameters; N < 0: no map
	Name   int    // which name and value
	When   int    // which time
	Ver    int
	Legacy bool `json:",omitempty"`
}

func (r *robustFields) Kind() string { return "robustFields" }

var oddTexts = []string{"", " ", "-", "]", "\"", "\\", "=", "\x00", "\xff", "\xc3", "\xef\xbb\xbf", "\u00e9\u4e16", "%s%d%", "a b", "<1>", "\n", "\x7f", string(rep('x', 32)), string(rep('y', 33)), string(rep(']', 300)), string(rep('z', 70000))}

var oddTimes = []time.Time{
	{}, time.Unix(0, 0), time.Unix(1<<62, 0), time.Unix(-1<<62, 0), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(-1, 1, 1, 0, 0, 0, 1, time.UTC),
	time.Date(2000, 1, 1, 0, 0, 0, 0, time.FixedZone("", 1)), time.Date(2000, 1, 1, 0, 0, 0, 0, time.FixedZone("", -86399)), time.Date(2000, 1, 1, 0, 0, 0, 0, time.FixedZone("far", 1<<30)), time.Date(292277026596, 12, 4, 15, 30, 7, 999999999, time.FixedZone("", 3600)), time.Now(),
}

func (r *robustFields) Run() string {
	text := func(i int) *string {
		if i < 0 || i >= len(oddTexts) {
			return nil
		}
		s := oddTexts[i]
		return &s
	}
	b := syslog.Base{Hostname: text(r.Texts[0]), Appname: text(r.Texts[1]), ProcID: text(r.Texts[2]), MsgID: text(r.Texts[3]), Message: text(r.Texts[4])}
	b.ComputeFromPriority(uint8(r.Ver))
	if r.When >= 0 {
		t := oddTimes[r.When%len(oddTimes)]
		b.Timestamp = &t
	}
	if r.Legacy {
		lookAt(&rfc3164.SyslogMessage{Base: b})
		return ""
	}
	m := &rfc5424.SyslogMessage{Base: b, Version: uint16(r.Ver)}
	var ps map[string]string
	if r.N >= 0 {
		ps = map[string]string{}
		for i := 0; i < r.N; i++ {
			k := oddTexts[r.Name%len(oddTexts)]
			if i > 0 {
				k += strconv.Itoa(i)
			}
			ps[k] = oddTexts[(r.Name+i)%len(oddTexts)]
		}
	}
	id := string(rep('i', r.ID))
	if r.ID >= 100 {
		id = oddTexts[(r.ID-100)%len(oddTexts)]
	}
	m.StructuredData = &map[string]map[string]string{id: ps}
	if r.ID%2 == 1 {
		(*m.StructuredData)["other"] = ps
	}
	lookAt(m)
	_, _ = m.String()
	return ""
}

// oddOptions: numbers, zones and types of any value given to the options.
type oddOptions struct{ N int }

func (o *oddOptions) Kind() string { return "oddOptions" }

func (o *oddOptions) Run() string {
	for _, best := range modes() {
		for _, y := range []rfc3164.YearOperator{rfc3164.Year{YYYY: o.N}, givenYear(o.N), rfc3164.CurrentYear{}} {
			for _, loc := range []*time.Location{nil, time.UTC, time.Local, time.FixedZone("", o.N%1000000), time.FixedZone("x", -o.N%100000)} {
				for _, lz := range []*time.Location{nil, loc} {
					op := []syslog.MachineOption{rfc3164.WithYear(y), rfc3164.WithTimezone(loc), rfc3164.WithLocaleTimezone(lz), rfc3164.WithRFC3339()}
					if best {
						op = append(op, rfc3164.WithBestEffort())
					}
					m := rfc3164.NewMachine(op...)
					for _, in := range []string{"<1>Feb 29 23:59:59 h t: m", "<1>2020-02-29T00:00:00+14:00 h t: m", "<1>Dec 31 23:59:60 h t", "<1>Jan  1 00:00:00 h t["} {
						msg, err := m.Parse([]byte(in))
						useAll(msg, err)
					}
				}
			}
		}
	}
	t := nontransparent.TrailerType(o.N)
	_ = t.String()
	_, _ = t.Value()
	_, _ = t.MarshalText()
	_ = octetcounting.TokenType(o.N).String()
	var got int
	l := syslog.WithListener(func(r *syslog.Result) { got++; useAll(r.Message, r.Error) })
	nontransparent.NewParser(l, nontransparent.WithTrailer(t), syslog.WithMaxMessageLength(o.N)).Parse(strings.NewReader(hdr + "\n" + hdr + "\x00" + hdr))
	octetcounting.NewParser(l, syslog.WithMaxMessageLength(o.N)).Parse(strings.NewReader(frame(hdr) + frame(hdr) + "17 " + hdr))
	s := octetcounting.NewScanner(bytes.NewReader([]byte(frame(hdr)+"x"+frame(hdr)+"99999999999999999999 <")), o.N)
	for i := 0; i < 12; i++ {
		_ = s.Scan().String()
	}
	_ = common.InBetween(o.N, -o.N, o.N)
	_ = common.ValidPriority(uint8(o.N))
	_ = common.ValidVersion(uint16(o.N))
	if got == 0 {
		return "no result at all"
	}
	return ""
}

func checkP27(c *Ctx) {
	// options first: the largest numbers may take memory
	c.serial(func(w *worker) {
		for k := uint(0); k < 64; k++ {
			for d := -1; d <= 1; d++ {
				n := int(uint64(1)<<(63-k) + uint64(d))
				w.do(&oddOptions{N: n})
				w.do(&oddOptions{N: -n})
			}
		}
		for n := -300; n < 300; n++ {
			w.do(&oddOptions{N: n})
		}
	})
	// every state and every byte, on each machine
	for i, p := range cfgs24() {
		p := p
		good := B(p.skeletons()[0])
		allInputs(c, p, c.pick(0, 1), func(w *worker, in []byte) {
			w.do(&robustParse{P: p, Inputs: []B{B(in), good, B(in)}})
		})
		run := func(w *worker, in []byte) { w.do(&robustParse{P: p, Inputs: []B{B(in)}}) }
		// all short strings of bytes
		c.parallel(256*257, func(w *worker, i int) {
			in := []byte{byte(i % 256)}
			if i >= 256 {
				in = append(in, byte(i/256-1))
			}
			run(w, in)
			run(w, cat(p.skeletons()[0], in))
			run(w, cat(in, p.skeletons()[0]))
		})
		if i < 4 || c.thorough() {
			if p.Format == 5424 {
				longContents5(c, mode5{p.Best, p.Compliant}, run)
				sizeSweeps5(c, mode5{p.Best, p.Compliant}, run)
				mutations(c, skeletons5(), run)
				sdFamilies5(c, mode5{p.Best, p.Compliant}, run)
			} else {
				families3(c, cfg3{Best: p.Best, RFC3339: p.RFC3339}, run)
				mutations(c, skeletons3(), run)
			}
		}
		for n := 16; n <= 22; n++ {
			n := n
			c.parallel(len(p.skeletons()), func(w *worker, k int) {
				sk := p.skeletons()[k]
				for at := 0; at < len(sk); at += 3 {
					if n > 18 && at%15 != 0 {
						continue
					}
					run(w, cat(sk[:at], rep(sk[at], 1<<uint(n)), sk[at:]))
				}
			})
		}
	}
	// streams
	g := c.newStreamGen()
	g.robust = true
	g.departures(c)
	g.interrupted(c)
	odd := []feed{{As: "stuck"}, {As: "flaky"}, {As: "stuck", Each: 1}, {As: "flaky", Each: 1}, {As: "bufio16", Err: "boom"}, {As: "multi"}, {Plan: make([]int, 99)}, {Plan: make([]int, 100)}, {Plan: make([]int, 250), Each: 1}}
	for kind := 0; kind < 3; kind++ {
		s := scfg{Octet: kind == 0, NUL: kind == 2}
		ls := s.legs()
		c.parallel(len(ls)*len(ls), func(w *worker, i int) {
			s := s
			for _, s.Best = range modes() {
				for _, f := range odd {
					d := cat(ls[i/len(ls)].Data, ls[i%len(ls)].Data)
					w.do(&robustStream{S: s, Data: d, Feed: f})
				}
			}
		})
	}
	// builder
	fields := []string{"ts", "host", "app", "proc", "mid", "id", "param", "text"}
	c.parallel(256*256, func(w *worker, i int) {
		x := string([]byte{byte(i / 256), byte(i % 256)})
		ops := []op{num("pri", i%256), num("ver", i)}
		for _, f := range fields {
			ops = append(ops, op{F: f, A: B(x), P: B(x), V: B(x)})
		}
		w.do(&robustBuild{Ops: append(ops, par("i", "n", x+"\\"), par("i", "n", "\\"+x), par("i", x, "v"), par(x, "n", "v"))})
	})
	c.parallel(len(fields)*22, func(w *worker, i int) {
		f, n := fields[i%len(fields)], 1<<uint(i/len(fields))
		for _, b := range []byte("x-\\\"]= <\x00\xc3\xff2") {
			v := B(rep(b, n))
			w.do(&robustBuild{Ops: []op{num("pri", 1), num("ver", 1), {F: f, A: v, P: B("n"), V: v}, {F: f, A: B("a"), P: v, V: v}, {F: f, A: B("a"), P: B("n"), V: v}}})
		}
	})
	c.parallel(257, func(w *worker, i int) {
		for k := -1; k < 256; k++ {
			w.do(&robustMessage{Pri: i - 1, Fac: k, Sev: (k + i) % 256, Ver: k * 8, SD: (i + k + 1) % 8})
			w.do(&robustMessage{Pri: k, Fac: (k * 3) % 256, Sev: i - 1, Ver: 1, SD: i % 8})
		}
	})
	nt := len(oddTexts)
	c.parallel((100+nt)*nt, func(w *worker, i int) {
		for n := -1; n <= 3; n++ {
			for _, ver := range []int{1, 0, 999, 1000} {
				w.do(&robustFields{Texts: [5]int{-1, -1, -1, -1, -1}, ID: i / nt, N: n, Name: i % nt, When: -1, Ver: ver})
			}
		}
	})
	c.parallel(5*nt*nt, func(w *worker, i int) {
		t := [5]int{-1, -1, -1, -1, -1}
		f := i / (nt * nt)
		t[f] = i % nt
		t[(f+1)%5] = i / nt % nt
		for k := -1; k < len(oddTimes); k++ {
			w.do(&robustFields{Texts: t, N: 1, When: k, Ver: 1 + (k+1)*37, Legacy: k%3 == 1})
		}
	})
	c.parallel(len(oddTimes)*256, func(w *worker, i int) {
		for _, legacy := range modes() {
			w.do(&robustFields{Texts: [5]int{i % nt, i % nt, i % nt, i % nt, i % nt}, When: i / 256, Ver: i % 256, Legacy: legacy})
		}
	})
	g.finish()
	c.note("what", "no panic, no hang, no empty answer, for every input of the conformance suites, short strings, large inputs, streams broken in every way, readers that are stuck or fail now and then, setter calls of all kinds, hand-made messages and odd options; every result used in every way")
}
