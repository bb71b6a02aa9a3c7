package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// pcfg is a configured parser of either format.
type pcfg struct {
	Format    int // 5424 or 3164
	Best      bool
	Compliant bool `json:",omitempty"`
	RFC3339   bool `json:",omitempty"`
	Year      int  `json:",omitempty"`
	Parser    bool `json:",omitempty"` // the mutex protected one
}

func (p pcfg) new() syslog.Machine {
	if p.Format == 5424 {
		return new5(p.Best, p.Compliant, p.Parser)
	}
	o := opts3(cfg3{Best: p.Best, RFC3339: p.RFC3339})
	if p.Year != 0 {
		o = append(o, rfc3164.WithYear(rfc3164.Year{YYYY: p.Year}))
	}
	if p.Parser {
		return rfc3164.NewParser(o...)
	}
	return rfc3164.NewMachine(o...)
}

func outcomeOf(m syslog.Message, err error) string { return render(m) + " | " + renderErr(err) }

// freshOutcome is what a new parser gives.
func freshOutcome(p pcfg, in []byte) string {
	m, err := p.new().Parse(append([]byte{}, in...))
	return outcomeOf(m, err)
}

// history is a sequence of inputs given to one parser instance.
type history struct {
	P      pcfg
	Inputs []B
	Round  bool `json:",omitempty"` // long walk: the retained messages are looked at in the end only
	Same   bool `json:",omitempty"` // the caller uses one buffer for all the inputs
	expect []string
}

func (h *history) Kind() string { return "history" }

const sentinel = 0x5A

func (h *history) Run() string {
	m := h.P.new()
	var msgs []syslog.Message
	var errs []error
	var outs []string
	var bufs [][]byte
	var shared []byte
	if h.Same {
		most := 0
		for _, in := range h.Inputs {
			if len(in) > most {
				most = len(in)
			}
		}
		shared = make([]byte, most+8)
	}
	for i, in := range h.Inputs {
		// the caller's buffer, with spare capacity
		back := shared
		if back == nil {
			back = make([]byte, len(in)+8)
		}
		n := copy(back, in)
		for j := n; j < len(back); j++ {
			back[j] = sentinel
		}
		var exp string
		if h.expect != nil {
			exp = h.expect[i]
		} else {
			exp = freshOutcome(h.P, in)
		}
		msg, err := m.Parse(back[:n])
		out := outcomeOf(msg, err)
		if string(back[:n]) != string(in) {
			return fmt.Sprintf("step %d: the caller's buffer was modified: %q became %q", i, short(string(in)), short(string(back[:n])))
		}
		for j := n; j < len(back); j++ {
			if back[j] != sentinel {
				return fmt.Sprintf("step %d: the bytes after the caller's buffer were modified", i)
			}
		}
		if out != exp {
			return fmt.Sprintf("step %d, input %q: a new parser gives %s but this one gives %s", i, short(string(in)), short(exp), short(out))
		}
		msgs, errs, outs, bufs = append(msgs, msg), append(errs, err), append(outs, out), append(bufs, back)
		// the caller reuses its buffer
		for j := range back {
			back[j] = 0xAA
		}
		if !h.Round {
			for k := range msgs {
				if now := outcomeOf(msgs[k], errs[k]); now != outs[k] {
					return fmt.Sprintf("the result of step %d changed after step %d and the caller overwriting its buffer: it was %s, it is %s", k, i, short(outs[k]), short(now))
				}
			}
		}
	}
	for k := range msgs {
		if now := outcomeOf(msgs[k], errs[k]); now != outs[k] {
			return fmt.Sprintf("the result of step %d changed later: it was %s, it is %s", k, short(outs[k]), short(now))
		}
	}
	if h.Round {
		return ""
	}
	// changing one message leaves the others, the buffers and the parser alone
	for k := range msgs {
		scribble(msgs[k])
		for l := k + 1; l < len(msgs); l++ {
			if now := outcomeOf(msgs[l], errs[l]); now != outs[l] {
				return fmt.Sprintf("changing the message of step %d changed the one of step %d: it was %s, it is %s", k, l, short(outs[l]), short(now))
			}
		}
		for l := range bufs {
			for _, b := range bufs[l] {
				if b != 0xAA {
					return fmt.Sprintf("changing the message of step %d changed the buffer of step %d", k, l)
				}
			}
		}
	}
	in := h.Inputs[len(h.Inputs)-1]
	msg, err := m.Parse(append([]byte{}, in...))
	if now := outcomeOf(msg, err); now != outs[len(outs)-1] {
		return fmt.Sprintf("after changing the returned messages, input %q gives %s instead of %s", short(string(in)), short(now), short(outs[len(outs)-1]))
	}
	return ""
}

// scribble changes everything that can be reached from a message.
func scribble(m syslog.Message) {
	if isNilMessage(m) {
		return
	}
	var b *syslog.Base
	switch x := m.(type) {
	case *rfc5424.SyslogMessage:
		b = &x.Base
		x.Version = 777
		if x.StructuredData != nil {
			for id, ps := range *x.StructuredData {
				for n := range ps {
					ps[n] = "scribbled"
				}
				if ps != nil {
					ps["scribble"] = "x"
				}
				_ = id
			}
			if *x.StructuredData != nil {
				(*x.StructuredData)["scribble"] = map[string]string{}
			}
		}
	case *rfc3164.SyslogMessage:
		b = &x.Base
	default:
		return
	}
	for _, p := range []*uint8{b.Facility, b.Severity, b.Priority} {
		if p != nil {
			*p ^= 0x55
		}
	}
	if b.Timestamp != nil {
		*b.Timestamp = b.Timestamp.AddDate(1, 1, 1)
	}
	for _, p := range []*string{b.Hostname, b.Appname, b.ProcID, b.MsgID, b.Message} {
		if p != nil {
			*p = "scribbled"
		}
	}
}

// corpus5 holds inputs that end in every kind of state, valid and not, small and large.
func corpus5() []string {
	return []string{
		"", "<", "<1", "<191>", "<192>1", "<1>12", "<1>1 ", "<1>1 2", "<1>1 2018-10-11T22:14:15.00",
		"<1>1 2018-02-30T22:14:15Z - - - - -", "<1>1 2018-10-11T22:14:15Z h", "<1>1 - host app", "<1>1 - h a p", "<1>1 - h a p mid",
		"<1>1 - h\x01", "<34>2 - h a p m", "<34>2 - h a p m ", "<34>2 - h a p m x", "<34>2 - h a p m -x",
		"<1>1 - - - - - [", "<1>1 - - - - - [id", "<1>1 - - - - - [id ", "<1>1 - - - - - [id n", "<1>1 - - - - - [id n=\"v", "<1>1 - - - - - [id n=\"v\"",
		"<1>1 - - - - - [id n=\"v\\", "<1>1 - - - - - [id n=\"v\\x", "<1>1 - - - - - [id n=\"\xc3", "<1>1 - - - - - [id n=\"\\]", "<1>1 - - - - - [id n=\"v\"][id]", "<1>1 - - - - - [id n=\"v\"][i=",
		"<1>1 - - - - - [id][", "<1>1 - - - - - [id]x",
		"<0>1 - - - - - -", "<191>999 - - - - - - ", "<165>1 2003-10-11T22:14:15.003Z mymachine evntslog - ID47 [exampleSDID@32473 iut=\"3\" eventSource=\"Application\" eventID=\"1011\"] BOMAn application",
		"<13>1 2003-08-24T05:14:15.000003-07:00 192.0.2.1 myproc 8710 - - %% It's time", "<1>1 - - - - - [id n=\"\\]\\\"\\\\\" m=\"x\\]\"][b] text", "<2>3 - - - - - [id n=\"1\" n=\"2\"][id2 m=\"\"]",
		"<1>1 - - - - - - \xef\xbb\xbfok", "<1>1 - - - - - - \xef\xbb\xbf\xff", "<1>1 - - - - - - \xef\xbb", "<1>1 - - - - - - \xff\xfe", "<1>1 - - - - - - \xef\xbb\xbf\xe2\x82",
		"<1>1 0000-01-01T00:00:00Z - - - - -", "<7>1 - " + strings.Repeat("h", 255) + " " + strings.Repeat("a", 48) + " " + strings.Repeat("p", 128) + " " + strings.Repeat("m", 32) + " - " + strings.Repeat("x", 5000),
		"<7>1 - - - - - " + strings.Repeat("[", 1) + "k " + strings.Repeat("p=\"v\\]\" ", 40) + "q=\"\"]",
	}
}

func corpus3() []string {
	return []string{
		"", "<", "<1", "<192", "<34>", "<34>J", "<34>Jan", "<34>Jan 1", "<34>Jan 10 1", "<34>Jan 10 10:10:10", "<34>Feb 30 10:10:10 h m", "<34>Jan 10 10:10:10 ", "<34>Jan 10 10:10:10 host",
		"<34>Jan 10 10:10:10 host ", "<34>Jan 10 10:10:10 host \x01", "<34>Jan 10 10:10:10 host a\x01", "<34>Jan 10 10:10:10 host tag:", "<34>Jan 10 10:10:10 host tag: ", "<34>Jan 10 10:10:10 host tag: t",
		"<34>Jan 10 10:10:10 host tag[", "<34>Jan 10 10:10:10 host tag[pid", "<34>Jan 10 10:10:10 host tag[pid]", "<34>Jan 10 10:10:10 host tag[pid]:", "<34>Jan 10 10:10:10 host tag[pid]: \x01", "<34>Jan 10 10:10:10 host tag[pid]: t",
		"<34>Jan 10 10:10:10 host tag: t\x01", "<34>Jan 10 10:10:10 host tag[]: t", "<34>Jan 10 10:10:10 - -: x", "<34>Jan 10 10:10:10 host just text", "<0>Dec 31 23:59:59 h x", "<191>Feb 29 00:00:00 h x[y]: \xff\xc3\xa9",
		"<34>2018-10-11T22:14:15Z host tag[1]: t", "<34>2018-10-11T22:14:15+01:30 h t", "<34>2018-02-30T22:14:15Z h t", "<34>2018-10-11T22:14:15", "<34>2",
		"<34>Jan 10 10:10:10 " + strings.Repeat("h", 255) + " " + strings.Repeat("t", 32) + "[" + strings.Repeat("9", 100) + "]: " + strings.Repeat("x", 5000),
		"<34>Jan 10 10:10:10 " + strings.Repeat("h", 256) + " t", "<34>Jan 10 10:10:10 h " + strings.Repeat("t", 33) + ": x",
	}
}

func pcfgs() []pcfg {
	var o []pcfg
	for i := 0; i < 8; i++ {
		o = append(o, pcfg{Format: 5424, Best: i&1 != 0, Compliant: i&2 != 0, Parser: i&4 != 0})
		o = append(o, pcfg{Format: 3164, Best: i&1 != 0, RFC3339: i&2 != 0, Parser: i&4 != 0})
	}
	o = append(o, pcfg{Format: 3164, Best: true, RFC3339: true, Year: 2019})
	return o
}

func (p pcfg) corpus() []string {
	if p.Format == 5424 {
		return corpus5()
	}
	return corpus3()
}

func (p pcfg) skeletons() [][]byte {
	if p.Format == 5424 {
		return skeletons5()
	}
	return skeletons3()
}

// walk2 is a closed walk over n symbols in which every ordered pair (also x,x) appears.
func walk2(n int) []int {
	var o []int
	for i := 0; i < n; i++ {
		o = append(o, i)
		for j := i + 1; j < n; j++ {
			o = append(o, i, j)
		}
	}
	// the pairs (i,i) and (i,j), i<j are there; (j,i) as well, since j is followed by i again. Close.
	return append(o, 0)
}

func init() {
	replayers["history"] = func(b json.RawMessage) (Scenario, error) {
		s := &history{}
		return s, json.Unmarshal(b, s)
	}
	checks["P05"] = check05
}

func check05(c *Ctx) {
	rooms(c)
	longLives(c)
	latePairs(c)
	featurePairs(c)
	c.assume("the outcome of a new parser is the reference for histories (P01-P04, P07-P09 judge it)")
	outcomes := map[string]bool{}
	var mu sync.Mutex
	for _, p := range pcfgs() {
		p := p
		corpus := p.corpus()
		n := len(corpus)
		exp := make([]string, n)
		for i, s := range corpus {
			exp[i] = freshOutcome(p, []byte(s))
			outcomes[exp[i]] = true
		}
		c.addStates(1 + n + n*n)
		c.addTransitions(n + n*n + n*n*n)
		hist := func(w *worker, ix ...int) {
			h := &history{P: p}
			for _, i := range ix {
				h.Inputs = append(h.Inputs, B(corpus[i]))
				h.expect = append(h.expect, exp[i])
			}
			w.do(h)
		}
		same := func(w *worker, ix ...int) {
			h := &history{P: p, Same: true}
			for _, i := range ix {
				h.Inputs = append(h.Inputs, B(corpus[i]))
				h.expect = append(h.expect, exp[i])
			}
			w.do(h)
		}
		c.parallel(n*n, func(w *worker, i int) {
			a, b := i/n, i%n
			hist(w, a, b)
			for d := 0; d < n; d++ {
				hist(w, a, b, d)
				if d == a {
					same(w, a, b, d)
				}
				if c.thorough() && !p.Parser {
					for e := 0; e < n; e += 3 {
						hist(w, a, b, d, e)
					}
				}
			}
		})
		// every prefix of the skeletons followed by every element of the corpus and by every other prefix
		var pre []string
		for _, sk := range p.skeletons()[:3] {
			for i := 0; i <= len(sk); i++ {
				pre = append(pre, string(sk[:i]))
			}
		}
		pexp := make([]string, len(pre))
		c.parallel(len(pre), func(w *worker, i int) { pexp[i] = freshOutcome(p, []byte(pre[i])) })
		c.addStates(len(pre))
		c.addTransitions(len(pre) * (n + len(pre)))
		c.parallel(len(pre), func(w *worker, i int) {
			mu.Lock()
			outcomes[pexp[i]] = true
			mu.Unlock()
			for j := range corpus {
				w.do(&history{P: p, Inputs: []B{B(pre[i]), B(corpus[j])}, expect: []string{pexp[i], exp[j]}})
				w.do(&history{P: p, Inputs: []B{B(corpus[j]), B(pre[i])}, expect: []string{exp[j], pexp[i]}})
			}
			step := c.pick(7, 1)
			for j := i % step; j < len(pre); j += step {
				w.do(&history{P: p, Inputs: []B{B(pre[i]), B(pre[j])}, expect: []string{pexp[i], pexp[j]}})
			}
		})
		// one long life: every ordered pair of inputs, over and over, all results retained to the end
		var h history
		h.P, h.Round = p, true
		rounds := c.pick(4, 40)
		for r := 0; r < rounds; r++ {
			for _, i := range walk2(n) {
				h.Inputs = append(h.Inputs, B(corpus[i]))
				h.expect = append(h.expect, exp[i])
			}
		}
		near05(c, p)
		states05(c, p)
		sizes05(c, p)
		c.addTransitions(len(h.Inputs))
		c.serial(func(w *worker) { w.do(&h) })
	}
	// one very long life: more parses than any small counter can hold
	c.parallel(2, func(w *worker, k int) {
		p := []pcfg{{Format: 5424, Best: true}, {Format: 3164, Best: true}}[k]
		w.do(&longLife{P: p, N: c.pick(200000, 1000000)})
	})
	crowds05(c)
	order05(c)
	c.note("distinct_outcomes", len(outcomes))
}

// states05: an input that leaves the parser in each state of the model, or in error in it, before other ones.
func states05(c *Ctx, p pcfg) {
	var e *explored
	if p.Format == 5424 {
		e, _ = explore(model5(p.Compliant))
	} else {
		e, _ = explore(model3(p.RFC3339))
	}
	all := p.corpus()
	var probes []string
	for i := 0; i < len(all); i += 4 {
		probes = append(probes, all[i])
	}
	exp := make([]string, len(probes))
	for i, s := range probes {
		exp[i] = freshOutcome(p, []byte(s))
	}
	c.addStates(e.n)
	c.addTransitions(e.n * len(e.reps))
	c.parallel(e.n, func(w *worker, s int) {
		first := [][]byte{e.access[s]}
		for k, b := range e.reps {
			if c.thorough() || (s+k)%3 == 0 {
				first = append(first, cat(e.access[s], []byte{b}), cat(e.access[s], []byte{b}, e.ident[s][0]))
			}
		}
		for k, f := range first {
			o := freshOutcome(p, f)
			for i := k % 3; i < len(probes); i += 3 {
				j := (i + s) % len(probes)
				w.do(&history{P: p, Inputs: []B{f, B(probes[i]), f, B(probes[j])}, expect: []string{o, exp[i], o, exp[j]}})
			}
		}
	})
}

// sizes05: contents of all sizes, one after the other, all results kept.
func sizes05(c *Ctx, p pcfg) {
	var sizes []int
	for n := 1; n <= c.pick(270, 1100); n++ {
		sizes = append(sizes, n)
	}
	for _, m := range []int{512, 1000, 1024, 2048, 4096, 8192, 16384, 65536, 100000} {
		sizes = append(sizes, m-1, m, m+1)
	}
	c.addTransitions(len(sizes) * 12)
	c.parallel(len(sizes), func(w *worker, i int) {
		n := sizes[i]
		t := func(b byte) string { return string(rep(b, n)) }
		var in []string
		if p.Format == 5424 {
			in = []string{pre5 + "- " + t('a'), pre5 + "[i k=\"" + t('b') + "\\]" + t('c') + "\" l=\"" + t('d') + "\"] " + t('e'), "<1>1 - h - - - - \xef\xbb\xbf" + t('f') + "\xff", pre5 + "[i k=\"" + t('g') + "\\\\\"] x", "<2>1 - - - - - - y"}
			if n <= 33 {
				in = append(in, "<1>1 - "+t('h')+" "+t('j')+" "+t('k')+" "+t('l')+" ["+t('m')+" "+t('n')+"=\"1\"]["+t('o')+"]", "<1>1 - "+t('H')+" "+t('J')+" "+t('K')+" "+t('L')+" ["+t('M')+" "+t('N')+"=\"2\"]["+t('O')+"]x")
			} else if n <= 256 {
				in = append(in, "<1>1 - "+t('h')+" a "+t('k')+" m -", "<1>1 - "+t('H')+" b "+t('K')+" n - z")
			}
		} else {
			in = []string{pre3 + t('a'), pre3 + "t[" + t('b') + "]: " + t('c'), "<1>Jan  1 00:00:00 h2 u: " + t('d') + "\x01", pre3 + "t[" + t('e') + "]: ", "<2>Jan  2 00:00:00 h3 y"}
			if n <= 256 {
				in = append(in, "<1>Jan  1 00:00:00 "+t('f')+" "+t('g')+": m", "<1>Jan  1 00:00:00 "+t('F')+" "+t('G')+"[1]: n")
			}
		}
		for _, same := range []bool{false, true} {
			h := &history{P: p, Same: same}
			for r := 0; r < 2; r++ {
				for k := range in {
					x := in[(k*(r+1)+r)%len(in)]
					h.Inputs = append(h.Inputs, B(x))
					h.expect = append(h.expect, freshOutcome(p, []byte(x)))
				}
			}
			w.do(h)
		}
	})
}

// longLife parses N inputs, cycling over the corpus, with one instance.
type longLife struct {
	P pcfg
	N int
}

func (l *longLife) Kind() string { return "longLife" }

func (l *longLife) Run() string {
	corpus := l.P.corpus()
	exp := make([]string, len(corpus))
	for i, s := range corpus {
		exp[i] = freshOutcome(l.P, []byte(s))
	}
	m := l.P.new()
	buf := make([]byte, 0, 8192)
	for i := 0; i < l.N; i++ {
		k := (i * 7) % len(corpus)
		if i/len(corpus)%2 == 1 {
			k = i % len(corpus)
		}
		buf = append(buf[:0], corpus[k]...)
		msg, err := m.Parse(buf)
		if out := outcomeOf(msg, err); out != exp[k] {
			return fmt.Sprintf("parse number %d, input %q: expected %s, got %s", i, corpus[k], exp[k], out)
		}
	}
	return ""
}

func init() {
	replayers["longLife"] = func(b json.RawMessage) (Scenario, error) {
		s := &longLife{}
		return s, json.Unmarshal(b, s)
	}
}
