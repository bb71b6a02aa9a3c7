package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/common"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func init() {
	checks["P28"] = checkP28
	replayers["pump"] = func(b json.RawMessage) (Scenario, error) {
		s := &pump{}
		return s, json.Unmarshal(b, s)
	}
	replayers["pumpStream"] = func(b json.RawMessage) (Scenario, error) {
		s := &pumpStream{}
		return s, json.Unmarshal(b, s)
	}
	replayers["pumpBuild"] = func(b json.RawMessage) (Scenario, error) {
		s := &pumpBuild{}
		return s, json.Unmarshal(b, s)
	}
}

// soon is the time any call may take on a few megabytes, a hundred times what it takes when its cost is proportional.
const soon = 12 * time.Second

// clock tells the first step that has taken too long.
type clock struct {
	t   time.Time
	bad string
}

func (k *clock) lap(what string) {
	now := time.Now()
	if d := now.Sub(k.t); d > soon && k.bad == "" {
		k.bad = fmt.Sprintf("%s took %s", what, d)
	}
	k.t = now
}

// pump is an input in which a loop of the model is repeated: %d in the loop stands for the number of the repetition.
type pump struct {
	P                    pcfg
	Prefix, Loop, Suffix B
	Size                 int
}

func (p *pump) Kind() string { return "pump" }

func pumped(prefix, loop, suffix []byte, size int) []byte {
	o := append(make([]byte, 0, size+len(prefix)+len(loop)+len(suffix)+16), prefix...)
	if s := string(loop); strings.Contains(s, "%d") {
		for i := 0; len(o) < size; i++ {
			o = append(o, strings.ReplaceAll(s, "%d", fmt.Sprint(i))...)
		}
	} else {
		for len(o) < size {
			o = append(o, loop...)
		}
	}
	return append(o, suffix...)
}

func (p *pump) Run() string {
	in := pumped(p.Prefix, p.Loop, p.Suffix, p.Size)
	m := p.P.new()
	k := &clock{t: time.Now()}
	msg, err := m.Parse(in)
	k.lap(fmt.Sprintf("parsing %d bytes", len(in)))
	if err != nil {
		_ = err.Error()
	}
	if x, ok := msg.(*rfc5424.SyslogMessage); ok && x != nil {
		_, _ = x.String()
		k.lap(fmt.Sprintf("rendering the message of %d bytes", len(in)))
		x.SetParameter("another", "name", "value").SetMessage("text")
		k.lap("changing the message")
	}
	return k.bad
}

// pumpStream is a stream in which a part is repeated.
type pumpStream struct {
	S                    scfg
	Prefix, Loop, Suffix B
	Size                 int
	Feed                 feed
}

func (p *pumpStream) Kind() string { return "pumpStream" }

func (p *pumpStream) Run() string {
	in := pumped(p.Prefix, p.Loop, p.Suffix, p.Size)
	k := &clock{t: time.Now()}
	p.S.new(func(*syslog.Result) {}).Parse((&planReader{data: in, f: p.Feed}).as(p.Feed.As))
	k.lap(fmt.Sprintf("a stream of %d bytes", len(in)))
	return k.bad
}

// pumpBuild: many setter calls, or one with a large value.
type pumpBuild struct {
	How  string
	Piec B
	Size int
}

func (p *pumpBuild) Kind() string { return "pumpBuild" }

func (p *pumpBuild) Run() string {
	m := &rfc5424.SyslogMessage{}
	m.SetPriority(1).SetVersion(1)
	k := &clock{t: time.Now()}
	v := ""
	if p.How != "parameters" && p.How != "elements" && p.How != "same" {
		v = strings.Repeat(string(p.Piec), p.Size/len(p.Piec))
	}
	n := p.Size / 16
	switch p.How {
	case "value":
		m.SetParameter("a", "b", v)
	case "text":
		m.SetMessage(v)
	case "field":
		m.SetHostname(v).SetAppname(v).SetProcID(v).SetMsgID(v).SetElementID(v).SetTimestamp(v)
		m.SetParameter(v, v, v)
	case "parameters":
		for i := 0; i < n; i++ {
			m.SetParameter("a", fmt.Sprint("n", i), string(p.Piec))
		}
	case "elements":
		for i := 0; i < n; i++ {
			m.SetParameter(fmt.Sprint("n", i), "a", string(p.Piec))
		}
	case "same":
		for i := 0; i < n; i++ {
			m.SetParameter("a", "b", string(p.Piec)).SetElementID("a").SetMessage("m").SetHostname("h").SetTimestamp("2018-10-11T22:14:15Z")
		}
	case "escape":
		s := common.EscapeBytes(v)
		k.lap("escaping")
		var at []int
		for i := 0; i < len(s); i++ {
			if s[i] == '\\' {
				at = append(at, i+7)
				i++
			}
		}
		_ = common.RemoveBytes([]byte(s), at, 7)
		k.lap("removing the backslashes")
	}
	k.lap("setting")
	s, err := m.String()
	k.lap("rendering")
	if err == nil {
		_, _ = rfc5424.NewMachine().Parse([]byte(s))
		k.lap("parsing what was rendered")
	}
	return k.bad
}

// cycles are, for every state and every class of bytes, the shortest words that start so and lead back to the state.
func (e *explored) cycles() (o [][2][]byte) {
	for s := 0; s < e.n; s++ {
		for _, b := range e.reps {
			t := e.delta[s][b]
			if t < 0 {
				continue
			}
			// breadth first from t to s
			from := map[int32][]byte{t: {b}}
			queue := []int32{t}
			for len(queue) > 0 {
				x := queue[0]
				queue = queue[1:]
				if x == int32(s) {
					o = append(o, [2][]byte{e.access[s], from[x]})
					break
				}
				if len(from[x]) > 12 {
					break
				}
				for _, c := range e.reps {
					if y := e.delta[x][c]; y >= 0 && from[y] == nil {
						from[y] = cat(from[x], []byte{c})
						queue = append(queue, y)
					}
				}
			}
		}
	}
	return
}

func checkP28(c *Ctx) {
	size := c.pick(1<<22, 1<<23)
	type job struct {
		p                    pcfg
		prefix, loop, suffix string
	}
	var jobs []job
	loops := 0
	for _, p := range cfgs24() {
		if p.Parser {
			continue
		}
		var e *explored
		if p.Format == 5424 {
			e, _ = explore(model5(p.Compliant))
		} else {
			e, _ = explore(model3(p.RFC3339))
		}
		c.addStates(e.n)
		c.addTransitions(e.n * 256)
		for _, x := range e.cycles() {
			loops++
			// the loop, then the shortest ways to end: nothing, a byte that is not accepted
			jobs = append(jobs, job{p, string(x[0]), string(x[1]), ""})
			if loops%4 == 0 {
				jobs = append(jobs, job{p, string(x[0]), string(x[1]), "\x01"})
			}
		}
		if p.Format == 5424 {
			sd := "<1>1 - - - - - "
			for _, l := range [][3]string{{"[a", " n%d=\"v\"", "]"}, {"[a", " n%d=\"v\"", ""}, {"[a", " n=\"v\"", "] m"}, {"[a", " n%d=\"\\]\\]\"", "]"}, {"", "[n%d]", ""}, {"", "[n%d]", " m"}, {"", "[n%d]", "[n0]"}, {"", "[n%d a=\"b\"]", " m"}, {"", "[n%d a=\"b\" b=\"\\\"\"]", "["}, {"[a b=\"", "\\]", "\"]"},
				{"[a b=\"", "x", "\"]"}, {"[a b=\"", "\xc3\xa9\\\\", "\"] t"}, {"[a b=\"", "\\\"", "\""}, {"[a b=\"", "\\\"", ""}, {"[a b=\"", "\xf0\x9f\x98\x80", "\\x"}, {"- ", "\xef\xbb\xbf", ""}, {"- ", "x\xff", ""}, {"", "[a]", ""}, {"", "[", ""}, {"", " ", ""}, {"-", " ", ""}} {
				jobs = append(jobs, job{p, sd + l[0], l[1], l[2]})
			}
			for i := range "<1>1 - - - - - " {
				for _, l := range []string{"1", "x", " ", "-", "<1>1 ", "\x00"} {
					jobs = append(jobs, job{p, sd[:i], l, ""})
				}
			}
		} else {
			for i := range pre3 {
				for _, l := range []string{"1", "x", " ", "-", "<1>", "\x00"} {
					jobs = append(jobs, job{p, pre3[:i], l, ""})
				}
			}
			for _, l := range []string{"x", "t: ", "t[1]: ", "[", "]", ":", "[]", "]:", " ", "t[", "\xc3\xa9", "%d", "%d: ", "%d[%d]: x "} {
				for _, s := range []string{"", "\x00", "]", "]:", "]: x", ": x"} {
					jobs = append(jobs, job{p, pre3, l, s}, job{p, pre3 + "tag[", l, s}, job{p, pre3 + "tag: ", l, s})
				}
			}
		}
	}
	c.note("loops_of_the_models", loops)
	c.note("size_of_the_inputs", size)
	c.parallel(len(jobs), func(w *worker, i int) {
		j := jobs[i]
		w.do(&pump{P: j.p, Prefix: B(j.prefix), Loop: B(j.loop), Suffix: B(j.suffix), Size: size})
	})
	// streams
	var ss []*pumpStream
	for _, best := range modes() {
		for _, l := range [][3]string{{"", frame(hdr), ""}, {"", frame(sized(100)), "x"}, {"", frame("<1>1 - h a p m [a b=\"\\]\"] t"), "5"}, {"", frame(sized(8192)), ""}, {"", "1", ""}, {"", "9", " " + hdr}, {"16", " ", ""}, {"16 ", "<", ""}, {"", "x", ""}, {"4000000 " + hdr, "y", ""}, {"4000000 " + hdr + " ", "\x00", frame(hdr)}, {frame(hdr) + "3999999 <1>1 - - - - - [a b=\"", "\\]", "\"]"}} {
			for _, m := range []*int{nil, intp(1 << 30), intp(64)} {
				for _, f := range []feed{{}, {Each: 1}, {Each: 4096, Err: "boom"}} {
					ss = append(ss, &pumpStream{scfg{Octet: true, Best: best, Max: m}, B(l[0]), B(l[1]), B(l[2]), size, f})
				}
			}
		}
		for _, nul := range modes() {
			t := string([]byte{scfg{NUL: nul}.trailer()})
			o := string([]byte{scfg{NUL: !nul}.trailer()})
			for _, l := range [][3]string{{"", hdr + "T", ""}, {"", hdr + " text T", "x"}, {hdr, "xT", ""}, {hdr, "T", ""}, {hdr, "T", hdr + "T"}, {hdr, "xT", hdr + "Tz"}, {"", "T", ""}, {"", "x", ""}, {"", "xT", "T"}, {hdr + " ", "y", ""}, {hdr + " ", "y", "T"}, {"", "<T", ""}, {"", "<", "T"}, {hdr + "T", "O", "T"}, {hdr + " ", "O<", "T"}, {hdr, "long line of text T", hdr}} {
				f := func(s string) B { return B(strings.NewReplacer("T", t, "O", o).Replace(s)) }
				for _, fd := range []feed{{}, {Each: 1}, {Each: 4096, Err: "boom"}, {Each: 999, WithErr: true}} {
					ss = append(ss, &pumpStream{scfg{NUL: nul, Best: best}, f(l[0]), f(l[1]), f(l[2]), size, fd})
				}
			}
		}
	}
	c.parallel(len(ss), func(w *worker, i int) { w.do(ss[i]) })
	// the builder and the helpers
	var bs []*pumpBuild
	for _, how := range []string{"value", "text", "field", "parameters", "elements", "same", "escape"} {
		for _, x := range []string{"x", "\\\\", "\\]", "\"", "\\", "\xc3\xa9", "\xff", " ", "a\\\"b", "]"} {
			bs = append(bs, &pumpBuild{how, B(x), size})
		}
	}
	c.parallel(len(bs), func(w *worker, i int) { w.do(bs[i]) })
	c.note("what", "every loop of the models, and loops with fresh names, repeated up to the size; streams and builder calls likewise; each call must take less than "+soon.String()+", where a cost proportional to the size is a fraction of a second and one proportional to its square minutes")
	c.assume("a super-linear cost shows within the size explored: time is measured, with a margin of about two orders of magnitude on both sides")
}
