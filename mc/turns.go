package main

import (
	"encoding/json"
	"fmt"
	"strings"

	syslog "github.com/influxdata/go-syslog/v3"
)

// turns: stream parsers with different maxima (0: the default one) and lines of different lengths, made and used one
// after the other, several streams each; what a parser that is gone leaves behind is of no matter to the next one.
type turns struct {
	Lines bool
	Best  bool
	Maxs  []int
}

func (t *turns) Kind() string { return "turns" }

func (t *turns) Run() string {
	for k, m := range t.Maxs {
		s := scfg{Octet: !t.Lines, Best: t.Best, NUL: t.Lines && k%2 == 1}
		if m > 0 {
			n := m
			s.Max = &n
		}
		m = s.max()
		var got []string
		p := s.new(func(r *syslog.Result) { got = append(got, outcomeOf(r.Message, r.Error)) })
		var streams []string
		if t.Lines {
			e := string([]byte{s.trailer()})
			streams = []string{hdr + e + sized(m+16) + e + hdr + e, sized(m+15) + e + sized(m+17) + e, hdr + e}
		} else {
			small := min(m, 16)
			streams = []string{
				frame(sized(small)) + frame(sized(m)) + frame(sized(small)) + frame(sized(max(m-1, 1))) + frame(sized(small)),
				frame(sized(small)) + frame(sized(m+1)) + frame(hdr),
				frame(sized(m)) + frame(sized(m/2+1)),
				frame(sized(m))[:m/2+3],
			}
		}
		for i, st := range streams {
			got = got[:0]
			p.Parse(&planReader{data: []byte(st)})
			ws, _ := s.expect([]byte(st), feed{}, nil)
			if d := sameResults(got, ws); d != "" {
				return fmt.Sprintf("parser number %d of those with maximum (or line length) %v, stream %d: %s", k, t.Maxs, i, d)
			}
		}
	}
	return ""
}

// takeTurns is the part of P20 with parsers one after the other.
func takeTurns(c *Ctx) {
	ms := []int{0, 1, 17, 64, 1500, 4076, 4096, 8191, 8193, 65536, 65537, 100000}
	n := len(ms)
	c.parallel(n*n, func(w *worker, i int) {
		for _, best := range modes() {
			for _, lines := range modes() {
				for _, m := range ms {
					if c.thorough() || m < 10000 || i%5 == 0 {
						w.do(&turns{Lines: lines, Best: best, Maxs: []int{m, ms[i/n], ms[i%n]}})
					}
				}
			}
		}
	})
	c.addTransitions(n * n * n * 12)
	c.note("maxima_in_turn", n)
}

// afterwards: one machine parses an input, and then others.
type afterwards struct {
	P     pcfg
	In    B
	After []B
}

func (a *afterwards) Kind() string { return "afterwards" }

func (a *afterwards) Run() string {
	m := a.P.new()
	for i, in := range append([]B{a.In}, a.After...) {
		r, err := m.Parse(append([]byte{}, in...))
		if g, e := outcomeOf(r, err), freshOutcome(a.P, in); g != e {
			return fmt.Sprintf("parse %d of one parser (after %q), input %q: a new parser gives %s, this one %s", i, short(string(a.In)), short(string(in)), short(e), short(g))
		}
	}
	return ""
}

// large values, in the setters, rendered and parsed back
type largeBuild struct {
	View, Field, Unit string
	N                 int
	From              B `json:",omitempty"`
}

func (l *largeBuild) Kind() string { return "largeBuild" }
func (l *largeBuild) Run() string {
	v := strings.Repeat(l.Unit, l.N/len(l.Unit)+1)[:l.N/len(l.Unit)*len(l.Unit)]
	if pad := l.N - len(v); pad > 0 {
		v = strings.Repeat("x", pad) + v
	}
	b := &build{View: l.View, From: l.From}
	if len(l.From) == 0 {
		b.Ops = []op{num("pri", 1), num("ver", 1)}
	}
	switch l.Field {
	case "value":
		b.Ops = append(b.Ops, par("e", "a", v), par("e", "b", "y"))
	case "again":
		b.Ops = append(b.Ops, par("e", "a", "before"), par("e", "a", v), s1("text", v), s1("text", "short"))
	case "values":
		b.Ops = append(b.Ops, par("e", "a", v), par("e", "b", v), par("f", "a", v[:len(v)/len(l.Unit)/2*len(l.Unit)]), s1("text", "t"))
	case "text":
		b.Ops = append(b.Ops, s1("text", v))
	default:
		b.Ops = append(b.Ops, op{F: l.Field, A: B(v)})
	}
	if bad := b.Run(); bad != "" {
		return short(bad)
	}
	return ""
}

func largeBuilds(c *Ctx, view string) {
	sizes := largeSizes(c)
	fields := []string{"value", "text", "again", "values", "host", "id"}
	units := []string{"v", "\\]", "\xc3\xa9\\\"z", "0123456789"}
	n := len(fields) * len(units) * 2
	c.parallel(len(sizes)*n, func(w *worker, i int) {
		l := &largeBuild{View: view, Field: fields[i%n/2%len(fields)], Unit: units[i%n/2/len(fields)], N: sizes[len(sizes)-1-i/n]}
		if i%2 == 1 {
			l.From = B(full5)
		}
		if (l.Field == "host" || l.Field == "id" || l.N > 1<<20) && l.Unit != units[0] && !c.thorough() {
			return
		}
		w.do(l)
	})
	c.note("largest_value_set", sizes[len(sizes)-1])
}

func init() {
	reg := func(kind string, f func() Scenario) {
		replayers[kind] = func(b json.RawMessage) (Scenario, error) {
			s := f()
			return s, json.Unmarshal(b, s)
		}
	}
	reg("turns", func() Scenario { return &turns{} })
	reg("afterwards", func() Scenario { return &afterwards{} })
	reg("largeBuild", func() Scenario { return &largeBuild{} })
}

// reoptioned: options are also given to a parser already in use, by applying them; they are in force from then on.
type reoptioned struct {
	Inst  inst
	Later []string
	Lazy  bool `json:",omitempty"` // probed in the end only
}

func (r *reoptioned) Kind() string { return "reoptioned" }

func (r *reoptioned) Run() string {
	l := &live{inst: r.Inst}
	l.create(nil)
	say := func(n int, d string) string {
		return fmt.Sprintf("%s parser made with %v, then given %v: %s", l.Kind, r.Inst.Opts, r.Later[:n], d)
	}
	for i, o := range r.Later {
		if !r.Lazy {
			if d := l.probe(); d != "" {
				return say(i, d)
			}
		}
		k, v := optKey(o)
		if l.m != nil {
			if m := machineOpt(l.Kind, o)(l.m); m != l.m {
				return say(i+1, "the option gives another machine")
			}
		} else if p := parserOpt(o, l)(l.s); p != l.s {
			return say(i+1, "the option gives another parser")
		}
		if k != "trailer" || v == "0" || v == "1" {
			l.has[k] = v
		}
	}
	if d := l.probe(); d != "" {
		return say(len(r.Later), d)
	}
	return ""
}

func init() {
	replayers["reoptioned"] = func(b json.RawMessage) (Scenario, error) {
		s := &reoptioned{}
		return s, json.Unmarshal(b, s)
	}
}

// lateOptions is the part of P20 with options given later.
func lateOptions(c *Ctx, reps []inst) {
	alpha := map[string][]string{
		"5424":  {"best", "compliant"},
		"3164":  {"best", "rfc3339", "year:2020", "year:0", "year:1999", "locale:America/New_York", "locale:Europe/Rome", "zone:Asia/Kolkata", "zone:UTC"},
		"octet": {"listener", "max:20", "max:16", "max:8193", "max:8192"},
		"lines": {"listener", "trailer:7", "max:20"},
	}
	c.parallel(len(reps), func(w *worker, i int) {
		x := reps[i]
		if x.Parser { // the mutex protected ones are told by their methods only
			return
		}
		var rec func(later []string)
		rec = func(later []string) {
			if len(later) > 0 {
				w.do(&reoptioned{Inst: x, Later: later, Lazy: len(later)%2 == 0})
			}
			if len(later) == 3 || c.isStopped() {
				return
			}
			for _, o := range alpha[x.Kind] {
				rec(append(later[:len(later):len(later)], o))
			}
		}
		rec(nil)
		k := len(alpha[x.Kind])
		c.addTransitions(k + k*k + k*k*k)
	})
}
