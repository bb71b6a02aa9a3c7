package main

import (
	"encoding/json"
	"fmt"

	syslog "github.com/influxdata/go-syslog/v3"
)

// crowd is a great number of parsers alive at the same time: they are made one after the other (with the options of
// Insts, in turn), each is probed, some are switched to best effort, and each is probed again.
type crowd struct {
	Insts  []inst
	N      int
	Switch int `json:",omitempty"` // every so many machines are switched
}

func (s *crowd) Kind() string { return "crowd" }

func (s *crowd) Run() string {
	ls := make([]*live, s.N)
	say := func(when string, i int, d string) string {
		return fmt.Sprintf("%s, parser number %d of %d (%s, mutex %v, options %v, best effort set later %v): %s", when, i, s.N, ls[i].Kind, ls[i].Parser, ls[i].Opts, ls[i].late, d)
	}
	for i := range ls {
		ls[i] = &live{inst: s.Insts[i%len(s.Insts)]}
		ls[i].create(nil)
	}
	for i, l := range ls {
		if d := l.probe(); d != "" {
			return say("all being there", i, d)
		}
	}
	if s.Switch > 0 {
		for i := 0; i < s.N; i += s.Switch {
			if ls[i].m == nil {
				continue
			}
			ls[i].m.WithBestEffort()
			ls[i].late = true
			for k, l := range ls {
				if l.m != nil && l.m.HasBestEffort() != (l.on("best") || l.late) {
					return say(fmt.Sprintf("number %d having been switched to best effort", i), k, fmt.Sprintf("HasBestEffort gives %v", l.m.HasBestEffort()))
				}
			}
		}
	}
	for i := s.N - 1; i >= 0; i-- {
		if d := ls[i].probe(); d != "" {
			return say("in the end", i, d)
		}
	}
	return ""
}

// chain: the first parser is in the middle of its stream when the second one is made and used, which is in the middle of
// its own when the third one is, and so on.
type chain struct {
	Depth  int
	Rot    int  // the configuration and the stream of the first one
	Listen bool `json:",omitempty"`
}

func (s *chain) Kind() string { return "chain" }

func (s *chain) Run() string {
	cs := scfgs()
	bad := ""
	var down func(i int)
	down = func(i int) {
		if i == s.Depth {
			return
		}
		cfg := cs[(i+s.Rot)%len(cs)]
		ls := cfg.legs()
		l := ls[(i*5+s.Rot)%len(ls)]
		if i%3 == 0 { // a stream with several events
			l = ls[3]
		}
		l.exp = freshStream(cfg, l)
		calls := 0
		event := func() {
			if calls++; calls == 1+i%2 {
				down(i + 1)
			}
		}
		var got []string
		p := cfg.new(func(r *syslog.Result) {
			if s.Listen {
				event()
			}
			got = append(got, outcomeOf(r.Message, r.Error))
		})
		rd := &planReader{data: append([]byte{}, l.Data...), f: l.Feed}
		if !s.Listen {
			rd.on = func(int) { event() }
		}
		p.Parse(rd)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", l.exp) && bad == "" {
			bad = fmt.Sprintf("parser number %d of a chain of %d: alone it gives %q, here %q", i, s.Depth, l.exp, got)
		}
		for calls < 1+i%2 { // too few events: go on anyway
			event()
		}
	}
	down(0)
	return bad
}

// gathering: many machines of all kinds alive, each given inputs in turn; what they have returned is looked at in the end.
type gathering struct {
	N, Rounds int
	Rot       int
}

func (s *gathering) Kind() string { return "gathering" }

func (s *gathering) Run() string {
	ps := pcfgs()
	ms := make([]syslog.Machine, s.N)
	for i := range ms {
		ms[i] = ps[(i+s.Rot)%len(ps)].new()
	}
	type ret struct {
		m   syslog.Message
		err error
		exp string
	}
	fresh := map[string]string{}
	var kept []ret
	for r := 0; r < s.Rounds; r++ {
		for i := range ms {
			k := (i + s.Rot) % len(ps)
			cs := ps[k].corpus()
			in := cs[(i/len(ps)+r*7+s.Rot)%len(cs)]
			key := fmt.Sprint(k, in)
			exp, ok := fresh[key]
			if !ok {
				exp = freshOutcome(ps[k], []byte(in))
				fresh[key] = exp
			}
			b := []byte(in)
			m, err := ms[i].Parse(b)
			if g := outcomeOf(m, err); g != exp {
				return fmt.Sprintf("round %d, machine %d of %d (%+v) on %q: a new one gives %s, this one %s", r, i, s.N, ps[k], short(in), short(exp), short(g))
			}
			for j := range b {
				b[j] = 'Z'
			}
			kept = append(kept, ret{m, err, exp})
		}
	}
	for i, k := range kept {
		if g := outcomeOf(k.m, k.err); g != k.exp {
			return fmt.Sprintf("the result number %d changed from %s to %s", i, short(k.exp), short(g))
		}
	}
	return ""
}

// crowds is the part of P20 with many parsers at the same time.
func crowds(c *Ctx, reps []inst) {
	n := c.pick(300, 1100)
	c.parallel(len(reps), func(w *worker, i int) {
		sw := 0
		if reps[i].Kind == "5424" || reps[i].Kind == "3164" {
			sw = 1 + i%7
		}
		w.do(&crowd{Insts: reps[i : i+1], N: n, Switch: sw})
	})
	big := c.pick(2100, 20000)
	c.parallel(len(reps), func(w *worker, i int) {
		if len(reps[i].Opts) == 0 || len(reps[i].Opts) == 1 && !c.thorough() && i%8 == 0 {
			w.do(&crowd{Insts: reps[i : i+1], N: big, Switch: big / 3})
		}
	})
	c.parallel(16, func(w *worker, i int) {
		w.do(&crowd{Insts: append(append([]inst{}, reps[i*len(reps)/16:]...), reps[:i*len(reps)/16]...), N: 5*len(reps) + i, Switch: 97})
	})
	c.note("parsers_alive_at_the_same_time", big)
	c.addTransitions(2*n*len(reps) + 32*5*len(reps))
}

// crowds22 is the part of P22 with many stream parsers made, or under way, while one is in the middle of its stream.
func crowds22(c *Ctx) {
	cs := scfgs()
	var many []errand
	n := c.pick(1100, 5000)
	for i := 0; i < n; i++ {
		s := cs[i%len(cs)]
		ls := s.legs()
		l := ls[(i/len(cs))%len(ls)]
		many = append(many, errand{S: &s, Data: l.Data, Feed: l.Feed})
	}
	manyX := make([]string, n)
	for i := range many {
		manyX[i] = many[i].ready()()
	}
	c.parallel(len(cs)*2*2*3, func(w *worker, i int) {
		s := cs[i%len(cs)]
		i /= len(cs)
		l := s.legs()[3]
		exp := freshStream(s, l)
		w.do(&nested{S: s, Data: l.Data, Feed: feed{Each: 9}, Inner: many, innerX: manyX, At: []int{0, 1, 2}[i/4], Listen: i%2 == 0, Late: i/2%2 == 0, exp: exp})
	})
	depths := []int{2, 3, 10, 65, 130, c.pick(300, 1100)}
	c.parallel(len(depths)*16, func(w *worker, i int) {
		w.do(&chain{Depth: depths[i/16], Rot: i % 8, Listen: i%16 < 8})
	})
	c.note("parsers_used_in_the_middle_of_another", n)
	c.note("parsers_in_the_middle_at_the_same_time", depths[len(depths)-1])
	c.addTransitions(n*96 + 16*depths[len(depths)-1])
}

// crowds05 is the part of P05 with many machines.
func crowds05(c *Ctx) {
	c.parallel(32, func(w *worker, i int) {
		w.do(&gathering{N: []int{70, 300, 1100, c.pick(2100, 9000)}[i%4], Rounds: 3, Rot: i / 4})
	})
	c.addTransitions(8 * 3 * 3570)
	c.note("machines_alive_at_the_same_time", c.pick(2100, 9000))
}

func init() {
	replayers["crowd"] = func(b json.RawMessage) (Scenario, error) {
		s := &crowd{}
		return s, json.Unmarshal(b, s)
	}
	replayers["chain"] = func(b json.RawMessage) (Scenario, error) {
		s := &chain{}
		return s, json.Unmarshal(b, s)
	}
	replayers["gathering"] = func(b json.RawMessage) (Scenario, error) {
		s := &gathering{}
		return s, json.Unmarshal(b, s)
	}
}
