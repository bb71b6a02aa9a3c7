package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync/atomic"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// errand is something done in the middle of something else: a stream, a parse, or a message built and rendered.
type errand struct {
	S    *scfg `json:",omitempty"`
	Feed feed
	P    *pcfg `json:",omitempty"`
	Data B     `json:",omitempty"`
	Ops  []op  `json:",omitempty"`
}

// ready makes the parser of the errand.
func (e *errand) ready() func() string {
	switch {
	case e.S != nil:
		var got []string
		p := e.S.new(func(r *syslog.Result) { got = append(got, outcomeOf(r.Message, r.Error)) })
		return func() string {
			got = nil
			p.Parse(&planReader{data: append([]byte{}, e.Data...), f: e.Feed})
			return strings.Join(got, "\n")
		}
	case e.P != nil:
		m := e.P.new()
		return func() string {
			x, err := m.Parse(append([]byte{}, e.Data...))
			return outcomeOf(x, err)
		}
	}
	return func() string {
		x := &rfc5424.SyslogMessage{}
		for _, o := range e.Ops {
			o.apply(x)
		}
		s, err := x.String()
		return fmt.Sprintf("%s %q %s", render(x), s, renderErr(err))
	}
}

// nested gives a stream to a parser, and runs the errands while the parser waits for its reader or its listener.
type nested struct {
	S      scfg
	Data   B
	Feed   feed
	Inner  []errand
	At     int  // the call of the reader or of the listener, the first is 0; -1: all of them
	Listen bool `json:",omitempty"` // in the listener rather than in the reader
	Late   bool `json:",omitempty"` // the parsers of the errands are made then
	exp    []string
	innerX []string
	calls  int
}

func (n *nested) Kind() string { return "nested" }

func (n *nested) Run() string {
	exp, innerX := n.exp, n.innerX
	if exp == nil {
		exp = freshStream(n.S, leg{Data: n.Data, Feed: n.Feed})
		for i := range n.Inner {
			innerX = append(innerX, n.Inner[i].ready()())
		}
	}
	var fs []func() string
	if !n.Late {
		for i := range n.Inner {
			fs = append(fs, n.Inner[i].ready())
		}
	}
	bad := ""
	calls := 0
	event := func() {
		k := calls
		calls++
		if n.At >= 0 && k != n.At {
			return
		}
		for i := range n.Inner {
			var f func() string
			if n.Late {
				f = n.Inner[i].ready()
			} else {
				f = fs[i]
			}
			if o := f(); o != innerX[i] && bad == "" {
				bad = fmt.Sprintf("errand %d during call %d: alone it gives %s, here %s", i, k, short(innerX[i]), short(o))
			}
		}
	}
	var got []string
	var kept []*syslog.Result
	p := n.S.new(func(r *syslog.Result) {
		kept = append(kept, r)
		if n.Listen {
			event()
		}
		got = append(got, outcomeOf(r.Message, r.Error))
	})
	rd := &planReader{data: append([]byte{}, n.Data...), f: n.Feed}
	if !n.Listen {
		rd.on = func(int) { event() }
	}
	p.Parse(rd)
	n.calls = calls
	if bad != "" {
		return bad
	}
	if len(got) != len(exp) {
		return fmt.Sprintf("undisturbed, the stream gives %d results %q, here %d: %q", len(exp), exp, len(got), got)
	}
	for i := range exp {
		if got[i] != exp[i] {
			return fmt.Sprintf("result %d: undisturbed it is %s, here %s", i, short(exp[i]), short(got[i]))
		}
		if o := outcomeOf(kept[i].Message, kept[i].Error); o != exp[i] {
			return fmt.Sprintf("result %d changed from %s to %s", i, short(exp[i]), short(o))
		}
	}
	return ""
}

// relay lets several stream parsers, each in its own goroutine, run in turn: the parser whose turn it is runs until its
// next read; Order names the one that goes on after each read.
type relay struct {
	Streams []errand
	Order   []int
	exp     []string
}

func (r *relay) Kind() string { return "relay" }

func (r *relay) Run() string {
	n := len(r.Streams)
	exp := r.exp
	if exp == nil {
		for i := range r.Streams {
			exp = append(exp, r.Streams[i].ready()())
		}
	}
	type ev struct {
		who  int
		done bool
	}
	events := make(chan ev)
	goOn := make([]chan struct{}, n)
	got := make([]string, n)
	for i := 0; i < n; i++ {
		i := i
		goOn[i] = make(chan struct{})
		e := &r.Streams[i]
		go func() {
			defer func() {
				if x := recover(); x != nil {
					got[i] = fmt.Sprint("panic: ", x)
				}
				events <- ev{i, true}
			}()
			<-goOn[i]
			var out []string
			p := e.S.new(func(r *syslog.Result) { out = append(out, outcomeOf(r.Message, r.Error)) })
			rd := &planReader{data: append([]byte{}, e.Data...), f: e.Feed}
			rd.on = func(int) {
				events <- ev{i, false}
				<-goOn[i]
			}
			p.Parse(rd)
			got[i] = strings.Join(out, "\n")
		}()
	}
	done := make([]bool, n)
	left := n
	step := func(i int) {
		goOn[i] <- struct{}{}
		if e := <-events; e.done {
			done[e.who] = true
			left--
		}
	}
	for _, i := range r.Order {
		if !done[i] {
			step(i)
		}
	}
	for left > 0 {
		for i := range done {
			for !done[i] {
				step(i)
			}
		}
	}
	for i := range exp {
		if got[i] != exp[i] {
			return fmt.Sprintf("parser %d, its reads in the order %v: alone it gives %s, here %s", i, r.Order, short(exp[i]), short(got[i]))
		}
	}
	return ""
}

func init() {
	replayers["nested"] = func(b json.RawMessage) (Scenario, error) {
		s := &nested{}
		return s, json.Unmarshal(b, s)
	}
	replayers["relay"] = func(b json.RawMessage) (Scenario, error) {
		s := &relay{}
		return s, json.Unmarshal(b, s)
	}
}

// scfgs are the configurations of the stream parsers.
func scfgs() (out []scfg) {
	for _, best := range modes() {
		out = append(out, scfg{Octet: true, Best: best}, scfg{Octet: true, Best: best, Max: intp(64)}, scfg{Best: best}, scfg{NUL: true, Best: best})
	}
	return
}

func (s scfg) legs() []leg {
	if s.Octet {
		return octLegs()
	}
	return ntLegs(s.NUL)
}

// checkNested is the part of P22 that needs no scheduler.
func checkNested(c *Ctx) {
	var outer []nested
	var inner []errand
	for _, s := range scfgs() {
		s := s
		ls := s.legs()
		if s.Octet && s.Max == nil {
			ls = append(ls, leg{Data: B(frame(sized(5000)) + frame(sized(3000)+"\n") + frame(hdr))}, leg{Data: B(frame(sized(5000)) + frame(hdr)), Feed: feed{Each: 700}})
		} else if !s.Octet {
			t := string([]byte{s.trailer()})
			ls = append(ls, leg{Data: B(sized(5000) + t + sized(3000) + t + hdr + t)}, leg{Data: B(sized(5000) + t + "more" + t + hdr + t), Feed: feed{Each: 700}})
		}
		for _, l := range ls {
			outer = append(outer, nested{S: s, Data: l.Data, Feed: l.Feed})
			inner = append(inner, errand{S: &s, Data: l.Data, Feed: l.Feed})
			if len(l.Feed.Plan) == 0 && l.Feed.Each == 0 && len(l.Data) < 200 {
				outer = append(outer, nested{S: s, Data: l.Data, Feed: feed{Each: 1, Err: l.Feed.Err}})
			}
		}
	}
	streams := len(inner)
	for _, p := range pcfgs() {
		p := p
		for _, in := range p.corpus() {
			inner = append(inner, errand{P: &p, Data: B(in)})
		}
	}
	inner = append(inner, errand{Ops: []op{num("pri", 13), num("ver", 1), s1("host", "h"), par("e0", "a", "\\\"x\\]"), s1("text", "t")}})
	inner = append(inner, errand{Ops: mixOps()})
	innerX := make([]string, len(inner))
	for i := range inner {
		innerX[i] = inner[i].ready()()
	}
	var events int64
	c.parallel(len(outer), func(w *worker, i int) {
		o := outer[i]
		o.exp = freshStream(o.S, leg{Data: o.Data, Feed: o.Feed})
		if o.exp == nil {
			o.exp = []string{}
		}
		for _, listen := range modes() {
			// all the errands, at each call
			for _, late := range modes() {
				x := o
				x.Inner, x.innerX, x.At, x.Listen, x.Late = inner, innerX, -1, listen, late
				if len(x.Data) > 2000 {
					x.Inner, x.innerX = inner[:streams], innerX[:streams]
				}
				w.do(&x)
				atomic.AddInt64(&events, int64(x.calls*len(x.Inner)))
				if x.calls == 0 {
					continue
				}
				// each stream alone, at one call
				for k := 0; k < x.calls; k++ {
					if k >= 6 && k < x.calls-3 && !c.thorough() {
						continue
					}
					for j := 0; j < streams; j++ {
						if !c.thorough() && (late || len(x.Data) > 200 && (j+i)%4 != 0) {
							continue
						}
						y := o
						y.Inner, y.innerX, y.At, y.Listen, y.Late = inner[j:j+1], innerX[j:j+1], k, listen, late
						w.do(&y)
						atomic.AddInt64(&events, 1)
					}
				}
			}
		}
	})
	c.note("nested_streams", map[string]int{"outer": len(outer), "errands": len(inner), "of_them_streams": streams})
	c.note("nested_errands_run", events)
	// all orders of the reads of two (three) parsers
	small := func(s scfg) []errand {
		t := string([]byte{s.trailer()})
		ds := []string{frame(hdr) + frame(hdr+" b"), frame(hdr) + "30 <3>1 - - - - - - c"}
		if !s.Octet {
			ds = []string{hdr + t + "<2>1 - h - - - - b" + t + "c" + t, "<4>1 - x" + t + "<3>1 - - - - - - c"}
		}
		var out []errand
		for _, d := range ds {
			// about five reads
			out = append(out, errand{S: &s, Data: B(d), Feed: feed{Each: (len(d) + 3) / 4}})
		}
		return out
	}
	var all []errand
	for _, s := range scfgs() {
		if s.Max == nil {
			all = append(all, small(s)...)
		}
	}
	allX := make([]string, len(all))
	for i := range all {
		allX[i] = all[i].ready()()
	}
	orders := func(n, k int) (out [][]int) { // all arrangements of k turns of each of n parsers
		left := make([]int, n)
		for i := range left {
			left[i] = k
		}
		var cur []int
		var rec func()
		rec = func() {
			end := true
			for i := range left {
				if left[i] > 0 {
					end = false
					left[i]--
					cur = append(cur, i)
					rec()
					cur = cur[:len(cur)-1]
					left[i]++
				}
			}
			if end {
				out = append(out, append([]int{}, cur...))
			}
		}
		rec()
		return
	}
	o2 := orders(2, c.pick(5, 7))
	var relays int64
	c.parallel(len(all)*len(all), func(w *worker, k int) {
		a, b := k/len(all), k%len(all)
		if b < a {
			return
		}
		for _, o := range o2 {
			w.do(&relay{Streams: []errand{all[a], all[b]}, Order: o, exp: []string{allX[a], allX[b]}})
			atomic.AddInt64(&relays, 1)
		}
	})
	if c.thorough() {
		o3 := orders(3, 3)
		c.parallel(len(all)*len(all)*len(all), func(w *worker, k int) {
			x, y, z := k/len(all)/len(all), k/len(all)%len(all), k%len(all)
			if x > y || y > z {
				return
			}
			for _, o := range o3 {
				w.do(&relay{Streams: []errand{all[x], all[y], all[z]}, Order: o, exp: []string{allX[x], allX[y], allX[z]}})
				atomic.AddInt64(&relays, 1)
			}
		})
	}
	c.note("read_interleavings", relays)
	c.addTransitions(int(events + relays))
}
