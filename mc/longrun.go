package main

import (
	"encoding/json"
	"fmt"

	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// longRun is one machine which parses a great many messages, or one message which is set and rendered a great many times.
type longRun struct {
	P  *pcfg `json:",omitempty"`
	In []B   `json:",omitempty"`
	N  int
}

func (l *longRun) Kind() string { return "longRun" }

func (l *longRun) Run() string {
	if l.P == nil {
		m := &rfc5424.SyslogMessage{}
		m.SetPriority(13).SetVersion(1)
		for i := 0; i < l.N; i++ {
			h, v := fmt.Sprintf("h%d", i%1000), fmt.Sprintf("%d\\]", i%777)
			m.SetHostname(h).SetParameter("e", "p", v)
			if i%3 == 0 {
				m.SetParameter("e", "p", "\"")
			}
			if m.Hostname == nil || *m.Hostname != h {
				return fmt.Sprintf("the host name was set to %q for the %d. time: it is %s", h, i+1, strOr(m.Hostname))
			}
			if i%4 == 0 {
				want := "<13>1 - " + h + " - - - [e p=\"" + v + "\"]"
				if s, err := m.String(); err != nil || s != want {
					return fmt.Sprintf("the %d. rendering is %q (error %v), expected %q", i/4+1, s, err, want)
				}
			}
		}
		return ""
	}
	exp := make([]string, len(l.In))
	for i, in := range l.In {
		exp[i] = freshOutcome(*l.P, in)
	}
	m := l.P.new()
	for i := 0; i < l.N; i++ {
		k := (i + i/len(l.In)) % len(l.In)
		msg, err := m.Parse(l.In[k])
		if out := outcomeOf(msg, err); out != exp[k] {
			return fmt.Sprintf("parse number %d, of %q: a new machine gives %s, this one %s", i+1, short(string(l.In[k])), exp[k], out)
		}
	}
	return ""
}

func init() {
	replayers["longRun"] = func(b json.RawMessage) (Scenario, error) {
		l := &longRun{}
		return l, json.Unmarshal(b, l)
	}
}

// longLives: one instance of each kind, for more than 2^20 parses.
func longLives(c *Ctx) {
	ps := cfgs24()
	c.parallel(len(ps), func(w *worker, i int) {
		p := ps[i]
		full := B("<1>1 - - - - - [e a=\"\\]\"] text")
		in := []B{full, full[:20], cat(full[:12], []byte("\x01")), B("<2>2 - h - - - -")}
		if p.Format == 3164 {
			full = B("<1>Jan 10 01:02:03 h t[1]: x")
			in = []B{full, full[:18], cat(full, []byte("\x01")), B("<2>Feb 28 01:02:03 h text")}
		}
		w.do(&longRun{P: &p, In: in, N: c.pick(1<<20, 1<<23) + 100})
	})
	c.note("parses_by_one_instance", c.pick(1<<20, 1<<23)+100)
}

// lateRejects are long inputs rejected far from the start, in different parts and at different columns.
func (p pcfg) lateRejects() (out []B) {
	r := func(n int) string { return string(rep('x', n)) }
	for _, n := range []int{30, 64, 100, 128, 200, 240, 254} {
		if p.Format == 5424 {
			out = append(out, B("<1>1 - "+r(n)), B("<1>1 - "+r(n)+"\x01"))
		} else {
			out = append(out, B("<1>Jan 10 01:02:03 "+r(n)), B("<1>Jan 10 01:02:03 "+r(n)+"\x01"))
		}
	}
	for _, n := range []int{100, 180, 300, 301, 500, 1000, 4000} {
		if p.Format == 5424 {
			out = append(out, B(pre5+"[e k=\""+r(n)), B(pre5+"[e k=\""+r(n)+"\\x"), B(pre5+"[e k=\""+r(n)+"\"]x"), B(pre5+"[e k=\""+r(n)+"\"][e]"), B(pre5+"- \xef\xbb\xbf"+r(n)+"\xff"))
		} else {
			out = append(out, B("<1>Jan 10 01:02:03 h t: "+r(n)+"\x01"), B("<1>Jan 10 01:02:03 h t["+r(n)+"\x01"))
		}
	}
	return
}

// latePairs: every two (three) of them, by one machine: the errors given out are looked at again afterwards.
func latePairs(c *Ctx) {
	for _, p := range pcfgs() {
		p := p
		ls := p.lateRejects()
		k := len(ls)
		c.addStates(k * k)
		c.parallel(k*k, func(w *worker, i int) {
			w.do(&history{P: p, Inputs: []B{ls[i/k], ls[i%k]}})
			w.do(&history{P: p, Inputs: []B{ls[i/k], B(p.skeletons()[0]), ls[i%k], ls[i/k]}, Same: i%2 == 0})
		})
	}
}
