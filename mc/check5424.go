package main

import (
	"encoding/json"
	"fmt"
	"strings"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// parse5 is one RFC5424 input given to a new parser, and what is looked at (the property).
type parse5 struct {
	View      string
	In        B
	Best      bool `json:",omitempty"`
	Compliant bool `json:",omitempty"`
	Parser    bool `json:",omitempty"`
}

func (p *parse5) Kind() string { return "parse5424" }

func opts5(best, compliant bool) (o []syslog.MachineOption) {
	if best {
		o = append(o, rfc5424.WithBestEffort())
	}
	if compliant {
		o = append(o, rfc5424.WithCompliantMsg())
	}
	return
}

func new5(best, compliant, parser bool) syslog.Machine {
	if parser {
		return rfc5424.NewParser(opts5(best, compliant)...)
	}
	return rfc5424.NewMachine(opts5(best, compliant)...)
}

func (p *parse5) Run() string {
	m, err := new5(p.Best, p.Compliant, p.Parser).Parse(p.In)
	return judge5(p.View, p.In, p.Best, p.Compliant, m, err)
}

// judge5 compares the outcome of a parse with the reference, as far as the property is concerned.
func judge5(view string, in []byte, best, compliant bool, m syslog.Message, err error) string {
	r := ref5424(in, compliant)
	d := ""
	tally5.hit(int(r.kind))
	rejected := r.kind != eNone
	switch view {
	case "P01": // acceptance and extraction, strict
		if !rejected {
			if err != nil {
				d = "a well-formed message is rejected: " + err.Error()
			} else {
				d = diff5424(r.msg, m)
			}
		} else if m != nil || err == nil {
			d = fmt.Sprintf("a malformed message (%s) is accepted: %s, error %s", r.err, render(m), renderErr(err))
		}
	case "P02": // error reporting, strict
		if !rejected {
			if err != nil || isNilMessage(m) {
				d = fmt.Sprintf("a well-formed message gives message %s and error %s", render(m), renderErr(err))
			}
		} else if m != nil || err == nil {
			d = fmt.Sprintf("a malformed message gives message %s and error %s", render(m), renderErr(err))
		} else {
			d = r.cmpErr(err)
		}
	default:
		d = r.cmpErr(err)
		if d == "" {
			e := r.msg
			if rejected && !best {
				e = nil
			}
			d = diff5424(e, m)
		}
	}
	if d != "" {
		return fmt.Sprintf("rfc5424 (best effort %v, compliant %v) on %q: %s", best, compliant, short(string(in)), d)
	}
	return ""
}

// cmpErr compares the error returned with the expected one.
func (r res5) cmpErr(err error) string {
	if r.kind == eNone {
		if err != nil {
			return "unexpected error: " + err.Error()
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("no error returned, expected %q", r.err)
	}
	g := err.Error()
	if r.kind == eDate { // the text comes from the standard library
		if suf := fmt.Sprintf(" [col %d]", r.col); !strings.HasSuffix(g, suf) || len(g) == len(suf) {
			return fmt.Sprintf("error %q, expected one for the date at column %d", g, r.col)
		}
		return ""
	}
	if g != r.err {
		return fmt.Sprintf("error %q, expected %q", g, r.err)
	}
	return ""
}

func init() {
	replayers["parse5424"] = func(b json.RawMessage) (Scenario, error) {
		s := &parse5{}
		return s, json.Unmarshal(b, s)
	}
	checks["P01"] = func(c *Ctx) { check5424(c, []mode5{{}}) }
	checks["P02"] = func(c *Ctx) { check5424(c, []mode5{{}}) }
	checks["P03"] = func(c *Ctx) { check5424(c, []mode5{{best: true}}) }
	checks["P04"] = func(c *Ctx) { check5424(c, []mode5{{compliant: true}, {best: true, compliant: true}}) }
}

var tally5 tally

func (k ek5) name() string {
	return [...]string{"", "pri", "prival", "version", "timestamp", "hostname", "appname", "procid", "msgid", "structured data", "sd id", "sd duplicate id",
		"sd param", "escape", "msg", "delimiter", "calendar date"}[k]
}

type mode5 struct{ best, compliant bool }

func model5(compliant bool) automaton[ctl5] {
	return automaton[ctl5]{
		step: func(s ctl5, b byte) (ctl5, int, bool) {
			n, k := step5(s, b, compliant)
			return n, int(k), k == eNone
		},
		end: func(s ctl5) int { return int(end5(s)) },
	}
}

func cat(parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	o := make([]byte, 0, n)
	for _, p := range parts {
		o = append(o, p...)
	}
	return o
}

// skeletons5 are well-formed messages that together take every path of the grammar.
func skeletons5() [][]byte {
	s := []string{
		"<0>1 - - - - - -",
		"<191>999 2018-10-11T22:14:15.003456+05:30 host.example.com app-name proc-1 ID47 [a@1 x=\"1\" y=\"\\\"\\\\\\]\"][b z=\"\xc3\xa9\xe2\x8c\x98\xf0\x9f\x98\x80\"][c] hello world",
		"<34>12 2016-02-29T23:59:59Z - a - m [id] \xef\xbb\xbfBOM t\xc3\xa9xt",
		"<7>1 - h - p - [id k=\"\" k=\"v\\]w\" l=\"]\\\"\"",
		"<100>1 0000-01-01T00:00:00.1-23:59 h a p m - \x00\x01\xff\n msg",
		"<9>1 - - - - - [a a=\"\xed\x9f\xbf\xee\x80\x80\"][b b=\"\xe0\xa0\x80\xf4\x8f\xbf\xbf\"] \xef\xbb\xbf\xf0\x90\x80\x80\xe1\x80\x80",
	}
	var o [][]byte
	for _, x := range s {
		o = append(o, []byte(x))
	}
	return o
}

func rep(b byte, n int) []byte {
	o := make([]byte, n)
	for i := range o {
		o[i] = b
	}
	return o
}

func check5424(c *Ctx, modes []mode5) {
	c.assume("the reference automaton encodes RFC 5424 as documented (README, grammar comments); its conformance is established by this run")
	c.assume("an implementation automaton with more states than the reference is only separated as far as the middle sequences and sweeps explored reach")
	tails := [][]byte{{}, []byte("x"), []byte("\n<1>1 - - - - - -")}
	for _, md := range modes {
		md := md
		run := func(w *worker, in []byte) {
			w.do(&parse5{View: c.Prop, In: in, Best: md.best, Compliant: md.compliant})
		}
		e, idx := explore(model5(md.compliant))
		c.addStates(e.n)
		c.addTransitions(e.n * 256)
		c.note(fmt.Sprintf("model_best=%v_compliant=%v", md.best, md.compliant), map[string]int{"states": e.n, "byte_classes": len(e.reps), "identification_words": e.words})
		conform(c, e, func(prefix []byte) (int, bool) {
			r := ref5424(prefix, md.compliant)
			if r.kind != eNone && r.col < len(prefix) {
				return 0, false
			}
			s, ok := idx[r.ctl]
			return s, ok
		}, skeletons5(), tails, c.pick(2, 3), run)
		families5(c, md, run)
		mutations(c, skeletons5(), func(w *worker, in []byte) {
			w.do(&parse5{View: c.Prop, In: in, Best: md.best, Compliant: md.compliant, Parser: true})
		})
	}
	c.note("verdicts", tally5.report(func(k int) string {
		if k == 0 {
			return "accepted"
		}
		return "rejected: " + ek5(k).name()
	}))
}
