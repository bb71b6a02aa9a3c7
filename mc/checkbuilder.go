package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// op is a setter call.
type op struct {
	F string // pri ver ts host app proc mid id param text
	N int    `json:",omitempty"`
	A B      `json:",omitempty"`
	P B      `json:",omitempty"`
	V B      `json:",omitempty"`
}

// apply performs the call on a real message.
func (o op) apply(m *rfc5424.SyslogMessage) rfc5424.Builder {
	a := string(o.A)
	switch o.F {
	case "pri":
		return m.SetPriority(uint8(o.N))
	case "ver":
		return m.SetVersion(uint16(o.N))
	case "ts":
		return m.SetTimestamp(a)
	case "host":
		return m.SetHostname(a)
	case "app":
		return m.SetAppname(a)
	case "proc":
		return m.SetProcID(a)
	case "mid":
		return m.SetMsgID(a)
	case "id":
		return m.SetElementID(a)
	case "param":
		return m.SetParameter(a, string(o.P), string(o.V))
	case "text":
		return m.SetMessage(a)
	}
	panic("op " + o.F)
}

// setter automata: each starts in its own state and judges the whole value.
func setterStart(f string) ctl5 {
	switch f {
	case "ts":
		return ctl5{ph: aTs}
	case "host":
		return ctl5{ph: aHost}
	case "app":
		return ctl5{ph: aApp}
	case "proc":
		return ctl5{ph: aProc}
	case "mid":
		return ctl5{ph: aMid}
	case "id", "pid", "name":
		return ctl5{ph: aSDID}
	case "value":
		return ctl5{ph: aPVal}
	}
	return ctl5{ph: aMsg}
}

func setterStep(c ctl5, b byte) (ctl5, bool) {
	switch c.ph {
	case aHost, aApp, aProc, aMid, aPVal:
		if c.ph != aPVal && b == ' ' || c.ph == aPVal && c.s == uIdle && b == '"' {
			return c, false // delimiters in a message, not part of the value
		}
	case aTs:
		if b == '-' {
			return c, false
		}
	case aTsEnd:
		return c, false
	case aSDID:
		if b == ' ' || b == ']' {
			return c, false
		}
	}
	n, k := step5(c, b, false)
	return n, k == eNone
}

func setterEnd(c ctl5) bool {
	switch c.ph {
	case aHost, aApp, aProc, aMid, aSDID:
		return c.n > 0
	case aTsEnd, aMsg:
		return true
	case aPVal:
		return c.s == uIdle
	}
	return false
}

func validFor(f string, v []byte) bool {
	c := setterStart(f)
	for _, b := range v {
		n, ok := setterStep(c, b)
		if !ok {
			return false
		}
		c = n
	}
	if f == "ts" && setterEnd(c) {
		_, ok := stampOf(v)
		return ok
	}
	return setterEnd(c)
}

// applyModel performs the call on the model.
func (o op) applyModel(m *msgv) {
	switch o.F {
	case "pri":
		if o.N <= 191 {
			m.pri = o.N
		}
		return
	case "ver":
		if o.N >= 1 && o.N <= 999 {
			m.ver = o.N
		}
		return
	case "ts":
		if validFor("ts", o.A) {
			m.ts, _ = stampOf(o.A)
		}
		return
	case "param":
		if !validFor("id", o.A) {
			return
		}
		id := string(o.A)
		if m.sd == nil {
			m.sd = map[string]map[string]string{}
		}
		if m.sd[id] == nil {
			m.sd[id] = map[string]string{}
		}
		if validFor("name", o.P) && validFor("value", o.V) {
			m.sd[id][string(o.P)] = unescape(o.V)
		}
		return
	case "id":
		if validFor("id", o.A) {
			if m.sd == nil {
				m.sd = map[string]map[string]string{}
			}
			if m.sd[string(o.A)] == nil {
				m.sd[string(o.A)] = map[string]string{}
			}
		}
		return
	case "text":
		if len(o.A) > 0 {
			m.text = strp(string(o.A))
		}
		return
	}
	if !validFor(o.F, o.A) || string(o.A) == "-" {
		return
	}
	s := strp(string(o.A))
	switch o.F {
	case "host":
		m.host = s
	case "app":
		m.app = s
	case "proc":
		m.proc = s
	case "mid":
		m.mid = s
	}
}

func (m *msgv) valid() bool { return m.pri >= 0 && m.pri <= 191 && m.ver >= 1 && m.ver <= 999 }

// key is a canonical text of a model state.
func (m *msgv) key() string {
	p := func(s *string) string {
		if s == nil {
			return "~"
		}
		return fmt.Sprintf("%q", *s)
	}
	ts := "~"
	if m.ts != nil {
		ts = fmt.Sprint(*m.ts)
	}
	sd := "~"
	if m.sd != nil {
		sd = renderSD(m.sd)
	}
	return fmt.Sprint(m.pri, m.ver, ts, p(m.host), p(m.app), p(m.proc), p(m.mid), p(m.text), sd)
}

// build is a sequence of setter calls, starting from an empty message or from a parsed one. A second message is built in
// between, one call after each, and must not be affected.
type build struct {
	View  string
	From  B `json:",omitempty"`
	Ops   []op
	Other []op `json:",omitempty"`
	Look  bool `json:",omitempty"` // render (P11), or keep what the fields point to (P10), after every call
}

func (b *build) Kind() string { return "build" }

func (b *build) start() (*rfc5424.SyslogMessage, *msgv, string) {
	if len(b.From) == 0 {
		return &rfc5424.SyslogMessage{}, &msgv{pri: -1}, ""
	}
	m, err := rfc5424.NewMachine().Parse(b.From)
	r := ref5424(b.From, false)
	if err != nil || r.kind != eNone {
		return nil, nil, "the starting message is not accepted: " + renderErr(err)
	}
	if d := diff5424(r.msg, m); d != "" {
		return nil, nil, "starting message: " + d
	}
	return m.(*rfc5424.SyslogMessage), r.msg, ""
}

func (b *build) Run() string {
	m, e, bad := b.start()
	if bad != "" {
		return bad
	}
	om, oe := &rfc5424.SyslogMessage{}, &msgv{pri: -1}
	var held []heldField
	for i, o := range b.Ops {
		if b.Look && b.View == "P11" {
			if d := roundTrip(m, e); d != "" {
				return fmt.Sprintf("after %s: %s", b.Ops[:i], d)
			}
		} else if b.Look {
			held = append(held, hold(m)...)
		}
		r := o.apply(m)
		o.applyModel(e)
		for _, h := range held {
			if *h.p != h.was {
				return fmt.Sprintf("after %s: a %s that was read before has changed from %q to %q", b.Ops[:i+1], h.what, h.was, *h.p)
			}
		}
		if r != rfc5424.Builder(m) {
			return fmt.Sprintf("call %d (%s) does not return the message itself", i, o)
		}
		if i < len(b.Other) {
			b.Other[i].apply(om)
			b.Other[i].applyModel(oe)
		}
		// every prefix is a sequence of its own when sequences are enumerated: the long ones are looked at in the end
	}
	if d := diff5424(e, m); d != "" {
		return fmt.Sprintf("after %s: %s", b.Ops, d)
	}
	if d := diff5424(oe, om); d != "" {
		return fmt.Sprintf("after %s on a message and %s on another, the other: %s", b.Ops, b.Other, d)
	}
	if m.Valid() != e.valid() {
		return fmt.Sprintf("after %s: Valid is %v", b.Ops, m.Valid())
	}
	if b.View == "P11" {
		return roundTrip(m, e)
	}
	if len(b.Ops) > 40 {
		return ""
	}
	// changing the message in place leaves one made in the same way alone, and those to come
	twin := func(when string) (*rfc5424.SyslogMessage, string) {
		t, e, bad := b.start()
		if bad != "" {
			return nil, bad
		}
		for _, o := range b.Ops {
			o.apply(t)
			o.applyModel(e)
		}
		if d := diff5424(e, t); d != "" {
			return nil, fmt.Sprintf("after %s on a message like one %s: %s", b.Ops, when, d)
		}
		return t, ""
	}
	t, bad := twin("made before")
	if bad != "" {
		return bad
	}
	scribble(t)
	if d := diff5424(e, m); d != "" {
		return fmt.Sprintf("after %s, and changes in place to another message: %s", b.Ops, d)
	}
	_, bad = twin("that was changed in place")
	return bad
}

// heldField is a field read before a call.
type heldField struct {
	what string
	p    *string
	was  string
}

func hold(m *rfc5424.SyslogMessage) (o []heldField) {
	for _, f := range []struct {
		what string
		p    *string
	}{{"hostname", m.Hostname}, {"app name", m.Appname}, {"process id", m.ProcID}, {"message id", m.MsgID}, {"message", m.Message}} {
		if f.p != nil {
			o = append(o, heldField{f.what, f.p, *f.p})
		}
	}
	return
}

func (o op) String() string {
	switch o.F {
	case "pri", "ver":
		return fmt.Sprintf("%s(%d)", o.F, o.N)
	case "param":
		return fmt.Sprintf("param(%q,%q,%q)", short(string(o.A)), short(string(o.P)), short(string(o.V)))
	}
	return fmt.Sprintf("%s(%q)", o.F, short(string(o.A)))
}

// textOf is the rendering expected for a valid message.
func textOf(e *msgv) string {
	var w strings.Builder
	or := func(s *string) string {
		if s == nil {
			return "-"
		}
		return *s
	}
	ts := "-"
	if e.ts != nil {
		ts = stampText(e.ts)
	}
	fmt.Fprintf(&w, "<%d>%d %s %s %s %s %s ", e.pri, e.ver, ts, or(e.host), or(e.app), or(e.proc), or(e.mid))
	if e.sd == nil {
		w.WriteString("-")
	}
	ids := make([]string, 0, len(e.sd))
	for id := range e.sd {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		w.WriteString("[" + id)
		names := make([]string, 0)
		for n := range e.sd[id] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			v := e.sd[id][n]
			v = strings.ReplaceAll(v, "\\", "\\\\")
			v = strings.ReplaceAll(v, "\"", "\\\"")
			v = strings.ReplaceAll(v, "]", "\\]")
			w.WriteString(" " + n + "=\"" + v + "\"")
		}
		w.WriteString("]")
	}
	if e.text != nil {
		w.WriteString(" " + *e.text)
	}
	return w.String()
}

// civil is the inverse of daysFromCivil.
func civil(z int64) (y, m, d int) {
	z += 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	yy := yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	m = int(mp) + 3
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		yy++
	}
	return int(yy), m, d
}

func stampText(s *stamp) string {
	t := s.sec + int64(s.off)
	days := t / 86400
	rem := t % 86400
	if rem < 0 {
		rem += 86400
		days--
	}
	y, mo, d := civil(days)
	o := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, d, rem/3600, rem/60%60, rem%60)
	if us := s.nsec / 1000; us > 0 {
		o += strings.TrimRight(fmt.Sprintf(".%06d", us), "0")
	}
	if s.off == 0 {
		return o + "Z"
	}
	sign, off := "+", s.off
	if off < 0 {
		sign, off = "-", -off
	}
	return o + fmt.Sprintf("%s%02d:%02d", sign, off/3600, off/60%60)
}

var tally11 tally

// roundTrip renders a message and parses it back.
func roundTrip(m *rfc5424.SyslogMessage, e *msgv) string {
	before := render(m)
	s, err := m.String()
	if after := render(m); after != before {
		return fmt.Sprintf("rendering changed the message from %s to %s", before, after)
	}
	if !e.valid() {
		tally11.hit(0)
		if err == nil {
			return fmt.Sprintf("the message %s is not valid but renders as %q", before, s)
		}
		return ""
	}
	tally11.hit(1)
	if err != nil {
		return fmt.Sprintf("the message %s does not render: %s", before, err)
	}
	if want := textOf(e); s != want {
		return fmt.Sprintf("the message %s renders as %q, expected %q", short(before), short(s), short(want))
	}
	if s2, err := m.String(); err != nil || s2 != s {
		return fmt.Sprintf("rendered twice: %q, then %q (error %s)", short(s), short(s2), renderErr(err))
	}
	back, err := rfc5424.NewMachine().Parse([]byte(s))
	if err != nil {
		return fmt.Sprintf("the rendering %q of %s is rejected: %s", short(s), short(before), err)
	}
	if d := diff5424(e, back); d != "" {
		return fmt.Sprintf("the rendering %q parses back to something else: %s", short(s), d)
	}
	if s3, err := back.(*rfc5424.SyslogMessage).String(); err != nil || s3 != s {
		return fmt.Sprintf("the rendering %q, parsed, renders as %q", short(s), short(s3))
	}
	return ""
}

// reparse: the message comes from the parser.
type reparse struct{ In B }

func (p *reparse) Kind() string { return "reparse" }
func (p *reparse) Run() string {
	r := ref5424(p.In, false)
	m, err := rfc5424.NewMachine(rfc5424.WithBestEffort()).Parse(p.In)
	if r.msg == nil {
		if m != nil {
			return fmt.Sprintf("input %q gives message %s, expected none", short(string(p.In)), render(m))
		}
		return ""
	}
	if m == nil {
		return fmt.Sprintf("input %q gives no message (error %s)", short(string(p.In)), renderErr(err))
	}
	x, ok := m.(*rfc5424.SyslogMessage)
	if !ok {
		return fmt.Sprintf("message of type %T", m)
	}
	return roundTrip(x, r.msg)
}

func init() {
	replayers["build"] = func(b json.RawMessage) (Scenario, error) {
		s := &build{}
		return s, json.Unmarshal(b, s)
	}
	replayers["reparse"] = func(b json.RawMessage) (Scenario, error) {
		s := &reparse{}
		return s, json.Unmarshal(b, s)
	}
	replayers["labels"] = func(b json.RawMessage) (Scenario, error) {
		s := &labels{}
		return s, json.Unmarshal(b, s)
	}
	checks["P10"] = func(c *Ctx) { checkBuilder(c, "P10") }
	checks["P11"] = func(c *Ctx) { checkByHand(c); checkBuilder(c, "P11"); checkReparse(c) }
	checks["P13"] = check13
}

func s1(f, a string) op      { return op{F: f, A: B(a)} }
func par(id, n, v string) op { return op{F: "param", A: B(id), P: B(n), V: B(v)} }
func num(f string, n int) op { return op{F: f, N: n} }

const full5 = "<13>7 2003-08-24T05:14:15.000003-07:00 host0 app0 proc0 mid0 [e0 a=\"1\" b=\"\\]\"][e1] text0"

// mixOps: valid and invalid calls of every setter.
func mixOps() []op {
	return []op{
		num("pri", 0), num("pri", 191), num("pri", 192), num("ver", 1), num("ver", 999), num("ver", 0), num("ver", 1000),
		s1("ts", "2018-10-11T22:14:15Z"), s1("ts", "2016-02-29T00:00:00.5+05:30"), s1("ts", "2018-02-29T00:00:00Z"), s1("ts", "-"), s1("ts", ""),
		s1("host", "h1"), s1("host", "h2"), s1("host", "-"), s1("host", "a b"), s1("host", ""),
		s1("app", "a1"), s1("app", "-"), s1("app", strings.Repeat("a", 49)), s1("proc", "p1"), s1("proc", "-"), s1("proc", "p\x00"), s1("mid", "m1"), s1("mid", "-"), s1("mid", strings.Repeat("m", 33)),
		s1("text", "t1"), s1("text", ""), s1("text", "\x00\xff"),
		s1("id", "e0"), s1("id", "x"), s1("id", "b=d"), s1("id", ""),
		par("e0", "a", "v1"), par("e0", "a", "v2"), par("e0", "a", "ba\"d"), par("e0", "c", "\\\"\\\\\\]"), par("e0", "c", "bad\\"), par("x", "y", ""), par("x", "y z", "v"), par("b]d", "y", "v"), par("x", "z", "\xff"), par("", "", ""),
	}
}

func checkBuilder(c *Ctx, view string) {
	c.assume("a parameter call with a valid element id creates that element even when its name or value is refused; a later valid value replaces the earlier one")
	// (1) header closure: every reachable combination of header fields, and every call from it
	hdr := []op{
		num("pri", 0), num("pri", 165), num("pri", 200), num("ver", 1), num("ver", 999), num("ver", 1000), num("ver", 0),
		s1("ts", "2018-10-11T22:14:15.000003Z"), s1("ts", "0000-12-31T23:59:59-23:59"), s1("ts", "2018-10-11"), s1("host", "h"), s1("host", "\x7f"), s1("host", "-"), s1("app", "a"), s1("app", " "), s1("app", "-"),
		s1("proc", "p"), s1("proc", ""), s1("proc", "-"), s1("mid", "m"), s1("mid", "m m"), s1("mid", "-"), s1("text", "t"), s1("text", ""), s1("text", " [x] \n"),
	}
	closure(c, view, "header", hdr, "", c.pick(99, 99))
	// (2) structured data closure
	var sd []op
	for _, id := range []string{"a", "b", "="} {
		sd = append(sd, s1("id", id))
		for _, n := range []string{"x", "y", "]"} {
			for _, v := range []string{"1", "\\]", "]"} {
				sd = append(sd, par(id, n, v))
			}
		}
	}
	if view == "P11" {
		sd = append(sd, num("pri", 1), num("ver", 1))
	}
	closure(c, view, "structured data", sd, "", 99)
	closure(c, view, "structured data of a parsed message", sd, "<1>1 - - - - - [a x=\"0\"][c]", 99)
	// messages whose parts are alike
	alike := []op{num("pri", 1), num("ver", 1), s1("ts", "2018-10-11T22:14:15Z"), s1("host", "x"), s1("app", "x"), s1("proc", "x"), s1("mid", "x"), s1("text", "x"), s1("host", "y"), s1("proc", "y"), s1("text", "y")}
	closure(c, view, "header with equal fields", alike, "", 99)
	closure(c, view, "header with equal fields of a parsed message", alike[3:], "<1>1 - x x x x - x", 99)
	var same []op
	for _, id := range []string{"a", "b", "x"} {
		for _, n := range []string{"a", "x"} {
			for _, v := range []string{"1", "x"} {
				same = append(same, par(id, n, v))
			}
		}
	}
	for _, from := range []string{"<1>1 - x x x x [a x=\"1\"][b x=\"1\"] x", "<1>1 - x x x x [x x=\"x\"][a x=\"x\" a=\"x\"][b a=\"x\" x=\"x\"]", "<1>1 - - - - - [x][a][b]", "<1>1 - - - - - [a x=\"1\" a=\"1\"][b x=\"1\"][x]"} {
		closure(c, view, "equal elements of "+from, same, from, 99)
	}
	// (3) every sequence of calls of all kinds
	mix := mixOps()
	other := []op{par("x", "a", "o"), s1("host", "other"), s1("id", "e0"), par("e0", "c", "other"), s1("ts", "1999-12-31T23:59:59Z"), num("pri", 77), num("ver", 77)}
	depth := c.pick(3, 4)
	if view == "P10" {
		depth = 4
	}
	for _, from := range []string{"", full5} {
		from := from
		n := len(mix)
		c.parallel(n*n, func(w *worker, i int) {
			var rec func(ops []op, left int)
			rec = func(ops []op, left int) {
				if c.isStopped() {
					return
				}
				w.do(&build{View: view, From: B(from), Ops: ops, Other: other})
				c.addTransitions(1)
				if left == 0 {
					return
				}
				for _, o := range mix {
					rec(append(ops[:len(ops):len(ops)], o), left-1)
				}
			}
			if i < n {
				w.do(&build{View: view, From: B(from), Ops: []op{mix[i]}, Other: other})
				w.do(&build{View: view, From: B(from), Ops: []op{mix[i]}, Look: true})
			}
			for _, o := range mix {
				if c.isStopped() {
					return
				}
				ops := []op{mix[i/n], mix[i%n], o}
				w.do(&build{View: view, From: B(from), Ops: ops, Look: true})
				if from == "" { // from the first call on it is valid
					ops = append([]op{num("pri", 7), num("ver", 7)}, ops...)
					w.do(&build{View: view, From: B(from), Ops: ops, Look: true})
				}
			}
			rec([]op{mix[i/n], mix[i%n]}, depth-2)
		})
	}
	// (4) each setter, as an automaton
	setters(c, view)
	blendSetters(c, view)
}

// closure explores every model state reachable with the given calls and makes every call from each of them.
func closure(c *Ctx, view, name string, ops []op, from string, maxDepth int) {
	type node struct{ path []op }
	b := &build{From: B(from)}
	modelAt := func(path []op) *msgv {
		_, e, _ := b.start()
		for _, o := range path {
			o.applyModel(e)
		}
		return e
	}
	if _, e, bad := b.start(); bad != "" || e == nil {
		c.fail(&build{View: view, From: B(from)}, bad)
		return
	}
	seen := map[string]bool{modelAt(nil).key(): true}
	level := []node{{}}
	states, trans := 1, 0
	for d := 0; len(level) > 0 && d < maxDepth; d++ {
		var next []node
		cand := make([][]string, len(level))
		c.parallel(len(level), func(w *worker, i int) {
			for _, o := range ops {
				p := append(level[i].path[:len(level[i].path):len(level[i].path)], o)
				w.do(&build{View: view, From: B(from), Ops: p})
				cand[i] = append(cand[i], modelAt(p).key())
			}
		})
		for i := range cand {
			for k, key := range cand[i] {
				trans++
				if !seen[key] {
					seen[key] = true
					states++
					next = append(next, node{append(level[i].path[:len(level[i].path):len(level[i].path)], ops[k])})
				}
			}
		}
		if c.isStopped() || c.outOfTime() {
			break
		}
		level = next
	}
	c.addStates(states)
	c.addTransitions(trans)
	c.note("closure: "+name, map[string]int{"states": states, "transitions": trans})
}

// setters replays the automaton of each setter, on an empty and on a full message.
func setters(c *Ctx, view string) {
	pre := []op{num("pri", 1), num("ver", 1)}
	for _, f := range []string{"ts", "host", "app", "proc", "mid", "id", "pid", "name", "value", "text"} {
		f := f
		run := func(w *worker, v []byte) {
			o := op{F: f, A: v}
			switch f {
			case "pid":
				o = op{F: "param", A: v, P: B("a"), V: B("w")}
			case "name":
				o = op{F: "param", A: B("e0"), P: v, V: B("w")}
			case "value":
				o = op{F: "param", A: B("e0"), P: B("a"), V: v}
			}
			ops := append(pre[:2:2], o)
			w.do(&build{View: view, Ops: ops})
			w.do(&build{View: view, From: B(full5), Ops: ops[2:]})
		}
		a := automaton[ctl5]{start: setterStart(f), step: func(s ctl5, b byte) (ctl5, int, bool) {
			n, ok := setterStep(s, b)
			return n, 2, ok
		}, end: func(s ctl5) int {
			if setterEnd(s) {
				return 1
			}
			return 0
		}}
		e, idx := explore(a)
		c.addStates(e.n)
		c.addTransitions(e.n * 256)
		c.note("setter "+f, map[string]int{"states": e.n, "byte_classes": len(e.reps), "identification_words": e.words})
		sk := map[string]string{"ts": "2018-10-11T22:14:15.003456+05:30", "value": "a\\\"\\\\\\]\xc3\xa9\xe2\x8c\x98\xf0\x9f\x98\x80z", "text": "t\xff\n"}[f]
		conform(c, e, func(p []byte) (int, bool) {
			s := setterStart(f)
			for _, b := range p {
				n, ok := setterStep(s, b)
				if !ok {
					return 0, false
				}
				s = n
			}
			i, ok := idx[s]
			return i, ok
		}, bs(sk), bs("", "x"), c.pick(2, 3), run)
		c.parallel(c.pick(300, 600), func(w *worker, n int) {
			x := string(rep('x', n))
			for _, z := range []string{x, x + "-", "-" + x, x + " ", " " + x, x + "\x7f", x + "\xc3\xa9", x + "\"", x + "\\]", x + "]", "\\\\" + x} {
				run(w, []byte(z))
			}
			run(w, []byte(strings.Repeat("\\]", n)))
			run(w, []byte(strings.Repeat("\xe2\x82\xac\\\"", n)))
		})
		c.parallel(256, func(w *worker, i int) {
			for j := 0; j < 256; j++ {
				run(w, []byte{byte(i), byte(j)})
				if c.thorough() && (f == "value" || f == "text") {
					for k := 0; k < 256; k++ {
						run(w, []byte{byte(i), byte(j), byte(k)})
					}
				}
			}
		})
		if f == "ts" {
			dateFamilies(c, func(w *worker, ts string) { run(w, []byte(ts)) })
		}
		if f == "value" || f == "text" {
			c.parallel(0x1100, func(w *worker, hi int) { // every code point
				for lo := 0; lo < 256; lo++ {
					u := string(rune(hi<<8 | lo))
					if f == "value" && (u == "\"" || u == "\\" || u == "]") {
						u = "\\" + u
					}
					run(w, []byte(u+"z"))
				}
			})
		}
		if f != "ts" {
			for _, x := range fieldWords {
				x := x
				c.serial(func(w *worker) { run(w, []byte(x)) })
			}
		}
		if f == "value" {
			c.fanout(bs("a", "\"", "\\", "]", "\xc3\xa9", "\xc3", "\xf0\x9f\x98\x80", " ", "\n"), c.pick(5, 6), run)
		}
	}
	// pairs of words as ids, names and values
	c.parallel(len(fieldWords), func(w *worker, i int) {
		for _, b := range fieldWords {
			a := fieldWords[i]
			v := strings.NewReplacer("\"", "\\\"", "\\", "\\\\", "]", "\\]").Replace(b)
			w.do(&build{View: view, Ops: []op{num("ver", 1), num("pri", 3), s1("host", a), s1("app", b), s1("proc", a), s1("mid", b), s1("text", a), par(a, b, v), par(b, a, v), par(a, "z", ""), s1("id", a)}})
			w.do(&build{View: view, From: B(full5), Ops: []op{s1("id", b), par("z", a, v), par("z", b, v), par(a, a, b)}})
		}
	})
	for n := 0; n <= 65535; n++ {
		if n < 256 {
			c.serial(func(w *worker) {
				w.do(&build{View: view, Ops: []op{num("ver", 3), num("pri", n)}})
				w.do(&build{View: view, From: B(full5), Ops: []op{num("pri", n)}})
			})
		}
		if view == "P10" || n < 1100 {
			c.serial(func(w *worker) {
				w.do(&build{View: view, Ops: []op{num("pri", 3), num("ver", n)}})
				w.do(&build{View: view, From: B(full5), Ops: []op{num("ver", n)}})
			})
		}
	}
	throngs(c, view)
	largeBuilds(c, view)
	// many elements and parameters
	c.parallel(c.pick(40, 120), func(w *worker, n int) {
		var a, b []op
		for i := 0; i < n; i++ {
			a = append(a, par(fmt.Sprintf("e%d", (i*7)%n), fmt.Sprintf("p%d", (i*5)%3), fmt.Sprintf("v\\]%d", i)))
			b = append(b, par("e", fmt.Sprintf("p%d", (i*7)%n), fmt.Sprintf("\\\"%d\xc3\xa9", i)), s1("id", fmt.Sprintf("z%d", i)))
		}
		p := pre[:2:2]
		w.do(&build{View: view, Ops: append(p, a...)})
		w.do(&build{View: view, Ops: append(p, b...), Other: a})
		w.do(&build{View: view, From: B(full5), Ops: append(a, b...)})
	})
}

// throng is a message with very many elements, parameters or calls.
type throng struct {
	View, Shape string
	N           int
	From        B `json:",omitempty"`
}

func (t *throng) Kind() string { return "throng" }
func (t *throng) Run() string {
	b := &build{View: t.View, From: t.From}
	if len(t.From) == 0 {
		b.Ops = []op{num("pri", 1), num("ver", 1)}
	}
	add := func(o ...op) { b.Ops = append(b.Ops, o...) }
	for i := 0; i < t.N; i++ {
		k := (i * 7919) % t.N // an order which is not the one of the names (7919 is prime)
		switch t.Shape {
		case "parameters":
			add(par("e", fmt.Sprintf("p%d", k), fmt.Sprintf("\\\"%d\xc3\xa9", i)))
		case "elements":
			add(par(fmt.Sprintf("e%d", k), "a", fmt.Sprintf("v%d", i)))
		case "ids":
			add(s1("id", fmt.Sprintf("e%d", k)))
		case "again": // few of them, set many times
			add(par(fmt.Sprintf("e%d", i%3), fmt.Sprintf("p%d", i%5), fmt.Sprintf("v%d", i)), s1("id", fmt.Sprintf("e%d", i%4)))
		case "fields": // every field, set many times
			x := fmt.Sprintf("x%d", i)
			add(s1("host", x), s1("app", x), s1("proc", x), s1("mid", x), s1("text", x), num("pri", i%192), num("ver", 1+i%999), s1("ts", fmt.Sprintf("2018-10-11T%02d:%02d:%02dZ", i/3600%24, i/60%60, i%60)))
		case "refused":
			add(s1("host", "a b"), par("e", "a", "\""), s1("id", "="), s1("ts", "never"), num("ver", 0), s1("text", fmt.Sprintf("t%d", i)))
		}
	}
	switch t.Shape { // and some of them again, when all are there
	case "parameters":
		for i := 0; i < 50; i++ {
			add(par("e", fmt.Sprintf("p%d", i*37%t.N), "w"))
		}
		add(par("e", "p0", "\""), s1("id", "e"), par("f", "p0", ""))
	case "elements", "ids":
		for i := 0; i < 50; i++ {
			add(par(fmt.Sprintf("e%d", i*37%t.N), "a", "w"), par(fmt.Sprintf("e%d", i*41%t.N), "b", ""))
		}
	}
	return b.Run()
}

func init() {
	replayers["throng"] = func(b json.RawMessage) (Scenario, error) {
		s := &throng{}
		return s, json.Unmarshal(b, s)
	}
}

func throngs(c *Ctx, view string) {
	var ns []int
	for _, n := range []int{64, 100, 128, 200, 256, 300, 400, 500, 512, 700, 800, 1000, 1024, 1200, 1500, 2000, 2048, 2500, 3000, 4000, 4096} {
		ns = append(ns, n-1, n, n+1)
	}
	if c.thorough() {
		ns = append(ns, 8191, 8192, 8193, 10000, 10001, 16384, 16385)
	}
	shapes := []string{"parameters", "elements", "ids", "again", "fields", "refused"}
	c.parallel(len(ns)*len(shapes)*2, func(w *worker, i int) {
		t := &throng{View: view, Shape: shapes[i/2%len(shapes)], N: ns[len(ns)-1-i/2/len(shapes)]}
		if i%2 == 1 {
			t.From = B(full5)
		}
		w.do(t)
	})
}

// checkReparse: messages from the parser (also partial ones) render and parse back.
func checkReparse(c *Ctx) {
	run := func(w *worker, in []byte) { w.do(&reparse{In: in}) }
	mutations(c, skeletons5(), run)
	dateFamilies(c, func(w *worker, ts string) { run(w, []byte("<1>1 "+ts+" h a p m [i] t")) })
	c.fanout(bs("[a", "[b", "]", " x=\"1\"", " y=\"\\]\\\\\"", " x=\"\xc3\xa9\\\"\"", " z=\"\xf0\x9f\x98\x80\"", "[A", " "), c.pick(6, 7), func(w *worker, s []byte) {
		run(w, cat([]byte(pre5), s))
	})
	c.parallel(0x1100, func(w *worker, hi int) { // every code point as a value and in the text
		for lo := 0; lo < 256; lo++ {
			u := string(rune(hi<<8 | lo))
			if u == "\"" || u == "\\" || u == "]" {
				u = "\\" + u
			}
			run(w, []byte(pre5+"[a x=\""+u+"z\"] "+u))
		}
	})
	c.parallel(256, func(w *worker, p int) {
		for _, v := range []int{1, 9, 10, 99, 100, 999} {
			run(w, []byte(fmt.Sprintf("<%d>%d - - - - - -", p, v)))
		}
	})
	c.parallel(len(fieldWords), func(w *worker, i int) {
		for _, b := range fieldWords {
			a := fieldWords[i]
			run(w, []byte("<13>1 - "+a+" "+b+" "+a+" "+b+" ["+a+" "+b+"=\""+a+"\" z=\"\"]["+b+" y=\"1\" "+a+"=\"\"] "+a))
			run(w, []byte("<13>1 - "+a+" "+a+" "+b+" "+b+" - "+a))
		}
	})
	c.serial(func(w *worker) { w.do(&longRun{N: c.pick(1<<20, 1<<22) + 10}) })
	c.note("edits_by_hand", len(editions))
	c.note("renderings", tally11.report(func(k int) string { return []string{"refused (not valid)", "rendered and parsed back"}[k] }))
}

// checkByHand: messages whose fields are changed without the builder.
func checkByHand(c *Ctx) {
	// messages which are not valid because a field was changed by hand
	c.parallel(256, func(w *worker, p int) { w.do(&handMade{Pri: p}) })
	c.parallel(len(editions)*len(editions), func(w *worker, i int) {
		w.do(&edited{From: i / len(editions), To: i % len(editions)})
	})
}

// edited: a message whose fields are set by hand, rendered before and after.
type edited struct{ From, To int }

var editions = []func(m *rfc5424.SyslogMessage, e *msgv){
	func(m *rfc5424.SyslogMessage, e *msgv) {},
	func(m *rfc5424.SyslogMessage, e *msgv) { h := "h2"; m.Hostname, e.host = &h, &h },
	func(m *rfc5424.SyslogMessage, e *msgv) { h := "a2"; m.Appname, e.app = &h, &h },
	func(m *rfc5424.SyslogMessage, e *msgv) { h := "p2"; m.ProcID, e.proc = &h, &h },
	func(m *rfc5424.SyslogMessage, e *msgv) { h := "m2"; m.MsgID, e.mid = &h, &h },
	func(m *rfc5424.SyslogMessage, e *msgv) { h := "other"; m.Message, e.text = &h, &h },
	func(m *rfc5424.SyslogMessage, e *msgv) { m.Hostname, e.host = nil, nil },
	func(m *rfc5424.SyslogMessage, e *msgv) { m.Message, e.text = nil, nil },
	func(m *rfc5424.SyslogMessage, e *msgv) { m.Timestamp, e.ts = nil, nil },
	func(m *rfc5424.SyslogMessage, e *msgv) { m.StructuredData, e.sd = nil, nil },
	func(m *rfc5424.SyslogMessage, e *msgv) {
		t := time.Date(1999, 12, 31, 23, 59, 59, 5000, time.FixedZone("", -3600))
		m.Timestamp, e.ts = &t, &stamp{sec: t.Unix(), nsec: 5000, off: -3600}
	},
	func(m *rfc5424.SyslogMessage, e *msgv) {
		*m.Timestamp = m.Timestamp.Add(time.Hour)
		e.ts = &stamp{sec: e.ts.sec + 3600, nsec: e.ts.nsec, off: e.ts.off}
	},
	func(m *rfc5424.SyslogMessage, e *msgv) { m.ComputeFromPriority(9); e.pri = 9 },
	func(m *rfc5424.SyslogMessage, e *msgv) { m.Version, e.ver = 3, 3 },
	func(m *rfc5424.SyslogMessage, e *msgv) { *m.Hostname = "same"; s := "same"; e.host = &s },
	func(m *rfc5424.SyslogMessage, e *msgv) { *m.Message = "text1"; s := "text1"; e.text = &s },
	func(m *rfc5424.SyslogMessage, e *msgv) {
		(*m.StructuredData)["e0"]["a"] = "v\"2"
		e.sd["e0"]["a"] = "v\"2"
	},
	func(m *rfc5424.SyslogMessage, e *msgv) { (*m.StructuredData)["e0"]["c"] = ""; e.sd["e0"]["c"] = "" },
	func(m *rfc5424.SyslogMessage, e *msgv) {
		delete((*m.StructuredData)["e0"], "a")
		delete(e.sd["e0"], "a")
	},
	func(m *rfc5424.SyslogMessage, e *msgv) { delete(*m.StructuredData, "e1"); delete(e.sd, "e1") },
	func(m *rfc5424.SyslogMessage, e *msgv) {
		x := map[string]map[string]string{"z": {"y": "]"}}
		m.StructuredData, e.sd = &x, map[string]map[string]string{"z": {"y": "]"}}
	},
	func(m *rfc5424.SyslogMessage, e *msgv) {
		(*m.StructuredData)["n"] = map[string]string{"q": "\\"}
		e.sd["n"] = map[string]string{"q": "\\"}
	},
	// changes to others of the same length
	func(m *rfc5424.SyslogMessage, e *msgv) { *m.Hostname = "host9"; s := "host9"; e.host = &s },
	func(m *rfc5424.SyslogMessage, e *msgv) { *m.Appname = "app9"; s := "app9"; e.app = &s },
	func(m *rfc5424.SyslogMessage, e *msgv) { *m.ProcID = "proc9"; s := "proc9"; e.proc = &s },
	func(m *rfc5424.SyslogMessage, e *msgv) { *m.MsgID = "mid9"; s := "mid9"; e.mid = &s },
	func(m *rfc5424.SyslogMessage, e *msgv) { *m.Message = "text9"; s := "text9"; e.text = &s },
	func(m *rfc5424.SyslogMessage, e *msgv) { h, s := "host8", "host8"; m.Hostname, e.host = &h, &s },
	func(m *rfc5424.SyslogMessage, e *msgv) { h, s := "text8", "text8"; m.Message, e.text = &h, &s },
	func(m *rfc5424.SyslogMessage, e *msgv) {
		(*m.StructuredData)["e0"]["a"] = "2"
		e.sd["e0"]["a"] = "2"
	},
	func(m *rfc5424.SyslogMessage, e *msgv) {
		(*m.StructuredData)["e0"]["a"], (*m.StructuredData)["e0"]["b"] = "]", "1"
		e.sd["e0"]["a"], e.sd["e0"]["b"] = "]", "1"
	},
	func(m *rfc5424.SyslogMessage, e *msgv) {
		d := *m.StructuredData
		d["e0"], d["e1"] = d["e1"], d["e0"]
		e.sd["e0"], e.sd["e1"] = e.sd["e1"], e.sd["e0"]
	},
	func(m *rfc5424.SyslogMessage, e *msgv) {
		d := *m.StructuredData
		d["e9"] = d["e1"]
		delete(d, "e1")
		e.sd["e9"] = e.sd["e1"]
		delete(e.sd, "e1")
	},
	func(m *rfc5424.SyslogMessage, e *msgv) {
		*m.Timestamp = m.Timestamp.Add(time.Minute)
		e.ts = &stamp{sec: e.ts.sec + 60, nsec: e.ts.nsec, off: e.ts.off}
	},
	func(m *rfc5424.SyslogMessage, e *msgv) { m.Version, e.ver = 8, 8 },
	func(m *rfc5424.SyslogMessage, e *msgv) { m.ComputeFromPriority(14); e.pri = 14 },
	func(m *rfc5424.SyslogMessage, e *msgv) { *m.Priority, *m.Facility, *m.Severity = 15, 1, 7; e.pri = 15 },
	// other maps and values with the same content
	func(m *rfc5424.SyslogMessage, e *msgv) {
		x := map[string]map[string]string{}
		for id, ps := range *m.StructuredData {
			x[id] = map[string]string{}
			for n, v := range ps {
				x[id][n] = v
			}
		}
		m.StructuredData = &x
	},
	func(m *rfc5424.SyslogMessage, e *msgv) {
		h, a := *m.Hostname, *m.Appname
		m.Hostname, m.Appname = &h, &a
	},
	// setters after all
	func(m *rfc5424.SyslogMessage, e *msgv) { m.SetHostname("host7"); s := "host7"; e.host = &s },
	func(m *rfc5424.SyslogMessage, e *msgv) { m.SetMessage("text7"); s := "text7"; e.text = &s },
	func(m *rfc5424.SyslogMessage, e *msgv) {
		if e.sd["e0"] != nil {
			m.SetParameter("e0", "a", "7")
			e.sd["e0"]["a"] = "7"
		}
	},
}

func (x *edited) Kind() string { return "edited" }
func (x *edited) Run() (bad string) {
	b := &build{From: B(full5)}
	m, e, bad := b.start()
	if bad != "" {
		return bad
	}
	for i, k := range []int{0, x.From, x.To, x.From} {
		func() {
			defer func() { recover() }() // editions of what an earlier one has removed
			f := editions[k]
			f(m, e)
		}()
		if d := roundTrip(m, e); d != "" {
			return fmt.Sprintf("after the changes number %v: %s", []int{0, x.From, x.To, x.From}[:i+1], d)
		}
		// a copy made by the user is a message of its own
		c := *m
		if d := roundTrip(&c, e); d != "" {
			return fmt.Sprintf("a copy made after the changes number %v: %s", []int{0, x.From, x.To, x.From}[:i+1], d)
		}
	}
	return ""
}

func init() {
	replayers["edited"] = func(b json.RawMessage) (Scenario, error) {
		s := &edited{}
		return s, json.Unmarshal(b, s)
	}
}

// handMade: a message whose priority was set with ComputeFromPriority, which does not check it.
type handMade struct{ Pri int }

func (h *handMade) Kind() string { return "handMade" }
func (h *handMade) Run() string {
	for _, ver := range []int{0, 1, 999, 1000, 65535} {
		m := &rfc5424.SyslogMessage{}
		m.ComputeFromPriority(uint8(h.Pri))
		m.Version = uint16(ver)
		e := &msgv{pri: h.Pri, ver: ver}
		if m.Valid() != e.valid() {
			return fmt.Sprintf("priority %d and version %d: Valid is %v", h.Pri, ver, m.Valid())
		}
		if d := roundTrip(m, e); d != "" {
			return d
		}
	}
	m := &rfc5424.SyslogMessage{Version: 1}
	if _, err := m.String(); err == nil || m.Valid() {
		return "a message without priority is valid or renders"
	}
	return ""
}

func init() {
	replayers["handMade"] = func(b json.RawMessage) (Scenario, error) {
		s := &handMade{}
		return s, json.Unmarshal(b, s)
	}
}

// ---- P13

var facMsg = []string{"kernel messages", "user-level messages", "mail system messages", "system daemons messages", "authorization messages", "messages generated internally by syslogd",
	"line printer subsystem messages", "network news subsystem messages", "UUCP subsystem messages", "clock daemon messages", "security/authorization messages", "ftp daemon messages", "NTP subsystem messages",
	"audit messages", "console messages", "clock daemon messages", "local use 0 (local0)", "local use 1 (local1)", "local use 2 (local2)", "local use 3 (local3)", "local use 4 (local4)", "local use 5 (local5)", "local use 6 (local6)", "local use 7 (local7)"}
var facKey = []string{"kern", "user", "mail", "daemon", "auth", "syslog", "lpr", "news", "uucp", "cron", "authpriv", "ftp", "ntp", "security", "console", "cron2", "local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7"}
var sevMsg = []string{"system is unusable", "action must be taken immediately", "critical conditions", "error conditions", "warning conditions", "normal but significant condition", "informational messages", "debug-level messages"}
var sevLevel = []string{"emergency", "alert", "critical", "error", "warning", "notice", "informational", "debug"}
var sevShort = []string{"emerg", "alert", "crit", "err", "warning", "notice", "info", "debug"}

var accessors = []struct {
	name string
	get  func(m syslog.Message) *string
	want func(p int) string
}{
	{"FacilityMessage", func(m syslog.Message) *string { return m.FacilityMessage() }, func(p int) string { return facMsg[p/8] }},
	{"FacilityLevel", func(m syslog.Message) *string { return m.FacilityLevel() }, func(p int) string { return facKey[p/8] }},
	{"SeverityMessage", func(m syslog.Message) *string { return m.SeverityMessage() }, func(p int) string { return sevMsg[p%8] }},
	{"SeverityLevel", func(m syslog.Message) *string { return m.SeverityLevel() }, func(p int) string { return sevLevel[p%8] }},
	{"SeverityShortLevel", func(m syslog.Message) *string { return m.SeverityShortLevel() }, func(p int) string { return sevShort[p%8] }},
}

// labels makes a message (source), gives it a sequence of priorities, and calls label accessors in the given order; the
// returned strings are then overwritten and everything is looked at again on another message.
type labels struct {
	Source string // "base", "5424", "3164", "parsed5424", "parsed3164", "set5424"
	Pris   []int
	Order  []int
}

func (l *labels) Kind() string { return "labels" }

func (l *labels) make(src string, p int, old syslog.Message) (syslog.Message, string) {
	var m syslog.Message
	var err error
	switch src {
	case "base":
		if m = old; m == nil {
			m = &syslog.Base{}
		}
		if p >= 0 {
			m.ComputeFromPriority(uint8(p))
		}
	case "5424":
		if m = old; m == nil {
			m = &rfc5424.SyslogMessage{}
		}
		if p >= 0 {
			m.ComputeFromPriority(uint8(p))
		}
	case "set5424":
		if m = old; m == nil {
			m = &rfc5424.SyslogMessage{}
		}
		if p >= 0 {
			m.(*rfc5424.SyslogMessage).SetPriority(uint8(p))
		}
	case "3164":
		if m = old; m == nil {
			m = &rfc3164.SyslogMessage{}
		}
		if p >= 0 {
			m.ComputeFromPriority(uint8(p))
		}
	case "parsed5424":
		m, err = rfc5424.NewParser().Parse([]byte(fmt.Sprintf("<%d>1 - - - - - -", p)))
	case "parsed3164":
		m, err = rfc3164.NewParser().Parse([]byte(fmt.Sprintf("<%d>Jan  1 00:00:00 h t", p)))
	}
	if err != nil {
		return nil, err.Error()
	}
	return m, ""
}

func baseOf(m syslog.Message) *syslog.Base {
	switch x := m.(type) {
	case *syslog.Base:
		return x
	case *rfc5424.SyslogMessage:
		return &x.Base
	case *rfc3164.SyslogMessage:
		return &x.Base
	}
	return nil
}

func (l *labels) Run() string {
	var m syslog.Message
	cur := -1
	for _, p := range l.Pris {
		n, bad := l.make(l.Source, p, m)
		if bad != "" {
			return bad
		}
		m = n
		if p >= 0 && !(l.Source == "set5424" && p > 191) {
			cur = p
		}
		if d := l.look(m, cur, l.Order); d != "" {
			return d
		}
	}
	// another message is not affected by what was done with the labels of the first
	n, bad := l.make(l.Source, l.Pris[len(l.Pris)-1], nil)
	if bad != "" {
		return bad
	}
	if l.Source == "set5424" && l.Pris[len(l.Pris)-1] > 191 {
		cur = -1
	} else {
		cur = l.Pris[len(l.Pris)-1]
	}
	return l.look(n, cur, []int{0, 1, 2, 3, 4})
}

func (l *labels) look(m syslog.Message, cur int, order []int) string {
	b := baseOf(m)
	fac, sev := -1, -1
	if cur >= 0 {
		fac, sev = cur/8, cur%8
	}
	for _, k := range order {
		before := *b
		g := accessors[k].get(m)
		if *b != before {
			return fmt.Sprintf("%s changed the message", accessors[k].name)
		}
		for what, d := range map[string]string{"priority": cmpU8("priority", cur, b.Priority), "facility": cmpU8("facility", fac, b.Facility), "severity": cmpU8("severity", sev, b.Severity)} {
			if d != "" {
				return fmt.Sprintf("%s, priority %d, after %s: %s: %s", l.Source, cur, accessors[k].name, what, d)
			}
		}
		if cur > 191 {
			continue // no standard label
		}
		if cur < 0 {
			if g != nil {
				return fmt.Sprintf("%s without priority: %s is %q", l.Source, accessors[k].name, *g)
			}
			continue
		}
		if g == nil || *g != accessors[k].want(cur) {
			return fmt.Sprintf("%s, priority %d: %s is %s, expected %q", l.Source, cur, accessors[k].name, strOr(g), accessors[k].want(cur))
		}
		*g = "scribbled"
		if h := accessors[k].get(m); h == nil || *h != accessors[k].want(cur) {
			return fmt.Sprintf("%s, priority %d: %s is %s after changing what it had returned before", l.Source, cur, accessors[k].name, strOr(h))
		}
	}
	if v := m.Valid(); l.Source != "base" && l.Source != "3164" && l.Source != "parsed3164" {
		want := cur >= 0 && cur <= 191 && m.(*rfc5424.SyslogMessage).Version > 0
		if v != want {
			return fmt.Sprintf("%s, priority %d: Valid is %v", l.Source, cur, v)
		}
	} else if v != (cur >= 0 && cur <= 191) {
		return fmt.Sprintf("%s, priority %d: Valid is %v", l.Source, cur, v)
	}
	return ""
}

func strOr(s *string) string {
	if s == nil {
		return "none"
	}
	return fmt.Sprintf("%q", *s)
}

func check13(c *Ctx) {
	c.assume("the label tables are those documented (RFC 5427 and syslog(3))")
	var orders [][]int
	var perm func(p []int, used int)
	perm = func(p []int, used int) {
		if len(p) == 5 {
			orders = append(orders, append([]int{}, p...))
			return
		}
		for i := 0; i < 5; i++ {
			if used&(1<<uint(i)) == 0 {
				perm(append(p, i), used|1<<uint(i))
			}
		}
	}
	perm(nil, 0)
	srcs := []string{"base", "5424", "3164", "set5424", "parsed5424", "parsed3164"}
	c.addStates(len(srcs) * 257)
	c.parallel(257, func(w *worker, i int) {
		p := i - 1
		for _, s := range srcs {
			if strings.HasPrefix(s, "parsed") && (p < 0 || p > 191) {
				continue
			}
			for _, o := range orders {
				w.do(&labels{Source: s, Pris: []int{p}, Order: o})
			}
			c.addTransitions(5 * len(orders))
			for q := 0; q < 256; q++ { // a second priority on the same message
				if strings.HasPrefix(s, "parsed") && q > 191 {
					break
				}
				w.do(&labels{Source: s, Pris: []int{p, q}, Order: []int{q % 5, (q + 3) % 5, (q + 1) % 5, (q + 2) % 5}})
				if c.thorough() {
					for k := 0; k < len(orders); k += 10 {
						w.do(&labels{Source: s, Pris: []int{p, q, p}, Order: orders[k]})
					}
				}
				c.addTransitions(1)
			}
		}
	})
}
