package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// inst is a parser to be: its kind and its options in the order in which they are listed.
type inst struct {
	Kind   string // 5424, 3164, octet, lines
	Parser bool   `json:",omitempty"` // the mutex protected one
	Opts   []string
}

// program creates parsers and uses them, in some order: step -(i+1) creates instance i, step i probes it, step 100+i calls
// its method WithBestEffort.
type program struct {
	Insts  []inst
	Steps  []int
	Shared bool `json:",omitempty"` // instances with the same option share the option value
}

func (p *program) Kind() string { return "options" }

type live struct {
	inst
	m       syslog.Machine
	s       syslog.Parser
	heard   []string
	late    bool
	has     map[string]string
	created bool
}

func optKey(o string) (string, string) {
	if i := strings.IndexByte(o, ':'); i >= 0 {
		return o[:i], o[i+1:]
	}
	return o, ""
}

func machineOpt(kind, o string) syslog.MachineOption {
	k, v := optKey(o)
	switch kind + " " + k {
	case "5424 best":
		return rfc5424.WithBestEffort()
	case "5424 compliant":
		return rfc5424.WithCompliantMsg()
	case "3164 best":
		return rfc3164.WithBestEffort()
	case "3164 rfc3339":
		return rfc3164.WithRFC3339()
	case "3164 locale":
		return rfc3164.WithLocaleTimezone(zone(v))
	case "3164 zone":
		return rfc3164.WithTimezone(zone(v))
	case "3164 year":
		if v == "now" {
			return rfc3164.WithYear(rfc3164.CurrentYear{})
		}
		n, _ := strconv.Atoi(v)
		return rfc3164.WithYear(rfc3164.Year{YYYY: n})
	}
	panic("unknown option " + kind + " " + o)
}

func parserOpt(o string, l *live) syslog.ParserOption {
	k, v := optKey(o)
	switch k {
	case "best":
		return syslog.WithBestEffort()
	case "max":
		n, _ := strconv.Atoi(v)
		return syslog.WithMaxMessageLength(n)
	case "listener":
		return syslog.WithListener(l.listen)
	case "trailer":
		n, _ := strconv.Atoi(v)
		return nontransparent.WithTrailer(nontransparent.TrailerType(n))
	}
	panic("unknown option " + o)
}

func (l *live) listen(r *syslog.Result) { l.heard = append(l.heard, outcomeOf(r.Message, r.Error)) }

type sharedOpts struct {
	m map[string]syslog.MachineOption
	p map[string]syslog.ParserOption
}

func (l *live) create(sh *sharedOpts) {
	l.has = map[string]string{}
	var mo []syslog.MachineOption
	var po []syslog.ParserOption
	for _, o := range l.Opts {
		k, v := optKey(o)
		if k != "trailer" || v == "0" || v == "1" { // an unknown trailer changes nothing
			l.has[k] = v
		}
		switch l.Kind {
		case "5424", "3164":
			op := machineOpt(l.Kind, o)
			if sh != nil {
				if x, ok := sh.m[l.Kind+o]; ok {
					op = x
				}
				sh.m[l.Kind+o] = op
			}
			mo = append(mo, op)
		default:
			op := parserOpt(o, l)
			if sh != nil && k != "listener" {
				if x, ok := sh.p[o]; ok {
					op = x
				}
				sh.p[o] = op
			}
			po = append(po, op)
		}
	}
	switch l.Kind {
	case "5424":
		if l.Parser {
			l.m = rfc5424.NewParser(mo...)
		} else {
			l.m = rfc5424.NewMachine(mo...)
		}
	case "3164":
		if l.Parser {
			l.m = rfc3164.NewParser(mo...)
		} else {
			l.m = rfc3164.NewMachine(mo...)
		}
	case "octet":
		l.s = octetcounting.NewParser(po...)
	case "lines":
		l.s = nontransparent.NewParser(po...)
	}
	l.created = true
}

func (l *live) on(o string) bool { _, ok := l.has[o]; return ok }

var probes5 = []string{
	"<165>4 2018-10-11T22:14:15.003Z host app pid mid [id a=\"b\"] text",
	"<165>4 2018-10-11T22:14:15.003Z host app pid mid [id a=\"b\"][",
	"<1>1 - - - - - - \xef\xbb\xbfok",
	"<1>1 - - - - - - \xef\xbb\xbf\xff",
	"<1>1 - - - - - - \xff",
	"<192>1",
}

var probes3 = []string{
	"<34>Jul  4 22:14:15 host tag[1]: text",
	"<34>Jan 10 02:14:15 host text",
	"<34>2018-10-11T22:14:15+01:30 host tag: text",
	"<34>Jul  4 22:14:15 host tag[1]: \x01",
	"<34>2018-10-11T22:14:15Z host \x01",
	"<192>Jan",
}

var octProbes = []string{
	frame(hdr) + frame("<2>1 - host - - - - more than twenty bytes") + frame(hdr),
	frame(hdr) + frame("<2>1 - x") + frame(hdr),
	frame(hdr) + "18 <2>1 - trunc",
	frame(sized(8192)) + frame(hdr),
	frame(hdr) + frame(sized(8193)) + frame(hdr),
	frame(sized(20)) + frame(sized(21)) + frame(hdr),
	"",
}

var lineProbes = []string{
	"<1>1 - - - - - - a\n<2>1 - - - - - - b\x00<3>1 - - - - - - c\n<4>1 - - - - - - d\x00",
	"<1>1 - - - - - - a\n<2>1 - x\n<3>1 - - - - - - c\n",
	"<1>1 - - - - - - a\x00<2>1 - x\x00<3>1 - - - - - - c\x00<4>1",
	"",
}

func (l *live) probe() string {
	best := l.on("best") || l.late
	switch l.Kind {
	case "5424":
		if g := l.m.HasBestEffort(); g != best {
			return fmt.Sprintf("HasBestEffort gives %v", g)
		}
		for _, in := range probes5 {
			m, err := l.m.Parse([]byte(in))
			if d := judge5("all", []byte(in), best, l.on("compliant"), m, err); d != "" {
				return d
			}
		}
	case "3164":
		if g := l.m.HasBestEffort(); g != best {
			return fmt.Sprintf("HasBestEffort gives %v", g)
		}
		c := cfg3{Best: best, RFC3339: l.on("rfc3339"), Locale: l.has["locale"], Zone: l.has["zone"]}
		if v, ok := l.has["year"]; ok {
			y := time.Now().Year()
			if v != "now" {
				y, _ = strconv.Atoi(v)
			}
			c.Year = &y
		}
		for _, in := range probes3 {
			m, err := l.m.Parse([]byte(in))
			if d := judge3("all", []byte(in), c, m, err); d != "" {
				if v, ok := l.has["year"]; ok && v == "now" && *c.Year != time.Now().AddDate(0, 0, -2).Year() {
					return "" // the first days of a year
				}
				return d
			}
		}
	default:
		if g := l.s.HasBestEffort(); g != best {
			return fmt.Sprintf("HasBestEffort gives %v", g)
		}
		s := scfg{Octet: l.Kind == "octet", Best: best}
		if v, ok := l.has["max"]; ok {
			n, _ := strconv.Atoi(v)
			s.Max = &n
		}
		if v, ok := l.has["trailer"]; ok {
			s.NUL = v == "1"
		}
		ps := octProbes
		if l.Kind == "lines" {
			ps = lineProbes
		}
		for round := 0; round < 2; round++ {
			heard := l.on("listener")
			if round == 1 {
				if heard {
					break
				}
				l.s.WithListener(l.listen)
				heard = true
			}
			for _, in := range ps {
				l.heard = nil
				l.s.Parse(&planReader{data: []byte(in)})
				ws, _ := s.expect([]byte(in), feed{}, nil)
				if !heard {
					ws = nil
				}
				if d := sameResults(l.heard, ws); d != "" {
					return fmt.Sprintf("stream %q: %s", short(in), d)
				}
			}
		}
		if !l.on("listener") {
			l.s.WithListener(func(*syslog.Result) {})
		}
	}
	return ""
}

func (p *program) Run() string {
	ls := make([]*live, len(p.Insts))
	for i := range ls {
		ls[i] = &live{inst: p.Insts[i]}
	}
	var sh *sharedOpts
	if p.Shared {
		sh = &sharedOpts{map[string]syslog.MachineOption{}, map[string]syslog.ParserOption{}}
	}
	for k, s := range p.Steps {
		switch {
		case s < 0:
			ls[-s-1].create(sh)
		case s >= 100:
			ls[s-100].m.WithBestEffort()
			ls[s-100].late = true
		default:
			if d := ls[s].probe(); d != "" {
				return fmt.Sprintf("step %d, parser number %d (%s, mutex %v, options %v, best effort set later %v): %s", k, s, ls[s].Kind, ls[s].Parser, ls[s].Opts, ls[s].late, d)
			}
		}
	}
	return ""
}

// twin compares the plain and the mutex protected parser on one input.
type twin struct {
	P  pcfg
	In B
}

func (t *twin) Kind() string { return "twin" }

func (t *twin) Run() string {
	a, b := t.P, t.P
	a.Parser, b.Parser = false, true
	x, y := a.new(), b.new()
	if x.HasBestEffort() != y.HasBestEffort() {
		return fmt.Sprintf("%+v: HasBestEffort differs", t.P)
	}
	m1, e1 := x.Parse(append([]byte{}, t.In...))
	m2, e2 := y.Parse(append([]byte{}, t.In...))
	if o, p := outcomeOf(m1, e1), outcomeOf(m2, e2); o != p || (m1 == nil) != (m2 == nil) {
		return fmt.Sprintf("%+v on %q: the plain parser gives %s, the mutex protected one %s", t.P, short(string(t.In)), short(o), short(p))
	}
	return ""
}

func init() {
	replayers["options"] = func(b json.RawMessage) (Scenario, error) {
		s := &program{}
		return s, json.Unmarshal(b, s)
	}
	replayers["twin"] = func(b json.RawMessage) (Scenario, error) {
		s := &twin{}
		return s, json.Unmarshal(b, s)
	}
	replayers["trailer"] = func(b json.RawMessage) (Scenario, error) {
		s := &trailerText{}
		return s, json.Unmarshal(b, s)
	}
	checks["P20"] = checkP20
	checks["P21"] = checkP21
}

// arrangements calls f with every ordered selection (of each size) of the options.
func arrangements(opts []string, f func([]string)) {
	used := make([]bool, len(opts))
	var cur []string
	var rec func()
	rec = func() {
		f(append([]string{}, cur...))
		for i, o := range opts {
			if !used[i] {
				used[i] = true
				cur = append(cur, o)
				rec()
				cur = cur[:len(cur)-1]
				used[i] = false
			}
		}
	}
	rec()
}

func checkP20(c *Ctx) {
	var all, reps []inst
	seen := map[string]bool{}
	add := func(x inst) {
		all = append(all, x)
		// one representative arrangement of each set
		set := append([]string{}, x.Opts...)
		for i := range set {
			for j := i + 1; j < len(set); j++ {
				if set[j] < set[i] {
					set[i], set[j] = set[j], set[i]
				}
			}
		}
		k := x.Kind + strconv.FormatBool(x.Parser) + strings.Join(set, ",")
		if !seen[k] {
			seen[k] = true
			reps = append(reps, x)
		}
	}
	for _, mtx := range modes() {
		mtx := mtx
		arrangements([]string{"best", "compliant"}, func(o []string) { add(inst{"5424", mtx, o}) })
		for _, y := range []string{"year:2020", "year:now", "year:0"} {
			y := y
			arrangements([]string{"best", "rfc3339", y, "locale:America/New_York", "zone:Asia/Kolkata"}, func(o []string) { add(inst{"3164", mtx, o}) })
		}
	}
	for _, m := range []string{"max:20", "max:8193", "max:16"} {
		arrangements([]string{"best", "listener", m}, func(o []string) { add(inst{"octet", false, o}) })
	}
	for _, t := range [][]string{{"trailer:0"}, {"trailer:1"}, {"trailer:7"}, {"trailer:-1"}, {"trailer:1", "trailer:2"}, {"trailer:1", "trailer:-1"}} {
		if len(t) == 2 {
			// an unknown trailer changes nothing, before or after a known one
			arrangements([]string{"best", "listener", "trailer:1", "X"}, func(o []string) {
				for i := range o {
					if o[i] == "X" {
						o[i] = t[1]
					}
				}
				add(inst{"lines", false, o})
			})
			continue
		}
		arrangements([]string{"best", "listener", t[0], "max:20"}, func(o []string) { add(inst{"lines", false, o}) })
	}
	var probesRun int64
	run := func(w *worker, p *program) {
		atomic.AddInt64(&probesRun, int64(len(p.Steps)))
		w.do(p)
	}
	// each arrangement of the options of each parser, on its own; options given twice
	c.parallel(len(all), func(w *worker, i int) {
		x := all[i]
		run(w, &program{Insts: []inst{x}, Steps: []int{-1, 0, 0}})
		if len(x.Opts) > 0 && x.Kind != "lines" {
			y := x
			y.Opts = append(append([]string{}, x.Opts...), x.Opts...)
			run(w, &program{Insts: []inst{y}, Steps: []int{-1, 0}})
			run(w, &program{Insts: []inst{y}, Steps: []int{-1, 0}, Shared: true})
		}
		if x.Kind == "5424" || x.Kind == "3164" {
			run(w, &program{Insts: []inst{x}, Steps: []int{-1, 0, 100, 0, 0}})
		}
	})
	crowds(c, reps)
	takeTurns(c)
	lateOptions(c, reps)
	c.addStates(len(all))
	c.note("option_arrangements", len(all))
	c.note("option_sets", len(reps))
	// any two parsers alive together
	scheds := [][]int{{-1, -2, 0, 1, 0}, {-1, 0, -2, 0, 1, 0, 1}}
	n := len(reps)
	c.parallel(n*n, func(w *worker, k int) {
		a, b := reps[k/n], reps[k%n]
		if !c.thorough() && a.Kind == "3164" && b.Kind == "3164" && (k/n+k%n)%4 != 0 {
			return
		}
		for _, s := range scheds {
			for _, sh := range modes() {
				run(w, &program{Insts: []inst{a, b}, Steps: s, Shared: sh})
			}
		}
		// the same option value used for two parsers, one of which changes
		if (a.Kind == "5424" || a.Kind == "3164") && (c.thorough() || k%5 == 0) {
			run(w, &program{Insts: []inst{a, b}, Steps: []int{-1, -2, 100, 1, 0, 1}, Shared: true})
		}
	})
	c.addTransitions(int(probesRun))
	c.note("pairs", n*n)
	// triples of the basic ones
	var basic []inst
	for _, r := range reps {
		if len(r.Opts) <= 1 && (r.Kind != "3164" || !r.Parser) {
			basic = append(basic, r)
		}
	}
	if !c.thorough() && len(basic) > 14 {
		var fewer []inst
		for i, r := range basic {
			if i%2 == 0 {
				fewer = append(fewer, r)
			}
		}
		basic = fewer
	}
	nb := len(basic)
	c.parallel(nb*nb*nb, func(w *worker, k int) {
		run(w, &program{Insts: []inst{basic[k/nb/nb], basic[k/nb%nb], basic[k%nb]}, Steps: []int{-1, -2, 0, -3, 1, 0, 2, 1, 0}, Shared: k%2 == 0})
	})
	c.note("triples", nb*nb*nb)
	// plain and mutex protected parsers, on every mutation of messages that go through the whole grammar
	for _, p := range pcfgs() {
		if p.Parser {
			continue
		}
		p := p
		sk := p.skeletons()
		for _, s := range p.corpus() {
			if len(s) < 200 {
				sk = append(sk, []byte(s))
			}
		}
		if !c.thorough() {
			// the shortest ones
			var fewer [][]byte
			for _, s := range sk {
				if len(s) < 90 {
					fewer = append(fewer, s)
				}
			}
			sk = fewer
		}
		mutations(c, sk, func(w *worker, in []byte) { w.do(&twin{P: p, In: in}) })
	}
	c.note("what", "each ordered selection of the options of each parser; every sequence of up to three options given to each parser in use; every sequence of three stream parsers with different maxima, one after the other; every ordered pair and selected triples of differently configured parsers, created and used in interleaved order, with and without shared option values; the behaviour on probe inputs is compared with the reference models, and the mutex protected parsers with the plain ones on all single-byte mutations of the probe messages")
	c.assume("an option given twice with two different values is left unspecified; states = option arrangements, transitions = steps of the programs run")
}

// trailerText is one conversion.
type trailerText struct {
	Text B    `json:",omitempty"`
	Num  *int `json:",omitempty"`
}

func (t *trailerText) Kind() string { return "trailer" }

func eqFold(s, up string) bool {
	if len(s) != len(up) {
		return false
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		if b >= 'a' && b <= 'z' {
			b -= 32
		}
		if b != up[i] {
			return false
		}
	}
	return true
}

func refTrailer(s string) (int, bool) {
	if len(s) >= 2 && (s[0] == '"' || s[0] == '\'') && s[len(s)-1] == s[0] {
		s = s[1 : len(s)-1]
	}
	switch {
	case eqFold(s, "LF"):
		return 0, true
	case eqFold(s, "NUL"):
		return 1, true
	}
	return 0, false
}

func (t *trailerText) Run() string {
	if t.Num != nil {
		v := nontransparent.TrailerType(*t.Num)
		known := *t.Num == 0 || *t.Num == 1
		name, code := "", 0
		if known {
			name, code = []string{"LF", "NUL"}[*t.Num], []int{10, 0}[*t.Num]
		}
		if s := v.String(); s != name {
			return fmt.Sprintf("String of %d: expected %q, got %q", *t.Num, name, s)
		}
		n, err := v.Value()
		if (err == nil) != known || known && n != code {
			return fmt.Sprintf("Value of %d gives %d, %v", *t.Num, n, err)
		}
		b, err := v.MarshalText()
		if (err == nil) != known || known && string(b) != name {
			return fmt.Sprintf("MarshalText of %d gives %q, %v", *t.Num, b, err)
		}
		if known {
			for i := range b { // the caller may do what it likes with it
				b[i] = 'x'
			}
			b, err = v.MarshalText()
			if err != nil || string(b) != name {
				return fmt.Sprintf("MarshalText of %d gives %q, %v once a previous result has been overwritten", *t.Num, b, err)
			}
			var u nontransparent.TrailerType = 5
			if err := u.UnmarshalText(b); err != nil || u != v {
				return fmt.Sprintf("decoding %q gives %d, %v", b, u, err)
			}
			u = 5
			if err := u.UnmarshalTOML(b); err != nil || u != v {
				return fmt.Sprintf("decoding %q from TOML gives %d, %v", b, u, err)
			}
			if u, err := nontransparent.TrailerTypeFromString(v.String()); err != nil || u != v {
				return fmt.Sprintf("TrailerTypeFromString of String of %d gives %d, %v", *t.Num, u, err)
			}
		}
		j, err := json.Marshal(struct{ T nontransparent.TrailerType }{v})
		if (err == nil) != known || known && string(j) != `{"T":"`+name+`"}` {
			return fmt.Sprintf("JSON of %d gives %s, %v", *t.Num, j, err)
		}
		if known {
			var x struct{ T nontransparent.TrailerType }
			x.T = 5
			if err := json.Unmarshal(j, &x); err != nil || x.T != v {
				return fmt.Sprintf("JSON %s gives %d, %v", j, x.T, err)
			}
		}
		// as an option
		for _, before := range []int{-99, 0, 1} {
			var got []string
			o := []syslog.ParserOption{syslog.WithListener(func(r *syslog.Result) { got = append(got, outcomeOf(r.Message, r.Error)) })}
			s := scfg{}
			if before != -99 {
				o = append(o, nontransparent.WithTrailer(nontransparent.TrailerType(before)))
				s.NUL = before == 1
			}
			o = append(o, nontransparent.WithTrailer(v))
			if known {
				s.NUL = *t.Num == 1
			}
			for _, in := range lineProbes {
				got = nil
				nontransparent.NewParser(o...).Parse(&planReader{data: []byte(in)})
				ws, _ := s.expect([]byte(in), feed{}, nil)
				if d := sameResults(got, ws); d != "" {
					return fmt.Sprintf("trailer option %d (after %d), stream %q: %s", *t.Num, before, in, d)
				}
			}
		}
		return ""
	}
	e, ok := refTrailer(string(t.Text))
	judge := func(how string, g nontransparent.TrailerType, err error) string {
		if ok && (err != nil || int(g) != e) {
			return fmt.Sprintf("%s of %q gives %d, %v; expected %d", how, string(t.Text), g, err, e)
		}
		if !ok && err == nil {
			return fmt.Sprintf("%s of %q gives %d without error", how, string(t.Text), g)
		}
		return ""
	}
	g, err := nontransparent.TrailerTypeFromString(string(t.Text))
	if d := judge("TrailerTypeFromString", g, err); d != "" {
		return d
	}
	for _, init := range []nontransparent.TrailerType{0, 1} {
		in := append([]byte{}, t.Text...)
		u := init
		err = u.UnmarshalText(in)
		if d := judge("UnmarshalText", u, err); d != "" {
			return d
		}
		u = init
		err = u.UnmarshalTOML(in)
		if d := judge("UnmarshalTOML", u, err); d != "" {
			return d
		}
		if string(in) != string(t.Text) {
			return fmt.Sprintf("decoding %q modified the caller's bytes", string(t.Text))
		}
	}
	return ""
}

func checkP21(c *Ctx) {
	alpha := bs("L", "l", "F", "f", "N", "n", "U", "u", "\"", "'", " ")
	var yes, no int64
	run := func(w *worker, s []byte) {
		if _, ok := refTrailer(string(s)); ok {
			atomic.AddInt64(&yes, 1)
		} else {
			atomic.AddInt64(&no, 1)
		}
		w.do(&trailerText{Text: append([]byte{}, s...)})
	}
	c.fanout(alpha, c.pick(6, 7), run)
	// every letter case of the names in every pair of quotes, and everything around them
	var words []string
	for _, n := range []string{"LF", "NUL"} {
		for k := 0; k < 1<<uint(len(n)); k++ {
			b := []byte(n)
			for i := range b {
				if k>>uint(i)&1 == 1 {
					b[i] += 32
				}
			}
			for _, q := range []string{"", "\"", "'", "`", " ", "\"\"", "''"} {
				for _, r := range []string{"", "\"", "'", "`", " ", "\"\"", "''"} {
					words = append(words, q+string(b)+r)
				}
			}
		}
	}
	c.parallel(len(words), func(w *worker, i int) {
		s := words[i]
		run(w, []byte(s))
		for p := 0; p <= len(s); p++ {
			for b := 0; b < 256; b++ {
				run(w, []byte(s[:p]+string([]byte{byte(b)})+s[p:]))
				if p < len(s) {
					run(w, []byte(s[:p]+string([]byte{byte(b)})+s[p+1:]))
				}
			}
			if p < len(s) {
				run(w, []byte(s[:p]+s[p+1:]))
			}
		}
	})
	// every string of one and two bytes, bare and quoted, and other words
	c.parallel(256, func(w *worker, i int) {
		for j := -1; j < 256; j++ {
			b := []byte{byte(i)}
			if j >= 0 {
				b = append(b, byte(j))
			}
			for _, q := range []string{"", "\"", "'"} {
				run(w, cat([]byte(q), b, []byte(q)))
			}
			for k := 0; k < 256; k++ {
				if j >= 0 && (c.thorough() || k%64 == 0 || k == 10 || k == 13 || k >= '0' && k <= '9' || k >= 'a' && k <= 'z' || k >= 'A' && k <= 'Z') {
					run(w, append(b, byte(k)))
				}
			}
		}
	})
	more := append([]string{"\\n", "\\0", "\\x00", "\\x0a", "\\u0000", "0x0a", "0x00", "CR", "CRLF", "LFLF", "NULL", "LINEFEED", "newline", "line feed", "LineFeed", "U+000A", "%0A", "^@", "^J", "10", "0", "-1", "NUL\n", "LF\n", "EOL", "\u2424", "\u240a", "\u2400", "TrailerType(0)", "nontransparent.LF", "zero", "1", "LF,NUL", "<nil>"}, fieldWords...)
	c.parallel(len(more), func(w *worker, i int) {
		for _, q := range []string{"", "\"", "'"} {
			for _, x := range []string{more[i], strings.ToLower(more[i]), strings.ToUpper(more[i]), strings.Title(more[i])} {
				run(w, []byte(q+x+q))
			}
		}
	})
	// long texts
	c.parallel(3000, func(w *worker, i int) {
		for _, x := range []string{strings.Repeat("L", i) + "LF", "LF" + strings.Repeat("F", i), "LF" + strings.Repeat("\x00", i), "NUL" + strings.Repeat(" ", i), strings.Repeat("\"", i) + "NUL" + strings.Repeat("\"", i), "\"LF" + strings.Repeat("LF", i) + "\""} {
			run(w, []byte(x))
		}
	})
	// every code point in the place of each letter
	c.parallel(0x110000/0x1000, func(w *worker, k int) {
		for r := rune(k * 0x1000); r < rune((k+1)*0x1000); r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			for _, n := range []string{"LF", "NUL"} {
				for p := 0; p < len(n); p++ {
					run(w, []byte(n[:p]+string(r)+n[p+1:]))
				}
			}
			run(w, []byte(string(r)+"LF"+string(r)))
		}
	})
	// numbers
	ns := []int{1 << 31, 1<<31 - 1, 1 << 32, 1<<32 + 1, 1 << 62, -1 << 31, -1 << 63, 1<<63 - 1}
	for n := -c.pick(300, 70000); n <= c.pick(300, 70000); n++ {
		ns = append(ns, n)
	}
	c.parallel(len(ns), func(w *worker, i int) { w.do(&trailerText{Num: &ns[i]}) })
	c.addStates(len(words) + len(ns))
	c.addTransitions(int(yes + no))
	c.note("texts_accepted", yes)
	c.note("texts_refused", no)
	c.note("what", "every string over the significant bytes up to the bound, every single-byte change of every spelling, every Unicode code point in the place of each letter; numbers around the valid ones and the limits")
	c.assume("states = spellings and numbers, transitions = texts decoded")
}
