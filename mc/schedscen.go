//go:build sched

package main

import (
	"fmt"
	"strings"
)

func p5(best, compliant, parser bool) *pcfg {
	return &pcfg{Format: 5424, Best: best, Compliant: compliant, Parser: parser}
}

func p3(best, rfc3339, parser bool) *pcfg {
	return &pcfg{Format: 3164, Best: best, RFC3339: rfc3339, Parser: parser}
}

// inputs for concurrent parsing: each ends differently and uses other fields
var conc5 = []string{
	"<165>4 2018-10-11T22:14:15Z h a p m [i n=\"\\]v\" o=\"\\\"w\"] t",
	"<1>1 - x - - - [j q=\"2\\\\\" s=\"\\\"\"][k r=\"\\\\",
	"<34>2 - host - pid - - \xef\xbb\xbf\xff",
	"<9>1 - b [",
	"",
	"<1>1",
}

var conc3 = []string{
	"<34>Jan 10 02:14:15 host tag[1]: text",
	"<13>2018-10-11T22:14:15Z h t: \x01",
	"<7>Feb 28 01:02:03 other just text",
	"",
	"<1",
}

// pick the inputs of a format
func (p *pcfg) conc() []string {
	if p.Format == 5424 {
		return conc5
	}
	return conc3
}

// streams of short messages
var concOct = []string{
	frame("<1>1 - - - - - [i n=\"\\]\"]") + frame("<2>1 - x"),
	frame("<3>1 - h - - - - t") + "20 <4>1 - tr",
	"16 <5>1 - -",
}

var concLines = []string{
	"<1>1 - - - - - [i n=\"\\]\"]\nm\n<2>1 - x\n",
	"<3>1 - h - - - - t\n<4>1 - tr",
	"j\x00<6>1 - - - - - -\x00",
}

func (s *scfg) conc() []string {
	if s.Octet {
		return concOct
	}
	return concLines
}

// builder programs
var buildProgs = [][]op{
	{{F: "pri", N: 13}, {F: "ver", N: 1}, {F: "param", A: B("id1"), P: B("a"), V: B("1")}, {F: "text", A: B("x")}},
	{{F: "ver", N: 2}, {F: "pri", N: 165}, {F: "id", A: B("e2")}, {F: "param", A: B("e2"), P: B("b"), V: B("\\]\\\"")}, {F: "host", A: B("h")}},
	{{F: "pri", N: 34}, {F: "ver", N: 1}, {F: "ts", A: B("2018-10-11T22:14:15Z")}, {F: "app", A: B("ap")}, {F: "proc", A: B("p")}, {F: "mid", A: B("m")}},
	{{F: "pri", N: 1}, {F: "ver", N: 9}, {F: "param", A: B("id1"), P: B("a"), V: B("zz")}, {F: "param", A: B("id1"), P: B("a"), V: B("\"")}, {F: "param", A: B("id1"), P: B("b="), V: B("y")}, {F: "param", A: B("bad id"), P: B("a"), V: B("y")}},
	{{F: "pri", N: 200}, {F: "host", A: B("\x01")}, {F: "id", A: B("q")}},
}

func schedScenarios(prop string, thorough, race bool) (out []*concur) {
	add := func(bound int, objs []object, ths ...[]act) {
		if race && bound > 1 && !thorough {
			bound = 1
		}
		out = append(out, &concur{Objects: objs, Threads: ths, Bound: bound})
	}
	parse := func(on int, in string) act { return act{Do: "parse", On: on, In: B(in)} }
	if prop == "P06" {
		// everything at once: any state shared by two parsers shows, to the race detector at least
		for _, th := range [][2][]act{{everyParse(0), everyParse(0)}, {everyParse(0), everyBuild()}} {
			add(0, nil, th[0], th[1])
		}
		for _, p := range []*pcfg{p5(false, false, true), p5(true, true, true), p3(false, true, true), p3(true, true, true), p3(true, false, true)} {
			for i, x := range p.fresh() {
				for _, y := range p.fresh()[i:] {
					add(1, []object{{P: p}}, []act{parse(0, x)}, []act{parse(0, y)})
					add(1, nil, []act{{Do: "new", P: p, In: B(x)}}, []act{{Do: "new", P: p, In: B(y)}})
				}
			}
			f := p.fresh()
			add(1, []object{{P: p}}, []act{parse(0, f[0]), parse(0, f[1])}, []act{parse(0, f[1]), parse(0, f[0])})
			add(1, []object{{P: p, In: B(f[0])}}, []act{parse(0, f[0]), parse(0, f[1])}, []act{{Do: "read"}, {Do: "render"}})
		}
		add(1, nil, []act{{Do: "new", P: p5(true, false, false), In: B(fresh5[0])}}, []act{{Do: "new", P: p3(true, false, false), In: B(fresh3[0])}})
		var shared []*pcfg
		for _, best := range modes() {
			shared = append(shared, p5(best, false, true), p3(best, best, true))
		}
		shared = append(shared, p5(true, true, true))
		// one shared instance
		for _, p := range shared {
			ins := p.conc()
			for i := range ins {
				for j := i; j < len(ins); j++ {
					add(2, []object{{P: p}}, []act{parse(0, ins[i])}, []act{parse(0, ins[j])})
				}
			}
			// two calls each
			add(2, []object{{P: p}}, []act{parse(0, ins[0]), parse(0, ins[1])}, []act{parse(0, ins[2]), parse(0, ins[0])})
			// reading earlier results, asking for the mode
			add(2, []object{{P: p, In: B(ins[0])}}, []act{parse(0, ins[2]), parse(0, ins[1])}, []act{{Do: "read"}, {Do: "has"}, {Do: "render"}, {Do: "read"}})
			if p.Best {
				add(2, []object{{P: p, In: B(ins[1])}, {Of: 1, In: B(ins[0])}}, []act{parse(0, ins[0])}, []act{{Do: "read"}, {Do: "render", On: 1}, {Do: "read", On: 1}})
			}
			// three goroutines
			b3 := 1
			if thorough {
				b3 = 2
			}
			add(b3, []object{{P: p}}, []act{parse(0, ins[0])}, []act{parse(0, ins[1])}, []act{parse(0, ins[2])})
		}
		// one shared instance, pairs of inputs of all kinds, also long ones: an access without the lock is a conflict
		for _, p := range shared {
			ins := append(p.corpus(), p.long()...)
			for i := range ins {
				for _, j := range []int{i, (i + 1) % len(ins), (i + len(ins)/2) % len(ins)} {
					add(0, []object{{P: p}}, []act{parse(0, ins[i])}, []act{parse(0, ins[j])})
				}
				add(0, []object{{P: p, In: B(ins[i])}}, []act{parse(0, ins[(i+1)%len(ins)])}, []act{{Do: "read"}, {Do: "has"}, {Do: "render"}})
			}
		}
		// larger inputs
		for i, p := range append(shared[:4:4], p5(true, true, false), p3(true, true, false)) {
			ms := p.medium()
			for j, x := range ms {
				y := ms[(j+i)%len(ms)]
				if p.Parser {
					add(1, []object{{P: p}}, []act{parse(0, x)}, []act{parse(0, y)})
				} else {
					add(1, nil, []act{{Do: "new", P: p, In: B(x)}}, []act{{Do: "new", P: p, In: B(y)}})
				}
			}
		}
		// every state and every size, in both goroutines: what is made on first use is made in the first execution
		for _, k := range cfgs24() {
			p := k
			var as []act
			for _, x := range p.wide() {
				as = append(as, act{Do: "new", P: &p, In: B(x)})
			}
			for _, b := range chunked(as, 12) {
				add(0, nil, b, b)
			}
		}
		for _, k := range pcfgs() {
			p := k
			ins := append(p.corpus(), p.long()...)
			for i := range ins {
				add(0, nil, []act{{Do: "new", P: &p, In: B(ins[i])}}, []act{{Do: "new", P: &p, In: B(ins[(i+1)%len(ins)])}})
				add(0, nil, []act{{Do: "new", P: &p, In: B(ins[i])}}, []act{{Do: "new", P: &p, In: B(ins[i])}})
			}
		}
		// independent instances of all kinds
		ind := []*pcfg{p5(false, false, false), p5(true, true, false), p5(true, false, true), p3(false, false, false), p3(true, true, false), p3(true, true, true)}
		for i, p := range ind {
			for j := i; j < len(ind); j++ {
				q := ind[j]
				a, b := p.conc(), q.conc()
				add(1, []object{{P: p}, {P: q}}, []act{parse(0, a[0])}, []act{parse(1, b[0])})
				for k := 0; k < 3; k++ {
					if !thorough && k > 0 && p.Format != q.Format {
						continue
					}
					add(2, []object{{P: p}, {P: q}}, []act{parse(0, a[k%len(a)])}, []act{parse(1, b[(k+1)%len(b)])})
					if k == 0 {
						add(2, nil, []act{{Do: "new", P: p, In: B(a[1])}}, []act{{Do: "new", P: q, In: B(b[0])}})
					}
				}
			}
		}
		b3 := 1
		if thorough {
			b3 = 2
		}
		add(b3, []object{{P: ind[0]}, {P: ind[1]}, {P: ind[4]}}, []act{parse(0, conc5[0])}, []act{parse(1, conc5[1])}, []act{parse(2, conc3[0])})
		add(b3, []object{{P: ind[1]}, {P: ind[2]}, {P: ind[5]}}, []act{parse(0, conc5[2])}, []act{parse(1, conc5[0])}, []act{parse(2, conc3[1])})
		add(b3, []object{{P: ind[3]}, {P: ind[4]}, {P: ind[5]}}, []act{parse(0, conc3[2])}, []act{parse(1, conc3[0])}, []act{parse(2, conc3[1])})
		if thorough {
			for _, p := range []*pcfg{p5(true, false, true), p3(true, true, true)} {
				ins := p.conc()
				add(3, []object{{P: p}}, []act{parse(0, ins[0])}, []act{parse(0, ins[1])})
				add(3, []object{{P: p}, {P: p}}, []act{parse(0, ins[0])}, []act{parse(1, ins[1])})
			}
		}
		return
	}
	if prop == "P22" {
		var cs []*scfg
		for _, s := range scfgs() {
			if s.Max == nil {
				s := s
				cs = append(cs, &s)
			}
		}
		add(0, nil, everyStream(), everyStream())
		add(0, nil, everyStream(), everyParse(1))
		add(0, nil, everyStream(), everyBuild())
		for _, q := range scfgs() {
			s := q
			ls := s.legs()
			for i, l := range ls {
				for _, j := range []int{i, (i + 1) % len(ls)} {
					f, g := l.Feed, ls[j].Feed
					add(0, nil, []act{{Do: "stream", S: &s, In: l.Data, F: &f}}, []act{{Do: "stream", S: &s, In: ls[j].Data, F: &g}})
				}
			}
		}
		// every size and number
		for _, s := range cs {
			var as []act
			for _, x := range s.wideStreams() {
				as = append(as, act{Do: "stream", S: s, In: B(x)})
			}
			for _, b := range chunked(as, 4) {
				add(0, nil, b, b)
			}
		}
		bound := 1
		if thorough {
			bound = 2
		}
		for i, s := range cs {
			for _, q := range cs[i:] {
				for _, x := range freshStreams(s.Octet) {
					for _, y := range freshStreams(q.Octet) {
						add(1, nil, []act{{Do: "stream", S: s, In: B(x)}}, []act{{Do: "stream", S: q, In: B(y)}})
					}
				}
			}
			add(1, nil, []act{{Do: "stream", S: s, In: B(freshStreams(s.Octet)[0])}}, []act{{Do: "new", P: p5(s.Best, false, false), In: B(fresh5[0])}})
			add(1, nil, []act{{Do: "stream", S: s, In: B(freshStreams(s.Octet)[0])}}, []act{{Do: "build", Ops: freshBuild[0]}})
		}
		// larger streams
		for i, s := range cs {
			for j, x := range s.mediumStreams() {
				q := cs[(i+j)%len(cs)]
				if i%2 == j%2 {
					add(1, nil, []act{{Do: "stream", S: s, In: B(x)}}, []act{{Do: "stream", S: s, In: B(x)}})
				} else {
					add(1, nil, []act{{Do: "stream", S: s, In: B(x), F: &feed{Each: 200}}}, []act{{Do: "stream", S: q, In: B(q.mediumStreams()[(j+1)%4])}})
				}
			}
		}
		byteFeed, some := &feed{Each: 1}, &feed{Each: 7}
		for i, s := range cs {
			for j := i; j < len(cs); j++ {
				q := cs[j]
				a, b := s.conc(), q.conc()
				for k := range a {
					for l := range b {
						if i == j && l < k {
							continue
						}
						// parsers made before, and in the goroutines
						add(bound, []object{{S: s}, {S: q}}, []act{{Do: "stream", In: B(a[k])}}, []act{{Do: "stream", On: 1, In: B(b[l])}})
						f, g := byteFeed, some
						if (k+l)%2 == 0 {
							f, g = some, byteFeed
						}
						add(bound, nil, []act{{Do: "stream", S: s, In: B(a[k]), F: f}}, []act{{Do: "stream", S: q, In: B(b[l]), F: g}})
					}
				}
				// two streams each
				add(1, []object{{S: s}, {S: q}}, []act{{Do: "stream", In: B(a[1])}, {Do: "stream", In: B(a[2])}}, []act{{Do: "stream", On: 1, In: B(b[2])}, {Do: "stream", On: 1, In: B(b[0])}})
			}
			add(2, nil, []act{{Do: "stream", S: s, In: B(s.conc()[2])}}, []act{{Do: "stream", S: s, In: B(s.conc()[2])}})
			// with other users of the library
			add(bound, nil, []act{{Do: "stream", S: s, In: B(s.conc()[0])}}, []act{{Do: "new", P: p5(s.Best, false, i%2 == 0), In: B(conc5[0])}})
			add(bound, nil, []act{{Do: "stream", S: s, In: B(s.conc()[1])}}, []act{{Do: "build", Ops: buildProgs[1]}})
		}
		add(1, nil, []act{{Do: "stream", S: cs[0], In: B(concOct[2])}}, []act{{Do: "stream", S: cs[0], In: B(concOct[2])}}, []act{{Do: "stream", S: cs[1], In: B(concLines[2])}})
		add(1, nil, []act{{Do: "stream", S: cs[1], In: B(concLines[2])}}, []act{{Do: "stream", S: cs[2], In: B(concLines[2])}}, []act{{Do: "stream", S: cs[2], In: B(concLines[2])}})
		return
	}
	// P12
	add(0, nil, everyBuild(), everyBuild())
	// every number of parts and length
	for _, b := range chunked(wideBuilds(), 8) {
		add(0, nil, b, b)
	}
	for i, x := range freshBuild {
		for _, y := range freshBuild[i:] {
			add(2, nil, []act{{Do: "build", Ops: x}}, []act{{Do: "build", Ops: y}})
		}
		add(2, []object{{Ops: x}}, []act{{Do: "render"}}, []act{{Do: "render"}})
		add(2, []object{{Ops: x}}, []act{{Do: "render"}}, []act{{Do: "build", Ops: x}})
	}
	// large messages
	for i := range bigProgs() {
		for j := i; j < len(bigProgs()); j++ {
			add(0, nil, []act{{Do: "build", Ops: bigProgs()[i]}}, []act{{Do: "build", Ops: bigProgs()[j]}})
			add(0, []object{{Ops: bigProgs()[i]}, {Ops: bigProgs()[j]}}, []act{{Do: "render", On: 0}}, []act{{Do: "render", On: 1}})
		}
		add(0, []object{{Ops: bigProgs()[i]}}, []act{{Do: "render"}}, []act{{Do: "render"}, {Do: "labels"}, {Do: "read"}})
	}
	for i := range mixOps() {
		for _, j := range []int{i, (i + 1) % len(mixOps())} {
			b := func(o op) []act { return []act{{Do: "build", Ops: []op{num("pri", 13), num("ver", 1), o}}} }
			add(0, nil, b(mixOps()[i]), b(mixOps()[j]))
		}
	}
	build := func(i int) []act { return []act{{Do: "build", Ops: buildProgs[i]}} }
	for i := range buildProgs {
		for j := i; j < len(buildProgs); j++ {
			add(2, nil, build(i), build(j))
		}
	}
	b3 := 1
	if thorough {
		b3 = 2
	}
	add(b3, nil, build(0), build(1), build(2))
	add(b3, nil, build(1), build(3), build(0))
	add(b3, nil, build(3), build(3), build(4))
	// a shared message, built or parsed, only read
	read := []act{{Do: "render"}}
	labels := []act{{Do: "labels"}, {Do: "read"}}
	objs := []object{{Ops: buildProgs[1]}, {Ops: buildProgs[3]}, {Ops: buildProgs[4]}, {P: p5(true, false, false), In: B(conc5[0])}, {P: p5(true, false, false), In: B(conc5[1])}, {P: p3(true, true, false), In: B(conc3[0])}, {P: p3(true, true, false), In: B(conc3[1])}}
	for _, o := range objs {
		add(2, []object{o}, read, read)
		add(2, []object{o}, read, labels)
		add(2, []object{o}, labels, labels)
		add(b3, []object{o}, read, labels, read)
		add(2, []object{o}, read, build(3))
		add(b3, []object{o}, read, build(1), build(0))
	}
	// larger ones
	for i, m := range mediumMessages() {
		b := 2
		if i >= 3 {
			b = 1
		}
		add(b, []object{{Ops: m}}, read, read)
		add(b, []object{{Ops: m}}, read, labels)
		add(b, []object{{Ops: m}}, read, build(3))
		if i != 1 {
			add(1, nil, []act{{Do: "build", Ops: m}}, []act{{Do: "build", Ops: m}})
			add(1, nil, []act{{Do: "build", Ops: m}}, build(1))
		}
	}
	// distinct messages with the same content, rendered
	add(2, []object{objs[0], objs[0]}, []act{{Do: "render", On: 0}}, []act{{Do: "render", On: 1}})
	add(2, []object{objs[0], objs[3]}, []act{{Do: "render", On: 0}}, []act{{Do: "render", On: 1}})
	if thorough {
		add(3, nil, build(0), build(1))
		add(3, nil, build(1), build(3))
		add(3, []object{objs[0]}, read, build(0))
	}
	return
}

// inputs whose contents are new in every execution
var fresh5 = []string{
	"<165>4 2018-10-11T22:14:15.987654Z hQQQQQQ aQQQQQQ pQQQQQQ mQQQQQQ [iQQQQQQ nQQQQQQ=\"\\]vQQQQQQ\"] tQQQQQQ",
	"<13>1 2018-10-11T01:02:03Z host-QQQQQQ.example.org app/QQQQQQ 1QQQQQQ - [id@QQQQQQ x=\"vQQQQQQ\" y=\"\"][jQQQQQQ x=",
}

var fresh3 = []string{
	"<34>Jan 10 01:02:03 hQQQQQQ tQQQQQQ[QQQQQQ]: QQQQQQ",
	"<13>2018-10-11T01:02:03Z host-QQQQQQ.example.org some QQQQQQ text\x01",
}

var freshBuild = [][]op{
	{num("pri", 13), num("ver", 1), s1("ts", "2018-10-11T22:14:15.987654Z"), s1("host", "hQQQQQQ"), par("iQQQQQQ", "nQQQQQQ", "\\]vQQQQQQ"), s1("text", "tQQQQQQ")},
	{num("pri", 165), num("ver", 2), s1("app", "aQQQQQQ"), s1("proc", "pQQQQQQ"), s1("mid", "mQQQQQQ"), s1("id", "jQQQQQQ"), par("jQQQQQQ", "xQQQQQQ", "")},
}

func freshStreams(octet bool) (out []string) {
	if octet {
		return []string{frame(fresh5[0]) + frame("<2>1 - hQQQQQQ"), "120 " + fresh5[1]}
	}
	return []string{fresh5[0] + "\n<2>1 - hQQQQQQ\n", fresh5[1]}
}

func (p *pcfg) fresh() []string {
	if p.Format == 5424 {
		return fresh5
	}
	return fresh3
}

// bigProgs: messages with many or long parts.
func bigProgs() (out [][]op) {
	head := func() []op { return []op{num("pri", 13), num("ver", 1)} }
	els, pars, over, vals, text := head(), head(), head(), head(), head()
	for i := 0; i < 40; i++ {
		els = append(els, par(fmt.Sprintf("e%d", i*7%40), "p", "v"))
		pars = append(pars, par("e", fmt.Sprintf("p%d", i*7%40), fmt.Sprintf("v\\\\%d", i)))
		over = append(over, par("e", "p", fmt.Sprint(i)), par("e", "q=", "v"), par("e", "p", "\""))
	}
	for _, n := range []int{1, 63, 64, 300, 5000} {
		vals = append(vals, par("e", fmt.Sprintf("p%d", n), strings.Repeat("\\]", n)), par("e", fmt.Sprintf("q%d", n), strings.Repeat("x", n)))
		text = append(text, s1("text", strings.Repeat("t", n)))
	}
	text = append(text, s1("host", strings.Repeat("h", 255)), s1("app", strings.Repeat("a", 48)), s1("proc", strings.Repeat("p", 128)), s1("mid", strings.Repeat("m", 32)))
	return [][]op{els, pars, over, vals, text}
}

// long inputs: each part as long as it can be, or longer than anything reasonable.
func (p *pcfg) long() (out []string) {
	for _, n := range []int{300, 1100, 2100, 5000, 9000} {
		x := strings.Repeat("x", n)
		if p.Format == 5424 {
			out = append(out, pre5+"- "+x, pre5+"[i k=\""+x+strings.Repeat("\\]", n/10)+"\"] "+x, pre5+"[i k=\""+x, pre5+"- \xef\xbb\xbf"+x+"\xff")
		} else {
			out = append(out, "<34>Jan 10 02:14:15 host tag[1]: "+x, "<34>Jan 10 02:14:15 host tag["+x+"]: "+x+"\x01")
		}
	}
	return
}

// everyParse: all the inputs of the corpora, by parsers of all kinds.
func everyParse(k int) (out []act) {
	for i, p := range pcfgs() {
		p := p
		for j, in := range p.corpus() {
			if len(in) < 1000 && (k == 0 || (i+j)%4 == 0) {
				out = append(out, act{Do: "new", P: &p, In: B(in)})
			}
		}
	}
	return
}

// everyBuild: all the programs, and every call of every setter.
func everyBuild() (out []act) {
	for _, p := range buildProgs {
		out = append(out, act{Do: "build", Ops: p})
	}
	for _, o := range mixOps() {
		out = append(out, act{Do: "build", Ops: []op{num("pri", 13), num("ver", 1), o}})
	}
	for p := 0; p < 192; p += 7 {
		out = append(out, act{Do: "build", Ops: []op{num("pri", p), num("ver", 1)}})
	}
	return
}

// everyStream: streams ending in every way, by parsers of all kinds.
func everyStream() (out []act) {
	for _, s := range scfgs() {
		s := s
		for _, l := range s.legs() {
			f := l.Feed
			out = append(out, act{Do: "stream", S: &s, In: l.Data, F: &f})
		}
	}
	return
}

// aloneFirst is the part of P06 with one goroutine: a mutex protected parser serves again after every input.
func aloneFirst(c *Ctx) {
	for _, p := range cfgs24() {
		if !p.Parser {
			continue
		}
		p := p
		after := []B{B(p.skeletons()[0]), B(p.skeletons()[0][:3])}
		allInputs(c, p, 0, func(w *worker, in []byte) { w.do(&afterwards{P: p, In: in, After: after}) })
		c.parallel(256*256, func(w *worker, i int) {
			w.do(&afterwards{P: p, In: B{byte(i >> 8), byte(i)}, After: after})
		})
		for _, in := range append(p.corpus(), p.long()...) {
			in := in
			c.serial(func(w *worker) { w.do(&afterwards{P: p, In: B(in), After: after}) })
		}
	}
}

// widths: numbers of parts and lengths of contents for which something could be made on first use.
func widths() (o []int) {
	for n := 1; n <= 70; n++ {
		o = append(o, n)
	}
	return append(o, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1024)
}

// chunked gives batches small enough for the memory of the race detector.
func chunked(as []act, n int) (out [][]act) {
	for len(as) > n {
		out = append(out, as[:n])
		as = as[n:]
	}
	if len(as) > 0 {
		out = append(out, as)
	}
	return
}

// wide: an input for every state of the model, cut off there and after a byte of each class, and every number and length
// of parts.
func (p *pcfg) wide() (out []string) {
	var e *explored
	if p.Format == 5424 {
		e, _ = explore(model5(p.Compliant))
	} else {
		e, _ = explore(model3(p.RFC3339))
	}
	for s := range e.access {
		out = append(out, string(e.access[s]))
		if len(e.ident[s]) > 0 {
			out = append(out, string(cat(e.access[s], e.ident[s][len(e.ident[s])-1])))
		}
		var bad []byte
		for _, b := range e.reps {
			if e.delta[s][b] < 0 {
				bad = append(bad, b)
			}
		}
		if len(bad) > 0 {
			out = append(out, string(cat(e.access[s], bad[s%len(bad):][:1])))
		}
	}
	rep := strings.Repeat
	for _, n := range widths() {
		if p.Format == 5424 {
			els, pars, over := "", "", ""
			for i := 0; i < n; i++ {
				els += fmt.Sprintf("[e%d a=\"\\]%d\"]", i, i)
				pars += fmt.Sprintf(" p%d=\"%d\\\\\"", i, i)
				over += fmt.Sprintf(" p=\"%d\"", i)
			}
			out = append(out, pre5+els+" t", pre5+"[e"+pars+"] t", pre5+"[e"+over+"]", pre5+"[e k=\""+rep("\\]", n)+"\"]", pre5+"[e k=\""+rep("v", n)+"\"]",
				pre5+"- "+rep("t", n), pre5+"- \xef\xbb\xbf"+rep("\xc3\xa9", n), pre5+els+"[e0", pre5+"[e"+pars+" x")
			for _, x := range []string{"<1>1 - %s", "<1>1 - - %s", "<1>1 - - - %s", "<1>1 - - - - %s"} {
				if n <= 256 {
					out = append(out, fmt.Sprintf(x, rep("f", n)))
				}
			}
			if n <= 40 {
				out = append(out, pre5+"["+rep("i", n)+" "+rep("n", n)+"=\"\"]")
			}
			if n <= 6 {
				out = append(out, "<1>1 2018-10-11T22:14:15."+rep("7", n)+"Z - - - - -", "<1>1 2018-10-11T22:14:15."+rep("7", n)+"+05:30 - - - - -")
			}
		} else {
			h := "<34>Jan 10 02:14:15 host "
			out = append(out, h+rep("t", n)+": x", h+"t["+rep("1", n)+"]: x", h+"t: "+rep("x", n), h+rep("w ", n), "<34>Jan 10 02:14:15 "+rep("h", n)+" t: x")
		}
	}
	return
}

// wideBuilds: messages with every number of parts and length of contents.
func wideBuilds() (out []act) {
	build := func(os ...op) {
		out = append(out, act{Do: "build", Ops: append([]op{num("pri", 13), num("ver", 1)}, os...)})
	}
	rep := strings.Repeat
	for _, n := range widths() {
		if n > 600 {
			build(s1("text", rep("t", n)))
			build(par("e", "k", rep("v\\]", n)))
			continue
		}
		var els, pars, over []op
		for i := 0; i < n; i++ {
			els = append(els, par(fmt.Sprintf("e%d", i*7%n), "p", "v"))
			pars = append(pars, par("e", fmt.Sprintf("p%d", i*7%n), fmt.Sprintf("v\\]%d", i)))
			over = append(over, par("e", "p", fmt.Sprint(i)))
		}
		build(els...)
		build(pars...)
		build(over...)
		build(par("e", "k", rep("\\]", n)), par("f", "k", rep("\\\"\\\\", n)))
		build(par("e", "k", rep("v", n)))
		build(s1("text", rep("t", n)))
		build(s1("host", rep("h", n)), s1("app", rep("a", n)), s1("proc", rep("p", n)), s1("mid", rep("m", n)), par(rep("i", n), rep("n", n), ""))
	}
	for v := 1; v < 1000; v += 37 {
		out = append(out, act{Do: "build", Ops: []op{num("pri", v%192), num("ver", v)}})
	}
	for n := 1; n <= 6; n++ {
		build(s1("ts", "2018-10-11T22:14:15."+rep("7", n)+"-05:30"))
	}
	return
}

// wideStreams: frames and lines of many sizes, and many of them.
func (s *scfg) wideStreams() (out []string) {
	unit := func(n int) string {
		m := "<1>1 - - - - - - "
		if n > len(m) {
			m += strings.Repeat("x", n-len(m))
		}
		if s.Octet {
			return frame(m)
		}
		return m + string([]byte{s.trailer()})
	}
	for _, n := range []int{18, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 999, 1000, 1024, 2048, 4095, 4096, 4097, 8192, 9999, 10000, 70000} {
		out = append(out, unit(n)+unit(17)+unit(n+1), unit(n)[:n-2])
	}
	for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 300} {
		out = append(out, strings.Repeat(unit(20), n), strings.Repeat(unit(20), n)+"<")
	}
	return
}

// medium: inputs of a few hundred bytes, or with a score of parts.
func (p *pcfg) medium() (out []string) {
	x := strings.Repeat("x", 600)
	if p.Format == 5424 {
		els := ""
		for i := 0; i < 20; i++ {
			els += fmt.Sprintf("[e%d a=\"%d\"]", i, i)
		}
		return []string{pre5 + "- " + x[:320], "<1>1 - " + x[:255] + " " + x[:48] + " " + x[:128] + " " + x[:32] + " -", pre5 + els + " t", pre5 + "[e k=\"" + x[:300] + "\\]\"]\x01", pre5 + "- " + x[:270]}
	}
	return []string{"<34>Jan 10 02:14:15 host tag[1]: " + x[:320], "<34>Jan 10 02:14:15 " + x[:255] + " " + x[:32] + "[" + x[:100] + "]: text", "<34>Jan 10 02:14:15 host tag[1]: " + x[:300] + "\x01"}
}

// mediumMessages are built with contents of a few hundred bytes, or a score of parts.
func mediumMessages() (out [][]op) {
	head := func(os ...op) []op { return append([]op{num("pri", 13), num("ver", 1)}, os...) }
	x := strings.Repeat("x", 5000)
	els, pars := head(), head()
	for i := 0; i < 20; i++ {
		els = append(els, par(fmt.Sprintf("e%d", i), "p", "v"))
		pars = append(pars, par("e", fmt.Sprintf("p%d", i), "v"))
	}
	return [][]op{head(s1("text", x[:300])), head(s1("text", x)), head(s1("host", x[:255]), s1("app", x[:48]), s1("proc", x[:128]), s1("mid", x[:32])), els, pars, head(par("e", "p", x[:200]+"\\]"), s1("text", x[:1000]))}
}

// mediumStreams: frames or lines of a few hundred bytes, complete, cut short and malformed, and a score of them.
func (s *scfg) mediumStreams() (out []string) {
	unit := func(m string) string {
		if s.Octet {
			return frame(m)
		}
		return m + string([]byte{s.trailer()})
	}
	x := strings.Repeat("x", 300)
	full := unit(pre5 + "- " + x)
	many := ""
	for i := 0; i < 8; i++ {
		many += unit(fmt.Sprintf("<%d>1 - - - - - -", i+1))
	}
	return []string{full + unit("<2>1 - - - - - -"), full[:len(full)-9], unit("<3>1 - " + x[:260]), many}
}
