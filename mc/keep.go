package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// P29: what a call has been given does not stay in memory once its results are dropped. The executions are made in a
// process of their own, as the memory in use is a matter of the whole process.

func init() {
	checks["P29"] = checkP29
	replayers["keep"] = func(b json.RawMessage) (Scenario, error) {
		s := &keep{}
		return s, json.Unmarshal(b, s)
	}
	extraMain["keep"] = func(args []string) int {
		s := &keep{}
		if err := json.NewDecoder(os.Stdin).Decode(s); err != nil {
			return 3
		}
		bad := s.here()
		_ = json.NewEncoder(os.Stdout).Encode(keepAnswer{bad, s.ops})
		return 0
	}
}

// mark is replaced by a content never met before.
const mark = "654321"

// keep is a loop of calls, of which nothing must stay in memory.
type keep struct {
	How   string
	P     *pcfg  `json:",omitempty"`
	S     *scfg  `json:",omitempty"`
	Data  []B    `json:",omitempty"` // one after the other, with fresh contents for the mark
	Feed  *feed  `json:",omitempty"`
	Feeds []feed `json:",omitempty"`
	New   bool   `json:",omitempty"` // a new instance each time
	N     int    // number of calls between two measures
	Ops   []op   `json:",omitempty"`
	ops   int64
}

type keepAnswer struct {
	Bad string
	Ops int64
}

func (k *keep) Kind() string { return "keep" }

func (k *keep) Run() string {
	self, _ := os.Executable()
	b, _ := json.Marshal(k)
	ctx, cancel := context.WithTimeout(context.Background(), 55*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "keep", "-")
	cmd.Stdin = bytes.NewReader(b)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	out, err := cmd.Output()
	var a keepAnswer
	if e := json.Unmarshal(bytes.TrimSpace(out), &a); err != nil || e != nil {
		if ctx.Err() != nil {
			return fmt.Sprintf("%s: no answer within 55 s", k.what())
		}
		return fmt.Sprintf("%s: the process breaks down: %v %v", k.what(), err, e)
	}
	atomic.AddInt64(&keepOps, a.Ops)
	return a.Bad
}

var keepOps int64

func (k *keep) what() string {
	o := k.How
	if k.P != nil {
		o += fmt.Sprintf(" %+v", *k.P)
	}
	if k.S != nil {
		b, _ := json.Marshal(k.S)
		o += " " + string(b)
	}
	if k.New {
		o += ", a new one each time"
	}
	if len(k.Data) == 1 {
		o += fmt.Sprintf(", %q", short(string(k.Data[0])))
	}
	return o
}

// slack is what the memory in use may grow by in a period, and tolerance is the number of periods in a row in which it may
// grow by more (bounded stores that are filled first).
const (
	slack     = 96 << 10
	tolerance = 4
)

func inUse() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc + m.StackInuse
}

// growth runs the period several times; it tells how much the memory has grown in each of the last ones, if in all of them.
func growth(period func()) string {
	period()
	last := inUse()
	var grown []uint64
	for i := 0; i < tolerance; i++ {
		period()
		now := inUse()
		if now <= last+slack {
			return ""
		}
		grown = append(grown, now-last)
		last = now
	}
	return fmt.Sprintf("the memory in use grows for ever: by %d bytes in %d successive periods", grown, len(grown))
}

func quietly(f func()) {
	defer func() { _ = recover() }()
	f()
}

func (k *keep) here() (bad string) {
	before := runtime.NumGoroutine()
	defer func() {
		if bad != "" {
			bad = fmt.Sprintf("%s, periods of %d calls: %s", k.what(), k.N, bad)
			return
		}
		for i := 0; i < 40 && runtime.NumGoroutine() > before; i++ {
			time.Sleep(50 * time.Millisecond)
		}
		if n := runtime.NumGoroutine(); n > before+2 { // the runtime may have started one of its own
			bad = fmt.Sprintf("%s: %d goroutines are left after %d calls", k.what(), n-before, k.ops)
		}
	}()
	count := 0
	// the data with fresh contents, in buf
	var buf []byte
	fresh := func(d B) []byte {
		count++
		k.ops++
		m := fmt.Sprintf("%06d", count%1000000)
		buf = append(buf[:0], d...)
		for at := 0; ; {
			i := bytes.Index(buf[at:], []byte(mark))
			if i < 0 {
				return buf
			}
			copy(buf[at+i:], m)
			at += i + len(m)
		}
	}
	switch k.How {
	case "parse":
		m := k.P.new()
		i := 0
		return growth(func() {
			for n := 0; n < k.N; n++ {
				if k.New {
					m = k.P.new()
				}
				quietly(func() {
					msg, err := m.Parse(fresh(k.Data[i%len(k.Data)]))
					if err != nil {
						_ = err.Error()
					}
					if x, ok := msg.(*rfc5424.SyslogMessage); ok && x != nil && n%8 == 0 {
						_, _ = x.String()
						x.SeverityLevel()
						x.FacilityMessage()
					}
				})
				i++
			}
		})
	case "streams":
		listener := func(r *syslog.Result) {}
		p := k.S.new(listener)
		i := 0
		return growth(func() {
			for n := 0; n < k.N; n++ {
				if k.New {
					p = k.S.new(listener)
				}
				quietly(func() {
					p.Parse(&planReader{data: fresh(k.Data[i%len(k.Data)]), f: k.Feeds[i%len(k.Data)]})
				})
				i++
			}
		})
	case "endless": // one stream; the reader takes the measures, between the periods
		r := &unitReader{each: k.Feed.Each}
		i := 0
		r.next = func() []byte {
			i++
			return fresh(k.Data[i%len(k.Data)])
		}
		var last uint64
		var grown []uint64
		r.stop = func() bool {
			if i%k.N != 0 || i == 0 || i == r.last {
				return false
			}
			r.last = i
			now := inUse()
			if i > k.N {
				if now <= last+slack {
					grown = nil
					return true
				}
				grown = append(grown, now-last)
			}
			last = now
			return len(grown) == tolerance
		}
		quietly(func() { k.S.new(func(*syslog.Result) {}).Parse(r) })
		if len(grown) == tolerance {
			return fmt.Sprintf("the memory in use grows for ever: by %d bytes in %d successive periods", grown, len(grown))
		}
	case "tokens":
		return growth(func() {
			for n := 0; n < k.N; n++ {
				quietly(func() {
					s := octetcounting.NewScanner(&planReader{data: fresh(k.Data[n%len(k.Data)]), f: *k.Feed}, 8192)
					for j := 0; j < 50; j++ {
						t := s.Scan()
						_ = t.String()
					}
				})
			}
		})
	case "build":
		m := &rfc5424.SyslogMessage{}
		return growth(func() {
			for n := 0; n < k.N; n++ {
				if k.New {
					m = &rfc5424.SyslogMessage{}
				}
				quietly(func() {
					for _, o := range k.Ops {
						o.A, o.P, o.V = append(B{}, fresh(o.A)...), append(B{}, fresh(o.P)...), append(B{}, fresh(o.V)...)
						o.apply(m)
					}
					_, _ = m.String()
					m.Valid()
					m.SeverityShortLevel()
				})
			}
		})
	case "held": // the results are kept: each may cost a few times its size
		var held []interface{}
		was := inUse()
		size := 0
		n := 0
		l := func(r *syslog.Result) { held = append(held, r.Message, r.Error); n++ }
		for n < k.N && k.ops < int64(4*k.N) {
			was := n
			for i := range k.Data {
				quietly(func() {
					in := fresh(k.Data[i])
					size += len(in)
					if k.P != nil {
						n++
						msg, err := k.P.new().Parse(append([]byte{}, in...))
						held = append(held, msg, err)
						return
					}
					k.S.new(l).Parse(bytes.NewReader(in))
				})
			}
			if n == was {
				break
			}
		}
		now := inUse()
		runtime.KeepAlive(held)
		if limit := uint64(6000*n + 8*size + slack); now > was+limit {
			return fmt.Sprintf("%d results from %d bytes keep %d bytes in use", n, size, now-was)
		}
	case "claim": // the length declared, without the message
		var a, b runtime.MemStats
		for _, d := range k.Data {
			runtime.ReadMemStats(&a)
			quietly(func() {
				k.S.new(func(*syslog.Result) {}).Parse(&planReader{data: append([]byte{}, d...), f: *k.Feed})
			})
			runtime.ReadMemStats(&b)
			k.ops++
			if limit := uint64(1<<20 + 4*k.S.max() + 64*len(d)); b.TotalAlloc-a.TotalAlloc > limit {
				return fmt.Sprintf("%q: %d bytes have been allocated for %d bytes of stream", short(string(d)), b.TotalAlloc-a.TotalAlloc, len(d))
			}
		}
	}
	return ""
}

// unitReader gives one unit after the other, for ever.
type unitReader struct {
	next func() []byte
	stop func() bool
	each int
	rest []byte
	last int
	over bool
}

func (r *unitReader) Read(p []byte) (int, error) {
	if r.over {
		return 0, io.EOF
	}
	if len(r.rest) == 0 {
		if r.stop() {
			r.over = true
			return 0, io.EOF
		}
		r.rest = append([]byte{}, r.next()...)
	}
	n := len(p)
	if r.each > 0 && n > r.each {
		n = r.each
	}
	n = copy(p[:n], r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

const (
	full5m = "<13>1 2018-10-11T22:14:15.654321Z h654321 a654321 p654321 m654321 [i654321 n654321=\"v\\]654321\" k=\"w\xc3\xa9654321\"][j654321] text 654321"
	full3m = "<34>Jan 10 10:10:10 h654321 t654321[p654321]: text 654321"
)

func checkP29(c *Ctx) {
	var jobs []*keep
	add := func(k keep) { jobs = append(jobs, &k) }
	// messages: every prefix, and every prefix followed by a byte that is accepted nowhere, with fresh contents
	prefixes := func(s string) (o []B) {
		for i := 0; i <= len(s); i++ {
			o = append(o, B(s[:i]), B(s[:i]+"\x01"))
		}
		return
	}
	for _, p := range pcfgs() {
		p := p
		full := full5m
		if p.Format == 3164 {
			full = full3m
			if p.RFC3339 {
				full = strings.Replace(full, "Jan 10 10:10:10", "2018-10-11T22:14:15.654321Z", 1)
			}
		}
		data := prefixes(full)
		for _, in := range p.corpus() {
			data = append(data, B(in))
		}
		if p.Compliant {
			for _, x := range []string{"\xef\xbb\xbf654321\xc3\xa9", "\xef\xbb\xbf654321\xff", "654321\xff"} {
				data = append(data, B("<1>1 - - - - - - "+x))
			}
		}
		for _, n := range modes() {
			add(keep{How: "parse", P: &p, Data: data, New: n, N: c.pick(1500, 4000) * len(data)})
		}
		// each kind of ending alone
		for _, d := range []B{B(full), B(full + "\x01"), B(full[:len(full)/2]), B(full[:len(full)/2] + "\x01"), B(full[:len(full)-20] + "\x01"), {}, B(p.corpus()[9])} {
			add(keep{How: "parse", P: &p, Data: []B{d}, New: len(d)%2 == 0, N: c.pick(50000, 400000)})
		}
		add(keep{How: "held", P: &p, Data: data, N: 20000})
		// every state of the model and a byte of every class
		if !p.Parser && p.Year == 0 {
			var e *explored
			if p.Format == 5424 {
				e, _ = explore(model5(p.Compliant))
			} else {
				e, _ = explore(model3(p.RFC3339))
			}
			c.addStates(e.n)
			c.addTransitions(e.n * len(e.reps))
			var all []B
			for s := 0; s < e.n; s++ {
				for _, b := range e.reps {
					all = append(all, B(cat(e.access[s], []byte{b})))
				}
			}
			for i := 0; i < len(all); i += 1000 {
				j := i + 1000
				if j > len(all) {
					j = len(all)
				}
				add(keep{How: "parse", P: &p, Data: all[i:j], New: i/1000%2 == 0, N: c.pick(100, 400) * (j - i)})
			}
		}
	}
	// streams
	for _, s := range scfgs() {
		s := s
		var data []B
		var feeds []feed
		t := string([]byte{s.trailer()})
		unit := func(m string) string {
			if s.Octet {
				return frame(m)
			}
			return m + t
		}
		for _, l := range s.legs() {
			data, feeds = append(data, l.Data), append(feeds, l.Feed)
		}
		for _, m := range []string{"<1>1 - h654321 - - - - ", "<1>1 - h654321 a654321 - - - t654321", "<1>1 - \x01", "<1>1 - h654321"} {
			for _, x := range []string{unit(m), unit(m) + unit(hdr), unit(m)[:len(m)-2], unit(hdr) + unit(m)[:len(m)-2]} {
				for _, e := range []string{"", "boom"} {
					data, feeds = append(data, B(x)), append(feeds, feed{Err: e})
				}
			}
		}
		for _, n := range modes() {
			add(keep{How: "streams", S: &s, Data: data, Feeds: feeds, New: n, N: c.pick(1500, 5000) * len(data)})
		}
		for i := range data {
			if i%4 == 0 || c.thorough() {
				add(keep{How: "streams", S: &s, Data: data[i : i+1], Feeds: feeds[i : i+1], New: i%8 == 0, N: c.pick(5000, 20000)})
			}
		}
		units := []string{hdr, hdr + " text 654321", "<1>1 - h654321 a654321 p654321 m654321 [i654321 n654321=\"v\\]654321\"] t"}
		if s.Best || !s.Octet {
			units = append(units, "<1>1 - h654321", "<1>1 - \x01", "<654321>1", "<1>1 - h654321 - - - [a b=\"\\]")
		}
		for i, u := range units {
			if s.Max != nil && len(u) > 64 {
				continue
			}
			for _, each := range []int{0, 1} {
				if each == 1 && i%3 != 0 {
					continue
				}
				add(keep{How: "endless", S: &s, Data: []B{B(unit(u))}, Feed: &feed{Each: each}, N: c.pick(40000, 400000) / (1 + 3*each)})
			}
			add(keep{How: "held", S: &s, Data: []B{B(strings.Repeat(unit(u), 100))}, N: 20000})
		}
		if s.Octet {
			for _, m := range []*int{s.Max, intp(1), intp(1 << 16), intp(1 << 20)} {
				x := s
				x.Max = m
				var claims []B
				for _, n := range []string{"1", "64", "65", "8192", "8193", "65536", "65537", "1000000", "1048576", "1048577", "16777216", "100000000", "1000000000", "2147483647", "2147483648", "4294967296", "999999999999", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999"} {
					for _, rest := range []string{"", " ", " <", " <1>1 - h", " x", "x"} {
						claims = append(claims, B(n+rest), B(frame("<1>1 - - - - - -")+n+rest))
					}
				}
				add(keep{How: "claim", S: &x, Data: claims, Feed: &feed{}, N: 1})
				add(keep{How: "claim", S: &x, Data: claims, Feed: &feed{Err: "boom", Each: 3}, N: 1})
			}
		}
	}
	for _, f := range []feed{{}, {Each: 1}, {Each: 5, Err: "boom"}} {
		f := f
		add(keep{How: "tokens", Data: []B{B("5 <1>1x6 <1>1"), B("654321"), B("654321 <1>"), B("x y z"), B("3 <3>3 <3>10 <3>")}, Feed: &f, N: c.pick(5000, 50000)})
	}
	// the builder: one message set again and again, and new ones
	ops := []op{num("pri", 3), num("ver", 1), s1("ts", "2018-10-11T22:14:15.654321Z"), s1("host", "h654321"), s1("app", "a654321"), s1("proc", "p654321"), s1("mid", "m654321"), s1("text", "t654321"), par("e", "n", "v\\]654321"), s1("id", "e"),
		s1("host", "a b"), s1("host", ""), s1("ts", "654321"), s1("id", "="), par("e", "n", "654321\""), par("e", "=", "654321"), par("654321 ", "n", "v")}
	for i := range ops {
		add(keep{How: "build", Ops: ops[i : i+1], N: c.pick(20000, 200000)})
		add(keep{How: "build", Ops: append([]op{num("pri", 3), num("ver", 1)}, ops[i]), N: c.pick(20000, 200000), New: true})
	}
	all := append(append([]op{}, ops...), par("i654321", "n654321", "v654321"), par("i654321", "k", "\\\"654321"), s1("id", "j654321"))
	add(keep{How: "build", Ops: ops, N: c.pick(20000, 200000)})
	add(keep{How: "build", Ops: all, N: c.pick(20000, 200000), New: true})

	c.parallel(len(jobs), func(w *worker, i int) { w.do(jobs[i]) })
	c.addTransitions(int(atomic.LoadInt64(&keepOps)))
	c.note("processes", len(jobs))
	c.note("calls_made_in_them", atomic.LoadInt64(&keepOps))
	c.note("what", fmt.Sprintf("every prefix of a full message, alone and followed by a byte accepted nowhere, every transition of the models, streams with every kind of ending, endless streams, setters: in rounds with fresh contents; the memory in use must not grow by more than %d bytes in %d successive rounds, and no goroutine be left", slack, tolerance))
	c.assume("a store that is bounded is filled within four rounds")
}
