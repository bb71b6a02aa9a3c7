package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync/atomic"

	syslog "github.com/influxdata/go-syslog/v3"
)

func init() {
	checks["P14"] = checkP14
	checks["P15"] = checkP15
	checks["P16"] = checkP16
	checks["P17"] = checkP17
	checks["P18"] = checkP18
	checks["P19"] = checkP19
}

func intp(n int) *int { return &n }

// frame writes a message with its length in front.
func frame(m string) string { return strconv.Itoa(len(m)) + " " + m }

const hdr = "<1>1 - - - - - -"

// sized is a well-formed message of exactly n bytes (n >= 16), with bytes that can be told apart.
func sized(n int) string {
	switch {
	case n < 16:
		return hdr[:n]
	case n == 16:
		return hdr
	case n == 17:
		return "<13" + hdr[2:]
	}
	var b strings.Builder
	b.WriteString(hdr + " ")
	for i := 0; b.Len() < n; i++ {
		b.WriteByte("abcdefghijklmnopqrstuvw <>0123456789"[(i+i/36)%36])
	}
	return b.String()
}

// messages a frame may hold
var octMsgs = []string{
	hdr,
	"<165>4 2018-10-11T22:14:15.003Z host.example app pid mid [id a=\"\\]v\" b=\"\"][z] text",
	"<1>1 - - - - - - one\ntwo\n3 <4\x00 \x00",
	"<1>1 - h - - - - 16 <1>1 - - - - - -",
	"<1>1 - - a - - - \x00<",
	"<",                            // malformed at once
	"<1>1 - - - - - - x\n17 <2>1 ", // looks like a frame follows
	"<1>",
	"<192>1 - - - - - -",
	"<1>1 2018-13-01T00:00:00Z - - - - -",
	"<1>1 2018-02-28T00:00:00+01:30 héost a p m -",
	"<1>1 - - - - - [a b=\"c\"",
	"<1>1 - - - - - [a b=\"c\" b=\"d\"][a] \xff",
	"<34>999 - - - - - -  ",
}

type streamGen struct {
	c      *Ctx
	v      *visited
	timing bool
	tally  tally
	runs   int64
	robust bool // only look whether the library stands it
}

func (c *Ctx) newStreamGen() *streamGen {
	return &streamGen{c: c, v: &visited{m: map[[4]int]struct{}{}}, timing: c.Prop == "P19"}
}

// try runs one stream with each of the feeds.
func (g *streamGen) try(w *worker, s scfg, data []byte, fs ...feed) {
	atomic.AddInt64(&g.c.transitions, int64(len(data)))
	if g.robust {
		for i, f := range fs {
			if i%4 == 0 || f.Err != "" {
				w.do(&robustStream{S: s, Data: data, Feed: f})
			}
		}
		return
	}
	var ws []want
	var due []int
	last, known := "", false
	for _, f := range fs {
		if w.c.isStopped() {
			return
		}
		if !known || f.Err != last {
			ws, due = s.expect(data, f, g.v)
			if ws == nil {
				ws = []want{}
			}
			last, known = f.Err, true
			g.tally.hit(len(ws))
		}
		atomic.AddInt64(&g.runs, 1)
		w.do(&streamRun{S: s, Data: data, Feed: f, Timing: g.timing, ws: ws, due: due})
	}
}

func (g *streamGen) finish() {
	g.c.addStates(len(g.v.m))
	g.c.addTransitions(int(atomic.LoadInt64(&streamReads)))
	g.c.note("framing_model_states", len(g.v.m))
	g.c.note("reader_calls_answered", atomic.LoadInt64(&streamReads))
	g.c.note("streams_by_number_of_expected_results", g.tally.report(func(k int) string { return strconv.Itoa(k) }))
	g.c.assume("transitions = bytes consumed by the reference framer over the distinct (stream, configuration) pairs, plus read calls answered by the environment; states = distinct states of the framing model visited")
}

// basic feeds: at once, byte by byte, the end with the last bytes, reads that give nothing
func basicFeeds(n int) []feed {
	fs := []feed{{}, {WithErr: true}, {Each: 1}, {Each: 1, WithErr: true}, {Each: 2}, {Each: 3}, {Each: 7}, {Plan: []int{0, 0, 0}}}
	if n > 2 {
		fs = append(fs, feed{Plan: []int{1, 0, 1, 0}}, feed{Plan: []int{n - 1, 0}})
	}
	return fs
}

// kindFeeds: the stream comes from readers of different types
func kindFeeds() (fs []feed) {
	for _, k := range readerKinds {
		fs = append(fs, feed{As: k})
	}
	return append(fs, feed{As: "bufio16", Each: 5}, feed{As: "bufio", Each: 1}, feed{As: "bufio", Each: 4095, WithErr: true})
}

func singleSplits(n int) (fs []feed) {
	for i := 1; i < n; i++ {
		fs = append(fs, feed{Plan: []int{i}})
	}
	return
}

func doubleSplits(n int) (fs []feed) {
	for i := 1; i < n; i++ {
		for j := 1; i+j < n; j++ {
			fs = append(fs, feed{Plan: []int{i, j}})
		}
	}
	return
}

// composition number k (of 2^(n-1)) of n bytes into reads
func composition(n int, k uint) feed {
	var p []int
	size := 1
	for i := 0; i < n-1; i++ {
		if k>>uint(i)&1 == 1 {
			p = append(p, size)
			size = 1
		} else {
			size++
		}
	}
	return feed{Plan: append(p, size)}
}

// sequences calls f with every sequence of length 0..n over k letters.
func seqCount(k, n int) int {
	t, p := 0, 1
	for i := 0; i <= n; i++ {
		t += p
		p *= k
	}
	return t
}

func seqAt(k, i int) []int {
	// 0: empty; then by length
	p := 1
	n := 0
	for i >= p {
		i -= p
		p *= k
		n++
	}
	out := make([]int, n)
	for j := n - 1; j >= 0; j-- {
		out[j] = i % k
		i /= k
	}
	return out
}

func modes() []bool { return []bool{false, true} }

func checkP14(c *Ctx) {
	g := c.newStreamGen()
	g.bigFrames(c, false)
	g.wellFramed(c)
	g.finish()
	c.note("what", "well-framed octet counted streams; every result compared with the one of the same bytes parsed alone, for every way of splitting the stream into reads within the bounds")
}

// wellFramed explores streams of well-formed frames.
func (g *streamGen) wellFramed(c *Ctx) {
	// every sequence of frames; every single split, every double split of short sequences
	depth := c.pick(3, 4)
	k := len(octMsgs)
	n := seqCount(k, depth)
	c.parallel(n, func(w *worker, i int) {
		sq := seqAt(k, i)
		if len(sq) == 0 && c.Prop == "P14" {
			return // the empty stream has no frame
		}
		var data []byte
		for _, m := range sq {
			data = append(data, frame(octMsgs[m])...)
		}
		for _, best := range modes() {
			s := scfg{Octet: true, Best: best}
			fs := basicFeeds(len(data))
			if len(sq) <= c.pick(2, 3) {
				fs = append(fs, kindFeeds()...)
				fs = append(fs, singleSplits(len(data))...)
			} else if i%4 == 0 && len(sq) <= 3 {
				fs = append(fs, singleSplits(len(data))...)
			}
			if len(sq) == 1 || len(sq) == 2 && (c.thorough() || i%8 == 0) {
				fs = append(fs, doubleSplits(len(data))...)
			}
			g.try(w, s, data, fs...)
		}
	})
	c.note("frame_sequences", n)
	// every split of short streams into reads
	short := []string{frame(hdr[:13]), frame("<") + frame("<1") + frame("<12"), frame("<1>1 ") + frame("<<")}
	if c.thorough() {
		short = append(short, frame(hdr), frame(hdr)+frame("<"), frame("<1>")+frame("<12>")+frame("<x"))
	}
	comps := 0
	for _, st := range short {
		for _, best := range modes() {
			st, best := st, best
			total := 1 << uint(len(st)-1)
			comps += total
			const chunk = 256
			c.parallel((total+chunk-1)/chunk, func(w *worker, j int) {
				for k := j * chunk; k < (j+1)*chunk && k < total; k++ {
					f := composition(len(st), uint(k))
					g.try(w, scfg{Octet: true, Best: best}, []byte(st), f)
				}
			})
		}
	}
	c.note("complete_split_enumerations", map[string]interface{}{"streams": short, "splits": comps})
	// every frame size up to a bound, maximum below, equal and above, twice in a row with a third message after
	top := c.pick(300, 1200)
	c.parallel(top, func(w *worker, i int) {
		L := i + 1
		st := []byte(frame(sized(L)) + frame(sized(L)) + frame(hdr))
		for _, best := range modes() {
			for _, m := range []*int{nil, intp(L), intp(L + 1), intp(16 + L)} {
				if m != nil && *m < 16 {
					m = intp(16)
				}
				g.try(w, scfg{Octet: true, Best: best, Max: m}, st, append(basicFeeds(len(st)), kindFeeds()...)...)
				if L <= c.pick(60, 300) {
					g.try(w, scfg{Octet: true, Best: best, Max: m}, st, singleSplits(len(st))...)
				}
			}
		}
	})
	// sizes around the powers of ten, the buffer sizes and the default maximum
	var sizes []int
	for _, m := range []int{99, 100, 999, 1000, 1023, 1024, 4096, 8192} {
		for d := -c.pick(3, 24); d <= c.pick(3, 24); d++ {
			if m+d > 16 && m+d <= 8192 {
				sizes = append(sizes, m+d)
			}
		}
	}
	if c.thorough() {
		for n := 1300; n < 8192; n += 97 {
			sizes = append(sizes, n)
		}
	}
	c.parallel(len(sizes), func(w *worker, i int) {
		L := sizes[i]
		for _, other := range []int{16, 100, L, 8192} {
			st := []byte(frame(sized(L)) + frame(sized(other)) + frame(sized(L)) + frame(hdr))
			for _, best := range modes() {
				for _, m := range []*int{nil, intp(L), intp(L + 1)} {
					if m != nil && *m < other {
						continue
					}
					s := scfg{Octet: true, Best: best, Max: m}
					mx := s.max()
					fs := append(kindFeeds(), []feed{{}, {WithErr: true}, {Each: 4096}, {Each: mx + 19}, {Each: mx + 20}, {Each: mx + 21}, {Each: mx}, {Each: 1000}, {Each: 17}}...)
					h := len(strconv.Itoa(L)) + 1
					for _, p := range []int{1, h - 1, h, h + 1, h + L - 1, h + L, h + L + 1, h + L + h, mx + 19, mx + 20, mx + 21} {
						if p < len(st) {
							fs = append(fs, feed{Plan: []int{p}}, feed{Plan: []int{p, 1}}, feed{Plan: []int{p, 0, 1, 1}, Each: 777})
						}
					}
					g.try(w, s, st, fs...)
				}
			}
		}
	})
	c.note("frame_sizes", fmt.Sprintf("1..%d and %d sizes around 99..8192", top, len(sizes)))
	// all bytes of the alphabet after the header, within the text
	c.parallel(256, func(w *worker, b int) {
		for _, text := range []string{string([]byte{byte(b)}), "x" + string([]byte{byte(b)}), string([]byte{byte(b)}) + "y", string([]byte{byte(b), byte(b)})} {
			st := []byte(frame(hdr+" "+text) + frame(hdr+" next") + frame("<1>1 - - - - - - "+text+text))
			for _, best := range modes() {
				g.try(w, scfg{Octet: true, Best: best}, st, basicFeeds(len(st))...)
				g.try(w, scfg{Octet: true, Best: best}, st, singleSplits(len(st))...)
			}
		}
	})
	// every pair of bytes at the end and at the start of the text of a frame; as the whole frame
	c.parallel(256, func(w *worker, a int) {
		for b := 0; b < 256; b++ {
			x := string([]byte{byte(a), byte(b)})
			for i, st := range []string{frame(hdr+" t"+x) + frame(hdr+" "+x+"t") + frame(hdr), frame(hdr) + frame("<"+x)} {
				best := (a+b+i)%2 == 0
				g.try(w, scfg{Octet: true, Best: best}, []byte(st), feed{}, feed{Each: 1})
				g.try(w, scfg{Octet: true, Best: !best, Max: intp(64)}, []byte(st), feed{})
			}
		}
	})
	// every byte within long messages, words as texts
	ps, ns := longPieces(), longSizes(c)
	c.parallel(len(ps)*len(ns), func(w *worker, i int) {
		n := ns[i%len(ns)]
		for _, b := range around(ps[i/len(ns)], n) {
			m := hdr + " " + string(b)
			st := frame(m) + frame(hdr) + frame(m)
			if len(m) > 8192 {
				g.try(w, scfg{Octet: true, Best: i%2 == 0, Max: intp(len(m))}, []byte(st), feed{}, feed{Each: 1000})
				continue
			}
			g.try(w, scfg{Octet: true}, []byte(st), feed{}, feed{Each: len(frame(m)) - 1})
			g.try(w, scfg{Octet: true, Best: true}, []byte(st), feed{}, feed{Each: len(frame(m)) - 1})
		}
	})
	c.parallel(len(fieldWords), func(w *worker, i int) {
		for k := range fieldWords {
			a, b := fieldWords[i], fieldWords[k]
			g.try(w, scfg{Octet: true, Best: i%2 == 0}, []byte(frame(hdr+" "+a)+frame("<2>1 - "+a+" - - - [i n=\"v\"] "+b)+frame("<3>1 - - - - - - "+b+" "+a)), feed{}, feed{Each: 1})
		}
	})
	// more frames than a small counter can hold
	c.parallel(4, func(w *worker, i int) {
		var st []byte
		for j := 0; j < c.pick(300000, 1200000); j++ {
			st = append(st, frame([]string{hdr, "<2>1 - h - - - - t", "<3>1 - - a - - [b]"}[(j+j/3)%3])...)
		}
		g.try(w, scfg{Octet: true, Best: i%2 == 0, Max: []*int{nil, intp(24)}[i/2]}, st, feed{Each: []int{0, 4096}[i%2]})
	})
	// a long stream: the reader's buffer is moved many times
	c.parallel(c.pick(60, 600), func(w *worker, i int) {
		var st []byte
		for j := 0; j < 400; j++ {
			st = append(st, frame(sized(16+(j*(i+1)+i)%(7*(i+3))))...)
		}
		mx := 7*(i+3) + 16
		for _, m := range []*int{nil, intp(mx)} {
			s := scfg{Octet: true, Best: i%2 == 0, Max: m}
			g.try(w, s, st, feed{}, feed{Each: 1}, feed{Each: 13}, feed{Each: s.max() + 20}, feed{Each: s.max() + 19, WithErr: true}, feed{Each: 4096})
		}
	})
}

// maxima up to the largest one
var hugeMax = []int{1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1 << 62, math.MaxInt - 64, math.MaxInt - 21, math.MaxInt - 20, math.MaxInt - 19, math.MaxInt - 1, math.MaxInt}

// bigSizes are sizes of messages around those of buffers.
func bigSizes(c *Ctx) (sizes []int) {
	for _, m := range []int{8192, 16384, 32768, 65536, 131072} {
		for d := -2; d <= 2; d++ {
			sizes = append(sizes, m+d, m+d+20)
		}
	}
	sizes = append(sizes, 1<<18, 1<<20-1, 1<<20, 1<<21+1, 1<<22)
	if c.thorough() {
		for n := 8200; n < 300000; n += 4093 {
			sizes = append(sizes, n)
		}
	}
	return
}

// bigFrames: maxima without bound; frames larger than any buffer, complete ones and, if broken is set, others.
func (g *streamGen) bigFrames(c *Ctx, broken bool) {
	short := []string{frame(hdr) + frame(hdr+" second") + frame(hdr), frame(sized(17)) + frame(sized(300)) + frame(sized(9000)) + frame(hdr), frame(sized(64)) + frame("<1>1 - bad") + frame(hdr)}
	if broken {
		short = append(short, "", "x", "9", "99 ", "5 x", "12 <1>1 - - -", frame(hdr)+"9223372036854775807 <1>1 - - - - - - t", frame(hdr)+"9223372036854775808 <1>1 - - - - - - t", "9223372036854775806 "+hdr, "9223372036854775788 <",
			"4294967296 "+hdr, "65556 "+sized(100), "65557 "+sized(100), "1048576 "+sized(70000), frame(hdr)+"1099511627777 <1>1", "18446744073709551615 "+hdr, "18446744073709551616 "+hdr, "36893488147419103248 "+hdr)
	}
	// from the largest maximum down, alone: memory may be taken in proportion to it
	c.serial(func(w *worker) {
		for k := len(hugeMax) - 1; k >= 0; k-- {
			for _, best := range modes() {
				g.try(w, scfg{Octet: true, Best: best, Max: intp(hugeMax[k])}, []byte(short[0]), feed{})
			}
		}
	})
	c.parallel(len(hugeMax)*len(short), func(w *worker, i int) {
		st := []byte(short[i/len(hugeMax)])
		for _, best := range modes() {
			s := scfg{Octet: true, Best: best, Max: intp(hugeMax[i%len(hugeMax)])}
			fs := append(kindFeeds(), feed{}, feed{Each: 1}, feed{WithErr: true}, feed{Each: 1000})
			if broken {
				fs = append(fs, feed{Err: "boom"}, feed{Err: "boom", WithErr: true, Each: 5})
			}
			if len(st) < 200 {
				fs = append(fs, singleSplits(len(st))...)
			}
			g.try(w, s, st, fs...)
		}
	})
	sizes := bigSizes(c)
	c.parallel(len(sizes), func(w *worker, i int) {
		L := sizes[i]
		st := []byte(frame(sized(L)) + frame(hdr) + frame(sized(L-1)) + frame(sized(L)) + frame(hdr+" end"))
		one := len(frame(sized(L)))
		for _, m := range []int{L, L + 1, 1 << 23, math.MaxInt} {
			for _, best := range modes() {
				if m == L+1 && !best {
					continue
				}
				s := scfg{Octet: true, Best: best, Max: intp(m)}
				if !broken {
					fs := []feed{{}, {Each: 4096}, {Each: L + 20, WithErr: true}, {Plan: []int{one, 0, 1}}, {Plan: []int{7}}}
					if best {
						fs = append(fs, feed{Each: 65536}, feed{Each: 65556}, feed{Each: 65557}, feed{Plan: []int{one - 1, 1}, Each: 999}, feed{As: "bytes"}, feed{As: "bufio"}, feed{Plan: []int{one + 1}})
					}
					g.try(w, s, st, fs...)
					continue
				}
				for _, cut := range []int{1, 19, 20, 21, L / 2, L - 1, L} {
					d := st[:len(frame(sized(L))+frame(hdr)+frame(sized(L-1)))+one-cut]
					g.try(w, s, d, feed{}, feed{Each: 4096, Err: "boom"}, feed{WithErr: true, Err: "boom"})
				}
			}
		}
		if broken {
			for _, best := range modes() {
				g.try(w, scfg{Octet: true, Best: best, Max: intp(L - 1)}, st, feed{}, feed{Each: 4096})
			}
		}
	})
	c.note("largest_frame", 1<<22)
	c.note("largest_maximum", math.MaxInt)
}

// bigLines: lines larger than any buffer.
func (g *streamGen) bigLines(c *Ctx, broken bool) {
	sizes := bigSizes(c)
	c.parallel(len(sizes), func(w *worker, i int) {
		L := sizes[i]
		for _, nul := range modes() {
			for _, best := range modes() {
				s := scfg{NUL: nul, Best: best}
				t := string([]byte{s.trailer()})
				st := []byte(hdr + t + sized(L) + t + sized(L-1) + t + sized(L)[1:] + t + hdr + " end" + t)
				if !broken {
					g.try(w, s, st, feed{}, feed{Each: 4096}, feed{Each: L + 1, WithErr: true}, feed{Plan: []int{len(hdr) + 1, L, 0, 1}, Each: 65536}, feed{As: "bytes"}, feed{As: "bufio"})
					continue
				}
				for _, cut := range []int{1, len(hdr) + 6, len(hdr) + 7, len(hdr) + 8, L, L + 16, L + 30, 2 * L} {
					d := st[:len(st)-cut]
					g.try(w, s, d, feed{}, feed{Each: 4096, Err: "boom"}, feed{WithErr: true, Err: "boom"})
				}
			}
		}
	})
	c.note("largest_line", 1<<22)
}

// departures from the framing
func checkP15(c *Ctx) {
	g := c.newStreamGen()
	g.bigFrames(c, true)
	g.departures(c)
	g.finish()
	c.note("what", "streams departing from the octet counting framing at every point; all results compared with the reference framer, the error texts of the framing errors are left free")
	c.assume("a reader that has failed keeps failing; a failure exactly between two frames may or may not be reported (unspecified)")
}

func (g *streamGen) departures(c *Ctx) {
	// every string over the bytes that matter to the framing
	alpha := []byte{'0', '1', '2', '9', ' ', '<', '>', 'a', '\n', 0, '/', ':'}
	n := c.pick(5, 6)
	total := seqCount(len(alpha), n)
	const chunk = 1024
	c.parallel((total+chunk-1)/chunk, func(w *worker, j int) {
		for i := j * chunk; i < (j+1)*chunk && i < total; i++ {
			sq := seqAt(len(alpha), i)
			data := make([]byte, len(sq))
			for k, a := range sq {
				data[k] = alpha[a]
			}
			for _, best := range modes() {
				g.try(w, scfg{Octet: true, Best: best, Max: intp(11)}, data, feed{}, feed{Each: 1}, feed{Err: "broken pipe"}, feed{Err: "broken pipe", WithErr: true}, feed{WithErr: true})
			}
		}
	})
	c.note("all_strings", fmt.Sprintf("%d strings of up to %d bytes over %q", total, n, alpha))
	// streams of up to two (three) frames: cut at every point, by an end or by a failure, with every feed
	k := len(octMsgs)
	depth := c.pick(2, 3)
	c.parallel(seqCount(k, depth), func(w *worker, i int) {
		var data []byte
		sq := seqAt(k, i)
		for _, m := range sq {
			data = append(data, frame(octMsgs[m])...)
		}
		for cut := 0; cut <= len(data); cut++ {
			d := data[:cut]
			for _, best := range modes() {
				s := scfg{Octet: true, Best: best}
				fs := []feed{{}, {WithErr: true}, {Each: 1}, {Err: "boom"}, {Err: "boom", WithErr: true}, {Err: "EOF"}, {Each: 1, Err: "boom"}, {Each: 1, Err: "boom", WithErr: true}, {Each: 5, Err: "unexpected EOF"}}
				fs = append(fs, kindFeeds()...)
				if len(sq) <= 1 {
					for _, f := range singleSplits(len(d)) {
						for _, e := range []string{"", "boom"} {
							for _, wi := range modes() {
								f.Err, f.WithErr = e, wi
								fs = append(fs, f)
							}
						}
					}
				}
				g.try(w, s, d, fs...)
			}
		}
	})
	// every byte in the place of every byte of two framed messages, and inserted there
	base := [][]byte{[]byte(frame(hdr) + frame("<2>1 - - - - - - ab") + frame(hdr)), []byte(frame("<2>1 - - - - - - 0123456789 <3>1 9") + frame("<1>1 -") + frame(hdr))}
	for _, b := range base {
		b := b
		c.parallel(len(b)*256, func(w *worker, i int) {
			p, x := i/256, byte(i%256)
			sub := append([]byte{}, b...)
			sub[p] = x
			ins := append(append(append([]byte{}, b[:p]...), x), b[p:]...)
			for _, best := range modes() {
				for _, d := range [][]byte{sub, ins, sub[:p+1], ins[:p+1]} {
					g.try(w, scfg{Octet: true, Best: best}, d, feed{}, feed{Each: 1}, feed{Plan: []int{p}}, feed{Err: "boom"})
				}
			}
		})
	}
	// two bytes at once in the framing of the second frame
	two := []byte(frame(hdr) + "16 " + hdr + frame(hdr))
	at := len(frame(hdr))
	c.parallel(4*256, func(w *worker, i int) {
		p, x := at+i/256, byte(i%256)
		for y := 0; y < 256; y++ {
			if !c.thorough() && !bytes.ContainsRune([]byte("0169 <>-\n:/aA\x00\x7f\x80\xff"), rune(y)) {
				continue
			}
			d := append([]byte{}, two...)
			d[p], d[p+1] = x, byte(y)
			for _, best := range modes() {
				g.try(w, scfg{Octet: true, Best: best}, d, feed{}, feed{Each: 1})
			}
		}
	})
	// every declared length against every available size, for every maximum
	top := c.pick(40, 90)
	c.parallel((top+2)*(top+2), func(w *worker, i int) {
		L, avail := i/(top+2), i%(top+2)
		st := []byte(frame(hdr) + strconv.Itoa(L) + " " + sized(avail))
		for _, best := range modes() {
			for _, m := range []*int{nil, intp(L - 1), intp(L), intp(L + 1), intp(16), intp(0), intp(-5)} {
				g.try(w, scfg{Octet: true, Best: best, Max: m}, st, feed{}, feed{Each: 1}, feed{WithErr: true}, feed{Err: "boom"}, feed{Each: 3, Err: "boom"})
				if m != nil {
					g.try(w, scfg{Octet: true, Best: best, Max: m}, st[len(frame(hdr)):], feed{}, feed{Each: 1}, feed{Err: "boom", WithErr: true})
				}
			}
		}
	})
	// large lengths
	var lens []string
	for _, p := range []uint{8, 12, 13, 15, 16, 31, 32, 33, 62, 63} {
		for d := -2; d <= 2; d++ {
			lens = append(lens, strconv.FormatUint(uint64(1)<<p+uint64(d), 10))
		}
	}
	for _, p := range []string{"8191", "8192", "8193", "8211", "8212", "8213", "9999", "10000", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617",
		"18446744073709551632", "18446744073709559808", "36893488147419103232", "36893488147419103248", "99999999999999999999", "184467440737095516160", "340282366920938463463374607431768211456"} {
		lens = append(lens, p)
	}
	for n := 1; n <= 60; n++ {
		lens = append(lens, "1"+strings.Repeat("0", n), strings.Repeat("9", n), strings.Repeat("1", n))
	}
	lens = append(lens, strings.Repeat("1", 5000), strings.Repeat("9", 9000), "16"+strings.Repeat("0", 8300))
	c.parallel(len(lens), func(w *worker, i int) {
		for _, body := range []string{"", " ", " <", " " + hdr, " " + hdr + frame(hdr), " " + sized(8191), " " + sized(8192), " " + sized(8193), " " + sized(9000), "x", " x", "\n"} {
			for _, pre := range []string{"", frame(hdr)} {
				st := []byte(pre + lens[i] + body)
				for _, best := range modes() {
					for _, m := range []*int{nil, intp(16), intp(8193), intp(70000)} {
						g.try(w, scfg{Octet: true, Best: best, Max: m}, st, feed{}, feed{Each: 1000}, feed{WithErr: true}, feed{Err: "boom"})
						if len(st) < 200 {
							g.try(w, scfg{Octet: true, Best: best, Max: m}, st, feed{Each: 1})
						}
					}
				}
			}
		}
	})
	// failures of all kinds, at every point
	names := errorNames()
	c.parallel(len(names), func(w *worker, i int) {
		st := []byte(frame(hdr+" one") + frame("<2>1 - h - - - [a b=\"c\"] two") + frame(sized(60)))
		for cut := 0; cut <= len(st); cut++ {
			for _, best := range modes() {
				g.try(w, scfg{Octet: true, Best: best}, st[:cut], feed{Err: names[i]}, feed{Err: names[i], WithErr: true}, feed{Err: names[i], Each: 1}, feed{Err: names[i], Each: 5, WithErr: true})
			}
		}
	})
	c.note("kinds_of_failures", len(names))
	// a departure after any number of frames
	ns := counts(c)
	ends := []string{"", "x", "\n", "0", "16", "16 ", "16 x", "16x", "16 <1>1 - ho", "30 <7>1 - cut - - - [a b=\"c\"] x", "025 " + hdr, "9999 " + hdr, " " + frame(hdr)}
	c.parallel(len(ns)*len(ends), func(w *worker, i int) {
		n, end := ns[i/len(ends)], ends[i%len(ends)]
		var st []byte
		for j := 0; j < n; j++ {
			st = append(st, frame([]string{hdr, "<2>1 - h - - - - t", "<3>1 - - a - - [b]"}[(j+j/3)%3])...)
		}
		st = append(st, end...)
		for _, best := range modes() {
			g.try(w, scfg{Octet: true, Best: best, Max: []*int{nil, intp(30)}[i%2]}, st, feed{}, feed{Each: 4096, Err: "boom"})
		}
	})
	c.note("frames_before_a_departure", fmt.Sprintf("%d numbers up to %d, %d departures", len(ns), ns[len(ns)-1], len(ends)))
	// frames around the default maximum, complete and cut short
	span := c.pick(3, 30)
	c.parallel(2*span+1, func(w *worker, i int) {
		L := 8192 - span + i
		whole := frame(sized(L))
		for _, cut := range []int{0, 1, 2, 20, L / 2, L - 16} {
			st := []byte(frame(hdr) + whole[:len(whole)-cut])
			for _, best := range modes() {
				for _, m := range []*int{nil, intp(L), intp(L - 1)} {
					g.try(w, scfg{Octet: true, Best: best, Max: m}, st, feed{}, feed{Each: 4096}, feed{Each: 1000, Err: "boom"}, feed{Each: 8212, WithErr: true})
				}
			}
		}
	})
}

// counts are numbers of frames or lines: all small ones, and those around what counters can hold.
func counts(c *Ctx) (ns []int) {
	for n := 2; n <= c.pick(140, 1100); n++ {
		ns = append(ns, n)
	}
	for _, m := range []int{256, 512, 1000, 1024, 4096, 8192, 65536} {
		for d := -1; d <= 1; d++ {
			ns = append(ns, m+d)
		}
	}
	return append(ns, 70000)
}

// lines of the non-transparent framing; T stands for the trailer, O for the other one
var ntLines = []string{
	hdr + " msg",
	"<2>1 2018-10-11T22:14:15.003Z h a p m [x y=\"z\"] O text O",
	"continued",
	"",
	"<",
	"<3>1 - h",
	" <4>1 - - - - - - not a start",
	"O",
	"<1>1 - - - - - [a b=\"c\"",
	"<200>1 - - - - - -",
	"12 <1>1",
	"\xc3\xa9<",
}

func ntLine(l string, nul bool) []byte {
	o := byte(0)
	if nul {
		o = '\n'
	}
	return bytes.ReplaceAll([]byte(l), []byte{'O'}, []byte{o})
}

func ntStream(sq []int, nul bool) []byte {
	var d []byte
	for _, l := range sq {
		d = append(d, ntLine(ntLines[l], nul)...)
		d = append(d, scfg{NUL: nul}.trailer())
	}
	return d
}

func checkP16(c *Ctx) {
	g := c.newStreamGen()
	g.lines(c)
	g.bigLines(c, false)
	g.finish()
	c.note("what", "non-transparent streams whose lines all end with the trailer; every result compared with the one of the same bytes parsed alone, for every way of splitting the stream into reads within the bounds")
}

func (g *streamGen) lines(c *Ctx) {
	k := len(ntLines)
	depth := c.pick(4, 5)
	n := seqCount(k, depth)
	c.parallel(n, func(w *worker, i int) {
		sq := seqAt(k, i)
		for _, nul := range modes() {
			d := ntStream(sq, nul)
			for _, best := range modes() {
				s := scfg{NUL: nul, Best: best}
				var fs []feed
				if len(sq) <= 3 {
					fs = basicFeeds(len(d))
				} else {
					fs = []feed{{}, {Each: 1}, {WithErr: true}, {Each: 7}}
				}
				if len(sq) <= 2 {
					fs = append(fs, kindFeeds()...)
				}
				if len(sq) <= 2 || i%c.pick(8, 1) == 0 && len(sq) <= 3 {
					fs = append(fs, singleSplits(len(d))...)
				}
				if len(sq) == 1 || len(sq) == 2 && (c.thorough() || i%4 == 0) {
					fs = append(fs, doubleSplits(len(d))...)
				}
				g.try(w, s, d, fs...)
			}
		}
	})
	c.note("line_sequences", n)
	// every string over a small alphabet, ended by the trailer
	alpha := []byte{'<', '1', '>', ' ', '\n', 0, '-'}
	nl := c.pick(6, 7)
	total := seqCount(len(alpha), nl)
	const chunk = 1024
	c.parallel((total+chunk-1)/chunk, func(w *worker, j int) {
		for i := j * chunk; i < (j+1)*chunk && i < total; i++ {
			sq := seqAt(len(alpha), i)
			d := make([]byte, len(sq))
			for k, a := range sq {
				d[k] = alpha[a]
			}
			for _, nul := range modes() {
				s := scfg{NUL: nul}
				e := append(append([]byte{}, d...), s.trailer())
				g.try(w, s, e, feed{}, feed{Each: 1})
				s.Best = true
				g.try(w, s, e, feed{}, feed{Each: 1, WithErr: true})
			}
		}
	})
	c.note("all_strings", fmt.Sprintf("%d strings of up to %d bytes over %q", total, nl, alpha))
	// every split of short streams
	short := []string{"<1>T<2>T", "<1>1 -T<TxT<"[:11] + "T", "TT<T<1>1TT<2T"}
	if c.thorough() {
		short = append(short, hdr+"T<", "<1>1 - -TabcT<xT<3>1T"[:20]+"T")
	}
	for _, st := range short {
		for _, nul := range modes() {
			for _, best := range modes() {
				s := scfg{NUL: nul, Best: best}
				d := bytes.ReplaceAll([]byte(st), []byte{'T'}, []byte{s.trailer()})
				if d[len(d)-1] != s.trailer() {
					d = append(d, s.trailer())
				}
				tot := 1 << uint(len(d)-1)
				c.parallel((tot+255)/256, func(w *worker, j int) {
					for k := j * 256; k < (j+1)*256 && k < tot; k++ {
						g.try(w, s, d, composition(len(d), uint(k)))
					}
				})
			}
		}
	}
	// every byte inside a message, at the start of a line and before the trailer
	c.parallel(256, func(w *worker, b int) {
		x := string([]byte{byte(b)})
		for _, nul := range modes() {
			for _, best := range modes() {
				s := scfg{NUL: nul, Best: best}
				t := string([]byte{s.trailer()})
				for _, st := range []string{hdr + " " + x + t + hdr + t, hdr + " a" + t + x + "b" + t + hdr + t, x + t + hdr + t, hdr + t + x + x + t + "<2>1 - - - - - -" + t, x + x + hdr + t + x, hdr + " a" + x + t} {
					if !strings.HasSuffix(st, t) {
						st += t
					}
					g.try(w, s, []byte(st), append(basicFeeds(len(st)), singleSplits(len(st))...)...)
				}
			}
		}
	})
	// every line of one or two bytes, as a continuation, as the start of a message and before the first one
	c.parallel(256, func(w *worker, a int) {
		for b := -1; b < 256; b++ {
			x := string([]byte{byte(a)})
			if b >= 0 {
				x += string([]byte{byte(b)})
			}
			for _, nul := range modes() {
				s := scfg{NUL: nul, Best: (a+b)%2 == 0}
				t := string([]byte{s.trailer()})
				g.try(w, s, []byte(hdr+" a"+t+x+t+hdr+" "+x+t+"c"+t+x+t), feed{}, feed{Each: 1})
				g.try(w, s, []byte(x+t+hdr+x+t+x+t+x+t+"d"+t), feed{})
				g.try(w, s, []byte(hdr+" q"+x+t+"r"+x+t+x+"s"+t), feed{}, feed{Each: 3})
			}
		}
	})
	// every byte within long messages and lines, words as lines
	ps, ns := longPieces(), longSizes(c)
	c.parallel(len(ps)*len(ns), func(w *worker, i int) {
		n := ns[i%len(ns)]
		for _, b := range around(ps[i/len(ns)], n) {
			for _, nul := range modes() {
				for _, best := range modes() {
					s := scfg{NUL: nul, Best: best}
					t := string([]byte{s.trailer()})
					g.try(w, s, []byte(hdr+" "+string(b)+t+hdr+t+hdr+" x"+t+string(b)+t+hdr+t), feed{}, feed{Each: n})
				}
			}
		}
	})
	c.parallel(len(fieldWords), func(w *worker, i int) {
		for k := range fieldWords {
			a, b := fieldWords[i], fieldWords[k]
			for _, nul := range modes() {
				s := scfg{NUL: nul, Best: i%2 == 0}
				t := string([]byte{s.trailer()})
				g.try(w, s, []byte(hdr+" "+a+t+b+t+hdr+t+b+t+a+t), feed{}, feed{Each: 1})
				g.try(w, s, []byte(a+t+b+t+"<2>1 - "+a+" - - - [i n=\"v\"] "+b+t+a+b+t), feed{}, feed{Each: 5})
			}
		}
	})
	// sizes of the lines around the reader's buffer, and histories of sizes which move the parser's window
	var sizes []int
	for L := 1; L <= c.pick(130, 600); L++ {
		sizes = append(sizes, L)
	}
	for _, m := range []int{512, 1024, 2048, 4096, 8192, 12288} {
		for d := -c.pick(3, 20); d <= c.pick(3, 20); d++ {
			sizes = append(sizes, m+d)
		}
	}
	c.parallel(len(sizes), func(w *worker, i int) {
		L := sizes[i]
		for _, nul := range modes() {
			s := scfg{NUL: nul, Best: i%2 == 0}
			t := string([]byte{s.trailer()})
			for _, other := range []int{1, 16, 40, L, 4095} {
				a, b := sized(L), sized(other)
				for _, st := range []string{a + t + b + t + a + t, b + t + b + t + a + t + b + t, a + t + "c" + b + t + a + t + "d" + a + t + b + t, t + t + a + t + t + b + t} {
					fs := []feed{{}, {Each: 1000}, {Each: 4096}, {Each: 4095, WithErr: true}, {Plan: []int{L}}, {Plan: []int{L + 1}}, {Plan: []int{L + 2, 1}}, {Plan: []int{4096, 1, 0, 1}, Each: 4097}}
					fs = append(fs, kindFeeds()...)
					if len(st) < 1000 {
						fs = append(fs, feed{Each: 1})
					}
					g.try(w, s, []byte(st), fs...)
				}
			}
		}
	})
	// all sequences of line sizes: the window logic depends on the ratio of the sizes
	sz := []int{0, 1, 15, 16, 20, 47, 80}
	dd := c.pick(5, 6)
	tot := seqCount(len(sz), dd)
	c.parallel(tot, func(w *worker, i int) {
		sq := seqAt(len(sz), i)
		var d []byte
		s := scfg{NUL: i%2 == 0, Best: i%3 == 0}
		for _, x := range sq {
			d = append(d, sized(sz[x])...)
			d = append(d, s.trailer())
		}
		g.try(w, s, d, feed{}, feed{Each: 11})
	})
	c.note("line_size_sequences", tot)
	// messages of many lines
	c.parallel(c.pick(300, 1200), func(w *worker, n int) {
		for _, nul := range modes() {
			s := scfg{NUL: nul, Best: n%2 == 0}
			t := string([]byte{s.trailer()})
			for _, l := range []string{"", "x", "more text"} {
				m := hdr + " " + strings.Repeat(l+t, n)
				g.try(w, s, []byte(m+t+hdr+t+m+t), feed{}, feed{Each: 16}, feed{Each: 4096})
				g.try(w, s, []byte(strings.Repeat(l+t, n)+hdr+t+strings.Repeat(hdr+t, n)), feed{}, feed{Each: 7})
			}
		}
	})
	// more lines than a small counter can hold
	c.parallel(4, func(w *worker, i int) {
		s := scfg{NUL: i%2 == 0, Best: i/2 == 0}
		var d []byte
		for j := 0; j < c.pick(300000, 1200000); j++ {
			d = append(d, []string{hdr, "<2>1 - h - - - - t", "more", "<3>1 - - a - - [b]"}[(j+j/3)%4]...)
			d = append(d, s.trailer())
		}
		g.try(w, s, d, feed{Each: []int{0, 4095}[i/2]})
	})
	// long streams
	c.parallel(c.pick(60, 600), func(w *worker, i int) {
		s := scfg{NUL: i%2 == 0, Best: i%3 == 0}
		var d []byte
		for j := 0; j < 400; j++ {
			if (j+i)%5 == 4 {
				d = append(d, "more"...)
			} else {
				d = append(d, sized((j*(i+1)+i)%(7*(i+3)))...)
			}
			d = append(d, s.trailer())
		}
		g.try(w, s, d, feed{}, feed{Each: 1}, feed{Each: 13}, feed{Each: 4096}, feed{Each: 4095, WithErr: true})
	})
}

func checkP17(c *Ctx) {
	g := c.newStreamGen()
	g.interrupted(c)
	g.bigLines(c, true)
	g.oddEnds(c, false)
	g.finish()
	c.note("what", "non-transparent streams cut, or failing, at every point; all results compared with the reference framer, the text of the interruption error is left free")
	c.assume("a reader that has failed keeps failing; a failure exactly between two lines may or may not be reported (unspecified)")
}

func (g *streamGen) interrupted(c *Ctx) {
	errs := []string{"", "boom", "unexpected EOF", "EOF"}
	k := len(ntLines)
	depth := c.pick(3, 4)
	c.parallel(seqCount(k, depth), func(w *worker, i int) {
		sq := seqAt(k, i)
		for _, nul := range modes() {
			d := ntStream(sq, nul)
			// cuts within the last line; the others are those of shorter sequences
			from := 0
			if len(sq) > 0 {
				from = len(ntStream(sq[:len(sq)-1], nul))
			}
			for cut := from; cut <= len(d); cut++ {
				for _, best := range modes() {
					s := scfg{NUL: nul, Best: best}
					var fs []feed
					if len(sq) <= 2 {
						fs = append(fs, kindFeeds()...)
					}
					for _, e := range errs {
						fs = append(fs, feed{Err: e}, feed{Err: e, WithErr: true}, feed{Err: e, Each: 1}, feed{Err: e, Each: 1, WithErr: true}, feed{Err: e, Each: 6})
						if len(sq) <= c.pick(1, 2) {
							for _, f := range singleSplits(cut) {
								f.Err = e
								fs = append(fs, f)
								f.WithErr = true
								fs = append(fs, f)
							}
						}
						if len(sq) == 1 && c.thorough() {
							for _, f := range doubleSplits(cut) {
								f.Err = e
								fs = append(fs, f)
							}
						}
					}
					g.try(w, s, d[:cut], fs...)
				}
			}
		}
	})
	// every string over a small alphabet
	alpha := []byte{'<', '1', '>', ' ', '\n', 0, '-'}
	nl := c.pick(6, 7)
	total := seqCount(len(alpha), nl)
	c.parallel((total+1023)/1024, func(w *worker, j int) {
		for i := j * 1024; i < (j+1)*1024 && i < total; i++ {
			sq := seqAt(len(alpha), i)
			d := make([]byte, len(sq))
			for k, a := range sq {
				d[k] = alpha[a]
			}
			for _, nul := range modes() {
				for _, best := range modes() {
					g.try(w, scfg{NUL: nul, Best: best}, d, feed{}, feed{Each: 1, WithErr: true}, feed{Err: "boom"}, feed{Err: "boom", Each: 1, WithErr: true})
				}
			}
		}
	})
	c.note("all_strings", fmt.Sprintf("%d strings of up to %d bytes over %q", total, nl, alpha))
	// every byte at the end of the stream
	c.parallel(256, func(w *worker, b int) {
		x := string([]byte{byte(b)})
		for _, nul := range modes() {
			for _, best := range modes() {
				s := scfg{NUL: nul, Best: best}
				t := string([]byte{s.trailer()})
				for _, st := range []string{x, hdr + x, hdr + t + x, hdr + " a" + t + "b" + x, hdr + t + "<" + x, hdr + t + hdr + " " + x, hdr + t + x + hdr, x + x} {
					for _, e := range errs {
						g.try(w, s, []byte(st), feed{Err: e}, feed{Err: e, Each: 1}, feed{Err: e, WithErr: true}, feed{Err: e, Each: 4096})
					}
				}
			}
		}
	})
	// failures of all kinds, at every point
	names := errorNames()
	c.parallel(len(names)*2, func(w *worker, i int) {
		s := scfg{NUL: i%2 == 0}
		e := names[i/2]
		t := string([]byte{s.trailer()})
		st := []byte(hdr + " one" + t + "more" + t + "<2>1 - h - - - [a b=\"c\"] two" + t + sized(60))
		for cut := 0; cut <= len(st); cut++ {
			for _, best := range modes() {
				s.Best = best
				g.try(w, s, st[:cut], feed{Err: e}, feed{Err: e, WithErr: true}, feed{Err: e, Each: 1}, feed{Err: e, Each: 5, WithErr: true})
			}
		}
	})
	c.note("kinds_of_failures", len(names))
	// cut after any number of lines
	ns := counts(c)
	ends := []string{"", "x", "<", hdr + " cut", "<1>1 - ho", "<8>1 - - - - - [a b=\"c"}
	c.parallel(len(ns)*len(ends), func(w *worker, i int) {
		n, end := ns[i/len(ends)], ends[i%len(ends)]
		for _, best := range modes() {
			for _, pre := range modes() {
				s := scfg{NUL: n%2 == 0, Best: best}
				var d []byte
				for j := 0; j < n; j++ {
					l := []string{hdr, "<2>1 - h - - - - t", "more", "<3>1 - - a - - [b]"}[(j+j/3)%4]
					if pre && j > 0 {
						l = "more" // all of them lines of one message
					}
					d = append(append(d, l...), s.trailer())
				}
				d = append(d, end...)
				g.try(w, s, d, feed{}, feed{Each: 4096, Err: "boom"})
			}
		}
	})
	c.note("lines_before_the_end", fmt.Sprintf("%d numbers up to %d, %d incomplete lines", len(ns), ns[len(ns)-1], len(ends)))
	// large lines cut around the buffer sizes
	var sizes []int
	for _, m := range []int{4096, 8192} {
		for d := -c.pick(3, 20); d <= c.pick(3, 20); d++ {
			sizes = append(sizes, m+d)
		}
	}
	for L := 1; L < c.pick(130, 600); L++ {
		sizes = append(sizes, L)
	}
	c.parallel(len(sizes), func(w *worker, i int) {
		L := sizes[i]
		for _, nul := range modes() {
			for _, best := range modes() {
				s := scfg{NUL: nul, Best: best}
				t := string([]byte{s.trailer()})
				for _, pre := range []string{"", hdr + t, hdr + t + "x" + t, "junk" + t, hdr + t + sized(L) + t, sized(L) + t + "y" + t + t} {
					g.try(w, s, []byte(pre+sized(L)), kindFeeds()...)
					for _, e := range errs[:2] {
						g.try(w, s, []byte(pre+sized(L)), feed{Err: e}, feed{Err: e, Each: 4096}, feed{Err: e, WithErr: true}, feed{Err: e, Each: 1000, WithErr: true}, feed{Err: e, Plan: []int{len(pre)}})
					}
				}
			}
		}
	})
}

// legs ending in every possible way
func octLegs() []leg {
	var ls []leg
	add := func(f feed, d string) { ls = append(ls, leg{Data: B(d), Feed: f}) }
	add(feed{}, "")
	add(feed{}, frame(hdr))
	add(feed{}, frame(hdr+" first")+frame("<2>1 - host - - - [a b=\"c\"] second"))
	add(feed{}, frame(hdr)+frame("<1>1 - bad")+frame("<3>1 - - - - - - after"))
	add(feed{}, frame(hdr)+"20 <4>1 - trunc")
	add(feed{}, frame(hdr)+"20 ")
	add(feed{}, "16")
	add(feed{}, "16 ")
	add(feed{}, frame(hdr)+"x")
	add(feed{}, frame(hdr)+"5")
	add(feed{}, "9999 <1>1 - - - - - - long")
	add(feed{}, "5x"+frame(hdr))
	add(feed{}, "5 x"+frame(hdr))
	add(feed{Err: "boom"}, frame(hdr)+"30 <5>1 - - - - - - failing")
	add(feed{Err: "boom"}, frame(hdr))
	add(feed{Each: 1}, frame("<6>1 2018-10-11T22:14:15.003Z - - - - [id a=\"1\"][ie] bytewise")+frame(hdr))
	add(feed{}, frame(sized(64))+frame(sized(64)))
	add(feed{}, " "+hdr)
	add(feed{}, hdr)
	return ls
}

func ntLegs(nul bool) []leg {
	var ls []leg
	t := string([]byte{scfg{NUL: nul}.trailer()})
	add := func(f feed, d string) {
		ls = append(ls, leg{Data: B(strings.ReplaceAll(d, "T", t)), Feed: f})
	}
	add(feed{}, "")
	add(feed{}, hdr+" oneT")
	add(feed{}, hdr+" oneT<2>1 - host - - - [a b=\"c\"] secondT")
	add(feed{}, hdr+" oneTtwoTthreeT<3>1 - - - - - - nextT")
	add(feed{}, hdr+" oneT<2>1 - - - - - - unterminated")
	add(feed{}, hdr+" unterminated")
	add(feed{}, hdr+" oneTtwo")
	add(feed{}, "junkT")
	add(feed{}, "junk")
	add(feed{}, "T")
	add(feed{}, "<1>1 - badT<4>1 - - - - - - goodT")
	add(feed{Err: "boom"}, hdr+" oneT<5>1 - - - - - - failing")
	add(feed{Err: "boom"}, hdr+" oneT")
	add(feed{Err: "boom"}, "")
	add(feed{Each: 1}, "<6>1 2018-10-11T22:14:15.003Z - - - - [id a=\"1\"][ie] bytewiseT"+hdr+"T")
	add(feed{}, sized(64)+"T"+sized(64)+"T")
	add(feed{}, "<")
	return ls
}

// mishaps are streams whose listener or reader panics, at all the places there are.
func mishaps(s scfg) []leg {
	wrap := func(m string) string {
		if s.Octet {
			return frame(m)
		}
		return m + string([]byte{s.trailer()})
	}
	full := wrap(hdr+" one") + wrap("<2>1 - - - - - [a b=\"c\"] two") + wrap("<1>1 - bad") + wrap("<3>1 - - - - - - three")
	cut := wrap(hdr+" one") + wrap("<2>1 - - - - - - two")
	cut = cut[:len(cut)-3]
	return []leg{
		{Data: B(full), Panic: 1},
		{Data: B(full), Panic: 2, Feed: feed{Each: 7}},
		{Data: B(full), Panic: 3},
		{Data: B(cut), Panic: 2},
		{Data: B(full), Feed: feed{Err: readerPanics}},
		{Data: B(cut), Feed: feed{Err: readerPanics, Each: 1}},
		{Data: B("1"), Feed: feed{Err: readerPanics}},
		{Feed: feed{Err: readerPanics}},
	}
}

func checkP18(c *Ctx) {
	var total int64
	for _, best := range modes() {
		for kind := 0; kind < 4; kind++ {
			s := scfg{Best: best}
			var ls []leg
			switch kind {
			case 0:
				s.Octet = true
				ls = octLegs()
			case 1:
				ls = ntLegs(false)
			case 2:
				s.NUL = true
				ls = ntLegs(true)
			case 3:
				s.Octet = true
				s.Max = intp(64)
				ls = octLegs()
			}
			ls = append(ls, mishaps(s)...)
			for i := range ls {
				ls[i].exp = freshStream(s, ls[i])
				if ls[i].exp == nil {
					ls[i].exp = []string{}
				}
				c.outcome(fmt.Sprintf("%+v %q", s, ls[i].exp))
			}
			// all sequences of streams
			k := len(ls)
			depth := c.pick(3, 4)
			n := seqCount(k, depth)
			c.parallel(n, func(w *worker, i int) {
				sq := seqAt(k, i)
				r := &reuse{S: s, Same: i%2 == 0 && len(sq) > 1}
				for _, x := range sq {
					r.Legs = append(r.Legs, ls[x])
				}
				atomic.AddInt64(&total, int64(len(sq)))
				w.do(r)
				if len(sq) == 2 {
					w.do(&reuse{S: s, Legs: r.Legs, Same: !r.Same})
				}
			})
			c.addStates(n)
			// one long life: every sequence of two (three) streams, on the same instance, repeated
			d := deBruijn(k, c.pick(2, 3))
			rounds := c.pick(8, 4)
			c.serial(func(w *worker) {
				r := &reuse{S: s, Long: true}
				for j := 0; j < rounds; j++ {
					for _, x := range d {
						r.Legs = append(r.Legs, ls[x])
					}
				}
				atomic.AddInt64(&total, int64(len(r.Legs)))
				w.do(r)
			})
		}
	}
	// more streams than a small counter can hold
	for k, s := range []scfg{{Octet: true, Max: intp(64), Best: true}, {}, {NUL: true, Best: true}} {
		s, k := s, k
		c.serial(func(w *worker) { w.do(&manyStreams{S: s, N: c.pick(70000, 300000) + k}) })
	}
	// every stream of a few significant bytes, alone and after a message, before other streams
	oct := []byte("0129 <>a\n\x00/:")
	nt := []byte("<1> \n\x00-a")
	for kind := 0; kind < 3; kind++ {
		s := scfg{Octet: kind == 0, NUL: kind == 2}
		alpha, first := nt, hdr+" one"+string([]byte{s.trailer()})
		if s.Octet {
			s.Max = intp(64)
			alpha, first = oct, frame(hdr+" one")
		}
		all := s.legs()
		next := []leg{all[len(all)-2], all[3], all[1]}
		n := seqCount(len(alpha), c.pick(4, 5))
		c.addStates(n)
		c.parallel(n, func(w *worker, i int) {
			var d []byte
			for _, x := range seqAt(len(alpha), i) {
				d = append(d, alpha[x])
			}
			s := s
			s.Best = i%2 == 0
			l := leg{Data: cat([]byte(first), d)}
			w.do(&reuse{S: s, Legs: []leg{{Data: d}, next[i%3], next[(i+1)%3]}})
			w.do(&reuse{S: s, Legs: []leg{l, next[i%3], next[(i+1)%3]}, Same: true})
			if i%4 == 0 {
				l.Feed.Err = "boom"
				s.Best = !s.Best
				w.do(&reuse{S: s, Legs: []leg{l, {Data: d, Feed: l.Feed}, next[i%3]}})
			}
			atomic.AddInt64(&total, 6)
		})
		// every byte after beginnings of all kinds
		c.parallel(256*len(all), func(w *worker, i int) {
			l := all[i/256]
			l.Data, l.exp = cat(l.Data, []byte{byte(i % 256)}), nil
			for _, best := range modes() {
				s := s
				s.Best = best
				w.do(&reuse{S: s, Legs: []leg{l, next[i%3], next[(i+1)%3]}})
			}
			atomic.AddInt64(&total, 6)
		})
	}
	// streams which fail in different ways, with more or less of a message pending: all pairs
	fails := append(errorNames(), "", "boom", "EOF", "boom2")
	tails := []int{0, 1, 17, 30, 64, 200, 2000}
	for kind := 0; kind < 3; kind++ {
		for _, best := range modes() {
			s := scfg{Octet: kind == 0, NUL: kind == 2, Best: best}
			var ls []leg
			for i, e := range fails {
				for j, n := range tails {
					if i < len(fails)-4 && j%3 != i%3 && !c.thorough() {
						continue
					}
					var d string
					if s.Octet {
						d = frame(hdr+" one") + fmt.Sprintf("%d ", n+20) + sized(n)[:n]
					} else {
						t := string([]byte{s.trailer()})
						d = hdr + " one" + t + sized(n)[:n]
						if n%2 == 0 {
							d = hdr + " one" + t + hdr + t + sized(n)[:n]
						}
					}
					l := leg{Data: B(d), Feed: feed{Err: e, WithErr: (i+j)%2 == 0}}
					l.exp = freshStream(s, l)
					if l.exp == nil {
						l.exp = []string{}
					}
					ls = append(ls, l)
				}
			}
			k := len(ls)
			c.addStates(k * k)
			c.parallel(k*k, func(w *worker, i int) {
				w.do(&reuse{S: s, Legs: []leg{ls[i/k], ls[i%k]}, Same: i%2 == 0})
				w.do(&reuse{S: s, Legs: []leg{ls[i/k], ls[i%k], ls[i/k], ls[(i*7+3)%k]}})
				atomic.AddInt64(&total, 6)
			})
		}
	}
	// messages of all sizes, all kept
	var sizes []int
	for L := 1; L <= c.pick(300, 1200); L++ {
		sizes = append(sizes, L)
	}
	for _, m := range []int{512, 1000, 1024, 2000, 2048, 3000, 4096, 5000, 8190} {
		for d := -c.pick(2, 20); d <= 2; d++ {
			sizes = append(sizes, m+d)
		}
	}
	c.parallel(len(sizes), func(w *worker, i int) {
		L := sizes[i]
		for kind := 0; kind < 3; kind++ {
			for _, best := range modes() {
				s := scfg{Octet: kind == 0, NUL: kind == 2, Best: best}
				wrap := func(m string) string {
					if s.Octet {
						return frame(m)
					}
					return m + string([]byte{s.trailer()})
				}
				val := func(pri string, b byte) string { // a message with a long text, one with a long value, of other bytes
					return "<" + pri + ">1 - h - - - [i n=\"" + string(rep(b, L/2)) + "\\]\" m=\"v\"] " + string(rep(b+1, L))
				}
				ms := []string{wrap(sized(L)) + wrap("<2>1 - - - - - - "+string(rep('#', L))) + wrap("<3>1 - - - - - - "+string(rep('+', L/2))), wrap(val("4", 'a')) + wrap(val("5", 'k')) + wrap("<6>1 - bad"+string(rep('!', L))) + wrap(val("7", 'p')), wrap(sized(L+7)) + wrap(hdr)}
				var ls []leg
				for _, m := range ms {
					ls = append(ls, leg{Data: B(m)}, leg{Data: B(m), Feed: feed{Each: L}})
				}
				w.do(&reuse{S: s, Legs: ls})
				ls = append(ls[2:], ls[:2]...)
				w.do(&reuse{S: s, Legs: ls[:4], Same: true})
				atomic.AddInt64(&total, 10)
			}
		}
	})
	// another listener, another maximum, from one stream to the next
	for kind := 0; kind < 3; kind++ {
		s := scfg{Octet: kind == 0, NUL: kind == 2}
		ls := ntLegs(s.NUL)
		if s.Octet {
			ls = octLegs()
		}
		k := len(ls)
		c.parallel(k*k, func(w *worker, i int) {
			for _, best := range modes() {
				s.Best = best
				w.do(&retuned{S: s, Legs: []leg{ls[i/k], ls[i%k], ls[i/k]}, Maxs: []int{64, 8192, 16}})
				w.do(&retuned{S: s, Legs: []leg{ls[i/k], ls[i%k], ls[i/k]}, Maxs: []int{20, 20, 4000}})
			}
		})
	}
	c.addTransitions(int(total))
	c.note("what", "every sequence of streams up to the depth, on one parser instance, each compared with a new instance; all results retained and compared again after every stream, after the reader's buffers have been overwritten, and after other results have been changed")
	c.note("stream_endings", map[string]int{"octet": len(octLegs()), "non_transparent": len(ntLegs(false))})
	c.assume("states = histories of streams, transitions = streams parsed")
}

// manyStreams gives N short streams to one parser.
type manyStreams struct {
	S scfg
	N int
}

func (m *manyStreams) Kind() string { return "manyStreams" }

func (m *manyStreams) Run() string {
	ls := m.S.legs()
	var exp []string
	for _, l := range ls {
		exp = append(exp, fmt.Sprintf("%q", freshStream(m.S, l)))
	}
	got := []string{}
	p := m.S.new(func(r *syslog.Result) { got = append(got, outcomeOf(r.Message, r.Error)) })
	for i := 0; i < m.N; i++ {
		k := (i*5 + i/len(ls)) % len(ls)
		got = got[:0]
		p.Parse(&planReader{data: append([]byte{}, ls[k].Data...), f: ls[k].Feed})
		if g := fmt.Sprintf("%q", got); g != exp[k] && !(len(got) == 0 && exp[k] == "[]") {
			return fmt.Sprintf("stream number %d: a new parser gives %s, this one %s", i, exp[k], g)
		}
	}
	return ""
}

// retuned: the listener and the maximum are set again before each stream, with the methods of the parser.
type retuned struct {
	S    scfg
	Legs []leg
	Maxs []int
}

func (m *retuned) Kind() string { return "retuned" }

func (m *retuned) Run() string {
	outs := make([][]string, len(m.Legs))
	kept := make([][]*syslog.Result, len(m.Legs))
	p := m.S.new(func(*syslog.Result) {})
	for i, l := range m.Legs {
		i := i
		p.WithMaxMessageLength(m.Maxs[i])
		p.WithListener(func(r *syslog.Result) {
			outs[i] = append(outs[i], outcomeOf(r.Message, r.Error))
			kept[i] = append(kept[i], r)
		})
		p.Parse(&planReader{data: append([]byte{}, l.Data...), f: l.Feed})
		s := m.S
		s.Max = &m.Maxs[i]
		for k := range m.Legs[:i+1] {
			s.Max = &m.Maxs[k]
			want := freshStream(s, m.Legs[k])
			if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", append([]string(nil), outs[k]...)) {
				return fmt.Sprintf("streams with other listeners and maxima (%v): a new parser gives %q for stream %d, this one %q (after stream %d)", m.Maxs, want, k, outs[k], i)
			}
			for j, r := range kept[k] {
				if outcomeOf(r.Message, r.Error) != outs[k][j] {
					return fmt.Sprintf("result %d of stream %d has changed after stream %d", j, k, i)
				}
			}
		}
	}
	return ""
}

func init() {
	replayers["manyStreams"] = func(b json.RawMessage) (Scenario, error) {
		s := &manyStreams{}
		return s, json.Unmarshal(b, s)
	}
	replayers["retuned"] = func(b json.RawMessage) (Scenario, error) {
		s := &retuned{}
		return s, json.Unmarshal(b, s)
	}
}

// deBruijn is a cyclic sequence over k letters that contains every word of length n.
func deBruijn(k, n int) []int {
	a := make([]int, k*n)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return seq
}

func checkP19(c *Ctx) {
	g := c.newStreamGen()
	g.bigFrames(c, false)
	g.bigLines(c, false)
	// octet counting
	k := len(octMsgs)
	depth := c.pick(3, 4)
	c.parallel(seqCount(k, depth), func(w *worker, i int) {
		sq := seqAt(k, i)
		var data []byte
		for _, m := range sq {
			data = append(data, frame(octMsgs[m])...)
		}
		for _, best := range modes() {
			s := scfg{Octet: true, Best: best}
			fs := []feed{{}, {Each: 1}, {WithErr: true}}
			if len(sq) <= 2 {
				fs = append(fs, singleSplits(len(data))...)
			}
			if len(sq) == 1 {
				fs = append(fs, doubleSplits(len(data))...)
			}
			g.try(w, s, data, fs...)
			if len(sq) <= 2 {
				for _, tail := range []string{"x", "5", "5 ", "50 <1>1 - - -", "99999 "} {
					g.try(w, s, cat(data, []byte(tail)), feed{}, feed{Each: 1}, feed{Plan: []int{len(data)}}, feed{Err: "boom"}, feed{Plan: []int{len(data)}, Err: "boom"})
				}
			}
		}
	})
	// sizes and maxima
	c.parallel(c.pick(300, 1200), func(w *worker, i int) {
		L := i + 1
		st := []byte(frame(sized(L)) + frame(sized(L)) + frame(hdr))
		one := len(frame(sized(L)))
		for _, best := range modes() {
			for _, m := range []*int{nil, intp(L), intp(L + 1), intp(16 + L)} {
				if m != nil && *m < 16 {
					m = intp(16)
				}
				g.try(w, scfg{Octet: true, Best: best, Max: m}, st, feed{}, feed{Each: 1}, feed{Each: one}, feed{Plan: []int{one, one}}, feed{Plan: []int{one + 1}}, feed{Plan: []int{one, 0, 0, 1}}, feed{Each: 16})
			}
		}
	})
	c.parallel(20, func(w *worker, i int) {
		L := 8192 - i
		st := []byte(frame(sized(L)) + frame(sized(L)) + frame(hdr))
		one := len(frame(sized(L)))
		for _, best := range modes() {
			for _, m := range []*int{nil, intp(L), intp(L + 1)} {
				if m != nil && *m < L {
					continue
				}
				g.try(w, scfg{Octet: true, Best: best, Max: m}, st, feed{}, feed{Each: 1000}, feed{Each: one}, feed{Plan: []int{one, one}}, feed{Plan: []int{one + 1}}, feed{Each: 8212}, feed{Each: 8213})
			}
		}
	})
	// non-transparent
	nl := len(ntLines)
	depth = c.pick(3, 4)
	c.parallel(seqCount(nl, depth), func(w *worker, i int) {
		sq := seqAt(nl, i)
		for _, nul := range modes() {
			d := ntStream(sq, nul)
			for _, best := range modes() {
				s := scfg{NUL: nul, Best: best}
				fs := []feed{{}, {Each: 1}, {WithErr: true}}
				if len(sq) <= 2 {
					fs = append(fs, singleSplits(len(d))...)
				}
				if len(sq) == 1 {
					fs = append(fs, doubleSplits(len(d))...)
				}
				g.try(w, s, d, fs...)
				if len(sq) <= 2 {
					g.try(w, s, cat(d, []byte("<9>1 - tail")), feed{}, feed{Each: 1}, feed{Plan: []int{len(d)}}, feed{Err: "boom"}, feed{Plan: []int{len(d)}, Err: "boom"})
				}
			}
		}
	})
	var sizes []int
	for L := 1; L <= c.pick(130, 600); L++ {
		sizes = append(sizes, L)
	}
	for d := -3; d <= 3; d++ {
		sizes = append(sizes, 4096+d, 8192+d)
	}
	c.parallel(len(sizes), func(w *worker, i int) {
		L := sizes[i]
		for _, nul := range modes() {
			for _, best := range modes() {
				s := scfg{NUL: nul, Best: best}
				t := string([]byte{s.trailer()})
				st := []byte(sized(L) + t + sized(L) + t + "more" + t + sized(L) + t + hdr + t)
				fs := []feed{{}, {Each: L + 1}, {Each: 4096}, {Plan: []int{L + 1, L + 1, 0, 5}}, {Plan: []int{2*L + 3}}}
				if L < 700 {
					fs = append(fs, feed{Each: 1})
				}
				g.try(w, s, st, fs...)
			}
		}
	})
	// long streams: late deliveries may need a history
	c.parallel(c.pick(40, 300), func(w *worker, i int) {
		s := scfg{NUL: i%2 == 0, Best: i%3 == 0, Octet: i%4 < 2}
		var d []byte
		for j := 0; j < 200; j++ {
			m := sized(16 + (j*(i+1)+i)%(7*(i+3)))
			if s.Octet {
				d = append(d, frame(m)...)
			} else {
				d = append(append(d, m...), s.trailer())
			}
		}
		g.try(w, s, d, feed{}, feed{Each: 1}, feed{Each: 13}, feed{Each: 4096})
	})
	// thousands of deliveries: many messages of the same kind in a row, or of all kinds
	longs := []int{1500, 5000, c.pick(20000, 100000)}
	c.parallel(len(longs)*8*4, func(w *worker, i int) {
		n, k, m := longs[i/32], i/4%8, i%4
		s := scfg{NUL: k == 2 || k == 5, Best: k >= 3, Octet: k == 0 || k == 3 || k == 6}
		kinds := []string{hdr, "<9>1 - h - - - [i n=\"v\"] text", "<2>1 - bad", "junk"}
		if m == 2 && !s.Best && s.Octet {
			return // the first bad message ends it
		}
		var d []byte
		for j := 0; j < n; j++ {
			x := kinds[m%2]
			if m == 2 {
				x = kinds[2]
			} else if m == 3 && (s.Best || !s.Octet) {
				x = kinds[j%3]
			}
			if k >= 6 {
				x = sized(16 + j*7%50)
			}
			if s.Octet {
				d = append(d, frame(x)...)
			} else {
				d = append(append(d, x...), s.trailer())
			}
		}
		g.try(w, s, d, feed{Each: 4096}, feed{Each: 1000}, feed{Each: 37, WithErr: true}, feed{Each: 500, Err: "boom"})
	})
	g.finish()
	c.note("what", "at every read call, the results known from the bytes supplied so far must have been delivered; deliveries must happen in the calling goroutine, one at a time, and none after the parser has returned")
}
