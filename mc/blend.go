package main

import (
	"fmt"
	"strings"
)

// blends: several things that are unusual together: names that repeat with values of all shapes, long names with
// values of many escapes, odd bytes within long contents of every field, features together with sizes.

var blendValues = []string{"", "x", "-", "0123456789", "\\]", "a\\\"b\\\\", "\xc3\xa9", strings.Repeat("v", 40), strings.Repeat("\\\\", 70), strings.Repeat("w", 300)}

// repeats5: parameters whose name repeats, within an element and in another one.
func repeats5(c *Ctx, run func(w *worker, in []byte)) {
	k := len(blendValues)
	c.parallel(k*k, func(w *worker, i int) {
		a, b := blendValues[i/k], blendValues[i%k]
		for _, n := range []string{"n", "i", strings.Repeat("n", 32)} {
			p := func(v string) string { return " " + n + "=\"" + v + "\"" }
			for _, d := range blendValues {
				for _, st := range []string{"[i" + p(a) + p(b) + p(d) + "]", "[i" + p(a) + p(b) + " m=\"" + d + "\"]", "[i" + p(a) + " m=\"" + d + "\"" + p(b) + "]", "[i" + p(a) + p(b) + "][j" + p(d) + "]", "[i m=\"" + d + "\"" + p(a) + "][j" + p(b) + p(a) + "]"} {
					run(w, []byte(pre5+st))
					run(w, []byte(pre5+st+" t"))
					run(w, []byte(pre5+st[:len(st)-1]))
					run(w, []byte(pre5+st[:len(st)-2]+"\""))
					run(w, []byte(pre5+st+"["))
				}
			}
		}
	})
}

var blendUnits = []string{"\\\\", "\\]", "\\\"", "a", "\xc3\xa9", "\xf0\x9f\x98\x80", "\\\"a", "]"}
var blendCounts = []int{0, 1, 3, 5, 21, 33, 65, 129, 257}

// names5: ids and names of several lengths with values made of many parts.
func names5(c *Ctx, run func(w *worker, in []byte)) {
	lens := []int{1, 2, 20, 31, 32}
	c.parallel(len(lens)*len(lens), func(w *worker, i int) {
		id, n := strings.Repeat("i", lens[i/len(lens)]), strings.Repeat("n", lens[i%len(lens)])
		for _, u := range blendUnits {
			for _, k := range blendCounts {
				p := " " + n + "=\"" + strings.Repeat(u, k) + "\""
				run(w, []byte(pre5+"["+id+p+"] t"))
				run(w, []byte(pre5+"[a]["+id+" m=\"\\]\""+p+" o=\"x\"] t"))
				run(w, []byte(pre5+"["+id+" m=\"x\""+p+p[:len(p)-1]))
				run(w, []byte(pre5+"["+id+p+"][z m=\"\\\\\"]"))
			}
		}
	})
}

// odd5: every byte within header fields of several lengths.
func odd5(c *Ctx, run func(w *worker, in []byte)) {
	ps := longPieces()
	max := []int{255, 48, 128, 32, 32, 32}
	c.parallel(len(ps), func(w *worker, i int) {
		for f, m := range max {
			for _, n := range []int{3, m / 3, m / 2, m - 6, m - 2, m - 1, m} {
				for _, b := range around(ps[i], n) {
					x := []string{"h", "a", "p", "m", "i", "n"}
					x[f] = string(b)
					run(w, []byte("<1>1 - "+strings.Join(x[:4], " ")+" ["+x[4]+" "+x[5]+"=\"v\"] t"))
				}
			}
		}
	})
}

// odd3: the same for the host name, the tag and the process id.
func odd3(c *Ctx, run func(w *worker, in []byte)) {
	ps := longPieces()
	c.parallel(len(ps), func(w *worker, i int) {
		for f, m := range []int{255, 32, 128} {
			for _, n := range []int{3, m / 3, m / 2, m - 6, m - 2, m - 1, m} {
				for _, b := range around(ps[i], n) {
					x := []string{"h", "t", "1"}
					x[f] = string(b)
					run(w, []byte("<1>Jan  1 00:00:00 "+x[0]+" "+x[1]+"["+x[2]+"]: m"))
					run(w, []byte("<1>Jan  1 00:00:00 "+x[0]+" "+x[1]+": "+x[2]))
				}
			}
		}
	})
}

// blendSetters: the same for the setters.
func blendSetters(c *Ctx, view string) {
	pre := []op{num("pri", 1), num("ver", 1)}
	do := func(w *worker, ops ...op) {
		w.do(&build{View: view, Ops: append(pre[:2:2], ops...)})
	}
	words := []string{"a", "b", "ab", "i", "1"}
	c.parallel(len(words)*len(words), func(w *worker, i int) { // names and values that are equal to others, in elements of several sizes
		id, n := words[i/len(words)], words[i%len(words)]
		for _, v := range words {
			for k := 0; k < 9; k++ {
				var ops []op
				for j := 0; j < k; j++ {
					ops = append(ops, par(id, fmt.Sprintf("p%d", j), fmt.Sprintf("p%d", (j+k)%5)))
				}
				ops = append(ops, par(id, n, v), par(v, n, id), par(n, n, n))
				do(w, ops...)
				do(w, append(ops, s1("text", v), par(id, n, ""), par(id, n, "\""))...)
			}
		}
	})
	lens := []int{1, 2, 20, 31, 32}
	c.parallel(len(lens)*len(lens), func(w *worker, i int) {
		id, n := strings.Repeat("i", lens[i/len(lens)]), strings.Repeat("n", lens[i%len(lens)])
		for _, u := range blendUnits {
			for _, k := range blendCounts {
				v := strings.Repeat(u, k)
				do(w, par(id, n, v))
				do(w, par(id, "m", "x"), par(id, n, "y"), par(id, n, v), par(id, n, "x"+v))
				w.do(&build{View: view, From: B(full5), Ops: []op{par(id, n, v), par("e0", n, v), par(id, "a", v)}})
			}
		}
	})
	ps := longPieces()
	c.parallel(len(ps), func(w *worker, i int) {
		for _, f := range []struct {
			n   string
			max int
		}{{"host", 255}, {"app", 48}, {"proc", 128}, {"mid", 32}, {"id", 32}} {
			for _, n := range []int{3, f.max / 3, f.max / 2, f.max - 6, f.max - 2, f.max - 1, f.max} {
				for _, b := range around(ps[i], n) {
					do(w, s1(f.n, string(b)))
				}
			}
		}
		for _, n := range longSizes(c) {
			for _, b := range around(ps[i], n) {
				do(w, s1("text", string(b)))
				do(w, par("i", "n", string(b)))
				do(w, s1("host", "h"), par("i", "n", "v"), par("i", "n", string(b)), s1("text", string(b)))
			}
		}
	})
}

// features are inputs that use the parts of the format in different ways, each with texts of several sizes, accepted and
// rejected at the end.
func (p *pcfg) features() (out []B) {
	var heads []string
	if p.Format == 5424 {
		heads = []string{"<1>1 - - - - - - ", "<2>1 2018-10-11T22:14:15.003Z h a p m [i n=\"v\"] ", "<3>12 - - - - - [i n=\"\\]\"][j] ", "<4>1 - " + strings.Repeat("h", 255) + " a - " + strings.Repeat("m", 32) + " - ", "<5>1 - - - - - [i n=\"v\" n=\"w\" o=\"\"] \xef\xbb\xbf"}
	} else {
		heads = []string{"<1>Jan  1 00:00:00 h ", "<2>Feb  2 02:02:02 h t: ", "<3>Mar 13 23:59:59 - t[12]: ", "<4>Jan  1 00:00:00 " + strings.Repeat("h", 255) + " " + strings.Repeat("t", 32) + ": ", "<5>Jan  1 00:00:00 h " + strings.Repeat("t", 32) + "[" + strings.Repeat("9", 64) + "]: ", "<6>Jan  1 00:00:00 h t[12] "}
	}
	for _, h := range heads {
		for _, n := range []int{1, 60, 301, 1100, 5000} {
			for _, end := range []string{"", "\x01"} {
				if end != "" && p.Format == 5424 {
					// only before the text can an RFC 5424 message still be rejected
					out = append(out, B(strings.TrimRight(h, " \xef\xbb\xbf")+"x "+strings.Repeat("y", n)))
					continue
				}
				out = append(out, B(h+strings.Repeat("y", n)+end))
			}
		}
	}
	return
}

// featurePairs: every two of them, by one machine.
func featurePairs(c *Ctx) {
	for _, p := range pcfgs() {
		p := p
		fs := p.features()
		k := len(fs)
		c.addStates(k * k)
		c.parallel(k*k, func(w *worker, i int) {
			w.do(&history{P: p, Inputs: []B{fs[i/k], fs[i%k]}})
			w.do(&history{P: p, Inputs: []B{fs[i%k], fs[i/k], fs[(i+i/k)%k], fs[i/k]}, Same: i%2 == 0})
		})
	}
}

// oddEnds: streams that end, or fail, within a long line or frame with odd bytes at its start, in its middle and at its end.
func (g *streamGen) oddEnds(c *Ctx, octet bool) {
	ps, ns := longPieces(), longSizes(c)
	c.parallel(len(ps)*len(ns), func(w *worker, i int) {
		n := ns[i%len(ns)]
		for _, b := range around(ps[i/len(ns)], n) {
			for _, best := range modes() {
				if octet {
					m := hdr + " " + string(b)
					for _, d := range []string{frame(hdr) + fmt.Sprintf("%d %s", len(m)+1, m), frame(m) + fmt.Sprintf("%d %s", len(m)+9000, m)} {
						s := scfg{Octet: true, Best: best, Max: intp(len(m) + 9000)}
						g.try(w, s, []byte(d), feed{}, feed{Err: "boom", Each: n})
					}
					continue
				}
				for _, nul := range modes() {
					s := scfg{NUL: nul, Best: best}
					t := string([]byte{s.trailer()})
					g.try(w, s, []byte(hdr+" "+string(b)), feed{}, feed{Err: "boom", Each: n})
					g.try(w, s, []byte(hdr+t+string(b)+t+hdr+" x"+t+string(b)), feed{Each: n}, feed{Err: "boom"})
				}
			}
		}
	})
}

// edges5: multi-byte characters, whole and broken, across every offset that is a power of two of a text or a value.
func edges5(c *Ctx, run func(w *worker, in []byte)) {
	var at []int
	for p := 4; p <= c.pick(17, 22); p++ {
		for d := -8; d <= 3; d++ {
			at = append(at, 1<<uint(p)+d)
		}
	}
	for p := 10000; p <= 60000; p += 10000 {
		for d := -8; d <= 3; d++ {
			at = append(at, p+d)
		}
	}
	us := []string{"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3x", "\xe2\x82x", "\xf0\x9f\x98x", "\xed\xa0\x80", "\xff", "\xef\xbb\xbf", "\\]", "\\x", "\""}
	c.parallel(len(at), func(w *worker, i int) {
		x := rep('x', at[len(at)-1-i])
		for _, u := range us {
			for _, tail := range []string{"", "yz", strings.Repeat("y", 100)} {
				in := cat(x, []byte(u), []byte(tail))
				run(w, cat([]byte(pre5+"- \xef\xbb\xbf"), in))
				if tail == "yz" {
					run(w, cat([]byte(pre5+"- "), in))
					run(w, cat([]byte(pre5+"[i k=\""), in, []byte("\"] \xef\xbb\xbf"), in))
				}
			}
		}
	})
}
