package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/influxdata/go-syslog/v3/common"
)

// helper is one use of the helpers of package common.
type helper struct {
	Do     string // escape, remove, digits, valid
	Value  B      `json:",omitempty"`
	Pos    []int  `json:",omitempty"`
	Offset int    `json:",omitempty"`
	Spare  int    `json:",omitempty"` // capacity beyond the length
	N      int    `json:",omitempty"`
}

func (h *helper) Kind() string { return "helper" }

func (h *helper) Run() string {
	switch h.Do {
	case "escape":
		v := string(h.Value)
		var want []byte
		var pos []int
		for i := 0; i < len(v); i++ {
			if v[i] == '"' || v[i] == '\\' || v[i] == ']' {
				pos = append(pos, len(want)+h.Offset)
				want = append(want, '\\')
			}
			want = append(want, v[i])
		}
		g := common.EscapeBytes(v)
		if g != string(want) {
			return fmt.Sprintf("escaping %q gives %q, expected %q", short(v), short(g), short(string(want)))
		}
		x := helper{Do: "remove", Value: want, Pos: pos, Offset: h.Offset, Spare: h.Spare}
		if d := x.Run(); d != "" {
			return d
		}
		if b := common.RemoveBytes([]byte(g), pos, h.Offset); string(b) != v {
			return fmt.Sprintf("unescaping %q gives %q, expected %q", short(g), short(string(b)), short(v))
		}
	case "remove":
		back := make([]byte, len(h.Value)+h.Spare)
		copy(back, h.Value)
		for i := len(h.Value); i < len(back); i++ {
			back[i] = sentinel
		}
		was := string(back)
		pos := append([]int{}, h.Pos...)
		drop := map[int]bool{}
		for _, p := range h.Pos {
			drop[p-h.Offset] = true
		}
		var want []byte
		for i, b := range h.Value {
			if !drop[i] {
				want = append(want, b)
			}
		}
		g := common.RemoveBytes(back[:len(h.Value)], pos, h.Offset)
		if string(g) != string(want) {
			return fmt.Sprintf("removing the bytes at %v (offset %d) from %q gives %q, expected %q", h.Pos, h.Offset, short(string(h.Value)), short(string(g)), short(string(want)))
		}
		// the result is the caller's, up to its capacity
		full := g[:cap(g)]
		for i := range full {
			full[i] = 0xAA
		}
		if string(back) != was {
			return fmt.Sprintf("removing the bytes at %v (offset %d) from %q, or changing the result, changed the original to %q", h.Pos, h.Offset, short(string(h.Value)), short(string(back)))
		}
		for i := range pos {
			if pos[i] != h.Pos[i] {
				return fmt.Sprintf("removing the bytes at %v changed the positions to %v", h.Pos, pos)
			}
		}
		g2 := common.RemoveBytes(back[:len(h.Value)], pos, h.Offset)
		if string(g2) != string(want) {
			return fmt.Sprintf("removing the bytes at %v (offset %d) from %q again gives %q, expected %q", h.Pos, h.Offset, short(string(h.Value)), short(string(g2)), short(string(want)))
		}
	case "digits":
		was := string(h.Value)
		n, _ := strconv.Atoi(was)
		if g := common.UnsafeUTF8DecimalCodePointsToInt(h.Value); g != n {
			return fmt.Sprintf("the number of %q is %d, expected %d", was, g, n)
		}
		if string(h.Value) != was {
			return fmt.Sprintf("the digits %q have been changed to %q", was, string(h.Value))
		}
	case "valid":
		if h.N <= 255 {
			if g := common.ValidPriority(uint8(h.N)); g != (h.N <= 191) {
				return fmt.Sprintf("validity of priority %d is %v", h.N, g)
			}
		}
		if g := common.ValidVersion(uint16(h.N)); g != (h.N >= 1 && h.N <= 999) {
			return fmt.Sprintf("validity of version %d is %v", h.N, g)
		}
	case "between":
		a, b, c := h.Pos[0], h.Pos[1], h.Pos[2]
		if g := common.InBetween(a, b, c); g != (a >= b && a <= c) {
			return fmt.Sprintf("InBetween(%d, %d, %d) is %v", a, b, c, g)
		}
	}
	return ""
}

func init() {
	replayers["helper"] = func(b json.RawMessage) (Scenario, error) {
		s := &helper{}
		return s, json.Unmarshal(b, s)
	}
	checks["P23"] = check23
}

func check23(c *Ctx) {
	var rem, num int64
	// every string over the bytes that matter
	c.fanout(bs("\"", "\\", "]", "a", "\xc3\xa9", "\xff", "[", "\x00"), c.pick(7, 8), func(w *worker, s []byte) {
		w.do(&helper{Do: "escape", Value: s, Offset: len(s) % 3, Spare: len(s) % 2 * 5})
	})
	// every byte and pair of bytes
	c.parallel(256, func(w *worker, i int) {
		w.do(&helper{Do: "escape", Value: B{byte(i)}})
		for j := 0; j < 256; j++ {
			w.do(&helper{Do: "escape", Value: B{byte(i), byte(j)}, Spare: j % 4})
			w.do(&helper{Do: "escape", Value: B{byte(i), ']', byte(j), '"', byte(i)}})
		}
		w.do(&helper{Do: "escape", Value: rep(byte(i), 1000)})
	})
	// every length; one byte to be escaped at every place, all of them, none
	max := c.pick(300, 700)
	c.parallel(max, func(w *worker, n int) {
		for _, u := range []string{"x", "]", "\\", "\"", "x]", "\xc3\xa9\\", "\xe2\x82\xac\"", "abcdefg]"} {
			w.do(&helper{Do: "escape", Value: B(strings.Repeat(u, n)), Offset: n, Spare: n % 3})
		}
		for p := 0; p < n; p++ {
			for _, e := range []byte("]\\\"") {
				v := rep('x', n)
				v[p] = e
				w.do(&helper{Do: "escape", Value: v})
			}
		}
	})
	sizes := largeSizes(c)
	c.parallel(len(sizes), func(w *worker, i int) {
		v := rep('x', sizes[i])
		for j := range v {
			v[j] = byte('a' + j%23)
		}
		w.do(&helper{Do: "escape", Value: v})
		for _, p := range []int{0, 1, sizes[i] / 2, sizes[i] - 2, sizes[i] - 1} {
			x := append([]byte{}, v...)
			x[p] = ']'
			w.do(&helper{Do: "escape", Value: x})
			x[p], x[(p+9)%len(x)] = '"', '\\'
			w.do(&helper{Do: "escape", Value: x})
		}
		for _, u := range []string{"]", "\"", "\\", "x\"", "\\y", "\xc3\xa9\"", "abc]\""} {
			w.do(&helper{Do: "escape", Value: B(strings.Repeat(u, sizes[i]/len(u)+1)[:sizes[i]]), Spare: i % 3})
		}
	})
	// every set of positions of every length, offset and spare capacity
	top := c.pick(14, 16)
	c.parallel(1<<uint(top), func(w *worker, set int) {
		for n := 0; n <= top; n++ {
			if set>>uint(n) != 0 {
				continue
			}
			for _, o := range []int{0, 1, 7, 1000, -3} {
				for _, sp := range []int{0, 1, 16} {
					v := make(B, n)
					var pos []int
					for j := range v {
						v[j] = byte('a' + j)
						if set>>uint(j)&1 == 1 {
							pos = append(pos, j+o)
						}
					}
					w.do(&helper{Do: "remove", Value: v, Pos: pos, Offset: o, Spare: sp})
				}
			}
		}
	})
	rem = int64(1) << uint(top)
	// numbers
	c.fanout(bs("0", "1", "2", "3", "4", "5", "6", "7", "8", "9"), c.pick(5, 7), func(w *worker, s []byte) {
		w.do(&helper{Do: "digits", Value: s})
	})
	c.parallel(19, func(w *worker, n int) {
		for d := byte('0'); d <= '9'; d++ {
			w.do(&helper{Do: "digits", Value: rep(d, n)})
			for p := 0; p < n; p++ {
				for e := byte('0'); e <= '9'; e++ {
					v := rep(d, n)
					v[p] = e
					w.do(&helper{Do: "digits", Value: v})
				}
			}
		}
	})
	c.parallel(1<<16, func(w *worker, n int) { w.do(&helper{Do: "valid", N: n}) })
	in := []int{-1 << 63, -1000, -2, -1, 0, 1, 2, 191, 192, 999, 1000, 1<<63 - 1}
	for _, a := range in {
		for _, b := range in {
			for _, d := range in {
				a, b, d := a, b, d
				num++
				c.serial(func(w *worker) { w.do(&helper{Do: "between", Pos: []int{a, b, d}}) })
			}
		}
	}
	c.addStates(int(rem) + max + len(sizes))
	c.addTransitions(int(num) + 1<<16)
	c.note("position_sets", rem)
	c.note("what", "every string over the significant bytes up to the bound, every byte pair, every length with an escape at every place; every set of positions of every length up to the bound with offsets and spare capacities; every digit string up to the bound; every version and priority")
	c.assume("states = position sets and sizes, transitions = number and range checks; positions outside the slice, decreasing or repeated ones are not specified")
}
