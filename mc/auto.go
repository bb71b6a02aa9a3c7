package main

import "sort"

// automaton is a reference model seen as a deterministic automaton over bytes: out(s) is the verdict at the end of the
// input, step gives the next state or, with ok false, the (final) verdict of the transition.
type automaton[S comparable] struct {
	start S
	step  func(S, byte) (S, int, bool)
	end   func(S) int
}

// explored is the reachable part of an automaton, with access strings and identification sets.
type explored struct {
	n      int
	delta  [][256]int32 // -1-verdict when there is no transition
	end    []int
	access [][]byte
	ident  [][][]byte // words separating the state from every other one
	trans  int
	reps   []byte    // one byte per class of bytes that behave alike in every state
	repOf  [256]byte // representative of each byte
	words  int
}

// order in which the bytes are tried, so that access strings are readable
var byteOrder = func() []byte {
	pref := []byte("<10Z>-:.,[=]\" aTJbx2 3+")
	seen := map[byte]bool{}
	var o []byte
	for _, b := range pref {
		if !seen[b] {
			seen[b] = true
			o = append(o, b)
		}
	}
	for i := 0; i < 256; i++ {
		if !seen[byte(i)] {
			o = append(o, byte(i))
		}
	}
	return o
}()

func explore[S comparable](a automaton[S]) (*explored, map[S]int) {
	idx := map[S]int{a.start: 0}
	list := []S{a.start}
	e := &explored{access: [][]byte{{}}}
	for i := 0; i < len(list); i++ {
		var row [256]int32
		for _, b := range byteOrder {
			n, v, ok := a.step(list[i], b)
			if !ok {
				row[b] = int32(-1 - v)
				continue
			}
			j, seen := idx[n]
			if !seen {
				j = len(list)
				idx[n] = j
				list = append(list, n)
				e.access = append(e.access, append(append([]byte{}, e.access[i]...), b))
			}
			row[b] = int32(j)
			e.trans++
		}
		e.delta = append(e.delta, row)
		e.end = append(e.end, a.end(list[i]))
	}
	e.n = len(list)
	e.classes()
	e.identify()
	return e, idx
}

// classes groups the bytes that behave alike in every state.
func (e *explored) classes() {
	seen := map[string]byte{}
	for _, b := range byteOrder {
		k := make([]byte, 0, e.n*4)
		for s := 0; s < e.n; s++ {
			v := e.delta[s][b]
			k = append(k, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
		}
		r, ok := seen[string(k)]
		if !ok {
			r = b
			seen[string(k)] = b
			e.reps = append(e.reps, b)
		}
		e.repOf[b] = r
	}
}

func (e *explored) identify() {
	reps := e.reps
	// partition refinement; levels[k][s] is the block of s after k rounds
	var levels [][]int
	block := func(sig func(s int) string) []int {
		ids := map[string]int{}
		out := make([]int, e.n)
		for s := 0; s < e.n; s++ {
			k := sig(s)
			id, ok := ids[k]
			if !ok {
				id = len(ids)
				ids[k] = id
			}
			out[s] = id
		}
		return out
	}
	put := func(k []byte, v int) []byte { return append(k, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }
	levels = append(levels, block(func(s int) string {
		k := put(nil, e.end[s])
		for _, b := range reps {
			v := e.delta[s][b]
			if v >= 0 {
				v = 0
			}
			k = put(k, int(v))
		}
		return string(k)
	}))
	count := func(p []int) int {
		m := 0
		for _, v := range p {
			if v > m {
				m = v
			}
		}
		return m + 1
	}
	for {
		last := levels[len(levels)-1]
		next := block(func(s int) string {
			k := put(nil, last[s])
			for _, b := range reps {
				if v := e.delta[s][b]; v >= 0 {
					k = put(k, last[v])
				}
			}
			return string(k)
		})
		if count(next) == count(last) {
			break
		}
		levels = append(levels, next)
	}
	sepLevel := func(s, t int) int {
		// levels are successive refinements
		i := sort.Search(len(levels), func(k int) bool { return levels[k][s] != levels[k][t] })
		return i
	}
	var word func(s, t int) []byte
	word = func(s, t int) []byte {
		k := sepLevel(s, t)
		if k == len(levels) {
			return nil // equivalent states
		}
		if k == 0 {
			if e.end[s] != e.end[t] {
				return []byte{}
			}
			for _, b := range reps {
				x, y := e.delta[s][b], e.delta[t][b]
				if (x < 0 || y < 0) && x != y && !(x >= 0 && y >= 0) {
					return []byte{b}
				}
			}
			panic("no separating byte")
		}
		for _, b := range reps {
			x, y := e.delta[s][b], e.delta[t][b]
			if x >= 0 && y >= 0 && levels[k-1][x] != levels[k-1][y] {
				return append([]byte{b}, word(int(x), int(y))...)
			}
		}
		panic("no separating byte")
	}
	for s := 0; s < e.n; s++ {
		type cand struct{ t, k int }
		var cs []cand
		for t := 0; t < e.n; t++ {
			if t != s {
				if k := sepLevel(s, t); k < len(levels) {
					cs = append(cs, cand{t, k})
				}
			}
		}
		sort.SliceStable(cs, func(i, j int) bool { return cs[i].k > cs[j].k })
		var ws [][]byte
		for _, c := range cs {
			done := false
			for _, w := range ws {
				if e.separates(s, c.t, w) {
					done = true
					break
				}
			}
			if !done {
				ws = append(ws, word(s, c.t))
			}
		}
		if len(ws) == 0 {
			ws = [][]byte{{}}
		}
		e.ident = append(e.ident, ws)
		e.words += len(ws)
	}
}

// run follows w from s: state reached and -1, or verdict and position of the failing byte.
func (e *explored) run(s int, w []byte) (state, verdict, pos int) {
	for i, b := range w {
		n := e.delta[s][b]
		if n < 0 {
			return -1, int(-1 - n), i
		}
		s = int(n)
	}
	return s, e.end[s], -1
}

func (e *explored) separates(s, t int, w []byte) bool {
	_, v1, p1 := e.run(s, w)
	_, v2, p2 := e.run(t, w)
	return v1 != v2 || p1 != p2
}

// conform replays the model against the implementation: state cover x byte x middle words of length < depth over the byte
// classes x identification words of the state reached. skeletons give further access strings (all their prefixes, located
// by at), tails what follows a byte which must be refused.
func conform(c *Ctx, e *explored, at func([]byte) (int, bool), skeletons, tails [][]byte, depth int, run func(w *worker, in []byte)) {
	type acc struct {
		a []byte
		s int
	}
	var accs []acc
	for s, a := range e.access {
		accs = append(accs, acc{a, s})
	}
	for _, sk := range skeletons {
		for i := 0; i <= len(sk); i++ {
			if s, ok := at(sk[:i]); ok {
				accs = append(accs, acc{sk[:i], s})
			}
		}
	}
	c.parallel(len(accs), func(w *worker, i int) {
		a := accs[i]
		for _, x := range e.ident[a.s] {
			run(w, cat(a.a, x))
		}
		for _, t := range tails {
			run(w, cat(a.a, t))
		}
		var follow func(prefix []byte, s int, left int)
		follow = func(prefix []byte, s int, left int) {
			for _, x := range e.ident[s] {
				run(w, cat(prefix, x))
			}
			if left == 0 || c.isStopped() || c.outOfTime() {
				return
			}
			for _, b := range e.reps {
				p := cat(prefix, []byte{b})
				if n := e.delta[s][b]; n >= 0 {
					follow(p, int(n), left-1)
				} else {
					run(w, p)
				}
			}
		}
		for b := 0; b < 256; b++ {
			p := cat(a.a, []byte{byte(b)})
			if n := e.delta[a.s][b]; n >= 0 {
				d := depth
				if byte(b) != e.repOf[b] && d > 1 {
					d = 1
				}
				follow(p, int(n), d)
			} else {
				for _, t := range tails {
					run(w, cat(p, t))
				}
			}
		}
	})
}
