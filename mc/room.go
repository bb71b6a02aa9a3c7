package main

import (
	"bytes"
	"encoding/json"
	"fmt"
)

// roomy is an input parsed from slices of a larger array: with no room after it, and with more and more room, in which
// there is something else.
type roomy struct {
	P    pcfg
	In   B
	Most int // the most room
}

// what is in the array beside the input
var besides = []byte("x]\"\\ \n\x000123456789 [a b=\"c\"] - <1>1\xc3\xa9\xef\xbb\xbf")

func (r *roomy) Kind() string { return "room" }

func (r *roomy) Run() string {
	alone := make([]byte, len(r.In))
	copy(alone, r.In)
	msg, err := r.P.new().Parse(alone[:len(alone):len(alone)])
	exp := outcomeOf(msg, err)
	const before = 24
	n := len(r.In)
	back := make([]byte, before+n+r.Most)
	keep := make([]byte, len(back))
	m := r.P.new()
	for k, room := range []int{0, 1, 2, 15, 64, 257, 600, 1025, 5000, 70000} {
		if room > r.Most {
			break
		}
		at := before - k
		for i := range keep {
			keep[i] = besides[(i+3*k)%len(besides)]
		}
		if k%3 == 2 {
			for i := range keep {
				keep[i] = 0
			}
		}
		copy(keep[at:], r.In)
		copy(back, keep)
		msg, err := m.Parse(back[at : at+n : at+n+room])
		if out := outcomeOf(msg, err); out != exp {
			return fmt.Sprintf("in a buffer with room for %d bytes: expected %s, got %s", room, short(exp), short(out))
		}
		if !bytes.Equal(back, keep) {
			return fmt.Sprintf("the buffer around the input, with room for %d bytes, was modified", room)
		}
	}
	return ""
}

func init() {
	replayers["room"] = func(b json.RawMessage) (Scenario, error) {
		r := &roomy{}
		return r, json.Unmarshal(b, r)
	}
}

// rooms: every input of the conformance suites in buffers with room.
func rooms(c *Ctx) {
	for _, p := range cfgs24() {
		p := p
		if p.Parser {
			continue
		}
		allInputs(c, p, 0, func(w *worker, in []byte) { w.do(&roomy{P: p, In: in, Most: c.pick(1100, 5000)}) })
		ins := p.corpus()
		for _, n := range []int{100, 250, 600, 950, 1000, 4000} {
			for _, e := range []string{"", "\x00", "\x00\x00", " ", "\n", "\r\n", "\"", "\\", "\xc3", "\xef\xbb", "é", "]"} {
				ins = append(ins, string(p.skeletons()[0])+string(rep('x', n))+e)
			}
		}
		c.parallel(len(ins), func(w *worker, i int) { w.do(&roomy{P: p, In: B(ins[i]), Most: 70000}) })
	}
}
