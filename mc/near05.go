package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"strconv"
	"strings"
)

// neighbours are the inputs one substitution, deletion or insertion away from x.
func neighbours(x string, subst []byte) (o []string) {
	seen := map[string]bool{x: true}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			o = append(o, s)
		}
	}
	for i := 0; i <= len(x); i++ {
		for _, b := range subst {
			if i < len(x) {
				add(x[:i] + string([]byte{b}) + x[i+1:])
			}
			add(x[:i] + string([]byte{b}) + x[i:])
		}
		if i < len(x) {
			add(x[:i] + x[i+1:])
			// another digit, another letter
			switch b := x[i]; {
			case b >= '0' && b <= '8':
				add(x[:i] + string([]byte{b + 1}) + x[i+1:])
			case b >= 'a' && b < 'z':
				add(x[:i] + string([]byte{b + 1}) + x[i+1:])
				add(x[:i] + string([]byte{b - 32}) + x[i+1:])
			}
		}
		// one character swapped with the next
		if i+1 < len(x) {
			add(x[:i] + string([]byte{x[i+1], x[i]}) + x[i+2:])
		}
	}
	return
}

// nearBases are messages with every field present, whose neighbours differ in one field only.
func (p pcfg) nearBases() []string {
	if p.Format == 5424 {
		return []string{
			"<34>2 2018-10-11T22:14:15.123456+01:00 hosta appb procc midd [el@1 pa=\"va\\]l\" pb=\"w\"][e2 pa=\"\"] \xef\xbb\xbfmsg",
			"<165>11 2003-08-24T05:14:15.003Z h - p - - text text",
			"<9>1 - - a - m [a b=\"1\" c=\"2\"]",
		}
	}
	return []string{
		"<34>Oct 11 22:14:15 hosta tag[123]: text",
		"<165>Jan  1 02:03:04 h some text",
		"<9>2018-10-11T22:14:15+01:00 hostb t: msg",
	}
}

var nearBytes = []byte("0159aZ- ]\"\\:<>=[\x01\x7f\xc3\xbf")

// near explores every pair of a message and one of its neighbours, both ways, and the pairs of neighbours at one distance.
func near05(c *Ctx, p pcfg) {
	for _, x := range p.nearBases() {
		x := x
		ex := freshOutcome(p, []byte(x))
		ns := neighbours(x, nearBytes)
		c.addStates(len(ns))
		c.addTransitions(12 * len(ns))
		c.parallel(len(ns), func(w *worker, i int) {
			y := ns[i]
			ey := freshOutcome(p, []byte(y))
			w.do(&history{P: p, Inputs: []B{B(x), B(y), B(x)}, expect: []string{ex, ey, ex}})
			w.do(&history{P: p, Inputs: []B{B(y), B(x), B(y)}, expect: []string{ey, ex, ey}})
			w.do(&history{P: p, Inputs: []B{B(x), B(y), B(x)}, expect: []string{ex, ey, ex}, Same: true})
			w.do(&history{P: p, Inputs: []B{B(y), B(x), B(x)}, expect: []string{ey, ex, ex}, Same: true})
			for _, d := range []int{1, 2, 17} {
				z := ns[(i+d)%len(ns)]
				ez := freshOutcome(p, []byte(z))
				w.do(&history{P: p, Inputs: []B{B(y), B(z), B(y)}, expect: []string{ey, ez, ey}})
			}
		})
	}
}

// orderInputs are the inputs of the comparison of two processes.
func orderInputs(p pcfg) (o []string) {
	o = append(o, p.corpus()...)
	for _, x := range p.nearBases() {
		o = append(o, x)
		o = append(o, neighbours(x, nearBytes)...)
	}
	for _, sk := range p.skeletons() {
		for i := range sk {
			o = append(o, string(sk[:i]))
		}
	}
	return
}

func orderCfgs() (o []pcfg) {
	for _, p := range pcfgs() {
		if !p.Parser {
			o = append(o, p)
		}
	}
	return
}

// digestsOf runs the process that parses the inputs in the given order, and reads the digests of the outcomes.
func digestsOf(order string) []uint64 {
	self, _ := os.Executable()
	cmd := exec.Command(self, "outcomes", order)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "outcomes:", err)
		os.Exit(3)
	}
	var o []uint64
	for _, l := range strings.Fields(string(b)) {
		n, _ := strconv.ParseUint(l, 16, 64)
		o = append(o, n)
	}
	return o
}

// order05: new parsers give the same outcomes in a process that meets the inputs and the options in another order.
func order05(c *Ctx) {
	n := compareOrders(func(p pcfg, in string) {
		o := &orderPair{p, B(in)}
		c.fail(o, o.what())
	})
	c.addTransitions(2 * n)
	c.traces += int64(2 * n)
	c.note("inputs_compared_across_processes", n)
}

func compareOrders(differs func(pcfg, string)) int {
	f, r := digestsOf("forward"), digestsOf("backward")
	k := 0
	for _, p := range orderCfgs() {
		for _, in := range orderInputs(p) {
			if k >= len(f) || len(f) != len(r) {
				fmt.Fprintln(os.Stderr, "outcomes: wrong number")
				os.Exit(3)
			}
			if f[k] != r[k] {
				differs(p, in)
			}
			k++
		}
	}
	return k
}

// orderPair is an input whose outcome depends on the history of the process.
type orderPair struct {
	P  pcfg
	In B
}

func (o *orderPair) Kind() string { return "order" }

func (o *orderPair) what() string {
	return fmt.Sprintf("input %q with %+v: new parsers give different outcomes, depending on what other parsers have been given before", short(string(o.In)), o.P)
}

func (o *orderPair) Run() (bad string) {
	compareOrders(func(p pcfg, in string) {
		if p == o.P && in == string(o.In) {
			bad = o.what()
		}
	})
	return
}

func init() {
	replayers["order"] = func(b json.RawMessage) (Scenario, error) {
		s := &orderPair{}
		return s, json.Unmarshal(b, s)
	}
	extraMain["outcomes"] = func(args []string) int {
		w := bufio.NewWriter(os.Stdout)
		defer w.Flush()
		type item struct {
			p  pcfg
			in string
		}
		var items []item
		for _, p := range orderCfgs() {
			for _, in := range orderInputs(p) {
				items = append(items, item{p, in})
			}
		}
		out := make([]uint64, len(items))
		for i := range items {
			k := i
			if args[0] == "backward" {
				k = len(items) - 1 - i
			}
			h := fnv.New64a()
			h.Write([]byte(freshOutcome(items[k].p, []byte(items[k].in))))
			out[k] = h.Sum64()
		}
		for _, x := range out {
			fmt.Fprintf(w, "%x\n", x)
		}
		return 0
	}
}
