package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Scenario is one replayable execution of the code under test: Run drives the real code and compares it with the
// reference, returning a description of the disagreement ("" when there is none).
type Scenario interface {
	Kind() string
	Run() string
}

// Known is implemented by the outcome of scenarios that may match a listed known finding.
type verdict struct {
	bad   string // a violation
	known string // id of a known finding ("" if none)
}

type violation struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"`
	What     string          `json:"what"`
	Data     json.RawMessage `json:"data"`
}

// Ctx is one run of one check.
type Ctx struct {
	Prop     string
	Tier     string
	Seed     int64
	Root     string
	start    time.Time
	deadline time.Time
	noMemory atomic.Bool

	states      int64
	transitions int64
	traces      int64
	truncated   int32

	mu          sync.Mutex
	samples     []interface{}
	assumptions []string
	extra       map[string]interface{}
	violations  []violation
	known       map[string]int64
	knownDescr  map[string]string
	distinct    map[string]struct{}
	stopped     int32

	slots []slot
}

type slot struct {
	mu    sync.Mutex
	since time.Time
	sc    Scenario
}

func (c *Ctx) thorough() bool { return c.Tier == "thorough" }

// pick returns q in the quick tier and t in the thorough one.
func (c *Ctx) pick(q, t int) int {
	if c.thorough() {
		return t
	}
	return q
}

func (c *Ctx) addStates(n int)      { atomic.AddInt64(&c.states, int64(n)) }
func (c *Ctx) addTransitions(n int) { atomic.AddInt64(&c.transitions, int64(n)) }

func (c *Ctx) sample(s interface{}) {
	c.mu.Lock()
	if len(c.samples) < 16 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// sampleScenario notes one of the executions made, written out.
func (c *Ctx) sampleScenario(sc Scenario) {
	b, err := json.Marshal(sc)
	if err != nil {
		return
	}
	s := string(b)
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	c.sample(map[string]string{"kind": sc.Kind(), "scenario": s})
}

func (c *Ctx) note(k string, v interface{}) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}

func (c *Ctx) count(k string, n int64) {
	c.mu.Lock()
	o, _ := c.extra[k].(int64)
	c.extra[k] = o + n
	c.mu.Unlock()
}

func (c *Ctx) assume(s string) { c.assumptions = append(c.assumptions, s) }

// outcome records one observed outcome class, to show that explorations are not vacuous.
func (c *Ctx) outcome(s string) {
	c.mu.Lock()
	if len(c.distinct) < 100000 {
		c.distinct[s] = struct{}{}
	}
	c.mu.Unlock()
}

func (c *Ctx) isStopped() bool { return atomic.LoadInt32(&c.stopped) != 0 }

func (c *Ctx) outOfTime() bool {
	if c.noMemory.Load() || time.Now().After(c.deadline) {
		atomic.StoreInt32(&c.truncated, 1)
		return true
	}
	return false
}

func (c *Ctx) knownFinding(id string) {
	c.mu.Lock()
	c.known[id]++
	c.mu.Unlock()
}

// fail records a violation.
func (c *Ctx) fail(sc Scenario, what string) {
	data, err := json.Marshal(sc)
	if err != nil {
		data, _ = json.Marshal(fmt.Sprintf("%+v", sc))
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.violations) < 200 {
		c.violations = append(c.violations, violation{c.Prop, sc.Kind(), what, data})
	}
	if len(c.violations) >= 8 {
		atomic.StoreInt32(&c.stopped, 1)
	}
}

// safeRun runs a scenario turning panics into violations.
func safeRun(sc Scenario) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v\n%s", r, firstLines(string(debug.Stack()), 30))
		}
	}()
	return sc.Run()
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// journal is the file in which each execution is noted before it is made ("" for none).
var journal = os.Getenv("MC_JOURNAL")

// worker identifies one of the parallel workers.
type worker struct {
	c  *Ctx
	id int
}

// do runs one scenario on the real code.
func (w *worker) do(sc Scenario) {
	if w.c.isStopped() {
		return
	}
	s := &w.c.slots[w.id]
	s.mu.Lock()
	s.since = time.Now()
	s.sc = sc
	s.mu.Unlock()
	if journal != "" {
		data, _ := json.Marshal(sc)
		b, _ := json.Marshal(violation{Kind: sc.Kind(), Data: data})
		_ = os.WriteFile(journal, b, 0o644)
	}
	bad := safeRun(sc)
	s.mu.Lock()
	s.sc = nil
	s.mu.Unlock()
	if n := atomic.AddInt64(&w.c.traces, 1); n&(n-1) == 0 && n&0xAAAAAAAA != 0 {
		w.c.sampleScenario(sc)
	}
	if bad != "" {
		if strings.HasPrefix(bad, "KNOWN:") {
			w.c.knownFinding(strings.TrimPrefix(bad, "KNOWN:"))
			return
		}
		w.c.fail(sc, bad)
	}
}

// watch reports scenarios which do not terminate.
func (c *Ctx) watch() {
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(2 * time.Second)
		if metrics.Read(heap); heap[0].Value.Kind() == metrics.KindUint64 && heap[0].Value.Uint64() > 20<<30 {
			// the code keeps what it is given: what was found so far counts, the rest is not explored
			c.noMemory.Store(true)
		}
		for i := range c.slots {
			s := &c.slots[i]
			s.mu.Lock()
			sc, since := s.sc, s.since
			s.mu.Unlock()
			if sc != nil && time.Since(since) > hangAfter {
				c.fail(sc, fmt.Sprintf("does not terminate (no answer within %s)", hangAfter))
				os.Exit(c.finish())
			}
		}
	}
}

const hangAfter = 60 * time.Second

func nworkers() int {
	n := runtime.NumCPU()
	if k, err := strconv.Atoi(os.Getenv("MC_WORKERS")); err == nil && k > 0 {
		return k
	}
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}

// parallel distributes the tasks 0..n-1 over the workers.
func (c *Ctx) parallel(n int, f func(w *worker, i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < nworkers(); k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := &worker{c, k}
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.isStopped() || c.outOfTime() {
					return
				}
				f(w, i)
			}
		}(k)
	}
	wg.Wait()
}

// serial runs f on the first worker.
func (c *Ctx) serial(f func(w *worker)) { f(&worker{c, 0}) }

// tally counts the outcomes observed, by class; sharded, as it is on the hot path.
type tally struct {
	n [64]struct {
		v int64
		_ [56]byte
	}
}

func (t *tally) hit(k int) { atomic.AddInt64(&t.n[k&63].v, 1) }

func (t *tally) report(name func(int) string) map[string]int64 {
	o := map[string]int64{}
	for k := range t.n {
		if v := atomic.LoadInt64(&t.n[k].v); v > 0 {
			o[name(k)] += v
		}
	}
	return o
}

func (c *Ctx) finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	wall := time.Since(c.start).Seconds()
	cov := map[string]interface{}{
		"states":                        atomic.LoadInt64(&c.states),
		"transitions":                   atomic.LoadInt64(&c.transitions),
		"traces_validated_against_impl": atomic.LoadInt64(&c.traces),
		"samples":                       c.samples,
		"exhaustive":                    atomic.LoadInt32(&c.truncated) == 0 && len(c.violations) == 0,
	}
	if len(c.distinct) > 0 {
		cov["distinct_outcomes"] = len(c.distinct)
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.samples) == 0 {
		cov["samples"] = []interface{}{"none"}
	}
	if len(c.known) > 0 {
		cov["known_findings_hit"] = c.known
	}
	ev := map[string]interface{}{
		"property":    c.Prop,
		"tier":        c.Tier,
		"seed":        c.Seed,
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": c.assumptions,
		"wall_s":      wall,
		"violations":  len(c.violations),
	}
	if c.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(c.Root, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, c.Prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 3
	}
	ids := make([]string, 0)
	for id := range c.known {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d executions)\n", c.Prop, id, c.knownDescr[id], c.known[id])
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n", c.Prop, c.Tier, c.states, c.transitions,
		c.traces, cov["exhaustive"], wall)
	if len(c.violations) == 0 {
		return 0
	}
	// the smallest counterexample first
	sort.SliceStable(c.violations, func(i, j int) bool { return len(c.violations[i].Data) < len(c.violations[j].Data) })
	rdir := filepath.Join(c.Root, "replays")
	_ = os.MkdirAll(rdir, 0o755)
	c.replayable(rdir)
	for i, v := range c.violations {
		if i >= 3 {
			break
		}
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", c.Prop, i+1))
		b, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s\n", v.Kind, firstLines(v.What, 40))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, p)
	}
	return 1
}

// replayable puts the first violation that shows again in a process of its own before the others: where executions share
// what they should not, some violations need those that were made before.
func (c *Ctx) replayable(dir string) {
	exe, err := os.Executable()
	if err != nil || len(c.violations) < 2 {
		return
	}
	for i, v := range c.violations {
		if i == 8 || v.Kind == "schedule" {
			return
		}
		b, _ := json.Marshal(v)
		p := filepath.Join(dir, fmt.Sprintf("%s-try.json", c.Prop))
		if os.WriteFile(p, b, 0o644) != nil {
			return
		}
		ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
		err := exec.CommandContext(ctx, exe, "replay", p).Run()
		cancel()
		_ = os.Remove(p)
		if x, ok := err.(*exec.ExitError); ok && (x.ExitCode() == 1 || x.ExitCode() == 2) {
			copy(c.violations[1:i+1], c.violations[:i])
			c.violations[0] = v
			return
		}
	}
}

// B is a byte string written in replay files as a quoted Go string.
type B []byte

func (b B) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(b))) }

func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	if err == nil {
		*b = []byte(u)
	}
	return err
}
