//go:build sched

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
	"github.com/influxdata/go-syslog/v3/zzvsched"
)

// act is what a thread does: a sequence of steps on the objects of the scenario.
type act struct {
	Do  string // parse, render, read, has, build, new, stream
	On  int    `json:",omitempty"` // object number
	In  B      `json:",omitempty"`
	P   *pcfg  `json:",omitempty"`
	S   *scfg  `json:",omitempty"`
	F   *feed  `json:",omitempty"`
	Ops []op   `json:",omitempty"`
}

// object is what the threads work on.
type object struct {
	P   *pcfg `json:",omitempty"` // a parser
	S   *scfg `json:",omitempty"` // a stream parser
	In  B     `json:",omitempty"` // with In: the message parsed by the parser of the object before the threads start
	Ops []op  `json:",omitempty"` // a message built before the threads start
	Of  int   `json:",omitempty"` // with In: number+1 of the parser object that gives the message
}

// concur is a concurrent scenario, explored under all schedules within a bound; with Plan, under one.
type concur struct {
	Objects []object
	Threads [][]act
	Bound   int
	Plan    []zzvsched.Step `json:",omitempty"`
	Pinned  bool            `json:",omitempty"` // only the schedule of Plan
	Race    bool            `json:",omitempty"` // found by the race detector
	alone   [][]string
	stats   *schedStats
	marked  int
}

type schedStats struct {
	Schedules int64
	Points    int64
	Switches  int64
	MaxPoints int
	Preempted int64
	Aborted   bool
}

func (s *concur) Kind() string { return "schedule" }

type world struct {
	parsers  []syslog.Machine
	streams  []*heardStream
	messages []syslog.Message
	errs     []error
}

// heardStream is a stream parser and its listener
type heardStream struct {
	p   syslog.Parser
	got []*syslog.Result
	out []string
}

func hear(s scfg) *heardStream {
	h := &heardStream{}
	h.p = s.new(func(r *syslog.Result) {
		h.got = append(h.got, r)
		h.out = append(h.out, outcomeOf(r.Message, r.Error))
	})
	return h
}

func (s *concur) world() *world {
	w := &world{}
	for _, o := range s.Objects {
		var m syslog.Machine
		var msg syslog.Message
		var err error
		if o.P != nil {
			m = o.P.new()
		}
		switch {
		case o.Of > 0:
			msg, err = w.parsers[o.Of-1].Parse(fill(o.In))
		case o.In != nil:
			msg, err = m.Parse(fill(o.In))
		case o.Ops != nil:
			x := &rfc5424.SyslogMessage{}
			for _, p := range o.Ops {
				fillOp(p).apply(x)
			}
			msg = x
		}
		w.parsers = append(w.parsers, m)
		var h *heardStream
		if o.S != nil {
			h = hear(*o.S)
		}
		w.streams = append(w.streams, h)
		w.messages = append(w.messages, msg)
		w.errs = append(w.errs, err)
	}
	return w
}

func labelsOf(m syslog.Message) string {
	var b strings.Builder
	for _, p := range []*string{m.FacilityMessage(), m.FacilityLevel(), m.SeverityMessage(), m.SeverityLevel(), m.SeverityShortLevel()} {
		if p == nil {
			b.WriteString("none ")
		} else {
			b.WriteString(strconv.Quote(*p) + " ")
		}
	}
	return b.String()
}

// The marks stand for contents that are different in every execution: a value met before may be treated in another way than
// a new one. The outcomes have the marks again.
const (
	markText   = "QQQQQQ"
	markDigits = "987654"
	markTime   = "01:02:03"
)

var nonce struct {
	n                  int
	text, digits, time string
	sec                int64
	in, out            *strings.Replacer
	off                bool // no marks in the scenario
}

func (s *concur) renew() {
	if s.marked == 0 {
		s.marked = 1
		b, _ := json.Marshal(s)
		for _, m := range []string{markText, markDigits, markTime} {
			if bytes.Contains(b, []byte(m)) {
				s.marked = 2
			}
		}
	}
	nonce.off = s.marked == 1
	if nonce.off {
		return
	}
	nonce.n++
	n := nonce.n
	t, d := []byte("Zaaaaa"), []byte("911117")
	for i, k := 5, n; i > 0; i, k = i-1, k/26 {
		t[i] = byte('a' + k%26)
	}
	for i, k := 4, n; i > 0; i, k = i-1, k/9 {
		d[i] = byte('1' + k%9)
	}
	x := n % (24 * 60 * 18)
	h, m, sec := x/18/60, x/18%60, 41+x%18
	nonce.text, nonce.digits, nonce.time, nonce.sec = string(t), string(d), fmt.Sprintf("%02d:%02d:%02d", h, m, sec), int64(h*3600+m*60+sec)
	nonce.in = strings.NewReplacer(markText, nonce.text, markDigits, nonce.digits, markTime, nonce.time)
	nonce.out = strings.NewReplacer(nonce.text, markText, nonce.digits, markDigits, nonce.time, markTime)
}

// fill gives a copy of the input with the contents of this execution.
func fill(b []byte) []byte {
	if nonce.off {
		return append([]byte{}, b...)
	}
	return []byte(nonce.in.Replace(string(b)))
}

func fillOp(o op) op {
	if nonce.off {
		return o
	}
	o.A, o.P, o.V = fill(o.A), fill(o.P), fill(o.V)
	return o
}

// unfill puts the marks back.
func unfill(s string) string {
	if nonce.off {
		return s
	}
	const day = 86400
	if i := strings.Index(s, "ts="); i >= 0 {
		var b strings.Builder
		for i >= 0 {
			b.WriteString(s[:i+3])
			s = s[i+3:]
			k := 0
			for k < len(s) && (s[k] == '-' || s[k] >= '0' && s[k] <= '9') {
				k++
			}
			if v, err := strconv.ParseInt(s[:k], 10, 64); err == nil && (v%day+day)%day == nonce.sec {
				b.WriteString(strconv.FormatInt(v-nonce.sec+3723, 10))
				s = s[k:]
			}
			i = strings.Index(s, "ts=")
		}
		s = b.String() + s
	}
	return nonce.out.Replace(s)
}

func (a *act) run(w *world) string { return unfill(a.do(w)) }

func (a *act) do(w *world) string {
	switch a.Do {
	case "parse": // on a parser object
		in := fill(a.In)
		m, err := w.parsers[a.On].Parse(in)
		o := outcomeOf(m, err)
		if string(in) != string(fill(a.In)) {
			o += " and the input was modified"
		}
		return o
	case "new": // with a parser of its own, made here
		x := a.P.new()
		m, err := x.Parse(fill(a.In))
		return outcomeOf(m, err) + fmt.Sprint(x.HasBestEffort())
	case "stream": // with the stream parser of an object, or with one of its own
		h := (*heardStream)(nil)
		if a.S != nil {
			h = hear(*a.S)
		} else {
			h = w.streams[a.On]
		}
		first := len(h.out)
		var f feed
		if a.F != nil {
			f = *a.F
		}
		h.p.Parse(&planReader{data: fill(a.In), f: f})
		o := strings.Join(h.out[first:], "\n")
		for i := range h.got {
			if outcomeOf(h.got[i].Message, h.got[i].Error) != h.out[i] {
				o += fmt.Sprintf("; result %d has changed", i)
			}
		}
		return o
	case "has":
		return fmt.Sprint(w.parsers[a.On].HasBestEffort())
	case "read": // an earlier result
		return outcomeOf(w.messages[a.On], w.errs[a.On])
	case "render":
		m := w.messages[a.On]
		if m == nil {
			return "no message"
		}
		o := fmt.Sprint(m.Valid())
		if x, ok := m.(*rfc5424.SyslogMessage); ok {
			s, err := x.String()
			o += fmt.Sprintf(" %q %s", s, renderErr(err))
		}
		return o + " " + labelsOf(m)
	case "labels":
		return labelsOf(w.messages[a.On])
	case "build": // a message of its own
		x := &rfc5424.SyslogMessage{}
		for _, p := range a.Ops {
			fillOp(p).apply(x)
		}
		s, err := x.String()
		return fmt.Sprintf("%v %s %q %s %s", x.Valid(), render(x), s, renderErr(err), labelsOf(x))
	}
	panic("unknown act " + a.Do)
}

const schedLimit = 3000000

// limit is the number of steps after which an execution counts as endless: in proportion to what the threads are given.
func (s *concur) limit() int {
	n := schedLimit
	for _, th := range s.Threads {
		for i := range th {
			n += 2000*len(th[i].Ops) + 200*len(th[i].In)
			for _, o := range th[i].Ops {
				n += 200 * (len(o.A) + len(o.P) + len(o.V))
			}
		}
	}
	return n
}

// exec runs the scenario once under a plan.
func (s *concur) exec(plan []zzvsched.Step) (zzvsched.Report, string) {
	s.renew()
	w := s.world()
	outs := make([][]string, len(s.Threads))
	fs := make([]func(), len(s.Threads))
	for i := range s.Threads {
		i := i
		outs[i] = make([]string, 0, len(s.Threads[i]))
		fs[i] = func() {
			for k := range s.Threads[i] {
				outs[i] = append(outs[i], s.Threads[i][k].run(w))
			}
		}
	}
	before := zzvsched.Races()
	rep := zzvsched.Exec(fs, plan, s.limit())
	if rep.Bad != "" {
		return rep, rep.Bad
	}
	for i := range outs {
		for k := range s.Threads[i] {
			if k >= len(outs[i]) {
				return rep, fmt.Sprintf("thread %d did not finish", i)
			}
			if s.alone != nil && outs[i][k] != s.alone[i][k] {
				return rep, fmt.Sprintf("thread %d, call %d (%s %q): alone it gives %s, here %s", i, k, s.Threads[i][k].Do, short(string(s.Threads[i][k].In)), short(s.alone[i][k]), short(outs[i][k]))
			}
		}
	}
	// what was there before is as it was
	for i := range w.messages {
		if w.messages[i] != nil {
			if o := outcomeOf(w.messages[i], w.errs[i]); o != s.object(i) {
				return rep, fmt.Sprintf("the earlier result %d changed: it was %s, it is %s", i, short(s.object(i)), short(o))
			}
		}
	}
	if n := zzvsched.Races() - before; n > 0 {
		return rep, fmt.Sprintf("%d data race(s) between the threads (see the race detector's report)", n)
	}
	return rep, ""
}

func (s *concur) object(i int) string {
	w := s.world()
	return outcomeOf(w.messages[i], w.errs[i])
}

// solo computes what each thread obtains when it runs alone.
func (s *concur) solo() {
	s.alone = nil
	for i := range s.Threads {
		s.renew()
		w := s.world()
		var o []string
		for k := range s.Threads[i] {
			o = append(o, s.Threads[i][k].run(w))
		}
		s.alone = append(s.alone, o)
	}
}

// explore runs every schedule within the preemption bound; the shard-th part of them.
func (s *concur) explore(shard, shards int, stop func() bool) ([]zzvsched.Step, string) {
	// first of all, before anything that is made only once is there
	if _, bad := s.exec(nil); bad != "" {
		return nil, bad
	}
	s.solo()
	var found []zzvsched.Step
	bad := ""
	n := 0
	var visit func(plan []zzvsched.Step, left int, top bool)
	visit = func(plan []zzvsched.Step, left int, top bool) {
		if bad != "" || s.stats.Aborted {
			return
		}
		if stop() {
			s.stats.Aborted = true
			return
		}
		rep, b := s.exec(plan)
		if !top || shard == 0 {
			s.stats.Schedules++
			s.stats.Points += int64(rep.Points)
			s.stats.Switches += int64(rep.Switches)
			if rep.Preempts > 0 {
				s.stats.Preempted++
			}
			if rep.Points > s.stats.MaxPoints {
				s.stats.MaxPoints = rep.Points
			}
		}
		if b != "" {
			found, bad = append([]zzvsched.Step{}, plan...), b
			return
		}
		last := -1
		if len(plan) > 0 {
			last = plan[len(plan)-1].At
		}
		child := func(at, to, left int) {
			if top {
				n++
				if n%shards != shard {
					return
				}
			}
			visit(append(append([]zzvsched.Step{}, plan...), zzvsched.Step{At: at, To: to}), left, false)
		}
		for k, g := range rep.Segs {
			end := rep.Points
			if k+1 < len(rep.Segs) {
				end = rep.Segs[k+1].From
			}
			if g.Free && g.From > last {
				// every other thread that could run instead (fewer choices when only one can)
				for t := 0; t < rep.Threads; t++ {
					if t != g.Cur && g.Mask&(1<<uint(t)) != 0 {
						child(g.From, t, left)
					}
				}
			}
			if left == 0 {
				continue
			}
			for p := g.From + 1; p <= end; p++ {
				if p == end && k+1 < len(rep.Segs) && rep.Segs[k+1].Free {
					break
				}
				if p <= last {
					continue
				}
				for t := 0; t < rep.Threads; t++ {
					if t != g.Cur && g.Mask&(1<<uint(t)) != 0 {
						child(p, t, left-1)
					}
				}
			}
		}
	}
	visit(nil, s.Bound, true)
	return found, bad
}

func (s *concur) Run() string {
	s.stats = &schedStats{}
	if s.Pinned {
		if _, bad := s.exec(s.Plan); bad != "" {
			return bad
		}
		s.solo()
		_, bad := s.exec(s.Plan)
		return bad
	}
	plan, bad := s.explore(0, 1, func() bool { return false })
	if bad != "" {
		return fmt.Sprintf("schedule %v: %s", plan, bad)
	}
	return ""
}

func init() {
	replayers["schedule"] = func(b json.RawMessage) (Scenario, error) {
		s := &concur{}
		return s, json.Unmarshal(b, s)
	}
	checks["P06"] = func(c *Ctx) { aloneFirst(c); checkSched(c) }
	checks["P12"] = func(c *Ctx) { checkSched(c) }
	checks["P22"] = func(c *Ctx) { checkNested(c); crowds22(c); checkSched(c) }
	extraMain["shard"] = shardMain
}

// found by a shard
type shardResult struct {
	Scenario int
	Stats    schedStats
	Bad      string
	Plan     []zzvsched.Step
	Cut      bool
}

// shardMain: mc shard PROP TIER SHARD SHARDS DEADLINE
func shardMain(args []string) int {
	prop, tier := args[0], args[1]
	shard, _ := strconv.Atoi(args[2])
	shards, _ := strconv.Atoi(args[3])
	dl, _ := strconv.ParseInt(args[4], 10, 64)
	deadline := time.Unix(dl, 0)
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	say := func(v interface{}) {
		b, _ := json.Marshal(v)
		w.Write(append(b, '\n'))
		w.Flush()
	}
	cut := false
	for i, s := range schedScenarios(prop, tier == "thorough", zzvsched.Race) {
		if cut {
			say(shardResult{Scenario: i, Cut: true})
			continue
		}
		say(map[string]int{"start": i})
		n := 0
		s.stats = &schedStats{}
		plan, bad := s.explore(shard, shards, func() bool {
			n++
			if n&0xfff == 0 {
				say(map[string]int{"beat": i})
			}
			if n&0xff == 0 && time.Now().After(deadline) {
				cut = true
			}
			return cut
		})
		say(shardResult{i, *s.stats, bad, plan, cut})
		if bad != "" {
			return 1
		}
	}
	return 0
}

// runShards explores the scenarios with one process per processor (each explores with a single running thread at a time).
func runShards(c *Ctx, bin string, race bool, scs []*concur, share time.Duration) {
	shards := nworkers()
	deadline := time.Now().Add(share)
	if deadline.After(c.deadline) {
		deadline = c.deadline
	}
	var mu sync.Mutex
	total := schedStats{}
	perBound := map[string]int64{}
	var wg sync.WaitGroup
	for k := 0; k < shards; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			cmd := exec.Command(bin, "shard", c.Prop, c.Tier, strconv.Itoa(k), strconv.Itoa(shards), strconv.FormatInt(deadline.Unix(), 10))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=0 exitcode=0 history_size=6 atexit_sleep_ms=0")
			var errs tailWriter
			cmd.Stderr = &errs
			out, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, "cannot run a shard:", err)
				os.Exit(3)
			}
			var last int
			var seen sync.Mutex
			beat := time.Now()
			over := make(chan struct{})
			go func() {
				for {
					select {
					case <-over:
						return
					case <-time.After(5 * time.Second):
					}
					seen.Lock()
					late := time.Since(beat) > 2*hangAfter
					seen.Unlock()
					if late {
						_ = cmd.Process.Kill()
						return
					}
				}
			}()
			ended := map[int]bool{}
			reported := false
			sc := bufio.NewScanner(out)
			sc.Buffer(nil, 1<<24)
			for sc.Scan() {
				seen.Lock()
				beat = time.Now()
				seen.Unlock()
				var st map[string]int
				if json.Unmarshal(sc.Bytes(), &st) == nil {
					if i, ok := st["start"]; ok {
						last = i
					}
					if _, ok := st["Scenario"]; !ok {
						continue
					}
				}
				var r shardResult
				if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
					continue
				}
				ended[r.Scenario] = true
				mu.Lock()
				total.Schedules += r.Stats.Schedules
				total.Points += r.Stats.Points
				total.Switches += r.Stats.Switches
				total.Preempted += r.Stats.Preempted
				if r.Stats.MaxPoints > total.MaxPoints {
					total.MaxPoints = r.Stats.MaxPoints
				}
				total.Aborted = total.Aborted || r.Cut
				s := scs[r.Scenario]
				perBound[fmt.Sprintf("%d threads, %d preemptions", len(s.Threads), s.Bound)] += r.Stats.Schedules
				mu.Unlock()
				if r.Bad != "" {
					reported = true
					x := *s
					x.Plan, x.Pinned, x.Race = r.Plan, true, race
					what := fmt.Sprintf("schedule %v: %s", r.Plan, r.Bad)
					if race && strings.Contains(r.Bad, "data race") {
						what += "\n" + errs.String()
					}
					c.fail(&x, what)
				}
			}
			_ = cmd.Wait()
			close(over)
			if !reported && len(ended) != len(scs) {
				if len(unsupported()) > 0 {
					// the library waits on channels, which the scheduler does not control: no answer for this part
					mu.Lock()
					total.Aborted = true
					mu.Unlock()
					return
				}
				x := *scs[last]
				x.Race = race
				c.fail(&x, "the exploration of this scenario broke down: "+errs.String())
			}
		}(k)
	}
	wg.Wait()
	c.addStates(int(total.Preempted))
	c.addTransitions(int(total.Points))
	c.traces += total.Schedules
	name := "schedules"
	if race {
		name = "schedules_with_race_detection"
	}
	if total.Aborted {
		c.truncated = 1
	}
	c.note(name, map[string]interface{}{"scenarios": len(scs), "schedules": total.Schedules, "with_preemptions": total.Preempted, "scheduler_points_executed": total.Points,
		"switches": total.Switches, "longest_schedule": total.MaxPoints, "by_bound": perBound, "all_within_bound": !total.Aborted})
}

// unsupported are the constructs of the library the scheduler does not control.
func unsupported() []string {
	var m struct{ Unsupported []string }
	if b, err := os.ReadFile(os.Getenv("MC_INSTR")); err == nil {
		_ = json.Unmarshal(b, &m)
	}
	return m.Unsupported
}

func checkSched(c *Ctx) {
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	scs := schedScenarios(c.Prop, c.thorough(), false)
	for i, s := range scs {
		if i%(len(scs)/6+1) == 0 {
			c.sampleScenario(s)
		}
	}
	// the same plan gives the same execution
	for _, s := range scs {
		s.solo()
		a, _ := s.exec(nil)
		b, _ := s.exec(nil)
		if a.Points != b.Points {
			c.count("scenarios_with_varying_length", 1)
		}
	}
	left := time.Until(c.deadline)
	if rb := os.Getenv("MC_RACE_BIN"); rb != "" && !c.isStopped() {
		runShards(c, rb, true, schedScenarios(c.Prop, c.thorough(), true), left/2)
	} else {
		c.note("race_detection", "not available in this run")
	}
	if len(c.violations) == 0 {
		runShards(c, self, false, scs, time.Until(c.deadline)-5*time.Second)
	}
	if b, err := os.ReadFile(os.Getenv("MC_INSTR")); err == nil {
		var m map[string]interface{}
		if json.Unmarshal(b, &m) == nil {
			c.note("instrumentation", m)
		}
	}
	sort.Strings(c.assumptions)
	c.assume("a scheduler point precedes every statement of the library (build overlay); code of the standard library and of ragel-machinery runs without points; states = distinct schedules with at least one preemption, transitions = scheduler points executed, traces = schedules executed on the real code")
	c.assume("each statement is atomic for the plain exploration; accesses within a statement are covered by the race detector, whose happens-before order excludes the scheduler's own hand-overs")
}
