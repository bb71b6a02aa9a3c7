//go:build go1.21

// Package zzvsched is a controlled scheduler: of the goroutines of an exploration exactly one runs at a time, and control
// passes from one to another only at the points the plan of the execution names, when a goroutine ends, or when it blocks
// on one of the primitives below. It is put into the module under test by a build overlay.
package zzvsched

import (
	"fmt"
	"runtime/debug"
	"unsafe"
)

// Step is a decision: when the point number At is reached, pass control to thread To.
type Step struct{ At, To int }

// Seg describes the execution from point number From on: the running thread, the threads that could run, and whether From
// was a free choice (a goroutine ended or blocked) rather than a possible preemption.
type Seg struct {
	From int
	Cur  int
	Mask uint32
	Free bool
}

type waiter interface{ ready() bool }

type thread struct {
	id   int
	wake chan struct{}
	done bool
	on   waiter
	err  string
}

// Run is one execution.
type Run struct {
	threads  []*thread
	cur      int
	points   int
	at       int
	plan     []Step
	next     int
	limit    int
	segs     []Seg
	bad      string
	aborted  bool
	preempts int
	switches int
	end      chan struct{}
}

var active *Run

const never = 1 << 60

//go:norace
func (s *Run) arm() {
	s.at = s.limit
	if s.next < len(s.plan) && s.plan[s.next].At < s.at {
		s.at = s.plan[s.next].At
	}
}

// P is a scheduler point.
//
//go:norace
func P() {
	s := active
	if s == nil {
		return
	}
	s.points++
	if s.points >= s.at {
		s.due()
	}
}

//go:norace
func (s *Run) due() {
	if s.points >= s.limit {
		s.abort(fmt.Sprintf("does not terminate: more than %d steps", s.limit))
		select {}
	}
	st := s.plan[s.next]
	s.next++
	s.arm()
	if st.At != s.points || st.To == s.cur || st.To >= len(s.threads) || !s.enabled(st.To) {
		return // not a decision of this execution
	}
	s.preempts++
	s.pass(st.To)
}

//go:norace
func (s *Run) enabled(t int) bool {
	x := s.threads[t]
	return !x.done && (x.on == nil || x.on.ready())
}

//go:norace
func (s *Run) mask() (m uint32) {
	for i := range s.threads {
		if s.enabled(i) {
			m |= 1 << uint(i)
		}
	}
	return
}

//go:norace
func (s *Run) seg(free bool) {
	s.segs = append(s.segs, Seg{s.points, s.cur, s.mask(), free})
}

// pass gives control to another thread and waits to get it back.
//
//go:norace
func (s *Run) pass(to int) {
	me := s.threads[s.cur]
	s.cur = to
	s.switches++
	s.seg(false)
	raceOff()
	s.threads[to].wake <- struct{}{}
	<-me.wake
	raceOn()
}

// free picks the thread that runs next when the current one cannot: as the plan says, or the first one that can.
//
//go:norace
func (s *Run) free() int {
	s.points++
	m := s.mask()
	if m == 0 {
		return -1
	}
	to := -1
	if s.next < len(s.plan) && s.plan[s.next].At <= s.points {
		st := s.plan[s.next]
		s.next++
		s.arm()
		if st.At == s.points && st.To < len(s.threads) && m&(1<<uint(st.To)) != 0 {
			to = st.To
		}
	}
	if to < 0 {
		for i := range s.threads {
			if m&(1<<uint(i)) != 0 {
				to = i
				break
			}
		}
	}
	s.cur = to
	s.seg(true)
	return to
}

// block waits until the condition holds.
//
//go:norace
func (s *Run) block(w waiter) {
	me := s.threads[s.cur]
	me.on = w
	to := s.free()
	if to < 0 {
		s.abort("deadlock: every goroutine is blocked")
		select {}
	}
	s.switches++
	if to != me.id {
		raceOff()
		s.threads[to].wake <- struct{}{}
		<-me.wake
		raceOn()
	}
	me.on = nil
}

//go:norace
func (s *Run) abort(why string) {
	s.bad = why
	s.aborted = true
	raceOff()
	s.end <- struct{}{}
	raceOn()
}

//go:norace
func (s *Run) finish(me *thread) {
	me.done = true
	raceReleaseMerge(unsafe.Pointer(s))
	to := s.free()
	raceOff()
	switch {
	case to >= 0:
		s.threads[to].wake <- struct{}{}
	default:
		left := false
		for _, t := range s.threads {
			left = left || !t.done
		}
		if left {
			s.bad = "deadlock: every goroutine is blocked"
			s.aborted = true
		}
		s.end <- struct{}{}
	}
	raceOn()
}

//go:norace
func (s *Run) spawn(f func()) *thread {
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1)}
	s.threads = append(s.threads, t)
	go s.body(t, f)
	return t
}

//go:norace
func (s *Run) body(t *thread, f func()) {
	raceOff()
	<-t.wake
	raceOn()
	defer s.finish(t)
	defer s.caught(t)
	f()
}

//go:norace
func (s *Run) caught(t *thread) {
	if r := recover(); r != nil {
		t.err = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
	}
}

// Go starts a goroutine of the library.
//
//go:norace
func Go(f func()) {
	s := active
	if s == nil {
		go f()
		return
	}
	s.spawn(f)
	s.seg(false)
}

// Report is what is known of an execution.
type Report struct {
	Points   int
	Segs     []Seg
	Bad      string // deadlock, endless loop or panic
	Preempts int
	Switches int
	Threads  int
}

// Exec runs the threads under the plan.
//
//go:norace
func Exec(threads []func(), plan []Step, limit int) Report {
	s := &Run{plan: plan, limit: limit, end: make(chan struct{}, 1), at: never}
	for _, f := range threads {
		s.spawn(f)
	}
	s.arm()
	active = s
	s.points = -1
	to := s.free() // point 0: which thread starts
	raceOff()
	s.threads[to].wake <- struct{}{}
	<-s.end
	raceOn()
	active = nil
	r := Report{Points: s.points, Segs: s.segs, Bad: s.bad, Preempts: s.preempts, Switches: s.switches, Threads: len(s.threads)}
	if !s.aborted {
		raceAcquire(unsafe.Pointer(s))
		for _, t := range s.threads {
			if t.err != "" && r.Bad == "" {
				r.Bad = fmt.Sprintf("thread %d: %s", t.id, t.err)
			}
		}
	}
	return r
}
