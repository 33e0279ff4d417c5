// Package verifsched runs a few goroutines one at a time and decides, at every operation on
// an atomic, mutex, map or pool of the instrumented packages, which one goes on. The
// packages vsync and vatomic stand in for sync and sync/atomic (through a build overlay).
package verifsched

import (
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	_ "unsafe" // for linkname
)

// goid returns the number of the calling goroutine (linked with -checklinkname=0).
//
//go:linkname goid internal/runtime/exithook.Goid
var goid func() uint64

// Policy decides who runs next: cur is the task that just yielded (-1 at the start, or when
// it has ended or is blocked), runnable lists the tasks that can go on.
type Policy func(step int, cur int, runnable []int) int

type task struct {
	id      int
	f       func()
	resume  chan struct{}
	done    bool
	blocked any // what it waits for
	at      string
	panicv  any
	stack   string
	g       uint64 // its goroutine, while it lives
	state   atomic.Int32
}

// A task that blocks in something the scheduler does not know (a channel, a wait for a
// goroutine it started) is let go: it runs on its own until its next scheduling point,
// where it comes back. What such a run shows is not judged.
const (
	held     = iota // parked, or running with the scheduler waiting for it
	yielding        // about to hand over
	outside         // let go
	back            // waits to be taken back
	ended           // ended while outside
)

type Sched struct {
	tasks  []*task
	cur    *task
	yield  chan struct{}
	Step   int // number of scheduling points so far
	policy Policy
	capped bool
	buf    []int
	forced int // task chosen at the last scheduling point, or -1
	// OnPoint, if set, sees every scheduling point.
	OnPoint func(task int, op string)
	stray   atomic.Bool
}

var active atomic.Pointer[Sched]

// Result of a run.
type Result struct {
	Steps    int
	Deadlock string
	Panic    string
	Capped   bool // step limit reached: the run was finished without further switching
	Stray    bool // goroutines other than the tasks took part
	Outside  bool // a task blocked outside the scheduler's control: not to be judged
}

const stepCap = 20000

var (
	outsideRuns atomic.Int64
	tick        = make(chan struct{})
	tickOnce    atomic.Bool
)

// Usable reports whether schedules can still be controlled: no longer once the code under
// test has blocked outside the scheduler's control a number of times.
func Usable() bool { return outsideRuns.Load() < 20 }

// blockedNatively reports whether the task's goroutine waits for something.
func blockedNatively(t *task) bool {
	buf := make([]byte, 1<<20)
	dump := string(buf[:runtime.Stack(buf, true)])
	gid := fmt.Sprintf("goroutine %d [", t.g)
	i := strings.Index(dump, gid)
	if i < 0 || i > 0 && dump[i-1] != '\n' {
		return false
	}
	st := dump[i+len(gid):]
	for _, w := range []string{"chan send", "chan receive", "select", "semacquire", "sync."} {
		if strings.HasPrefix(st, w) {
			return true
		}
	}
	return false
}

// handOver gives control back to the scheduler (or, for a task that is outside, waits to
// be taken back).
func (s *Sched) handOver(t *task) {
	if t.state.CompareAndSwap(held, yielding) {
		s.yield <- struct{}{}
	} else {
		t.state.Store(back)
	}
}

// Run executes the tasks under the policy until all have ended.
func Run(policy Policy, onPoint func(task int, op string), fs ...func()) Result {
	if !Usable() {
		return Result{Outside: true}
	}
	s := &Sched{yield: make(chan struct{}), policy: policy, OnPoint: onPoint, forced: -1}
	for i, f := range fs {
		s.tasks = append(s.tasks, &task{id: i, f: f, resume: make(chan struct{})})
	}
	if !active.CompareAndSwap(nil, s) {
		panic("verifsched: nested run")
	}
	defer active.Store(nil)
	if tickOnce.CompareAndSwap(false, true) {
		go func() {
			for {
				time.Sleep(10 * time.Millisecond)
				select {
				case tick <- struct{}{}:
				default:
				}
			}
		}()
	}
	for _, t := range s.tasks {
		t := t
		go func() {
			<-t.resume
			t.g = goid()
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 1<<14)
					t.panicv, t.stack = r, string(buf[:runtime.Stack(buf, false)])
				}
				t.g = 0
				if t.state.CompareAndSwap(held, yielding) {
					t.done = true
					s.yield <- struct{}{}
				} else {
					t.state.Store(ended)
				}
			}()
			t.f()
		}()
	}
	res := Result{}
	last := -1
	stuck := 0
	for {
		run := s.buf[:0]
		alive := 0
		away := false
		for _, t := range s.tasks {
			switch t.state.Load() {
			case back:
				t.state.Store(held)
			case ended:
				t.done = true
				t.state.Store(held)
			case outside:
				alive++
				away = true
				continue
			}
			if !t.done {
				alive++
				if t.blocked == nil {
					run = append(run, t.id)
				}
			}
		}
		s.buf = run
		if alive == 0 {
			res.Stray = s.stray.Load()
			break
		}
		if len(run) == 0 {
			// Nobody can go on. A goroutine outside our control may hold the lock: let the
			// blocked tasks try again for a while.
			stuck++
			if stuck > 3 {
				time.Sleep(time.Millisecond)
			}
			if stuck > 2500 && (!away || stuck > 10000) {
				for _, t := range s.tasks {
					if !t.done {
						res.Deadlock += fmt.Sprintf("task %d waits at %s; ", t.id, t.at)
					}
				}
				res.Steps = s.Step
				return res // the tasks are abandoned
			}
			for _, t := range s.tasks {
				t.blocked = nil
			}
			continue
		}
		next := run[0]
		if s.forced >= 0 {
			next, s.forced = s.forced, -1
		} else if s.Step < stepCap {
			next = s.policy(s.Step, last, run)
		} else {
			// spinning? take turns
			res.Capped = true
			next = run[s.Step%len(run)]
			if s.Step > 50*stepCap {
				res.Deadlock = "no task makes progress"
				res.Steps = s.Step
				return res
			}
		}
		t := s.tasks[next]
		s.cur = t
		t.resume <- struct{}{}
		for idle := 0; ; {
			select {
			case <-s.yield:
				t.state.Store(held)
			case <-tick:
				if idle++; idle < 3 || !blockedNatively(t) || !t.state.CompareAndSwap(held, outside) {
					continue
				}
				if !res.Outside {
					res.Outside = true
					outsideRuns.Add(1)
				}
			}
			break
		}
		if t.state.Load() != held {
			last = -1
			continue
		}
		last = t.id
		if t.done || t.blocked != nil {
			last = -1
		}
		if t.done {
			stuck = 0
			if t.panicv != nil && res.Panic == "" {
				res.Panic = fmt.Sprintf("%v\n%s", t.panicv, t.stack)
			}
		} else if t.blocked == nil {
			stuck = 0
		}
	}
	res.Steps = s.Step
	return res
}

// me returns the scheduler and the task if the caller is a controlled task. A task that was
// outside first comes back.
func me() (*Sched, *task) {
	s := active.Load()
	if s == nil {
		return nil, nil
	}
	g := goid()
	if t := s.cur; t != nil && t.g == g && t.state.Load() == held {
		return s, t
	}
	for _, t := range s.tasks {
		if t.g == g {
			if t.state.Load() == outside {
				t.at = "back"
				t.state.Store(back)
				<-t.resume
			}
			return s, t
		}
	}
	s.stray.Store(true)
	return nil, nil
}

// Point is a scheduling point: called before each shared-memory operation.
func Point(op string) {
	s, t := me()
	if s == nil {
		return
	}
	s.Step++
	t.at = op
	if s.OnPoint != nil {
		s.OnPoint(t.id, op)
	}
	if s.Step < stepCap {
		run := s.buf[:0]
		for _, x := range s.tasks {
			if !x.done && x.blocked == nil && x.state.Load() == held {
				run = append(run, x.id)
			}
		}
		s.buf = run
		next := s.policy(s.Step, t.id, run)
		if next == t.id {
			return
		}
		s.forced = next
	}
	s.handOver(t)
	<-t.resume
}

// Block parks the calling task until Wake(on) and reports whether the caller is controlled.
func Block(on any, op string) bool {
	s, t := me()
	if s == nil {
		return false
	}
	s.Step++
	t.at = op
	t.blocked = on
	s.handOver(t)
	<-t.resume
	return true
}

// Wake makes the tasks blocked on on runnable.
func Wake(on any) {
	s := active.Load()
	if s == nil {
		return
	}
	if _, t := me(); t == nil {
		return // an uncontrolled goroutine: blocked tasks retry on their own
	}
	for _, t := range s.tasks {
		if t.blocked == on {
			t.blocked = nil
		}
	}
}

// Controlled reports whether the caller is a controlled task.
func Controlled() bool { s, _ := me(); return s != nil }

// Now is the current step number (a logical clock for histories).
func Now() int {
	if s := active.Load(); s != nil {
		return s.Step
	}
	return 0
}
