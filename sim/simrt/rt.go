// Package verifsimrt is the deterministic simulation runtime. It is overlaid
// into the module under test at build time only (go build -overlay); nothing
// of it exists in the repository.
//
// All state is global and unsynchronised on purpose: the scheduler guarantees
// that exactly one goroutine of the simulation runs at any moment.
package verifsimrt

import (
	"math/rand"
	"runtime/debug"
	"time"
)

// ---- steps and preemption ---------------------------------------------------

// Left is the number of steps the running task may still take before the
// runtime takes over (end of its quantum or of its step budget).
var Left int64 = 1 << 62

// Y is called before every statement of the code under test.
func Y() {
	Left--
	if Left < 0 {
		slow()
	}
}

var (
	granted  int64 // steps granted at the last refill
	consumed int64 // steps consumed in earlier grants
	limit    int64 = 1 << 61
	sched    *Sched
)

// StepLimit is panicked when a step budget is exhausted.
type StepLimit struct{ Steps int64 }

// Steps returns the number of steps executed so far in this process.
func Steps() int64 { return consumed + granted - Left }

// SetBudget allows n more steps from now on (n<=0: no limit).
func SetBudget(n int64) {
	consumed = Steps()
	if n <= 0 {
		limit = 1 << 61
	} else {
		limit = consumed + n
	}
	refill()
}

func refill() {
	g := limit - consumed
	if sched != nil && sched.cur != nil {
		q := sched.Quantum()
		if q > 0 && q < g {
			g = q
		}
	}
	granted, Left = g, g
}

func slow() {
	Left = 0
	consumed += granted
	granted = 0
	if consumed >= limit {
		s := consumed
		limit = 1 << 61
		refill()
		panic(StepLimit{s})
	}
	if sched != nil && sched.cur != nil {
		sched.switchTask()
	}
	refill()
}

// Task is one simulated thread.
type Task struct {
	ID    int
	fn    func()
	ch    chan struct{}
	done  bool
	Panic interface{}
	Stack string // where Panic was raised
}

// Sched runs tasks one at a time; Pick chooses who runs next, Quantum how long.
type Sched struct {
	Tasks    []*Task
	Pick     func(n int) int
	Quantum  func() int64
	cur      *Task
	main     chan struct{}
	Switches int
	runnable []*Task
}

// RunTasks runs fns to completion under the scheduler.
func RunTasks(fns []func(), pick func(n int) int, quantum func() int64) *Sched {
	s := &Sched{Pick: pick, Quantum: quantum, main: make(chan struct{})}
	for i, f := range fns {
		s.Tasks = append(s.Tasks, &Task{ID: i, fn: f, ch: make(chan struct{})})
	}
	for _, t := range s.Tasks {
		t := t
		go func() {
			<-t.ch
			defer func() {
				if t.Panic = recover(); t.Panic != nil {
					t.Stack = string(debug.Stack())
				}
				t.done = true
				s.finish()
			}()
			t.fn()
		}()
	}
	if len(s.Tasks) == 0 {
		return s
	}
	old := sched
	sched = s
	consumed = Steps()
	t := s.choose()
	s.cur = t
	refill()
	t.ch <- struct{}{}
	<-s.main
	sched = old
	consumed = Steps()
	refill()
	return s
}

func (s *Sched) choose() *Task {
	s.runnable = s.runnable[:0]
	for _, t := range s.Tasks {
		if !t.done {
			s.runnable = append(s.runnable, t)
		}
	}
	if len(s.runnable) == 0 {
		return nil
	}
	if len(s.runnable) == 1 {
		return s.runnable[0]
	}
	return s.runnable[s.Pick(len(s.runnable))]
}

func (s *Sched) switchTask() {
	me := s.cur
	t := s.choose()
	if t == me || t == nil {
		return
	}
	s.Switches++
	s.cur = t
	t.ch <- struct{}{}
	<-me.ch
}

func (s *Sched) finish() {
	consumed = Steps()
	granted, Left = 0, 0
	t := s.choose()
	s.cur = t
	if t == nil {
		s.main <- struct{}{}
		return
	}
	refill()
	t.ch <- struct{}{}
}

// Current returns the id of the running task (-1 outside tasks).
func Current() int {
	if sched == nil || sched.cur == nil {
		return -1
	}
	return sched.cur.ID
}

// Pause is an explicit scheduling point for harness code running in a task.
func Pause() {
	if sched != nil && sched.cur != nil {
		consumed = Steps()
		granted, Left = 0, 0
		sched.switchTask()
		refill()
	}
}

// ---- process exit -----------------------------------------------------------

// Exit is panicked when the code under test asks to terminate the process.
type Exit struct {
	Code int
	Via  string
}

// Exited is set once the simulated process has exited; later I/O has no effect.
var Exited bool

// DoExit ends the simulated process.
func DoExit(code int, via string) {
	Exited = true
	panic(Exit{code, via})
}

// ---- clock ------------------------------------------------------------------

// Clock is the simulated time since the epoch below; it only moves when told to.
var Clock time.Duration

// ClockTick, when set, is called on every reading of the clock and returns how
// far the clock advances before the reading is taken.
var ClockTick func() time.Duration

// ClockReads counts readings.
var ClockReads int64

var epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// Now reads the simulated clock.
func Now() time.Time {
	ClockReads++
	if ClockTick != nil {
		Clock += ClockTick()
	}
	return epoch.Add(Clock)
}

// Reset puts the runtime back into its initial state before a run.
func Reset() {
	Exited = false
	Clock = 0
	ClockTick = nil
	ClockReads = 0
	LogOut = nil
	rnd = nil
	ResetFS()
	SetBudget(0)
}

// LogOut receives what the code under test writes through package log.
var LogOut []byte

// Blocked is called by a task that cannot go on until another one has; it
// counts as a step, so that waiting for ever runs into the step budget.
func Blocked() {
	Y()
	if sched == nil || sched.cur == nil {
		panic("all goroutines are asleep - deadlock!")
	}
	Pause()
}

var rnd *rand.Rand

// Rand is the source package math/rand shares.
func Rand() *rand.Rand {
	if rnd == nil {
		rnd = rand.New(rand.NewSource(1))
	}
	return rnd
}
