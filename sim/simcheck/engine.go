package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"runtime/debug"
	"strings"

	rt "github.com/arl/go-detour/verifsimrt"
)

// ---- decisions ---------------------------------------------------------------

// Source is the one place every decision of a run comes from: a seeded
// generator when searching, a recorded sequence when replaying or shrinking.
type Source struct {
	state  uint64
	replay []uint32
	isRep  bool
	pos    int
	rec    []uint32
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func (s *Source) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	return mix(s.state)
}

// Draw returns a decision in [0,n). 0 is by convention the tamest one.
func (s *Source) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			if v >= uint32(n) {
				v %= uint32(n)
			}
		}
	} else {
		v = uint32(s.next() % uint64(n))
	}
	s.pos++
	s.rec = append(s.rec, v)
	return int(v)
}

// Chance is true with probability num/den; the tame answer is false.
func (s *Source) Chance(num, den int) bool { return s.Draw(den) >= den-num }

// Range draws from [lo,hi].
func (s *Source) Range(lo, hi int) int { return lo + s.Draw(hi-lo+1) }

// Pick draws one of the given values (first is the tamest).
func (s *Source) Pick(v ...int) int { return v[s.Draw(len(v))] }

// Float draws from [0,1) on a grid of 1/1024.
func (s *Source) Float() float64 { return float64(s.Draw(1024)) / 1024 }

// Perm draws a permutation.
func (s *Source) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - s.Draw(i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---- runs --------------------------------------------------------------------

// Violation is what a broken property produces.
type Violation struct {
	Class string // coarse identity, kept while shrinking
	Msg   string
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

// Skip is panicked to abandon a run that cannot be judged.
type Skip struct{ Why string }

// R is one simulated run.
type R struct {
	Source
	Prop  string
	Tier  string
	Index int

	hash     uint64
	Trace    []string
	traceOn  bool
	Faults   map[string]int64
	Probes   map[string]int64
	States   map[uint64]struct{}
	nontriv  bool
	Switches int64
	SimTime  int64 // simulated nanoseconds
	Ops      int64
}

func newR(prop, tier string) *R {
	return &R{Prop: prop, Tier: tier, Faults: map[string]int64{}, Probes: map[string]int64{}, hash: 14695981039346656037}
}

func (r *R) mixHash(s string) {
	h := r.hash
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	r.hash = h
}

// Logf records an event of the run's history.
func (r *R) Logf(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	r.mixHash(s)
	r.mixHash("\n")
	r.Ops++
	if r.traceOn && len(r.Trace) < 4000 {
		r.Trace = append(r.Trace, s)
	}
}

// Fault counts a fault that actually struck.
func (r *R) Fault(kind string) { r.Faults[kind]++; r.nontriv = true }

// Probe counts a situation the search is meant to reach.
func (r *R) Probe(name string) { r.Probes[name]++ }

// NonTrivial marks the run as having exercised what the property is about.
func (r *R) NonTrivial() { r.nontriv = true }

// State records a visited state.
func (r *R) State(parts ...interface{}) {
	if r.States == nil {
		r.States = map[uint64]struct{}{}
	}
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	r.States[h.Sum64()] = struct{}{}
}

// Fail reports a violation.
func (r *R) Fail(class, format string, a ...interface{}) {
	panic(&Violation{class, fmt.Sprintf(format, a...)})
}

// Skip abandons the run.
func (r *R) Skip(why string) { panic(Skip{why}) }

// DefaultBudget bounds the steps of one call into the code under test.
const DefaultBudget = 40_000_000

// Call runs code under test. Panics, process exits and lack of progress are
// violations of every property.
func (r *R) Call(what string, f func()) { r.CallB(what, DefaultBudget, f) }

// CallB is Call with an explicit step budget.
func (r *R) CallB(what string, budget int64, f func()) {
	out := r.Try(what, budget, f)
	switch v := out.(type) {
	case nil:
	case rt.Exit:
		rt.Exited = false
		r.Fail("process-exit", "%s ended the process (%s, status %d): %s", what, v.Via, v.Code, strings.TrimSpace(string(rt.LogOut)))
	case rt.Crash:
		panic(v)
	}
}

// Try is CallB but hands process exits and injected crashes back to the caller.
func (r *R) Try(what string, budget int64, f func()) (out interface{}) {
	own := rt.Current() < 0 // inside tasks the budget is the scheduler run's
	if own {
		rt.SetBudget(budget)
	}
	defer func() {
		e := recover()
		if own {
			rt.SetBudget(0)
		}
		switch v := e.(type) {
		case nil:
		case *Violation, Skip:
			panic(v)
		case rt.Exit, rt.Crash:
			out = v
		case rt.StepLimit:
			panic(&Violation{"no-progress", fmt.Sprintf("%s did not finish within %d steps", what, budget)})
		default:
			st := string(debug.Stack())
			panic(&Violation{"panic", fmt.Sprintf("%s panicked: %v\n%s", what, v, repoFrames(st))})
		}
	}()
	f()
	return nil
}

// repoPanic reports whether the code under test, and not the simulation, raised
// the panic v with the given stack.
func repoPanic(v interface{}, st string) bool {
	switch v.(type) {
	case *Violation, Skip, rt.Exit, rt.Crash, rt.StepLimit:
		return false
	}
	// The innermost frames come first, those of the recovery before the panic.
	if k := strings.Index(st, "\npanic("); k >= 0 {
		st = st[k+1:]
	}
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "main.") || strings.Contains(l, "verifsimrt") {
			return false
		}
		if strings.HasPrefix(l, "github.com/arl/") {
			return true
		}
	}
	return false
}

// repoFrames keeps the frames of the code under test (without addresses).
func repoFrames(st string) string {
	var out []string
	lines := strings.Split(st, "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i], "github.com/arl/") && !strings.Contains(lines[i], "verifsimrt") {
			fn := lines[i]
			if k := strings.LastIndex(fn, "("); k > 0 {
				fn = fn[:k]
			}
			loc := strings.TrimSpace(lines[i+1])
			if k := strings.Index(loc, " +0x"); k > 0 {
				loc = loc[:k]
			}
			if k := strings.Index(loc, "/src/"); k > 0 && strings.Contains(loc, ".build") {
				loc = loc[k+5:]
			}
			out = append(out, "    "+fn+" "+loc)
			if len(out) >= 6 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// Tasks runs fns as simulated threads, preempted at arbitrary statements.
func (r *R) Tasks(budget int64, maxQuantum int, fns ...func()) {
	rt.SetBudget(budget)
	s := rt.RunTasks(fns, r.Draw, func() int64 {
		if maxQuantum <= 0 {
			return 0
		}
		// Mostly short quanta of varying scale; 0 means "run on".
		k := r.Draw(8)
		if k == 0 {
			return int64(maxQuantum)
		}
		return int64(1 + r.Draw(1+maxQuantum>>uint(2*(k-1))))
	})
	rt.SetBudget(0)
	r.Switches += int64(s.Switches)
	for _, t := range s.Tasks {
		if t.Panic != nil {
			switch v := t.Panic.(type) {
			case rt.StepLimit:
				r.Fail("no-progress", "tasks did not finish within %d steps", budget)
			case rt.Exit:
				r.Fail("process-exit", "a task ended the process (%s)", v.Via)
			default:
				if repoPanic(v, t.Stack) {
					r.Fail("panic", "a task panicked: %v\n%s", v, repoFrames(t.Stack))
				}
				panic(v)
			}
		}
	}
}

// Outcome of one run.
type Outcome struct {
	V       *Violation
	Skipped string
	Broken  string // harness trouble
	R       *R
	Choices []uint32
}

// execute performs one run; choices==nil searches with the given seed.
func execute(p *Prop, tier string, seed uint64, index int, choices []uint32, replay, trace bool) (o Outcome) {
	r := newR(p.ID, tier)
	r.Index = index
	r.traceOn = trace
	if replay {
		r.isRep, r.replay = true, choices
	} else {
		h := fnv.New64a()
		h.Write([]byte(p.ID))
		r.state = mix(mix(seed)^h.Sum64()) + mix(uint64(index)*0x9e3779b97f4a7c15+1)
	}
	rt.Reset()
	o.R = r
	defer func() {
		e := recover()
		o.Choices = r.rec
		r.SimTime = int64(rt.Clock)
		switch v := e.(type) {
		case nil:
		case *Violation:
			o.V = v
			r.Logf("VIOLATION %s", v.Error())
		case Skip:
			o.Skipped = v.Why
		default:
			if st := string(debug.Stack()); repoPanic(v, st) {
				o.V = &Violation{"panic", fmt.Sprintf("panic: %v\n%s", v, repoFrames(st))}
				r.Logf("VIOLATION %s", o.V.Error())
				return
			}
			o.Broken = fmt.Sprintf("%v\n%s", v, debug.Stack())
		}
	}()
	p.Run(r)
	return
}

// Prop is one property and its simulation.
type Prop struct {
	ID          string
	Run         func(*R)
	Quick, Full int // runs per tier
	Rule        string
	Real        []string
	Stub        []string
	Assume      []string
	FaultKinds  []string
	Level       string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

func f32bits(f float32) uint32 { return math.Float32bits(f) }
