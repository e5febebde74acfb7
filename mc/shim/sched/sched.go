// Package sched is a controlled scheduler. Threads run one at a time and hand over control at scheduling points, which are
// the operations of the packages shim/sync and shim/atomic and calls to Yield. Explore runs a program under all
// schedules within bounds.
//
// The hand over is hidden from the race detector: only the synchronization that the program itself does orders its
// memory accesses. All functions that touch the state of the scheduler are therefore not instrumented.
package sched

import (
	"fmt"
	"runtime"
	"sync"
)

// Object is something that threads operate on. Enabled tells if the operation can proceed.
type Object interface {
	Enabled(op int, thread int) bool
}

// resetter is an object with a state that is lost when the threads that use it are aborted
type resetter interface {
	Reset()
}

type thread struct {
	id      int
	wake    chan struct{}
	obj     Object
	op      int
	read    bool
	ident   interface{}
	done    bool
	started bool
	fn      func()
	exec    *exec
	panicV  interface{}
	stack   []byte
}

type exec struct {
	threads  []*thread
	toSched  chan struct{}
	aborting bool
	touched  map[Object]bool
	steps    int
	join     sync.WaitGroup
}

var active *exec
var current *thread

// Active is true when the caller runs under the scheduler
//
//go:norace
func Active() bool { return active != nil && current != nil }

// Aborting is true when the threads are unwinding
//
//go:norace
func Aborting() bool { return active != nil && active.aborting }

// Current is the number of the running thread
//
//go:norace
func Current() int {
	if current == nil {
		return -1
	}
	return current.id
}

// Steps is the number of steps that have been made in the current execution
//
//go:norace
func Steps() int {
	if active == nil {
		return 0
	}
	active.steps++
	return active.steps
}

type always struct{}

func (always) Enabled(int, int) bool { return true }

// Point is a scheduling point before an operation on an object. ident identifies the object and read tells that the
// operation commutes with other operations on it that have read set. Returns when the operation is enabled and this thread
// is selected. It returns false when the threads are unwinding, the operation must then not be made.
//
//go:norace
func Point(ident interface{}, obj Object, op int, read bool) bool {
	t := current
	if active == nil || t == nil {
		return true
	}
	e := t.exec
	if e.aborting {
		return false
	}
	t.ident, t.obj, t.op, t.read = ident, obj, op, read
	handOver(e, t)
	if e.aborting {
		runtime.Goexit()
	}
	return true
}

// Yield is a scheduling point without condition
//
//go:norace
func Yield(ident interface{}) { Point(ident, always{}, 0, false) }

//go:norace
func handOver(e *exec, t *thread) {
	raceDisable()
	e.toSched <- struct{}{}
	<-t.wake
	raceEnable()
}

//go:norace
func (t *thread) run() {
	defer t.end()
	raceDisable()
	<-t.wake
	raceEnable()
	if t.exec.aborting {
		return
	}
	t.fn()
}

//go:norace
func (t *thread) end() {
	if r := recover(); r != nil {
		t.panicV = r
		t.stack = stack()
	}
	t.done = true
	t.exec.join.Done()
	raceDisable()
	t.exec.toSched <- struct{}{}
	raceEnable()
}

func stack() []byte {
	b := make([]byte, 4096)
	return b[:runtime.Stack(b, false)]
}

// decision of a schedule
type decision struct {
	cands   []int // the threads that may be selected, in the order of trial
	idx     int
	sleep   []int // threads that don't have to be selected here
	enabled int   // number of enabled threads
}

// Config bounds an exploration
type Config struct {
	// Preemptions is the bound of the number of times a thread that could continue is interrupted. Negative means no
	// bound: all interleavings are explored except those that only differ in the order of independent operations.
	Preemptions int
	MaxSteps    int
	MaxRuns     int64
	// Stop is called between executions
	Stop func() bool
	// Schedule, when set, is run and nothing else
	Schedule []int
}

// Program is one execution: threads and a function that is called when all have ended
type Program struct {
	Threads []func()
	// After is called after each execution
	After func(o *Outcome)
}

// Outcome of an execution
type Outcome struct {
	Schedule []int
	// Deadlock describes what the threads wait for
	Deadlock string
	// Panics by thread
	Panics []interface{}
	Stacks []string
	// Races found during this execution
	Races    int
	TooLong  bool
	Diverged bool
}

// Stats of an exploration
type Stats struct {
	Runs, Steps, Pruned int64
	Complete            bool
}

// Explore runs the programs returned by mk under all schedules
func Explore(cfg Config, mk func() *Program) (st Stats) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 5000
	}
	var path []*decision
	for {
		if cfg.MaxRuns > 0 && st.Runs >= cfg.MaxRuns || cfg.Stop != nil && cfg.Stop() {
			return
		}
		p := mk()
		races := RaceErrors()
		o, steps, pruned := runOnce(&cfg, p.Threads, &path)
		st.Steps += int64(steps)
		if pruned {
			st.Pruned++
		} else {
			st.Runs++
			o.Races = RaceErrors() - races
			if p.After != nil {
				p.After(o)
			}
		}
		if cfg.Schedule != nil || o.Diverged {
			st.Complete = !o.Diverged
			return
		}
		// next schedule
		for len(path) > 0 {
			d := path[len(path)-1]
			d.idx++
			if d.idx < len(d.cands) {
				break
			}
			path = path[:len(path)-1]
		}
		if len(path) == 0 {
			st.Complete = true
			return
		}
	}
}

//go:norace
func runOnce(cfg *Config, fns []func(), pathp *[]*decision) (o *Outcome, steps int, pruned bool) {
	e := &exec{toSched: make(chan struct{}), touched: map[Object]bool{}}
	o = &Outcome{}
	for i, f := range fns {
		t := &thread{id: i, wake: make(chan struct{}), fn: f, exec: e, obj: always{}, ident: i, read: false}
		e.threads = append(e.threads, t)
	}
	e.join.Add(len(e.threads))
	active = e
	for _, t := range e.threads {
		go t.run()
	}
	path := *pathp
	depth := 0
	cur := -1
	preempt := 0
	var sleep []int
	for {
		var enabled []int
		live := false
		for _, t := range e.threads {
			if t.done {
				continue
			}
			live = true
			if t.obj.Enabled(t.op, t.id) {
				enabled = append(enabled, t.id)
			}
		}
		if !live {
			break
		}
		if len(enabled) == 0 {
			for _, t := range e.threads {
				if !t.done {
					o.Deadlock += fmt.Sprintf("thread %d waits for %T (%d) ", t.id, t.obj, t.op)
				}
			}
			break
		}
		steps++
		if steps > cfg.MaxSteps {
			o.TooLong = true
			break
		}
		var sel int
		switch {
		case cfg.Schedule != nil:
			if depth >= len(cfg.Schedule) {
				sel = enabled[0]
				if has(enabled, cur) {
					sel = cur
				}
			} else if sel = cfg.Schedule[depth]; !has(enabled, sel) {
				o.Diverged = true
			}
			depth++
		case depth < len(path):
			d := path[depth]
			if d.enabled != len(enabled) || !has(enabled, d.cands[d.idx]) {
				o.Diverged = true
			}
			sel = d.cands[d.idx]
			sleep = append(append([]int{}, d.sleep...), d.cands[:d.idx]...)
			depth++
		default:
			d := &decision{enabled: len(enabled), sleep: sleep}
			if has(enabled, cur) && !has(sleep, cur) {
				d.cands = append(d.cands, cur)
			}
			if cfg.Preemptions < 0 || preempt < cfg.Preemptions || !has(enabled, cur) {
				for _, t := range enabled {
					if t != cur && !has(sleep, t) {
						d.cands = append(d.cands, t)
					}
				}
			}
			if len(d.cands) == 0 {
				pruned = true
			} else {
				path = append(path, d)
				sel = d.cands[0]
				depth++
			}
		}
		if pruned || o.Diverged {
			break
		}
		if cur >= 0 && sel != cur && has(enabled, cur) {
			preempt++
		}
		st := e.threads[sel]
		e.touched[st.obj] = true // here and not in Point, the race detector would see it there
		if cfg.Preemptions < 0 && cfg.Schedule == nil {
			// what remains asleep is what commutes with the selected operation
			var ns []int
			for _, u := range sleep {
				if u != sel && independent(e.threads[u], st) {
					ns = append(ns, u)
				}
			}
			sleep = ns
		} else {
			sleep = nil
		}
		o.Schedule = append(o.Schedule, sel)
		cur = sel
		resume(e, st)
	}
	*pathp = path
	// unwind threads that haven't ended
	e.aborting = true
	aborted := false
	for _, t := range e.threads {
		for !t.done {
			aborted = true
			resume(e, t)
		}
	}
	current = nil
	e.join.Wait()
	active = nil
	if aborted {
		for o := range e.touched {
			if r, ok := o.(resetter); ok {
				r.Reset()
			}
		}
	}
	for _, t := range e.threads {
		o.Panics = append(o.Panics, t.panicV)
		o.Stacks = append(o.Stacks, string(t.stack))
	}
	return
}

//go:norace
func independent(a, b *thread) bool {
	return a.ident != b.ident || a.read && b.read
}

//go:norace
func resume(e *exec, t *thread) {
	current = t
	raceDisable()
	t.wake <- struct{}{}
	<-e.toSched
	raceEnable()
	current = nil
}

//go:norace
func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
