package conc

import (
	"testing"

	"github.com/lyraproj/dgo/verif/shim/atomic"
	"github.com/lyraproj/dgo/verif/shim/sched"
	"github.com/lyraproj/dgo/verif/shim/sync"
)

func exploreToy(t *testing.T, pre int, mk func() *sched.Program) (st sched.Stats, races, dead, panics int) {
	st = sched.Explore(sched.Config{Preemptions: pre}, func() *sched.Program {
		p := mk()
		af := p.After
		p.After = func(o *sched.Outcome) {
			if o.Diverged {
				t.Fatal("diverged")
			}
			if o.Deadlock != "" {
				dead++
			}
			if o.Races > 0 {
				races++
			}
			for _, x := range o.Panics {
				if x != nil {
					panics++
				}
			}
			if af != nil {
				af(o)
			}
		}
		return p
	})
	t.Logf("%+v races=%d dead=%d panics=%d", st, races, dead, panics)
	return
}

func TestRace(t *testing.T) {
	for _, pre := range []int{-1, 0, 2} {
		exploreToy(t, pre, func() *sched.Program {
			x := 0
			return &sched.Program{Threads: []func(){func() { x++ }, func() { x++ }}}
		})
	}
}

func TestLocked(t *testing.T) {
	for _, pre := range []int{-1, 0, 2} {
		seen := map[int]int{}
		exploreToy(t, pre, func() *sched.Program {
			x := 0
			m := &sync.Mutex{}
			inc := func() {
				m.Lock()
				y := x
				m.Unlock()
				m.Lock()
				x = y + 1
				m.Unlock()
			}
			return &sched.Program{Threads: []func(){inc, inc}, After: func(*sched.Outcome) { seen[x]++ }}
		})
		t.Log(seen)
	}
}

func TestLocked3(t *testing.T) {
	for _, pre := range []int{-1, 0, 1, 2} {
		seen := map[int]int{}
		exploreToy(t, pre, func() *sched.Program {
			x := 0
			m := &sync.RWMutex{}
			inc := func() {
				m.RLock()
				y := x
				m.RUnlock()
				m.Lock()
				x = y + 1
				m.Unlock()
			}
			return &sched.Program{Threads: []func(){inc, inc, inc}, After: func(*sched.Outcome) { seen[x]++ }}
		})
		t.Log(seen)
	}
}

func TestDead(t *testing.T) {
	for _, pre := range []int{-1, 0, 1} {
		exploreToy(t, pre, func() *sched.Program {
			m, n := &sync.Mutex{}, &sync.Mutex{}
			return &sched.Program{Threads: []func(){
				func() { m.Lock(); defer m.Unlock(); n.Lock(); defer n.Unlock() },
				func() { n.Lock(); defer n.Unlock(); m.Lock(); defer m.Unlock() }}}
		})
	}
}

func TestRRDead(t *testing.T) {
	// recursive read lock with a writer in between
	for _, pre := range []int{-1, 0, 1} {
		exploreToy(t, pre, func() *sched.Program {
			m := &sync.RWMutex{}
			return &sched.Program{Threads: []func(){
				func() { m.RLock(); defer m.RUnlock(); m.RLock(); defer m.RUnlock() },
				func() { m.Lock(); defer m.Unlock() }}}
		})
	}
}

func TestAtomic(t *testing.T) {
	for _, pre := range []int{-1, 1} {
		seen := map[int64]int{}
		exploreToy(t, pre, func() *sched.Program {
			var x int64
			inc := func() { atomic.StoreInt64(&x, atomic.LoadInt64(&x)+1) }
			return &sched.Program{Threads: []func(){inc, inc}, After: func(*sched.Outcome) { seen[x]++ }}
		})
		t.Log(seen)
	}
}

func TestOnceMap(t *testing.T) {
	for _, pre := range []int{-1, 1} {
		seen := map[int]int{}
		exploreToy(t, pre, func() *sched.Program {
			var o sync.Once
			var m sync.Map
			x := 0
			f := func() {
				o.Do(func() { x++ })
				m.LoadOrStore("a", x)
				if x != 1 {
					panic(x)
				}
			}
			return &sched.Program{Threads: []func(){f, f, f}, After: func(*sched.Outcome) { seen[x]++ }}
		})
		t.Log(seen)
	}
}

func TestRaceWindow(t *testing.T) {
	// a race that only exists in some interleavings
	for _, pre := range []int{-1, 0, 1} {
		exploreToy(t, pre, func() *sched.Program {
			m := &sync.Mutex{}
			x, done := 0, false
			_ = x
			return &sched.Program{Threads: []func(){
				func() { x = 1; m.Lock(); done = true; m.Unlock() },
				func() {
					m.Lock()
					d := done
					m.Unlock()
					if !d {
						x = 2
					}
				}}}
		})
	}
}

func TestPanic(t *testing.T) {
	exploreToy(t, -1, func() *sched.Program {
		m := &sync.Mutex{}
		return &sched.Program{Threads: []func(){
			func() { m.Lock(); defer m.Unlock(); panic("x") },
			func() { m.Lock(); defer m.Unlock(); panic("y") }}}
	})
}
