// Package sync replaces the standard package in the code under test when it's run by the scheduler. All operations are
// scheduling points. The real operations are made too, when they can't block, so that the race detector sees them.
package sync

import (
	"fmt"
	"sort"
	"sync"

	"github.com/lyraproj/dgo/verif/shim/sched"
)

type Locker = sync.Locker

// Mutex is a mutual exclusion lock
type Mutex struct {
	real sync.Mutex
	held bool
}

const (
	opLock = iota
	opUnlock
	opTry
	opAnnounce
	opRLock
	opRUnlock
	opOther
)

//go:norace
func (m *Mutex) Enabled(op, _ int) bool { return op != opLock || !m.held }

// Reset makes the lock free
//
//go:norace
func (m *Mutex) Reset() {
	m.real = sync.Mutex{}
	m.held = false
}

//go:norace
func (m *Mutex) set(held bool) { m.held = held }

//go:norace
func (m *Mutex) isHeld() bool { return m.held }

func (m *Mutex) Lock() {
	if !sched.Point(m, m, opLock, false) {
		return
	}
	m.real.Lock()
	m.set(true)
}

func (m *Mutex) TryLock() bool {
	if !sched.Point(m, m, opTry, false) {
		return false
	}
	if m.isHeld() {
		return false
	}
	m.real.Lock()
	m.set(true)
	return true
}

func (m *Mutex) Unlock() {
	if !sched.Point(m, m, opUnlock, false) {
		return
	}
	m.set(false)
	m.real.Unlock()
}

// RWMutex is a reader/writer lock. A waiting writer blocks new readers, like in the standard package.
type RWMutex struct {
	real    sync.RWMutex
	writer  bool // a writer waits for the readers or has the lock
	locked  bool
	readers int
}

//go:norace
func (m *RWMutex) Enabled(op, _ int) bool {
	switch op {
	case opAnnounce:
		return !m.writer
	case opLock:
		return m.readers == 0
	case opRLock:
		return !m.writer
	}
	return true
}

// Reset makes the lock free
//
//go:norace
func (m *RWMutex) Reset() {
	m.real = sync.RWMutex{}
	m.writer, m.locked, m.readers = false, false, 0
}

//go:norace
func (m *RWMutex) announce() { m.writer = true }

//go:norace
func (m *RWMutex) setLocked(v bool) {
	m.locked = v
	m.writer = v
}

//go:norace
func (m *RWMutex) addReader(n int) { m.readers += n }

//go:norace
func (m *RWMutex) free(write bool) bool { return !m.writer && (!write || m.readers == 0) }

func (m *RWMutex) Lock() {
	if !sched.Point(m, m, opAnnounce, false) {
		return
	}
	m.announce()
	if !sched.Point(m, m, opLock, false) {
		return
	}
	m.real.Lock()
	m.setLocked(true)
}

func (m *RWMutex) TryLock() bool {
	if !sched.Point(m, m, opTry, false) {
		return false
	}
	if !m.free(true) {
		return false
	}
	m.real.Lock()
	m.setLocked(true)
	return true
}

func (m *RWMutex) Unlock() {
	if !sched.Point(m, m, opUnlock, false) {
		return
	}
	m.setLocked(false)
	m.real.Unlock()
}

func (m *RWMutex) RLock() {
	if !sched.Point(m, m, opRLock, true) {
		return
	}
	m.real.RLock()
	m.addReader(1)
}

func (m *RWMutex) TryRLock() bool {
	if !sched.Point(m, m, opTry, false) {
		return false
	}
	if !m.free(false) {
		return false
	}
	m.real.RLock()
	m.addReader(1)
	return true
}

func (m *RWMutex) RUnlock() {
	if !sched.Point(m, m, opRUnlock, true) {
		return
	}
	m.addReader(-1)
	m.real.RUnlock()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once runs a function once
type Once struct {
	real  sync.Once
	state int
}

//go:norace
func (o *Once) Enabled(int, int) bool { return o.state != 1 }

//go:norace
func (o *Once) swap(n int) (old int) {
	old = o.state
	o.state = n
	return
}

// Reset makes a function that was interrupted run again
//
//go:norace
func (o *Once) Reset() {
	if o.state == 1 {
		o.state = 0
		o.real = sync.Once{}
	}
}

func (o *Once) end() {
	if !sched.Aborting() {
		o.swap(2)
	}
}

func (o *Once) Do(f func()) {
	if !sched.Point(o, o, opOther, false) {
		return
	}
	if old := o.swap(1); old == 2 {
		o.swap(2)
		o.real.Do(func() {})
		return
	}
	o.real.Do(func() {
		defer o.end()
		f()
	})
}

// OnceFunc is like in the standard package
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// Map is a concurrent map
type Map struct {
	real sync.Map
}

func (m *Map) Enabled(int, int) bool { return true }

func (m *Map) Load(k interface{}) (interface{}, bool) {
	if !sched.Point(m, m, opOther, true) {
		return nil, false
	}
	return m.real.Load(k)
}

func (m *Map) Store(k, v interface{}) {
	if !sched.Point(m, m, opOther, false) {
		return
	}
	m.real.Store(k, v)
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if !sched.Point(m, m, opOther, false) {
		return v, false
	}
	return m.real.LoadOrStore(k, v)
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	if !sched.Point(m, m, opOther, false) {
		return nil, false
	}
	return m.real.LoadAndDelete(k)
}

func (m *Map) Delete(k interface{}) {
	if !sched.Point(m, m, opOther, false) {
		return
	}
	m.real.Delete(k)
}

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	if !sched.Point(m, m, opOther, false) {
		return nil, false
	}
	return m.real.Swap(k, v)
}

func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	if !sched.Point(m, m, opOther, false) {
		return false
	}
	return m.real.CompareAndSwap(k, o, n)
}

func (m *Map) CompareAndDelete(k, o interface{}) bool {
	if !sched.Point(m, m, opOther, false) {
		return false
	}
	return m.real.CompareAndDelete(k, o)
}

func (m *Map) Clear() {
	if !sched.Point(m, m, opOther, false) {
		return
	}
	m.real.Clear()
}

// Range visits the keys that are present at the start, in a fixed order, one step for each
func (m *Map) Range(f func(k, v interface{}) bool) {
	if !sched.Active() {
		m.real.Range(f)
		return
	}
	if !sched.Point(m, m, opOther, true) {
		return
	}
	var keys []interface{}
	m.real.Range(func(k, _ interface{}) bool {
		keys = append(keys, k)
		return true
	})
	sort.SliceStable(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, k := range keys {
		if !sched.Point(m, m, opOther, true) {
			return
		}
		if v, ok := m.real.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Pool keeps everything
type Pool struct {
	New  func() interface{}
	lock sync.Mutex
	l    []interface{}
}

func (p *Pool) Enabled(int, int) bool { return true }

func (p *Pool) Get() interface{} {
	sched.Point(p, p, opOther, false)
	p.lock.Lock()
	defer p.lock.Unlock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	sched.Point(p, p, opOther, false)
	p.lock.Lock()
	p.l = append(p.l, x)
	p.lock.Unlock()
}

// WaitGroup waits for other threads
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

//go:norace
func (w *WaitGroup) Enabled(op, _ int) bool { return op != opLock || w.n == 0 }

// Reset forgets what's waited for
//
//go:norace
func (w *WaitGroup) Reset() {
	w.real = sync.WaitGroup{}
	w.n = 0
}

//go:norace
func (w *WaitGroup) add(n int) { w.n += n }

func (w *WaitGroup) Add(n int) {
	if !sched.Point(w, w, opOther, false) {
		return
	}
	w.add(n)
	w.real.Add(n)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if sched.Point(w, w, opLock, false) {
		w.real.Wait()
	}
}

// Cond is a condition variable
type Cond struct {
	L     Locker
	order sync.Mutex
	tick  map[int]bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l, tick: map[int]bool{}} }

//go:norace
func (c *Cond) Enabled(op, thread int) bool { return op != opLock || c.tick[thread] }

func (c *Cond) Wait() {
	t := sched.Current()
	if sched.Aborting() {
		return
	}
	c.tick[t] = false
	c.L.Unlock()
	if !sched.Point(c, c, opLock, false) {
		return
	}
	delete(c.tick, t)
	c.order.Lock()
	c.order.Unlock()
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !sched.Point(c, c, opOther, false) {
		return
	}
	c.order.Lock()
	c.order.Unlock()
	for t := 0; t < 64; t++ {
		if v, ok := c.tick[t]; ok && !v {
			c.tick[t] = true
			return
		}
	}
}

func (c *Cond) Broadcast() {
	if !sched.Point(c, c, opOther, false) {
		return
	}
	c.order.Lock()
	c.order.Unlock()
	for t := range c.tick {
		c.tick[t] = true
	}
}
