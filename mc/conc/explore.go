// Package conc holds the checks that explore the interleavings of goroutines. It is built with the race detector and with
// an overlay that makes the code under test use the controlled scheduler.
package conc

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/shim/sched"
)

// call is one operation of a thread. The real function runs under the scheduler and its result is compared with what
// the reference gives in some sequential order of all calls.
type call struct {
	name string
	real func() string
	ref  func(model interface{}) string
	// accept, when given, tells if a result is possible instead of comparing it with the one of ref
	accept func(model interface{}, got string) bool
}

func (c *call) ok(model interface{}, got string) bool {
	if c.accept != nil {
		return c.accept(model, got)
	}
	return c.ref(model) == got
}

// program is a set of threads that share an instance
type program struct {
	threads [][]call
	// model creates the reference
	model func() interface{}
	// final observes the instance, and the reference, when all threads have ended
	final    func() string
	refFinal func(model interface{}) string
	// cleanup undoes what the program did to globals
	cleanup func()
}

type history struct{}

func (h *history) Enabled(int, int) bool { return true }

type event struct {
	thread, n     int
	start, end    int
	result        string
	called, ended bool
}

//go:norace
func (e *event) begin() { e.start, e.called = sched.Steps(), true }

//go:norace
func (e *event) finish(r string) { e.end, e.result, e.ended = sched.Steps(), r, true }

// try runs f and returns its result or how it failed
func try(f func() string) string {
	s := ""
	if p, rt := fw.Try(func() { s = f() }); p != nil {
		if rt {
			return fmt.Sprintf("runtime error: %v", p)
		}
		return fmt.Sprintf("fails: %v", p)
	}
	return s
}

// explore runs all schedules of a program
func explore(t *fw.T, preemptions int, mk func() *program) {
	if !exploreOnce(t, preemptions, mk, false) {
		panic("not reached")
	}
}

// exploreWarm is explore for programs that compute parts of global values at first use. The exploration starts over when
// that made the program go a different way.
func exploreWarm(t *fw.T, preemptions int, mk func() *program) {
	for i := 0; !exploreOnce(t, preemptions, mk, i < 5); i++ {
		t.Count("restarts", 1)
	}
}

func exploreOnce(t *fw.T, preemptions int, mk func() *program, restart bool) bool {
	seen := map[string]bool{}
	diverged := false
	n := 0
	st := sched.Explore(sched.Config{Preemptions: preemptions, Stop: func() bool {
		if n++; n&63 == 0 {
			t.Touch()
		}
		return t.Expired()
	}}, func() *sched.Program {
		p := mk()
		h := &history{}
		events := make([][]*event, len(p.threads))
		sp := &sched.Program{}
		for i, cs := range p.threads {
			i, cs := i, cs
			for j := range cs {
				events[i] = append(events[i], &event{thread: i, n: j})
			}
			sp.Threads = append(sp.Threads, func() {
				for j, c := range cs {
					sched.Point(h, h, 0, true)
					events[i][j].begin()
					r := try(c.real)
					sched.Point(h, h, 1, false)
					events[i][j].finish(r)
				}
			})
		}
		sp.After = func(o *sched.Outcome) {
			if p.cleanup != nil {
				defer p.cleanup()
			}
			if restart && o.Diverged {
				diverged = true
				return
			}
			judge(t, p, events, o, seen)
		}
		return sp
	})
	t.Count("schedules", st.Runs)
	t.Count("transitions", st.Steps)
	t.Count("pruned", st.Pruned)
	if !st.Complete && !diverged {
		t.Count("incomplete", 1)
	}
	return !diverged
}

func (p *program) String() string {
	var ts []string
	for _, cs := range p.threads {
		var ns []string
		for _, c := range cs {
			ns = append(ns, c.name)
		}
		ts = append(ts, strings.Join(ns, "; "))
	}
	return strings.Join(ts, " || ")
}

func judge(t *fw.T, p *program, events [][]*event, o *sched.Outcome, seen map[string]bool) {
	where := fmt.Sprintf("%s under schedule %v", p, o.Schedule)
	switch {
	case o.Diverged:
		t.Fatalf("diverged", "", "%s: the program isn't deterministic", where)
	case o.Deadlock != "":
		t.Fatalf("deadlock", "", "%s: %s", where, o.Deadlock)
	case o.TooLong:
		t.Fatalf("livelock", "", "%s: no end", where)
	}
	for i, x := range o.Panics {
		if x != nil {
			t.Fatalf("panic", "", "%s: thread %d: %v\n%s", where, i, x, o.Stacks[i])
		}
	}
	if o.Races > 0 {
		t.Fatalf("race", "", "%s: data race%s", where, lastRace())
	}
	final := ""
	if p.final != nil {
		final = try(p.final)
	}
	var all []*event
	for _, es := range events {
		all = append(all, es...)
	}
	// what happened, independent of the schedule
	key := final
	for _, e := range all {
		key += fmt.Sprintf("|%d.%d=%s", e.thread, e.n, e.result)
	}
	t.Outcome(key)
	t.State(key)
	for _, e := range all {
		for _, f := range all {
			if e.end < f.start {
				key += fmt.Sprintf("<%d.%d,%d.%d", e.thread, e.n, f.thread, f.n)
			}
		}
	}
	if seen[key] {
		return
	}
	seen[key] = true
	if !linearize(p, events, make([]int, len(events)), nil, final, len(all)) {
		sort.Slice(all, func(i, j int) bool { return all[i].start < all[j].start })
		var rs []string
		for _, e := range all {
			rs = append(rs, fmt.Sprintf("%s of thread %d gives %s", p.threads[e.thread][e.n].name, e.thread, e.result))
		}
		t.Fatalf("order", "", "%s: no sequential order of the calls gives this: %s; finally %s", where, strings.Join(rs, ", "), final)
	}
}

// linearize tells if there is an order of the calls that respects real time and that gives the same results
func linearize(p *program, events [][]*event, pos []int, order []*event, final string, n int) bool {
	if len(order) == n {
		m := p.model()
		for _, e := range order {
			if !p.threads[e.thread][e.n].ok(m, e.result) {
				return false
			}
		}
		return p.refFinal == nil || p.refFinal(m) == final
	}
	for i, es := range events {
		if pos[i] == len(es) {
			continue
		}
		e := es[pos[i]]
		// all calls that ended before this one began come first
		ok := true
		for j, fs := range events {
			if j != i && pos[j] < len(fs) && fs[pos[j]].end < e.start {
				ok = false
			}
		}
		if !ok {
			continue
		}
		pos[i]++
		if linearize(p, events, pos, append(order, e), final, n) {
			pos[i]--
			return true
		}
		pos[i]--
	}
	return false
}

var raceFn = regexp.MustCompile(`(?m)^  (\S+\.\S+)\(\)\n\s+(\S+):(\d+)`)

// lastRace returns the functions of the last report of the race detector
func lastRace() string {
	m := regexp.MustCompile(`log_path=(\S+)`).FindStringSubmatch(os.Getenv("GORACE"))
	if m == nil {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", m[1], os.Getpid()))
	if err != nil {
		return ""
	}
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	var r []string
	for _, part := range strings.Split(s, "\n\n") {
		if f := raceFn.FindStringSubmatch(part); f != nil && len(r) < 2 {
			r = append(r, fmt.Sprintf("%s (%s:%s)", f[1], filepath.Base(f[2]), f[3]))
		}
	}
	return ": " + strings.Join(r, " and ")
}
