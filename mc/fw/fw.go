// Package fw is the exploration framework used by every check: it enumerates cases deterministically, shards them over
// worker processes, journals the running case so that process-killing failures (stack overflow, concurrent map write,
// hang) are attributed to a case, confirms every failure by re-execution and writes replay artefacts and evidence.
package fw

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Check describes one property check.
type Check struct {
	ID    string
	Level string
	Rule  string
	// Assumptions are copied to the evidence
	Assumptions []string
	// Race is true when the check needs the race-instrumented, scheduler-controlled build
	Race bool
	// Workers limits the number of worker processes (0 = number of cpus)
	Workers int
	// Run enumerates the cases
	Run func(c *C)
}

var Checks = map[string]*Check{}

func Register(c *Check) {
	if Checks[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	Checks[c.ID] = c
}

// Failure is one violated expectation in one case
type Failure struct {
	Stage string `json:"stage"`
	Index int64  `json:"index"`
	Key   string `json:"key"` // identifies the failing input; used for the known-findings file
	Msg   string `json:"msg"`
	Crash bool   `json:"crash,omitempty"`
	Tail  string `json:"tail,omitempty"`
}

// Result is what a worker reports
type Result struct {
	Cases          int64            `json:"cases"`
	Counters       map[string]int64 `json:"counters"`
	Stages         map[string]int64 `json:"stages"`
	Samples        []string         `json:"samples"`
	Failures       []Failure        `json:"failures"`
	NFail          int64            `json:"nfail"`
	KnownHit       map[string]bool  `json:"known_hit"`
	Truncated      bool             `json:"truncated"`
	Notes          []string         `json:"notes"`
	Done           bool             `json:"done"`
	OutcomesCapped bool             `json:"outcomes_capped"`
}

// C is the enumeration context
type C struct {
	Tier      string
	Thorough  bool
	Seed      int64
	shard     int64
	shards    int64
	idx       int64
	stage     string
	only      int64 // replay only this index (-1: all)
	from      int64 // skip cases < from
	upto      int64 // skip cases > upto
	unlimited bool  // report all failures
	deadline  time.Time
	journal   *Journal
	res       *Result
	known     map[string]bool
	states    map[uint64]struct{}
	outcomes  map[uint64]struct{}
	verbose   bool
	perKind   map[string]int
}

// T is the per case context
type T struct {
	c     *C
	key   func() string
	index int64
}

const maxStates = 3000000

// Stage names the following cases
func (c *C) Stage(name string) { c.stage = name }

// Skip returns true when this process isn't responsible for the next case; the caller may use it to avoid work when
// generating. The index is advanced when true is returned.
func (c *C) skip() bool {
	i := c.idx
	c.idx++
	if c.only >= 0 {
		return i != c.only
	}
	if i%c.shards != c.shard || i < c.from || i > c.upto {
		return true
	}
	if c.res.Truncated {
		return true
	}
	if time.Now().After(c.deadline) {
		c.res.Truncated = true
		return true
	}
	return false
}

// Case runs one case when this process is responsible for it
func (c *C) Case(key func() string, body func(t *T)) {
	if hookFn != nil && c.idx == hookIdx {
		hookFn(c.stage, key())
	}
	if c.skip() {
		return
	}
	i := c.idx - 1
	t := &T{c: c, key: key, index: i}
	c.journal.Begin(i)
	c.res.Cases++
	c.res.Stages[c.stage]++
	if len(c.res.Samples) < 3 || (c.res.Cases&(c.res.Cases-1) == 0 && len(c.res.Samples) < 14) {
		c.res.Samples = append(c.res.Samples, c.stage+": "+clip(key(), 300))
	}
	if c.verbose {
		fmt.Printf("case %d stage=%s key=%s\n", i, c.stage, key())
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abort); ok {
					return
				}
				buf := make([]byte, 6000)
				n := runtime.Stack(buf, false)
				t.fail("panic", fmt.Sprintf("unexpected panic: %v\n%s", e, buf[:n]))
			}
		}()
		body(t)
	}()
	c.journal.End()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type abort struct{}

func (t *T) C() *C { return t.c }

// Failf reports a violation. The kind is a short stable word naming the broken clause and sub an optional string that
// identifies the sub case.
func (t *T) Failf(kind, sub, format string, args ...interface{}) {
	k := kind
	if sub != "" {
		k = kind + "|" + sub
	}
	t.fail(k, fmt.Sprintf(format, args...))
}

// Fatalf is like Failf but ends the case
func (t *T) Fatalf(kind, sub, format string, args ...interface{}) {
	t.Failf(kind, sub, format, args...)
	panic(abort{})
}

var dumpFile = func() *os.File {
	if p := os.Getenv("MC_DUMP"); p != "" {
		if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			return f
		}
	}
	return nil
}()

func (t *T) fail(kind, msg string) {
	c := t.c
	key := c.stage + "|" + kind + "|" + t.key()
	if c.known[key] {
		c.res.KnownHit[key] = true
		return
	}
	c.res.NFail++
	kk := c.stage + "|" + strings.SplitN(kind, "|", 2)[0]
	c.perKind[kk]++
	if c.unlimited && t.index == c.upto || !c.unlimited && c.perKind[kk] <= 12 && len(c.res.Failures) < 60 {
		f := Failure{Stage: c.stage, Index: t.index, Key: key, Msg: clip(msg, 8000)}
		c.res.Failures = append(c.res.Failures, f)
		if c.only < 0 {
			c.journal.Report(f)
		}
	}
	if dumpFile != nil { // development aid
		fmt.Fprintf(dumpFile, "%s\t%s\n", key, strings.ReplaceAll(clip(msg, 600), "\n", " "))
	}
	if c.verbose {
		fmt.Printf("FAIL %s\n   %s\n", key, msg)
	}
}

// Count adds to a named counter
func (c *C) Count(name string, n int64) { c.res.Counters[name] += n }

func (t *T) Count(name string, n int64) { t.c.res.Counters[name] += n }

// State records a canonical state
func (t *T) State(s string) {
	if len(t.c.states) < maxStates {
		t.c.states[h64(s)] = struct{}{}
	} else {
		t.c.res.OutcomesCapped = true
	}
}

// Outcome records an observed outcome
func (t *T) Outcome(s string) {
	if len(t.c.outcomes) < maxStates {
		t.c.outcomes[h64(s)] = struct{}{}
	} else {
		t.c.res.OutcomesCapped = true
	}
}

// Note records a free text note
func (c *C) Note(f string, a ...interface{}) { c.res.Notes = append(c.res.Notes, fmt.Sprintf(f, a...)) }

// Deadline returns true when time is up
func (c *C) Expired() bool {
	if time.Now().After(c.deadline) {
		c.res.Truncated = true
		return true
	}
	return false
}

// Touch tells the watchdog that progress is made inside a long case
func (t *T) Touch() { t.c.journal.Touch() }

// Expired is true when time is up: a long case must then stop
func (t *T) Expired() bool { return t.c.Expired() }

func h64(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

// Try calls f and returns the panic value as a string ("" when no panic) and whether the panic was a runtime error
func Try(f func()) (pv interface{}, rt bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); ok {
				panic(e)
			}
			pv = e
			_, rt = e.(runtime.Error)
		}
	}()
	f()
	return
}

// LoadKnown reads the known findings of one property
func LoadKnown(path, id string) (listed []string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k struct {
			Property string `json:"property"`
			Key      string `json:"key"`
		}
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			panic(fmt.Sprintf("bad known finding line %q: %v", l, err))
		}
		if k.Property == id {
			listed = append(listed, k.Key)
		}
	}
	sort.Strings(listed)
	return
}
