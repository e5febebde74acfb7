package fw

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// hangLimit is how long a single case may run without progress before it is considered hung. Cases take micro- to
// milliseconds, so the limit only triggers on genuine non-termination, also on a heavily loaded machine.
const hangLimit = 100 * time.Second

// Main is the entry point: mc run ID | mc worker ... | mc case ID tier index | mc replay FILE
func Main() {
	debug.SetMaxStack(64 << 20)
	a := os.Args[1:]
	if len(a) == 0 {
		usage()
	}
	switch a[0] {
	case "list":
		ids := make([]string, 0)
		for id := range Checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "race":
		// exit 0 when the check needs the race build
		if Checks[a[1]] != nil && Checks[a[1]].Race {
			os.Exit(0)
		}
		os.Exit(1)
	case "run":
		os.Exit(run(a[1], a[2:]))
	case "worker":
		worker(a[1:])
	case "case":
		idx, _ := strconv.ParseInt(a[3], 10, 64)
		os.Exit(oneCase(a[1], a[2], idx, true))
	case "prefix":
		n := func(s string) int64 { v, _ := strconv.ParseInt(s, 10, 64); return v }
		os.Exit(prefix(a[1], a[2], n(a[3]), n(a[4]), n(a[5])))
	case "replay":
		os.Exit(replay(a[1]))
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: mc list | run ID [-o evidence.json] | case ID TIER INDEX | replay FILE")
	os.Exit(2)
}

func newC(id, tier string, shard, shards int64) *C {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c := &C{Tier: tier, Thorough: tier == "thorough", Seed: seed, shard: shard, shards: shards, only: -1, upto: 1 << 62,
		res:      &Result{Counters: map[string]int64{}, Stages: map[string]int64{}, KnownHit: map[string]bool{}},
		known:    map[string]bool{},
		states:   map[uint64]struct{}{},
		outcomes: map[uint64]struct{}{},
		perKind:  map[string]int{},
		deadline: time.Now().Add(24 * time.Hour)}
	c.journal, _ = OpenJournal("")
	for _, k := range LoadKnown(os.Getenv("MC_KNOWN"), id) {
		c.known[k] = true
	}
	return c
}

func oneCase(id, tier string, idx int64, verbose bool) int {
	ck := Checks[id]
	if ck == nil {
		usage()
	}
	limitMemory(ck)
	c := newC(id, tier, 0, 1)
	c.only = idx
	c.verbose = verbose
	c.known = map[string]bool{}
	ck.Run(c)
	for _, f := range c.res.Failures {
		b, _ := json.Marshal(f)
		fmt.Println("FAILURE " + string(b))
	}
	if c.res.NFail > 0 {
		return 1
	}
	return 0
}

// worker SHARD args: ID tier shard shards from deadlineUnix journal out
// limitMemory bounds the address space so that runaway allocation ends this process, and is attributed to the running
// case, instead of exhausting the machine.
func limitMemory(ck *Check) {
	if ck.Race {
		return // the race detector reserves a huge address space
	}
	const max = 6 << 30
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: max, Max: max})
}

func worker(a []string) {
	id, tier := a[0], a[1]
	n := func(s string) int64 { v, _ := strconv.ParseInt(s, 10, 64); return v }
	c := newC(id, tier, n(a[2]), n(a[3]))
	c.from = n(a[4])
	c.deadline = time.Unix(n(a[5]), 0)
	limitMemory(Checks[id])
	var err error
	if c.journal, err = OpenJournal(a[6]); err != nil {
		panic(err)
	}
	Checks[id].Run(c)
	c.res.Done = true
	b, _ := json.Marshal(c.res)
	if err = os.WriteFile(a[7], b, 0o644); err != nil {
		panic(err)
	}
	dump := func(m map[uint64]struct{}, ext string) {
		buf := make([]byte, 0, len(m)*8)
		for k := range m {
			buf = binary.LittleEndian.AppendUint64(buf, k)
		}
		if err = os.WriteFile(a[7]+ext, buf, 0o644); err != nil {
			panic(err)
		}
	}
	dump(c.states, ".states")
	dump(c.outcomes, ".outcomes")
}

type wstate struct {
	crashes []Failure
	results []*Result
	infra   []string
}

func runShard(id, tier string, shard, shards int64, deadline time.Time, dir string) *wstate {
	ws := &wstate{}
	self, _ := os.Executable()
	from := int64(0)
	for round := 0; ; round++ {
		base := filepath.Join(dir, fmt.Sprintf("w%d_%d", shard, round))
		cmd := exec.Command(self, "worker", id, tier, fmt.Sprint(shard), fmt.Sprint(shards), fmt.Sprint(from), fmt.Sprint(deadline.Unix()), base+".j", base+".json")
		var out tailBuf
		cmd.Stdout = &out
		cmd.Stderr = &out
		if err := cmd.Start(); err != nil {
			ws.infra = append(ws.infra, err.Error())
			return ws
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		hung := false
		lastP, lastT := uint64(0), time.Now()
	wait:
		for {
			select {
			case err = <-done:
				break wait
			case <-time.After(time.Second):
				_, p, _ := ReadJournal(base + ".j")
				if p != lastP {
					lastP, lastT = p, time.Now()
				} else if time.Since(lastT) > hangLimit && p > 0 {
					hung = true
					_ = cmd.Process.Kill()
				} else if time.Now().After(deadline.Add(150 * time.Second)) {
					_ = cmd.Process.Kill()
					ws.infra = append(ws.infra, "worker killed after deadline")
				}
			}
		}
		var r Result
		if b, e2 := os.ReadFile(base + ".json"); e2 == nil && json.Unmarshal(b, &r) == nil && r.Done && err == nil {
			ws.results = append(ws.results, &r)
			return ws
		}
		// collect the failures found before the crash
		pr := &Result{}
		if b, e2 := os.ReadFile(base + ".j.fail"); e2 == nil {
			for _, l := range bytes.Split(b, []byte("\n")) {
				var f Failure
				if len(l) > 0 && json.Unmarshal(l, &f) == nil {
					pr.Failures = append(pr.Failures, f)
					pr.NFail++
				}
			}
		}
		cur, progress, running := ReadJournal(base + ".j")
		pr.Cases = int64(progress) / 2
		pr.Notes = append(pr.Notes, fmt.Sprintf("worker %d ended early at case %d", shard, int64(cur)-1))
		ws.results = append(ws.results, pr)
		if !running && !hung && len(ws.infra) == 0 && out.String() != "" {
			// the enumeration itself, which builds its values using the code under test, failed
			ws.crashes = append(ws.crashes, Failure{Index: -1, Crash: true, Msg: fmt.Sprintf("enumeration ended: %v\n%s", err, crashHead(out.String()))})
			pr.Truncated = true
			return ws
		}
		if cur == 0 {
			ws.infra = append(ws.infra, fmt.Sprintf("worker ended before its first case: %v\n%s", err, out.String()))
			pr.Truncated = true
			return ws
		}
		idx := int64(cur) - 1
		if len(ws.infra) > 0 {
			pr.Truncated = true
			return ws
		}
		what := "process died"
		if hung {
			what = "no termination"
		}
		if len(out.String()) == 0 && !hung && err != nil && strings.Contains(err.Error(), "killed") {
			ws.infra = append(ws.infra, fmt.Sprintf("worker killed from outside at case %d: %v", idx, err))
			pr.Truncated = true
			return ws
		}
		ws.crashes = append(ws.crashes, Failure{Index: idx, Crash: true, Msg: fmt.Sprintf("%s: %v\n%s", what, err, crashHead(out.String()))})
		if len(ws.crashes) >= 4 || time.Now().After(deadline) {
			pr.Truncated = true
			return ws
		}
		from = idx + 1
	}
}

func crashHead(s string) string {
	for _, m := range []string{"fatal error:", "panic:", "runtime: goroutine stack exceeds", "WARNING: DATA RACE"} {
		if i := strings.Index(s, m); i >= 0 {
			return clip(s[i:], 3000)
		}
	}
	return clip(s, 3000)
}

// tailBuf keeps the first 64k of output
type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 64<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

// rerun executes one case in a fresh process and returns the failure keys it reported, and whether the process died
func rerun(id, tier string, idx int64, limit time.Duration) (fs []Failure, died bool, out string) {
	self, _ := os.Executable()
	cmd := exec.Command(self, "case", id, tier, fmt.Sprint(idx))
	var buf tailBuf
	pr, pw, _ := os.Pipe()
	cmd.Stdout = pw
	cmd.Stderr = &buf
	lines := make(chan []byte, 1)
	go func() {
		var all bytes.Buffer
		_, _ = all.ReadFrom(pr)
		lines <- all.Bytes()
	}()
	if err := cmd.Start(); err != nil {
		return nil, false, err.Error()
	}
	_ = pw.Close()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(limit):
		_ = cmd.Process.Kill()
		<-done
		return nil, true, "no termination within " + limit.String()
	}
	so := <-lines
	for _, l := range bytes.Split(so, []byte("\n")) {
		if bytes.HasPrefix(l, []byte("FAILURE ")) {
			var f Failure
			if json.Unmarshal(l[8:], &f) == nil {
				fs = append(fs, f)
			}
		}
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
			died = true
		}
	}
	return fs, died, crashHead(buf.String())
}

// rerunPrefix executes all cases of the failing shard up to and including the failing case
func rerunPrefix(id, tier string, f Failure, shards int64, limit time.Duration) bool {
	if limit <= 0 {
		return false
	}
	self, _ := os.Executable()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	out, _ := exec.CommandContext(ctx, self, "prefix", id, tier, fmt.Sprint(f.Index%shards), fmt.Sprint(shards), fmt.Sprint(f.Index)).Output()
	for _, l := range bytes.Split(out, []byte("\n")) {
		if bytes.HasPrefix(l, []byte("FAILURE ")) {
			var g Failure
			if json.Unmarshal(l[8:], &g) == nil && g.Key == f.Key {
				return true
			}
		}
	}
	return false
}

func prefix(id, tier string, shard, shards, upto int64) int {
	c := newC(id, tier, shard, shards)
	c.upto = upto
	c.known = map[string]bool{}
	c.unlimited = true
	Checks[id].Run(c)
	for _, f := range c.res.Failures {
		if f.Index == upto {
			b, _ := json.Marshal(f)
			fmt.Println("FAILURE " + string(b))
		}
	}
	return 0
}

func caseKey(id, tier string, idx int64) (string, string) {
	// enumerate without running to obtain the key
	ck := Checks[id]
	c := newC(id, tier, 0, 1)
	c.only = idx
	stage, key := "", ""
	func() {
		defer func() { _ = recover() }()
		c2 := c
		c2.only = 1 << 61
		hookIdx = idx
		hookFn = func(s, k string) { stage, key = s, k; panic(abort{}) }
		ck.Run(c2)
	}()
	hookFn = nil
	return stage, key
}

var hookIdx int64
var hookFn func(stage, key string)

func run(id string, args []string) int {
	start := time.Now()
	ck := Checks[id]
	if ck == nil {
		usage()
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	root := os.Getenv("MC_ROOT")
	evFile := filepath.Join(root, "evidence", id+".json")
	for i := 0; i+1 < len(args); i += 2 {
		if args[i] == "-o" {
			evFile = args[i+1]
		}
	}
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 2 * time.Hour
	}
	if s := os.Getenv("MC_BUDGET_S"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	deadline := start.Add(budget)
	dir, err := os.MkdirTemp("", "mc_"+id+"_")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	shards := int64(runtime.NumCPU())
	if ck.Workers > 0 {
		shards = int64(ck.Workers)
	}
	wss := make([]*wstate, shards)
	var wg sync.WaitGroup
	for s := int64(0); s < shards; s++ {
		wg.Add(1)
		go func(s int64) {
			defer wg.Done()
			wss[s] = runShard(id, tier, s, shards, deadline, dir)
		}(s)
	}
	wg.Wait()

	tot := &Result{Counters: map[string]int64{}, Stages: map[string]int64{}, KnownHit: map[string]bool{}}
	var infra []string
	var crashes []Failure
	for _, ws := range wss {
		infra = append(infra, ws.infra...)
		crashes = append(crashes, ws.crashes...)
		for _, r := range ws.results {
			tot.Cases += r.Cases
			tot.NFail += r.NFail
			for k, v := range r.Counters {
				tot.Counters[k] += v
			}
			for k, v := range r.Stages {
				tot.Stages[k] += v
			}
			for k := range r.KnownHit {
				tot.KnownHit[k] = true
			}
			tot.Failures = append(tot.Failures, r.Failures...)
			tot.Truncated = tot.Truncated || r.Truncated
			tot.OutcomesCapped = tot.OutcomesCapped || r.OutcomesCapped
			tot.Notes = append(tot.Notes, r.Notes...)
			if len(tot.Samples) < 24 {
				k := len(r.Samples)
				if k > 4 {
					k = 4
				}
				tot.Samples = append(tot.Samples, r.Samples[:k]...)
			}
		}
	}
	nStates := unionFiles(dir, ".states")
	nOutcomes := unionFiles(dir, ".outcomes")

	// confirm the failures
	known := LoadKnown(os.Getenv("MC_KNOWN"), id)
	listed := map[string]bool{}
	for _, k := range known {
		listed[k] = true
	}
	sort.SliceStable(tot.Failures, func(i, j int) bool { return tot.Failures[i].Index < tot.Failures[j].Index })
	violations := 0
	printed := 0
	report := func(f Failure, confirmed string) {
		violations++
		p := writeReplay(root, id, tier, f, confirmed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		fmt.Printf("  case %d: %s\n  %s\n", f.Index, clip(f.Key, 600), clip(strings.ReplaceAll(f.Msg, "\n", "\n  "), 1500))
		printed++
	}
	// confirmation is bounded: it ends a minute after it began when a violation has been confirmed
	confirmStart := time.Now()
	confirmEnd := start.Add(800 * time.Second)
	if tier == "thorough" {
		confirmEnd = confirmStart.Add(time.Hour)
	}
	left := func(most time.Duration) time.Duration {
		l := time.Until(confirmEnd)
		if violations > 0 {
			if m := time.Until(confirmStart.Add(time.Minute)); m < l {
				l = m
			}
		}
		if l > most {
			l = most
		}
		return l
	}
	enumFailed := false
	for _, f := range crashes {
		if left(time.Minute) <= 0 {
			break
		}
		if f.Index < 0 {
			f.Key = "enumeration|crash"
			if !enumFailed {
				if _, died, _ := rerun(id, tier, 1<<60, left(10*time.Minute)); died {
					enumFailed = true
					tot.NFail++
					report(f, "the enumeration failed again in a fresh process")
				} else {
					infra = append(infra, f.Msg)
				}
			}
			continue
		}
		st, k := caseKey(id, tier, f.Index)
		f.Stage = st
		f.Key = st + "|crash|" + k
		if listed[f.Key] {
			tot.KnownHit[f.Key] = true
			continue
		}
		reproduced := 0
		tries := 3
		for i := 0; i < tries; i++ {
			if reproduced > 0 && left(time.Minute) <= 0 {
				tries = i
				break
			}
			_, died, out := rerun(id, tier, f.Index, hangLimit+20*time.Second)
			if died {
				reproduced++
				f.Tail = out
			}
		}
		if reproduced > 0 {
			tot.NFail++
			if printed < 10 {
				report(f, fmt.Sprintf("crashed again in %d of %d fresh processes", reproduced, tries))
			}
		} else {
			infra = append(infra, fmt.Sprintf("case %d (%s) ended a worker but not when run alone: %s", f.Index, clip(f.Key, 300), clip(f.Msg, 600)))
			tot.Truncated = true
		}
	}
	seenKind := map[string]int{}
	unconfirmed := 0
	for _, f := range tot.Failures {
		parts := strings.SplitN(f.Key, "|", 3)
		kk := strings.Join(parts[:min(2, len(parts))], "|")
		seenKind[kk]++
		if seenKind[kk] > 3 || printed >= 10 || left(time.Minute) <= 0 {
			continue
		}
		ok := 0
		for i := 0; i < 2; i++ {
			fs, _, _ := rerun(id, tier, f.Index, left(10*time.Minute))
			for _, g := range fs {
				if g.Key == f.Key {
					ok++
					break
				}
			}
		}
		if ok == 2 {
			report(f, "failed again in 2 of 2 fresh processes")
		} else if rerunPrefix(id, tier, f, shards, left(10*time.Minute)) && rerunPrefix(id, tier, f, shards, left(10*time.Minute)) {
			report(f, fmt.Sprintf("failed again in 2 of 2 fresh processes that executed all preceding cases of shard %d/%d (the failure depends on process wide state)", f.Index%shards, shards))
		} else {
			unconfirmed++
			infra = append(infra, fmt.Sprintf("failure not reproduced in isolation (%d of 2): %s: %s", ok, clip(f.Key, 300), clip(f.Msg, 600)))
			tot.Truncated = true
		}
	}
	for _, k := range known {
		if tot.KnownHit[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, clip(k, 400))
		}
	}
	for _, n := range infra {
		fmt.Printf("NOTE: %s\n", n)
	}
	wall := time.Since(start).Seconds()
	exhaustive := !tot.Truncated && len(infra) == 0
	cov := map[string]interface{}{
		"evaluations":         tot.Cases,
		"distinct_nontrivial": nOutcomes,
		"rule":                ck.Rule,
		"samples":             clipAll(tot.Samples),
		"exhaustive":          exhaustive,
		"cases_per_stage":     tot.Stages,
		"counters":            tot.Counters,
	}
	if ck.Level == "model_checking" {
		cov["states"] = nStates
		tr := tot.Counters["transitions"]
		cov["transitions"] = tr
		cov["traces_validated_against_impl"] = tot.Cases
		if n, ok := tot.Counters["schedules"]; ok {
			cov["traces_validated_against_impl"] = n
		}
	}
	if len(tot.Notes) > 0 || len(infra) > 0 {
		n := append(append([]string{}, tot.Notes...), infra...)
		if len(n) > 10 {
			n = n[:10]
		}
		for i := range n {
			n[i] = clip(n[i], 500)
		}
		cov["notes"] = n
	}
	if tot.OutcomesCapped {
		cov["distinct_counts_capped"] = true
	}
	kf := 0
	for range tot.KnownHit {
		kf++
	}
	cov["known_findings_reproduced"] = kf
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov, "wall_s": wall, "violations": violations}
	if len(ck.Assumptions) > 0 {
		ev["assumptions"] = ck.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err = os.MkdirAll(filepath.Dir(evFile), 0o755); err == nil {
		err = os.WriteFile(evFile, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s tier=%s cases=%d states=%d outcomes=%d failures=%d violations=%d known=%d exhaustive=%v wall=%.1fs\n",
		id, tier, tot.Cases, nStates, nOutcomes, tot.NFail, violations, kf, exhaustive, wall)
	ks := make([]string, 0)
	for k, v := range tot.Stages {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	for k, v := range tot.Counters {
		ks = append(ks, fmt.Sprintf("#%s=%d", k, v))
	}
	sort.Strings(ks)
	fmt.Println("  " + strings.Join(ks, " "))
	if violations > 0 {
		return 1
	}
	return 0
}

func clipAll(ss []string) []string {
	for i := range ss {
		ss[i] = clip(ss[i], 300)
	}
	return ss
}

func unionFiles(dir, ext string) int64 {
	fs, _ := filepath.Glob(filepath.Join(dir, "*"+ext))
	m := map[uint64]struct{}{}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for i := 0; i+8 <= len(b); i += 8 {
			m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
		}
	}
	return int64(len(m))
}

type replayFile struct {
	Property  string `json:"property"`
	Tier      string `json:"tier"`
	Index     int64  `json:"index"`
	Key       string `json:"key"`
	Msg       string `json:"message"`
	Crash     bool   `json:"crash,omitempty"`
	Tail      string `json:"tail,omitempty"`
	Confirmed string `json:"confirmed"`
	HowTo     string `json:"how_to_replay"`
}

func writeReplay(root, id, tier string, f Failure, confirmed string) string {
	dir := filepath.Join(root, "replay")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s_%s_%d.json", id, tier, f.Index))
	r := replayFile{id, tier, f.Index, f.Key, f.Msg, f.Crash, f.Tail, confirmed, "bash /verif/check.sh replay " + p}
	b, _ := json.MarshalIndent(r, "", " ")
	_ = os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func replay(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r replayFile
	if err = json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("replaying %s case %d: %s\n", r.Property, r.Index, r.Key)
	return oneCase(r.Property, r.Tier, r.Index, true)
}
