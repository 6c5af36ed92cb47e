// Package core is the run-time of the monitors: it owns the case list seed, the
// violation / known-finding bookkeeping, the progress watchdog and the evidence.
package core

import (
	"bufio"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// RepoPath is the import path prefix of the code under test.
const RepoPath = "github.com/inklabs/rangedb"

// T is the context of one check run.
type T struct {
	Prop  string
	Tier  string
	Seed  int64
	Level string
	Root  string  // /verif
	Only  string  // run only cases whose name contains this (replay)
	Scale float64 // when set, a fraction of the cases

	muted int32 // violations of the workload are not this check's business

	start    time.Time
	lastTick int64 // unix nanos
	tickNo   int64

	mu          sync.Mutex
	evals       int64
	distinct    map[string]struct{}
	counters    map[string]int64
	samples     []interface{}
	violations  []violation
	knownHit    map[string]string
	inconcl     []string
	knownKeys   map[string]string
	assumptions []string
	rule        string
	current     map[int64]string
	finished    int32
	stopped     int32
	failures    int
	hangLimit   time.Duration
}

type violation struct {
	Key    string
	Msg    string
	Replay string
}

// New builds a context from the environment.
func New(prop string) *T {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	t := &T{
		Prop: prop, Tier: tier, Seed: seed, Level: "exploration", Root: root,
		Only:      os.Getenv("VERIF_ONLY"),
		start:     time.Now(),
		distinct:  map[string]struct{}{},
		counters:  map[string]int64{},
		knownHit:  map[string]string{},
		knownKeys: map[string]string{},
		current:   map[int64]string{},
		hangLimit: 120 * time.Second,
	}
	t.loadKnown()
	t.Tick()
	go t.watchdog()
	go watchStalls()
	return t
}

// Stalls are the moments at which a goroutine that only sleeps was woken much too late: the machine gave this process
// no time. The code under test drops a subscriber that has no room for 100 ms, which then says nothing about it.
const stallLimit = 40 * time.Millisecond

var lastStall, stallCount, maxStall int64

func watchStalls() {
	for {
		before := time.Now()
		time.Sleep(2 * time.Millisecond)
		if late := time.Since(before); late > stallLimit {
			atomic.StoreInt64(&lastStall, time.Now().UnixNano())
			atomic.AddInt64(&stallCount, 1)
			if int64(late) > atomic.LoadInt64(&maxStall) {
				atomic.StoreInt64(&maxStall, int64(late))
			}
		}
	}
}

// StalledSince tells whether the process was starved at some moment after the given one.
func StalledSince(at time.Time) bool { return atomic.LoadInt64(&lastStall) > at.UnixNano() }

// loadKnown reads lines "known: property=C07 key=<key> <text>".
func (t *T) loadKnown() {
	f, err := os.Open(filepath.Join(t.Root, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known: property="+t.Prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+t.Prop+" key=")
		parts := strings.SplitN(rest, " ", 2)
		text := ""
		if len(parts) > 1 {
			text = parts[1]
		}
		t.knownKeys[parts[0]] = text
	}
}

// SetRule documents how cases are made and what makes one non-trivial.
func (t *T) SetRule(r string) { t.rule = r }

// Assume documents an assumption in the evidence.
func (t *T) Assume(a ...string) { t.assumptions = append(t.assumptions, a...) }

// SetHangLimit changes the watchdog bound.
func (t *T) SetHangLimit(d time.Duration) { t.hangLimit = d }

// Thorough tells the tier.
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// N picks a case count by tier.
func (t *T) N(quick, thorough int) int {
	n := quick
	if t.Thorough() {
		n = thorough
	}
	if t.Scale > 0 {
		if n = int(float64(n) * t.Scale); n < 1 {
			n = 1
		}
	}
	return n
}

// Mute makes Fail ignore everything but hangs, for workloads of other checks.
func (t *T) Mute(on bool) {
	v := int32(0)
	if on {
		v = 1
	}
	atomic.StoreInt32(&t.muted, v)
}

// Rand derives a generator from the seed and the case name.
func (t *T) Rand(name string) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s", t.Seed, t.Prop, name)))
	return rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(h[:8]))))
}

// Tick records progress for the watchdog.
func (t *T) Tick() {
	atomic.StoreInt64(&t.lastTick, time.Now().UnixNano())
	atomic.AddInt64(&t.tickNo, 1)
}

// Eval counts one evaluated case.
func (t *T) Eval() {
	t.Tick()
	t.mu.Lock()
	t.evals++
	t.mu.Unlock()
}

// Distinct records a distinct non-trivial case by a signature.
func (t *T) Distinct(sig string) {
	if len(sig) > 64 {
		h := sha256.Sum256([]byte(sig))
		sig = fmt.Sprintf("%x", h[:12])
	}
	t.mu.Lock()
	t.distinct[sig] = struct{}{}
	t.mu.Unlock()
}

// Count adds to a named observation counter.
func (t *T) Count(name string, n int) {
	t.mu.Lock()
	t.counters[name] += int64(n)
	t.mu.Unlock()
}

// Counter reads a counter.
func (t *T) Counter(name string) int64 {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.counters[name]
}

// Sample keeps a few actual cases.
func (t *T) Sample(v interface{}) {
	t.mu.Lock()
	if len(t.samples) < 6 {
		t.samples = append(t.samples, v)
	}
	t.mu.Unlock()
}

// Stopped is true once enough violations are recorded.
func (t *T) Stopped() bool { return atomic.LoadInt32(&t.stopped) != 0 }

// Skip says whether a case is excluded by VERIF_ONLY.
func (t *T) Skip(name string) bool {
	return t.Stopped() || (t.Only != "" && !strings.Contains(name, t.Only))
}

// Fail records a violation (or a hit of a listed known finding).
func (t *T) Fail(caseName, key, format string, args ...interface{}) {
	t.Tick()
	if key != "hang" && atomic.LoadInt32(&t.muted) != 0 {
		t.Count("results not judged here", 1)
		return
	}
	msg := fmt.Sprintf(format, args...)
	if f := Unclear; f != nil {
		if why := f(caseName); why != "" {
			t.Inconclusive("%s: %s: %s", caseName, why, msg)
			return
		}
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if text, ok := t.knownKeys[key]; ok {
		t.knownHit[key] = text
		return
	}
	t.failures++
	if t.failures >= 10 {
		atomic.StoreInt32(&t.stopped, 1)
	}
	for _, v := range t.violations {
		if v.Key == key && len(t.violations) > 2 {
			return
		}
	}
	if len(t.violations) >= 8 {
		atomic.StoreInt32(&t.stopped, 1)
		return
	}
	dir := filepath.Join(t.Root, "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", t.Prop, len(t.violations)+1))
	body := fmt.Sprintf("property: %s\nkey: %s\ncase: %s\nreplay: cd %s && VERIF_SEED=%d VERIF_TIER=%s VERIF_ONLY='%s' ./run.sh %s\n\n%s\n",
		t.Prop, key, caseName, t.Root, t.Seed, t.Tier, caseName, t.Prop, msg)
	_ = os.WriteFile(path, []byte(body), 0o644)
	t.violations = append(t.violations, violation{key, msg, path})
	if len(t.violations) == 1 {
		// The verdict is known: further cases only add details.
		time.AfterFunc(15*time.Second, func() { atomic.StoreInt32(&t.stopped, 1) })
		time.AfterFunc(60*time.Second, t.Finish)
	}
	if len(t.violations) >= 4 {
		atomic.StoreInt32(&t.stopped, 1)
	}
}

// Failed tells whether an unlisted violation was recorded.
func (t *T) Failed() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.violations) > 0
}

// Unclear, when set, tells why a failure of a case says nothing about the code under test ("" when it does).
var Unclear func(caseName string) string

// Inconclusive records a case that could not be decided.
func (t *T) Inconclusive(format string, args ...interface{}) {
	t.mu.Lock()
	if len(t.inconcl) < 50 {
		t.inconcl = append(t.inconcl, fmt.Sprintf(format, args...))
	}
	t.counters["inconclusive"]++
	t.mu.Unlock()
}

// Guard runs f and turns a panic into a violation.
func (t *T) Guard(caseName string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if strings.Contains(st, RepoPath) {
				t.Fail(caseName, "panic", "panic: %v\n%s", r, st)
				return
			}
			panic(fmt.Sprintf("harness panic in %s: %v\n%s", caseName, r, st))
		}
	}()
	f()
}

// Try runs f and returns the panic value as text, or "".
func Try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	f()
	return ""
}

// Parallel runs f(0..n-1) on workers goroutines, in a fixed case list.
func (t *T) Parallel(n, workers int, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || t.Stopped() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Stacks returns all goroutine stacks.
func Stacks() string {
	buf := make([]byte, 8<<20)
	n := runtime.Stack(buf, true)
	return string(buf[:n])
}

// blockedRepo extracts goroutines that are blocked inside the code under test.
func blockedRepo(stacks string) []string {
	var out []string
	for _, g := range strings.Split(stacks, "\n\n") {
		head := g
		if i := strings.Index(g, "\n"); i >= 0 {
			head = g[:i]
		}
		if !strings.Contains(g, RepoPath) {
			continue
		}
		if strings.Contains(head, "minute") && (strings.Contains(head, "chan") || strings.Contains(head, "sync.") || strings.Contains(head, "semacquire") || strings.Contains(head, "select")) {
			out = append(out, g)
		}
	}
	return out
}

func (t *T) watchdog() {
	for {
		time.Sleep(time.Second)
		if atomic.LoadInt32(&t.finished) != 0 {
			return
		}
		last := atomic.LoadInt64(&t.lastTick)
		if time.Since(time.Unix(0, last)) < t.hangLimit {
			continue
		}
		no := atomic.LoadInt64(&t.tickNo)
		s1 := Stacks()
		time.Sleep(10 * time.Second)
		if atomic.LoadInt64(&t.tickNo) != no {
			continue
		}
		s2 := Stacks()
		b := blockedRepo(s2)
		if len(b) > 0 && len(blockedRepo(s1)) > 0 {
			t.Fail("watchdog", "hang", "no operation of the workload completed for %v; goroutines blocked in the code under test:\n\n%s\n\n==== all goroutines ====\n%s",
				t.hangLimit, strings.Join(b, "\n\n"), s2)
			t.Finish()
		}
		_ = os.WriteFile(filepath.Join(t.Root, "evidence", t.Prop+".stacks.txt"), []byte(s2), 0o644)
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE property=%s: no progress for %v and no goroutine blocked in the code under test\n", t.Prop, t.hangLimit)
		os.Exit(3)
	}
}

// Finish writes the evidence, prints the verdict and exits.
func (t *T) Finish() {
	if !atomic.CompareAndSwapInt32(&t.finished, 0, 1) {
		select {}
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	cov := map[string]interface{}{
		"evaluations":         t.evals,
		"distinct_nontrivial": len(t.distinct),
		"rule":                t.rule,
		"samples":             t.samples,
		"observed":            t.counters,
	}
	t.counters["machine_stalls_over_40ms"] = atomic.LoadInt64(&stallCount)
	t.counters["longest_machine_stall_ms"] = atomic.LoadInt64(&maxStall) / int64(time.Millisecond)
	if len(t.inconcl) > 0 {
		cov["inconclusive_cases"] = t.inconcl
	}
	if len(t.knownHit) > 0 {
		cov["known_findings_hit"] = t.knownHit
	}
	ev := map[string]interface{}{
		"property": t.Prop, "tier": t.Tier, "seed": t.Seed, "level": t.Level,
		"coverage": cov, "assumptions": t.assumptions,
		"wall_s": time.Since(t.start).Seconds(), "violations": len(t.violations),
	}
	if t.samples == nil {
		cov["samples"] = []interface{}{}
	}
	if t.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(3)
	}
	_ = os.MkdirAll(filepath.Join(t.Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(t.Root, "evidence", t.Prop+".json"), data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(3)
	}
	var names []string
	for n := range t.counters {
		names = append(names, n)
	}
	sort.Strings(names)
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs\n", t.Prop, t.Tier, t.Seed, t.evals, len(t.distinct), time.Since(t.start).Seconds())
	for _, n := range names {
		fmt.Printf("  observed %s=%d\n", n, t.counters[n])
	}
	var kk []string
	for k := range t.knownHit {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", t.Prop, k, t.knownHit[k])
	}
	if len(t.violations) > 0 {
		for _, v := range t.violations {
			m := v.Msg
			if len(m) > 1500 {
				m = m[:1500] + "..."
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n  [%s] %s\n", t.Prop, v.Replay, v.Key, m)
		}
		os.Exit(1)
	}
	if t.evals == 0 && t.Only == "" {
		fmt.Fprintf(os.Stderr, "error: %s observed nothing\n", t.Prop)
		os.Exit(3)
	}
	os.Exit(0)
}
