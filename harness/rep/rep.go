// Package rep is the verdict discipline shared by all checks: it counts what
// the monitors actually observed, records violations with a replay file, and
// writes the evidence file. A run that observed nothing is an error, never a pass.
package rep

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const repoPath = "github.com/renthraysk/xtorm"

type Run struct {
	ID, Tier, Level, Rule string
	Seed                  int64
	Assume                []string

	start    time.Time
	first    time.Time // of the first violation
	scale    int       // XV_SCALE (development only): divides the quick case counts
	dir      string
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []string
	viol     []string
	nviol    int64
	harness  []string
}

// Start reads the environment. The evidence directory is $VERIF_EVIDENCE
// (default /verif/evidence).
func Start(id, level, rule string) *Run {
	r := &Run{ID: id, Level: level, Rule: rule, Tier: os.Getenv("VERIF_TIER"), start: time.Now(),
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			r.Seed = v
		}
	}
	r.scale, _ = strconv.Atoi(os.Getenv("XV_SCALE"))
	r.dir = os.Getenv("VERIF_EVIDENCE")
	if r.dir == "" {
		r.dir = "/verif/evidence"
	}
	os.MkdirAll(r.dir, 0o755)
	go r.memory()
	return r
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks the amount of work for the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	if r.scale > 1 && quick > 100 {
		return max(100, quick/r.scale)
	}
	return quick
}

// enough tells a family to stop: several violations, or one some time ago.
func (r *Run) enough() bool {
	if n := r.Violations(); n >= 5 {
		return true
	} else if n == 0 {
		return false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	return time.Since(r.first) > 10*time.Second
}

// Eval counts one evaluated case; key identifies it for the distinct count
// (empty: trivial).
func (r *Run) Eval(key string) {
	atomic.AddInt64(&r.evals, 1)
	if key == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	r.evalHash(h.Sum64())
}

// EvalBytes counts one evaluated case keyed by the bytes observed.
func (r *Run) EvalBytes(b []byte) {
	atomic.AddInt64(&r.evals, 1)
	h := fnv.New64a()
	if len(b) > 8192 {
		fmt.Fprint(h, len(b))
		h.Write(b[:4096])
		h.Write(b[len(b)-4096:])
	} else {
		h.Write(b)
	}
	r.evalHash(h.Sum64())
}

func (r *Run) evalHash(h uint64) {
	r.mu.Lock()
	r.distinct[h] = struct{}{}
	r.mu.Unlock()
}

// Count adds to a named coverage counter.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
}

func (r *Run) Counter(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

// Sample keeps a few written-out cases.
func (r *Run) Sample(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.samples = append(r.samples, s)
	}
}

// Violation records a violation.
func (r *Run) Violation(format string, a ...interface{}) {
	if atomic.AddInt64(&r.nviol, 1) == 1 {
		r.mu.Lock()
		r.first = time.Now()
		r.mu.Unlock()
	}
	s := fmt.Sprintf(format, a...)
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.viol) < 20 {
		r.viol = append(r.viol, s)
	}
}

func (r *Run) Violations() int { return int(atomic.LoadInt64(&r.nviol)) }

// Harness records a failure of the harness itself: the run becomes inconclusive.
func (r *Run) Harness(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.harness) < 20 {
		r.harness = append(r.harness, fmt.Sprintf(format, a...))
	}
}

// Guard runs f; a panic raised inside the repository is a violation, one
// raised purely in the harness makes the run inconclusive.
func (r *Run) Guard(what func() string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if fromRepo(st) || fromRepo(fmt.Sprint(p)) {
				r.Violation("panic: %v\ncase: %s\n%s", p, what(), st)
			} else {
				r.Harness("panic: %v\ncase: %s\n%s", p, what(), st)
			}
			ok = false
		}
	}()
	f()
	return true
}

// Panics runs f and returns the panic value and stack, if any.
func Panics(f func()) (p interface{}, stack string) {
	defer func() {
		if p = recover(); p != nil {
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

func fromRepo(stack string) bool { return strings.Contains(stack, repoPath) }

// Watch reports a violation and ends the run when f has not finished after
// limit. Only used where the statement promises a return and everything the
// call waits for has been provided; limits are orders of magnitude above what
// a call takes.
func (r *Run) Watch(limit time.Duration, what func() string, f func()) {
	done := make(chan struct{})
	t := time.AfterFunc(limit, func() {
		select {
		case <-done:
			return
		default:
		}
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		r.Violation("no return after %v although nothing is outstanding\ncase: %s\n%s", limit, what(), buf)
		r.Finish()
	})
	defer func() {
		close(done)
		t.Stop()
	}()
	f()
}

// stuck ends the run when a single case takes minutes (it takes milliseconds,
// a few seconds for the largest ones) with repository code on some stack.
func (r *Run) stuck(what func() string, f func()) {
	t := time.AfterFunc(300*time.Second, func() { r.abandon("a case did not finish within 300 s", what()) })
	defer t.Stop()
	f()
}

func (r *Run) abandon(why, what string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	if fromRepo(string(buf)) {
		r.Violation("%s\ncase: %s\n%s", why, what, buf[:min(len(buf), 1<<16)])
	} else {
		r.Harness("%s\ncase: %s\n%s", why, what, buf[:min(len(buf), 1<<16)])
	}
	r.Finish()
}

// memory ends the run before unbounded allocation brings the machine down.
func (r *Run) memory() {
	for range time.Tick(200 * time.Millisecond) {
		b, err := os.ReadFile("/proc/self/statm")
		if err != nil {
			return
		}
		var size, rss int64
		if _, err := fmt.Sscan(string(b), &size, &rss); err != nil {
			return
		}
		if rss*int64(os.Getpagesize()) > 16<<30 {
			r.abandon("more than 16 GiB of memory in use", "see the stacks")
		}
	}
}

// Races turns the race detector's reports (GORACE log_path=<prefix>) into
// violations when they involve the repository, into harness failures otherwise.
func (r *Run) Races(prefix string) {
	files, _ := filepath.Glob(prefix + ".*")
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, rp := range strings.Split(string(b), "==================") {
			if !strings.Contains(rp, "DATA RACE") {
				continue
			}
			if fromRepo(rp) {
				r.Violation("data race:%s", rp)
			} else {
				r.Harness("data race in the harness:%s", rp)
			}
		}
	}
}

// Rng returns the generator of case i of a named family: cases are determined
// by (seed, family, i) alone.
func (r *Run) Rng(family string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", r.Seed, family, i)
	return rand.New(&src{s: h.Sum64()})
}

// src is splitmix64: cheap to seed, unlike math/rand's default source.
type src struct{ s uint64 }

func (s *src) Uint64() uint64 {
	s.s += 0x9e3779b97f4a7c15
	z := s.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (s *src) Int63() int64 { return int64(s.Uint64() >> 1) }
func (s *src) Seed(x int64) { s.s = uint64(x) }

// Each runs n cases of a family on all cores, stopping early once enough
// violations were seen.
func (r *Run) Each(family string, n int, f func(i int, rng *rand.Rand)) {
	r.EachW(family, n, runtime.GOMAXPROCS(0), f)
}

func (r *Run) EachW(family string, n, workers int, f func(i int, rng *rand.Rand)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || r.enough() {
					return
				}
				what := func() string { return fmt.Sprintf("family %s case %d seed %d", family, i, r.Seed) }
				r.stuck(what, func() { r.Guard(what, func() { f(i, r.Rng(family, i)) }) })
			}
		}()
	}
	wg.Wait()
	r.Count("cases_"+family, n)
}

var finish sync.Once

// Finish writes the evidence, prints the verdict and exits.
func (r *Run) Finish() {
	finish.Do(func() { os.Exit(r.finish()) })
	select {} // another goroutine is finishing
}

func (r *Run) finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]interface{}{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.Rule,
		"samples":             r.samples,
	}
	names := make([]string, 0)
	for k, v := range r.counters {
		cov[k] = v
		names = append(names, k)
	}
	sort.Strings(names)
	if len(r.samples) == 0 {
		cov["samples"] = []string{"(none recorded)"}
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": r.nviol,
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(r.dir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct, %.1fs\n", r.ID, r.Tier, r.Seed, r.evals, len(r.distinct), time.Since(r.start).Seconds())
	for _, k := range names {
		fmt.Printf("  %s=%d\n", k, r.counters[k])
	}
	if r.nviol > 0 {
		path := filepath.Join(r.dir, r.ID+".replay.txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "replay: VERIF_SEED=%d VERIF_TIER=%s /verif/check.sh %s\n%d violation(s)\n\n", r.Seed, r.Tier, r.ID, r.nviol)
		for i, v := range r.viol {
			fmt.Fprintf(&sb, "--- violation %d ---\n%s\n\n", i+1, v)
		}
		os.WriteFile(path, []byte(sb.String()), 0o644)
		for i, v := range r.viol {
			if i == 3 {
				break
			}
			if len(v) > 1500 {
				v = v[:1500] + "..."
			}
			fmt.Println(v)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
		return 1
	}
	if len(r.harness) > 0 {
		for _, h := range r.harness {
			fmt.Println("HARNESS:", h)
		}
		fmt.Println("INCONCLUSIVE: the harness failed")
		return 2
	}
	if r.evals == 0 || len(r.distinct) < 2 {
		fmt.Println("INCONCLUSIVE: nothing was observed")
		return 2
	}
	return 0
}

// Need makes the run inconclusive when a counter stayed below min: a workload
// that did not reach what it is meant to reach proves nothing.
func (r *Run) Need(name string, min int64) {
	if v := r.Counter(name); v < min && r.Violations() == 0 {
		r.Harness("coverage: %s=%d, need at least %d", name, v, min)
	}
}
