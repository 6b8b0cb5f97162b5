// Package core runs bounded exhaustive explorations: it executes every
// enumerated case on a worker pool, counts what was covered, confirms and
// records violations and writes the evidence file.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the machinery for one property.
type Check struct {
	Prop        string
	Level       string // model_checking | fault_enumeration | exploration
	Rule        string // how cases are made and what makes one non-trivial
	Assumptions []string
	Run         func(r *Runner)
}

var Checks = map[string]*Check{}

func Register(c *Check) { Checks[c.Prop] = c }

// Runner is one run of one check.
type Runner struct {
	Check   *Check
	Tier    string
	Seed    int
	Only    string // replay: run only the case with this key
	Verif   string // the verification directory
	Workers int

	start     time.Time
	deadline  time.Time
	truncated int32

	jobs chan job
	wg   sync.WaitGroup

	mu       sync.Mutex
	states   map[uint64]struct{}
	outcomes map[string]int64
	samples  []any
	counters map[string]int64
	viol     []violation
	known    []knownFinding
	nviol    int32
	inflight map[string]time.Time

	cases, transitions, traces, nontrivial int64
	maxSamples                             int
}

type job struct {
	key string
	f   func(t *T)
}

type violation struct {
	Property string   `json:"property"`
	Key      string   `json:"key"`
	Sig      string   `json:"sig"`
	Detail   string   `json:"detail"`
	Reruns   int      `json:"reproduced"`
	Trace    []string `json:"trace,omitempty"`
	Tier     string   `json:"tier"`
}

type knownFinding struct {
	sig  *regexp.Regexp
	key  *regexp.Regexp
	det  *regexp.Regexp
	what string
	hits int
	eg   string
}

// T is one execution of one case.
type T struct {
	R     *Runner
	Key   string
	fails []failure
	log   []string
	quiet bool // confirmation run: do not count

	sampled       bool
	steps, states int64
}

type failure struct{ sig, detail string }

type stopCase struct{}

// Thorough reports whether the deep tier is running.
func (r *Runner) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough tier.
func (r *Runner) Pick(q, th int) int {
	if r.Thorough() {
		return th
	}
	return q
}

// Expired reports whether the internal deadline has passed; enumeration then stops
// and the evidence says exhaustive=false.
func (r *Runner) Expired() bool {
	if time.Now().After(r.deadline) {
		atomic.StoreInt32(&r.truncated, 1)
		return true
	}
	return false
}

// Truncate records that the space was not fully enumerated.
func (r *Runner) Truncate() { atomic.StoreInt32(&r.truncated, 1) }

// Enough reports whether so many violations were found that going on is useless.
func (r *Runner) Enough() bool { return atomic.LoadInt32(&r.nviol) >= 25 }

// Stop reports whether enumeration should end now.
func (r *Runner) Stop() bool { return r.Enough() || r.Expired() }

// Go runs f as the case named key on the worker pool.
func (r *Runner) Go(key string, f func(t *T)) {
	if r.Only != "" && r.Only != key {
		return
	}
	if r.Stop() {
		return
	}
	r.wg.Add(1)
	r.jobs <- job{key, f}
}

// Wait waits for all cases enqueued so far.
func (r *Runner) Wait() { r.wg.Wait() }

// Do runs f as the case named key synchronously on the calling goroutine.
func (r *Runner) Do(key string, f func(t *T)) *T {
	if r.Only != "" && !strings.HasPrefix(r.Only, key) && !strings.HasPrefix(key, r.Only) {
		return nil
	}
	return r.exec(job{key, f})
}

// Go2 is Go for cases whose results later cases are built from: in a replay they run
// even when they are not the replayed case, without being judged.
func (r *Runner) Go2(key string, f func(t *T)) {
	if r.Only != "" && r.Only != key {
		r.runOnce(job{key, f}, true)
		return
	}
	r.Go(key, f)
}

// Count adds n to a named counter of the evidence file.
func (r *Runner) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Step counts n transitions (commands, statements, fault points or schedules executed).
func (t *T) Step(n int) {
	if !t.quiet {
		atomic.AddInt64(&t.R.transitions, int64(n))
		atomic.AddInt64(&t.steps, int64(n))
	}
}

// Trace counts n model traces compared with the implementation.
func (t *T) Trace(n int) {
	if !t.quiet {
		atomic.AddInt64(&t.R.traces, int64(n))
	}
}

// State records a state that was reached; distinct ones are counted.
func (t *T) State(parts ...string) bool {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0xff})
	}
	k := h.Sum64()
	atomic.AddInt64(&t.states, 1)
	t.R.mu.Lock()
	_, ok := t.R.states[k]
	if !ok {
		t.R.states[k] = struct{}{}
	}
	t.R.mu.Unlock()
	return !ok
}

// Outcome classifies the execution; a histogram goes to the evidence file.
func (t *T) Outcome(s string) {
	if t.quiet {
		return
	}
	t.R.mu.Lock()
	t.R.outcomes[s]++
	t.R.mu.Unlock()
}

// Nontrivial counts the case as non-trivial.
func (t *T) Nontrivial() {
	if !t.quiet {
		atomic.AddInt64(&t.R.nontrivial, 1)
	}
}

// Sample keeps the value as one of the written-out samples if there is room.
func (t *T) Sample(v any) {
	if t.quiet {
		return
	}
	t.sampled = true
	t.R.mu.Lock()
	n := len(t.R.samples)
	if n < t.R.maxSamples || (n < 3*t.R.maxSamples && t.R.cases%997 == 0) {
		t.R.samples = append(t.R.samples, v)
	}
	t.R.mu.Unlock()
}

// Logf adds a line to the trace kept with a violation.
func (t *T) Logf(format string, args ...any) {
	t.log = append(t.log, fmt.Sprintf(format, args...))
}

// Fail records that the property is broken in this case.
func (t *T) Fail(sig, format string, args ...any) {
	t.fails = append(t.fails, failure{sig, fmt.Sprintf(format, args...)})
}

// Failed reports whether the case already failed.
func (t *T) Failed() bool { return len(t.fails) > 0 }

// Fatal records a failure and ends the case.
func (t *T) Fatal(sig, format string, args ...any) {
	t.Fail(sig, format, args...)
	panic(stopCase{})
}

// Broken ends the case because of an error of the harness itself.
func Broken(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: "+format+"\n", args...)
	fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
	os.Exit(3)
}

func (r *Runner) runOnce(j job, quiet bool) (t *T) {
	t = &T{R: r, Key: j.key, quiet: quiet}
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(stopCase); ok {
				return
			}
			st := string(debug.Stack())
			t.fails = append(t.fails, failure{"panic", fmt.Sprintf("panic: %v\n%s", v, st)})
		}
	}()
	j.f(t)
	return t
}

func (r *Runner) exec(j job) *T {
	r.mu.Lock()
	r.inflight[j.key] = time.Now()
	r.mu.Unlock()
	t := r.runOnce(j, false)
	if !t.sampled && t.steps > 0 {
		t.Sample(map[string]any{"case": j.key, "transitions": t.steps, "states": t.states, "failed": t.Failed()})
	}
	atomic.AddInt64(&r.cases, 1)
	if len(t.fails) > 0 {
		// Confirm: the same failure must show again.
		repro := 1
		for i := 0; i < 3; i++ {
			t2 := r.runOnce(j, true)
			for _, f := range t2.fails {
				if f.sig == t.fails[0].sig {
					repro++
					break
				}
			}
		}
		if repro >= 2 {
			for _, f := range t.fails {
				r.report(violation{Property: r.Check.Prop, Key: j.key, Sig: f.sig, Detail: f.detail, Reruns: repro, Trace: t.log, Tier: r.Tier})
			}
		} else {
			r.Count("unreproducible", 1)
			fmt.Fprintf(os.Stderr, "note: not reproducible, ignored: %s %s: %s\n", j.key, t.fails[0].sig, t.fails[0].detail)
		}
	}
	r.mu.Lock()
	delete(r.inflight, j.key)
	r.mu.Unlock()
	return t
}

func (r *Runner) report(v violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := range r.known {
		k := &r.known[i]
		if k.sig.MatchString(v.Sig) && k.key.MatchString(v.Key) && (k.det == nil || k.det.MatchString(v.Detail)) {
			k.hits++
			if k.eg == "" {
				k.eg = v.Key
			}
			return
		}
	}
	atomic.AddInt32(&r.nviol, 1)
	r.viol = append(r.viol, v)
}

func (r *Runner) worker() {
	for j := range r.jobs {
		r.exec(j)
		r.wg.Done()
	}
}

var knownRe = regexp.MustCompile(`^known: property=(\S+) sig=(\S+) key=(\S+)(?: detail=(\S+))? :: (.*)$`)

func (r *Runner) loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for n, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "fixed:") {
			continue
		}
		m := knownRe.FindStringSubmatch(line)
		if m == nil {
			Broken("%s:%d: malformed line", path, n+1)
		}
		if m[1] != r.Check.Prop {
			continue
		}
		k := knownFinding{sig: regexp.MustCompile("^(?:" + m[2] + ")$"), key: regexp.MustCompile("^(?:" + m[3] + ")$"), what: m[5]}
		if m[4] != "" {
			k.det = regexp.MustCompile(m[4])
		}
		r.known = append(r.known, k)
	}
}

// Options of a run.
type Options struct {
	Tier     string
	Seed     int
	Only     string
	Verif    string // /verif
	Evidence string // evidence file
	Budget   time.Duration
	NoKnown  bool
}

// Run runs the check and returns the exit code.
func Run(c *Check, o Options) int {
	r := &Runner{Check: c, Tier: o.Tier, Seed: o.Seed, Only: o.Only, Verif: o.Verif, start: time.Now(),
		states: map[uint64]struct{}{}, outcomes: map[string]int64{}, counters: map[string]int64{},
		inflight: map[string]time.Time{}, maxSamples: 4}
	r.deadline = r.start.Add(o.Budget)
	r.Workers = runtime.GOMAXPROCS(0)
	if !o.NoKnown {
		r.loadKnown(filepath.Join(o.Verif, "known_findings.txt"))
	}
	r.jobs = make(chan job, 64)
	for i := 0; i < r.Workers; i++ {
		go r.worker()
	}
	// Watchdog: a case that does not end is a violation (all explored executions are
	// tiny; the limit is several orders of magnitude above the normal duration).
	go func() {
		for {
			time.Sleep(5 * time.Second)
			r.mu.Lock()
			for k, at := range r.inflight {
				if time.Since(at) > 150*time.Second {
					r.viol = append(r.viol, violation{Property: c.Prop, Key: k, Sig: "hang", Detail: "execution did not finish within 150 s", Reruns: 1, Tier: r.Tier})
					r.mu.Unlock()
					os.Exit(r.finish(o))
				}
			}
			r.mu.Unlock()
		}
	}()
	c.Run(r)
	r.Wait()
	return r.finish(o)
}

func (r *Runner) finish(o Options) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	sort.SliceStable(r.viol, func(i, j int) bool {
		if len(r.viol[i].Key) != len(r.viol[j].Key) {
			return len(r.viol[i].Key) < len(r.viol[j].Key)
		}
		return r.viol[i].Key < r.viol[j].Key
	})
	for _, k := range r.known {
		if k.hits > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases, e.g. %s)\n", r.Check.Prop, k.what, k.hits, k.eg)
		}
	}
	knownHits := 0
	for _, k := range r.known {
		knownHits += k.hits
	}
	cov := map[string]any{
		"states":                        len(r.states),
		"transitions":                   r.transitions,
		"traces_validated_against_impl": r.traces,
		"evaluations":                   r.cases,
		"distinct_nontrivial":           r.nontrivial,
		"rule":                          r.Check.Rule,
		"samples":                       r.samples,
		"exhaustive":                    r.truncated == 0 && r.nviol == 0 && r.Only == "",
		"outcomes":                      r.outcomes,
		"known_finding_cases":           knownHits,
	}
	if r.Check.Level != "model_checking" {
		// One evaluation is one execution of the code under test.
		cov["evaluations"] = r.transitions
		cov["cases"] = r.cases
		delete(cov, "transitions")
		delete(cov, "traces_validated_against_impl")
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	for k, v := range r.counters {
		cov[k] = v
	}
	ev := map[string]any{
		"property":    r.Check.Prop,
		"tier":        r.Tier,
		"seed":        r.Seed,
		"level":       r.Check.Level,
		"coverage":    cov,
		"assumptions": r.Check.Assumptions,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(r.viol),
	}
	if o.Evidence != "" {
		os.MkdirAll(filepath.Dir(o.Evidence), 0755)
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			Broken("%v", err)
		}
		if err := os.WriteFile(o.Evidence, append(b, '\n'), 0644); err != nil {
			Broken("%v", err)
		}
	}
	if len(r.viol) > 0 {
		dir := filepath.Join(o.Verif, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		for i, v := range r.viol {
			if i >= 10 {
				fmt.Printf("... %d more\n", len(r.viol)-i)
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Check.Prop, i+1))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, append(b, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Check.Prop, path)
			d := v.Detail
			if len(d) > 1500 {
				d = d[:1500] + "..."
			}
			fmt.Printf("  case: %s\n  what: %s: %s\n", v.Key, v.Sig, strings.ReplaceAll(d, "\n", "\n        "))
		}
		return 1
	}
	ex := "exhaustive"
	if r.truncated != 0 {
		ex = "NOT exhaustive (internal deadline)"
	}
	fmt.Printf("%s %s ok: cases=%d states=%d transitions=%d traces=%d %s %.1fs\n", r.Check.Prop, r.Tier, r.cases, len(r.states), r.transitions, r.traces, ex, time.Since(r.start).Seconds())
	if os.Getenv("MC_VERBOSE") != "" {
		keys := make([]string, 0, len(r.outcomes))
		for k := range r.outcomes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("  outcome %-40s %d\n", k, r.outcomes[k])
		}
		for k, v := range r.counters {
			fmt.Printf("  counter %-40s %d\n", k, v)
		}
	}
	return 0
}
