// Package mon is the monitoring runtime: it runs deterministic case lists in
// parallel, collects what the monitors observed and the violations they raise,
// and contains crashes and hangs of the code under observation.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const repoPath = "github.com/alexispb/mygosnmp"

// Violation is one refutation of the property.
type Violation struct {
	Section string `json:"section"`
	Index   int    `json:"index"`
	Message string `json:"message"`
	Stack   string `json:"stack,omitempty"`
}

// Run is one execution of the checks of one property.
type Run struct {
	Prop    string
	Tier    string
	Variant string
	Seed    uint64
	Workers int

	OnlySection string // replay: only this section
	OnlyIndex   int    // replay: only this case (-1 = all)

	OutFile string

	start      time.Time
	mu         sync.Mutex
	violations []Violation
	errors     []string
	events     map[string]int64
	sections   []*Section
	sigs       map[uint64]struct{}
	sigFull    bool
	samples    []string
	sampleKey  map[string]int
	evals      int64
	rule       string
	stop       atomic.Bool
	active     sync.Map // *Case -> time.Time
}

// Section is the per-section tally in the evidence.
type Section struct {
	Name  string `json:"name"`
	Cases int64  `json:"cases"`
}

// Case is one generated execution.
type Case struct {
	Any     interface{} // what a workload keeps for the case
	Run     *Run
	Section string
	Index   int
	R       *rand.Rand
	events  map[string]int64
	sigs    []uint64
}

const maxSigs = 4 << 20

// New creates a run.
func New(prop, tier, variant string, seed uint64) *Run {
	return &Run{
		Prop: prop, Tier: tier, Variant: variant, Seed: seed,
		Workers: runtime.GOMAXPROCS(0), OnlyIndex: -1,
		start: time.Now(), events: map[string]int64{}, sigs: map[uint64]struct{}{},
		sampleKey: map[string]int{},
	}
}

// Rule documents how cases are made and when one counts as non-trivial.
func (r *Run) Rule(s string) { r.rule = s }

// Thorough tells whether the deep tier is running.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a case count by tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

func seedFor(seed uint64, prop, section string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", prop, section, idx)
	return rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+1, h.Sum64()))
}

// Replica returns a case with the random choices of another run, so that what
// a child process did can be derived from its seed.
func (r *Run) Replica(prop string, seed uint64, section string, idx int) *Case {
	return &Case{Run: r, Section: section, Index: idx, R: seedFor(seed, prop, section, idx), events: map[string]int64{}}
}

type failSentinel struct{}

// Fail records a violation and abandons the case.
func (c *Case) Fail(format string, args ...interface{}) {
	c.Run.addViolation(c, fmt.Sprintf(format, args...), "")
	panic(failSentinel{})
}

// Error records a defect of the harness itself and abandons the case.
func (c *Case) Error(format string, args ...interface{}) {
	c.Run.AddError(fmt.Sprintf("%s[%d]: ", c.Section, c.Index) + fmt.Sprintf(format, args...))
	panic(failSentinel{})
}

// AddError records an inconclusive outcome: the run will not claim anything.
func (r *Run) AddError(s string) {
	r.mu.Lock()
	if len(r.errors) < 20 {
		r.errors = append(r.errors, s)
	}
	r.mu.Unlock()
	r.stop.Store(true)
}

func (r *Run) addViolation(c *Case, msg, stack string) {
	if len(msg) > 8000 {
		msg = msg[:8000] + "...(cut)"
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.violations) < 25 {
		r.violations = append(r.violations, Violation{c.Section, c.Index, msg, stack})
	}
	if len(r.violations) >= 10 {
		r.stop.Store(true)
	}
}

// Stopped tells whether enough violations were collected.
func (r *Run) Stopped() bool { return r.stop.Load() }

// Event counts an observation made by a monitor.
func (c *Case) Event(kind string) { c.events[kind]++ }

// EventN counts n observations.
func (c *Case) EventN(kind string, n int) { c.events[kind] += int64(n) }

// Sig records the signature of a distinct, non-trivial observation.
func (c *Case) Sig(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xff, 0})
	}
	c.sigs = append(c.sigs, h.Sum64())
}

// Sample stores a written-out case (a few per section).
func (c *Case) Sample(f func() string) {
	r := c.Run
	r.mu.Lock()
	ok := r.sampleKey[c.Section] < 2 && len(r.samples) < 24
	if ok {
		r.sampleKey[c.Section]++
	}
	r.mu.Unlock()
	if !ok {
		return
	}
	s := f()
	if len(s) > 600 {
		s = s[:600] + "...(cut)"
	}
	r.mu.Lock()
	r.samples = append(r.samples, fmt.Sprintf("%s[%d]: %s", c.Section, c.Index, s))
	r.mu.Unlock()
}

// Cases runs n cases of a section on all workers.
func (r *Run) Cases(section string, n int, fn func(c *Case)) { r.cases(section, n, r.Workers, fn) }

// Serial runs n cases one after another on one goroutine.
func (r *Run) Serial(section string, n int, fn func(c *Case)) { r.cases(section, n, 1, fn) }

func (r *Run) cases(section string, n, workers int, fn func(c *Case)) {
	if r.OnlySection != "" && r.OnlySection != section {
		return
	}
	sec := &Section{Name: section}
	r.mu.Lock()
	r.sections = append(r.sections, sec)
	r.mu.Unlock()
	if r.stop.Load() {
		return
	}
	first, last := 0, n
	if r.OnlyIndex >= 0 {
		first, last = r.OnlyIndex, r.OnlyIndex+1
	}
	var next atomic.Int64
	next.Store(int64(first))
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !r.stop.Load() {
				i := int(next.Add(1) - 1)
				if i >= last {
					return
				}
				r.one(sec, section, i, fn)
			}
		}()
	}
	wg.Wait()
}

func (r *Run) one(sec *Section, section string, i int, fn func(c *Case)) {
	c := &Case{Run: r, Section: section, Index: i, R: seedFor(r.Seed, r.Prop, section, i), events: map[string]int64{}}
	r.active.Store(c, time.Now())
	defer func() {
		p := recover()
		r.active.Delete(c)
		if p != nil {
			if _, ok := p.(failSentinel); !ok {
				st := string(debug.Stack())
				if RepoPanic(st) {
					r.addViolation(c, fmt.Sprintf("panic escaped from the library: %v", p), cut(st, 4000))
				} else {
					r.AddError(fmt.Sprintf("%s[%d]: harness panic: %v\n%s", section, i, p, cut(st, 4000)))
				}
			}
		}
		r.mu.Lock()
		r.evals++
		sec.Cases++
		for k, v := range c.events {
			r.events[k] += v
		}
		for _, s := range c.sigs {
			if len(r.sigs) < maxSigs {
				r.sigs[s] = struct{}{}
			} else {
				r.sigFull = true
			}
		}
		r.mu.Unlock()
	}()
	fn(c)
}

// RepoPanic tells whether a panic stack was raised below a library call (a
// library frame comes before the first harness frame, counted from the panic).
func RepoPanic(stack string) bool {
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic {
			continue
		}
		if strings.HasPrefix(l, repoPath) {
			return true
		}
		if strings.HasPrefix(l, "verif/harness") {
			return false
		}
	}
	return false
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(cut)"
	}
	return s
}

// Try runs f and returns the panic value, if any, with its stack.
func Try(f func()) (p interface{}, stack string) {
	defer func() {
		if p = recover(); p != nil {
			stack = string(debug.Stack())
		}
	}()
	f()
	return
}

// Watchdog ends the run when one case does not finish. A single case takes
// milliseconds; it is judged not to terminate only when `limit` has passed AND
// the watchdog itself completed a fixed amount of calibration work meanwhile
// (so a stalled machine cannot trigger it) AND a library frame is on a stack.
func (r *Run) Watchdog(limit time.Duration) {
	go func() {
		var work uint64 = 1
		for {
			time.Sleep(time.Second)
			for i := 0; i < 10_000_000; i++ {
				work = work*6364136223846793005 + 1442695040888963407
			}
			now := time.Now()
			var stuck *Case
			r.active.Range(func(k, v interface{}) bool {
				if now.Sub(v.(time.Time)) > limit {
					stuck = k.(*Case)
					return false
				}
				return true
			})
			if stuck == nil {
				continue
			}
			t0 := time.Now()
			for i := 0; i < 2_000_000_000; i++ {
				work = work*6364136223846793005 + 1442695040888963407
			}
			if _, still := r.active.Load(stuck); !still {
				continue
			}
			buf := make([]byte, 4<<20)
			buf = buf[:runtime.Stack(buf, true)]
			repo := strings.Contains(string(buf), "\n"+repoPath+"/")
			msg := fmt.Sprintf("call did not finish within %v (calibration work of 2e9 steps took %v, %d); library frames on stack: %v",
				limit, time.Since(t0), work&1, repo)
			if repo {
				r.addViolation(stuck, msg, cut(string(buf), 12000))
			} else {
				r.AddError(msg + "\n" + cut(string(buf), 12000))
			}
			r.Finish()
		}
	}()
}

// Result is the partial evidence file of one variant.
type Result struct {
	Prop       string           `json:"prop"`
	Tier       string           `json:"tier"`
	Variant    string           `json:"variant"`
	Seed       uint64           `json:"seed"`
	Evals      int64            `json:"evaluations"`
	Distinct   int              `json:"distinct"`
	SigCapped  bool             `json:"sig_capped"`
	Rule       string           `json:"rule"`
	Samples    []string         `json:"samples"`
	Events     map[string]int64 `json:"events"`
	Sections   []*Section       `json:"sections"`
	Violations []Violation      `json:"violations"`
	Errors     []string         `json:"errors"`
	Wall       float64          `json:"wall_s"`
}

// Finish writes the result file and exits: 0 held, 1 violated, 2 inconclusive.
func (r *Run) Finish() {
	r.mu.Lock()
	if r.evals == 0 && len(r.violations) == 0 {
		r.errors = append(r.errors, "nothing was observed")
	}
	sort.SliceStable(r.samples, func(i, j int) bool { return r.samples[i] < r.samples[j] })
	res := Result{r.Prop, r.Tier, r.Variant, r.Seed, r.evals, len(r.sigs), r.sigFull, r.rule,
		r.samples, r.events, r.sections, r.violations, r.errors, time.Since(r.start).Seconds()}
	b, _ := json.MarshalIndent(res, "", " ")
	if r.OutFile != "" {
		os.MkdirAll(filepath.Dir(r.OutFile), 0o755)
		if err := os.WriteFile(r.OutFile, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else {
		fmt.Println(string(b))
	}
	switch {
	case len(r.violations) > 0:
		os.Exit(1)
	case len(r.errors) > 0:
		for _, e := range r.errors {
			fmt.Fprintln(os.Stderr, "ERROR:", e)
		}
		os.Exit(2)
	}
	os.Exit(0)
}

// Need makes the run inconclusive when a monitor saw fewer events than it
// needs for a verdict (replays are exempt).
func (r *Run) Need(kind string, min int64) {
	if r.OnlySection != "" || r.stop.Load() {
		return
	}
	r.mu.Lock()
	n := r.events[kind]
	r.mu.Unlock()
	if n < min {
		r.AddError(fmt.Sprintf("monitor %q observed %d events, needs %d", kind, n, min))
	}
}
