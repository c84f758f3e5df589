package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Check decides one property.
type Check struct {
	ID    string
	Level string
	Rule  string // how cases are made and what makes one non-trivial
	Run   func(c *C)
	// Assume lists what the verdict relies on.
	Assume []string
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// C is one run of a check.
type C struct {
	*Check
	Tier string
	Seed uint64
	Only string
	Dir  string // scratch directory of this run

	jobs []job

	evals    atomic.Int64
	cases    atomic.Int64
	mu       sync.Mutex
	counts   map[string]int64
	seen     map[uint64]struct{}
	samples  []any
	viol     []violation
	inconcl  []string
	known    map[string]bool
	listed   map[string]bool
	required map[string]int64
	stop     atomic.Bool
	running  running
	maxViol  int
	After    func() // runs when all cases have ended
	Restore  func() // undoes what a check did to the process, before anything is reported
	Serial   bool   // one case at a time
}

type violation struct {
	Case  string   `json:"case"`
	What  string   `json:"what"`
	Trace []string `json:"trace"`
	Stack string   `json:"stack,omitempty"`
}

type job struct {
	name string
	f    func(t *T)
}

// T is one case.
type T struct {
	C    *C
	Name string
	Rng  *rand.Rand
	R    io.Reader
	mute bool // another property's workload: its verdicts do not count
	log  []string
	obs  map[string]int64
}

type caseEnd struct{}

type randReader struct{ s *rand.ChaCha8 }

func (r randReader) Read(p []byte) (int, error) { return r.s.Read(p) }

func seedOf(parts ...any) [32]byte { return sha256.Sum256([]byte(fmt.Sprint(parts...))) }

func newReader(parts ...any) io.Reader { return randReader{rand.NewChaCha8(seedOf(parts...))} }

// N picks the number of cases by tier.
func (c *C) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Cases adds n cases.
func (c *C) Cases(name string, n int, f func(t *T, i int)) {
	for i := 0; i < n; i++ {
		c.jobs = append(c.jobs, job{fmt.Sprintf("%s#%d", name, i), func(t *T) { f(t, i) }})
	}
}

// One adds one case.
func (c *C) One(name string, f func(t *T)) { c.jobs = append(c.jobs, job{name, f}) }

// Require makes the run inconclusive unless the counter reached min.
func (c *C) Require(name string, min int64) { c.required[name] = min }

func (t *T) Logf(f string, a ...any) {
	if len(t.log) > 4000 {
		t.log = append(t.log[:0:0], t.log[len(t.log)-2000:]...)
	}
	t.log = append(t.log, fmt.Sprintf(f, a...))
}

// Violate records a violation of the property and ends the case.
func (t *T) Violate(f string, a ...any) {
	if t.mute {
		panic(caseEnd{})
	}
	t.violate(fmt.Sprintf(f, a...), "")
	panic(caseEnd{})
}

func (t *T) violate(what, stack string) {
	c := t.C
	c.mu.Lock()
	defer c.mu.Unlock()
	tr := t.log
	if len(tr) > 600 {
		tr = append([]string{fmt.Sprintf("... %d earlier events", len(tr)-600)}, tr[len(tr)-600:]...)
	}
	c.viol = append(c.viol, violation{t.Name, what, append([]string(nil), tr...), stack})
	if len(c.viol) >= c.maxViol {
		c.stop.Store(true)
	}
}

// Skip ends the case as inconclusive: something outside the property went wrong.
func (t *T) Skip(f string, a ...any) {
	if t.mute {
		panic(caseEnd{})
	}
	c := t.C
	c.mu.Lock()
	if len(c.inconcl) < 50 {
		c.inconcl = append(c.inconcl, t.Name+": "+fmt.Sprintf(f, a...))
	} else {
		c.inconcl[49] = "..."
	}
	c.mu.Unlock()
	panic(caseEnd{})
}

// Known reports an observed defect: one which the known-findings file lists is printed, any other is a violation.
func (t *T) Known(s string) {
	if t.mute {
		return
	}
	if !t.C.listed[s] {
		t.Violate("%s", s)
	}
	t.C.mu.Lock()
	t.C.known[s] = true
	t.C.mu.Unlock()
}

// loadKnown reads the findings which the file lists for the property.
func (c *C) loadKnown(path string) {
	c.listed = map[string]bool{}
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(l, "KNOWN-FINDING: property="+c.ID+" "); ok {
			c.listed[strings.TrimSpace(s)] = true
		}
	}
}

// Eval counts one decision of an oracle.
func (t *T) Eval() { t.C.evals.Add(1) }

// Count adds to an observed-event counter.
func (t *T) Count(name string, n int64) { t.obs[name] += n }

// Seen counts a distinct, non-trivial situation.
func (t *T) Seen(parts ...any) {
	if t.mute {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0})
	}
	t.C.mu.Lock()
	t.C.seen[h.Sum64()] = struct{}{}
	t.C.mu.Unlock()
}

// Sample keeps a case for the evidence file.
func (t *T) Sample(v any) {
	t.C.mu.Lock()
	if len(t.C.samples) < 6 {
		t.C.samples = append(t.C.samples, v)
	}
	t.C.mu.Unlock()
}

func (t *T) wantSample() bool {
	t.C.mu.Lock()
	defer t.C.mu.Unlock()
	return len(t.C.samples) < 6
}

// inLibrary reports whether the panic came out of the code under test (or something it called).
func inLibrary(stack string) bool {
	seenPanic := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") || strings.Contains(l, "runtime/panic.go") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "github.com/RTann/libsignal-go/") {
			return true
		}
		if strings.HasPrefix(l, "verif/harness") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func (c *C) runJob(j job) {
	t := &T{C: c, Name: j.name, obs: map[string]int64{}}
	t.Rng = rand.New(rand.NewChaCha8(seedOf("rng", c.Seed, c.ID, j.name)))
	t.R = newReader("reader", c.Seed, c.ID, j.name)
	c.cases.Add(1)
	c.running.start(j.name)
	defer c.running.end(j.name)
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(caseEnd); !ok {
				st := string(debug.Stack())
				if inLibrary(st) {
					t.violate(fmt.Sprintf("the library panicked: %v", p), st)
				} else if what := fmt.Sprint(p); strings.Contains(what, "nil pointer dereference") || strings.Contains(what, " is nil, not ") {
					// the monitors use what a call gave when it gave no error
					t.violate(fmt.Sprintf("the library returned nothing and no error (%v)", p), st)
				} else {
					c.mu.Lock()
					c.inconcl = append(c.inconcl, fmt.Sprintf("%s: harness panic: %v\n%s", j.name, p, st))
					c.mu.Unlock()
				}
			}
		}
		c.mu.Lock()
		for k, v := range t.obs {
			c.counts[k] += v
		}
		c.mu.Unlock()
	}()
	j.f(t)
}

func (c *C) execute(workers int) {
	jobs := c.jobs
	if c.Only != "" {
		jobs = nil
		for _, j := range c.jobs {
			if j.name == c.Only || strings.HasPrefix(j.name, c.Only+"#") {
				jobs = append(jobs, j)
			}
		}
	}
	if c.Serial {
		workers = 1
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if !c.stop.Load() {
					t0 := time.Now()
					c.runJob(j)
					if os.Getenv("VERIF_TIMES") != "" {
						fmt.Printf("# %s %.3fs\n", j.name, time.Since(t0).Seconds())
					}
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func (c *C) finish(start time.Time, evDir, replayDir string) int {
	if c.Restore != nil {
		c.Restore()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	var missing []string
	if c.Only == "" && len(c.viol) == 0 {
		for k, min := range c.required {
			if os.Getenv("VMON_MARGINS") != "" {
				fmt.Printf("MARGIN %.2f %s %q %d of %d\n", float64(c.counts[k])/float64(min), c.ID, k, c.counts[k], min)
			}
			if c.counts[k] < min {
				missing = append(missing, fmt.Sprintf("monitor observed %d of %q, expected at least %d", c.counts[k], k, min))
			}
		}
	}
	sort.Strings(missing)
	c.inconcl = append(c.inconcl, missing...)

	obs := map[string]int64{}
	for k, v := range c.counts {
		obs[k] = v
	}
	rule := c.Rule
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": map[string]any{
			"evaluations":         c.evals.Load(),
			"distinct_nontrivial": len(c.seen),
			"rule":                rule,
			"samples":             c.samples,
			"cases":               c.cases.Load(),
			"observed":            obs,
			"inconclusive":        c.inconcl,
			"known_findings":      keys(c.known),
		},
		"assumptions": append([]string{"holds for the executions counted here and says nothing about others"}, c.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(c.viol),
	}
	if c.samples == nil {
		ev["coverage"].(map[string]any)["samples"] = []any{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	if c.Only == "" {
		os.MkdirAll(evDir, 0o755)
		if err := os.WriteFile(filepath.Join(evDir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("cannot write evidence:", err)
			return 2
		}
	}
	for k := range c.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct, %.1fs\n", c.ID, c.Tier, c.Seed, c.cases.Load(), c.evals.Load(), len(c.seen), time.Since(start).Seconds())
	names := make([]string, 0, len(obs))
	for k := range obs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("  %-48s %d\n", k, obs[k])
	}
	if len(c.viol) > 0 {
		os.MkdirAll(replayDir, 0o755)
		for i, v := range c.viol {
			path := filepath.Join(replayDir, fmt.Sprintf("%s-%d-%d.json", c.ID, c.Seed, i))
			rb, _ := json.MarshalIndent(map[string]any{
				"property": c.ID, "seed": c.Seed, "tier": c.Tier, "case": v.Case, "what": v.What, "trace": v.Trace, "stack": v.Stack,
				"replay_cmd": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s -case '%s'", c.Seed, c.Tier, c.ID, v.Case),
			}, "", " ")
			os.WriteFile(path, rb, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
			fmt.Printf("  case %s: %s\n", v.Case, v.What)
		}
		return 1
	}
	if len(c.inconcl) > 0 {
		for _, s := range c.inconcl {
			fmt.Println("INCONCLUSIVE:", s)
		}
		return 2
	}
	return 0
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func newC(chk *Check, tier string, seed uint64) *C {
	return &C{Check: chk, Tier: tier, Seed: seed, counts: map[string]int64{}, seen: map[uint64]struct{}{}, known: map[string]bool{}, required: map[string]int64{}, maxViol: 5, running: running{m: map[string]time.Time{}}}
}

func u64(b []byte) uint64 { return binary.LittleEndian.Uint64(b) }
