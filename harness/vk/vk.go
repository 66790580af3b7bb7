// Package vk is the kit shared by all checks: seeded randomness, counters of
// what the monitors observed, verdicts, and the journal of the current case.
package vk

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

var stderr = os.Stderr

// Run collects the result of one check process.
type Run struct {
	Prop  string
	Seed  int64
	Tier  string
	Shard int
	Of    int

	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	counts     map[string]int64
	samples    []string
	violations []Violation
	violKinds  map[string]int
	known      []string
	inconcl    []string
	out        string
	journal    *os.File
	journalMu  sync.Mutex
	start      time.Time
	lastFlush  time.Time
	progress   atomic.Int64
	total      time.Duration // for the run
	budget     atomic.Int64  // until the end of the current part
	timeOver   sync.Once
}

// Violation is one observed violation.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

// Start begins a run of the check of prop.
func Start(prop string) *Run {
	r := &Run{
		Prop: prop, Seed: envInt("VERIF_SEED", 1), Tier: os.Getenv("VERIF_TIER"),
		Shard: int(envInt("VERIF_SHARD", 0)), Of: int(envInt("VERIF_SHARDS", 1)),
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, violKinds: map[string]int{},
		out: os.Getenv("VERIF_OUT"), start: time.Now(), total: time.Duration(envInt("VERIF_BUDGET", 0)) * time.Second,
	}
	r.Until(1, 1)
	if r.Tier == "" {
		r.Tier = "quick"
	}
	// The logs of the code under test are formatted, but of no interest.
	if flag.Set("logtostderr", "true") == nil {
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stderr = f
		}
	}
	if j := os.Getenv("VERIF_JOURNAL"); j != "" {
		r.journal, _ = os.Create(j)
		// Goroutines are dumped with the time they have been blocked for
		// only if a collection saw them blocked.
		go func() {
			for {
				time.Sleep(15 * time.Second)
				runtime.GC()
			}
		}()
	}
	return r
}

// Thorough reports whether this is a thorough run.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N returns q in a quick and t in a thorough run.
func (r *Run) N(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Mine reports whether case i belongs to this shard.
func (r *Run) Mine(i int) bool { return r.Of <= 1 || i%r.Of == r.Shard }

// Rand returns a generator determined by the seed and the given labels.
func (r *Run) Rand(labels ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, r.Seed, "|", r.Prop, "|")
	for _, l := range labels {
		fmt.Fprint(h, l, "|")
	}
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Eval counts n executions.
func (r *Run) Eval(n int) {
	r.mu.Lock()
	r.evals += int64(n)
	r.mu.Unlock()
	r.progress.Add(1)
}

// Progress returns a number that changes with every evaluation.
func (r *Run) Progress() int64 { return r.progress.Load() }

// Hash returns a hash of the values.
func Hash(vals ...any) uint64 {
	h := fnv.New64a()
	for _, v := range vals {
		fmt.Fprint(h, v)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Distinct records a non-trivial case by its identity.
func (r *Run) Distinct(vals ...any) { r.DistinctHash(Hash(vals...)) }

// DistinctHash records a non-trivial case by the hash of its identity.
func (r *Run) DistinctHash(h uint64) {
	r.mu.Lock()
	r.distinct[h] = struct{}{}
	r.mu.Unlock()
}

// Count adds n to a named counter of observations.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counts[name] += int64(n)
	r.mu.Unlock()
}

// Sample records an actual case; only a few are kept.
func (r *Run) Sample(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		r.samples = append(r.samples, s)
	}
}

// WantSample reports whether another sample would be kept.
func (r *Run) WantSample() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.samples) < 6
}

// Violation records a violation. kind groups violations of the same sort.
func (r *Run) Violation(kind, format string, args ...any) {
	r.mu.Lock()
	r.violKinds[kind]++
	if r.violKinds[kind] <= 2 && len(r.violations) < 40 {
		d := fmt.Sprintf(format, args...)
		if len(d) > 20000 {
			d = d[:20000] + "..."
		}
		r.violations = append(r.violations, Violation{kind, d})
		fmt.Fprintf(stderr, "violation (%s): %s\n", kind, d)
	}
	r.mu.Unlock()
	r.Flush()
}

// Violations returns the number of violations recorded so far.
func (r *Run) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, c := range r.violKinds {
		n += c
	}
	return n
}

// Until begins part i of the n parts of the run, which is over when this share
// of the time of the run is.
func (r *Run) Until(i, n int) {
	r.budget.Store(int64(r.total) * int64(i) / int64(n))
}

// TooMany reports whether enough violations were seen to stop, or the time of
// the run is over.
func (r *Run) TooMany() bool {
	if b := time.Duration(r.budget.Load()); b > 0 && time.Since(r.start) > b {
		r.timeOver.Do(func() { r.Count("time_over", 1) })
		return true
	}
	return r.Violations() >= 10
}

// Known reports the observation of a known finding, listed by id.
func (r *Run) Known(id string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k == id {
			return
		}
	}
	r.known = append(r.known, id)
}

// Inconclusive records that something could not be decided.
func (r *Run) Inconclusive(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.inconcl) < 20 {
		r.inconcl = append(r.inconcl, fmt.Sprintf(format, args...))
	}
}

// Journal notes the case that is about to run, for the event of a crash.
func (r *Run) Journal(format string, args ...any) {
	if r.journal == nil {
		return
	}
	r.journalMu.Lock()
	defer r.journalMu.Unlock()
	b := []byte(fmt.Sprintf(format, args...))
	if len(b) > 1<<16 {
		b = b[:1<<16]
	}
	r.journal.WriteAt(b, 0)
	r.journal.Truncate(int64(len(b)))
}

// Flush writes the result so far.
func (r *Run) Flush() {
	if r.out == "" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.lastFlush = time.Now()
	res := map[string]any{
		"evaluations": r.evals, "distinct": len(r.distinct), "counts": r.counts, "samples": r.samples,
		"violations": r.violations, "violation_kinds": r.violKinds, "known": r.known, "inconclusive": r.inconcl,
		"wall_s": time.Since(r.start).Seconds(), "finished": false,
	}
	r.write(res)
}

func (r *Run) write(res map[string]any) {
	b, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		panic(err)
	}
	os.WriteFile(r.out+".tmp", b, 0o644)
	os.Rename(r.out+".tmp", r.out)
}

// Finish writes the final result.
func (r *Run) Finish() {
	if r.out == "" {
		b, _ := json.Marshal(r.counts)
		fmt.Fprintf(stderr, "%s: evals=%d distinct=%d violations=%v known=%v inconclusive=%v %s %.1fs\n", r.Prop, r.evals, len(r.distinct), r.violKinds, r.known, r.inconcl, b, time.Since(r.start).Seconds())
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	hs := make([]byte, 0, 8*len(r.distinct))
	for h := range r.distinct {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	os.WriteFile(r.out+".distinct", hs, 0o644)
	r.write(map[string]any{
		"evaluations": r.evals, "distinct": len(r.distinct), "counts": r.counts, "samples": r.samples,
		"violations": r.violations, "violation_kinds": r.violKinds, "known": r.known, "inconclusive": r.inconcl,
		"wall_s": time.Since(r.start).Seconds(), "finished": true,
	})
}

// PanicInfo describes a recovered panic.
type PanicInfo struct {
	Value any
	Stack string
}

// InRepo reports whether code of the repository was executing at the panic,
// i.e. a repository frame is closer to the panic than any harness frame.
func (p *PanicInfo) InRepo() bool {
	lines := strings.Split(p.Stack, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "github.com/openconfig/gnmi/") && !strings.HasPrefix(l, "github.com/openconfig/gnmi/proto") {
			return true
		}
		if strings.HasPrefix(l, "verifharness/") {
			return false
		}
	}
	return false
}

// Catch runs f and returns the panic it ended with, or nil.
func Catch(f func()) (p *PanicInfo) {
	defer func() {
		if v := recover(); v != nil {
			p = &PanicInfo{v, string(debug.Stack())}
		}
	}()
	f()
	return nil
}

// Guard runs f; a panic out of repository code is a violation, one out of the
// harness is passed on. It reports whether f returned normally.
func (r *Run) Guard(kind, desc string, f func()) bool {
	p := Catch(f)
	if p == nil {
		return true
	}
	if !p.InRepo() {
		panic(fmt.Sprintf("%v\n%s", p.Value, p.Stack))
	}
	r.Violation("panic:"+kind, "%s\npanic: %v\n%s", desc, p.Value, p.Stack)
	return false
}

// Stacks returns the stacks of all goroutines.
func Stacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

// SortedKeys returns the sorted keys of m.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Main runs the check as the single test of the binary.
func Main(t *testing.T, prop string, f func(t *testing.T, r *Run)) {
	r := Start(prop)
	f(t, r)
	r.Finish()
}

// Parallel runs f(i) for i in [0,n) on all processors.
func Parallel(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}
