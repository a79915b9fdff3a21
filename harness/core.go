// Package harness decides the properties of /verif/properties.jsonl by
// generated-input search against the adapter in /repo.
package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- settings

func envSeed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func tier() string {
	if thorough() {
		return "thorough"
	}
	return "quick"
}

// subSeed derives a non-zero rapid seed from VERIF_SEED and a name.
func subSeed(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", envSeed(), name)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

// ---------------------------------------------------------------- evidence

// Evidence counts what one check actually covered.
type Evidence struct {
	mu          sync.Mutex
	property    string
	rule        string
	level       string
	assumptions []string
	evaluations int
	nontrivial  map[uint64]struct{}
	labels      map[string]int
	subs        map[string]int
	samples     []interface{}
	sampleEvery int
	extra       map[string]interface{}
	start       time.Time
}

func newEvidence(property, rule string, assumptions ...string) *Evidence {
	return &Evidence{property: property, rule: rule, level: "exploration", assumptions: assumptions,
		nontrivial: map[uint64]struct{}{}, labels: map[string]int{}, subs: map[string]int{},
		extra: map[string]interface{}{}, start: time.Now(), sampleEvery: 1}
}

// Case records one generated case: key identifies it (for distinctness),
// nontrivial says whether it counts by the rule, sample writes it out.
func (e *Evidence) Case(key string, nontrivial bool, sample func() interface{}) {
	h := fnv.New64a()
	h.Write([]byte(key))
	e.mu.Lock()
	defer e.mu.Unlock()
	e.evaluations++
	if nontrivial {
		k := h.Sum64()
		if _, seen := e.nontrivial[k]; !seen {
			e.nontrivial[k] = struct{}{}
			// keep the 1st, 8th, 64th ... distinct non-trivial case
			if len(e.nontrivial) >= e.sampleEvery && len(e.samples) < 6 {
				e.sampleEvery *= 8
				e.samples = append(e.samples, sample())
			}
		}
	}
}

// Label classifies generated cases.
func (e *Evidence) Label(l string) { e.LabelN(l, 1) }

// LabelN adds n to a class.
func (e *Evidence) LabelN(l string, n int) {
	e.mu.Lock()
	e.labels[l] += n
	e.mu.Unlock()
}

// Set stores an extra measured value.
func (e *Evidence) Set(k string, v interface{}) {
	e.mu.Lock()
	e.extra[k] = v
	e.mu.Unlock()
}

// Write stores the evidence file named by VERIF_EVIDENCE.
func (e *Evidence) Write(t testing.TB) {
	path := os.Getenv("VERIF_EVIDENCE")
	if path == "" {
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	cov := map[string]interface{}{
		"evaluations":         e.evaluations,
		"distinct_nontrivial": len(e.nontrivial),
		"rule":                e.rule,
		"samples":             e.samples,
		"classes":             e.labels,
		"checks_per_subtest":  e.subs,
	}
	if e.samples == nil {
		cov["samples"] = []interface{}{}
	}
	for k, v := range e.extra {
		cov[k] = v
	}
	viol := 0
	if t.Failed() {
		viol = 1
	}
	doc := map[string]interface{}{
		"property": e.property, "tier": tier(), "seed": envSeed(), "level": e.level,
		"coverage": cov, "wall_s": time.Since(e.start).Seconds(), "violations": viol,
	}
	if e.assumptions != nil {
		doc["assumptions"] = e.assumptions
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		t.Fatalf("evidence: %v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		t.Fatalf("evidence: %v", err)
	}
}

// ---------------------------------------------------------------- running

func setFlag(name, value string) {
	if err := flag.Set(name, value); err != nil {
		panic(err)
	}
}

// run executes one rapid property as a subtest with a pinned seed and count.
func run(t *testing.T, e *Evidence, name string, quick, deep int, prop func(*rapid.T)) {
	t.Helper()
	n := quick
	if thorough() {
		n = deep
	}
	if v := os.Getenv("VERIF_CHECKS"); v != "" { // development only
		n, _ = strconv.Atoi(v)
	}
	if t.Failed() && time.Since(e.start) > secs(150) {
		t.Logf("%s is left out: there is a verdict", name)
		return
	}
	t.Run(name, func(t *testing.T) {
		setFlag("rapid.checks", strconv.Itoa(n))
		setFlag("rapid.seed", strconv.FormatUint(subSeed(t.Name()), 10))
		shrink := os.Getenv("VERIF_SHRINK") // development only
		if shrink == "" {
			shrink = "20s"
		}
		setFlag("rapid.shrinktime", shrink)
		e.mu.Lock()
		e.subs[name] = n
		e.mu.Unlock()
		done := 0
		var verdict time.Time // of the first failing case
		rapid.Check(t, func(rt *rapid.T) {
			if !verdict.IsZero() && time.Since(verdict) > secs(150) {
				rt.SkipNow() // making the example smaller takes too long
			}
			defer func() {
				if rt.Failed() && verdict.IsZero() {
					realTime()
					verdict = time.Now()
				}
			}()
			setClock(caseTime())
			bulk.Store(rapid.SampledFrom([]int64{0, 0, 0, 0, 0, 0, 3000, 9000, 70000}).Draw(rt, "bulk"))
			defer realTime() // rapid has a deadline of its own
			prop(rt)
			done++
		})
		if done == 0 && !t.Failed() {
			fmt.Println("no case was judged")
			os.Exit(3)
		}
	})
}

// ---------------------------------------------------------------- small helpers

func mustJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func contains(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// history renders a step log for failure messages.
func history(steps []string) string { return "\n  " + strings.Join(steps, "\n  ") }

// watchdog runs f and reports whether it returned within d.
func watchdog(d time.Duration, f func()) (finished bool, panicked interface{}) {
	if hung.Load() && d > secs(15) {
		d = secs(15) // there is a verdict: what follows serves to make the example smaller
	}
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		return true, p
	case <-time.After(d):
		hung.Store(true)
		return false, nil
	}
}

var hung atomic.Bool

func secs(n int) time.Duration { return time.Duration(n) * time.Second }

// doc is a JSON object.
type doc = map[string]interface{}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
