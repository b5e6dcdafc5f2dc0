// Package vt is the shared core of the checks: it runs generated cases with
// rapid, counts what was generated, records samples for the evidence file,
// notices hangs, and keeps a description of the case that is being executed
// so that even a case that ends the process can be reported.
package vt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type recorder struct {
	mu         sync.Mutex
	evals      int64
	nontrivial map[uint64]struct{}
	classes    map[string]int64
	samples    map[string][]string
	counts     map[string]int64
}

var rec = &recorder{
	nontrivial: map[uint64]struct{}{},
	classes:    map[string]int64{},
	samples:    map[string][]string{},
	counts:     map[string]int64{},
}

// Thorough tells whether the thorough tier was asked for.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed is the seed of this process (derived by the driver from VERIF_SEED).
func Seed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VT_SEED"), 10, 64)
	if err != nil || n == 0 {
		n = 1
	}
	return n
}

// Case is one generated case.
type Case struct {
	test       string
	labels     []string
	key        string
	nontrivial bool
	sample     string
}

// Label counts the case under a class shown in the evidence.
func (c *Case) Label(l string) { c.labels = append(c.labels, l) }

// Labelf is Label with formatting.
func (c *Case) Labelf(f string, a ...interface{}) { c.Label(fmt.Sprintf(f, a...)) }

// LabelIf labels the case if cond holds.
func (c *Case) LabelIf(cond bool, l string) {
	if cond {
		c.Label(l)
	}
}

// Desc gives the written form of the case. Distinct cases have distinct forms.
func (c *Case) Desc(s string) { c.key = s; c.sample = s }

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Case) NonTrivial(cond bool) { c.nontrivial = c.nontrivial || cond }

func (c *Case) commit() {
	rec.mu.Lock()
	defer rec.mu.Unlock()
	rec.evals++
	for _, l := range c.labels {
		rec.classes[c.test+"/"+l]++
	}
	if c.nontrivial {
		h := fnv.New64a()
		h.Write([]byte(c.test))
		h.Write([]byte{0})
		h.Write([]byte(c.key))
		rec.nontrivial[h.Sum64()] = struct{}{}
		// Samples: the first two, and later ones thinned out (never by chance).
		n := rec.counts["nt/"+c.test]
		rec.counts["nt/"+c.test]++
		if n < 2 || n == 50 || n == 500 || n == 2000 {
			s := c.sample
			if len(s) > 1500 {
				s = s[:1500] + "... (cut)"
			}
			rec.samples[c.test] = append(rec.samples[c.test], s)
		}
	}
}

// Count adds to a named counter shown in the evidence.
func Count(name string, n int64) {
	rec.mu.Lock()
	rec.counts[name] += n
	rec.mu.Unlock()
}

// Harness reports a failure of the harness itself: never a violation.
func Harness(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", a...)
	Flush()
	os.Exit(4)
}

// Must is Harness for errors.
func Must(err error) {
	if err != nil {
		_, f, l, _ := runtime.Caller(1)
		Harness("%s:%d: %v", filepath.Base(f), l, err)
	}
}

// Check runs prop on quick or thorough many generated cases.
func Check(t *testing.T, quick, thorough int, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	if t.Failed() {
		t.FailNow() // a fixed regression case failed already
	}
	n := quick
	if Thorough() {
		n = thorough
	}
	if s := os.Getenv("VT_CHECKS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	Must(flag.Set("rapid.checks", strconv.Itoa(n)))
	Must(flag.Set("rapid.seed", strconv.FormatUint(Seed(), 10)))
	Must(flag.Set("rapid.shrinktime", "12s"))
	if os.Getenv("VT_FAILFILES") == "" {
		Must(flag.Set("rapid.nofailfile", "true"))
	}
	name := t.Name()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{test: name}
		stop := begin(name)
		defer stop()
		began := time.Now()
		prop(rt, c)
		if d := time.Since(began); os.Getenv("VT_SLOW") != "" && d > 2*time.Second {
			fmt.Fprintf(os.Stderr, "slow case (%v) %.1500s\n", d, curNote)
		}
		c.commit()
	})
}

// Example runs one fixed case (a regression input) through a property body.
func Example(t *testing.T, name string, f func(t *testing.T)) {
	t.Helper()
	t.Run(name, func(t *testing.T) {
		stop := begin(t.Name())
		defer stop()
		f(t)
		rec.mu.Lock()
		rec.counts["fixed_regression_cases"]++
		rec.mu.Unlock()
	})
}

// LargeExample is an example that needs much memory or time and is run by
// one process of a check only.
func LargeExample(t *testing.T, name string, f func(t *testing.T)) {
	t.Helper()
	if shard := os.Getenv("VT_SHARD"); shard == "" || shard == "0" {
		Example(t, name, f)
	}
}

// Note describes the case about to be executed, for cases that end the process.
func Note(s string) {
	Progress()
	curMu.Lock()
	curNote = s
	curMu.Unlock()
	if d := os.Getenv("VT_OUT"); d != "" {
		_ = os.WriteFile(filepath.Join(d, "current.txt"), []byte(s), 0o644)
	}
}

var (
	curMu   sync.Mutex
	curNote string
	opStart int64 // ticks at which the running case began, 0 if none
	opName  atomic.Value
	ticks   int64
)

// HangTicks is how many seconds, each actually observed by the watchdog of
// this process, one case may take; normal cases take milliseconds.
const HangTicks = 75

func begin(name string) func() {
	opName.Store(name)
	atomic.StoreInt64(&opStart, atomic.LoadInt64(&ticks)+1)
	return func() { atomic.StoreInt64(&opStart, 0) }
}

// Progress restarts the watchdog for a case that consists of many steps.
func Progress() {
	if atomic.LoadInt64(&opStart) != 0 {
		atomic.StoreInt64(&opStart, atomic.LoadInt64(&ticks)+1)
	}
}

func watchdog() {
	for {
		time.Sleep(time.Second)
		n := atomic.AddInt64(&ticks, 1)
		s := atomic.LoadInt64(&opStart)
		if s != 0 && n-s > HangTicks {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			curMu.Lock()
			note := curNote
			curMu.Unlock()
			fmt.Fprintf(os.Stdout, "VT-HANG: a case of %v made no progress for %d observed seconds\ncase: %s\n%s\n", opName.Load(), n-s, note, buf)
			Flush()
			os.Exit(5)
		}
	}
}

// Guard runs f and turns a panic into a rapid failure with context.
func Guard(rt interface {
	Fatalf(string, ...interface{})
}, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			rt.Fatalf("%s panicked: %v\n%s", what, r, buf)
		}
	}()
	f()
}

type out struct {
	Evals   int64               `json:"evals"`
	Hashes  []uint64            `json:"hashes"`
	Classes map[string]int64    `json:"classes"`
	Samples map[string][]string `json:"samples"`
	Counts  map[string]int64    `json:"counts"`
}

// Flush writes what was counted so far.
func Flush() {
	d := os.Getenv("VT_OUT")
	if d == "" {
		return
	}
	rec.mu.Lock()
	defer rec.mu.Unlock()
	o := out{Evals: rec.evals, Classes: rec.classes, Samples: rec.samples, Counts: map[string]int64{}}
	for k, v := range rec.counts {
		if !strings.HasPrefix(k, "nt/") {
			o.Counts[k] = v
		}
	}
	for h := range rec.nontrivial {
		o.Hashes = append(o.Hashes, h)
	}
	sort.Slice(o.Hashes, func(i, j int) bool { return o.Hashes[i] < o.Hashes[j] })
	b, _ := json.Marshal(o)
	_ = os.WriteFile(filepath.Join(d, "coverage.json"), b, 0o644)
}

// Main is called by every package's TestMain.
func Main(m *testing.M) {
	flag.Parse()
	go watchdog()
	code := m.Run()
	Flush()
	os.Exit(code)
}
