// Package verifkit is the shared runner of the property-based checks: it drives rapid,
// counts and samples the generated cases, and labels failures so that the driver can tell
// a violated property from a problem of the harness.
package verifkit

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// stdout is the real one: some tests silence the code under test by replacing os.Stdout.
var stdout = os.Stdout

// Tier is "quick" or "thorough".
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func Thorough() bool { return Tier() == "thorough" }

// Pick returns q or th depending on the tier.
func Pick(q, th int) int {
	if Thorough() {
		return th
	}
	return q
}

type sample struct {
	Test  string   `json:"test"`
	Trace []string `json:"trace"`
}

type stats struct {
	Test        string         `json:"test"`
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []sample       `json:"samples"`
	Skipped     int            `json:"skipped_after_budget"`
}

// Case collects the trace and the classification of one generated case.
type Case struct {
	T       *rapid.T
	trace   []string
	classes map[string]bool
	nt      bool
	noCount bool
	began   time.Time
	extra   int
	limit   atomic.Int64
	mu      sync.Mutex
}

// AddEvals counts n further executions of the code under test made for this case.
func (c *Case) AddEvals(n int) { c.extra += n }

// Slow allows the case more time than HangLimit.
func (c *Case) Slow(d time.Duration) { c.limit.Store(int64(d)) }

// watch reports a case that does not end. Cases take milliseconds.
func watch(name string, cur *atomic.Pointer[Case], stop chan struct{}) {
	tk := time.NewTicker(2 * time.Second)
	defer tk.Stop()
	for {
		select {
		case <-stop:
			return
		case <-tk.C:
			c := cur.Load()
			if c == nil {
				continue
			}
			lim := HangLimit
			if l := time.Duration(c.limit.Load()); l > 0 {
				lim = l
			}
			first := firstFailure.Load()
			if first != nil && c.limit.Load() == 0 {
				lim = HangLimit / 2
			}
			if time.Since(c.began) > lim {
				if first != nil {
					// the shrinker is stuck in a variant of a case that has failed
					fmt.Fprintf(stdout, "\n%s\n", *first)
					os.Exit(1)
				}
				buf := make([]byte, 1<<18)
				n := 0
				if !inBubble.Load() { // a bubble that spins through its fake time cannot be stopped for this
					n = runtime.Stack(buf, true)
				}
				c.mu.Lock()
				tr := strings.Join(c.trace, "\n    ")
				c.mu.Unlock()
				fmt.Fprintf(stdout, "\nVERIF-PROPERTY-FAILED: %s: an operation never finished (case running for %v)\n  trace:\n    %s\n%s\n", name, lim, tr, buf[:n])
				os.Exit(1)
			}
		}
	}
}

// Logf adds a step to the trace of the case (also shown when the case fails).
func (c *Case) Logf(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 10000 {
		s = fmt.Sprintf("%s [...%d bytes in all...] %s", s[:3000], len(s), s[len(s)-1000:])
	}
	c.mu.Lock()
	c.trace = append(c.trace, s)
	c.mu.Unlock()
}

// NT marks the case as non-trivial by the stated rule of its test.
func (c *Case) NT(labels ...string) {
	c.nt = true
	c.Class(labels...)
}

func (c *Case) Class(labels ...string) {
	for _, l := range labels {
		c.classes[l] = true
	}
}

// Failf reports that the property is violated by this case.
func (c *Case) Failf(format string, a ...any) {
	c.T.Helper()
	c.mu.Lock()
	msg := fmt.Sprintf("VERIF-PROPERTY-FAILED: %s\n  trace:\n    %s", fmt.Sprintf(format, a...), strings.Join(c.trace, "\n    "))
	c.mu.Unlock()
	noteFailure(msg)
	c.T.Fatalf("%s", msg)
}

var (
	firstFailure atomic.Pointer[string]
	inBubble     atomic.Bool
)

// noteFailure keeps the first failure for the driver, in case the process does not live to
// report it (a shrinker that gets stuck).
func noteFailure(msg string) {
	if firstFailure.CompareAndSwap(nil, &msg) {
		if dir := os.Getenv("VERIF_OUT"); dir != "" {
			_ = os.WriteFile(filepath.Join(dir, "failure.txt"), []byte(msg+"\n"), 0o644)
		}
	}
}

// Trace returns the trace as text.
func (c *Case) Trace() string { return strings.Join(c.trace, "; ") }

var startedAt = time.Now()

// Budget is the wall-clock budget after which no new cases are started. Running out of it
// never fails a property; it only means fewer cases.
func Budget() time.Duration {
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	return 240 * time.Second
}

// Over reports whether the budget is used up.
func Over() bool { return time.Since(startedAt) > Budget() }

var runs atomic.Int64

// share is when the k-th test of the process has to stop: the tests still to come keep half of
// their equal shares.
func share() time.Duration {
	k := runs.Add(1)
	n, _ := strconv.ParseInt(os.Getenv("VERIF_TESTS"), 10, 64)
	if n <= 0 || k > n {
		return Budget()
	}
	return Budget() - Budget()*time.Duration(n-k)/time.Duration(2*n)
}

// Run checks prop on quick (or thorough) many generated cases.
func Run(t *testing.T, quick, thorough int, prop func(c *Case)) {
	t.Helper()
	n := Pick(quick, thorough)
	if s := os.Getenv("VERIF_CHECKS_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			n = int(float64(n) * f)
			if n < 1 {
				n = 1
			}
		}
	}
	if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
		Broken("cannot set rapid.checks: %v", err)
	}
	st := stats{Test: t.Name(), Classes: map[string]int{}}
	seen := map[uint64]struct{}{}
	failed := false
	stride := n/4 + 1
	defer func() {
		st.Distinct = len(seen)
		writeStats(st)
	}()
	var cur atomic.Pointer[Case]
	stopWatch := make(chan struct{})
	defer close(stopWatch)
	go watch(t.Name(), &cur, stopWatch)
	until := share()
	rapid.Check(t, func(rt *rapid.T) {
		if time.Since(startedAt) > until && !failed {
			st.Skipped++
			return
		}
		c := &Case{T: rt, classes: map[string]bool{}, began: time.Now()}
		cur.Store(c)
		defer cur.Store(nil)
		ok := false
		defer func() {
			if !ok {
				// failing or discarded: the panic goes on to rapid
				if rt.Failed() {
					failed = true
				}
				return
			}
			if failed || c.noCount {
				return // shrinking is not counted
			}
			st.Evaluations += 1 + c.extra
			for l := range c.classes {
				st.Classes[l]++
			}
			if c.nt {
				h := fnv.New64a()
				for _, s := range c.trace {
					_, _ = h.Write([]byte(s))
					_, _ = h.Write([]byte{0})
				}
				if _, dup := seen[h.Sum64()]; !dup {
					seen[h.Sum64()] = struct{}{}
					if (len(seen)%stride) == 1 && len(st.Samples) < 3 {
						st.Samples = append(st.Samples, sample{t.Name(), clip(c.trace)})
					}
				}
			}
		}()
		prop(c)
		ok = true
	})
}

func clip(tr []string) []string {
	out := make([]string, 0, 40)
	for i, s := range tr {
		if i == 40 {
			out = append(out, fmt.Sprintf("... %d more steps", len(tr)-40))
			break
		}
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		out = append(out, s)
	}
	return out
}

// Manual is for checks that enumerate cases themselves rather than through rapid.
type Manual struct {
	st   stats
	seen map[string]struct{}
	mu   sync.Mutex
}

func NewManual(t *testing.T) *Manual {
	m := &Manual{st: stats{Test: t.Name(), Classes: map[string]int{}}, seen: map[string]struct{}{}}
	t.Cleanup(func() {
		m.st.Distinct = len(m.seen)
		writeStats(m.st)
	})
	return m
}

func (m *Manual) Case(nontrivial bool, trace string, classes ...string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.st.Evaluations++
	for _, c := range classes {
		m.st.Classes[c]++
	}
	if nontrivial {
		if _, dup := m.seen[trace]; !dup {
			m.seen[trace] = struct{}{}
			if len(m.st.Samples) < 3 {
				m.st.Samples = append(m.st.Samples, sample{m.st.Test, clip(strings.Split(trace, "; "))})
			}
		}
	}
}

// Fail reports a violated property outside rapid.
func Fail(t testing.TB, format string, a ...any) {
	t.Helper()
	noteFailure(fmt.Sprintf("VERIF-PROPERTY-FAILED: "+format, a...))
	t.Fatalf("VERIF-PROPERTY-FAILED: "+format, a...)
}

var statsN atomic.Int64

func writeStats(s stats) {
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		b, _ := json.Marshal(s)
		if len(b) > 1500 {
			b = b[:1500]
		}
		fmt.Fprintf(stdout, "STATS %s\n", b)
		return
	}
	b, err := json.Marshal(s)
	if err != nil {
		Broken("stats: %v", err)
	}
	name := fmt.Sprintf("stats-%d-%d.json", os.Getpid(), statsN.Add(1))
	if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
		Broken("stats: %v", err)
	}
}

// Broken ends the process because the harness itself cannot go on; the driver reports an
// error of the check, not a violation.
func Broken(format string, a ...any) {
	fmt.Fprintf(stdout, "\nVERIF-HARNESS-BROKEN: "+format+"\n", a...)
	os.Exit(3)
}

// Known reports a known finding; the driver accepts it only if the id is listed.
func Known(prop, id, what string) {
	fmt.Fprintf(stdout, "\nKNOWN-FINDING: property=%s %s: %s\n", prop, id, what)
}

// Within runs f and returns true if it finished. Only for operations that take microseconds:
// limit is chosen so that a busy machine cannot exceed it.
func Within(limit time.Duration, f func()) (finished bool, stacks string) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	tm := time.NewTimer(limit)
	defer tm.Stop()
	select {
	case r := <-done:
		if r != nil {
			panic(r)
		}
		return true, ""
	case <-tm.C:
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		return false, string(buf[:n])
	}
}

// HangLimit is how long a microsecond-scale operation may take before it counts as hung.
const HangLimit = 60 * time.Second
