package core

// Shared parts of the worker checks (C07-C11, C28).

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"vsa"
	kit "vsa/internal/verifkit"
)

// The worker prints to standard output; keep the check's own output readable.
var vfRealStdout = os.Stdout

func vfQuiet() func() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		kit.Broken("%v", err)
	}
	old := os.Stdout
	os.Stdout = null
	return func() { os.Stdout = old; null.Close() }
}

// capture returns what f prints to standard output.
func vfCapture(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		kit.Broken("%v", err)
	}
	old := os.Stdout
	os.Stdout = w
	ch := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		ch <- string(b)
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	s := <-ch
	r.Close()
	return s
}

func vfVabs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// vpersister is the storage: it records what it accepted, fails on request, and lets a
// test do things while a batch is being written.
type vfVpersister struct {
	mu      sync.Mutex
	calls   int
	batches [][]Commit          // accepted
	durable map[string]int64    // accepted sums
	failKey func(k string) bool // a batch with such a key is refused
	hook    func(b []Commit)    // runs during the write, before it is decided
	err     error               // what a failure looks like
	problem string              // a malformed batch
	calls1  [][]Commit          // every call, accepted or not
}

func vfNewVPersister() *vfVpersister {
	return &vfVpersister{durable: map[string]int64{}, err: kit.Faults[0]}
}

func (p *vfVpersister) PrintFinalMetrics() {}

func (p *vfVpersister) CommitBatch(b []Commit) error {
	cp := append([]Commit(nil), b...)
	p.mu.Lock()
	p.calls++
	p.calls1 = append(p.calls1, cp)
	if len(cp) == 0 && p.problem == "" {
		p.problem = "storage was called with an empty batch"
	}
	seen := map[string]bool{}
	for _, c := range cp {
		if c.Vector == 0 && p.problem == "" {
			p.problem = fmt.Sprintf("zero row for key %q", c.Key)
		}
		if seen[c.Key] && p.problem == "" {
			p.problem = fmt.Sprintf("two rows for key %q in one batch", c.Key)
		}
		seen[c.Key] = true
	}
	hook := p.hook
	p.mu.Unlock()
	if hook != nil {
		hook(cp)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.failKey != nil {
		for _, c := range cp {
			if p.failKey(c.Key) {
				return p.err
			}
		}
	}
	p.batches = append(p.batches, cp)
	for _, c := range cp {
		p.durable[c.Key] += c.Vector
	}
	return nil
}

// take returns the calls since the last take.
func (p *vfVpersister) take() (all [][]Commit) {
	p.mu.Lock()
	defer p.mu.Unlock()
	all = p.calls1
	p.calls1 = nil
	return all
}

func vfRowsOf(calls [][]Commit) string {
	var out []string
	for _, b := range calls {
		var rs []string
		for _, c := range b {
			rs = append(rs, fmt.Sprintf("%q:%d", c.Key, c.Vector))
		}
		sort.Strings(rs)
		out = append(out, "["+strings.Join(rs, " ")+"]")
	}
	return strings.Join(out, " ")
}

var vfOddKeys = []string{"a", "b", "", "\x00", "a\x00", "é", "e\u0301", "A", "a ", " a", "\xff\xfe", "a:b", "日本", "a/b", strings.Repeat("k", 300), "%s%d", "a\nb",
	"!0IC=VloaY", "QvXtM>@Fp%", // the same 64-bit FNV-1a hash
	"costarring", "liquid", // the same 32-bit FNV-1a hash
	"plumless", "buckeroo", // the same CRC-32
	"Aa", "BB"}

// drawThreshold draws a commit threshold; one that is not positive means every change.
func vfDrawThreshold(t *rapid.T, most int64) int64 {
	if rapid.IntRange(0, 11).Draw(t, "write everything") == 0 {
		return rapid.Int64Range(-2, 0).Draw(t, "T")
	}
	return rapid.Int64Range(1, most).Draw(t, "T")
}

func vfDrawKeys(t *rapid.T, n int) []string {
	keys := append([]string(nil), rapid.Permutation(vfOddKeys).Draw(t, "keys")[:n]...)
	if rapid.IntRange(0, 30).Draw(t, "a long key") == 17 {
		// beyond whatever limit, buffer or page one would think of
		keys[0] = strings.Repeat("long key ", rapid.SampledFrom([]int{500, 8000}).Draw(t, "length"))
	}
	return keys
}

// drawStoreOpts draws accumulator options for a store. Refreshers tick rarely: the clock of
// these tests is fake and may jump by hours.
func vfDrawStoreOpts(t *rapid.T, cached bool) vsa.Options {
	var o vsa.Options
	o.Stripes = rapid.SampledFrom([]int{0, 8, 16}).Draw(t, "stripes")
	switch rapid.IntRange(0, 5).Draw(t, "opt") {
	case 1:
		o.FastPathGuard = rapid.Int64Range(1, 5).Draw(t, "fast")
	case 2:
		o.HierarchicalGroups = rapid.IntRange(2, 9).Draw(t, "hier")
	case 3:
		o.GroupCount = rapid.IntRange(2, 9).Draw(t, "groups")
	case 4:
		if cached {
			o.UseCachedGate = true
			o.CacheInterval = 97 * time.Minute
		}
	case 5:
		o.CheapUpdateChooser = true
		o.FastPathGuard = 2
		o.HierarchicalGroups = 3
	}
	return o
}

// tracker knows, per key, the exact net of all operations that succeeded.
type vfTracker struct {
	st  *Store
	net map[string]int64
	ops int
}

// do performs one operation through a counter and accounts for it.
func (tr *vfTracker) do(key string, v *vsa.VSA, kind int, n int64) string {
	tr.ops++
	switch kind {
	case 0, 1, 2:
		if n < 0 {
			n = -n
		}
		ok := v.TryConsume(n)
		if ok {
			tr.net[key] += n
		}
		return fmt.Sprintf("%q consume(%d)=%v", key, n, ok)
	case 3:
		if n < 0 {
			n = -n
		}
		_, before := v.State()
		ok := v.TryRefund(n)
		_, after := v.State()
		if ok {
			tr.net[key] -= before - after
		}
		return fmt.Sprintf("%q refund(%d)=%v(%d)", key, n, ok, before-after)
	default:
		v.Update(n)
		tr.net[key] += n
		return fmt.Sprintf("%q update(%d)", key, n)
	}
}

// live returns the counters in the store.
func vfLive(st *Store) map[string]*vsa.VSA {
	m := map[string]*vsa.VSA{}
	st.ForEach(func(k string, v *managedVSA) { m[k] = v.instance })
	return m
}

func vfSortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func TestMain(m *testing.M) {
	os.Exit(m.Run())
}
