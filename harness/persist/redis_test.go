package verifpersist_test

// C15: the Redis adapter against a fake Redis that executes its script.

import (
	"context"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	ps "vsa/internal/ratelimiter/persistence"
	kit "vsa/internal/verifkit"
)

// evaler is the client handed to the adapter. plan[i] decides the i-th call:
// 0 ok, 1 fails before it took effect, 2 fails after it took effect.
type evaler struct {
	f    *fakeRedis
	plan []int
	n    int
	err  error
	seen []string
	// the caller's context is done from the cancelAt-th call on
	cancel   func()
	cancelAt int
}

// drawCtx draws the context of a call, and when it is done: at once (0), during the at-th use of
// the client, or not (-1).
func drawCtx(t *rapid.T, rows int) (ctx context.Context, cancel func(), at int) {
	ctx, cancel = context.WithCancel(context.Background())
	at = -1
	switch rapid.IntRange(0, 9).Draw(t, "context") {
	case 7:
		at = 0
		if rapid.Bool().Draw(t, "deadline") {
			cancel()
			ctx, cancel = context.WithDeadline(context.Background(), time.Unix(1, 0))
		}
		cancel()
	case 8, 9:
		at = rapid.IntRange(1, max(1, rows)).Draw(t, "done during call")
	}
	return
}

func argStr(a any) string {
	switch x := a.(type) {
	case string:
		return x
	case []byte:
		return string(x)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	case int32:
		return strconv.Itoa(int(x))
	case time.Duration:
		return strconv.FormatInt(int64(x), 10) // what go-redis sends
	case bool:
		if x {
			return "1"
		}
		return "0"
	}
	kit.Broken("script argument of type %T", a)
	return ""
}

func (e *evaler) Eval(ctx context.Context, script string, keys []string, args ...interface{}) (interface{}, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	mode := 0
	if e.n < len(e.plan) {
		mode = e.plan[e.n]
	}
	e.n++
	if e.n == e.cancelAt {
		e.cancel()
	}
	e.seen = append(e.seen, strings.Join(keys, ","))
	if mode == 1 {
		return nil, e.err
	}
	argv := make([]string, len(args))
	for i, a := range args {
		argv[i] = argStr(a)
	}
	r, err := e.f.eval(script, keys, argv)
	if err != nil {
		return nil, err
	}
	if mode == 2 {
		return nil, e.err
	}
	switch x := r.(type) {
	case float64:
		return int64(x), nil
	case bool:
		if x {
			return int64(1), nil
		}
		return nil, nil
	case *ltable:
		return fmt.Sprint(x.m["ok"]), nil
	}
	return r, nil
}

var redisKeys = []string{"a", "A", "a ", "b", "", "a:b", "a:b:c", ":", "é", "a b", "\x00\xff", "counter:a", "日本", "a\nb", strings.Repeat("k", 200)}

// drawKeyset draws the keys of a case; those of a family differ only far from their beginning,
// or only in their beginning.
func drawKeyset(t *rapid.T) []string {
	n := rapid.IntRange(1, 3).Draw(t, "nkeys")
	keys := rapid.Permutation(redisKeys).Draw(t, "keys")[:n]
	if rapid.IntRange(0, 3).Draw(t, "family") == 0 {
		common := strings.Repeat("p", rapid.SampledFrom([]int{1, 15, 31, 63, 64, 127, 255, 600}).Draw(t, "common"))
		front := rapid.Bool().Draw(t, "front")
		for i := range keys {
			if front {
				keys[i] = fmt.Sprintf("%d%s", i, common)
			} else {
				keys[i] = fmt.Sprintf("%s%d", common, i)
			}
		}
	}
	return keys
}

func drawVec(t *rapid.T) int64 {
	switch rapid.IntRange(0, 9).Draw(t, "vec?") {
	case 0:
		return rapid.SampledFrom([]int64{1 << 53, -(1 << 53), 1<<53 - 1, 1<<53 + 1, -(1<<53 + 1), 1e17 + 1, -1e17 - 3, 1<<57 - 1, 0, 1e15, -1e15, 1 << 31, -(1 << 31), 1 << 32, 99999999999999}).Draw(t, "vec")
	case 1, 2, 3:
		return -rapid.Int64Range(1, 60).Draw(t, "vec")
	default:
		return rapid.Int64Range(1, 60).Draw(t, "vec")
	}
}

// ledger is the oracle: the distinct commits, and which of them are certainly applied,
// possibly applied, or not.
type ledger struct {
	vec     map[[2]string]int64
	state   map[[2]string]int // 0 no, 1 maybe, 2 yes
	order   [][2]string
	initial map[string]int64
}

func newLedger() *ledger {
	return &ledger{map[[2]string]int64{}, map[[2]string]int{}, nil, map[string]int64{}}
}
func (l *ledger) add(e ps.CommitEntry) {
	id := [2]string{e.Key, e.CommitID}
	if _, ok := l.vec[id]; !ok {
		l.vec[id] = e.Vector
		l.order = append(l.order, id)
	}
}
func (l *ledger) mark(e ps.CommitEntry, s int) {
	id := [2]string{e.Key, e.CommitID}
	if l.state[id] < s {
		l.state[id] = s
	}
}

// possible reports whether got can be the counter of key, and says what was expected.
func (l *ledger) possible(key string, got int64) (bool, string) {
	sure := l.initial[key]
	var open []int64
	for _, id := range l.order {
		if id[0] != key {
			continue
		}
		switch l.state[id] {
		case 2:
			sure -= l.vec[id]
		case 1:
			open = append(open, l.vec[id])
		}
	}
	sums := map[int64]bool{sure: true}
	count := map[int64]int64{} // many entries of a large batch are alike
	for _, v := range open {
		count[v]++
	}
	for v, n := range count {
		next := map[int64]bool{}
		for x := range sums {
			for i := int64(0); i <= n; i++ {
				next[x-i*v] = true
			}
		}
		if sums = next; len(sums) > 100000 {
			return true, "" // too many possibilities to tell
		}
	}
	if sums[got] {
		return true, ""
	}
	return false, fmt.Sprintf("%d less any of %v", sure, open)
}

// drawIDStyle draws how commit identifiers look: distinct ones may differ in few characters,
// at either end, or only in letter case.
func drawIDStyle(t *rapid.T) func(n int) string {
	long := strings.Repeat("0123456789abcdef", 4)
	switch rapid.IntRange(0, 7).Draw(t, "ids") {
	case 5, 6: // with the separators that keys contain, and what they might be escaped to
		front := []string{"", "b:", "b:c:", ":", "b%3A", "%3A", "b%253A", "b\\:"}
		return func(n int) string { return fmt.Sprintf("%s%d", front[n%len(front)], n/len(front)) }
	case 0:
		return func(n int) string { return fmt.Sprintf("%s-%d", long, n) }
	case 1:
		return func(n int) string { return fmt.Sprintf("%d-%s", n, long) }
	case 2: // only letter case differs
		return func(n int) string {
			b := []byte(strings.Repeat("x", 12))
			for i := range b {
				if n>>i&1 == 1 {
					b[i] = 'X'
				}
			}
			return string(b)
		}
	case 3:
		return func(n int) string { return fmt.Sprintf("%032x", n) }
	case 4:
		return func(n int) string { return strings.Repeat("a", n) } // prefixes of one another
	}
	return func(n int) string { return fmt.Sprintf("id%d", n) }
}

// drawBulk draws, rarely, the size of a large batch.
func drawBulk(t *rapid.T, max int) int {
	if rapid.IntRange(0, 79).Draw(t, "bulk?") != 79 {
		return 0
	}
	return rapid.IntRange(60, max).Draw(t, "bulk")
}

// numbering gives every commit its number: counted over all keys, or per key so that commits of
// different keys have the same identifier.
type numbering struct {
	perKey bool
	n      map[string]int
}

func drawNumbering(t *rapid.T) *numbering {
	return &numbering{rapid.IntRange(0, 2).Draw(t, "numbered per key") == 0, map[string]int{}}
}

func (x *numbering) next(key string) int {
	if !x.perKey {
		key = ""
	}
	x.n[key]++
	return x.n[key]
}

func drawBatch(t *rapid.T, serial *numbering, id func(int) string, keys []string, max int, emptyIDs bool, c *kit.Case) []ps.CommitEntry {
	var b []ps.CommitEntry
	for i, n := 0, rapid.IntRange(0, max).Draw(t, "rows"); i < n; i++ {
		e := ps.CommitEntry{Key: rapid.SampledFrom(keys).Draw(t, "key"), Vector: drawVec(t)}
		e.CommitID = id(serial.next(e.Key))
		switch rapid.IntRange(0, 15).Draw(t, "odd") {
		case 0:
			if emptyIDs {
				e.CommitID = ""
				c.Class("no identifier")
			}
		case 1, 2:
			if len(b) > 0 && b[len(b)-1].CommitID != "" { // the same commit twice in one batch
				e = b[rapid.IntRange(0, len(b)-1).Draw(t, "dup")]
				c.Class("repeated in batch")
			}
		}
		b = append(b, e)
	}
	for n := drawBulk(t, 1500); len(b) < n; {
		k := keys[len(b)%len(keys)]
		b = append(b, ps.CommitEntry{Key: k, Vector: 2, CommitID: id(serial.next(k))})
		c.Class("large batch")
	}
	return b
}

func showBatch(b []ps.CommitEntry) string {
	var s []string
	if len(b) > 40 {
		return fmt.Sprintf("%d entries from %s", len(b), showBatch(b[:3]))
	}
	for _, e := range b {
		x := fmt.Sprintf("%.12q/%s:%d", e.Key, e.CommitID, e.Vector)
		if e.FencingToken != nil {
			x += fmt.Sprintf("@%d", *e.FencingToken)
		}
		s = append(s, x)
	}
	return strings.Join(s, " ")
}

func TestC15Model(t *testing.T) {
	kit.Run(t, 10000, 120000, func(c *kit.Case) {
		f := newFakeRedis()
		ev := &evaler{f: f, err: kit.DrawFault(c.T)}
		ttl := rapid.SampledFrom([]time.Duration{0, -time.Second, time.Millisecond, 500 * time.Millisecond, 999 * time.Millisecond, time.Second, 1500 * time.Millisecond,
			1999 * time.Millisecond, 2 * time.Second, time.Minute, 61500 * time.Millisecond, 24 * time.Hour, 24*24*time.Hour + time.Hour, 25 * 24 * time.Hour, 400 * 24 * time.Hour}).Draw(c.T, "ttl")
		if ttl > 0 && rapid.Bool().Draw(c.T, "odd ttl") {
			ttl += time.Duration(rapid.Int64Range(0, int64(time.Second)).Draw(c.T, "fraction"))
		}
		window := ttl
		if window <= 0 {
			window = 24 * time.Hour // the documented default
		}
		p := ps.NewRedisPersister(ev, ttl)
		keys := drawKeyset(c.T)
		l := newLedger()
		for _, k := range keys {
			if rapid.Bool().Draw(c.T, "exists") {
				n := rapid.Int64Range(-100, 1000).Draw(c.T, "initial")
				l.initial[k] = n
				_, _ = f.call([]string{"HSET", ps.RedisCounterKey(k), "scalar", strconv.FormatInt(n, 10)})
			}
		}
		c.Logf("ttl=%v keys=%.12q initial=%v", ttl, keys, l.initial)
		type sent struct {
			b  []ps.CommitEntry
			at time.Duration // when it was first sent
		}
		var pending, done []sent
		serial := drawNumbering(c.T)
		id := drawIDStyle(c.T)
		send := func(s sent, what string) bool {
			ev.plan, ev.n = nil, 0
			mode := rapid.IntRange(0, 3).Draw(c.T, "fault") // 1: before, 2: after
			if at := rapid.IntRange(0, max(5, len(s.b)-1)).Draw(c.T, "at"); (mode == 1 || mode == 2) && at < len(s.b) {
				ev.plan = make([]int, at+1)
				ev.plan[at] = mode
			}
			for _, e := range s.b {
				l.add(e)
			}
			ctx, cancel, at := drawCtx(c.T, len(s.b))
			defer cancel()
			ev.cancel, ev.cancelAt = cancel, at
			err := p.CommitBatch(ctx, s.b)
			ev.cancelAt = -1
			c.Logf("%s {%s} fault %v, context done during call %d -> %v", what, showBatch(s.b), ev.plan, at, err)
			bad := false
			for _, e := range s.b {
				if e.CommitID == "" {
					bad = true
				}
			}
			faulted := len(ev.plan) > 0 && ev.n >= len(ev.plan)
			if bad && err == nil {
				c.Failf("a batch with an entry without identifier was accepted")
			}
			if faulted && err == nil {
				c.Failf("a failed write was not reported")
			}
			if !faulted && !bad && err != nil && ctx.Err() == nil {
				c.Failf("CommitBatch: %v", err)
			}
			if ctx.Err() != nil {
				c.Class("context done")
			}
			for _, e := range s.b {
				if e.CommitID == "" {
					continue
				}
				if err == nil {
					l.mark(e, 2)
				} else {
					l.mark(e, 1)
				}
			}
			for _, k := range keys {
				if ok, want := l.possible(k, f.scalar(ps.RedisCounterKey(k))); !ok {
					c.Failf("counter of %.12q is %d, expected %s", k, f.scalar(ps.RedisCounterKey(k)), want)
				}
			}
			for k := range f.data {
				if strings.HasPrefix(k, "counter:") {
					known := false
					for _, x := range keys {
						known = known || ps.RedisCounterKey(x) == k
					}
					if !known {
						c.Failf("a counter %q appeared", k)
					}
				}
			}
			return err == nil
		}
		fails, retries, dups := 0, 0, 0
		n := rapid.IntRange(1, 14).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 5).Draw(c.T, "op") {
			case 0, 1:
				s := sent{drawBatch(c.T, serial, id, keys, 5, true, c), f.now}
				if send(s, "new") {
					done = append(done, s)
				} else {
					fails++
					pending = append(pending, s)
				}
			case 2, 3: // retry a failed batch
				if len(pending) == 0 {
					continue
				}
				j := rapid.IntRange(0, len(pending)-1).Draw(c.T, "which")
				s := pending[j]
				if f.now >= s.at+window {
					pending = append(pending[:j], pending[j+1:]...) // too late to retry
					continue
				}
				retries++
				if send(s, "retry") {
					pending = append(pending[:j], pending[j+1:]...)
					done = append(done, s)
				}
			case 4: // deliver an accepted batch again
				if len(done) == 0 {
					continue
				}
				s := done[rapid.IntRange(0, len(done)-1).Draw(c.T, "which")]
				if f.now >= s.at+window {
					continue
				}
				dups++
				send(s, "again")
			case 5: // time passes
				d := rapid.SampledFrom([]time.Duration{window - 1, window / 2, window / 3, time.Millisecond, window - time.Millisecond}).Draw(c.T, "pass")
				f.now += d
				c.Logf("%v pass", d)
			}
		}
		// in the end every batch still within the window goes through
		for _, s := range pending {
			bad := false
			for _, e := range s.b {
				bad = bad || e.CommitID == ""
			}
			if bad || f.now >= s.at+window {
				continue
			}
			ev.plan, ev.n = nil, 0
			if err := p.CommitBatch(context.Background(), s.b); err != nil {
				c.Failf("final retry: %v", err)
			}
			for _, e := range s.b {
				l.mark(e, 2)
			}
		}
		for _, k := range keys {
			if ok, want := l.possible(k, f.scalar(ps.RedisCounterKey(k))); !ok {
				c.Failf("finally the counter of %.12q is %d, expected %s", k, f.scalar(ps.RedisCounterKey(k)), want)
			}
		}
		if fails > 0 && retries > 0 {
			c.NT()
		} else if dups > 0 {
			c.NT("redelivery only")
		}
	})
}

func TestC15GoRedis(t *testing.T) {
	srv := startResp()
	client := ps.NewGoRedisEvaler(srv.addr)
	kit.Run(t, 250, 2500, func(c *kit.Case) {
		f := newFakeRedis()
		p := ps.NewRedisPersister(client, time.Minute)
		keys := drawKeyset(c.T)
		l := newLedger()
		serial := drawNumbering(c.T)
		id := drawIDStyle(c.T)
		faults := 0
		for i, n := 0, rapid.IntRange(1, 5).Draw(c.T, "batches"); i < n; i++ {
			b := drawBatch(c.T, serial, id, keys, 4, false, c)
			for _, e := range b {
				l.add(e)
			}
			for try := 0; ; try++ {
				plan := rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 2}), 0, 6).Draw(c.T, "plan")
				if try > 1 {
					plan = nil
				}
				srv.mu.Lock()
				srv.f, srv.plan, srv.n = f, plan, 0
				srv.mu.Unlock()
				err := p.CommitBatch(context.Background(), b)
				srv.mu.Lock()
				for _, m := range plan[:min(srv.n, len(plan))] {
					if m > 0 {
						faults++
					}
				}
				c.Logf("try %d {%s} faults %v -> %v", try, showBatch(b), plan, err)
				for _, e := range b {
					if err == nil {
						l.mark(e, 2)
					} else {
						l.mark(e, 1)
					}
				}
				bad := ""
				for _, k := range keys {
					if ok, want := l.possible(k, f.scalar(ps.RedisCounterKey(k))); !ok {
						bad = fmt.Sprintf("counter of %.12q is %d, expected %s", k, f.scalar(ps.RedisCounterKey(k)), want)
					}
				}
				srv.mu.Unlock()
				if bad != "" {
					c.Failf("%s", bad)
				}
				if err == nil {
					break
				}
				if try > 8 {
					kit.Broken("the client cannot reach the fake server: %v", err)
				}
			}
		}
		if faults > 0 {
			c.NT()
		}
	})
}
