package verifpersist_test

// C16: the Postgres adapter against the fake database.

import (
	"context"
	"fmt"
	"sync"
	"testing"

	"pgregory.net/rapid"
	ps "vsa/internal/ratelimiter/persistence"
	kit "vsa/internal/verifkit"
)

type pgView struct {
	scalar map[string]int64
	token  map[string]*int64
}

func view(s *pgServer) pgView {
	s.mu.Lock()
	defer s.mu.Unlock()
	v := pgView{map[string]int64{}, map[string]*int64{}}
	for _, r := range s.db["counters"].rows {
		k := r["key"].(string)
		v.scalar[k] = r["scalar"].(int64)
		if t, ok := r["last_token"].(int64); ok {
			v.token[k] = &t
		}
	}
	return v
}

var pgKeys = []string{"a", "A", "a ", "b", "", "a'b", "a:b", "é", "$1", "日本", "x;--", "a b"}

func drawPgVec(t *rapid.T) int64 {
	switch rapid.IntRange(0, 9).Draw(t, "vec?") {
	case 0:
		return rapid.SampledFrom([]int64{0, 1 << 61, -(1 << 61), 1<<53 + 1}).Draw(t, "vec")
	default:
		return rapid.Int64Range(-50, 50).Draw(t, "vec")
	}
}

func TestC16Model(t *testing.T) {
	kit.Run(t, 6000, 80000, func(c *kit.Case) {
		s := newPgServer()
		db := openPg(s)
		defer db.Close()
		create := rapid.Bool().Draw(c.T, "create")
		p := ps.NewPostgresPersister(db, create)
		keys := rapid.Permutation(pgKeys).Draw(c.T, "keys")[:rapid.IntRange(1, 3).Draw(c.T, "nkeys")]
		initial := map[string]int64{}
		exists := map[string]bool{}
		for _, k := range keys {
			if !create || rapid.Bool().Draw(c.T, "exists") {
				n := rapid.Int64Range(-20, 1000).Draw(c.T, "initial")
				initial[k], exists[k] = n, true
				s.db["counters"].rows = append(s.db["counters"].rows, srow{"key": k, "scalar": n, "last_token": nil})
			}
		}
		c.Logf("create=%v keys=%q initial=%v", create, keys, initial)
		// The model: which distinct commits have taken effect. Batches are atomic, so a call
		// with an unknown outcome has two possible worlds, told apart by looking.
		applied := map[string]bool{}
		world := func(more []ps.CommitEntry) (map[string]int64, map[string]*int64, map[string]bool) {
			return nil, nil, nil
		}
		_ = world
		scal := map[string]int64{}
		tok := map[string]*int64{}
		have := map[string]bool{}
		for k, n := range initial {
			scal[k], have[k] = n, true
		}
		after := func(b []ps.CommitEntry) (sc map[string]int64, tk map[string]*int64, ap map[string]bool) {
			sc, tk, ap = map[string]int64{}, map[string]*int64{}, map[string]bool{}
			for k, v := range scal {
				sc[k] = v
			}
			for k, v := range tok {
				tk[k] = v
			}
			for k := range applied {
				ap[k] = true
			}
			for _, e := range b {
				if _, ok := sc[e.Key]; !ok {
					sc[e.Key] = 0
				}
				if ap[e.CommitID] {
					continue
				}
				ap[e.CommitID] = true
				sc[e.Key] -= e.Vector
				if e.FencingToken != nil && (tk[e.Key] == nil || *e.FencingToken > *tk[e.Key]) {
					tk[e.Key] = e.FencingToken
				}
			}
			return
		}
		equal := func(v pgView, sc map[string]int64, tk map[string]*int64) bool {
			if len(v.scalar) != len(sc) {
				return false
			}
			for k, x := range sc {
				if got, ok := v.scalar[k]; !ok || got != x {
					return false
				}
			}
			for k := range sc {
				a, b := v.token[k], tk[k]
				if (a == nil) != (b == nil) || a != nil && *a != *b {
					return false
				}
			}
			return true
		}
		desc := func(sc map[string]int64, tk map[string]*int64) string {
			out := ""
			for k, x := range sc {
				out += fmt.Sprintf(" %q:%d", k, x)
				if tk[k] != nil {
					out += fmt.Sprintf("@%d", *tk[k])
				}
			}
			return out
		}
		serial := 0
		id := drawIDStyle(c.T)
		draw := func() []ps.CommitEntry {
			var b []ps.CommitEntry
			for i, n := 0, rapid.IntRange(0, 4).Draw(c.T, "rows"); i < n; i++ {
				serial++
				e := ps.CommitEntry{Key: rapid.SampledFrom(keys).Draw(c.T, "key"), Vector: drawPgVec(c.T), CommitID: id(serial)}
				if rapid.IntRange(0, 1).Draw(c.T, "token?") == 1 {
					tk := rapid.Int64Range(-3, 8).Draw(c.T, "token")
					e.FencingToken = &tk
				}
				switch rapid.IntRange(0, 19).Draw(c.T, "odd") {
				case 0:
					e.CommitID = ""
				case 1, 2:
					if len(b) > 0 && b[0].CommitID != "" {
						e = b[0]
						c.Class("repeated in batch")
					}
				}
				b = append(b, e)
			}
			for n := drawBulk(c.T, 250); len(b) < n; {
				serial++
				b = append(b, ps.CommitEntry{Key: keys[serial%len(keys)], Vector: int64(serial%3 + 1), CommitID: id(serial)})
				c.Class("large batch")
			}
			return b
		}
		var sent [][]ps.CommitEntry
		unknown, failed, retries := 0, 0, 0
		lower := false
		n := rapid.IntRange(1, 10).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			var b []ps.CommitEntry
			again := len(sent) > 0 && rapid.IntRange(0, 1).Draw(c.T, "again") == 1
			if again {
				b = sent[rapid.IntRange(0, len(sent)-1).Draw(c.T, "which")]
				if len(b) > 1 && rapid.IntRange(0, 4).Draw(c.T, "mix") == 0 {
					b = append(append([]ps.CommitEntry{}, b...), draw()...)
				}
				retries++
			} else {
				b = draw()
			}
			sent = append(sent, b)
			ctx, cancel := context.WithCancel(context.Background())
			s.failAt, s.stmts, s.hit = 0, 0, false
			if s.err = nil; rapid.Bool().Draw(c.T, "odd error") {
				s.err = kit.DrawFault(c.T)
			}
			s.failMode = rapid.SampledFrom([]string{"", "", "error", "dead", "lostcommit", "cancel"}).Draw(c.T, "fault")
			if s.failMode != "" {
				s.failAt = rapid.IntRange(1, 2+3*len(b)+2).Draw(c.T, "failAt")
				if s.failMode == "lostcommit" {
					// count the round trips of this batch on a copy, to hit the commit itself
					probe := &pgServer{db: s.db.clone(), txLock: make(chan struct{}, 1)}
					pdb := openPg(probe)
					_ = ps.NewPostgresPersister(pdb, create).CommitBatch(ctx, b)
					pdb.Close()
					s.failAt = probe.stmts
				}
			}
			s.cancel = cancel
			var err error
			if rapid.IntRange(0, 9).Draw(c.T, "nilctx") == 0 && s.failMode != "cancel" {
				err = p.CommitBatch(nil, b) //nolint
			} else {
				err = p.CommitBatch(ctx, b)
			}
			cancel()
			// an asynchronous rollback may still hold the transaction
			s.txLock <- struct{}{}
			<-s.txLock
			v := view(s)
			c.Logf("{%s} fault %s@%d -> %v; now%s", showBatch(b), s.failMode, s.failAt, err, desc(v.scalar, v.token))
			bad := false
			for _, e := range b {
				if e.CommitID == "" {
					bad = true
				}
				if e.FencingToken != nil && tok[e.Key] != nil && *e.FencingToken < *tok[e.Key] {
					lower = true
				}
			}
			sc, tk, ap := after(b)
			if bad {
				if err == nil {
					c.Failf("a batch with an entry without identifier was accepted")
				}
				if !equal(v, scal, tok) {
					c.Failf("a rejected batch changed the database: now%s, before%s", desc(v.scalar, v.token), desc(scal, tok))
				}
				continue
			}
			switch {
			case err == nil:
				if s.hit && s.failMode != "cancel" && len(b) > 0 && s.failMode != "" {
					// a fault at the begin may have been retried by database/sql
					c.Class("absorbed fault")
				}
				if !create {
					for k := range sc {
						if !have[k] {
							delete(sc, k)
						}
					}
				}
				if !equal(v, sc, tk) {
					c.Failf("after an accepted batch the database has%s, expected%s", desc(v.scalar, v.token), desc(sc, tk))
				}
				scal, tok, applied = sc, tk, ap
			case equal(v, scal, tok) && !equal(v, sc, tk):
				failed++
			case equal(v, sc, tk):
				if s.failMode == "lostcommit" {
					unknown++
				}
				// indistinguishable, or committed with the reply lost; if nothing changed
				// (all repeated) the identifiers are known anyway
				if s.failMode == "lostcommit" && s.hit {
					scal, tok, applied = sc, tk, ap
				} else if !equal(v, scal, tok) {
					c.Failf("a failed batch took effect: now%s, before%s", desc(v.scalar, v.token), desc(scal, tok))
				}
			default:
				c.Failf("a failed batch left%s; before%s, complete%s", desc(v.scalar, v.token), desc(scal, tok), desc(sc, tk))
			}
			if s.failMode == "" && err != nil {
				c.Failf("CommitBatch: %v", err)
			}
		}
		if unknown > 0 {
			c.Class("unknown outcome")
		}
		if lower {
			c.Class("lower token")
		}
		if failed > 0 && retries > 0 {
			c.NT()
		}
	})
}

// An identifier that belongs to a commit of another key is a mistake of the caller, and the
// interface promises that it shows: the batch is refused and changes nothing.
func TestC16Conflict(t *testing.T) {
	kit.Run(t, 1500, 20000, func(c *kit.Case) {
		s := newPgServer()
		db := openPg(s)
		defer db.Close()
		p := ps.NewPostgresPersister(db, true)
		keys := rapid.Permutation(pgKeys).Draw(c.T, "keys")[:rapid.IntRange(2, 4).Draw(c.T, "nkeys")]
		id := drawIDStyle(c.T)
		owner := map[string]string{}
		sum := map[string]int64{}
		serial, refused := 0, 0
		for i, n := 0, rapid.IntRange(1, 6).Draw(c.T, "steps"); i < n; i++ {
			var b []ps.CommitEntry
			mine := map[string]string{}
			conflict := false
			add := map[string]int64{}
			for j, m := 0, rapid.IntRange(1, 5).Draw(c.T, "rows"); j < m; j++ {
				e := ps.CommitEntry{Key: rapid.SampledFrom(keys).Draw(c.T, "key"), Vector: rapid.Int64Range(-9, 9).Draw(c.T, "vec")}
				if serial > 0 && rapid.IntRange(0, 4).Draw(c.T, "reuse") == 0 {
					e.CommitID = id(rapid.IntRange(1, serial).Draw(c.T, "which"))
				} else {
					serial++
					e.CommitID = id(serial)
				}
				o, known := owner[e.CommitID]
				if !known {
					o, known = mine[e.CommitID]
				}
				switch {
				case !known:
					mine[e.CommitID] = e.Key
					add[e.Key] -= e.Vector
				case o != e.Key:
					conflict = true
				}
				b = append(b, e)
			}
			before := view(s)
			err := p.CommitBatch(context.Background(), b)
			s.txLock <- struct{}{}
			<-s.txLock
			v := view(s)
			c.Logf("{%s} -> %v; now %v", showBatch(b), err, v.scalar)
			if conflict {
				refused++
				if err == nil {
					c.Failf("an identifier of another key's commit was accepted")
				}
				if fmt.Sprint(v.scalar) != fmt.Sprint(before.scalar) {
					c.Failf("a refused batch changed the counters from %v to %v", before.scalar, v.scalar)
				}
				continue
			}
			if err != nil {
				c.Failf("CommitBatch: %v", err)
			}
			for k, d := range add {
				sum[k] += d
			}
			for k, o := range mine {
				owner[k] = o
			}
			for k, x := range v.scalar {
				if x != sum[k] {
					c.Failf("counter %q is %d, expected %d", k, x, sum[k])
				}
			}
		}
		if refused > 0 && len(owner) > 1 {
			c.NT("conflicting identifier")
		}
	})
}

// TestC16Concurrent: several writers deliver the same batches.
func TestC16Concurrent(t *testing.T) {
	kit.Run(t, 400, 4000, func(c *kit.Case) {
		s := newPgServer()
		db := openPg(s)
		defer db.Close()
		p := ps.NewPostgresPersister(db, true)
		serial := 0
		want := map[string]int64{}
		maxTok := map[string]int64{}
		var batches [][]ps.CommitEntry
		for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "batches"); i < n; i++ {
			var b []ps.CommitEntry
			for j, m := 0, rapid.IntRange(1, 4).Draw(c.T, "rows"); j < m; j++ {
				serial++
				tk := rapid.Int64Range(1, 9).Draw(c.T, "token")
				e := ps.CommitEntry{Key: rapid.SampledFrom([]string{"a", "b"}).Draw(c.T, "key"), Vector: rapid.Int64Range(-20, 20).Draw(c.T, "v"), CommitID: fmt.Sprintf("id%d", serial), FencingToken: &tk}
				want[e.Key] -= e.Vector
				if tk > maxTok[e.Key] {
					maxTok[e.Key] = tk
				}
				b = append(b, e)
			}
			batches = append(batches, b)
		}
		writers := rapid.IntRange(2, 6).Draw(c.T, "writers")
		c.Logf("%d writers of %d batches, %d commits", writers, len(batches), serial)
		var wg sync.WaitGroup
		errs := make([]error, writers)
		for w := 0; w < writers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range batches {
					if err := p.CommitBatch(context.Background(), batches[(i+w)%len(batches)]); err != nil {
						errs[w] = err
					}
				}
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				c.Failf("CommitBatch: %v", err)
			}
		}
		v := view(s)
		for k, x := range want {
			if v.scalar[k] != x {
				c.Failf("counter %q is %d, the distinct commits add up to %d", k, v.scalar[k], x)
			}
			if v.token[k] == nil || *v.token[k] != maxTok[k] {
				c.Failf("token of %q is %v, the highest was %d", k, v.token[k], maxTok[k])
			}
		}
		c.NT()
	})
}
