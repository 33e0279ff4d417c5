package tfd

// C22: the ordered lane, sequentially and from real goroutines (also run with -race).

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
)

func vfNewIdlePipeline() *Pipeline {
	return NewPipeline(PipelineOptions{Shards: 1, OrderPow2: 2, CountThresh: 8, TimeCap: time.Hour, FlushInterval: time.Hour, Buffer: 4096})
}

func vfVEnvAll(k uint64, d int64, seq uint64) Envelope {
	return Envelope{Channel: ChannelVector, Delta: d, SeqEnd: seq, Footprint: Footprint{KeyID: k, Time: TimeFootprint{All: true}, Scope: ChannelVector}}
}

func vfLinked(e Envelope) Envelope {
	e.HashPrev = Hash128(e.Footprint.KeyID, e.SeqEnd)
	return e
}

func TestC22Model(t *testing.T) {
	kit.Run(t, 40000, 400000, func(c *kit.Case) {
		p := vfNewIdlePipeline()
		r := NewVRouter()
		direct := rapid.IntRange(0, 2).Draw(c.T, "router only") == 0
		nk := rapid.IntRange(1, 6).Draw(c.T, "keys")
		var keys []uint64
		seen := map[uint64]bool{}
		for len(keys) < nk {
			k := rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 40), rapid.SampledFrom([]uint64{0, 1 << 63, 1 << 32, 256, 512})).Draw(c.T, "key")
			if !seen[k] {
				seen[k] = true
				keys = append(keys, k)
			}
		}
		want := map[uint64][]Envelope{}
		links := map[[16]byte][2]uint64{}
		seq := uint64(0)
		drained, many := 0, 0
		var kept [][2][]Envelope // what was drained, and what it has to remain
		drain := func(k uint64) {
			var out []Envelope
			if direct {
				out = r.Route(k).Drain()
			} else {
				out = p.DrainV(k)
			}
			c.Logf("drain %x -> %d", k, len(out))
			if len(out) != len(want[k]) {
				c.Failf("drained %d events of key %x, accepted %d", len(out), k, len(want[k]))
			}
			for i := range out {
				if out[i] != want[k][i] {
					c.Failf("event %d of key %x is %+v, want %+v", i, k, out[i], want[k][i])
				}
			}
			if len(out) > 1 {
				many++
			}
			// what was drained belongs to the caller
			if rapid.Bool().Draw(c.T, "overwrite") {
				for i := range out {
					out[i] = Envelope{}
				}
			} else {
				kept = append(kept, [2][]Envelope{out, append([]Envelope(nil), out...)})
			}
			drained += len(want[k])
			want[k] = nil
		}
		n := rapid.IntRange(1, 60).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			k := rapid.SampledFrom(keys).Draw(c.T, "k")
			switch op := rapid.IntRange(0, 11).Draw(c.T, "op"); {
			case op == 0:
				drain(k)
			case op == 1:
				e := vfSEnv(vfCell{k, 1}, 5, seq)
				c.Logf("scalar %x", k)
				if direct {
					r.Route(k).Enqueue(e)
				} else {
					called := false
					p.Handle(e, func(Envelope) { called = true })
					if called {
						c.Failf("a scalar event was persisted as an ordered one")
					}
				}
			default:
				switch rapid.IntRange(0, 5).Draw(c.T, "seq") {
				case 0: // repeated or out of order
					seq = vfDrawSeq.Draw(c.T, "s")
				default:
					seq++
				}
				e := Envelope{Channel: ChannelVector, Delta: vfDrawDelta(c.T), SeqEnd: seq,
					Footprint: Footprint{KeyID: k, Time: TimeFootprint{BucketID: rapid.Uint64Range(0, 3).Draw(c.T, "bucket"), All: rapid.Bool().Draw(c.T, "all")}, Scope: ChannelVector}}
				if rapid.IntRange(0, 3).Draw(c.T, "stale link") == 0 {
					e.HashPrev = [16]byte{1, 2, 3}
				}
				c.Logf("vector %x seq %d delta %d", k, seq, e.Delta)
				w := vfLinked(e)
				if id, ok := links[w.HashPrev]; ok && id != [2]uint64{k, seq} {
					c.Failf("the events (%x,%d) and (%x,%d) have the same audit link", k, seq, id[0], id[1])
				}
				links[w.HashPrev] = [2]uint64{k, seq}
				if direct {
					r.Route(k).Enqueue(e)
				} else if rapid.IntRange(0, 4).Draw(c.T, "no callback") == 0 {
					p.Handle(e, nil)
				} else {
					calls := 0
					var got Envelope
					p.Handle(e, func(x Envelope) { calls++; got = x })
					if calls != 1 {
						c.Failf("persisted %d times", calls)
					}
					if got != w {
						c.Failf("persisted %+v, want %+v", got, w)
					}
				}
				want[k] = append(want[k], w)
			}
		}
		for _, k := range keys {
			drain(k)
		}
		for _, k := range keys {
			drain(k) // nothing twice
		}
		drain(keys[0] + 12345)
		for _, b := range kept {
			for i := range b[0] {
				if b[0][i] != b[1][i] {
					c.Failf("a drained event %+v has become %+v since", b[1][i], b[0][i])
				}
			}
		}
		if len(keys) > 1 && many > 0 {
			c.NT(fmt.Sprintf("direct=%v", direct))
		}
	})
}

func TestC22Concurrent(t *testing.T) {
	kit.Run(t, kit.Pick(300, 300), 4000, func(c *kit.Case) {
		p := vfNewIdlePipeline()
		nk := rapid.IntRange(1, 4).Draw(c.T, "keys")
		np := rapid.IntRange(2, 6).Draw(c.T, "producers")
		per := rapid.IntRange(20, 200).Draw(c.T, "events")
		if rapid.IntRange(0, 19).Draw(c.T, "bulk") == 0 {
			per *= 20
		}
		drains := rapid.Bool().Draw(c.T, "concurrent drains")
		c.Logf("keys=%d producers=%d events=%d drains=%v", nk, np, per, drains)
		key := func(i int) uint64 { return uint64(i+1) * 0x10001 }
		type log struct{ e []Envelope }
		persisted := make([]log, np)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < np; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < per; j++ {
					k := key((i + j) % nk)
					p.Handle(vfVEnvAll(k, int64(i*1000000+j), uint64(i*1000000+j)), func(x Envelope) { persisted[i].e = append(persisted[i].e, x) })
				}
			}()
		}
		got := map[uint64][]Envelope{}
		stop := make(chan struct{})
		done := make(chan struct{})
		go func() {
			defer close(done)
			<-start
			for drains {
				for k := 0; k < nk; k++ {
					got[key(k)] = append(got[key(k)], p.DrainV(key(k))...)
				}
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
		close(start)
		wg.Wait()
		close(stop)
		<-done
		for k := 0; k < nk; k++ {
			got[key(k)] = append(got[key(k)], p.DrainV(key(k))...)
		}
		seen := map[uint64]int{}
		total := 0
		for k, es := range got {
			last := map[uint64]uint64{}
			for _, e := range es {
				if e.Footprint.KeyID != k {
					c.Failf("event %+v in the queue of key %x", e, k)
				}
				if e != vfLinked(vfVEnvAll(k, e.Delta, e.SeqEnd)) || int64(e.SeqEnd) != e.Delta {
					c.Failf("corrupted event %+v", e)
				}
				pr := e.SeqEnd / 1000000
				if l, ok := last[pr]; ok && l >= e.SeqEnd {
					c.Failf("key %x: producer %d's event %d came after %d", k, pr, e.SeqEnd, l)
				}
				last[pr] = e.SeqEnd
				seen[e.SeqEnd]++
				total++
			}
		}
		for i := 0; i < np; i++ {
			for j := 0; j < per; j++ {
				if n := seen[uint64(i*1000000+j)]; n != 1 {
					c.Failf("event %d of producer %d was drained %d times", j, i, n)
				}
			}
			if len(persisted[i].e) != per {
				c.Failf("producer %d persisted %d of %d events", i, len(persisted[i].e), per)
			}
			for j, e := range persisted[i].e {
				if e != vfLinked(vfVEnvAll(key((i+j)%nk), int64(i*1000000+j), uint64(i*1000000+j))) {
					c.Failf("producer %d persisted %+v as its event %d", i, e, j)
				}
			}
		}
		if total != np*per {
			c.Failf("%d events drained, %d accepted", total, np*per)
		}
		c.NT(fmt.Sprintf("drains=%v", drains))
	})
}

// Many events on a key between two drains, and many keys.
func TestC22Bulk(t *testing.T) {
	kit.Run(t, 60, 400, func(c *kit.Case) {
		p := vfNewIdlePipeline()
		scale := func(label string, hi int) int {
			exps := make([]int, hi+1)
			for i := range exps {
				exps[i] = i
			}
			e := rapid.SampledFrom(exps).Draw(c.T, label+" scale")
			return 1<<e + rapid.IntRange(0, 1<<e-1).Draw(c.T, label)
		}
		nk := scale("keys", 16)
		total := scale("events", 17) + nk
		mul := rapid.Uint64().Draw(c.T, "multiplier") | 1
		skew := rapid.Bool().Draw(c.T, "most on one key")
		c.Logf("%d events over %d keys (i*%x), most on one: %v", total, nk, mul, skew)
		next := make([]uint64, nk)
		count := func(k int) int { return int(next[k]) }
		for i := 0; i < total; i++ {
			k := i % nk
			if skew && i >= nk && i%8 != 0 {
				k = 0
			}
			p.Handle(vfVEnvAll(uint64(k)*mul, int64(i), next[k]), nil)
			next[k]++
		}
		largest := 0
		for k := 0; k < nk; k++ {
			out := p.DrainV(uint64(k) * mul)
			if len(out) != count(k) {
				c.Failf("key %x: %d events drained, %d accepted", uint64(k)*mul, len(out), count(k))
			}
			last := int64(-1)
			for j, e := range out {
				if e.SeqEnd != uint64(j) || e.Delta <= last || e.Footprint.KeyID != uint64(k)*mul || e.HashPrev != Hash128(e.Footprint.KeyID, e.SeqEnd) {
					c.Failf("key %x: event %d of %d is %+v", uint64(k)*mul, j, len(out), e)
				}
				last = e.Delta
			}
			if more := p.DrainV(uint64(k) * mul); len(more) != 0 {
				c.Failf("key %x: %d events drained twice", uint64(k)*mul, len(more))
			}
			largest = max(largest, len(out))
		}
		if largest > 1000 || nk > 1000 {
			c.NT("more than 1000 events on a key, or keys")
			if largest > 50000 {
				c.Class("more than 50000 events on a key")
			}
		}
	})
}
