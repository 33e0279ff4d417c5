package tfd

// C22 under the controlled scheduler.

import (
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
	vs "vsa/internal/verifsched"
)

func TestC22Sched(t *testing.T) {
	kit.Run(t, 15000, 250000, func(c *kit.Case) {
		p := NewPipeline(PipelineOptions{Shards: 1, OrderPow2: 2, CountThresh: 8, TimeCap: time.Hour, FlushInterval: time.Hour, Buffer: 64})
		nt := rapid.IntRange(2, 4).Draw(c.T, "tasks")
		nk := uint64(rapid.IntRange(1, 2).Draw(c.T, "keys"))
		plan := make([][]uint64, nt) // key, or 0 for a drain of all keys (only in task 0)
		for i := range plan {
			for j, n := 0, rapid.IntRange(1, 4).Draw(c.T, "steps"); j < n; j++ {
				lo := uint64(1)
				if i == 0 {
					lo = 0
				}
				plan[i] = append(plan[i], rapid.Uint64Range(lo, nk).Draw(c.T, "key"))
			}
		}
		mk, desc := vfDrawPolicy(c.T, nt, 30)
		c.Logf("plan=%v schedule %s", plan, desc)
		type ev struct {
			began, ended int
			persisted    Envelope
			calls        int
			key          uint64
		}
		evs := map[uint64]*ev{}
		got := map[uint64][]Envelope{}
		type cut struct {
			began int
			n     map[uint64]int // events drained by the end of this drain
		}
		var cuts []cut
		drain := func() {
			b := vs.Now()
			for k := uint64(1); k <= nk; k++ {
				got[k] = append(got[k], p.DrainV(k)...)
			}
			cu := cut{b, map[uint64]int{}}
			for k := range got {
				cu.n[k] = len(got[k])
			}
			cuts = append(cuts, cu)
		}
		var fs []func()
		for i := range plan {
			fs = append(fs, func() {
				for j, k := range plan[i] {
					if k == 0 {
						drain()
						continue
					}
					seq := uint64(i*100 + j)
					e := &ev{began: vs.Now(), key: k}
					evs[seq] = e
					p.Handle(Envelope{Channel: ChannelVector, Delta: int64(seq), SeqEnd: seq, Footprint: Footprint{KeyID: k, Scope: ChannelVector}},
						func(x Envelope) { e.persisted = x; e.calls++ })
					e.ended = vs.Now()
				}
			})
		}
		res := vs.Run(mk(), nil, fs...)
		if res.Outside {
			c.Class("not judged: blocks outside the scheduler")
			return
		}
		if res.Panic != "" || res.Deadlock != "" {
			c.Failf("%s%s", res.Panic, res.Deadlock)
		}
		for k := uint64(1); k <= nk; k++ {
			got[k] = append(got[k], p.DrainV(k)...)
		}
		pos := map[uint64]int{}
		for k, es := range got {
			for i, e := range es {
				x := evs[e.SeqEnd]
				if x == nil || x.key != k || e.Footprint.KeyID != k {
					c.Failf("the queue of key %d holds %+v", k, e)
				}
				if _, dup := pos[e.SeqEnd]; dup {
					c.Failf("event %d was drained twice", e.SeqEnd)
				}
				pos[e.SeqEnd] = i
				if e.HashPrev != Hash128(k, e.SeqEnd) || e.Delta != int64(e.SeqEnd) {
					c.Failf("event %+v does not carry its link", e)
				}
				if x.calls != 1 || x.persisted != e {
					c.Failf("event %+v was persisted %d times, as %+v", e, x.calls, x.persisted)
				}
			}
		}
		overlap := false
		for s, x := range evs {
			if _, ok := pos[s]; !ok {
				c.Failf("event %d was lost", s)
			}
			for s2, y := range evs {
				if x.key == y.key && x.ended < y.began && pos[s] > pos[s2] {
					c.Failf("key %d: event %d was accepted before event %d began but is drained after it", x.key, s, s2)
				}
				if s != s2 && x.key == y.key && x.began < y.ended && y.began < x.ended {
					overlap = true
				}
			}
			for _, cu := range cuts {
				if x.ended < cu.began && pos[s] >= cu.n[x.key] {
					c.Failf("a drain that began after event %d was accepted did not return it", s)
				}
			}
		}
		if overlap {
			c.NT(fmt.Sprintf("drains=%v", len(cuts) > 0))
		}
	})
}
