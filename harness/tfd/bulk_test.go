package tfd

// The sizes the other tests do not reach: many shards, tens of thousands of cells in one
// table, lists of thousands of batches, long logs. Everything follows from a drawn seed.

import (
	"math/rand"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
)

// bulkCells gives n cells in one of several patterns, with the zero cell among them.
func vfBulkCells(t *rapid.T, rng *rand.Rand, n int) []vfCell {
	out := make([]vfCell, 0, n)
	kind := rapid.SampledFrom([]string{"random", "keys", "buckets", "dense", "high bits"}).Draw(t, "cells")
	base := rng.Uint64()
	for i := 0; i < n; i++ {
		u := uint64(i)
		switch kind {
		case "random":
			out = append(out, vfCell{rng.Uint64(), rng.Uint64()})
		case "keys":
			out = append(out, vfCell{base + u, 0})
		case "buckets":
			out = append(out, vfCell{base, u})
		case "dense":
			out = append(out, vfCell{u % 257, u / 257})
		case "high bits":
			out = append(out, vfCell{u << 40, u << 44})
		}
	}
	out[rng.Intn(n)] = vfCell{}
	return out
}

func TestC20Bulk(t *testing.T) {
	kit.Run(t, 30, 300, func(c *kit.Case) {
		c.Slow(200 * time.Second)
		shards := rapid.SampledFrom([]int{1, 1, 2, 16, 127, 128, 129, 200, 255, 256, 257, 700}).Draw(c.T, "shards")
		order := rapid.SampledFrom([]int{1, 4, 10, 16, 17}).Draw(c.T, "order")
		n := rapid.SampledFrom([]int{300, 5000, 40000, 66000, 140000}).Draw(c.T, "n")
		if order*shards > 2000 {
			order = 4
		}
		rng := rand.New(rand.NewSource(rapid.Int64().Draw(c.T, "seed")))
		acc := NewSAccumulator(shards, order, 1<<20, time.Hour)
		cells := vfBulkCells(c.T, rng, n)
		c.Logf("shards=%d order=%d cells=%d", shards, order, n)
		want := vfNewTally()
		for round, rounds := 0, rapid.IntRange(1, 2).Draw(c.T, "rounds"); round < rounds; round++ {
			for i := range cells {
				cl := cells[i]
				if rng.Intn(4) == 0 {
					cl = cells[rng.Intn(len(cells))]
				}
				d, s := rng.Int63n(2001)-1000, rng.Uint64()
				acc.Ingest(vfSEnv(cl, d, s))
				want.add(cl, d, s)
			}
			want.match(c, "FlushAll", acc.FlushAll(), vfAll)
			want = vfNewTally()
			if again := acc.FlushAll(); len(again) != 0 {
				c.Failf("a second FlushAll emitted %d batches again", len(again))
			}
		}
		c.NT()
	})
}

func TestC21Bulk(t *testing.T) {
	kit.Run(t, 400, 5000, func(c *kit.Case) {
		n := rapid.SampledFrom([]int{129, 1000, 1025, 4096, 4097, 9000, 40000}).Draw(c.T, "n")
		rng := rand.New(rand.NewSource(rapid.Int64().Draw(c.T, "seed")))
		cells := vfBulkCells(c.T, rng, max(1, n/rapid.SampledFrom([]int{1, 2, 50, 5000}).Draw(c.T, "per cell")))
		want := vfNewTally()
		var in []SBatch
		for i := 0; i < n; i++ {
			cl := cells[rng.Intn(len(cells))]
			if i < len(cells) {
				cl = cells[i]
			}
			d, s := rng.Int63n(5)-2, rng.Uint64()
			if rng.Intn(4) == 0 {
				d = -int64(want.sum[cl])
			}
			in = append(in, SBatch{KeyID: cl[0], BucketID: cl[1], NetDelta: d, SeqEnd: s})
			want.add(cl, d, s)
		}
		c.Logf("%d batches of %d cells", n, len(want.seen))
		var v VSATransformer = SimpleVSA{}
		out := append([]SBatch(nil), v.Compress(append([]SBatch(nil), in...))...)
		got := map[vfCell]SBatch{}
		for _, b := range out {
			cl := vfCell{b.KeyID, b.BucketID}
			if _, dup := got[cl]; dup {
				c.Failf("two batches for cell %x", cl)
			}
			got[cl] = b
			if !want.seen[cl] || uint64(b.NetDelta) != want.sum[cl] || b.NetDelta == 0 || b.SeqEnd != want.seq[cl] {
				c.Failf("cell %x: (%d,%d), want (%d,%d)", cl, b.NetDelta, b.SeqEnd, int64(want.sum[cl]), want.seq[cl])
			}
		}
		for cl := range want.seen {
			if _, ok := got[cl]; !ok && want.sum[cl] != 0 {
				c.Failf("cell %x with net %d is missing", cl, int64(want.sum[cl]))
			}
		}
		rng.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
		if o2 := v.Compress(in); !vfSameBatches(o2, out) {
			c.Failf("another order of the input gives another result")
		}
		if len(want.seen) > 1 {
			c.NT("bulk")
		}
	})
}

func TestC23Bulk(t *testing.T) {
	kit.Run(t, 200, 2500, func(c *kit.Case) {
		n := rapid.SampledFrom([]int{300, 3000, 20000, 70000}).Draw(c.T, "n")
		rng := rand.New(rand.NewSource(rapid.Int64().Draw(c.T, "seed")))
		cells := vfBulkCells(c.T, rng, max(1, n/rapid.SampledFrom([]int{1, 3, 300}).Draw(c.T, "per cell")))
		vPct := rapid.SampledFrom([]int{0, 10, 50, 100}).Draw(c.T, "ordered")
		comp := rapid.Bool().Draw(c.T, "compressed")
		flushEvery := rapid.SampledFrom([]int{7, 1000, 1 << 30}).Draw(c.T, "flush every")
		acc := NewSAccumulator(rapid.IntRange(1, 8).Draw(c.T, "shards"), rapid.SampledFrom([]int{2, 8, 14}).Draw(c.T, "order"), 1024, time.Hour)
		var stream, vs []Envelope
		var sb []SBatch
		model := map[vfCell]int64{}
		for i := 0; i < n; i++ {
			cl := cells[rng.Intn(len(cells))]
			d := rng.Int63n(201) - 100
			e := vfSEnv(cl, d, uint64(i+1))
			if rng.Intn(100) < vPct {
				e = vfVEnv(cl, d, uint64(i+1))
				vs = append(vs, e)
			} else {
				acc.Ingest(e)
			}
			stream = append(stream, e)
			model[cl] += d
			if i%flushEvery == flushEvery-1 {
				sb = append(sb, acc.FlushAll()...)
			}
		}
		sb = append(sb, acc.FlushAll()...)
		if comp {
			sb = SimpleVSA{}.Compress(sb)
		}
		for k, v := range model {
			if v == 0 {
				delete(model, k)
			}
		}
		c.Logf("%d events, %d ordered, %d batches, %d cells", n, len(vs), len(sb), len(model))
		rng.Shuffle(len(sb), func(i, j int) { sb[i], sb[j] = sb[j], sb[i] })
		rng.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		base := NewState()
		base.BaselineApply(stream)
		if d := vfDiffCells(model, vfCellsOf(base)); d != "" {
			c.Failf("BaselineApply differs from the running sums: %.300s", d)
		}
		rec := NewState()
		rec.Reconstruct(sb, vs)
		if d := vfDiffCells(model, vfCellsOf(rec)); d != "" {
			c.Failf("replaying the logs gives another state: %.300s", d)
		}
		if len(vs) > 0 && len(sb) > 0 {
			c.NT("long logs")
		}
	})
}
