package tfd

// C19 classification, C20 conservation of the order-free lane, C21 compression,
// C23 reconstruction: single-threaded properties of plugin/tfd.

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
)

type vfCell = [2]uint64

const vfMixer = 0x9e3779b97f4a7c15

// cells draws a pool of cells rich in equal halves and in pairs that share their packed
// 64-bit form (bucket shifted left, xor-ed with a multiple of the key).
func vfDrawCells(t *rapid.T, max int) []vfCell {
	n := rapid.IntRange(1, max).Draw(t, "cells")
	ids := rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 4), rapid.SampledFrom([]uint64{0, 1, 1 << 63, math.MaxUint64, 1<<63 | 1}))
	var out []vfCell
	seen := map[vfCell]bool{}
	add := func(c vfCell) {
		if !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	for len(out) < n {
		if len(out) == 0 {
			add(vfCell{ids.Draw(t, "key"), ids.Draw(t, "bucket")})
			continue
		}
		p := out[rapid.IntRange(0, len(out)-1).Draw(t, "base")]
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0: // same packed form, same key
			add(vfCell{p[0], p[1] ^ 1<<63})
		case 1: // same packed form, another key
			k2 := p[0] + 2*rapid.Uint64Range(1, 1<<40).Draw(t, "dk")
			x := p[0]*vfMixer ^ k2*vfMixer
			if x&1 == 0 {
				add(vfCell{k2, p[1] ^ x>>1})
			}
		case 2: // swapped
			add(vfCell{p[1], p[0]})
		case 3:
			add(vfCell{p[0], ids.Draw(t, "bucket")})
		case 4:
			add(vfCell{ids.Draw(t, "key"), p[1]})
		default:
			add(vfCell{ids.Draw(t, "key"), ids.Draw(t, "bucket")})
		}
		if rapid.IntRange(0, 40).Draw(t, "stop") == 0 {
			break
		}
	}
	return out
}

func vfDrawDelta(t *rapid.T) int64 {
	return rapid.OneOf(rapid.Int64Range(-4, 4), rapid.Int64Range(-1<<50, 1<<50), rapid.SampledFrom([]int64{0, 1, -1, math.MaxInt64 / 1024, math.MinInt64 / 1024})).Draw(t, "delta")
}

var vfDrawSeq = rapid.OneOf(rapid.Uint64Range(0, 50), rapid.Uint64(), rapid.SampledFrom([]uint64{0, math.MaxUint64, 1 << 63}))

func vfSEnv(c vfCell, d int64, seq uint64) Envelope {
	return Envelope{Channel: ChannelScalar, Delta: d, SeqEnd: seq,
		Footprint: Footprint{KeyID: c[0], Time: TimeFootprint{BucketID: c[1]}, Scope: ChannelScalar}}
}

// sEnvDraw is sEnv, at times in the form Classify gives an operation that names no bucket:
// order-free all the same, for all buckets, with bucket number 0.
func vfSEnvDraw(t *rapid.T, c vfCell, d int64, seq uint64) Envelope {
	e := vfSEnv(c, d, seq)
	if c[1] == 0 && rapid.Bool().Draw(t, "all buckets") {
		e.Footprint.Time.All = true
	}
	return e
}

func vfVEnv(c vfCell, d int64, seq uint64) Envelope {
	return Envelope{Channel: ChannelVector, Delta: d, SeqEnd: seq,
		Footprint: Footprint{KeyID: c[0], Time: TimeFootprint{BucketID: c[1]}, Scope: ChannelVector}}
}

// ---- C19 -------------------------------------------------------------------------------

var vfTexts = rapid.OneOf(
	rapid.SampledFrom([]string{"", "a", "A", "b", "ab", "a ", " a", "a\x00", "\x00", "a:b", "a|b", "é", "e\u0301", "\xff", "k1", "k2"}),
	rapid.String(),
	rapid.StringN(1, 3, 6),
	rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 40), func(b []byte) string { return string(b) }),
)

func TestC19Classify(t *testing.T) {
	kit.Run(t, 400000, 4000000, func(c *kit.Case) {
		flags := rapid.OneOf(rapid.IntRange(0, 127), rapid.IntRange(0, 127), rapid.Just(96), rapid.Map(rapid.IntRange(0, 6), func(i int) int { return 96 ^ 1<<i })).Draw(c.T, "flags")
		mk := func(key, bucket string, amount int64, seq uint64) Op {
			return Op{Key: key, Bucket: bucket, Amount: amount, SeqEnd: seq,
				IsBackdated: flags&1 != 0, IsCrossKey: flags&2 != 0, ChangesPolicy: flags&4 != 0,
				NeedsExternalDecision: flags&8 != 0, IsGlobal: flags&16 != 0,
				IsSingleKey: flags&32 != 0, IsConservativeDelta: flags&64 != 0}
		}
		key, bucket := vfTexts.Draw(c.T, "key"), vfTexts.Draw(c.T, "bucket")
		amount := rapid.OneOf(rapid.Int64(), rapid.Int64Range(-2, 2), rapid.SampledFrom([]int64{math.MinInt64, math.MaxInt64})).Draw(c.T, "amount")
		op := mk(key, bucket, amount, vfDrawSeq.Draw(c.T, "seq"))
		ch, fp, d, err := Classify(op)
		c.Logf("%+v -> %v %+v %d %v", op, ch, fp, d, err)
		if key == "" {
			if err == nil {
				c.Failf("an operation without a key was accepted")
			}
			if ch == ChannelScalar {
				c.Failf("an operation without a key was sent to the fast lane")
			}
			return
		}
		if err != nil {
			c.Failf("refused: %v", err)
		}
		want := ChannelVector
		if flags&31 == 0 && flags&96 == 96 {
			want = ChannelScalar
		}
		if ch != want {
			c.Failf("channel %v, want %v", ch, want)
		}
		if fp.Scope != want {
			c.Failf("scope of the footprint is %v, channel %v", fp.Scope, want)
		}
		if d != amount {
			c.Failf("amount %d, want %d", d, amount)
		}
		if fp.KeyID != HashKey(key) || fp.Time.All != (bucket == "") || (bucket != "" && fp.Time.BucketID != HashKey(bucket)) {
			c.Failf("footprint does not name the key and bucket of the operation")
		}
		if fp.Time.All && fp.Time.BucketID != 0 {
			c.Failf("an operation on all buckets names bucket %d", fp.Time.BucketID)
		}
		// another key or bucket is another cell
		k2, b2 := vfTexts.Draw(c.T, "key2"), vfTexts.Draw(c.T, "bucket2")
		if rapid.Bool().Draw(c.T, "near") {
			k2 = key + string(rapid.Rune().Draw(c.T, "r"))
		}
		if rapid.IntRange(0, 2).Draw(c.T, "same key") == 0 {
			k2 = key
		}
		if rapid.IntRange(0, 2).Draw(c.T, "same bucket") == 0 {
			b2 = bucket
		}
		if k2 != "" {
			_, f2, _, err := Classify(mk(k2, b2, 1, 0))
			if err != nil {
				c.Failf("refused %q %q: %v", k2, b2, err)
			}
			if (f2.KeyID == fp.KeyID) != (k2 == key) {
				c.Failf("keys %q and %q: ids %d and %d", key, k2, fp.KeyID, f2.KeyID)
			}
			if (f2.Time == fp.Time) != (b2 == bucket) {
				c.Failf("buckets %q and %q: %+v and %+v", bucket, b2, fp.Time, f2.Time)
			}
			// The classified footprints may run in parallel only if both are order-free
			// and they touch no common cell.
			share := k2 == key && (b2 == bucket || bucket == "" || b2 == "")
			if fp.Disjoint(f2) != (want == ChannelScalar && !share) {
				c.Failf("footprints of (%q,%q) and (%q,%q) in lane %v: Disjoint = %v", key, bucket, k2, b2, want, fp.Disjoint(f2))
			}
			if k2 == key || b2 == bucket {
				c.Class("related pair")
			}
		}
		if flags&31 == 0 || flags&96 == 96 {
			c.NT(fmt.Sprintf("lane=%v", want))
		}
	})
}

func TestC19Disjoint(t *testing.T) {
	kit.Run(t, 400000, 4000000, func(c *kit.Case) {
		id := rapid.OneOf(rapid.Uint64Range(0, 2), rapid.Uint64(), rapid.SampledFrom([]uint64{1 << 63, 1<<63 | 1, 1 << 32, 1<<32 | 1, math.MaxUint64}))
		draw := func(n string) Footprint {
			return Footprint{KeyID: id.Draw(c.T, n+"key"), Time: TimeFootprint{BucketID: id.Draw(c.T, n+"bucket"), All: rapid.IntRange(0, 3).Draw(c.T, n+"all") == 0},
				Scope: rapid.SampledFrom([]Channel{ChannelScalar, ChannelScalar, ChannelScalar, ChannelVector}).Draw(c.T, n+"scope")}
		}
		a, b := draw("a"), draw("b")
		switch rapid.IntRange(0, 4).Draw(c.T, "tie") {
		case 0:
			b.KeyID = a.KeyID
		case 1:
			b.KeyID, b.Time.BucketID = a.KeyID, a.Time.BucketID
		case 2:
			b.Time.BucketID = a.Time.BucketID
		case 3: // differ in one bit
			b.KeyID, b.Time.BucketID = a.KeyID, a.Time.BucketID^1<<rapid.IntRange(0, 63).Draw(c.T, "bit")
		}
		x, y := a.Disjoint(b), b.Disjoint(a)
		c.Logf("%+v | %+v -> %v %v", a, b, x, y)
		if x != y {
			c.Failf("not symmetric")
		}
		share := a.KeyID == b.KeyID && (a.Time.All || b.Time.All || a.Time.BucketID == b.Time.BucketID)
		if want := a.Scope == ChannelScalar && b.Scope == ChannelScalar && !share; x != want {
			c.Failf("Disjoint = %v, want %v", x, want)
		}
		if a.Disjoint(a) {
			c.Failf("a footprint is disjoint from itself")
		}
		if a.KeyID == b.KeyID {
			c.NT(fmt.Sprintf("same key, disjoint=%v", x))
		}
	})
}

// ---- C20 -------------------------------------------------------------------------------

type vfTally struct {
	sum, seq map[vfCell]uint64 // sum modulo 2^64
	seen     map[vfCell]bool
}

func vfNewTally() *vfTally {
	return &vfTally{map[vfCell]uint64{}, map[vfCell]uint64{}, map[vfCell]bool{}}
}

func (a *vfTally) add(c vfCell, d int64, seq uint64) {
	a.seen[c] = true
	a.sum[c] += uint64(d)
	a.seq[c] = max(a.seq[c], seq)
}

func (a *vfTally) drop(f func(vfCell) bool) {
	for c := range a.seen {
		if f(c) {
			delete(a.seen, c)
			delete(a.sum, c)
			delete(a.seq, c)
		}
	}
}

// match compares flushed batches with the cells of the tally selected by f. A cell may come
// in several batches; together they must hold its total and its highest sequence number.
func (a *vfTally) match(c *kit.Case, what string, out []SBatch, f func(vfCell) bool) {
	got := vfNewTally()
	for _, b := range out {
		cl := vfCell{b.KeyID, b.BucketID}
		if !a.seen[cl] || !f(cl) {
			c.Failf("%s emitted a batch %+v for a cell without events", what, b)
		}
		got.add(cl, b.NetDelta, b.SeqEnd)
	}
	for cl := range a.seen {
		if !f(cl) {
			continue
		}
		if !got.seen[cl] && a.sum[cl] != 0 {
			c.Failf("%s kept back cell %v: %d", what, cl, int64(a.sum[cl]))
		}
		if got.sum[cl] != a.sum[cl] {
			c.Failf("%s emitted %d for cell %v, ingested %d", what, int64(got.sum[cl]), cl, int64(a.sum[cl]))
		}
		if got.seen[cl] && got.seq[cl] != a.seq[cl] {
			c.Failf("%s gives sequence number %d for cell %v, want %d", what, got.seq[cl], cl, a.seq[cl])
		}
	}
}

func vfAll(vfCell) bool { return true }

// keptBatches holds on to what was emitted: it belongs to the caller and must not change.
type vfKeptBatches [][2][]SBatch

func (k *vfKeptBatches) keep(b []SBatch) {
	*k = append(*k, [2][]SBatch{b, append([]SBatch(nil), b...)})
}

func (k vfKeptBatches) check(c *kit.Case) {
	for _, b := range k {
		for i := range b[1] {
			if b[0][i] != b[1][i] {
				c.Failf("an emitted batch %v has become %v since", b[1][i], b[0][i])
			}
		}
	}
}

func vfShowBatches(b []SBatch) string {
	if len(b) > 6 {
		return fmt.Sprintf("%d batches", len(b))
	}
	return fmt.Sprintf("%v", b)
}

func vfDrawTimes(t *rapid.T) (restore func(), tick func()) {
	if rapid.Bool().Draw(t, "real clock") {
		return func() {}, func() {}
	}
	old := Now
	now := time.Unix(1000, 0)
	Now = func() time.Time { return now }
	return func() { Now = old }, func() {
		now = now.Add(time.Duration(rapid.Int64Range(0, int64(3*time.Second)).Draw(t, "dt")))
	}
}

func TestC20Accumulator(t *testing.T) {
	kit.Run(t, 30000, 400000, func(c *kit.Case) {
		shards := rapid.IntRange(0, 5).Draw(c.T, "shards")
		if rapid.IntRange(0, 30).Draw(c.T, "many shards") == 0 {
			shards = rapid.SampledFrom([]int{-1, 64, 127, 129, 200, 257}).Draw(c.T, "n shards")
		}
		order := rapid.IntRange(0, 5).Draw(c.T, "order")
		thresh := rapid.SampledFrom([]int{0, 1, 2, 3, 8, 1 << 20}).Draw(c.T, "threshold")
		cap := rapid.SampledFrom([]time.Duration{0, 1, time.Second, time.Hour}).Draw(c.T, "time cap")
		restore, tick := vfDrawTimes(c.T)
		defer restore()
		acc := NewSAccumulator(shards, order, thresh, cap)
		pool := vfDrawCells(c.T, 60)
		c.Logf("shards=%d order=%d threshold=%d cap=%v, %d cells", shards, order, thresh, cap, len(pool))
		want := vfNewTally()
		if rapid.IntRange(0, 40).Draw(c.T, "many cells") == 0 {
			// enough cells to overfill any table of the drawn size, again and again
			step := rapid.SampledFrom([]uint64{1, 2, 1 << 20, 1 << 63, vfMixer}).Draw(c.T, "stride")
			m := rapid.IntRange(100, 1500).Draw(c.T, "m")
			for i := 0; i < m; i++ {
				cl := vfCell{pool[0][0] + uint64(i)*step, pool[0][1] + uint64(i%7)}
				acc.Ingest(vfSEnv(cl, int64(i+1), uint64(i)))
				want.add(cl, int64(i+1), uint64(i))
			}
			c.Logf("%d cells at stride %x", m, step)
			c.Class("many cells")
		}
		flushes, events, vectors, dist := 0, 0, 0, 0
		var kept vfKeptBatches
		n := rapid.IntRange(1, 120).Draw(c.T, "events")
		for i := 0; i < n; i++ {
			cl := rapid.SampledFrom(pool).Draw(c.T, "cell")
			switch k := rapid.IntRange(0, 19).Draw(c.T, "op"); {
			case k == 0:
				out := acc.FlushAll()
				c.Logf("flush -> %s", vfShowBatches(out))
				want.match(c, "FlushAll", out, vfAll)
				kept.keep(out)
				dist = max(dist, len(want.seen))
				want = vfNewTally()
				flushes++
			case k == 1:
				tick()
			case k == 2:
				e := vfVEnv(cl, vfDrawDelta(c.T), 9)
				acc.Ingest(e)
				vectors++
				c.Logf("vector %v", cl)
			default:
				d, s := vfDrawDelta(c.T), vfDrawSeq.Draw(c.T, "seq")
				acc.Ingest(vfSEnvDraw(c.T, cl, d, s))
				want.add(cl, d, s)
				events++
				c.Logf("%x += %d seq %d", cl, d, s)
			}
		}
		out := acc.FlushAll()
		want.match(c, "FlushAll", out, vfAll)
		dist = max(dist, len(want.seen))
		if again := acc.FlushAll(); len(again) != 0 {
			c.Failf("a second FlushAll emitted %s again", vfShowBatches(again))
		}
		kept.check(c)
		if order > 0 && dist >= 1<<order/max(1, shards) {
			c.Class("table filled")
		}
		if dist > 1 && events > dist {
			c.NT()
		}
	})
}

func TestC20Shard(t *testing.T) {
	kit.Run(t, 30000, 400000, func(c *kit.Case) {
		order := rapid.IntRange(0, 4).Draw(c.T, "order")
		restore, tick := vfDrawTimes(c.T)
		defer restore()
		sh := newSShard(uint(order), rapid.SampledFrom([]int{1, 4, 1000}).Draw(c.T, "threshold"), time.Second)
		pool := vfDrawCells(c.T, 40)
		c.Logf("order=%d, %d cells", order, len(pool))
		want := vfNewTally()
		perKey, partial := 0, false
		var kept vfKeptBatches
		n := rapid.IntRange(1, 100).Draw(c.T, "events")
		for i := 0; i < n; i++ {
			cl := rapid.SampledFrom(pool).Draw(c.T, "cell")
			switch k := rapid.IntRange(0, 15).Draw(c.T, "op"); {
			case k == 0:
				var out []SBatch
				sh.Flush(&out)
				c.Logf("flush -> %s", vfShowBatches(out))
				want.match(c, "Flush", out, vfAll)
				kept.keep(out)
				want = vfNewTally()
			case k <= 2:
				pre := []SBatch{{KeyID: 7, BucketID: 7, NetDelta: 7, SeqEnd: 7}}
				out := pre
				sh.FlushKey(cl[0], &out)
				if len(out) == 0 || out[0] != pre[0] {
					c.Failf("FlushKey lost what was in the slice already")
				}
				out = out[1:]
				c.Logf("flush key %x -> %s", cl[0], vfShowBatches(out))
				mine := func(x vfCell) bool { return x[0] == cl[0] }
				want.match(c, "FlushKey", out, mine)
				want.drop(mine)
				if len(out) > 0 && len(want.seen) > 0 {
					perKey++
					partial = true
				}
			case k == 3:
				tick()
			default:
				d, s := vfDrawDelta(c.T), vfDrawSeq.Draw(c.T, "seq")
				sh.Ingest(vfSEnvDraw(c.T, cl, d, s))
				want.add(cl, d, s)
				c.Logf("%x += %d seq %d", cl, d, s)
			}
		}
		var out []SBatch
		sh.Flush(&out)
		want.match(c, "Flush", out, vfAll)
		out = nil
		sh.Flush(&out)
		if len(out) != 0 {
			c.Failf("a second Flush emitted %s again", vfShowBatches(out))
		}
		for _, cl := range pool {
			sh.FlushKey(cl[0], &out)
		}
		if len(out) != 0 {
			c.Failf("FlushKey after Flush emitted %s again", vfShowBatches(out))
		}
		kept.check(c)
		if partial {
			c.NT("per-key flush among other keys")
		}
	})
}

// ---- C21 -------------------------------------------------------------------------------

func vfSorted(b []SBatch) []SBatch {
	out := append([]SBatch(nil), b...)
	sort.Slice(out, func(i, j int) bool {
		x, y := out[i], out[j]
		switch {
		case x.KeyID != y.KeyID:
			return x.KeyID < y.KeyID
		case x.BucketID != y.BucketID:
			return x.BucketID < y.BucketID
		case x.NetDelta != y.NetDelta:
			return x.NetDelta < y.NetDelta
		}
		return x.SeqEnd < y.SeqEnd
	})
	return out
}

func vfSameBatches(a, b []SBatch) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = vfSorted(a), vfSorted(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestC21Compress(t *testing.T) {
	kit.Run(t, 150000, 1500000, func(c *kit.Case) {
		var n int
		switch rapid.IntRange(0, 3).Draw(c.T, "size") {
		case 0:
			n = rapid.IntRange(0, 8).Draw(c.T, "n")
		case 1:
			n = rapid.IntRange(60, 68).Draw(c.T, "n")
		case 2:
			n = rapid.IntRange(9, 140).Draw(c.T, "n")
		default:
			n = rapid.SampledFrom([]int{1, 2, 3, 4, 16, 31, 32, 33, 63, 64, 65, 128}).Draw(c.T, "n")
		}
		pool := vfDrawCells(c.T, rapid.SampledFrom([]int{1, 3, 10, 70}).Draw(c.T, "pool"))
		var in []SBatch
		want := vfNewTally()
		for i := 0; i < n; i++ {
			cl := pool[rapid.IntRange(0, len(pool)-1).Draw(c.T, "c")]
			d, s := vfDrawDelta(c.T), vfDrawSeq.Draw(c.T, "seq")
			if want.seen[cl] && rapid.IntRange(0, 3).Draw(c.T, "cancel") == 0 {
				d = -int64(want.sum[cl])
			}
			in = append(in, SBatch{KeyID: cl[0], BucketID: cl[1], NetDelta: d, SeqEnd: s})
			want.add(cl, d, s)
		}
		c.Logf("in %x", in)
		var v VSATransformer = SimpleVSA{}
		buf := make([]SBatch, len(in), len(in)+rapid.IntRange(0, 3).Draw(c.T, "room"))
		copy(buf, in)
		res := v.Compress(buf)
		out := append([]SBatch(nil), res...)
		c.Logf("out %x", out)
		merged, zero := len(in) > len(want.seen), false
		got := map[vfCell]bool{}
		for _, b := range out {
			cl := vfCell{b.KeyID, b.BucketID}
			if !want.seen[cl] {
				c.Failf("invented cell %v", cl)
			}
			if got[cl] {
				c.Failf("two batches for cell %v", cl)
			}
			got[cl] = true
			if uint64(b.NetDelta) != want.sum[cl] {
				c.Failf("cell %v: net %d, want %d", cl, b.NetDelta, int64(want.sum[cl]))
			}
			if b.NetDelta == 0 {
				c.Failf("a batch with net zero for cell %v", cl)
			}
			if b.SeqEnd != want.seq[cl] {
				c.Failf("cell %v: sequence number %d, want %d", cl, b.SeqEnd, want.seq[cl])
			}
		}
		for cl := range want.seen {
			if want.sum[cl] != 0 && !got[cl] {
				c.Failf("cell %v with net %d is missing", cl, int64(want.sum[cl]))
			}
			if want.sum[cl] == 0 {
				zero = true
			}
		}
		if again := v.Compress(append([]SBatch(nil), out...)); !vfSameBatches(again, out) {
			c.Failf("compressing again changed %v to %v", out, again)
		}
		perm := append([]SBatch(nil), in...)
		if len(perm) > 0 {
			perm = rapid.Permutation(perm).Draw(c.T, "permutation")
		}
		if o2 := v.Compress(perm); !vfSameBatches(o2, out) {
			c.Failf("another order of the input gives %v instead of %v", vfSorted(o2), vfSorted(out))
		}
		for i := range out {
			if res[i] != out[i] {
				c.Failf("the result changed from %v to %v while other batches were compressed", out, res)
			}
		}
		if merged && len(want.seen) > 1 {
			l := "small"
			if len(in) > 64 {
				l = "large"
			}
			if zero {
				l += ", with a cell that nets to zero"
			}
			c.NT(l)
		}
	})
}

// ---- C23 -------------------------------------------------------------------------------

func vfCellsOf(s *State) map[vfCell]int64 {
	out := map[vfCell]int64{}
	for k, v := range s.Cells() {
		if v != 0 {
			out[k] = v
		}
	}
	return out
}

func vfDiffCells(a, b map[vfCell]int64) string {
	var d []string
	for k, v := range a {
		if b[k] != v {
			d = append(d, fmt.Sprintf("%x: %d vs %d", k, v, b[k]))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok && v != 0 {
			d = append(d, fmt.Sprintf("%x: absent vs %d", k, v))
		}
	}
	sort.Strings(d)
	return strings.Join(d, ", ")
}

func TestC23Replay(t *testing.T) {
	kit.Run(t, 120000, 1200000, func(c *kit.Case) {
		pool := vfDrawCells(c.T, 14)
		useOps := rapid.Bool().Draw(c.T, "classified operations")
		acc := NewSAccumulator(rapid.IntRange(1, 4).Draw(c.T, "shards"), rapid.IntRange(1, 5).Draw(c.T, "order"), 8, time.Millisecond)
		router := NewVRouter()
		comp := rapid.IntRange(0, 2).Draw(c.T, "compression") // none, per flush, over everything
		var stream []Envelope
		var sb []SBatch
		var vs []Envelope
		model := map[vfCell]int64{}
		flushes := 0
		flush := func() {
			out := acc.FlushAll()
			if len(out) > 0 {
				flushes++
			}
			if comp == 1 {
				out = SimpleVSA{}.Compress(out)
			}
			sb = append(sb, out...)
		}
		vkeys := map[uint64]bool{}
		n := rapid.IntRange(1, 60).Draw(c.T, "events")
		ns, nv := 0, 0
		for i := 0; i < n; i++ {
			var e Envelope
			seq := uint64(i + 1)
			if rapid.IntRange(0, 9).Draw(c.T, "reused sequence number") == 0 {
				seq = vfDrawSeq.Draw(c.T, "seq")
			}
			d := vfDrawDelta(c.T)
			if useOps {
				op := Op{Key: rapid.SampledFrom([]string{"a", "b", "c"}).Draw(c.T, "k"), Bucket: rapid.SampledFrom([]string{"", "1", "2"}).Draw(c.T, "b"), Amount: d,
					IsSingleKey: true, IsConservativeDelta: true, IsBackdated: rapid.IntRange(0, 2).Draw(c.T, "backdated") == 0}
				ch, fp, delta, err := Classify(op)
				if err != nil {
					c.Failf("Classify: %v", err)
				}
				e = Envelope{Channel: ch, Footprint: fp, Delta: delta, SeqEnd: seq}
			} else {
				cl := rapid.SampledFrom(pool).Draw(c.T, "cell")
				if rapid.IntRange(0, 2).Draw(c.T, "lane") == 0 {
					e = vfVEnv(cl, d, seq)
				} else {
					e = vfSEnvDraw(c.T, cl, d, seq)
				}
			}
			stream = append(stream, e)
			cl := vfCell{e.Footprint.KeyID, e.Footprint.Time.BucketID}
			model[cl] += d
			c.Logf("ch%d %x %+d seq %d", e.Channel, cl, d, seq)
			if e.Channel == ChannelScalar {
				acc.Ingest(e)
				ns++
			} else {
				router.Route(e.Footprint.KeyID).Enqueue(e)
				vkeys[e.Footprint.KeyID] = true
				nv++
			}
			if rapid.IntRange(0, 9).Draw(c.T, "flush") == 0 {
				flush()
			}
		}
		flush()
		if comp == 2 {
			sb = SimpleVSA{}.Compress(sb)
		}
		for k := range vkeys {
			vs = append(vs, router.Route(k).Drain()...)
		}
		sort.Slice(vs, func(i, j int) bool { return fmt.Sprint(vs[i]) < fmt.Sprint(vs[j]) })
		if len(sb) > 0 {
			sb = rapid.Permutation(sb).Draw(c.T, "batches")
		}
		if len(vs) > 0 {
			vs = rapid.Permutation(vs).Draw(c.T, "ordered events")
		}
		base := NewState()
		base.BaselineApply(append([]Envelope(nil), stream...))
		for k, v := range model {
			if v == 0 {
				delete(model, k)
			}
		}
		if d := vfDiffCells(model, vfCellsOf(base)); d != "" {
			c.Failf("BaselineApply differs from the running sums: %s", d)
		}
		// in several calls, split anywhere
		rec := NewState()
		calls := rapid.IntRange(1, 3).Draw(c.T, "calls")
		i, j := 0, 0
		for k := 1; k <= calls; k++ {
			i2, j2 := len(sb), len(vs)
			if k < calls {
				i2 = rapid.IntRange(i, len(sb)).Draw(c.T, "i")
				j2 = rapid.IntRange(j, len(vs)).Draw(c.T, "j")
			}
			rec.Reconstruct(append([]SBatch(nil), sb[i:i2]...), append([]Envelope(nil), vs[j:j2]...))
			i, j = i2, j2
		}
		if d := vfDiffCells(model, vfCellsOf(rec)); d != "" {
			c.Failf("replaying the logs in %d calls gives another state: %s", calls, d)
		}
		if ns > 0 && nv > 0 && flushes > 1 {
			c.NT(fmt.Sprintf("compression %d", comp))
		}
	})
}
