// Sequential model checks of the accumulator (C01, C02, C04, C05) and real-goroutine
// stress of its commutative parts (C06). Only the exported API of package vsa is used.
package verifseq

import (
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	"vsa"
	kit "vsa/internal/verifkit"
)

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

const big = math.MaxInt64 / 64

// Amounts no state can hold: asked for, they must be refused or clamped like any other.
var huge = []int64{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 10, math.MaxInt64/2 + 1, math.MaxInt64/2 - 100, 1 << 60, -math.MaxInt64}

type cfg struct {
	opts   vsa.Options
	cached bool
	frozen bool // cached gate whose refresher does not tick during the case
}

func (c cfg) String() string {
	o := c.opts
	return fmt.Sprintf("stripes=%d cheap=%v perP=%v cached=%v/%v slack=%d groups=%d gslack=%d fast=%d hier=%d",
		o.Stripes, o.CheapUpdateChooser, o.PerPUpdateChooser, o.UseCachedGate, o.CacheInterval, o.CacheSlack,
		o.GroupCount, o.GroupSlack, o.FastPathGuard, o.HierarchicalGroups)
}

var stripeVals = []int{-3, 0, 1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 1000}
var groupVals = []int{0, 0, -2, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 31, 64, 200}

func drawCfg(t *rapid.T, gates bool) cfg {
	var c cfg
	o := &c.opts
	o.Stripes = rapid.SampledFrom(stripeVals).Draw(t, "stripes")
	switch rapid.IntRange(0, 3).Draw(t, "chooser") {
	case 1:
		o.CheapUpdateChooser = true
	case 2:
		o.PerPUpdateChooser = true
	case 3:
		o.CheapUpdateChooser, o.PerPUpdateChooser = true, true
	}
	o.HierarchicalGroups = rapid.SampledFrom(groupVals).Draw(t, "hier")
	if !gates {
		return c
	}
	slack := rapid.SampledFrom([]int64{0, 0, 0, 1, 2, 5, 100, -1, -50, math.MaxInt64 / 4})
	switch rapid.IntRange(0, 3).Draw(t, "gate") {
	case 1:
		c.cached = true
	case 2:
		o.GroupCount = rapid.SampledFrom(groupVals).Draw(t, "groups")
		o.GroupSlack = slack.Draw(t, "gslack")
	case 3:
		c.cached = rapid.Bool().Draw(t, "cached")
		o.GroupCount = rapid.SampledFrom(groupVals).Draw(t, "groups")
		o.GroupSlack = slack.Draw(t, "gslack")
	}
	if c.cached {
		o.UseCachedGate = true
		o.CacheSlack = slack.Draw(t, "slack")
		c.frozen = rapid.Bool().Draw(t, "frozen")
		if c.frozen {
			o.CacheInterval = time.Hour
		} else {
			o.CacheInterval = rapid.SampledFrom([]time.Duration{0, 20 * time.Microsecond, time.Millisecond}).Draw(t, "interval")
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "fastOn") == 0 {
		o.FastPathGuard = rapid.SampledFrom([]int64{1, 2, 3, 10, 1000, 1 << 40, math.MaxInt64 - 1, math.MaxInt64}).Draw(t, "fast")
	}
	return c
}

// model is the scalar/vector reference.
type model struct {
	s, net int64
	moved  int64 // sum of |delta| over all operations so far
	nets   map[int64]bool
	maxNet int64 // largest |net| so far
}

func (m *model) avail() int64 { return m.s - abs(m.net) }

func (m *model) shift(d int64) {
	m.net += d
	m.moved += abs(d)
	if abs(m.net) > m.maxNet {
		m.maxNet = abs(m.net)
	}
}

// commit returns how much the scalar moves down.
func (m *model) commit(x int64) int64 {
	if x == 0 || m.net == 0 {
		return 0
	}
	mag := abs(x)
	if mag > abs(m.net) {
		mag = abs(m.net)
	}
	if m.net > 0 {
		m.net -= mag
	} else {
		m.net += mag
	}
	m.s -= mag
	return mag
}

func near(t *rapid.T, label string, around ...int64) int64 {
	if label != "u" && rapid.IntRange(0, 24).Draw(t, label+"huge") == 0 {
		return rapid.SampledFrom(huge).Draw(t, label)
	}
	k := rapid.IntRange(0, len(around)+3).Draw(t, label+"?")
	switch {
	case k < len(around):
		return around[k] + int64(rapid.IntRange(-1, 1).Draw(t, label+"+"))
	case k == len(around):
		return int64(rapid.IntRange(-3, 3).Draw(t, label))
	case k == len(around)+1:
		return int64(rapid.IntRange(-1000, 1000).Draw(t, label))
	case k == len(around)+2:
		return int64(rapid.IntRange(1, 10).Draw(t, label))
	default:
		return rapid.Int64Range(-big/1024, big/1024).Draw(t, label)
	}
}

func drawScalar(t *rapid.T) int64 {
	switch rapid.IntRange(0, 4).Draw(t, "S?") {
	case 0:
		return int64(rapid.IntRange(0, 12).Draw(t, "S"))
	case 1, 2:
		return int64(rapid.IntRange(1, 300).Draw(t, "S"))
	case 3:
		return rapid.Int64Range(0, big).Draw(t, "S")
	default:
		return rapid.Int64Range(-50, 50).Draw(t, "S")
	}
}

type inst struct {
	v *vsa.VSA
	m model
	c cfg
}

func (in *inst) check(c *kit.Case, after string) {
	s, n := in.v.State()
	if s != in.m.s || n != in.m.net {
		c.Failf("after %s: State()=(%d,%d), model says (%d,%d)", after, s, n, in.m.s, in.m.net)
	}
	if a := in.v.Available(); a != in.m.avail() {
		c.Failf("after %s: Available()=%d, but scalar-|net| is %d", after, a, in.m.avail())
	}
}

// denialAllowed: the gate decides on a possibly stale net. Any value the cache can hold is
// bounded by what the operations so far could add up to.
func (in *inst) denialAllowed(n int64) bool {
	if in.m.avail() < n {
		return true
	}
	if !in.c.cached {
		return false
	}
	worst := in.m.moved
	if in.c.frozen {
		worst = in.m.maxNet
	}
	slack := in.c.opts.CacheSlack + max(0, in.c.opts.GroupSlack) // GroupSlack counts only with groups
	return in.m.s-worst-slack < n
}

func (in *inst) consume(c *kit.Case, n int64) bool {
	before := in.m.avail()
	got := in.v.TryConsume(n)
	c.Logf("TryConsume(%d)=%v [S=%d net=%d]", n, got, in.m.s, in.m.net)
	if n <= 0 && got {
		c.Failf("TryConsume(%d) succeeded", n)
	}
	if got && before < n {
		c.Failf("TryConsume(%d) succeeded with only %d available", n, before)
	}
	if !got && n > 0 && !in.denialAllowed(n) {
		c.Failf("TryConsume(%d) refused with %d available (cached=%v)", n, before, in.c.cached)
	}
	if got {
		in.m.shift(n)
	}
	in.check(c, "TryConsume")
	return got
}

func (in *inst) refund(c *kit.Case, n int64) int64 {
	want := int64(0)
	if n > 0 && in.m.net > 0 {
		want = n
		if want > in.m.net {
			want = in.m.net
		}
	}
	got := in.v.TryRefund(n)
	c.Logf("TryRefund(%d)=%v [S=%d net=%d]", n, got, in.m.s, in.m.net)
	if got != (want > 0) {
		c.Failf("TryRefund(%d)=%v with net %d", n, got, in.m.net)
	}
	in.m.shift(-want)
	in.check(c, "TryRefund")
	return want
}

func (in *inst) update(c *kit.Case, d int64) {
	in.v.Update(d)
	c.Logf("Update(%d)", d)
	in.m.shift(d)
	in.check(c, "Update")
}

func (in *inst) commit(c *kit.Case, x int64) {
	before := in.m.avail()
	in.v.Commit(x)
	c.Logf("Commit(%d) [S=%d net=%d]", x, in.m.s, in.m.net)
	in.m.commit(x)
	if in.m.avail() != before {
		kit.Broken("model")
	}
	in.check(c, "Commit")
}

func (in *inst) checkCommit(c *kit.Case, th int64) {
	ok, vec := in.v.CheckCommit(th)
	c.Logf("CheckCommit(%d)=(%v,%d)", th, ok, vec)
	if want := abs(in.m.net) >= th; ok != want {
		c.Failf("CheckCommit(%d)=%v with vector %d", th, ok, in.m.net)
	}
	if ok && vec != in.m.net {
		c.Failf("CheckCommit(%d) answered vector %d, it is %d", th, vec, in.m.net)
	}
	in.check(c, "CheckCommit")
}

func TestC01Model(t *testing.T) {
	kit.Run(t, 60000, 800000, func(c *kit.Case) {
		n := 1
		if rapid.IntRange(0, 3).Draw(c.T, "two") == 0 {
			n = 2
		}
		var ins []*inst
		for i := 0; i < n; i++ {
			cf := drawCfg(c.T, true)
			s := drawScalar(c.T)
			in := &inst{m: model{s: s}, c: cf}
			if i == 0 && rapid.IntRange(0, 5).Draw(c.T, "New") == 0 {
				in.c = cfg{}
				in.v = vsa.New(s)
			} else {
				in.v = vsa.NewWithOptions(s, cf.opts)
			}
			c.Logf("new %d: S=%d %v", i, s, in.c)
			defer in.v.Close()
			in.check(c, "construction")
			ins = append(ins, in)
		}
		var okC, denied, refunds, partial, commits, boundary int
		steps := rapid.IntRange(1, 120).Draw(c.T, "steps")
		for i := 0; i < steps; i++ {
			in := ins[0]
			if n > 1 {
				in = ins[rapid.IntRange(0, 1).Draw(c.T, "which")]
			}
			m := &in.m
			if m.moved > big || abs(m.net) > big || m.s < -big {
				break
			}
			switch rapid.IntRange(0, 12).Draw(c.T, "op") {
			case 0, 1:
				in.update(c, near(c.T, "u", -m.net, m.avail(), m.s))
			case 2, 3, 4, 5, 6:
				x := near(c.T, "c", m.avail(), m.avail()/2)
				if x == m.avail() || x == m.avail()+1 {
					boundary++
				}
				if in.consume(c, x) {
					okC++
				} else {
					denied++
				}
			case 7, 8:
				x := near(c.T, "r", m.net, m.net/2)
				if x > m.net {
					partial++
				}
				if in.refund(c, x) > 0 {
					refunds++
				}
			case 9, 10:
				x := near(c.T, "k", m.net, -m.net, m.net/2)
				if x != 0 && m.net != 0 {
					commits++
				}
				in.commit(c, x)
			case 11:
				in.checkCommit(c, near(c.T, "th", abs(m.net), -m.net))
			case 12:
				if rapid.IntRange(0, 9).Draw(c.T, "close") == 0 {
					in.v.Close()
					c.Logf("Close")
					in.check(c, "Close")
				}
			}
		}
		for _, in := range ins {
			in.check(c, "everything")
		}
		if okC > 0 && (denied > 0 || boundary > 0) && commits > 0 {
			c.NT("admitted+denied+committed")
		}
		if refunds > 0 {
			c.Class("refund")
		}
		if partial > 0 {
			c.Class("clamped-refund")
		}
		if boundary > 0 {
			c.Class("consume-at-boundary")
		}
	})
}

// C02, sequential part: histories of consumes, refunds and commits under the gates, where
// the cache is stale, the stripes uneven or the refresher stopped.
func TestC02Sequential(t *testing.T) {
	kit.Run(t, 30000, 300000, func(c *kit.Case) {
		cf := drawCfg(c.T, true)
		s0 := int64(rapid.IntRange(0, 200).Draw(c.T, "S"))
		in := &inst{v: vsa.NewWithOptions(s0, cf.opts), m: model{s: s0}, c: cf}
		defer in.v.Close()
		c.Logf("S=%d %v", s0, cf)
		skew := rapid.Bool().Draw(c.T, "updates") // uneven stripes through Update
		pureBudget := true
		var admitted, refunded int64
		var ok, denied, boundary, waits int
		steps := rapid.IntRange(1, 150).Draw(c.T, "steps")
		for i := 0; i < steps; i++ {
			m := &in.m
			switch rapid.IntRange(0, 11).Draw(c.T, "op") {
			default:
				x := near(c.T, "c", m.avail(), m.avail()/3)
				if x == m.avail()+1 && x > 0 {
					boundary++
				}
				if in.consume(c, x) {
					admitted += x
					ok++
				} else {
					denied++
				}
			case 6, 7:
				refunded += in.refund(c, near(c.T, "r", m.net))
			case 8:
				in.commit(c, near(c.T, "k", m.net, m.net/2))
			case 9:
				if skew {
					// +x -x leaves the net alone but loads two stripes in opposite ways
					x := int64(rapid.IntRange(-300, 300).Draw(c.T, "skew"))
					in.update(c, x)
					in.update(c, -x)
				}
			case 10:
				if skew && rapid.IntRange(0, 4).Draw(c.T, "neg") == 0 {
					pureBudget = false
					in.update(c, int64(rapid.IntRange(-40, 40).Draw(c.T, "u")))
				}
			case 11:
				if cf.cached && rapid.Bool().Draw(c.T, "stop") {
					in.v.Close()
					c.Logf("Close")
				} else if cf.cached && !cf.frozen && cf.opts.CacheInterval < time.Millisecond && waits < 2 {
					waits++
					time.Sleep(200 * time.Microsecond) // let the refresher run; no oracle depends on it
				}
			}
			if pureBudget && admitted-refunded > s0 {
				c.Failf("admitted %d - refunded %d exceeds the budget %d", admitted, refunded, s0)
			}
		}
		if ok > 0 && boundary > 0 && (cf.cached || cf.opts.GroupCount > 1 || cf.opts.FastPathGuard > 0) {
			c.NT("gate-at-boundary")
		}
	})
}

// C02, concurrent part: real goroutines and the live refresher.
func TestC02Concurrent(t *testing.T) {
	kit.Run(t, 1000, 8000, func(c *kit.Case) {
		cf := drawCfg(c.T, true)
		s0 := int64(rapid.IntRange(1, 400).Draw(c.T, "S"))
		workers := rapid.IntRange(2, 8).Draw(c.T, "workers")
		per := rapid.IntRange(20, 400).Draw(c.T, "per")
		maxN := rapid.IntRange(1, 5).Draw(c.T, "maxN")
		refundEvery := rapid.IntRange(0, 6).Draw(c.T, "refundEvery")
		committer := rapid.Bool().Draw(c.T, "committer")
		stopAt := rapid.IntRange(-3, 3).Draw(c.T, "stopAt")
		c.Logf("S=%d %v workers=%d per=%d maxN=%d refundEvery=%d committer=%v stop=%d", s0, cf, workers, per, maxN, refundEvery, committer, stopAt)
		v := vsa.NewWithOptions(s0, cf.opts)
		defer v.Close()
		var admitted, refunded, denied atomic.Int64
		var wg, wgc sync.WaitGroup
		done := make(chan struct{})
		start := make(chan struct{})
		if committer {
			wgc.Add(1)
			go func() {
				defer wgc.Done()
				for {
					select {
					case <-done:
						return
					default:
						if ok, vec := v.CheckCommit(1); ok {
							v.Commit(vec)
						}
						runtime.Gosched()
					}
				}
			}()
		}
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				for i := 0; i < per; i++ {
					n := int64((i+w)%maxN + 1)
					if v.TryConsume(n) {
						admitted.Add(n)
						if refundEvery > 0 && i%refundEvery == 0 && v.TryRefund(1) {
							refunded.Add(1)
						}
					} else {
						denied.Add(1)
					}
					if w == 0 && stopAt >= 0 && i == per*stopAt/4 {
						v.Close()
					}
				}
			}(w)
		}
		close(start)
		wg.Wait()
		close(done)
		wgc.Wait()
		s, net := v.State()
		if a := admitted.Load() - refunded.Load(); a > s0 {
			c.Failf("admitted %d - refunded %d = %d exceeds the budget %d", admitted.Load(), refunded.Load(), a, s0)
		} else if s0-s+net != a {
			c.Failf("accounting: scalar fell by %d, net %d, but admitted-refunded is %d", s0-s, net, a)
		}
		if a := v.Available(); a < 0 {
			c.Failf("availability is negative: %d", a)
		}
		if denied.Load() > 0 && admitted.Load() > 0 {
			c.NT("contended")
		}
	})
}

// C04, sequential part: directed at commits of every size relative to the vector.
func TestC04Sequential(t *testing.T) {
	kit.Run(t, 15000, 200000, func(c *kit.Case) {
		cf := drawCfg(c.T, rapid.Bool().Draw(c.T, "gates"))
		s := drawScalar(c.T)
		v := vsa.NewWithOptions(s, cf.opts)
		defer v.Close()
		c.Logf("S=%d %v", s, cf)
		net := int64(0)
		var over, opp, part int
		for i, steps := 0, rapid.IntRange(1, 60).Draw(c.T, "steps"); i < steps; i++ {
			if rapid.IntRange(0, 2).Draw(c.T, "op") == 0 {
				d := near(c.T, "u", -net, -2*net)
				if abs(net+d) > big {
					continue
				}
				v.Update(d)
				net += d
				c.Logf("Update(%d)", d)
				continue
			}
			x := near(c.T, "k", net, -net, 2*net, net/2)
			s1, n1 := v.State()
			a1 := v.Available()
			if n1 != net {
				c.Failf("vector is %d, updates and commits make it %d", n1, net)
			}
			v.Commit(x)
			s2, n2 := v.State()
			a2 := v.Available()
			c.Logf("Commit(%d): (%d,%d)->(%d,%d)", x, s1, n1, s2, n2)
			if a1 != a2 {
				c.Failf("Commit(%d) changed availability from %d to %d", x, a1, a2)
			}
			if s1-s2 != abs(n1)-abs(n2) {
				c.Failf("Commit(%d) moved the scalar by %d but |vector| by %d", x, s1-s2, abs(n1)-abs(n2))
			}
			want := abs(x)
			if want > abs(n1) {
				want = abs(n1)
			}
			if s1-s2 != want {
				c.Failf("Commit(%d) of vector %d moved the scalar down by %d, not %d", x, n1, s1-s2, want)
			}
			if (n1 > 0 && n2 < 0) || (n1 < 0 && n2 > 0) {
				c.Failf("Commit(%d) overshot zero: vector %d -> %d", x, n1, n2)
			}
			net = n2
			if abs(x) > abs(n1) {
				over++
			}
			if (x > 0) != (n1 > 0) && x != 0 && n1 != 0 {
				opp++
			}
			if abs(x) < abs(n1) && x != 0 {
				part++
			}
		}
		if over > 0 && part > 0 && opp > 0 {
			c.NT("partial+oversized+opposite")
		}
	})
}

// C05, sequential part.
func TestC05Sequential(t *testing.T) {
	kit.Run(t, 15000, 200000, func(c *kit.Case) {
		cf := drawCfg(c.T, rapid.Bool().Draw(c.T, "gates"))
		s := int64(rapid.IntRange(0, 500).Draw(c.T, "S"))
		v := vsa.NewWithOptions(s, cf.opts)
		defer v.Close()
		c.Logf("S=%d %v", s, cf)
		var pending int64 // uncommitted consumption
		var afterCommit, clamped int
		committed := false
		for i, steps := 0, rapid.IntRange(1, 80).Draw(c.T, "steps"); i < steps; i++ {
			switch rapid.IntRange(0, 5).Draw(c.T, "op") {
			case 0, 1:
				n := int64(rapid.IntRange(1, 40).Draw(c.T, "n"))
				if v.TryConsume(n) {
					pending += n
					c.Logf("TryConsume(%d)", n)
				}
			case 2:
				d := int64(rapid.IntRange(-30, 30).Draw(c.T, "u"))
				v.Update(d)
				pending += d
				c.Logf("Update(%d)", d)
			case 3:
				k := near(c.T, "k", pending, pending/2)
				_, n1 := v.State()
				if n1 != pending {
					c.Failf("vector %d, expected %d", n1, pending)
				}
				v.Commit(k)
				_, pending = v.State()
				committed = true
				c.Logf("Commit(%d)", k)
			default:
				n := near(c.T, "r", pending)
				s1, n1 := v.State()
				a1 := v.Available()
				got := v.TryRefund(n)
				s2, n2 := v.State()
				a2 := v.Available()
				c.Logf("TryRefund(%d)=%v: (%d,%d)->(%d,%d)", n, got, s1, n1, s2, n2)
				if n1 != pending {
					c.Failf("vector %d, expected %d", n1, pending)
				}
				if s1 != s2 {
					c.Failf("refund changed the scalar from %d to %d", s1, s2)
				}
				if got != (n > 0 && n1 > 0) {
					c.Failf("TryRefund(%d)=%v with vector %d", n, got, n1)
				}
				want := int64(0)
				if got {
					want = n
					if want > n1 {
						want = n1
						clamped++
					}
				}
				if n1-n2 != want {
					c.Failf("TryRefund(%d) gave back %d of a vector of %d", n, n1-n2, n1)
				}
				if got && n2 < 0 {
					c.Failf("refund made the vector negative: %d", n2)
				}
				if got && a2 > s2 {
					c.Failf("refund raised availability to %d above the scalar %d", a2, s2)
				}
				if a2 != a1+want {
					c.Failf("refund of %d changed availability from %d to %d", want, a1, a2)
				}
				pending = n2
				if committed {
					afterCommit++
				}
			}
		}
		if afterCommit > 0 && clamped > 0 {
			c.NT("clamped refund after a commit")
		}
	})
}

// C06 with real goroutines: many updaters, with commits, gated operations and the cache
// refresher in between; nothing may be lost.
func TestC06Stress(t *testing.T) {
	kit.Run(t, 800, 8000, func(c *kit.Case) {
		cf := drawCfg(c.T, rapid.Bool().Draw(c.T, "gates"))
		s0 := rapid.Int64Range(0, 100000).Draw(c.T, "S")
		workers := rapid.IntRange(1, 12).Draw(c.T, "workers")
		per := rapid.IntRange(1, 600).Draw(c.T, "per")
		vals := rapid.SliceOfN(rapid.Int64Range(-1000, 1000), 1, 7).Draw(c.T, "vals")
		gated := rapid.IntRange(0, 3).Draw(c.T, "gated")
		commits := rapid.Bool().Draw(c.T, "commits")
		procs := rapid.SampledFrom([]int{0, 1, 2, 3, 16}).Draw(c.T, "procs")
		c.Logf("S=%d %v workers=%d per=%d vals=%v gated=%d commits=%v procs=%d", s0, cf, workers, per, vals, gated, commits, procs)
		if procs > 0 {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
		}
		v := vsa.NewWithOptions(s0, cf.opts)
		defer v.Close()
		var total atomic.Int64
		var committed int64 // signed, as folded
		var wg, wgc sync.WaitGroup
		done := make(chan struct{})
		if commits {
			wgc.Add(1)
			go func() {
				defer wgc.Done()
				for {
					select {
					case <-done:
						return
					default:
						_, n := v.State()
						v.Commit(n)
						v.Commit(1)
						runtime.Gosched()
					}
				}
			}()
		}
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < per; i++ {
					x := vals[(w+i)%len(vals)]
					v.Update(x)
					total.Add(x)
					if gated > 0 && i%gated == 0 && x > 0 {
						if v.TryConsume(x) {
							total.Add(x)
						}
					}
				}
			}(w)
		}
		wg.Wait()
		close(done)
		wgc.Wait()
		_ = committed
		s, net := v.State()
		if !commits {
			if s != s0 {
				c.Failf("scalar changed without a commit: %d -> %d", s0, s)
			}
			if net != total.Load() {
				c.Failf("net vector %d, sum of all updates %d", net, total.Load())
			}
			if ok, vec := v.CheckCommit(1); (net != 0) != ok || vec != net && ok {
				c.Failf("CheckCommit says (%v,%d), vector is %d", ok, vec, net)
			}
		} else {
			// The signed amount folded by the commits is not observable, but the scalar
			// falls by its magnitude: with one-signed traffic that is exact.
			oneSigned := true
			for _, x := range vals {
				if x < 0 {
					oneSigned = false
				}
			}
			if oneSigned && net+(s0-s) != total.Load() {
				c.Failf("net %d + committed %d is not the sum of all updates %d", net, s0-s, total.Load())
			}
			if (net+total.Load()-(s0-s))%2 != 0 {
				c.Failf("net %d + committed (|.|=%d) cannot make %d", net, s0-s, total.Load())
			}
		}
		// and commits afterwards take exactly what is there
		before := v.Available()
		v.Commit(net)
		if s2, n2 := v.State(); n2 != 0 || s2 != s-abs(net) || v.Available() != before {
			c.Failf("final commit of %d: (%d,%d)->(%d,%d)", net, s, net, s2, n2)
		}
		if workers > 1 && per > 20 {
			c.NT("contended")
			if commits {
				c.Class("with-commits")
			}
		}
	})
}
