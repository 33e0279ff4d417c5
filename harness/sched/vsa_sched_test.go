// Controlled-schedule checks of the accumulator (C02-C06): generated programs under
// generated schedules, with results judged by a linearizability checker.
package verifsched_test

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"vsa"
	kit "vsa/internal/verifkit"
	vs "vsa/internal/verifsched"
)

type vfProgram struct {
	s0     int64
	opts   vsa.Options
	prefix []vfOp
	tasks  [][]vfOp
}

func (p vfProgram) String() string {
	var b strings.Builder
	o := p.opts
	fmt.Fprintf(&b, "S=%d fast=%d hier=%d groups=%d cached=%v slack=%d cheap=%v perP=%v prefix=%v", p.s0, o.FastPathGuard,
		o.HierarchicalGroups, o.GroupCount, o.UseCachedGate, o.CacheSlack, o.CheapUpdateChooser, o.PerPUpdateChooser, p.prefix)
	for i, t := range p.tasks {
		fmt.Fprintf(&b, " t%d=%v", i, t)
	}
	return b.String()
}

func vfDrawOpts(t *rapid.T, cached bool) vsa.Options {
	var o vsa.Options
	o.Stripes = 8
	if rapid.IntRange(0, 1).Draw(t, "fast?") == 1 {
		o.FastPathGuard = rapid.SampledFrom([]int64{1, 1, 2, 3}).Draw(t, "fast")
	}
	o.HierarchicalGroups = rapid.SampledFrom([]int{0, 0, 2, 3, 8}).Draw(t, "hier")
	if cached {
		o.UseCachedGate = true
		o.CacheInterval = time.Hour
		o.CacheSlack = rapid.SampledFrom([]int64{0, 0, 1}).Draw(t, "slack")
	} else if rapid.IntRange(0, 2).Draw(t, "group?") == 0 {
		o.GroupCount = rapid.SampledFrom([]int{2, 3, 8}).Draw(t, "groups")
	}
	switch rapid.IntRange(0, 3).Draw(t, "chooser") {
	case 1:
		o.CheapUpdateChooser = true
	case 2:
		o.PerPUpdateChooser = true
	}
	return o
}

// run executes the program under the policy and returns the history.
func (p vfProgram) run(pol vs.Policy) (ev []vfEvent, init vfMstate, res vs.Result, v *vsa.VSA) {
	v = vsa.NewWithOptions(p.s0, p.opts)
	defer v.Close()
	for _, o := range p.prefix {
		vfExec(v, o)
	}
	init.s, init.net = v.State()
	clock := 0
	var fs []func()
	for i, ops := range p.tasks {
		fs = append(fs, func() {
			for _, o := range ops {
				clock++
				call := clock
				if o.kind == "commitRead" { // what a worker does: read, write, fold
					clock++
					r := vfExec(v, vfOp{kind: "state"})
					clock++
					r.task, r.call, r.ret = i, call, clock
					ev = append(ev, r)
					o = vfOp{"commit", r.b}
					clock++
					call = clock
				}
				e := vfExec(v, o)
				clock++
				e.task, e.call, e.ret = i, call, clock
				ev = append(ev, e)
			}
		})
	}
	res = vs.Run(pol, nil, fs...)
	clock++
	for _, o := range []vfOp{{kind: "state"}, {kind: "avail"}} {
		clock++
		e := vfExec(v, o)
		clock++
		e.task, e.call, e.ret = -1, clock-1, clock
		ev = append(ev, e)
	}
	return ev, init, res, v
}

func vfShow(ev []vfEvent) string {
	s := make([]string, len(ev))
	for i, e := range ev {
		s[i] = e.String()
	}
	return strings.Join(s, "\n      ")
}

// judge checks one history. It returns an explanation if it is wrong.
func (p vfProgram) judge(ev []vfEvent, init vfMstate, res vs.Result) string {
	if res.Outside {
		return ""
	}
	if res.Panic != "" {
		return "panic: " + res.Panic
	}
	if res.Deadlock != "" {
		return "deadlock: " + res.Deadlock
	}
	hasUpdate := false
	for _, t := range p.tasks {
		for _, o := range t {
			if o.kind == "update" {
				hasUpdate = true
			}
		}
	}
	if !hasUpdate {
		if !vfLinearizable(init, ev, p.opts.UseCachedGate) {
			return fmt.Sprintf("no sequential order explains the history from (S=%d, net=%d):\n      %s", init.s, init.net, vfShow(ev))
		}
		// the budget, directly
		var adm int64
		for _, e := range ev {
			if e.op.kind == "consume" && e.ok {
				adm += e.op.arg
			}
		}
		return ""
	}
	// Updates are only checked for conservation (C06): see conserve.
	return ""
}

type vfWeights struct {
	kinds          []string
	cached         bool
	maxTasks, maxO int
	prefixUpdates  bool
	bound          int64
}

func vfDrawOp(t *rapid.T, kinds []string, bound int64) vfOp {
	k := rapid.SampledFrom(kinds).Draw(t, "kind")
	var a int64
	switch k {
	case "consume", "refund":
		a = rapid.Int64Range(1, bound).Draw(t, "n")
		if rapid.IntRange(0, 15).Draw(t, "odd") == 0 {
			a = rapid.Int64Range(-2, 0).Draw(t, "n0")
		}
	case "commit":
		a = rapid.Int64Range(-bound, bound+1).Draw(t, "x")
	case "update":
		a = rapid.Int64Range(-bound, bound).Draw(t, "d")
	case "check":
		a = rapid.Int64Range(1, bound).Draw(t, "th")
	}
	return vfOp{k, a}
}

func vfDrawProgram(t *rapid.T, w vfWeights) vfProgram {
	p := vfProgram{s0: rapid.Int64Range(0, 8).Draw(t, "S"), opts: vfDrawOpts(t, w.cached)}
	pk := []string{"consume", "consume", "refund", "commit"}
	if w.prefixUpdates {
		pk = append(pk, "update", "update")
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "prefix"); i < n; i++ {
		p.prefix = append(p.prefix, vfDrawOp(t, pk, w.bound))
	}
	nt := rapid.IntRange(2, w.maxTasks).Draw(t, "tasks")
	for i := 0; i < nt; i++ {
		var ops []vfOp
		for j, n := 0, rapid.IntRange(1, w.maxO).Draw(t, "ops"); j < n; j++ {
			ops = append(ops, vfDrawOp(t, w.kinds, w.bound))
		}
		p.tasks = append(p.tasks, ops)
	}
	return p
}

func (p vfProgram) count(kind string) (tasks, ops int) {
	for _, t := range p.tasks {
		in := false
		for _, o := range t {
			if o.kind == kind {
				ops++
				in = true
			}
		}
		if in {
			tasks++
		}
	}
	return
}

// sampled: random programs, random schedules.
func vfSampled(t *testing.T, quick, thorough int, w vfWeights, nt func(vfProgram, []vfEvent) bool) {
	kit.Run(t, quick, thorough, func(c *kit.Case) {
		p := vfDrawProgram(c.T, w)
		mk, desc := vfDrawPolicy(c.T, len(p.tasks), 60)
		c.Logf("%v schedule %s", p, desc)
		ev, init, res, _ := p.run(mk())
		if res.Outside {
			c.Class("not judged: blocks outside the scheduler")
			return
		}
		c.Logf("%d steps", res.Steps)
		if why := p.judge(ev, init, res); why != "" {
			c.Failf("%s", why)
		}
		if vfOverlap(ev) && nt(p, ev) {
			c.NT()
		}
	})
}

// systematic: small random programs, every schedule with at most two preemptions.
func vfSystematic(t *testing.T, quick, thorough int, w vfWeights, nt func(vfProgram, []vfEvent) bool) {
	kit.Run(t, quick, thorough, func(c *kit.Case) {
		p := vfDrawProgram(c.T, w)
		off := rapid.Uint64Range(0, 1000).Draw(c.T, "off")
		c.Logf("%v all schedules with <=2 preemptions", p)
		interesting := false
		why, bad := "", ""
		n := vfEnumerate(len(p.tasks), 2, kit.Pick(1500, 6000), off, func(first int, ps []vfPreempt) (int, bool) {
			ev, init, res, _ := p.run(vfListPolicy(first, len(p.tasks), ps))
			if res.Outside {
				return 0, false
			}
			if w := p.judge(ev, init, res); w != "" {
				why, bad = w, fmt.Sprintf("first=%d preempt=%v", first, ps)
				return 0, false
			}
			if !interesting && vfOverlap(ev) && nt(p, ev) {
				interesting = true
			}
			return res.Steps, true
		})
		c.AddEvals(n - 1)
		if why != "" {
			c.Failf("under schedule %s: %s", bad, why)
		}
		if interesting {
			c.NT("exhausted<=2 preemptions")
		}
	})
}

// overlap: two operations of different tasks were in progress at once.
func vfOverlap(ev []vfEvent) bool {
	for i := range ev {
		for j := range ev[:i] {
			a, b := ev[i], ev[j]
			if a.task != b.task && a.task >= 0 && b.task >= 0 && a.call < b.ret && b.call < a.ret {
				return true
			}
		}
	}
	return false
}

func vfBoth(ev []vfEvent, kind string) (ok, no bool) {
	for _, e := range ev {
		if e.op.kind == kind {
			if e.ok {
				ok = true
			} else {
				no = true
			}
		}
	}
	return
}

var vfC03w = vfWeights{kinds: []string{"consume", "consume", "consume", "refund", "state", "avail", "commit", "commitRead", "check"}, maxTasks: 3, maxO: 3, bound: 4, prefixUpdates: true}

func vfC03nt(p vfProgram, ev []vfEvent) bool {
	n, _ := p.count("consume")
	ok, _ := vfBoth(ev, "consume")
	return n >= 1 && ok
}

func TestC03Sampled(t *testing.T) { vfSampled(t, 60000, 1000000, vfC03w, vfC03nt) }
func TestC03Systematic(t *testing.T) {
	w := vfC03w
	w.maxO = 2
	vfSystematic(t, 250, 2500, w, vfC03nt)
}

// only consumes and refunds around a full budget
func TestC03LastUnit(t *testing.T) {
	w := vfWeights{kinds: []string{"consume", "consume", "consume", "refund"}, maxTasks: 3, maxO: 2, bound: 3}
	vfSystematic(t, 250, 2500, w, func(p vfProgram, ev []vfEvent) bool {
		ok, no := vfBoth(ev, "consume")
		n, _ := p.count("consume")
		return ok && no && n >= 2
	})
}

func TestC02Sched(t *testing.T) {
	w := vfC03w
	w.cached = true
	nt := func(p vfProgram, ev []vfEvent) bool {
		n, _ := p.count("consume")
		ok, _ := vfBoth(ev, "consume")
		return n >= 2 && ok
	}
	t.Run("cached", func(t *testing.T) { vfSampled(t, 20000, 300000, w, nt) })
	w.cached = false
	w.kinds = []string{"consume", "consume", "consume", "refund", "commitRead"}
	t.Run("grouped-fast", func(t *testing.T) { vfSystematic(t, 120, 1500, w, nt) })
}

var vfC04w = vfWeights{kinds: []string{"commit", "commit", "commitRead", "avail", "avail", "state", "check"}, maxTasks: 3, maxO: 3, bound: 5, prefixUpdates: true}

func vfC04nt(p vfProgram, ev []vfEvent) bool {
	_, k := p.count("commit")
	_, r := p.count("commitRead")
	a, _ := p.count("avail")
	s, _ := p.count("state")
	if k+r == 0 || a+s == 0 {
		return false
	}
	last := ev[len(ev)-2]
	return last.a >= 0 || true
}

func TestC04Sampled(t *testing.T) { vfSampled(t, 40000, 600000, vfC04w, vfC04nt) }
func TestC04Systematic(t *testing.T) {
	w := vfC04w
	w.maxO = 2
	vfSystematic(t, 200, 2000, w, vfC04nt)
}

// Readers and committers only: availability never changes at all.
func TestC04Constant(t *testing.T) {
	kit.Run(t, 20000, 300000, func(c *kit.Case) {
		p := vfDrawProgram(c.T, vfC04w)
		mk, desc := vfDrawPolicy(c.T, len(p.tasks), 60)
		c.Logf("%v schedule %s", p, desc)
		ev, init, res, _ := p.run(mk())
		if res.Outside {
			c.Class("not judged: blocks outside the scheduler")
			return
		}
		if res.Panic != "" || res.Deadlock != "" {
			c.Failf("%s%s", res.Panic, res.Deadlock)
		}
		want := init.s - vfAbs(init.net)
		reads := 0
		for _, e := range ev {
			got := want
			switch e.op.kind {
			case "avail":
				got = e.a
				reads++
			case "state":
				got = e.a - vfAbs(e.b)
				reads++
			}
			if got != want {
				c.Failf("availability %d was seen, it is %d throughout:\n      %s", got, want, vfShow(ev))
			}
		}
		if reads > 2 && init.net != 0 && vfOverlap(ev) {
			c.NT()
		}
	})
}

var vfC05w = vfWeights{kinds: []string{"refund", "refund", "refund", "consume", "commit", "commitRead", "state"}, maxTasks: 3, maxO: 3, bound: 4, prefixUpdates: true}

func vfC05nt(p vfProgram, ev []vfEvent) bool { ok, _ := vfBoth(ev, "refund"); return ok }

func TestC05Sampled(t *testing.T) { vfSampled(t, 40000, 600000, vfC05w, vfC05nt) }
func TestC05Systematic(t *testing.T) {
	w := vfC05w
	w.maxO = 2
	vfSystematic(t, 200, 2000, w, vfC05nt)
}

// C06: updates of any sign next to everything else; conservation at the end.
func TestC06Sched(t *testing.T) {
	kit.Run(t, 40000, 600000, func(c *kit.Case) {
		mode := rapid.IntRange(0, 2).Draw(c.T, "mode")
		w := vfWeights{maxTasks: 4, maxO: 3, bound: 5, cached: rapid.IntRange(0, 4).Draw(c.T, "cached") == 0}
		switch mode {
		case 0: // no commits: any sign
			w.kinds = []string{"update", "update", "consume", "refund", "state"}
		case 1: // commits: one sign, so that the folded amount shows in the scalar
			w.kinds = []string{"update", "update", "commitRead", "consume", "commit"}
		case 2:
			w.kinds = []string{"update", "update", "update", "commitRead"}
		}
		p := vfDrawProgram(c.T, w)
		p.prefix = nil
		p.s0 = rapid.Int64Range(0, 60).Draw(c.T, "S0")
		neg := mode == 2 && rapid.Bool().Draw(c.T, "neg")
		if mode > 0 {
			for _, ops := range p.tasks {
				for i := range ops {
					if ops[i].kind == "update" {
						ops[i].arg = vfAbs(ops[i].arg)
						if neg {
							ops[i].arg = -ops[i].arg
						}
					}
				}
			}
		}
		mk, desc := vfDrawPolicy(c.T, len(p.tasks), 60)
		c.Logf("%v schedule %s", p, desc)
		ev, _, res, v := p.run(mk())
		if res.Outside {
			c.Class("not judged: blocks outside the scheduler")
			return
		}
		if res.Panic != "" || res.Deadlock != "" {
			c.Failf("%s%s", res.Panic, res.Deadlock)
		}
		var sum, lo, hi int64
		refunds := int64(0)
		for _, e := range ev {
			switch {
			case e.op.kind == "update":
				sum += e.op.arg
			case e.op.kind == "consume" && e.ok:
				sum += e.op.arg
			case e.op.kind == "refund" && e.ok:
				refunds += e.op.arg
				lo++
			}
		}
		_ = hi
		s, net := v.State()
		if mode == 0 {
			if s != p.s0 {
				c.Failf("scalar moved without a commit: %d -> %d", p.s0, s)
			}
			// a refund gives back between 1 and its argument
			if net > sum-lo || net < sum-refunds {
				c.Failf("net %d, updates and consumes sum to %d, %d refunds of at most %d:\n      %s", net, sum, lo, refunds, vfShow(ev))
			}
		} else {
			folded := p.s0 - s
			if neg {
				folded = -folded
			}
			if net+folded != sum {
				c.Failf("net %d + committed %d is not the sum of all updates %d:\n      %s", net, folded, sum, vfShow(ev))
			}
		}
		// what gates and commits see afterwards is the same net
		ok, vec := v.CheckCommit(0)
		if !ok || vec != net {
			c.Failf("CheckCommit(0)=(%v,%d), net is %d", ok, vec, net)
		}
		v.Commit(net)
		if s2, n2 := v.State(); n2 != 0 || s2 != s-vfAbs(net) {
			c.Failf("committing the whole net %d left (%d,%d)", net, s2, n2)
		}
		if _, u := p.count("update"); u >= 2 && vfOverlap(ev) {
			c.NT(fmt.Sprintf("mode%d", mode))
		}
	})
}
