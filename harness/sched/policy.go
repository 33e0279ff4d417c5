package verifsched_test

import (
	"fmt"

	"pgregory.net/rapid"
	vs "vsa/internal/verifsched"
)

func vfHas(run []int, x int) bool {
	for _, r := range run {
		if r == x {
			return true
		}
	}
	return false
}

// preempt switches to the given task at the given step.
type vfPreempt struct{ step, to int }

// listPolicy runs tasks to completion in the order first, first+1, ... except for the
// listed preemptions.
func vfListPolicy(first int, ntasks int, ps []vfPreempt) vs.Policy {
	i := 0
	return func(step, cur int, run []int) int {
		for i < len(ps) && ps[i].step < step {
			i++
		}
		if i < len(ps) && ps[i].step == step && cur >= 0 {
			to := ps[i].to
			i++
			if vfHas(run, to) {
				return to
			}
		}
		if cur >= 0 && vfHas(run, cur) {
			return cur
		}
		for k := 0; k < ntasks; k++ {
			if t := (first + k) % ntasks; vfHas(run, t) {
				return t
			}
		}
		return run[0]
	}
}

// randPolicy switches with probability p/16 at every step.
func vfRandPolicy(seed uint64, p uint64) vs.Policy {
	x := seed*2862933555777941757 + 3037000493
	next := func() uint64 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x >> 11
	}
	next()
	return func(step, cur int, run []int) int {
		if cur >= 0 && vfHas(run, cur) && next()%16 >= p {
			return cur
		}
		return run[next()%uint64(len(run))]
	}
}

// drawPolicy draws a schedule; the returned string describes it.
func vfDrawPolicy(t *rapid.T, ntasks int, span int) (func() vs.Policy, string) {
	if rapid.IntRange(0, 2).Draw(t, "policy") == 0 {
		seed := rapid.Uint64().Draw(t, "seed")
		p := rapid.SampledFrom([]uint64{1, 2, 4, 8, 12, 16}).Draw(t, "p")
		return func() vs.Policy { return vfRandPolicy(seed, p) }, fmt.Sprintf("random(%d,%d/16)", seed, p)
	}
	first := rapid.IntRange(0, ntasks-1).Draw(t, "first")
	n := rapid.IntRange(0, 6).Draw(t, "switches")
	var ps []vfPreempt
	at := 0
	for i := 0; i < n; i++ {
		at += rapid.IntRange(1, 1+span/3).Draw(t, "gap")
		ps = append(ps, vfPreempt{at, rapid.IntRange(0, ntasks-1).Draw(t, "to")})
	}
	return func() vs.Policy { return vfListPolicy(first, ntasks, ps) }, fmt.Sprintf("first=%d preempt=%v", first, ps)
}

// enumerate calls run for every schedule with at most depth preemptions (over every choice
// of the first task), at most limit of them (evenly thinned, starting at offset off, beyond
// that). run returns the number of steps of the execution, or false to stop.
func vfEnumerate(ntasks, depth, limit int, off uint64, run func(first int, ps []vfPreempt) (int, bool)) int {
	count := 0
	var level [][]vfPreempt
	for first := 0; first < ntasks; first++ {
		steps, ok := run(first, nil)
		count++
		if !ok {
			return count
		}
		level = [][]vfPreempt{nil}
		lens := []int{steps}
		for d := 1; d <= depth; d++ {
			var nxt [][]vfPreempt
			var nl []int
			total := 0
			for i, ps := range level {
				lo := 0
				if len(ps) > 0 {
					lo = ps[len(ps)-1].step
				}
				total += max(0, lens[i]-lo) * (ntasks - 1)
			}
			budget := limit / (ntasks * depth)
			stride := 1
			if total > budget && budget > 0 {
				stride = total/budget + 1
			}
			k := int(off % uint64(stride))
			for i, ps := range level {
				lo := 0
				if len(ps) > 0 {
					lo = ps[len(ps)-1].step
				}
				for s := lo + 1; s <= lens[i]; s++ {
					for to := 0; to < ntasks; to++ {
						k++
						if k%stride != 0 {
							continue
						}
						q := append(append([]vfPreempt(nil), ps...), vfPreempt{s, to})
						n, ok := run(first, q)
						count++
						if !ok {
							return count
						}
						nxt = append(nxt, q)
						nl = append(nl, n)
					}
				}
			}
			level, lens = nxt, nl
		}
	}
	return count
}
