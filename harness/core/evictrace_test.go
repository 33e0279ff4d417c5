package core

// The known finding about eviction and lookups: an operation applied through a counter that
// was looked up while eviction was about to remove it. Every position of the lookup (and the
// operation right after it) inside an eviction cycle is tried. Only operations that fall
// between the end of the final write and the removal may get lost, and only if the lookup
// returned the very counter that is removed; anything else is a violation.

import (
	"fmt"
	"testing"
	"time"

	"vsa"
	kit "vsa/internal/verifkit"
	vs "vsa/internal/verifsched"
)

func vfEvictRace(t *testing.T, prop string) {
	loud := vfQuiet()
	defer func() { loud() }()
	m := kit.NewManual(t)
	found := ""
	for _, pending := range []int64{3, -2, 7} {
		for _, opts := range []vsa.Options{{}, {Stripes: 8, HierarchicalGroups: 2}, {FastPathGuard: 2}} {
			const positions = 160
			type run struct {
				st *Store
				p  *vfVpersister
				w  *Worker
			}
			var runs []run
			for i := 0; i < positions; i++ {
				st := NewStoreWithOptions(100, opts)
				st.GetOrCreate("a").Update(pending)
				p := vfNewVPersister()
				runs = append(runs, run{st, p, NewWorker(st, p, 1000, 0, time.Hour, 0, 20*time.Millisecond, time.Hour)})
			}
			time.Sleep(25 * time.Millisecond)
			for at, r := range runs {
				if kit.Over() {
					break
				}
				step := 0
				wrote, during, gone := -1, false, false
				r.p.hook = func([]Commit) {
					vs.Point("storage")
					wrote = step
				}
				var v *vsa.VSA
				opAfterWrite, opBeforeRemoval, done := false, false, false
				evict := func() {
					r.w.runEvictionCycle()
					gone = true
				}
				op := func() {
					during = !gone
					opAfterWrite = wrote >= 0
					v = r.st.GetOrCreate("a")
					v.Update(1)
					done = true
					opBeforeRemoval = vfLive(r.st)["a"] == v
				}
				// The second task runs as a whole at scheduling point number at.
				res := vs.Run(vfListPolicy(0, 2, []vfPreempt{{at + 1, 1}, {at + 2, 1}}), func(int, string) { step++ }, evict, func() {
					op()
				})
				if res.Outside || res.Stray {
					break // not under control: not judged
				}
				if res.Panic != "" || res.Deadlock != "" {
					kit.Fail(t, "eviction next to a lookup at point %d: %s%s", at, res.Panic, res.Deadlock)
				}
				r.p.hook = nil
				r.w.runFinalFlush()
				got, want := r.p.durable["a"], pending+1
				what := fmt.Sprintf("remainder %d, options %+v, lookup at point %d of the eviction cycle: storage has %d of %d", pending, opts, at, got, want)
				m.Case(during && wrote >= 0, what)
				if !done {
					kit.Broken("the operation did not run")
				}
				if got != want {
					_, kept := vfLive(r.st)["a"]
					if got == pending && during && opAfterWrite && opBeforeRemoval && !kept {
						found = what
					} else {
						kit.Fail(t, "%s", what)
					}
				}
				r.st.CloseAll()
				if !during {
					break // the cycle has no more points
				}
			}
		}
	}
	loud()
	loud = func() {}
	if found != "" {
		kit.Known(prop, "evict-lookup-race", "an operation through a counter looked up between eviction's last check and its removal is lost ("+found+")")
	}
}

func TestC10EvictRace(t *testing.T) { vfEvictRace(t, "C10") }
func TestC08EvictRace(t *testing.T) { vfEvictRace(t, "C08") }
