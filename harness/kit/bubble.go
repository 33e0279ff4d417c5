//go:build goexperiment.synctest

package verifkit

import (
	"sync/atomic"
	"testing/synctest"
)

// Bubble runs f in a bubble with a fake clock (testing/synctest). A failure inside f is
// re-raised outside, after the goroutines f started (and stops in its defers) are gone.
func Bubble(f func()) {
	var p any
	failed := false
	inBubble.Store(true)
	defer inBubble.Store(false)
	// The race detector does not see that synctest.Run returns after f does.
	var over atomic.Bool
	synctest.Run(func() {
		defer over.Store(true)
		defer func() {
			if r := recover(); r != nil {
				p, failed = r, true
			}
		}()
		f()
	})
	over.Load()
	if failed {
		panic(p)
	}
}

// Settle waits until every other goroutine of the bubble is blocked.
func Settle() { synctest.Wait() }
