package verifseq

import (
	"testing"
	"time"

	"pgregory.net/rapid"
	"vsa"
	kit "vsa/internal/verifkit"
)

// TestC01Fresh: right after a refresh the cached gate knows the vector, and refuses no more
// than its slack asks for.
func TestC01Fresh(t *testing.T) {
	kit.Run(t, 4000, 60000, func(c *kit.Case) {
		kit.Bubble(func() {
			cf := drawCfg(c.T, true)
			cf.cached, cf.frozen = true, false
			cf.opts.UseCachedGate = true
			cf.opts.CacheInterval = rapid.SampledFrom([]time.Duration{20 * time.Microsecond, time.Millisecond, time.Minute}).Draw(c.T, "every")
			s0 := drawScalar(c.T)
			in := &inst{v: vsa.NewWithOptions(s0, cf.opts), m: model{s: s0}, c: cf}
			defer in.v.Close()
			c.Logf("S=%d %v", s0, cf)
			slack := max(0, cf.opts.CacheSlack) + max(0, cf.opts.GroupSlack)
			commits, judged := 0, 0
			for i, n := 0, rapid.IntRange(1, 40).Draw(c.T, "steps"); i < n; i++ {
				m := &in.m
				switch rapid.IntRange(0, 7).Draw(c.T, "op") {
				case 0:
					in.consume(c, near(c.T, "c", m.avail(), m.avail()/3))
				case 1:
					in.refund(c, near(c.T, "r", m.net))
				case 2:
					before := m.s
					in.commit(c, near(c.T, "k", m.net, m.net/2))
					if m.s != before {
						commits++
					}
				case 3:
					in.update(c, near(c.T, "u", m.s-m.net, -m.net))
				default:
					time.Sleep(cf.opts.CacheInterval + 1)
					kit.Settle()
					c.Logf("refreshed")
					x := near(c.T, "c", m.avail(), m.avail()-slack, m.avail()/3)
					if s, n := m.s, m.net; !in.consume(c, x) && x > 0 && s-abs(n)-slack >= x {
						c.Failf("with a fresh cache TryConsume(%d) is refused: scalar %d, vector %d, slack %d", x, s, n, slack)
					} else if x > 0 && s-abs(n)-slack >= x {
						judged++
					}
				}
			}
			if commits > 0 && judged > 0 {
				c.NT("fresh cache after a commit")
			}
		})
	})
}
