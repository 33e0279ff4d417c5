package core

// C28: the final persistence summary.

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
)

var vfAnsi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// field finds "name   value" in the summary.
func vfField(out, name string) (string, bool) {
	for _, l := range strings.Split(out, "\n") {
		l = vfAnsi.ReplaceAllString(l, "")
		if strings.HasPrefix(l, name) {
			rest := l[len(name):]
			if rest != "" && rest[0] != ' ' {
				continue
			}
			return strings.TrimSpace(rest), true
		}
	}
	return "", false
}

func TestC28Summary(t *testing.T) {
	kit.Run(t, 5000, 50000, func(c *kit.Case) {
		resetEventTotals()
		p := NewMockPersister()
		var att, adm, ref, writes, batches int64
		th := map[string]string{}
		names := []string{"commit_threshold", "x", "rate limit", "a_very_long_threshold_name_over_thirty_chars", "z"}
		var early string
		n := rapid.IntRange(0, 40).Draw(c.T, "steps")
		var setTwice, negative bool
		body := func() {
			for i := 0; i < n; i++ {
				switch rapid.IntRange(0, 5).Draw(c.T, "op") {
				case 0:
					k := rapid.Int64Range(-3, 1000).Draw(c.T, "n")
					RecordAttempt(k)
					if k > 0 {
						att += k
					}
					c.Logf("attempt %d", k)
				case 1:
					k := rapid.Int64Range(-3, 1000).Draw(c.T, "n")
					RecordAdmit(k)
					if k > 0 {
						adm += k
					}
					c.Logf("admit %d", k)
				case 2:
					k := rapid.Int64Range(-3, 300).Draw(c.T, "n")
					RecordRefund(k)
					if k > 0 {
						ref += k
					}
					c.Logf("refund %d", k)
				case 3, 4:
					rows := rapid.IntRange(0, 20).Draw(c.T, "rows")
					if rapid.IntRange(0, 20).Draw(c.T, "large?") == 7 {
						rows *= 113
					}
					many := rapid.SampledFrom([]int{1 << 20, 1 << 20, 3, 1}).Draw(c.T, "keys") // several rows of one key too
					huge := rapid.SampledFrom([]int64{1, 1, 1 << 40, 0}).Draw(c.T, "scale")
					var b []Commit
					for j := 0; j < rows; j++ {
						v := huge * int64((j*7+rows)%101-50)
						b = append(b, Commit{Key: fmt.Sprintf("k%d", j%many), Vector: v})
					}
					if err := p.CommitBatch(b); err != nil {
						c.Failf("CommitBatch: %v", err)
					}
					if rows > 0 {
						writes += int64(rows)
						batches++
					}
					c.Logf("batch of %d", rows)
				case 5:
					name := rapid.SampledFrom(names).Draw(c.T, "name")
					if _, dup := th[name]; dup {
						setTwice = true
					}
					switch rapid.IntRange(0, 4).Draw(c.T, "type") {
					case 0:
						v := rapid.Int64().Draw(c.T, "v")
						SetThresholdInt64(name, v)
						th[name] = strconv.FormatInt(v, 10)
						negative = negative || v < 0
					case 1:
						d := time.Duration(rapid.Int64Range(0, 1e13).Draw(c.T, "d"))
						SetThresholdDuration(name, d)
						th[name] = d.String()
					case 2:
						f := rapid.Float64Range(-10, 10).Draw(c.T, "f")
						SetThresholdFloat64(name, f)
						th[name] = strconv.FormatFloat(f, 'g', -1, 64)
					case 3:
						b := rapid.Bool().Draw(c.T, "b")
						SetThresholdBool(name, b)
						th[name] = strconv.FormatBool(b)
					case 4:
						s := rapid.StringMatching(`[a-z0-9]{0,12}`).Draw(c.T, "s")
						if rapid.IntRange(0, 3).Draw(c.T, "long") == 0 {
							s = rapid.StringMatching(`[a-z0-9:/.]{20,90}`).Draw(c.T, "s")
						}
						SetThreshold(name, s)
						th[name] = s
					}
					c.Logf("threshold %s=%s", name, th[name])
				}
			}
		}
		resetThresholdsForTests()
		q := vfQuiet()
		body()
		q()
		early = vfCapture(func() { p.PrintFinalMetrics() })
		out := vfCapture(func() { p.PrintFinalMetrics() }) // printing changes nothing
		want := func(name string, v int64) {
			for _, o := range []string{early, out} {
				got, ok := vfField(o, name)
				if !ok || got != strconv.FormatInt(v, 10) {
					c.Failf("summary says %s = %q, it is %d\n%s", name, got, v, o)
				}
			}
		}
		want("Attempted", att)
		want("Admits", adm)
		want("Refunds", ref)
		want("Events (A+R)", adm+ref)
		want("Writes", writes)
		want("Batches", batches)
		got, ok := vfField(out, "Write reduction")
		if adm+ref == 0 {
			if !ok || got != "n/a" {
				c.Failf("write reduction without events is %q", got)
			}
		} else {
			wr := 100 * (1 - float64(writes)/float64(adm+ref))
			if wr < 0 {
				wr = 0
			}
			if wr > 100 {
				wr = 100
			}
			g, err := strconv.ParseFloat(strings.TrimSuffix(got, "%"), 64)
			if !ok || err != nil || !strings.HasSuffix(got, "%") || math.Abs(g-wr) > 0.0501 {
				c.Failf("write reduction is %q, %d writes for %d events make %.3f%%", got, writes, adm+ref, wr)
			}
		}
		for name, v := range th {
			g, ok := vfField(out, name)
			if !ok || g != v {
				c.Failf("threshold %q is shown as %q, its latest value is %q\n%s", name, g, v, out)
			}
		}
		for _, name := range names {
			if _, set := th[name]; !set {
				if g, ok := vfField(out, name); ok {
					c.Failf("threshold %q was never set but is shown as %q", name, g)
				}
			}
		}
		if writes > 0 && adm > 0 && len(th) > 0 {
			c.NT()
		}
		if writes > adm+ref && adm+ref > 0 {
			c.Class("clamped")
		}
		if setTwice {
			c.Class("threshold-overwritten")
		}
	})
}

// Concurrent recording loses nothing.
func TestC28Concurrent(t *testing.T) {
	kit.Run(t, 60, 400, func(c *kit.Case) {
		resetEventTotals()
		p := NewMockPersister()
		workers := rapid.IntRange(2, 8).Draw(c.T, "workers")
		per := rapid.IntRange(10, 200).Draw(c.T, "per")
		c.Logf("workers=%d per=%d", workers, per)
		q := vfQuiet()
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < per; i++ {
					RecordAttempt(3)
					RecordAdmit(2)
					RecordRefund(1)
					SetThresholdInt64(fmt.Sprintf("w%d", w), int64(i))
					if i%10 == 0 {
						_ = p.CommitBatch([]Commit{{"a", 1}, {"b", -1}})
					}
				}
			}(w)
		}
		wg.Wait()
		q()
		out := vfCapture(func() { p.PrintFinalMetrics() })
		tot := int64(workers * per)
		nb := int64(workers * ((per + 9) / 10))
		for name, v := range map[string]int64{"Attempted": 3 * tot, "Admits": 2 * tot, "Refunds": tot, "Writes": 2 * nb, "Batches": nb} {
			if g, _ := vfField(out, name); g != strconv.FormatInt(v, 10) {
				c.Failf("summary says %s = %s, it is %d", name, g, v)
			}
		}
		for w := 0; w < workers; w++ {
			if g, _ := vfField(out, fmt.Sprintf("w%d", w)); g != strconv.Itoa(per-1) {
				c.Failf("threshold w%d is shown as %q, its latest value is %d", w, g, per-1)
			}
		}
		resetThresholdsForTests()
		c.NT()
	})
}

var _ = time.Now
