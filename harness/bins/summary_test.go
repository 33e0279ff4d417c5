package verifbins_test

// C28 for the built server: the summary printed at the end of the process against what the
// clients saw, the rows that were printed, and the flags the process was started with.

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
)

var (
	flagLine    = regexp.MustCompile(`(?m)^  -(\w+)(?: (\w+))?.*\n(?:    .*\n?)`)
	flagDefault = regexp.MustCompile(`\(default (.*)\)\s*$`)
	cutLine     = regexp.MustCompile(`(?m)^-{20,}\s*$`)
)

// flagDefaults asks the binary itself for its documented defaults.
func flagDefaults(bin string) map[string]string {
	out, _ := exec.Command(bin, "-h").CombinedOutput()
	d := map[string]string{}
	for _, m := range flagLine.FindAllStringSubmatch(string(out), -1) {
		v := map[string]string{"duration": "0s", "int": "0", "float": "0", "string": "", "": "false"}[m[2]]
		if x := flagDefault.FindStringSubmatch(strings.TrimSpace(m[0])); x != nil {
			v = strings.Trim(x[1], `"`)
		}
		d[m[1]] = v
	}
	return d
}

// configured are the flags the summary lists.
var configured = []string{"rate_limit", "commit_threshold", "commit_low_watermark", "commit_interval", "commit_max_age", "eviction_age", "eviction_interval",
	"http_addr", "churn_metrics", "metrics_addr", "churn_sample", "churn_log_interval", "churn_top_n", "churn_key_hash_len"}

func drawFlag(t *rapid.T, name string) string {
	switch name {
	case "rate_limit":
		return fmt.Sprint(rapid.SampledFrom([]int64{1, 3, 20, 1000001, 1 << 50}).Draw(t, name))
	case "commit_threshold":
		return fmt.Sprint(rapid.SampledFrom([]int64{1, 2, 7, 49, 1 << 40}).Draw(t, name))
	case "commit_low_watermark":
		return fmt.Sprint(rapid.SampledFrom([]int64{0, 1, 3}).Draw(t, name))
	case "commit_interval":
		return rapid.SampledFrom([]string{"1ms", "0.003s", "1m30s", "17ms"}).Draw(t, name)
	case "commit_max_age":
		return rapid.SampledFrom([]string{"0s", "2ms", "1.5s", "26h"}).Draw(t, name)
	case "eviction_age":
		return rapid.SampledFrom([]string{"1h0m1s", "36h", "90m", "1h0m0.25s", "26h0m0.000001s"}).Draw(t, name)
	case "eviction_interval":
		return rapid.SampledFrom([]string{"1ms", "7m", "1h", "7m0.5s", "40.001s"}).Draw(t, name)
	case "metrics_addr":
		return rapid.SampledFrom([]string{"127.0.0.1:0", "localhost:0", "[::ffff:127.0.0.1]:0", "[0000:0000:0000:0000:0000:0000:0000:0001]:0"}).Draw(t, name)
	case "churn_metrics":
		return rapid.SampledFrom([]string{"true", "false"}).Draw(t, name)
	case "churn_sample":
		return rapid.SampledFrom([]string{"0", "1", "0.25", "0.001", "1e-07", "0.333333"}).Draw(t, name)
	case "churn_log_interval":
		return rapid.SampledFrom([]string{"0s", "1h", "2s"}).Draw(t, name)
	case "churn_top_n":
		return fmt.Sprint(rapid.SampledFrom([]int{0, 1, 7, 1000}).Draw(t, name))
	case "churn_key_hash_len":
		return fmt.Sprint(rapid.SampledFrom([]int{1, 4, 16}).Draw(t, name))
	}
	return ""
}

func sameValue(a, b string) bool {
	if a == b {
		return true
	}
	if x, e := time.ParseDuration(a); e == nil {
		if y, e := time.ParseDuration(b); e == nil {
			return x == y
		}
	}
	if x, e := strconv.ParseInt(a, 10, 64); e == nil {
		if y, e := strconv.ParseInt(b, 10, 64); e == nil {
			return x == y
		}
		return false
	}
	if x, e := strconv.ParseFloat(a, 64); e == nil {
		if y, e := strconv.ParseFloat(b, 64); e == nil {
			return x == y
		}
	}
	return false
}

func TestC28Server(t *testing.T) {
	bin := kit.Bin("ratelimiter-api")
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "srv")
	if err != nil {
		kit.Broken("%v", err)
	}
	defer os.RemoveAll(base)
	defaults := flagDefaults(bin)
	kit.Run(t, 120, 2000, func(c *kit.Case) {
		c.Slow(200 * time.Second)
		want := map[string]string{}
		var args []string
		for _, n := range configured {
			if n == "http_addr" || !rapid.Bool().Draw(c.T, "set "+n) {
				want[n] = defaults[n]
				continue
			}
			v := drawFlag(c.T, n)
			args = append(args, "-"+n+"="+v)
			want[n] = v
		}
		c.Logf("%v", args)
		os.Setenv("VSA_CHURN_LIVE", "0")
		// The readiness probe has no key: it is not an attempt.
		start := func() *kit.Proc {
			return kit.StartServer(c, bin, base, func(a string) []string { return append([]string{"-http_addr", a}, args...) }, "/check")
		}
		p := start()
		defer func() { p.Kill() }()
		cl := kit.NewClient(p.Addr)
		defer cl.Close()
		var attempted, admits, releases int64
		net := map[string]int64{}
		n := rapid.SampledFrom([]int{0, 1, 5, 30, 80, 200}).Draw(c.T, "requests")
		seed := rapid.Uint64Range(1, 1<<40).Draw(c.T, "seed")
		c.Logf("%d requests, seed %d", n, seed)
		x := seed
		for i := 0; i < n; i++ {
			x = x*6364136223846793005 + 1442695040888963407
			k := fmt.Sprintf("k%d", (x>>40)%3)
			if (x>>33)%5 == 0 {
				if code, _, _, _, err := cl.Do("POST", "/release?api_key="+k, 60*time.Second); err == nil && code/100 == 2 {
					releases++
				}
				continue
			}
			code, _, _, _, err := cl.Do("GET", "/check?api_key="+k, 60*time.Second)
			if err != nil {
				c.Failf("a request is not answered: %v", err)
			}
			attempted++
			if code == 200 {
				admits++
				net[k]++
			}
		}
		time.Sleep(time.Duration(rapid.IntRange(0, 4).Draw(c.T, "wait")) * time.Millisecond)
		p.Signal(syscall.SIGTERM)
		code := p.Exit(120 * time.Second)
		out := p.Output()
		if code == -1 {
			c.Class("signalled too early")
			return
		}
		if code != 0 {
			c.Failf("the server exits with code %d:\n%s", code, tail(out))
		}
		rows, batches := int64(len(demoRow.FindAllString(out, -1))), int64(len(demoBatch.FindAllString(out, -1)))
		var durable int64
		for _, v := range written("mock", out) {
			durable += v
		}
		i := strings.Index(out, "Final persistence metrics")
		if i < 0 {
			c.Failf("no summary:\n%s", tail(out))
		}
		if strings.Count(out, "Final persistence metrics") != 1 {
			c.Failf("more than one summary:\n%s", tail(out))
		}
		got := map[string]string{}
		for _, line := range strings.Split(out[i:], "\n") {
			f := strings.Fields(line)
			if len(f) == 0 {
				continue
			}
			for _, name := range append([]string{"Attempted", "Admits", "Refunds", "Writes", "Batches"}, configured...) {
				if f[0] == name {
					if _, dup := got[name]; dup {
						c.Failf("%s is listed twice:\n%s", name, tail(out))
					}
					got[name] = strings.Join(f[1:], " ")
				}
			}
			if len(f) >= 2 && f[0] == "Write" && f[1] == "reduction" {
				got["Write reduction"] = strings.Join(f[2:], " ")
			}
		}
		refunds := admits - durable // everything has been flushed, nobody else uses these keys
		for _, y := range []struct {
			name string
			want int64
		}{{"Attempted", attempted}, {"Admits", admits}, {"Refunds", refunds}, {"Writes", rows}, {"Batches", batches}} {
			if got[y.name] != fmt.Sprint(y.want) {
				c.Failf("the summary reports %q for %s, it was %d\n%s", got[y.name], y.name, y.want, tail(out))
			}
		}
		wr := "n/a"
		if e := admits + refunds; e > 0 {
			r := 100 * min(1, max(0, 1-float64(rows)/float64(e)))
			wr = fmt.Sprintf("%.1f%%", r)
			if v, err := strconv.ParseFloat(strings.TrimSuffix(got["Write reduction"], "%"), 64); err != nil || math.Abs(v-r) > 0.051 {
				c.Failf("write reduction %q, %d rows for %d events are %s", got["Write reduction"], rows, e, wr)
			}
		} else if got["Write reduction"] != wr {
			c.Failf("write reduction %q without events", got["Write reduction"])
		}
		for _, n := range configured {
			w := want[n]
			if n == "http_addr" {
				w = p.Addr
			}
			v, ok := got[n]
			if !ok {
				c.Failf("the summary does not list %s\n%s", n, tail(out))
			}
			if !sameValue(v, w) {
				c.Failf("the summary reports %s = %q, it was %q\n%s", n, v, w, tail(out))
			}
		}
		if admits > 0 && len(args) > 3 {
			c.NT()
		}
		if releases > 0 && refunds > 0 {
			c.Class("with refunds")
		}
	})
}
