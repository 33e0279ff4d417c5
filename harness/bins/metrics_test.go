package verifbins_test

// C27 for the built server: what /metrics reports is what the clients and storage saw.

import (
	"fmt"
	"net"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
)

var (
	promLine  = regexp.MustCompile(`(?m)^(vsa_[a-z_]+) (\S+)$`)
	demoRow   = regexp.MustCompile(`KEY:\s*\S+\s+VECTOR:\s*-?\d+`)
	demoBatch = regexp.MustCompile(`Persisting batch of (\d+) commits`)
)

func prom(text string) map[string]float64 {
	m := map[string]float64{}
	for _, x := range promLine.FindAllStringSubmatch(text, -1) {
		m[x[1]], _ = strconv.ParseFloat(x[2], 64)
	}
	return m
}

func TestC27Server(t *testing.T) {
	bin := kit.Bin("ratelimiter-api")
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "srv")
	if err != nil {
		kit.Broken("%v", err)
	}
	defer os.RemoveAll(base)
	kit.Run(t, 60, 800, func(c *kit.Case) {
		c.Slow(300 * time.Second)
		on := rapid.IntRange(0, 3).Draw(c.T, "on") > 0
		tries := 0
		for !metricsCase(c, bin, base, on) {
			// The port may have been taken by someone else in between.
			if tries++; tries == 3 {
				c.Failf("nothing listens at the metrics address")
			}
			c.Class("another metrics port")
		}
	})
}

// metricsCase is false if there is no answer at the metrics address.
func metricsCase(c *kit.Case, bin, base string, on bool) bool {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Broken("%v", err)
	}
	maddr := l.Addr().String()
	l.Close()
	rate := rapid.SampledFrom([]string{"0", "0.5", "1", "1"}).Draw(c.T, "rate")
	args := []string{"-rate_limit", fmt.Sprint(rapid.SampledFrom([]int{3, 40, 100000}).Draw(c.T, "limit")),
		"-commit_threshold", fmt.Sprint(rapid.SampledFrom([]int{1, 5, 50}).Draw(c.T, "T")), "-commit_interval", "2ms",
		"-commit_max_age", rapid.SampledFrom([]string{"0s", "5ms"}).Draw(c.T, "max age"),
		"-eviction_age", rapid.SampledFrom([]string{"1h", "4ms"}).Draw(c.T, "eviction age"), "-eviction_interval", "3ms",
		"-metrics_addr", maddr, "-churn_sample", rate, "-churn_log_interval", rapid.SampledFrom([]string{"0s", "3ms"}).Draw(c.T, "log"),
		"-churn_key_hash_len", "16", fmt.Sprintf("-churn_metrics=%v", on)}
	nc := rapid.IntRange(1, 4).Draw(c.T, "clients")
	per := rapid.IntRange(1, 120).Draw(c.T, "requests")
	seed := rapid.Uint64Range(1, 1<<40).Draw(c.T, "seed")
	c.Logf("%v, %d clients x %d, seed %d", args, nc, per, seed)
	os.Setenv("VSA_CHURN_LIVE", "0")
	p := kit.StartServer(c, bin, base, func(a string) []string { return append([]string{"-http_addr", a}, args...) }, "/check")
	defer p.Kill()
	keys := []string{"QXZJKVone", "QXZJKVtwo", "QXZJKVthree"}
	ok := make([]int, nc)
	var wg sync.WaitGroup
	for g := 0; g < nc; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := seed + uint64(g)*7919
			cl := kit.NewClient(p.Addr)
			defer cl.Close()
			for i := 0; i < per; i++ {
				x = x*6364136223846793005 + 1442695040888963407
				path := "/check?api_key=" + keys[(x>>40)%3]
				if (x>>33)%6 == 0 {
					path = "/release?api_key=" + keys[(x>>40)%3]
				}
				code, _, _, _, err := cl.Do("GET", path, 60*time.Second)
				if err == nil && code == 200 {
					ok[g]++
				}
			}
		}()
	}
	wg.Wait()
	want := 0
	for _, n := range ok {
		want += n
	}
	var text string
	t0 := time.Now()
	for {
		var code int
		code, text, err = kit.Request(maddr, "GET", "/metrics", 20*time.Second)
		if err == nil && code == 200 {
			out := p.Output()
			rows, batches := len(demoRow.FindAllString(out, -1)), len(demoBatch.FindAllString(out, -1))
			m := prom(text)
			bad := ""
			if !on {
				for _, k := range []string{"vsa_naive_writes_total", "vsa_commits_rows_total", "vsa_rows_per_batch_count", "vsa_commit_errors_total"} {
					if m[k] != 0 {
						c.Failf("disabled telemetry reports %s = %v", k, m[k])
					}
				}
			} else if int(m["vsa_naive_writes_total"]) != want {
				c.Failf("%v admitted requests reported, clients had %d", m["vsa_naive_writes_total"], want)
			} else if int(m["vsa_commits_rows_total"]) != rows || int(m["vsa_rows_per_batch_sum"]) != rows {
				bad = fmt.Sprintf("%v rows reported, %d written", m["vsa_commits_rows_total"], rows)
			} else if int(m["vsa_rows_per_batch_count"]) != batches {
				bad = fmt.Sprintf("%v batches reported, %d written", m["vsa_rows_per_batch_count"], batches)
			} else if m["vsa_commit_errors_total"] != 0 {
				c.Failf("%v commit errors reported, none happened", m["vsa_commit_errors_total"])
			}
			if bad == "" {
				if on && want > 0 && rows > 0 {
					c.NT()
				}
				break
			}
			// A batch may have been printed and not yet counted.
			if time.Since(t0) > 20*time.Second {
				c.Failf("%s", bad)
			}
		} else if time.Since(t0) > 20*time.Second {
			if strings.Contains(fmt.Sprint(err), "refused") {
				return false
			}
			c.Failf("the metrics endpoint answers %d %v", code, err)
		}
		time.Sleep(5 * time.Millisecond)
	}
	p.Signal(syscall.SIGTERM)
	p.Exit(60 * time.Second)
	if strings.Contains(text, "QXZJKV") {
		c.Failf("a key appears in the metrics:\n%s", text)
	}
	for _, line := range strings.Split(p.Output(), "\n") {
		if (strings.Contains(line, "churn") || strings.Contains(line, "top key")) && strings.Contains(line, "QXZJKV") && !strings.Contains(line, "KEY:") {
			c.Failf("a key appears in the telemetry output: %q", line)
		}
	}
	return true
}
