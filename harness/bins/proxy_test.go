package verifbins_test

// C26: the built tfd-proxy, across graceful restarts on the same logs.

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
	"vsa/plugin/tfd"
)

type pcell struct{ key, bucket string }

func cellName(k, b string) string {
	bid := uint64(0)
	if b != "" {
		bid = tfd.HashKey(b)
	}
	return fmt.Sprintf("%d:%d", tfd.HashKey(k), bid)
}

func get(c *kit.Case, addr, path string, into any) {
	code, body, err := kit.Request(addr, "GET", path, 60*time.Second)
	if err != nil {
		c.Failf("GET %s: %v", path, err)
	}
	if code != 200 {
		c.Failf("GET %s answers %d: %s", path, code, body)
	}
	if err := json.Unmarshal([]byte(body), into); err != nil {
		c.Failf("GET %s: %v in %q", path, err, body)
	}
}

// longName is longer than what a fixed-size buffer for names would hold.
var longName = strings.Repeat("n", 1100)

// queries compares every form of the state query with the model.
func queries(c *kit.Case, addr string, m map[pcell]int64, keys, buckets []string, what string) {
	want := map[string]int64{}
	for pc, v := range m {
		want[cellName(pc.key, pc.bucket)] = v
	}
	cmp := func(form string, got, want map[string]int64) {
		for k, v := range want {
			if got[k] != v {
				c.Failf("%s, %s: cell %s is %d, want %d", what, form, k, got[k], v)
			}
		}
		for k, v := range got {
			if v != 0 && want[k] == 0 {
				c.Failf("%s, %s: cell %s is %d, but nobody touched it", what, form, k, v)
			}
		}
	}
	forms := []func(){func() {
		var dump map[string]int64
		get(c, addr, "/state", &dump)
		cmp("/state", dump, want)
	}}
	for _, k := range keys {
		ek := url.QueryEscape(k)
		mine := map[string]int64{}
		total := int64(0)
		for pc, v := range m {
			if pc.key == k {
				mine[cellName(k, pc.bucket)] = v
				total += v
			}
		}
		forms = append(forms, func() {
			var cells map[string]int64
			get(c, addr, "/state?key="+ek, &cells)
			cmp("/state?key="+ek, cells, mine)
		}, func() {
			var s struct{ Sum *int64 }
			q := "/state?key=" + ek + "&sum=1" + rapid.SampledFrom([]string{"", "", "&bucket="}).Draw(c.T, "no bucket")
			get(c, addr, q, &s)
			if s.Sum == nil || *s.Sum != total {
				c.Failf("%s, %s is %v, want %d", what, q, show(s.Sum), total)
			}
		})
		for _, b := range buckets {
			if b == "" {
				continue
			}
			forms = append(forms, func() {
				var s struct{ Sum *int64 }
				get(c, addr, "/state?key="+ek+"&sum=1&bucket="+url.QueryEscape(b), &s)
				if s.Sum == nil || *s.Sum != m[pcell{k, b}] {
					c.Failf("%s, the sum of (%q,%q) is %v, want %d", what, k, b, show(s.Sum), m[pcell{k, b}])
				}
			})
		}
	}
	// any of them may be the first to see the latest requests
	first := rapid.IntRange(0, len(forms)-1).Draw(c.T, "first form")
	for i := range forms {
		forms[(first+i)%len(forms)]()
	}
}

func show(p *int64) string {
	if p == nil {
		return "missing"
	}
	return fmt.Sprint(*p)
}

func TestC26Restarts(t *testing.T) {
	bin := kit.Bin("tfd-proxy")
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "proxy")
	if err != nil {
		kit.Broken("%v", err)
	}
	defer os.RemoveAll(base)
	kit.Run(t, 240, 3000, func(c *kit.Case) {
		c.Slow(300 * time.Second)
		dir, err := os.MkdirTemp(base, "case")
		if err != nil {
			kit.Broken("%v", err)
		}
		defer os.RemoveAll(dir)
		flags := func() []string {
			return []string{"-s_log", "s.log", "-v_log", "v.log",
				"-flush", rapid.SampledFrom([]string{"200us", "2ms", "50ms", "10m", "0"}).Draw(c.T, "flush"),
				"-shards", fmt.Sprint(rapid.IntRange(0, 5).Draw(c.T, "shards")),
				"-order_pow2", fmt.Sprint(rapid.IntRange(1, 4).Draw(c.T, "order")),
				"-count_thresh", fmt.Sprint(rapid.SampledFrom([]int{1, 8, 4096}).Draw(c.T, "threshold"))}
		}
		var p *kit.Proc
		start := func() {
			f := flags()
			c.Logf("start %v", f)
			p = kit.StartServer(c, bin, dir, func(a string) []string { return append([]string{"-http", a}, f...) }, "/healthz")
		}
		start()
		defer func() { p.Kill() }()
		keys := rapid.Permutation([]string{"a", "b", "a b", "é", "k:1", "A", "%00", longName, longName + "x"}).Draw(c.T, "keys")[:rapid.IntRange(1, 4).Draw(c.T, "nk")]
		buckets := rapid.Permutation([]string{"", "1", "2", "a", "b c", "key"}).Draw(c.T, "buckets")[:rapid.IntRange(1, 4).Draw(c.T, "nb")]
		m := map[pcell]int64{}
		restarts, used, inflight := 0, 0, 0
		lanes := map[string]bool{}
		cl := kit.NewClient(p.Addr)
		defer func() { cl.Close() }()
		do := func(method, path string) (int, string) {
			code, _, body, _, err := cl.Do(method, path, 60*time.Second)
			if err != nil {
				c.Failf("%s %s: %v", method, path, err)
			}
			return code, body
		}
		restart := func() {
			if code := p.Exit(120 * time.Second); code != 0 {
				c.Failf("the proxy ends with code %d:\n%s", code, tail(p.Output()))
			}
			cl.Close()
			restarts++
			start()
			cl = kit.NewClient(p.Addr)
		}
		for i, n := 0, rapid.IntRange(3, 24).Draw(c.T, "steps"); i < n; i++ {
			switch op := rapid.IntRange(0, 13).Draw(c.T, "op"); op {
			case 0:
				queries(c, p.Addr, m, keys, buckets, "while running")
			case 1:
				cl.Close()
				p.Signal(rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}).Draw(c.T, "signal"))
				c.Logf("restart")
				restart()
				if rapid.Bool().Draw(c.T, "query first") {
					queries(c, p.Addr, m, keys, buckets, "after a restart")
				}
			case 13: // many cells between two flushes
				nb := rapid.SampledFrom([]int{5, 20, 40, 70, 70, 70, 90, 150, 600, 1500}).Draw(c.T, "cells")
				times := rapid.IntRange(1, 2).Draw(c.T, "times")
				k := rapid.SampledFrom(keys).Draw(c.T, "key")
				c.Logf("%d x %d cells of key %q", times, nb, k)
				for q := 0; q < nb*times; q++ {
					pc := pcell{k, fmt.Sprintf("cell%d", q%nb)}
					n := int64(q%7 - 2)
					path, sign := "/consume", int64(1)
					if q%23 == 5 {
						path, sign = "/reverse", -1
					}
					if code, body := do("POST", fmt.Sprintf("%s?key=%s&bucket=%s&n=%d", path, url.QueryEscape(pc.key), pc.bucket, n)); code != 202 {
						c.Failf("POST %s answers %d %s", path, code, body)
					}
					m[pc] += sign * n
				}
				used++
				c.Class("many cells")
				if rapid.Bool().Draw(c.T, "query") {
					queries(c, p.Addr, m, []string{k}, []string{"cell0", fmt.Sprintf("cell%d", nb-1)}, "after many cells")
				}
			case 2: // without a key
				path := rapid.SampledFrom([]string{"/consume", "/reverse", "/set_limit"}).Draw(c.T, "path") + rapid.SampledFrom([]string{"", "?key=", "?bucket=1&n=5", "?n=3&key=&bucket=b", "?Key=a&n=4"}).Draw(c.T, "query")
				code, _ := do(rapid.SampledFrom([]string{"POST", "GET"}).Draw(c.T, "method"), path)
				c.Logf("%s -> %d", path, code)
				if code != 400 {
					c.Failf("%s answers %d", path, code)
				}
				queries(c, p.Addr, m, nil, nil, "after a refused request")
			case 3: // concurrent requests, perhaps with a restart in their midst
				np := rapid.IntRange(2, 5).Draw(c.T, "clients")
				seed := rapid.Uint64Range(1, 1<<40).Draw(c.T, "seed")
				cut := rapid.Bool().Draw(c.T, "terminate")
				per := rapid.IntRange(5, 60).Draw(c.T, "requests")
				wait := time.Duration(rapid.IntRange(0, 15).Draw(c.T, "after (ms)")) * time.Millisecond
				c.Logf("%d clients x %d requests, seed %d, terminate=%v after %v", np, per, seed, cut, wait)
				type result struct {
					acked   map[pcell]int64
					unknown *pcell
					delta   int64
					bad     string
				}
				res := make([]result, np)
				var wg sync.WaitGroup
				for w := 0; w < np; w++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						r := &res[w]
						r.acked = map[pcell]int64{}
						own := fmt.Sprintf("client%d", w)
						prior := int64(0)
						for x, v := range m {
							if x.key == own {
								prior += v
							}
						}
						x := seed + uint64(w)*104729
						rnd := func(n int) int {
							x = x*6364136223846793005 + 1442695040888963407
							return int((x >> 33) % uint64(n))
						}
						cl := kit.NewClient(p.Addr)
						defer cl.Close()
						for q := 0; q < per; q++ {
							pc := pcell{keys[rnd(len(keys))], buckets[rnd(len(buckets))]}
							if rnd(3) == 0 {
								pc.key = own
							}
							if rnd(12) == 0 {
								// only this client uses that key: what it was told is accepted is there
								code, _, body, _, err := cl.Do("GET", "/state?sum=1&key="+own, 60*time.Second)
								if err != nil && cut {
									return
								}
								var s struct{ Sum *int64 }
								if err == nil && code == 200 {
									err = json.Unmarshal([]byte(body), &s)
								}
								total := prior
								for x, v := range r.acked {
									if x.key == own {
										total += v
									}
								}
								if err != nil || code != 200 || s.Sum == nil || *s.Sum != total {
									r.bad = fmt.Sprintf("the sum of %q, used by one client only, is %s (%d %v), want %d", own, show(s.Sum), code, err, total)
									return
								}
							}
							amount := int64(rnd(50) + 1)
							d, path := amount, "/consume"
							switch rnd(4) {
							case 0:
								d, path = -amount, "/reverse"
							}
							u := fmt.Sprintf("%s?key=%s&bucket=%s&n=%d", path, url.QueryEscape(pc.key), url.QueryEscape(pc.bucket), amount)
							code, _, body, sent, err := cl.Do("POST", u, 60*time.Second)
							if err != nil {
								if sent {
									r.unknown, r.delta = &pc, d
								}
								if !cut {
									r.bad = fmt.Sprintf("POST %s: %v", u, err)
								}
								return
							}
							if code != 202 {
								r.bad = fmt.Sprintf("POST %s answers %d %s", u, code, body)
								return
							}
							r.acked[pc] += d
						}
					}()
				}
				if cut {
					time.Sleep(wait)
					p.Signal(syscall.SIGTERM)
				}
				wg.Wait()
				var unk []result
				for _, r := range res {
					if r.bad != "" {
						c.Failf("%s", r.bad)
					}
					for pc, d := range r.acked {
						m[pc] += d
					}
					if r.unknown != nil {
						unk = append(unk, r)
					}
				}
				lanes["concurrent"] = true
				used++
				if cut {
					restart()
					inflight += len(unk)
					// each unanswered request either took effect or not
					var dump map[string]int64
					get(c, p.Addr, "/state", &dump)
					var tried []string
					found := false
					for mask := 0; mask < 1<<len(unk) && !found; mask++ {
						m2 := map[pcell]int64{}
						for k, v := range m {
							m2[k] = v
						}
						for i, r := range unk {
							if mask>>i&1 == 1 {
								m2[*r.unknown] += r.delta
							}
						}
						ok, why := true, ""
						names := map[string]int64{}
						for k, v := range m2 {
							names[cellName(k.key, k.bucket)] += v
						}
						for k, v := range names {
							if dump[k] != v {
								ok, why = false, fmt.Sprintf("cell %s is %d, want %d", k, dump[k], v)
							}
						}
						for k, v := range dump {
							if _, is := names[k]; !is && v != 0 {
								ok, why = false, fmt.Sprintf("cell %s is %d, want nothing", k, v)
							}
						}
						if ok {
							m, found = m2, true
						}
						tried = append(tried, why)
					}
					if !found {
						sort.Strings(tried)
						c.Failf("after terminating the proxy under load and restarting it, its state does not match the acknowledged requests (%d unanswered): %s", len(unk), strings.Join(tried, " / "))
					}
				}
			default:
				pc := pcell{rapid.SampledFrom(keys).Draw(c.T, "key"), rapid.SampledFrom(buckets).Draw(c.T, "bucket")}
				path, lane := "/consume", "S"
				sign := int64(1)
				switch rapid.IntRange(0, 5).Draw(c.T, "path") {
				case 0, 1:
					path, sign, lane = "/reverse", -1, "V"
				case 2:
					path, sign, lane = "/set_limit", 0, "P"
				}
				q := url.Values{"key": {pc.key}}
				amount := int64(1)
				if path != "/set_limit" {
					if pc.bucket != "" || rapid.Bool().Draw(c.T, "empty bucket given") {
						q.Set("bucket", pc.bucket)
					}
					if rapid.IntRange(0, 3).Draw(c.T, "n") > 0 {
						amount = rapid.OneOf(rapid.Int64Range(-5, 20), rapid.SampledFrom([]int64{1 << 40, -1 << 40, 1<<53 + 1})).Draw(c.T, "amount")
						q.Set("n", spell(c.T, amount))
					}
				} else {
					q.Set("rps", rapid.SampledFrom([]string{"", "0", "7", "100", "2500000", "9223372036854775807", "-3", "many", "3000 per second, please"}).Draw(c.T, "rps"))
				}
				u := path + "?" + q.Encode()
				code, body := do("POST", u)
				c.Logf("%s -> %d", u, code)
				if code != 202 {
					c.Failf("POST %s answers %d %s", u, code, body)
				}
				if sign != 0 {
					m[pc] += sign * amount
				}
				lanes[lane] = true
				used++
				if rapid.IntRange(0, 3).Draw(c.T, "read your write") == 0 && sign != 0 {
					var s struct{ Sum *int64 }
					form := "/state?sum=1&key=" + url.QueryEscape(pc.key)
					total := int64(0)
					if pc.bucket != "" && rapid.Bool().Draw(c.T, "of the bucket") {
						form += "&bucket=" + url.QueryEscape(pc.bucket)
						total = m[pc]
					} else {
						for x, v := range m {
							if x.key == pc.key {
								total += v
							}
						}
					}
					get(c, p.Addr, form, &s)
					if s.Sum == nil || *s.Sum != total {
						c.Failf("right after POST %s, %s is %s, want %d", u, form, show(s.Sum), total)
					}
				}
			}
		}
		queries(c, p.Addr, m, keys, buckets, "at the end")
		if rapid.Bool().Draw(c.T, "last restart") {
			cl.Close()
			p.Signal(syscall.SIGTERM)
			restart()
			queries(c, p.Addr, m, keys, buckets, "after the last restart")
		}
		if restarts > 0 && used > 1 && len(lanes) > 1 {
			l := "restarted when idle"
			if inflight > 0 {
				l = "restarted with requests in flight"
			}
			c.NT(l)
		}
	})
}
