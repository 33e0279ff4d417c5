package verifapi_test

// C28 end to end: requests through the API, the worker and the demo persister; the printed
// summary must agree with what the clients saw and with the rows that were printed.

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"vsa/internal/ratelimiter/api"
	"vsa/internal/ratelimiter/core"
	kit "vsa/internal/verifkit"
)

func vfCapture(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		kit.Broken("%v", err)
	}
	old := os.Stdout
	os.Stdout = w
	ch := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		ch <- string(b)
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	s := <-ch
	r.Close()
	return s
}

func vfNumber(out, name string) int64 {
	m := regexp.MustCompile(`(?m)^` + regexp.QuoteMeta(name) + `\s+(-?\d+)\s*$`).FindStringSubmatch(out)
	if m == nil {
		return -1
	}
	n, _ := strconv.ParseInt(m[1], 10, 64)
	return n
}

func TestC28API(t *testing.T) {
	base := vfCapture(func() { core.NewMockPersister().PrintFinalMetrics() })
	kit.Run(t, 600, 6000, func(c *kit.Case) {
		limit := rapid.Int64Range(0, 30).Draw(c.T, "limit")
		st := core.NewStoreWithOptions(limit, vfDrawOpts(c.T, false))
		mux := http.NewServeMux()
		api.NewServer(st, limit).RegisterRoutes(mux)
		p := core.NewMockPersister()
		w := core.NewWorker(st, p, rapid.Int64Range(1, 8).Draw(c.T, "T"), 0, 100*time.Microsecond, 0, time.Hour, time.Hour)
		clients := rapid.IntRange(1, 4).Draw(c.T, "clients")
		per := rapid.SampledFrom([]int{0, 1, 10, 40, 150}).Draw(c.T, "per")
		seed := rapid.Uint64().Draw(c.T, "seed")
		var mu sync.Mutex
		var checks, ok int64
		out := vfCapture(func() {
			w.Start()
			var wg sync.WaitGroup
			for g := 0; g < clients; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					x := seed + uint64(g)*0x9e3779b97f4a7c15 + 1
					for i := 0; i < per; i++ {
						x ^= x << 13
						x ^= x >> 7
						x ^= x << 17
						key := fmt.Sprintf("k%d", (x>>8)%2)
						if (x>>33)%4 == 0 {
							vfDo(mux, "GET", "/release", vfQ(key))
							continue
						}
						if (x>>33)%17 == 1 {
							vfDo(mux, "GET", "/check", "") // no key: not an attempt
							continue
						}
						code := vfDo(mux, "GET", "/check", vfQ(key)).code
						mu.Lock()
						checks++
						if code == 200 {
							ok++
						}
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			w.Stop()
			p.PrintFinalMetrics()
		})
		var eff int64 = ok
		for _, k := range []string{"k0", "k1"} {
			eff -= limit - st.GetOrCreate(k).Available()
		}
		st.CloseAll()
		rows := int64(strings.Count(out, "  - KEY: "))
		batches := int64(strings.Count(out, "Persisting batch of "))
		c.Logf("limit=%d clients=%d per=%d seed=%d: %d checks, %d admitted, %d refunded, %d rows in %d batches", limit, clients, per, seed, checks, ok, eff, rows, batches)
		for _, x := range []struct {
			name string
			got  int64
			want int64
		}{
			{"Attempted", vfNumber(out, "Attempted") - vfNumber(base, "Attempted"), checks},
			{"Admits", vfNumber(out, "Admits") - vfNumber(base, "Admits"), ok},
			{"Refunds", vfNumber(out, "Refunds") - vfNumber(base, "Refunds"), eff},
			{"Writes", vfNumber(out, "Writes"), rows},
			{"Batches", vfNumber(out, "Batches"), batches},
		} {
			if x.got != x.want {
				c.Failf("the summary counts %d %s, there were %d", x.got, x.name, x.want)
			}
		}
		base = out
		if ok > 0 && eff > 0 && rows > 0 && checks > ok {
			c.NT()
		}
	})
}
