package verifbins_test

// C29: the built load generator against a server that counts what arrives.

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
)

type arrivals struct {
	mu       sync.Mutex
	keys     map[string]int
	n        int
	now, max int
	bad      string
	path     string
	param    string
	method   string
	delay    func(i int) time.Duration
	status   func(i int) int
	body     int
	drop     func(i int) bool
	noReuse  bool
}

func (a *arrivals) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	q, err := url.ParseQuery(r.URL.RawQuery)
	a.mu.Lock()
	i := a.n
	a.n++
	a.now++
	a.max = max(a.max, a.now)
	switch {
	case err != nil:
		a.bad = fmt.Sprintf("query %q does not parse: %v", r.URL.RawQuery, err)
	case r.URL.Path != a.path:
		a.bad = fmt.Sprintf("request to %q instead of %q", r.URL.Path, a.path)
	case len(q) != 1 || len(q[a.param]) != 1:
		a.bad = fmt.Sprintf("query %q instead of one %q parameter", r.URL.RawQuery, a.param)
	case r.Method != a.method:
		a.bad = fmt.Sprintf("method %s instead of %s", r.Method, a.method)
	default:
		a.keys[q[a.param][0]]++
	}
	a.mu.Unlock()
	if d := a.delay(i); d > 0 {
		time.Sleep(d)
	}
	a.mu.Lock()
	a.now--
	a.mu.Unlock()
	if a.drop != nil && a.drop(i) {
		if conn, _, err := w.(http.Hijacker).Hijack(); err == nil {
			_ = conn.Close()
			return
		}
	}
	if a.noReuse {
		w.Header().Set("Connection", "close")
	}
	w.WriteHeader(a.status(i))
	_, _ = w.Write(bytes.Repeat([]byte("x"), a.body))
}

func TestC29LoadGen(t *testing.T) {
	bin := kit.Bin("http-loadgen")
	var cur struct {
		sync.Mutex
		a *arrivals
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Broken("%v", err)
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		cur.Lock()
		a := cur.a
		cur.Unlock()
		a.ServeHTTP(w, r)
	})}
	go func() { _ = srv.Serve(l) }()
	defer srv.Close()
	odd := []string{"alice-key", "a b", "a&b=c", "a+b", "é", "100%", "#", "cold", "日本", "a/b?c", "", "'\"", "x=y", "hot", " lead", "trail ", "Hot"}
	kit.Run(t, 900, 12000, func(c *kit.Case) {
		c.Slow(300 * time.Second)
		mode := rapid.SampledFrom([]string{"single", "zipf", "zipf", "zipf", "release", "ZIPF", "Single", "mixed", "-"}).Draw(c.T, "mode")
		n := rapid.SampledFrom([]int{1, 2, 3, 7, 10, 33, 64, 100, 101, 250, 400, 0, -3}).Draw(c.T, "n")
		if n > 0 && rapid.Bool().Draw(c.T, "any n") {
			n = rapid.IntRange(1, 300).Draw(c.T, "N")
		}
		conc := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 8, 16, 16, 40, 1, 0, -1}).Draw(c.T, "c")
		key := rapid.SampledFrom(odd).Draw(c.T, "key")
		hot := rapid.SampledFrom(odd).Draw(c.T, "hot")
		cold := rapid.SampledFrom([]int{1, 1, 2, 3, 5, 8, 50, 100000, 0}).Draw(c.T, "cold")
		every := rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 4, 5, 5, 9, 50}).Draw(c.T, "every")
		path := rapid.SampledFrom([]string{"/check", "check", "/", "/release", "/a/b/c", "/check/"}).Draw(c.T, "path")
		param := rapid.SampledFrom([]string{"api_key", "k", "id", "a b", "é"}).Draw(c.T, "param")
		slash := rapid.SampledFrom([]string{"", "", "/", "//"}).Draw(c.T, "slash")
		if mode == "-" {
			mode = ""
		}
		a := &arrivals{keys: map[string]int{}, param: param, method: "GET", path: "/" + strings.TrimLeft(path, "/")}
		slow := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(c.T, "slow")
		a.delay = func(i int) time.Duration {
			if slow == 0 || n > 150 && conc < 4 {
				return 0
			}
			return time.Duration(i%(slow+1)) * 300 * time.Microsecond
		}
		codes := rapid.SampledFrom([][]int{{200}, {200, 429}, {200, 500, 404}, {204}, {503}, {200, 503, 502, 504}, {429}, {401, 403, 408, 425}}).Draw(c.T, "codes")
		a.status = func(i int) int { return codes[i%len(codes)] }
		if codes[0] != 204 {
			a.body = rapid.SampledFrom([]int{0, 2, 3000}).Draw(c.T, "body")
		}
		m := strings.ToLower(mode)
		if m == "" {
			m = "single"
		}
		var dropped atomic.Int64
		if rapid.IntRange(0, 3).Draw(c.T, "drops") == 1 {
			// The server handles the request and closes the connection without an answer. net/http
			// itself repeats a GET when that happens on a connection used before, so there are none.
			of := rapid.IntRange(1, 5).Draw(c.T, "drop one in")
			if rapid.IntRange(0, 3).Draw(c.T, "many") == 0 && n > 0 && conc > 0 {
				n, conc = rapid.SampledFrom([]int{150, 400, 700}).Draw(c.T, "requests"), rapid.IntRange(1, 3).Draw(c.T, "by few")
				slow = 0
			}
			a.drop = func(i int) bool {
				if (i+1)%of != 0 {
					return false
				}
				dropped.Add(1)
				return true
			}
			a.noReuse = m != "release"
		}
		args := []string{"-base", "http://" + l.Addr().String() + slash, "-path", path, "-param", param, "-timeout", "200s",
			"-n", fmt.Sprint(n), "-c", fmt.Sprint(conc), "-key", key, "-hot_key", hot, "-cold_keys", fmt.Sprint(cold), "-hot_every", fmt.Sprint(every)}
		if mode != "" {
			args = append(args, "-mode", mode)
		}
		if m == "release" {
			a.method = "POST"
		}
		valid := n > 0 && conc > 0 && m != "mixed" && !(m == "zipf" && cold <= 0)
		cur.Lock()
		cur.a = a
		cur.Unlock()
		ctx, cancel := context.WithTimeout(context.Background(), 250*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Env = append(os.Environ(), "HTTP_PROXY=", "http_proxy=", "NO_PROXY=*")
		out, err := cmd.CombinedOutput()
		c.Logf("%q -> %v, %d requests, at most %d at once", args[2:], err, a.n, a.max)
		a.mu.Lock()
		defer a.mu.Unlock()
		if !valid {
			if err == nil || a.n != 0 {
				c.Failf("refused nothing: %d requests, %v\n%s", a.n, err, out)
			}
			c.Class("refused")
			return
		}
		if err != nil {
			c.Failf("the generator failed: %v\n%s", err, out)
		}
		if a.bad != "" {
			c.Failf("%s", a.bad)
		}
		if a.n != n {
			c.Failf("%d requests, %d were asked for", a.n, n)
		}
		if a.max > conc {
			c.Failf("%d requests at once, at most %d were asked for", a.max, conc)
		}
		if m != "zipf" {
			if a.keys[key] != n {
				c.Failf("keys %v instead of %q", a.keys, key)
			}
		} else {
			nc := 0
			for k, x := range a.keys {
				if k == hot {
					continue
				}
				i, err := strconv.Atoi(strings.TrimPrefix(k, "cold-"))
				if err != nil || i < 1 || i > cold || fmt.Sprintf("cold-%d", i) != k {
					c.Failf("key %q is neither the hot key nor one of %d cold ones", k, cold)
				}
				nc += x
			}
			period := max(every, 2)
			// Each of the c workers may be off by less than one.
			if share := float64(n) / float64(period); math.Abs(float64(nc)-share) > float64(min(conc, n)) {
				c.Failf("%d of %d requests were for cold keys; one in %d was asked for", nc, n, period)
			}
			if nc > 2 && len(a.keys) > 2 {
				c.Class("several cold keys")
			}
		}
		if dropped.Load() > 0 {
			c.Class("answers missing")
		}
		if n > conc && conc > 1 {
			c.NT(m)
			if n%conc != 0 {
				c.Class("not divisible")
			}
			if a.max == conc {
				c.Class("reached the concurrency")
			}
		}
	})
}
