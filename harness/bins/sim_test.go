package verifbins_test

// C30: the built tfd-sim; its logs against its counters and the requests it accepted.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
	"vsa/plugin/tfd"
)

var simLine = regexp.MustCompile(`(?m)^(tfd_[a-z_]+) (\S+)$`)

type simCell struct{ key, bucket uint64 }

type simRun struct {
	dir                 string
	began               time.Time
	p                   *kit.Proc
	qps, burst          int
	cover               float64
	keys, buckets       int
	length              time.Duration // 0: ended by a signal
	sent                map[simCell]int64
	accepted            int64
	requests            []simReq
	sig                 syscall.Signal
	s0, v0              int // records in the logs before this run
	nt                  bool
	exactKnown, partial bool
	pressed             bool
	hammer              bool // consumes while the generator works
}

type simReq struct {
	query string
	cell  simCell
	n     int64
	ok    bool
	wait  time.Duration
}

// jsonl reads the records of a log, in order.
func jsonl[T any](path string) (out []T, bad string) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err.Error()
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var x T
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			return out, fmt.Sprintf("line %d of %s is %q: %v", len(out)+1, filepath.Base(path), sc.Text(), err)
		}
		out = append(out, x)
	}
	if err := sc.Err(); err != nil {
		return out, err.Error()
	}
	return out, ""
}

func (r *simRun) counters() (map[string]float64, error) {
	code, text, err := kit.Request(r.p.Addr, "GET", "/metrics", patience)
	if err != nil || code != 200 {
		return nil, fmt.Errorf("/metrics: %d %v", code, err)
	}
	m := map[string]float64{}
	for _, x := range simLine.FindAllStringSubmatch(text, -1) {
		m[x[1]], _ = strconv.ParseFloat(x[2], 64)
	}
	return m, nil
}

// during sends consumes from several clients around the time of the first burst.
func (r *simRun) during() string {
	first := r.began.Add(time.Second / time.Duration(r.qps))
	time.Sleep(time.Until(first.Add(-20 * time.Millisecond)))
	cell := simCell{tfd.HashKey("during"), tfd.HashKey("b")}
	var mu sync.Mutex
	var wg sync.WaitGroup
	bad := ""
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl := kit.NewClient(r.p.Addr)
			defer cl.Close()
			for i := 0; i < 400 && time.Now().Before(first.Add(150*time.Millisecond)); i++ {
				code, _, body, _, err := cl.Do("POST", "/consume?key=during&bucket=b&n=3", patience)
				mu.Lock()
				if err != nil || code != 202 {
					bad = fmt.Sprintf("POST /consume during a burst: %d %s %v", code, body, err)
				} else {
					r.sent[cell] += 3
					r.accepted++
				}
				mu.Unlock()
				if err != nil {
					return
				}
			}
		}()
	}
	wg.Wait()
	return bad
}

// drive waits until the generator has worked, ends the process and compares.
func (r *simRun) drive() string {
	cl := kit.NewClient(r.p.Addr)
	defer cl.Close()
	for _, q := range r.requests {
		time.Sleep(q.wait)
		if r.length > 0 && time.Since(r.began) > r.length-100*time.Millisecond {
			break
		}
		code, _, body, _, err := cl.Do("POST", "/consume?"+q.query, patience)
		if r.length > 0 && time.Since(r.began) > r.length {
			r.p.Exit(2 * patience)
			return "" // it may have ended meanwhile: not judged
		}
		switch {
		case err != nil:
			return fmt.Sprintf("POST /consume?%s: %v", q.query, err)
		case q.ok && code != 202 || !q.ok && code != 400:
			return fmt.Sprintf("POST /consume?%s answers %d %s", q.query, code, body)
		case q.ok:
			r.sent[q.cell] += q.n
			r.accepted++
		}
	}
	if r.hammer {
		if bad := r.during(); bad != "" {
			return bad
		}
	}
	var m map[string]float64
	quiet := 0
	for t0 := time.Now(); ; {
		late := time.Since(t0) > patience
		got, err := r.counters()
		if err != nil {
			if r.length > 0 {
				r.partial = true
				break
			}
			return err.Error()
		}
		same := m != nil
		for k, v := range got {
			same = same && m[k] == v
		}
		m = got
		if m["tfd_total_ops"] != m["tfd_s_ops"]+m["tfd_v_ops"]-float64(r.accepted) {
			quiet = 0
		} else if same && m["tfd_total_ops"] > 0 {
			quiet++
		} else {
			quiet = 0
		}
		if quiet > 3 {
			break
		}
		if late {
			return fmt.Sprintf("after %v: %v, %d consumes accepted", patience, m, r.accepted)
		}
		time.Sleep(4 * time.Millisecond)
	}
	if r.length == 0 {
		r.p.Signal(r.sig)
	}
	if code := r.p.Exit(2 * patience); code != 0 {
		return fmt.Sprintf("exit code %d", code)
	}
	end := time.Now()
	if r.length > 0 && end.Before(r.began.Add(r.length)) {
		return fmt.Sprintf("it ended after %v, it was to run for %v", end.Sub(r.began), r.length)
	}
	ticks := int64(float64(end.Sub(r.began)) / (float64(time.Second) / float64(r.qps)))
	S, bad := jsonl[tfd.SBatch](filepath.Join(r.dir, "s.log"))
	if bad != "" {
		return bad
	}
	V, bad := jsonl[tfd.Envelope](filepath.Join(r.dir, "v.log"))
	if bad != "" {
		return bad
	}
	if len(S) < r.s0 || len(V) < r.v0 {
		return fmt.Sprintf("records of the last run are gone: %d and %d, before %d and %d", len(S), len(V), r.s0, r.v0)
	}
	S, V = S[r.s0:], V[r.v0:]
	// generated cells
	uk, ub := map[uint64]bool{}, map[uint64]bool{}
	for i := 0; i < r.keys; i++ {
		uk[tfd.HashKey(fmt.Sprintf("user:%d", i))] = true
	}
	for i := 0; i < r.buckets; i++ {
		ub[tfd.HashKey(fmt.Sprintf("t1s/%d", i))] = true
	}
	mine := map[simCell]int64{}
	var gen int64
	for i, b := range S {
		c := simCell{b.KeyID, b.BucketID}
		_, sent := r.sent[c]
		switch {
		case sent:
			mine[c] += b.NetDelta
		case uk[b.KeyID] && ub[b.BucketID]:
			gen += b.NetDelta
		default:
			return fmt.Sprintf("record %d of s.log is for a cell that nobody used: %+v", i, b)
		}
		if b.NetDelta == 0 {
			return fmt.Sprintf("record %d of s.log carries nothing: %+v", i, b)
		}
	}
	for c, n := range r.sent {
		if mine[c] != n {
			return fmt.Sprintf("s.log has %d for a cell, %d were accepted", mine[c], n)
		}
	}
	for i, e := range V {
		if e.Channel != tfd.ChannelVector || e.Delta != 1 || !uk[e.Footprint.KeyID] || !ub[e.Footprint.Time.BucketID] {
			return fmt.Sprintf("record %d of v.log was not generated: %+v", i, e)
		}
		if e.HashPrev != tfd.Hash128(e.Footprint.KeyID, e.SeqEnd) {
			return fmt.Sprintf("record %d of v.log has a wrong audit link: %+v", i, e)
		}
	}
	s, v, most := int64(m["tfd_s_ops"])-r.accepted, int64(m["tfd_v_ops"]), ticks*int64(r.burst)
	all := fmt.Sprintf("counted %d scalar and %d ordered operations, logged %d and %d, at most %d generated", s, v, gen, len(V), most)
	exact := !r.partial && most == s+v
	switch {
	case r.partial && len(m) == 0:
	case gen < s || int64(len(V)) < v:
		return "lost: " + all
	case gen+int64(len(V)) > most:
		return "invented: " + all
	case exact && (gen != s || int64(len(V)) != v):
		return "different: " + all
	}
	if m["tfd_s_batches_in_total"] < m["tfd_s_batches_out_total"] || m["tfd_s_batches_out_total"] > float64(len(S)) {
		return fmt.Sprintf("%v batches in, %v out, %d records", m["tfd_s_batches_in_total"], m["tfd_s_batches_out_total"], len(S))
	}
	n := float64(gen) + float64(len(V))
	p := min(max(r.cover, 0), 1)
	if d := math.Abs(float64(gen) - p*n); d > 7*math.Sqrt(n*p*(1-p))+1e-9*n {
		return fmt.Sprintf("%d of %v generated operations are scalar, the share is to be %v", gen, n, p)
	}
	r.s0 += len(S)
	r.v0 += len(V)
	r.nt = gen+int64(len(V)) > 0 && r.accepted > 0
	r.exactKnown, r.pressed = exact, m["tfd_try_ingest_fail_total"] > 0
	return ""
}

func TestC30Sim(t *testing.T) {
	bin := kit.Bin("tfd-sim")
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "sim")
	if err != nil {
		kit.Broken("%v", err)
	}
	defer os.RemoveAll(base)
	kit.Run(t, 24, 400, func(c *kit.Case) {
		c.Slow(600 * time.Second)
		n := rapid.SampledFrom([]int{8, 8, 6, 4, 2, 1}).Draw(c.T, "processes")
		runs := make([]*simRun, n)
		bads := make([]string, n)
		dir, err := os.MkdirTemp(base, "case")
		if err != nil {
			kit.Broken("%v", err)
		}
		defer os.RemoveAll(dir)
		again := rapid.IntRange(0, 3).Draw(c.T, "runs on the same logs") == 2
		for round := 0; round < 1 || again && round < 2; round++ {
			var wg sync.WaitGroup
			for i := range runs {
				r := runs[i]
				if r == nil {
					r = &simRun{dir: filepath.Join(dir, fmt.Sprint(i))}
					runs[i] = r
					if err := os.Mkdir(r.dir, 0o755); err != nil {
						kit.Broken("%v", err)
					}
				}
				args := r.draw(c)
				c.Logf("process %d: %v, then %v %v, during the burst %v", i, args, r.length, r.requests, r.hammer)
				if rapid.Bool().Draw(c.T, "one processor") {
					_ = os.Setenv("GOMAXPROCS", "1")
				}
				r.p = kit.StartServer(c, bin, r.dir, func(a string) []string {
					r.began = time.Now()
					return append([]string{"-http", a}, args...)
				}, "/metrics")
				_ = os.Unsetenv("GOMAXPROCS")
				p := r.p
				defer p.Kill()
				wg.Add(1)
				go func() {
					defer wg.Done()
					if b := r.drive(); b != "" {
						bads[i] = fmt.Sprintf("%v: %s\n%s", args, b, tail(p.Output()))
					}
				}()
			}
			wg.Wait()
			for i, b := range bads {
				if b != "" {
					c.Failf("%s", b)
				}
				if runs[i].nt {
					c.NT("logs compared")
				}
				if runs[i].exactKnown {
					c.Class("exactly")
				}
				if runs[i].pressed {
					c.Class("full buffer")
				}
				if round > 0 {
					c.Class("appended to earlier logs")
				}
			}
			c.AddEvals(n)
		}
		c.AddEvals(-1)
	})
}

func (r *simRun) draw(c *kit.Case) []string {
	r.qps = rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(c.T, "qps")
	r.burst = rapid.SampledFrom([]int{1, 5, 100, 100, 1000, 9000, 20000, 60000}).Draw(c.T, "burst")
	r.cover = rapid.SampledFrom([]float64{0, 1, 1, 0.5, 0.85, 0.1, -3, 7}).Draw(c.T, "coverage")
	r.keys = rapid.SampledFrom([]int{1, 2, 10, 40, 300}).Draw(c.T, "keys")
	r.buckets = rapid.SampledFrom([]int{1, 3, 8, 20}).Draw(c.T, "buckets")
	r.sent, r.accepted, r.nt, r.partial, r.requests, r.length = map[simCell]int64{}, 0, false, false, nil, 0
	pow := rapid.SampledFrom([]int{0, 1, 2, 4, 10}).Draw(c.T, "order")
	r.sig = rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}).Draw(c.T, "signal")
	args := []string{"-s_log", "s.log", "-v_log", "v.log", "-qps", fmt.Sprint(r.qps), "-burst", fmt.Sprint(r.burst), "-s_coverage", fmt.Sprint(r.cover),
		"-keys", fmt.Sprint(r.keys), "-buckets", fmt.Sprint(r.buckets), "-order_pow2", fmt.Sprint(pow),
		"-shards", fmt.Sprint(rapid.SampledFrom([]int{0, 1, 3, 8}).Draw(c.T, "shards")),
		"-count_thresh", fmt.Sprint(rapid.SampledFrom([]int{0, 1, 7, 4096}).Draw(c.T, "count threshold")),
		"-time_cap", rapid.SampledFrom([]string{"0s", "1ms", "3ms", "1h"}).Draw(c.T, "time cap"),
		"-flush", rapid.SampledFrom([]string{"0s", "300us", "2ms", "40ms", "1h"}).Draw(c.T, "flush")}
	if rapid.IntRange(0, 4).Draw(c.T, "timed") == 1 {
		r.length = rapid.SampledFrom([]time.Duration{900 * time.Millisecond, 1300 * time.Millisecond, 2200 * time.Millisecond}).Draw(c.T, "duration")
		args = append(args, "-duration", r.length.String())
	} else {
		args = append(args, "-duration", rapid.SampledFrom([]string{"0s", "1h", "-1s"}).Draw(c.T, "no duration"))
	}
	r.hammer = r.length == 0 && rapid.Bool().Draw(c.T, "consumes during the burst")
	for i, k := 0, rapid.IntRange(0, 12).Draw(c.T, "consumes"); i < k; i++ {
		key := rapid.SampledFrom([]string{"a", "b", "x y", "é", "", "user"}).Draw(c.T, "key")
		bucket := rapid.SampledFrom([]string{"", "1", "t", "a b"}).Draw(c.T, "bucket")
		q := url.Values{"bucket": {bucket}}
		if key != "" || rapid.Bool().Draw(c.T, "empty key given") {
			q.Set("key", key)
		}
		n := int64(1)
		if rapid.IntRange(0, 3).Draw(c.T, "n given") > 0 {
			n = rapid.OneOf(rapid.Int64Range(-5, 20), rapid.SampledFrom([]int64{1 << 40, -1 << 40})).Draw(c.T, "n")
			q.Set("n", spell(c.T, n))
		}
		cell := simCell{key: tfd.HashKey(key)}
		if bucket != "" {
			cell.bucket = tfd.HashKey(bucket)
		}
		wait := time.Duration(rapid.SampledFrom([]int{0, 0, 0, 5, 60}).Draw(c.T, "wait (ms)")) * time.Millisecond
		r.requests = append(r.requests, simReq{q.Encode(), cell, n, key != "", wait})
	}
	return args
}
