package verifsinks_test

// C24: the two event logs against a model of the appended records and their byte extents.

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"pgregory.net/rapid"
	"vsa/internal/sinks"
	kit "vsa/internal/verifkit"
	"vsa/plugin/tfd"
)

// A log of either kind, with records kept as comparable values.
type kind struct {
	name   string
	open   func(path string) (appender, error)
	read   func(path string) ([]any, error)
	record func(t *rapid.T) any
}

type appender interface {
	add(recs []any)
	Flush() error
	Close() error
}

type sLog struct{ *sinks.SBatchFileSink }

func (l sLog) add(recs []any) {
	var b []tfd.SBatch
	for _, r := range recs {
		b = append(b, r.(tfd.SBatch))
	}
	l.OnSBatches(b)
}

type vLog struct{ *sinks.VEnvFileSink }

func (l vLog) add(recs []any) {
	if len(recs) == 1 {
		l.Append(recs[0].(tfd.Envelope))
		return
	}
	var b []tfd.Envelope
	for _, r := range recs {
		b = append(b, r.(tfd.Envelope))
	}
	l.AppendAll(b)
}

var u64 = rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 9), rapid.SampledFrom([]uint64{0, math.MaxUint64, 1 << 63, 1<<53 + 1, 1<<53 - 1}))
var i64 = rapid.OneOf(rapid.Int64(), rapid.Int64Range(-9, 9), rapid.SampledFrom([]int64{0, math.MaxInt64, math.MinInt64, 1<<53 + 1, -(1<<53 + 1)}))

var kinds = []kind{
	{"S", func(p string) (appender, error) {
		s, err := sinks.NewSBatchFileSink(p)
		return sLog{s}, err
	}, func(p string) ([]any, error) {
		b, err := sinks.ReadAllSLog(p)
		var out []any
		for _, x := range b {
			out = append(out, x)
		}
		return out, err
	}, func(t *rapid.T) any {
		return tfd.SBatch{KeyID: u64.Draw(t, "key"), BucketID: u64.Draw(t, "bucket"), NetDelta: i64.Draw(t, "net"), SeqEnd: u64.Draw(t, "seq")}
	}},
	{"V", func(p string) (appender, error) {
		s, err := sinks.NewVEnvFileSink(p)
		return vLog{s}, err
	}, func(p string) ([]any, error) {
		b, err := sinks.ReadAllVLog(p)
		var out []any
		for _, x := range b {
			out = append(out, x)
		}
		return out, err
	}, func(t *rapid.T) any {
		e := tfd.Envelope{Channel: tfd.Channel(rapid.IntRange(0, 1).Draw(t, "channel")), Delta: i64.Draw(t, "delta"), SeqEnd: u64.Draw(t, "seq"),
			Footprint: tfd.Footprint{KeyID: u64.Draw(t, "key"), Time: tfd.TimeFootprint{BucketID: u64.Draw(t, "bucket"), All: rapid.Bool().Draw(t, "all")}, Scope: tfd.Channel(rapid.IntRange(0, 1).Draw(t, "scope"))}}
		h := tfd.Hash128(u64.Draw(t, "h"), 7)
		if rapid.Bool().Draw(t, "link") {
			e.HashPrev = h
		}
		return e
	}},
}

// model: what was appended, and where each record ends in the file.
type rec struct {
	r   any
	end int64
}

func must(err error) {
	if err != nil {
		kit.Broken("scratch file: %v", err)
	}
}

// done fails the property: the log itself reports an error on a healthy disk.
func done(c *kit.Case, err error, what string) {
	c.T.Helper()
	if err != nil {
		c.Failf("%s: %v", what, err)
	}
}

func size(p string) int64 {
	fi, err := os.Stat(p)
	must(err)
	return fi.Size()
}

// expect compares what is read from a file of which only cut bytes are left.
func expect(c *kit.Case, k kind, path string, log []rec, cut int64, what string) (read int) {
	got, err := k.read(path)
	if err != nil {
		c.Failf("%s: reading the log: %v", what, err)
	}
	i := 0
	for _, r := range log {
		switch {
		case r.end <= cut: // completely there
			if i >= len(got) {
				c.Failf("%s: record %+v, which ends at byte %d of %d, is not read back (%d records are)", what, r.r, r.end, cut, len(got))
			}
			if got[i] != r.r {
				c.Failf("%s: record %d reads back as %+v, want %+v", what, i, got[i], r.r)
			}
			i++
		case r.end-1 == cut: // all but its last byte, a line end: either way
			if i < len(got) && got[i] == r.r {
				i++
			}
		}
	}
	if i != len(got) {
		c.Failf("%s: %d records are read back, the log holds %d; the first surplus one is %+v", what, len(got), i, got[i])
	}
	return i
}

func lost(log []rec, cut int64) (kept []rec) {
	for _, r := range log {
		if r.end <= cut {
			kept = append(kept, r)
		}
	}
	return
}

func TestC24History(t *testing.T) {
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "logs")
	must(err)
	defer os.RemoveAll(base)
	kit.Run(t, 5000, 60000, func(c *kit.Case) {
		dir, err := os.MkdirTemp(base, "case")
		must(err)
		defer os.RemoveAll(dir)
		k := rapid.SampledFrom(kinds).Draw(c.T, "log")
		// a twin tells how many bytes each record takes
		twinPath := filepath.Join(dir, "twin")
		twin, err := k.open(twinPath)
		done(c, err, "opening a new log")
		defer twin.Close()
		widths := map[any]int64{}
		width := func(r any) (w int64) {
			if w, ok := widths[r]; ok {
				return w
			}
			defer func() { widths[r] = w }()
			a := size(twinPath)
			twin.add([]any{r})
			done(c, twin.Flush(), "Flush")
			return size(twinPath) - a
		}
		path := filepath.Join(dir, "log0")
		gen := 0
		var cur appender
		var log []rec   // as in the file, once flushed
		var group []any // appended since the last known offset
		defer func() {
			if cur != nil {
				cur.Close()
			}
		}()
		open := func() {
			var err error
			if cur, err = k.open(path); err != nil {
				c.Failf("opening the log: %v", err)
			}
			c.Logf("open (%d bytes)", size(path))
		}
		// settle gives the appended records their places; the file holds them all now.
		settle := func() {
			if len(group) == 0 {
				return
			}
			end := size(path)
			var ends []int64
			for i := len(group) - 1; i >= 0; i-- {
				ends = append(ends, end)
				end -= width(group[i])
			}
			for i, r := range group {
				log = append(log, rec{r, ends[len(ends)-1-i]})
			}
			group = nil
		}
		open()
		torn, crashes, after := 0, 0, 0
		var last any
		n := rapid.IntRange(2, 24).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			op := rapid.IntRange(0, 11).Draw(c.T, "op")
			if cur == nil && op > 1 {
				open()
			}
			switch {
			case op <= 1: // crash: what is in the file so far survives, up to any byte
				if len(group) > 0 && cur != nil {
					// find out where the unflushed records would have ended, on a copy of the file
					copyTo(path, path+".full")
					before := size(path)
					done(c, cur.Flush(), "Flush")
					settle()
					done(c, cur.Close(), "Close")
					if rapid.Bool().Draw(c.T, "lose the buffer") {
						must(os.Rename(path+".full", path))
						c.Logf("crash with unflushed records, %d bytes in the file", before)
					}
				} else if cur != nil {
					done(c, cur.Close(), "Close")
				}
				cur = nil
				sz := size(path)
				log2 := lost(log, sz)
				cut := sz
				if rapid.IntRange(0, 2).Draw(c.T, "cut") > 0 && sz > 0 {
					lo := int64(0)
					if len(log2) > 3 && rapid.Bool().Draw(c.T, "near the end") {
						lo = log2[len(log2)-3].end
					}
					cut = rapid.Int64Range(min(lo, sz), sz).Draw(c.T, "at")
					if rapid.IntRange(0, 4).Draw(c.T, "at a line end") == 0 && len(log2) > 0 {
						cut = max(0, log2[rapid.IntRange(0, len(log2)-1).Draw(c.T, "r")].end-rapid.Int64Range(0, 1).Draw(c.T, "less"))
					}
				}
				must(os.Truncate(path, cut))
				c.Logf("crash, file cut at %d of %d", cut, sz)
				n := expect(c, k, path, log, cut, fmt.Sprintf("after a cut at %d", cut))
				kept := lost(log, cut)
				if n > len(kept) { // the record that only lacks its line end
					for _, r := range log {
						if r.end-1 == cut {
							// from now on it has to stay readable
							kept = append(kept, rec{r.r, cut})
						}
					}
				} else {
					for _, r := range log {
						if r.end-1 == cut {
							c.Class("record without its line end dropped")
						}
					}
				}
				if len(kept) < len(log) {
					torn++
				}
				log = kept
				crashes++
				gen++
			case op == 2: // clean restart
				if err := cur.Close(); err != nil {
					c.Failf("Close: %v", err)
				}
				cur = nil
				c.Logf("close")
				settle()
				expect(c, k, path, log, size(path), "after Close")
			case op == 3:
				if err := cur.Flush(); err != nil {
					c.Failf("Flush: %v", err)
				}
				settle()
				c.Logf("flush")
				expect(c, k, path, log, size(path), "after Flush")
			case op == 4:
				cur.add(nil)
			default:
				m := rapid.IntRange(1, 5).Draw(c.T, "records")
				if rapid.IntRange(0, 250).Draw(c.T, "many") == 97 {
					m = rapid.IntRange(5000, 14000).Draw(c.T, "records")
				}
				var rs []any
				same := rapid.IntRange(0, 3).Draw(c.T, "the same again") == 3
				for j := 0; j < min(m, 20); j++ {
					if same && last != nil {
						rs = append(rs, last)
						continue
					}
					last = k.record(c.T)
					rs = append(rs, last)
				}
				for len(rs) < m {
					rs = append(rs, rs[len(rs)-20])
				}
				in := append([]any(nil), rs...)
				cur.add(in)
				group = append(group, rs...)
				c.Logf("append %d: %+v", m, rs[0])
				if torn > 0 {
					after += m
				}
				if m > 1000 {
					c.Class("more than the buffer holds")
				}
			}
		}
		if cur == nil {
			open()
		}
		if err := cur.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		cur = nil
		settle()
		expect(c, k, path, log, size(path), "at the end")
		// every byte position of the final file
		if sz := size(path); sz > 0 && sz < 800 && rapid.IntRange(0, 40).Draw(c.T, "every cut") == 23 {
			p2 := path + ".cut"
			copyTo(path, p2)
			for x := sz; x >= 0; x-- {
				must(os.Truncate(p2, x))
				expect(c, k, p2, log, x, fmt.Sprintf("final file cut at %d", x))
			}
			c.AddEvals(int(sz))
			c.Class("cut at every byte")
		}
		if torn > 0 && after > 0 {
			c.NT("appended after a torn record: " + k.name)
		}
	})
}

func copyTo(a, b string) {
	d, err := os.ReadFile(a)
	must(err)
	must(os.WriteFile(b, d, 0o644))
}

func TestC24Concurrent(t *testing.T) {
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "logs")
	must(err)
	defer os.RemoveAll(base)
	kit.Run(t, 60, 600, func(c *kit.Case) {
		dir, err := os.MkdirTemp(base, "case")
		must(err)
		defer os.RemoveAll(dir)
		k := rapid.SampledFrom(kinds).Draw(c.T, "log")
		path := filepath.Join(dir, "log")
		np := rapid.IntRange(2, 6).Draw(c.T, "producers")
		per := rapid.IntRange(5, 200).Draw(c.T, "calls")
		chunk := rapid.IntRange(1, 4).Draw(c.T, "records per call")
		rounds := rapid.IntRange(1, 3).Draw(c.T, "reopenings")
		c.Logf("%s producers=%d calls=%d records=%d rounds=%d", k.name, np, per, chunk, rounds)
		mk := func(round, p, i int) any {
			id := uint64(round)<<40 | uint64(p)<<32 | uint64(i)
			if k.name == "S" {
				return tfd.SBatch{KeyID: uint64(p), BucketID: id * 0x9e3779b97f4a7c15, NetDelta: int64(i), SeqEnd: id}
			}
			return tfd.Envelope{Channel: tfd.ChannelVector, Delta: int64(i), SeqEnd: id, Footprint: tfd.Footprint{KeyID: uint64(p)}, HashPrev: tfd.Hash128(uint64(p), id)}
		}
		total := 0
		for r := 0; r < rounds; r++ {
			s, err := k.open(path)
			if err != nil {
				c.Failf("open: %v", err)
			}
			var wg sync.WaitGroup
			for p := 0; p < np; p++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < per; i++ {
						var rs []any
						for j := 0; j < chunk; j++ {
							rs = append(rs, mk(r, p, i*chunk+j))
						}
						s.add(rs)
						if i%17 == p {
							_ = s.Flush()
							if p == 0 && i < 40 {
								_, _ = k.read(path)
							}
						}
					}
				}()
			}
			wg.Wait()
			if err := s.Close(); err != nil {
				c.Failf("Close: %v", err)
			}
			total += np * per * chunk
			got, err := k.read(path)
			if err != nil || len(got) != total {
				c.Failf("%d records were appended, %d are read back (%v)", total, len(got), err)
			}
		}
		got, _ := k.read(path)
		next := map[uint64]int{}
		for i, g := range got {
			var p, id uint64
			if k.name == "S" {
				p, id = g.(tfd.SBatch).KeyID, g.(tfd.SBatch).SeqEnd
			} else {
				p, id = g.(tfd.Envelope).Footprint.KeyID, g.(tfd.Envelope).SeqEnd
			}
			r := int(id >> 40)
			slot := uint64(r)<<32 | p
			if want := mk(r, int(p), next[slot]); g != want {
				c.Failf("record %d reads back as %+v, the next of producer %d is %+v", i, g, p, want)
			}
			next[slot]++
		}
		c.NT(k.name)
	})
}
