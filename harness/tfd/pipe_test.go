package tfd

// C25: the order-free lane's service behind the pipeline, with concurrent producers and
// flushes, in a bubble with a fake clock.

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
)

type vfRecSink struct {
	mu    sync.Mutex
	net   map[vfCell]int64
	seq   map[vfCell]uint64
	calls int
	delay time.Duration
	bad   string
	keep  bool // hold on to the slices handed over
	kept  [][]SBatch
	as    [][]SBatch
	hold  chan struct{} // the next call waits for it to be closed
	held  chan struct{} // if set, closed when that call begins to wait
}

// intact: what was handed over belongs to the sink, nobody changes it afterwards.
func (s *vfRecSink) intact(c *kit.Case) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range s.kept {
		if fmt.Sprint(s.kept[i]) != fmt.Sprint(s.as[i]) {
			c.Failf("batches handed to the sink were changed afterwards: %v, they were %v", s.kept[i], s.as[i])
		}
	}
}

func (s *vfRecSink) OnSBatches(b []SBatch) {
	if s.delay > 0 {
		time.Sleep(s.delay)
	}
	s.mu.Lock()
	hold := s.hold
	s.hold = nil
	s.mu.Unlock()
	if hold != nil {
		if s.held != nil {
			close(s.held)
		}
		<-hold
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls++
	if s.keep {
		s.kept = append(s.kept, b)
		s.as = append(s.as, append([]SBatch(nil), b...))
	}
	if len(b) == 0 {
		s.bad = "the sink was called with nothing"
	}
	for i := range b {
		c := vfCell{b[i].KeyID, b[i].BucketID}
		s.net[c] += b[i].NetDelta
		s.seq[c] = max(s.seq[c], b[i].SeqEnd)
		if !s.keep {
			b[i] = SBatch{} // what was handed over belongs to the sink
		}
	}
}

func (s *vfRecSink) at(c vfCell) int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.net[c]
}

func vfDrawPipe(c *kit.Case) (*Pipeline, *vfRecSink, time.Duration) {
	sink := &vfRecSink{net: map[vfCell]int64{}, seq: map[vfCell]uint64{}}
	sink.keep = rapid.Bool().Draw(c.T, "sink keeps the batches")
	iv := rapid.SampledFrom([]time.Duration{0, 50 * time.Microsecond, time.Millisecond, 20 * time.Millisecond, time.Hour}).Draw(c.T, "interval")
	o := PipelineOptions{
		Shards:        rapid.IntRange(0, 5).Draw(c.T, "shards"),
		OrderPow2:     rapid.IntRange(1, 4).Draw(c.T, "order"),
		CountThresh:   rapid.SampledFrom([]int{1, 4, 1024}).Draw(c.T, "threshold"),
		TimeCap:       rapid.SampledFrom([]time.Duration{0, time.Millisecond, time.Hour}).Draw(c.T, "cap"),
		FlushInterval: iv,
		Buffer:        rapid.SampledFrom([]int{0, 1, 2, 3, 16, 4096}).Draw(c.T, "buffer"),
		SSink:         sink,
	}
	if rapid.Bool().Draw(c.T, "compress") {
		o.VSA = SimpleVSA{}
	}
	if rapid.IntRange(0, 3).Draw(c.T, "slow sink") == 0 {
		sink.delay = rapid.SampledFrom([]time.Duration{10 * time.Microsecond, time.Millisecond, 30 * time.Millisecond, 3 * time.Second}).Draw(c.T, "delay")
	}
	if sink.delay > time.Millisecond {
		iv = max(iv, sink.delay/4) // not too many ticks per call of the sink
		o.FlushInterval = iv
	}
	c.Logf("shards=%d order=%d threshold=%d cap=%v interval=%v buffer=%d compress=%v sink delay %v", o.Shards, o.OrderPow2, o.CountThresh, o.TimeCap, iv, o.Buffer, o.VSA != nil, sink.delay)
	if iv <= 0 {
		iv = 2 * time.Millisecond // documented default
	}
	return NewPipeline(o), sink, iv
}

// One producer: after every flush the sink's totals are exactly the accepted ones.
func TestC25Sequential(t *testing.T) {
	kit.Run(t, 15000, 150000, func(c *kit.Case) {
		kit.Bubble(func() {
			p, sink, iv := vfDrawPipe(c)
			pool := vfDrawCells(c.T, 10)
			want := map[vfCell]int64{}
			vwant := map[uint64][]Envelope{}
			p.Start()
			if rapid.IntRange(0, 4).Draw(c.T, "start twice") == 0 {
				p.Start()
			}
			stopped := false
			stop := func() {
				if !stopped {
					stopped = true
					p.Stop()
				}
			}
			defer stop()
			check := func(what string) {
				if sink.bad != "" {
					c.Failf("%s", sink.bad)
				}
				for _, cl := range pool {
					if got := sink.at(cl); got != want[cl] {
						c.Failf("%s, the sink has %d for cell %x, accepted %d", what, got, cl, want[cl])
					}
				}
				sink.mu.Lock()
				defer sink.mu.Unlock()
				for cl := range sink.net {
					if _, ok := want[cl]; !ok {
						c.Failf("%s, the sink has got a batch for the unknown cell %x", what, cl)
					}
				}
			}
			flushes, pending, useful := 0, 0, 0
			n := rapid.IntRange(1, 60).Draw(c.T, "steps")
			for i := 0; i < n; i++ {
				cl := rapid.SampledFrom(pool).Draw(c.T, "cell")
				switch op := rapid.IntRange(0, 11).Draw(c.T, "op"); {
				case op == 0:
					p.FlushS()
					c.Logf("flush")
					check("after a flush")
					flushes++
					if pending > 0 {
						useful++
					}
					pending = 0
				case op == 1:
					// idle for longer than the flush interval
					time.Sleep(2*iv + time.Duration(pending+3)*sink.delay) // a slow sink may take the events one by one
					kit.Settle()
					c.Logf("idle for two intervals")
					check("after two idle flush intervals")
					pending = 0
				case op == 2:
					e := vfVEnv(cl, vfDrawDelta(c.T), uint64(i))
					var got []Envelope
					p.Handle(e, func(x Envelope) { got = append(got, x) })
					vwant[cl[0]] = append(vwant[cl[0]], vfLinkedV(e))
					if len(got) != 1 || got[0] != vfLinkedV(e) {
						c.Failf("vector event persisted as %+v", got)
					}
					c.Logf("vector %x", cl)
				case op == 3:
					time.Sleep(iv / 4)
				default:
					d := vfDrawDelta(c.T)
					p.Handle(vfSEnvDraw(c.T, cl, d, uint64(i)), func(Envelope) { c.Failf("a scalar event was persisted as an ordered one") })
					want[cl] += d
					pending++
					c.Logf("%x %+d", cl, d)
				}
			}
			stop()
			check("after Stop")
			p.FlushS() // nothing is left to do, and it says so
			check("after Stop and a flush")
			sink.intact(c)
			for k, w := range vwant {
				got := p.DrainV(k)
				if fmt.Sprint(got) != fmt.Sprint(w) {
					c.Failf("ordered events of key %x: drained %v, accepted %v", k, got, w)
				}
			}
			if useful > 0 && pending > 0 {
				c.NT("flushed with events waiting, and stopped with events waiting")
			} else if useful > 0 {
				c.NT("flushed with events waiting")
			}
		})
	})
}

func vfLinkedV(e Envelope) Envelope {
	e.HashPrev = Hash128(e.Footprint.KeyID, e.SeqEnd)
	return e
}

// Many producers: own cells are exact after each own flush, shared cells (only positive
// amounts) lie between what had been handed in before the flush and what has been begun.
func TestC25Concurrent(t *testing.T) {
	kit.Run(t, 6000, 60000, func(c *kit.Case) {
		kit.Bubble(func() {
			p, sink, iv := vfDrawPipe(c)
			np := rapid.IntRange(1, 6).Draw(c.T, "producers")
			type step struct {
				op    int // 0 flush, 1 sleep, 2 vector, 3 own, 4 shared
				cell  int
				delta int64
			}
			plan := make([][]step, np)
			nflush := 0
			for i := range plan {
				for j, n := 0, rapid.IntRange(1, 25).Draw(c.T, "steps"); j < n; j++ {
					s := step{op: rapid.SampledFrom([]int{0, 1, 2, 3, 3, 3, 4, 4, 4, 4}).Draw(c.T, "op"), cell: rapid.IntRange(0, 2).Draw(c.T, "cell")}
					switch s.op {
					case 0:
						nflush++
					case 1:
						s.delta = rapid.Int64Range(1, 8).Draw(c.T, "quarters")
					case 3:
						s.delta = rapid.Int64Range(-3, 3).Draw(c.T, "d")
					case 4:
						s.delta = rapid.Int64Range(1, 9).Draw(c.T, "d")
					}
					plan[i] = append(plan[i], s)
				}
			}
			c.Logf("plan (0 flush, 1 sleep, 2 vector, 3 own cell, 4 shared cell) %v", plan)
			own := func(i, j int) vfCell { return vfCell{uint64(100 + i), uint64(j)} }
			shared := func(j int) vfCell { return vfCell{7, uint64(j) << 62} }
			var mu sync.Mutex
			var began, ended [3]int64
			var maxSeq [3]uint64
			exact := make([][3]int64, np)
			fail := make(chan string, 1000)
			p.Start()
			stopped := false
			stop := func() {
				if !stopped {
					stopped = true
					p.Stop()
				}
			}
			defer stop()
			var wg sync.WaitGroup
			for i := range plan {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j, s := range plan[i] {
						seq := uint64(i*1000 + j + 1)
						switch s.op {
						case 0:
							mu.Lock()
							low := ended
							mu.Unlock()
							p.FlushS()
							for k := 0; k < 3; k++ {
								got := sink.at(shared(k))
								mu.Lock()
								high := began
								mu.Unlock()
								if got < low[k] {
									fail <- fmt.Sprintf("producer %d's flush (step %d) returned, but of the %d handed in for shared cell %d before it only %d are delivered", i, j, low[k], k, got)
								}
								if got > high[k] {
									fail <- fmt.Sprintf("%d delivered for shared cell %d, only %d were ever handed in", got, k, high[k])
								}
								if got := sink.at(own(i, k)); got != exact[i][k] {
									fail <- fmt.Sprintf("producer %d's flush (step %d) returned, its cell %d has %d delivered, it handed in %d", i, j, k, got, exact[i][k])
								}
							}
						case 1:
							time.Sleep(time.Duration(s.delta) * min(iv, time.Second) / 4)
						case 2:
							p.Handle(vfVEnv(own(i%2, s.cell), int64(seq), seq), nil)
						case 3:
							p.Handle(vfSEnv(own(i, s.cell), s.delta, seq), nil)
							exact[i][s.cell] += s.delta
						case 4:
							mu.Lock()
							began[s.cell] += s.delta
							mu.Unlock()
							e := vfSEnv(shared(s.cell), s.delta, seq)
							e.Footprint.Time.All = s.cell == 0 && seq%2 == 0
							p.Handle(e, nil)
							mu.Lock()
							ended[s.cell] += s.delta
							maxSeq[s.cell] = max(maxSeq[s.cell], seq)
							mu.Unlock()
						}
					}
				}()
			}
			wg.Wait()
			stop()
			sink.intact(c)
			select {
			case m := <-fail:
				c.Failf("%s", m)
			default:
			}
			for k := 0; k < 3; k++ {
				if got := sink.at(shared(k)); got != ended[k] {
					c.Failf("after Stop shared cell %d has %d delivered, %d were handed in", k, got, ended[k])
				}
				if got := sink.seq[shared(k)]; got != maxSeq[k] {
					c.Failf("after Stop shared cell %d has sequence number %d, want %d", k, got, maxSeq[k])
				}
				for i := range plan {
					if got := sink.at(own(i, k)); got != exact[i][k] {
						c.Failf("after Stop cell %d of producer %d has %d delivered, %d were handed in", k, i, got, exact[i][k])
					}
				}
			}
			vectors := map[uint64]int{}
			for k := uint64(100); k < 102; k++ {
				last := map[uint64]uint64{}
				for _, e := range p.DrainV(k) {
					vectors[e.SeqEnd]++
					if pr := e.SeqEnd / 1000; last[pr] >= e.SeqEnd || pr%2+100 != k {
						c.Failf("ordered events of key %d out of order or misplaced: %d after %d", k, e.SeqEnd, last[pr])
					} else {
						last[pr] = e.SeqEnd
					}
				}
			}
			nv := 0
			for i := range plan {
				for j, s := range plan[i] {
					if s.op == 2 {
						nv++
						if n := vectors[uint64(i*1000+j+1)]; n != 1 {
							c.Failf("ordered event %d of producer %d was drained %d times", j, i, n)
						}
					}
				}
			}
			if nv != len(vectors) {
				c.Failf("%d ordered events drained, %d handed in", len(vectors), nv)
			}
			if np > 1 && nflush > 0 {
				c.NT(fmt.Sprintf("producers=%d", np))
			}
		})
	})
}

// A backlog: the sink holds up the lane while thousands of events over many cells are handed
// in; the flush or stop that follows has to deliver all of them.
func TestC25Backlog(t *testing.T) {
	kit.Run(t, 600, 8000, func(c *kit.Case) {
		kit.Bubble(func() {
			sink := &vfRecSink{net: map[vfCell]int64{}, seq: map[vfCell]uint64{}, keep: rapid.Bool().Draw(c.T, "sink keeps the batches")}
			o := PipelineOptions{
				Shards:        rapid.SampledFrom([]int{1, 2, 7, 64}).Draw(c.T, "shards"),
				OrderPow2:     rapid.IntRange(1, 9).Draw(c.T, "order"),
				CountThresh:   rapid.SampledFrom([]int{1, 1024}).Draw(c.T, "threshold"),
				TimeCap:       time.Hour,
				FlushInterval: time.Hour,
				Buffer:        rapid.SampledFrom([]int{1, 8, 64, 512, 4096, 10000}).Draw(c.T, "buffer"),
				SSink:         sink,
			}
			if rapid.Bool().Draw(c.T, "compress") {
				o.VSA = SimpleVSA{}
			}
			n := rapid.IntRange(1, min(o.Buffer, 9000)).Draw(c.T, "events")
			cells := rapid.SampledFrom([]int{1, 3, 65, 300, 5000}).Draw(c.T, "cells")
			mul := rapid.Uint64().Draw(c.T, "multiplier")
			start := rapid.Uint64().Draw(c.T, "start")
			flushes := rapid.IntRange(0, 4).Draw(c.T, "flushes")
			stop := flushes == 0 || rapid.Bool().Draw(c.T, "stop")
			c.Logf("shards=%d order=%d buffer=%d compress=%v: %d events over %d cells (%x + i*%x), then %d flushes, stop %v", o.Shards, o.OrderPow2, o.Buffer, o.VSA != nil, n, cells, start, mul, flushes, stop)
			held := rapid.SampledFrom([]time.Duration{0, 0, 3 * time.Second, time.Minute, time.Hour}).Draw(c.T, "held")
			c.Logf("the sink is held up for %v", held)
			// everything is drawn; from here on goroutines of the pipeline are running
			p := NewPipeline(o)
			p.Start()
			stopped := false
			defer func() {
				if !stopped {
					p.Stop()
				}
			}()
			hold := make(chan struct{})
			sink.hold = hold
			want := map[vfCell]int64{{1, 1}: 1}
			p.Handle(vfSEnv(vfCell{1, 1}, 1, 1), nil)
			go p.FlushS()
			kit.Settle() // the lane is now busy with that flush
			for i := 0; i < n; i++ {
				cl := vfCell{uint64(i%cells) % 17, start + uint64(i%cells)*mul}
				d := int64(i%11) - 4
				p.Handle(vfSEnv(cl, d, uint64(i)), nil)
				want[cl] += d
			}
			var wg sync.WaitGroup
			var mu sync.Mutex
			problem := ""
			wait := func(what string, f func()) {
				wg.Add(1)
				go func() {
					defer wg.Done()
					f()
					for cl, w := range want {
						if got := sink.at(cl); got != w {
							mu.Lock()
							problem = fmt.Sprintf("%s, the sink has %d for cell %x, accepted %d", what, got, cl, w)
							mu.Unlock()
						}
					}
				}()
			}
			for i := 0; i < flushes; i++ {
				wait("after a flush", p.FlushS)
			}
			what := "after a flush"
			if stop {
				stopped = true
				what = "after Stop"
				wait("after Stop", p.Stop)
				if flushes > 0 {
					what = "after a flush met by Stop"
				}
			}
			kit.Settle()
			time.Sleep(min(held, 2000*o.FlushInterval))
			close(hold)
			wg.Wait()
			if problem != "" {
				c.Failf("%s", problem)
			}
			for cl, w := range want {
				if got := sink.at(cl); got != w {
					c.Failf("%s, the sink has %d for cell %x, accepted %d", what, got, cl, w)
				}
			}
			for cl := range sink.net {
				if _, ok := want[cl]; !ok {
					c.Failf("%s, the sink has got a batch for the unknown cell %x", what, cl)
				}
			}
			sink.intact(c)
			c.NT(what)
		})
	})
}

// Traffic that never pauses: an event still reaches the sink through the periodic flush,
// whatever else is waiting in the buffer. In real time; a flush is due within milliseconds and
// gets twenty seconds.
func TestC25Steady(t *testing.T) {
	kit.Run(t, 4, 30, func(c *kit.Case) {
		sink := &vfRecSink{net: map[vfCell]int64{}, seq: map[vfCell]uint64{}}
		o := PipelineOptions{
			Shards:        rapid.IntRange(1, 8).Draw(c.T, "shards"),
			OrderPow2:     4,
			CountThresh:   rapid.SampledFrom([]int{1, 64}).Draw(c.T, "threshold"),
			TimeCap:       time.Hour,
			FlushInterval: rapid.SampledFrom([]time.Duration{2 * time.Millisecond, 10 * time.Millisecond, 100 * time.Millisecond}).Draw(c.T, "interval"),
			Buffer:        rapid.SampledFrom([]int{64, 1024, 4096}).Draw(c.T, "buffer"),
			VSA:           SimpleVSA{},
			SSink:         sink,
		}
		np := rapid.IntRange(3, 6).Draw(c.T, "producers")
		c.Logf("shards=%d interval=%v buffer=%d, %d producers without a pause", o.Shards, o.FlushInterval, o.Buffer, np)
		p := NewPipeline(o)
		p.Start()
		defer p.Stop()
		var quit atomic.Bool
		var wg sync.WaitGroup
		sent := make([]int64, np)
		for i := 0; i < np; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := uint64(1); !quit.Load(); j++ {
					p.Handle(vfSEnv(vfCell{uint64(i), j % 7}, 1, j), nil)
					sent[i]++
				}
			}()
		}
		time.Sleep(5 * time.Millisecond)
		for round := 0; round < 3; round++ {
			cl := vfCell{99, uint64(round)}
			p.Handle(vfSEnv(cl, 5, 1), nil)
			for from := time.Now(); sink.at(cl) != 5; time.Sleep(time.Millisecond) {
				if time.Since(from) > 20*time.Second {
					quit.Store(true)
					wg.Wait()
					c.Failf("an event handed in while %d producers go on was not delivered within 20 s, the flush interval is %v", np, o.FlushInterval)
				}
			}
		}
		quit.Store(true)
		wg.Wait()
		p.FlushS()
		for i, n := range sent {
			got := int64(0)
			for j := uint64(0); j < 7; j++ {
				got += sink.at(vfCell{uint64(i), j})
			}
			if got != n {
				c.Failf("%d delivered for producer %d, it handed in %d", got, i, n)
			}
		}
		c.NT("periodic flush under steady traffic")
	})
}

// Stop with a full buffer, in real time: whatever the lane has to do while it stops (take what
// waits, let a tick or a pending flush pass) takes time of its own, which the fake clock of the
// other tests does not show.
func TestC25StopFull(t *testing.T) {
	kit.Run(t, 400, 6000, func(c *kit.Case) {
		sink := &vfRecSink{net: map[vfCell]int64{}, seq: map[vfCell]uint64{}, held: make(chan struct{})}
		o := PipelineOptions{
			Shards:        rapid.SampledFrom([]int{1, 3, 16}).Draw(c.T, "shards"),
			OrderPow2:     rapid.IntRange(1, 6).Draw(c.T, "order"),
			CountThresh:   rapid.SampledFrom([]int{1, 16, 1024}).Draw(c.T, "threshold"),
			TimeCap:       rapid.SampledFrom([]time.Duration{10 * time.Microsecond, time.Hour}).Draw(c.T, "cap"),
			FlushInterval: rapid.SampledFrom([]time.Duration{20 * time.Microsecond, time.Millisecond, time.Hour}).Draw(c.T, "interval"),
			Buffer:        rapid.SampledFrom([]int{2, 64, 1024, 8192}).Draw(c.T, "buffer"),
			SSink:         sink,
		}
		if rapid.Bool().Draw(c.T, "compress") {
			o.VSA = SimpleVSA{}
		}
		n := o.Buffer - rapid.IntRange(0, o.Buffer-1).Draw(c.T, "free")
		if rapid.Bool().Draw(c.T, "full") {
			n = o.Buffer
		}
		flushes := rapid.IntRange(0, 2).Draw(c.T, "flushes")
		pause := rapid.SampledFrom([]time.Duration{0, 50 * time.Microsecond, 2 * time.Millisecond}).Draw(c.T, "pause")
		c.Logf("shards=%d order=%d threshold=%d cap=%v interval=%v buffer=%d compress=%v: %d waiting, %d flushes, Stop after %v", o.Shards, o.OrderPow2, o.CountThresh, o.TimeCap, o.FlushInterval, o.Buffer, o.VSA != nil, n, flushes, pause)
		hold := make(chan struct{})
		sink.hold = hold
		p := NewPipeline(o)
		p.Start()
		want := map[vfCell]int64{{1, 1}: 1}
		p.Handle(vfSEnv(vfCell{1, 1}, 1, 1), nil)
		var wg sync.WaitGroup
		bg := func(f func()) {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		bg(p.FlushS)
		<-sink.held // the lane is busy with the sink from here on
		for i := 0; i < n; i++ {
			cl, d := vfCell{uint64(i % 13), uint64(i % 5)}, int64(i%7)-2
			p.Handle(vfSEnv(cl, d, uint64(i)), nil)
			want[cl] += d
		}
		for i := 0; i < flushes; i++ {
			bg(p.FlushS)
		}
		bg(p.Stop)
		time.Sleep(pause)
		close(hold)
		wg.Wait()
		for cl, w := range want {
			if got := sink.at(cl); got != w {
				c.Failf("after Stop, the sink has %d for cell %x, accepted %d", got, cl, w)
			}
		}
		sink.intact(c)
		c.NT("stopped with a backlog")
	})
}

// The sink stands still for a long time while the ingest buffer is full: whoever hands in an
// event waits, however long that takes, and no event is given up.
func TestC25Stall(t *testing.T) {
	kit.Run(t, 2000, 20000, func(c *kit.Case) {
		kit.Bubble(func() {
			sink := &vfRecSink{net: map[vfCell]int64{}, seq: map[vfCell]uint64{}}
			o := PipelineOptions{
				Shards:        rapid.IntRange(1, 4).Draw(c.T, "shards"),
				OrderPow2:     rapid.IntRange(1, 6).Draw(c.T, "order"),
				CountThresh:   rapid.SampledFrom([]int{1, 4, 1024}).Draw(c.T, "threshold"),
				TimeCap:       rapid.SampledFrom([]time.Duration{time.Millisecond, time.Hour}).Draw(c.T, "cap"),
				FlushInterval: rapid.SampledFrom([]time.Duration{10 * time.Millisecond, time.Minute, time.Hour}).Draw(c.T, "interval"),
				Buffer:        rapid.IntRange(1, 8).Draw(c.T, "buffer"),
				SSink:         sink,
			}
			producers := rapid.IntRange(1, 5).Draw(c.T, "producers")
			each := rapid.IntRange(1, 12).Draw(c.T, "each")
			held := rapid.SampledFrom([]time.Duration{0, 2 * time.Second, 2 * time.Minute, 10 * time.Hour}).Draw(c.T, "held")
			c.Logf("shards=%d order=%d threshold=%d cap=%v interval=%v buffer=%d: %d producers of %d events, the sink is held up for %v", o.Shards, o.OrderPow2, o.CountThresh, o.TimeCap, o.FlushInterval, o.Buffer, producers, each, held)
			stop := rapid.Bool().Draw(c.T, "stop")
			p := NewPipeline(o)
			p.Start()
			hold := make(chan struct{})
			sink.hold = hold
			p.Handle(vfSEnv(vfCell{1, 1}, 1, 1), nil)
			go p.FlushS()
			kit.Settle() // the lane is now busy with that flush
			want := map[vfCell]int64{{1, 1}: 1}
			var wg sync.WaitGroup
			for i := 0; i < producers; i++ {
				for j := 0; j < each; j++ {
					want[vfCell{uint64(i), uint64(j % 3)}] += int64(1 + j)
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < each; j++ {
						p.Handle(vfSEnv(vfCell{uint64(i), uint64(j % 3)}, int64(1+j), uint64(j)), nil)
					}
				}()
			}
			kit.Settle()
			time.Sleep(min(held, 20000*o.FlushInterval))
			close(hold)
			wg.Wait()
			if stop {
				p.Stop()
			} else {
				p.FlushS()
				defer p.Stop()
			}
			for cl, w := range want {
				if got := sink.at(cl); got != w {
					c.Failf("the sink has %d for cell %x, accepted %d", got, cl, w)
				}
			}
			sink.intact(c)
			if producers*each > o.Buffer && held > 0 {
				c.NT("producers waited")
			}
		})
	})
}
