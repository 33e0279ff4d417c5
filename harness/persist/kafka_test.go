package verifpersist_test

// C17: messages produced by the Kafka adapter, and a consumer that ignores repeats.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"math"
	"testing"
	"unicode/utf8"

	"pgregory.net/rapid"
	ps "vsa/internal/ratelimiter/persistence"
	kit "vsa/internal/verifkit"
)

type kmsg struct {
	topic, key string
	value      []byte
	// what the producer was given, which it may send later
	rawKey, rawValue []byte
	headers, rawHdr  map[string]string
}

// broker appends messages; plan[i]: 0 ok, 1 refused, 2 appended but reported as failed.
type broker struct {
	log     []kmsg
	plan    []int
	n       int
	failed  bool
	after   int // calls after a reported failure
	lastErr error
	err     error
	// the caller's context is done from the cancelAt-th call on
	cancel   func()
	cancelAt int
}

func (b *broker) Produce(ctx context.Context, topic string, key, value []byte, headers map[string]string) error {
	if b.failed {
		b.after++
	}
	if err := ctx.Err(); err != nil {
		b.failed = true
		return err
	}
	mode := 0
	if b.n < len(b.plan) {
		mode = b.plan[b.n]
	}
	b.n++
	if b.n == b.cancelAt {
		b.cancel()
	}
	if mode != 1 {
		b.log = append(b.log, kmsg{topic, string(key), append([]byte(nil), value...), key, value, maps.Clone(headers), headers})
	}
	if mode != 0 {
		b.failed = true
		b.lastErr = b.err
		return b.lastErr
	}
	return nil
}

type decoded struct {
	key, id string
	v       int64
	tok     *int64
}

func decodeMsg(m kmsg) (d decoded, err error) {
	dec := json.NewDecoder(bytes.NewReader(m.value))
	dec.UseNumber()
	var raw map[string]any
	if err := dec.Decode(&raw); err != nil {
		return d, fmt.Errorf("payload %q: %v", m.value, err)
	}
	str := func(n string) string {
		s, ok := raw[n].(string)
		if !ok && err == nil {
			err = fmt.Errorf("payload %q lacks %s", m.value, n)
		}
		return s
	}
	num := func(n string) int64 {
		x, ok := raw[n].(json.Number)
		if !ok {
			err = fmt.Errorf("payload %q lacks %s", m.value, n)
			return 0
		}
		i, e := x.Int64()
		if e != nil {
			err = e
		}
		return i
	}
	d.key, d.id, d.v = str("key"), str("commit_id"), num("vc")
	if t, ok := raw["fencing_token"]; ok && t != nil {
		x := num("fencing_token")
		d.tok = &x
	}
	return d, err
}

func drawUTF8(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 2).Draw(t, label+"?") {
	case 0:
		return rapid.SampledFrom([]string{"a", "", "<script>&", "\u2028\u2029", "\"quoted\\", "\x00\x01\x1f", "日本", "\U0001F600", "a\nb", "\ufffd", "null", "{}", "\x7f"}).Draw(t, label)
	case 1:
		return rapid.StringN(0, 10, 40).Draw(t, label)
	default:
		return fmt.Sprintf("user-%d", rapid.IntRange(0, 3).Draw(t, label))
	}
}

func TestC17Model(t *testing.T) {
	kit.Run(t, 30000, 300000, func(c *kit.Case) {
		br := &broker{err: kit.DrawFault(c.T)}
		topic := rapid.SampledFrom([]string{"vsa-commits", "t", "a.b-c"}).Draw(c.T, "topic")
		p := ps.NewKafkaPersister(br, topic)
		var keys []string
		for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "nkeys"); i < n; i++ {
			k := drawUTF8(c.T, "key")
			if !utf8.ValidString(k) {
				k = "valid"
			}
			keys = append(keys, k)
		}
		type totals map[string]int64
		distinct := map[string]int64{} // per key: sum of distinct commits whose batch was accepted
		acceptedID := map[string]bool{}
		serial := 0
		id := drawIDStyle(c.T)
		var pending [][]ps.CommitEntry
		var accepted [][]ps.CommitEntry
		fails, retries := 0, 0
		send := func(b []ps.CommitEntry, faulty bool) {
			br.plan, br.n, br.failed, br.after, br.lastErr = nil, 0, false, 0, nil
			ctx, cancel := context.WithCancel(context.Background())
			br.cancel, br.cancelAt = func() {}, -1
			if faulty {
				cancel()
				ctx, cancel, br.cancelAt = drawCtx(c.T, len(b))
				br.cancel = cancel
			}
			defer cancel()
			if faulty {
				if at := rapid.IntRange(0, 4).Draw(c.T, "at"); at < len(b) {
					br.plan = make([]int, at+1)
					br.plan[at] = rapid.IntRange(1, 2).Draw(c.T, "fault")
				} else if at == 4 && len(b) > 0 {
					cancel()
				}
			}
			start := len(br.log)
			bad := -1
			for i, e := range b {
				if e.CommitID == "" && bad < 0 {
					bad = i
				}
			}
			var err error
			if len(br.plan) == 0 && br.cancelAt < 0 && rapid.IntRange(0, 9).Draw(c.T, "nilctx") == 0 {
				cancelled := ctx.Err() != nil
				if cancelled {
					err = p.CommitBatch(ctx, b)
				} else {
					err = p.CommitBatch(nil, b) //nolint
				}
			} else {
				err = p.CommitBatch(ctx, b)
			}
			got := br.log[start:]
			c.Logf("{%s} plan %v cancelled %v -> %v, %d messages", showBatch(b), br.plan, ctx.Err() != nil, err, len(got))
			if (br.failed || bad >= 0) && err == nil {
				c.Failf("a failed batch was reported as accepted")
			}
			if br.lastErr != nil && !errors.Is(err, br.lastErr) {
				c.Class("error not wrapped")
			}
			if br.after > 0 {
				c.Failf("publishing went on after a failed publish")
			}
			if !br.failed && bad < 0 && err != nil && ctx.Err() == nil {
				c.Failf("CommitBatch: %v", err)
			}
			if err == nil && len(got) != len(b) {
				c.Failf("%d messages for %d entries", len(got), len(b))
			}
			if len(got) > len(b) || bad >= 0 && len(got) > bad {
				c.Failf("%d messages for {%s}", len(got), showBatch(b))
			}
			for i, m := range got {
				e := b[i]
				if m.topic != topic {
					c.Failf("published to %q instead of %q", m.topic, topic)
				}
				if m.key != e.CommitID {
					c.Failf("message keyed %q for commit %q", m.key, e.CommitID)
				}
				d, derr := decodeMsg(m)
				if derr != nil {
					c.Failf("%v", derr)
				}
				if d.key != e.Key || d.id != e.CommitID || d.v != e.Vector {
					c.Failf("payload %s for key %q vector %d commit %q", m.value, e.Key, e.Vector, e.CommitID)
				}
				if (d.tok == nil) != (e.FencingToken == nil) || d.tok != nil && *d.tok != *e.FencingToken {
					c.Failf("payload %s with the wrong fencing token", m.value)
				}
			}
			if err == nil {
				for _, e := range b {
					if !acceptedID[e.CommitID] {
						acceptedID[e.CommitID] = true
						distinct[e.Key] += e.Vector
					}
				}
				accepted = append(accepted, b)
			} else {
				fails++
				if bad < 0 {
					pending = append(pending, b)
				}
			}
		}
		for i, n := 0, rapid.IntRange(1, 10).Draw(c.T, "steps"); i < n; i++ {
			switch rapid.IntRange(0, 4).Draw(c.T, "op") {
			default:
				var b []ps.CommitEntry
				for j, m := 0, rapid.IntRange(0, 5).Draw(c.T, "rows"); j < m; j++ {
					serial++
					e := ps.CommitEntry{Key: rapid.SampledFrom(keys).Draw(c.T, "k"), CommitID: id(serial)}
					if rapid.Bool().Draw(c.T, "oddid") {
						e.CommitID = fmt.Sprintf("%s#%d", drawUTF8(c.T, "id"), serial)
					}
					if !utf8.ValidString(e.CommitID) {
						e.CommitID = fmt.Sprint(serial)
					}
					if rapid.IntRange(0, 7).Draw(c.T, "big") == 0 {
						e.Vector = rapid.SampledFrom([]int64{0, math.MaxInt64, math.MinInt64, 1<<53 + 1, -(1<<53 + 1)}).Draw(c.T, "v")
					} else {
						e.Vector = rapid.Int64Range(-99, 99).Draw(c.T, "v")
					}
					if rapid.IntRange(0, 2).Draw(c.T, "tok?") == 0 {
						tk := rapid.SampledFrom([]int64{0, 1, -1, 7, math.MaxInt64, math.MinInt64, 1<<53 + 1}).Draw(c.T, "tok")
						e.FencingToken = &tk
					}
					if rapid.IntRange(0, 24).Draw(c.T, "noid") == 0 {
						e.CommitID = ""
					}
					b = append(b, e)
				}
				for n := drawBulk(c.T, 1200); len(b) < n; {
					serial++
					b = append(b, ps.CommitEntry{Key: keys[serial%len(keys)], Vector: int64(serial%3 + 1), CommitID: id(serial)})
					c.Class("large batch")
				}
				send(b, rapid.IntRange(0, 2).Draw(c.T, "faulty") == 0)
			case 2, 3:
				if len(pending) > 0 {
					b := pending[0]
					pending = pending[1:]
					retries++
					send(b, rapid.IntRange(0, 2).Draw(c.T, "faulty") == 0)
				}
			case 4:
				if len(accepted) > 0 {
					send(accepted[rapid.IntRange(0, len(accepted)-1).Draw(c.T, "which")], false)
				}
			}
		}
		for len(pending) > 0 {
			b := pending[0]
			pending = pending[1:]
			send(b, false)
		}
		for _, m := range br.log {
			if string(m.rawKey) != m.key || !bytes.Equal(m.rawValue, m.value) || !maps.Equal(m.headers, m.rawHdr) {
				c.Failf("the message %s with key %q, handed to the producer, has become %s with key %q since", m.value, m.key, m.rawValue, m.rawKey)
			}
		}
		// the consumer
		seen := map[string]bool{}
		sum := totals{}
		for _, m := range br.log {
			d, _ := decodeMsg(m)
			if seen[m.key] {
				continue
			}
			seen[m.key] = true
			if !acceptedID[d.id] {
				continue // left over from a batch with a bad entry
			}
			sum[d.key] += d.v
		}
		for _, k := range keys {
			if sum[k] != distinct[k] {
				c.Failf("a consumer that ignores repeats reaches %d for key %q, the distinct commits add up to %d", sum[k], k, distinct[k])
			}
		}
		if fails > 0 && retries > 0 && len(seen) > 1 {
			c.NT()
		}
	})
}

// TestC17KnownUTF8: the known finding. Keys that are not valid UTF-8 (which the API accepts)
// do not survive the JSON payload.
func TestC17KnownUTF8(t *testing.T) {
	m := kit.NewManual(t)
	for _, key := range []string{"\xff", "a\xfeb", "\xc3"} {
		br := &broker{}
		err := ps.NewKafkaPersister(br, "t").CommitBatch(context.Background(), []ps.CommitEntry{{Key: key, Vector: 1, CommitID: "id"}})
		m.Case(false, fmt.Sprintf("key %q", key))
		if err != nil || len(br.log) == 0 {
			continue // refused: nothing wrong was published
		}
		d, derr := decodeMsg(br.log[0])
		if derr != nil {
			kit.Fail(t, "%v", derr)
		}
		if d.key == key {
			continue
		}
		if d.key == string([]rune(key)) {
			kit.Known("C17", "non-utf8-key", "keys that are not valid UTF-8 arrive at the consumer with the invalid bytes replaced by U+FFFD (kafka.go CommitBatch, JSON payload)")
			continue
		}
		kit.Fail(t, "key %q arrives as %q", key, d.key)
	}
}
