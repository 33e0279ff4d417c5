package verifpersist_test

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	kit "vsa/internal/verifkit"
)

// fakeRedis is a single-threaded store with expiry on a clock the test moves.
type fakeRedis struct {
	now  time.Duration
	data map[string]*rent
	log  []string
}
type rent struct {
	hash map[string]string
	str  string
	isH  bool
	set  map[string]bool
	exp  time.Duration // 0: none
}

func newFakeRedis() *fakeRedis { return &fakeRedis{data: map[string]*rent{}, now: time.Hour} }

var errType = errors.New("WRONGTYPE Operation against a key holding the wrong kind of value")
var errInt = errors.New("ERR value is not an integer or out of range")

// strictInt is Redis' string2ll.
func strictInt(s string) (int64, error) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != s {
		return 0, errInt
	}
	return n, nil
}

func (f *fakeRedis) get(k string) *rent {
	e := f.data[k]
	if e != nil && e.exp != 0 && f.now >= e.exp {
		delete(f.data, k)
		return nil
	}
	return e
}

var okReply = &ltable{m: map[string]lval{"ok": "OK"}}

func (f *fakeRedis) call(a []string) (lval, error) {
	if len(a) == 0 {
		return nil, errors.New("ERR no command")
	}
	cmd := strings.ToUpper(a[0])
	f.log = append(f.log, strings.Join(a, " "))
	need := func(n int) bool { return len(a) == n }
	arity := fmt.Errorf("ERR wrong number of arguments for '%s' command", cmd)
	switch cmd {
	case "SETNX":
		if !need(3) {
			return nil, arity
		}
		if f.get(a[1]) != nil {
			return 0.0, nil
		}
		f.data[a[1]] = &rent{str: a[2]}
		return 1.0, nil
	case "SET":
		if len(a) < 3 {
			return nil, arity
		}
		var nx, xx, keep bool
		var ex time.Duration
		for i := 3; i < len(a); i++ {
			switch strings.ToUpper(a[i]) {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "KEEPTTL":
				keep = true
			case "EX", "PX":
				if i+1 >= len(a) {
					return nil, errors.New("ERR syntax error")
				}
				n, err := strictInt(a[i+1])
				if err != nil {
					return nil, err
				}
				if n <= 0 {
					return nil, errors.New("ERR invalid expire time in 'set' command")
				}
				ex = time.Duration(n) * time.Second
				if strings.ToUpper(a[i]) == "PX" {
					ex = time.Duration(n) * time.Millisecond
				}
				i++
			default:
				return nil, errors.New("ERR syntax error")
			}
		}
		old := f.get(a[1])
		if nx && old != nil || xx && old == nil {
			return false, nil
		}
		e := &rent{str: a[2]}
		if ex > 0 {
			e.exp = f.now + ex
		} else if keep && old != nil {
			e.exp = old.exp
		}
		f.data[a[1]] = e
		return okReply, nil
	case "GET":
		if !need(2) {
			return nil, arity
		}
		e := f.get(a[1])
		if e == nil {
			return false, nil
		}
		if e.isH || e.set != nil {
			return nil, errType
		}
		return e.str, nil
	case "EXISTS":
		n := 0.0
		for _, k := range a[1:] {
			if f.get(k) != nil {
				n++
			}
		}
		return n, nil
	case "DEL", "UNLINK":
		n := 0.0
		for _, k := range a[1:] {
			if f.get(k) != nil {
				delete(f.data, k)
				n++
			}
		}
		return n, nil
	case "HINCRBY":
		if !need(4) {
			return nil, arity
		}
		d, err := strictInt(a[3])
		if err != nil {
			return nil, err
		}
		e := f.get(a[1])
		if e == nil {
			e = &rent{isH: true, hash: map[string]string{}}
			f.data[a[1]] = e
		}
		if !e.isH {
			return nil, errType
		}
		cur := int64(0)
		if s, ok := e.hash[a[2]]; ok {
			if cur, err = strictInt(s); err != nil {
				return nil, errors.New("ERR hash value is not an integer")
			}
		}
		e.hash[a[2]] = strconv.FormatInt(cur+d, 10)
		return float64(cur + d), nil
	case "HINCRBYFLOAT":
		if !need(4) {
			return nil, arity
		}
		d, err := strconv.ParseFloat(a[3], 64)
		if err != nil {
			return nil, errors.New("ERR value is not a valid float")
		}
		e := f.get(a[1])
		if e == nil {
			e = &rent{isH: true, hash: map[string]string{}}
			f.data[a[1]] = e
		}
		if !e.isH {
			return nil, errType
		}
		cur := 0.0
		if s, ok := e.hash[a[2]]; ok {
			if cur, err = strconv.ParseFloat(s, 64); err != nil {
				return nil, errors.New("ERR hash value is not a float")
			}
		}
		e.hash[a[2]] = strconv.FormatFloat(cur+d, 'f', -1, 64)
		return e.hash[a[2]], nil
	case "HEXISTS":
		if !need(3) {
			return nil, arity
		}
		e := f.get(a[1])
		if e == nil {
			return 0.0, nil
		}
		if !e.isH {
			return nil, errType
		}
		if _, ok := e.hash[a[2]]; ok {
			return 1.0, nil
		}
		return 0.0, nil
	case "SETEX", "PSETEX":
		if !need(4) {
			return nil, arity
		}
		n, err := strictInt(a[2])
		if err != nil {
			return nil, err
		}
		if n <= 0 {
			return nil, errors.New("ERR invalid expire time")
		}
		u := time.Second
		if cmd == "PSETEX" {
			u = time.Millisecond
		}
		f.data[a[1]] = &rent{str: a[3], exp: f.now + time.Duration(n)*u}
		return okReply, nil
	case "HSET":
		if len(a) < 4 || len(a)%2 != 0 {
			return nil, arity
		}
		e := f.get(a[1])
		if e == nil {
			e = &rent{isH: true, hash: map[string]string{}}
			f.data[a[1]] = e
		}
		if !e.isH {
			return nil, errType
		}
		n := 0.0
		for i := 2; i < len(a); i += 2 {
			if _, ok := e.hash[a[i]]; !ok {
				n++
			}
			e.hash[a[i]] = a[i+1]
		}
		return n, nil
	case "HGET":
		if !need(3) {
			return nil, arity
		}
		e := f.get(a[1])
		if e == nil {
			return false, nil
		}
		if !e.isH {
			return nil, errType
		}
		if s, ok := e.hash[a[2]]; ok {
			return s, nil
		}
		return false, nil
	case "EXPIRE", "PEXPIRE":
		if len(a) < 3 {
			return nil, arity
		}
		if len(a) > 3 {
			kit.Broken("fake redis: %v", a)
		}
		n, err := strictInt(a[2])
		if err != nil {
			return nil, err
		}
		e := f.get(a[1])
		if e == nil {
			return 0.0, nil
		}
		if n <= 0 {
			delete(f.data, a[1])
			return 1.0, nil
		}
		u := time.Second
		if cmd == "PEXPIRE" {
			u = time.Millisecond
		}
		e.exp = f.now + time.Duration(n)*u
		return 1.0, nil
	case "TTL", "PTTL":
		e := f.get(a[1])
		if e == nil {
			return -2.0, nil
		}
		if e.exp == 0 {
			return -1.0, nil
		}
		if cmd == "PTTL" {
			return float64((e.exp - f.now) / time.Millisecond), nil
		}
		return float64((e.exp - f.now + 500*time.Millisecond) / time.Second), nil
	case "PING":
		return &ltable{m: map[string]lval{"ok": "PONG"}}, nil
	}
	kit.Broken("fake redis: unknown command %v", a)
	return nil, nil
}

func (f *fakeRedis) eval(script string, keys, argv []string) (lval, error) {
	return luaRun(script, keys, argv, f.call)
}

// scalar is the stored counter of a key.
func (f *fakeRedis) scalar(counterKey string) int64 {
	e := f.get(counterKey)
	if e == nil {
		return 0
	}
	n, err := strictInt(e.hash["scalar"])
	if err != nil {
		return 1 << 62
	}
	return n
}
