package verifsched_test

import (
	"fmt"

	"vsa"
)

// op is one operation of a concurrent program on an accumulator.
type vfOp struct {
	kind string // consume refund commit state avail check update commitRead
	arg  int64
}

func (o vfOp) String() string {
	switch o.kind {
	case "state", "avail", "commitRead":
		return o.kind
	}
	return fmt.Sprintf("%s(%d)", o.kind, o.arg)
}

// event is one executed operation with its result.
type vfEvent struct {
	task      int
	op        vfOp
	call, ret int
	ok        bool
	a, b      int64
}

func (e vfEvent) String() string {
	s := fmt.Sprintf("t%d[%d,%d] %v", e.task, e.call, e.ret, e.op)
	switch e.op.kind {
	case "consume", "refund":
		s += fmt.Sprintf("=%v", e.ok)
	case "state":
		s += fmt.Sprintf("=(%d,%d)", e.a, e.b)
	case "avail":
		s += fmt.Sprintf("=%d", e.a)
	case "check":
		s += fmt.Sprintf("=(%v,%d)", e.ok, e.a)
	}
	return s
}

func vfExec(v *vsa.VSA, o vfOp) (e vfEvent) {
	e.op = o
	switch o.kind {
	case "consume":
		e.ok = v.TryConsume(o.arg)
	case "refund":
		e.ok = v.TryRefund(o.arg)
	case "commit":
		v.Commit(o.arg)
	case "update":
		v.Update(o.arg)
	case "state":
		e.a, e.b = v.State()
	case "avail":
		e.a = v.Available()
	case "check":
		e.ok, e.a = v.CheckCommit(o.arg)
	}
	return e
}

type vfMstate struct{ s, net int64 }

func vfAbs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// apply runs e on the model; ok=false if e's result is impossible in this state.
func vfApply(st vfMstate, e vfEvent, freeDenial bool) (vfMstate, bool) {
	avail := st.s - vfAbs(st.net)
	switch e.op.kind {
	case "consume":
		if e.ok {
			if e.op.arg <= 0 || avail < e.op.arg {
				return st, false
			}
			st.net += e.op.arg
			return st, true
		}
		return st, freeDenial || e.op.arg <= 0 || avail < e.op.arg
	case "refund":
		can := e.op.arg > 0 && st.net > 0
		if e.ok != can {
			return st, false
		}
		if can {
			n := e.op.arg
			if n > st.net {
				n = st.net
			}
			st.net -= n
		}
		return st, true
	case "commit":
		if e.op.arg == 0 || st.net == 0 {
			return st, true
		}
		mag := vfAbs(e.op.arg)
		if mag > vfAbs(st.net) {
			mag = vfAbs(st.net)
		}
		st.s -= mag
		if st.net > 0 {
			st.net -= mag
		} else {
			st.net += mag
		}
		return st, true
	case "update":
		st.net += e.op.arg
		return st, true
	case "state":
		return st, e.a == st.s && e.b == st.net
	case "avail":
		return st, e.a == avail
	case "check":
		if e.ok != (vfAbs(st.net) >= e.op.arg) {
			return st, false
		}
		return st, !e.ok || e.a == st.net
	}
	panic("unknown op " + e.op.kind)
}

// linearizable searches for a sequential order of the events that respects real time and
// explains every result.
func vfLinearizable(init vfMstate, ev []vfEvent, freeDenial bool) bool {
	type key struct {
		mask uint32
		st   vfMstate
	}
	dead := map[key]bool{}
	full := uint32(1)<<len(ev) - 1
	var dfs func(mask uint32, st vfMstate) bool
	dfs = func(mask uint32, st vfMstate) bool {
		if mask == full {
			return true
		}
		k := key{mask, st}
		if dead[k] {
			return false
		}
		// the earliest return among the events not yet placed bounds the candidates
		first := int(^uint(0) >> 1)
		for i, e := range ev {
			if mask&(1<<i) == 0 && e.ret < first {
				first = e.ret
			}
		}
		for i, e := range ev {
			if mask&(1<<i) != 0 || e.call > first {
				continue
			}
			if st2, ok := vfApply(st, e, freeDenial); ok && dfs(mask|1<<i, st2) {
				return true
			}
		}
		dead[k] = true
		return false
	}
	return dfs(0, init)
}
