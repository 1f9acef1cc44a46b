//go:build go1.21

package zzmc

import "fmt"

// LinOp is one operation of a concurrent history.
type LinOp struct {
	Name      string
	In, Out   interface{}
	Call, Ret int // positions in the global order; Ret < 0: still pending
}

func (o *LinOp) String() string {
	return fmt.Sprintf("%s(%v)=%v[%d,%d]", o.Name, o.In, o.Out, o.Call, o.Ret)
}

// History records operations of an execution.
type History struct {
	e   *exec
	Ops []*LinOp
	seq int
}

// Begin records the call of an operation.
func (h *History) Begin(name string, in interface{}) *LinOp {
	point("call " + name)
	if h.e != x {
		h.e, h.Ops, h.seq = x, nil, 0
	}
	op := &LinOp{Name: name, In: in, Ret: -1}
	if x == nil || x.aborting {
		return op
	}
	x.logobj.wr(mix(0x91, hashStr(name)))
	tracef("call %s %v", name, in)
	op.Call = h.seq
	h.seq++
	h.Ops = append(h.Ops, op)
	return op
}

// End records its return.
func (h *History) End(op *LinOp, out interface{}) {
	if x == nil || x.aborting || h.e != x {
		return
	}
	x.logobj.wr(mix(0x92, hashStr(op.Name)))
	op.Out = out
	op.Ret = h.seq
	h.seq++
	tracef("return %s %v = %v", op.Name, op.In, out)
}

// Current returns the operations recorded on this execution.
func (h *History) Current() []*LinOp {
	if h.e != x {
		return nil
	}
	return h.Ops
}

// Linearize looks for a sequential order of ops that respects their real-time
// order and is accepted by step; pending operations may take effect or not.
// final, if given, must accept the resulting state.
func Linearize(ops []*LinOp, init interface{}, step func(st interface{}, op *LinOp) (bool, interface{}), final func(st interface{}) bool) bool {
	n := len(ops)
	if n > 60 {
		panic("history too long")
	}
	seen := map[string]bool{}
	var rec func(done uint64, st interface{}) bool
	rec = func(done uint64, st interface{}) bool {
		key := fmt.Sprint(done, "|", st)
		if seen[key] {
			return false
		}
		seen[key] = true
		all := true
		minRet := int(^uint(0) >> 1)
		for i, o := range ops {
			if done&(1<<uint(i)) == 0 && o.Ret >= 0 {
				all = false
				if o.Ret < minRet {
					minRet = o.Ret
				}
			}
		}
		if all && (final == nil || final(st)) {
			return true
		}
		for i, o := range ops {
			if done&(1<<uint(i)) != 0 || o.Call > minRet {
				continue
			}
			if ok, ns := step(st, o); ok && rec(done|1<<uint(i), ns) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

// HistoryString renders a history.
func HistoryString(ops []*LinOp) string {
	s := ""
	for _, o := range ops {
		s += o.String() + " "
	}
	return s
}
