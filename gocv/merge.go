package main

import (
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// Joining of the outcomes of a call: a fresh choice selects between two outcomes, and each
// variable that differs becomes a conditional value. Nothing is lost and nothing is added.

func mergeVal(x *Exec, c *Term, a, b Val) (Val, bool) {
	if a == nil || b == nil {
		return nil, a == nil && b == nil
	}
	if sameVal(a, b) {
		return a, true
	}
	switch p := a.(type) {
	case *TermV, *IfaceV:
		switch b.(type) {
		case *TermV, *IfaceV:
		default:
			return nil, false
		}
		s, t := x.term(a), x.term(b)
		if s.Sort != t.Sort {
			return nil, false
		}
		return tv(Ite(c, s, t)), true
	case *RVal:
		q, ok := b.(*RVal)
		if !ok || p.K != "val" || q.K != "val" {
			return nil, false
		}
		return &RVal{K: "val", T: Ite(c, p.T, q.T)}, true
	case *SliceV:
		q, ok := b.(*SliceV)
		if !ok || p.Obj != q.Obj {
			return nil, false
		}
		return &SliceV{Obj: p.Obj, Off: Ite(c, p.Off, q.Off), Len: Ite(c, p.Len, q.Len)}, true
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(p.F) != len(q.F) {
			return nil, false
		}
		n := &StructV{}
		for i := range p.F {
			v, ok := mergeVal(x, c, p.F[i], q.F[i])
			if !ok {
				return nil, false
			}
			n.F = append(n.F, v)
		}
		return n, true
	case *ArrayV:
		q, ok := b.(*ArrayV)
		if !ok || len(p.E) != len(q.E) {
			return nil, false
		}
		n := &ArrayV{}
		for i := range p.E {
			v, ok := mergeVal(x, c, p.E[i], q.E[i])
			if !ok {
				return nil, false
			}
			n.E = append(n.E, v)
		}
		return n, true
	}
	return nil, false
}

func mergeOut(x *Exec, a, b Outcome) (Outcome, bool) {
	no := Outcome{}
	if a.Kind != ORet || b.Kind != ORet || len(a.Ret) != len(b.Ret) || a.St.task != b.St.task || len(a.St.pend) != len(b.St.pend) ||
		len(a.St.log.events) != len(b.St.log.events) || !reflect.DeepEqual(a.St.ext, b.St.ext) || !reflect.DeepEqual(a.St.g, b.St.g) {
		return no, false
	}
	for i := range a.St.pend {
		if a.St.pend[i] != b.St.pend[i] {
			return no, false
		}
	}
	for i := range a.St.log.events {
		if a.St.log.events[i] != b.St.log.events[i] {
			return no, false
		}
	}
	p, q := a.St.pc, b.St.pc
	k := 0
	for k < len(p) && k < len(q) && Same(p[k], q[k]) {
		k++
	}
	if len(p)-k > 40 || len(q)-k > 40 {
		return no, false
	}
	c := Fresh("join", SBool)
	n := a.St.clone()
	n.pc = append([]*Term(nil), p[:k]...)
	n.assume(Implies(c, And(p[k:]...)))
	n.assume(Implies(Not(c), And(q[k:]...)))
	for o, v := range b.St.heap {
		w, ok := a.St.heap[o]
		if !ok {
			n.heap[o] = v
			continue
		}
		m, ok := mergeVal(x, c, w, v)
		if !ok {
			return no, false
		}
		n.heap[o] = m
	}
	for o := range b.St.log.reads {
		n.log.reads[o] = true
	}
	for o := range b.St.log.writes {
		n.log.writes[o] = true
	}
	r := Outcome{St: n, Kind: ORet}
	for i := range a.Ret {
		v, ok := mergeVal(x, c, a.Ret[i], b.Ret[i])
		if !ok {
			return no, false
		}
		r.Ret = append(r.Ret, v)
	}
	return r, true
}

// merged joins the outcomes of a call as far as possible.
func (x *Exec) merged(outs []Outcome) []Outcome {
	var res []Outcome
next:
	for _, o := range outs {
		for i := range res {
			if m, ok := mergeOut(x, res[i], o); ok {
				res[i] = m
				continue next
			}
		}
		res = append(res, o)
	}
	return res
}

func (x *Exec) runMerged(st *State, fn *ssa.Function, args []Val) []Outcome {
	return x.merged(x.runFn(st, fn, nil, args, nil))
}
