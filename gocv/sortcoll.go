package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Theory of the sorting functions. A collection is an array of elements (integers), ordered by an
// integer key; a finite collection with a strict weak order embeds into the integers this way.
//
// Stable sorting: the elements are numbered by their position in the stably sorted collection, so
// key is monotone, and "stably sorted" is "strictly increasing".

// CollV is a collection implemented by the user of the library.
type CollV struct{ Obj *Obj }

// assignV is the function returned by Assign.
type assignV struct{ dst, src *Obj }

// sacc is an access to the elements [lo,hi) of a collection.
type sacc struct {
	o      *Obj
	lo, hi *Term
	w      bool
}

type sortExt struct {
	foot      []sacc
	task      int
	returning bool
	left      bool // goroutines that access the collection may be running still
}

func (e *sortExt) clone() Ext {
	return &sortExt{append([]sacc(nil), e.foot...), e.task, e.returning, e.left}
}

func (e *sortExt) onFork() {}

func so(st *State) *sortExt { return st.ext.(*sortExt) }

// sspec is an instance of the contract of a sorting, merging or testing function.
type sspec struct {
	kind     string // "sort", "merge", "test"
	env      map[string]*Term
	src, dst *Obj // merge
	foot     []sacc
	entry    map[*Obj]*Term
	M        string // membership predicate
}

type sortTheory struct {
	NoTheory
	kind                   string // "sort", "stable", "test", "method"
	data                   *Obj
	temp                   *Obj
	N                      *Term
	dataV                  *CollV
	tempV                  *CollV
	spec                   *sspec
	done                   []*schemaDone
	outerPC                []*Term
	bad                    *Term // the collection is not sorted (kind "test")
	atomics                map[*Obj]bool
	elem                   string // sort of the elements (kind "method")
	calls                  *[]sortCall
	copySpec, copySpecDown func(st *State, n *Term) *Term
	asked                  func(x *Exec, st *State, v Val, pos token.Pos) *Term
}

type schemaDone struct {
	fn   *ssa.Function
	fv   *FnV
	args []Val
	mp   *mapping
	pend []*Task
	pc   []*Term
	obls []*Obl
}

const arrII = "(Array Int Int)"

func skey(e *Term) *Term       { return UF1("skey", SInt, e) }
func sel(a, i *Term) *Term     { return Select(a, i, SInt) }
func in(lo, x, hi *Term) *Term { return And(Le(lo, x), Lt(x, hi)) }

// forallRange is "for all x in [lo,hi): body(x)", triggered by the elements pats(x).
func forall1(body func(v *Term) *Term, pats func(v *Term) []*Term) *Term {
	v := BV("x?1")
	return Forall([]string{"x?1"}, body(v), pats(v)...)
}

func forall2(body func(v, w *Term) *Term, pats func(v, w *Term) []*Term) *Term {
	v, w := BV("x?1"), BV("x?2")
	return Forall([]string{"x?1", "x?2"}, body(v, w), pats(v, w)...)
}

// qf is a quantified fact over up to two integers: assumed as a quantifier, proved with Skolem constants.
type qf struct {
	n    int
	body func(v, w *Term) *Term
	pats func(v, w *Term) []*Term
}

func (q *qf) assume() *Term {
	if q.n == 0 {
		return q.body(nil, nil)
	}
	if q.n == 1 {
		return forall1(func(v *Term) *Term { return q.body(v, nil) }, func(v *Term) []*Term { return q.pats(v, nil) })
	}
	return forall2(q.body, q.pats)
}

func (q *qf) goal() *Term {
	if q.n == 0 {
		return q.body(nil, nil)
	}
	v := Fresh("sk", SInt)
	var w *Term
	if q.n == 2 {
		w = Fresh("sk", SInt)
	}
	return q.body(v, w)
}

func (x *Exec) provesQ(st *State, q *qf) bool { return x.proves(st, q.goal()) }

// keyRange: for all i in [lo,hi): key(a[i]) R key(a[p]).
func keyRange(a, lo, hi, p *Term, rel string) *qf {
	return &qf{1, func(v, _ *Term) *Term {
		k, q := skey(sel(a, v)), skey(sel(a, p))
		var r *Term
		switch rel {
		case "<=":
			r = Le(k, q)
		case "<":
			r = Lt(k, q)
		case ">=":
			r = Ge(k, q)
		default:
			r = Gt(k, q)
		}
		return Implies(in(lo, v, hi), r)
	}, func(v, _ *Term) []*Term { return []*Term{sel(a, v)} }}
}

// ordered: the elements [lo,hi) are sorted.
func (t *sortTheory) ordered(a, lo, hi *Term) *qf {
	return &qf{2, func(v, w *Term) *Term {
		r := Lt(sel(a, v), sel(a, w))
		if t.kind == "sort" {
			r = Le(skey(sel(a, v)), skey(sel(a, w)))
		}
		return Implies(And(Le(lo, v), Lt(v, w), Lt(w, hi)), r)
	}, func(v, w *Term) []*Term { return []*Term{sel(a, v), sel(a, w)} }}
}

// original: equal elements of [lo,hi) are still in their original order.
func original(a, lo, hi *Term) *qf {
	return &qf{2, func(v, w *Term) *Term {
		return Implies(And(Le(lo, v), Lt(v, w), Lt(w, hi), Eq(skey(sel(a, v)), skey(sel(a, w)))), Lt(sel(a, v), sel(a, w)))
	}, func(v, w *Term) []*Term { return []*Term{sel(a, v), sel(a, w)} }}
}

// across: equal elements of two runs are in the order of the runs.
func across(a, p1, e1, p2, e2 *Term) *qf {
	return &qf{2, func(v, w *Term) *Term {
		return Implies(And(in(p1, v, e1), in(p2, w, e2), Eq(skey(sel(a, v)), skey(sel(a, w)))), Lt(sel(a, v), sel(a, w)))
	}, func(v, w *Term) []*Term { return []*Term{sel(a, v), sel(a, w)} }}
}

// below: all elements of a in [lo,hi) precede all elements of b in [lo2,hi2).
func below(a, lo, hi, b, lo2, hi2 *Term) *qf {
	return &qf{2, func(v, w *Term) *Term {
		return Implies(And(in(lo, v, hi), in(lo2, w, hi2)), Lt(sel(a, v), sel(b, w)))
	}, func(v, w *Term) []*Term { return []*Term{sel(a, v), sel(b, w)} }}
}

// unchanged: a = b outside [lo,hi).
func unchanged(a, b, lo, hi *Term) *qf {
	return &qf{1, func(v, _ *Term) *Term {
		return Implies(Or(Lt(v, lo), Le(hi, v)), Eq(sel(a, v), sel(b, v)))
	}, func(v, _ *Term) []*Term { return []*Term{sel(a, v)} }}
}

// member: the elements of a in [lo,hi) satisfy the predicate m.
func member(m string, a, lo, hi *Term) *qf {
	return &qf{1, func(v, _ *Term) *Term {
		return Implies(in(lo, v, hi), UF1(m, SBool, sel(a, v)))
	}, func(v, _ *Term) []*Term { return []*Term{sel(a, v)} }}
}

var skSeq int64

func skFun(name string) func(v *Term) *Term {
	f := Fresh(name, SInt) // reserves a name
	n := strings.Replace(f.S, "!", "_f", 1)
	return func(v *Term) *Term { return UF1(n, SInt, v) }
}

func predName(name string) string {
	f := Fresh(name, SBool)
	return strings.Replace(f.S, "!", "_p", 1)
}

// arr is the current array of a collection.
func (t *sortTheory) arr(st *State, o *Obj) *Term { return st.heap[o].(*TermV).T }

func (t *sortTheory) setArr(st *State, o *Obj, a *Term) {
	st.heap[o] = tv(a)
	st.log.writes[o] = true
}

// access checks that an access is inside the collection and inside the footprint of the function.
func (t *sortTheory) access(x *Exec, st *State, a sacc, what string, pos token.Pos) {
	tags := x.unit.tagsFor("bounds")
	n := t.N
	x.oblige(st, tags, what+"-in-range", And(Le(IntT(0), a.lo), Le(a.lo, a.hi), Le(a.hi, n)), pos)
	if t.spec != nil {
		var alts []*Term
		for _, f := range t.spec.foot {
			if f.o == a.o && (f.w || !a.w) {
				alts = append(alts, And(Le(f.lo, a.lo), Le(a.hi, f.hi)))
			}
		}
		g := Or(append(alts, Le(a.hi, a.lo))...)
		if !Same(g, TTrue) {
			x.oblige(st, x.unit.tagsFor("footprint"), what+"-in-footprint", g, pos)
		}
	}
	e := so(st)
	e.foot = append(e.foot, a)
}

func pt(o *Obj, i *Term, w bool) sacc { return sacc{o, i, Add(i, IntT(1)), w} }

// sortRange is the effect of a sequential sort of [lo,hi).
func (t *sortTheory) sortRange(x *Exec, st *State, o *Obj, lo, hi *Term, pos token.Pos) {
	t.access(x, st, sacc{o, lo, hi, true}, "sorted-range", pos)
	a := t.arr(st, o)
	if t.kind == "stable" {
		x.oblige(st, x.unit.tagsFor("stable"), "equal-elements-in-original-order", original(a, lo, hi).goal(), pos)
	}
	t.havocRange(st, o, lo, hi, true)
}

// havocRange: the elements [lo,hi) are permuted (and sorted).
func (t *sortTheory) havocRange(st *State, o *Obj, lo, hi *Term, sorted bool) {
	a := t.arr(st, o)
	b := Fresh("arr", arrII)
	st.assume(unchanged(b, a, lo, hi).assume())
	sk := skFun("from")
	st.assume(forall1(func(v *Term) *Term {
		return Implies(in(lo, v, hi), And(Eq(sel(b, v), sel(a, sk(v))), in(lo, sk(v), hi)))
	}, func(v *Term) []*Term { return []*Term{sel(b, v)} }))
	if sorted {
		st.assume(t.ordered(b, lo, hi).assume())
	}
	t.setArr(st, o, b)
}

// ---------------------------------------------------------------- methods of collections

func (t *sortTheory) less(x *Exec, st *State, o *Obj, i, j *Term, pos token.Pos) *Term {
	t.access(x, st, pt(o, i, false), "less-index", pos)
	t.access(x, st, pt(o, j, false), "less-index", pos)
	if t.kind == "test" {
		r := UF2("lessp", SBool, i, j)
		st.assume(Implies(And(r, Eq(Add(j, IntT(1)), i), in(IntT(1), i, t.N)), t.bad))
		return r
	}
	a := t.arr(st, o)
	return Lt(skey(sel(a, i)), skey(sel(a, j)))
}

func (t *sortTheory) Bound(x *Exec, fr *Frame, st *State, b *BoundV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	pos := in.Pos()
	ret := func(vs ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Kind: ORet, Ret: vs}}, true }
	if a, ok := b.Recv.(*assignV); ok && b.Name == "assign" {
		t.assign(x, st, a, x.term(args[0]), x.term(args[1]), x.term(args[2]), pos)
		return ret()
	}
	if b.Name == "builtin.copy" && t.kind == "method" {
		return t.copyBuiltin(x, st, args, pos)
	}
	c, ok := b.Recv.(*CollV)
	if !ok {
		return nil, false
	}
	switch b.Name {
	case "invoke.Len":
		return ret(tv(t.N))
	case "invoke.Less":
		return ret(tv(t.less(x, st, c.Obj, x.term(args[0]), x.term(args[1]), pos)))
	case "invoke.Swap":
		i, j := x.term(args[0]), x.term(args[1])
		if t.kind == "test" {
			x.fail(st, x.unit.tagsFor("footprint"), "read-only", "the collection is changed", pos)
			return ret()
		}
		t.access(x, st, pt(c.Obj, i, true), "swap-index", pos)
		t.access(x, st, pt(c.Obj, j, true), "swap-index", pos)
		a := t.arr(st, c.Obj)
		n := Fresh("arr", arrII)
		st.assume(Eq(n, Store(Store(a, i, sel(a, j)), j, sel(a, i))))
		t.setArr(st, c.Obj, n)
		return ret()
	case "invoke.SequentialSort":
		if t.kind == "test" {
			x.fail(st, x.unit.tagsFor("footprint"), "read-only", "the collection is changed", pos)
			return ret()
		}
		t.sortRange(x, st, c.Obj, x.term(args[0]), x.term(args[1]), pos)
		return ret()
	case "invoke.NewTemp":
		if t.kind != "stable" || c.Obj != t.data {
			break
		}
		if t.temp == nil {
			t.temp = NewObj("coll", "temp", nil)
			t.tempV = &CollV{t.temp}
		}
		if _, ok := st.heap[t.temp]; !ok {
			st.heap[t.temp] = tv(Fresh("temp", arrII))
		}
		return ret(t.tempV)
	case "invoke.Assign":
		s, ok := args[0].(*CollV)
		if !ok {
			break
		}
		return ret(&BoundV{Name: "assign", Recv: t.assignVal(c.Obj, s.Obj)})
	}
	return nil, false
}

var assignVals = map[[2]*Obj]*assignV{}

func (t *sortTheory) assignVal(d, s *Obj) *assignV {
	symMu.Lock()
	defer symMu.Unlock()
	k := [2]*Obj{d, s}
	if assignVals[k] == nil {
		assignVals[k] = &assignV{d, s}
	}
	return assignVals[k]
}

// assign is dst[i:i+n] = src[j:j+n].
func (t *sortTheory) assign(x *Exec, st *State, a *assignV, i, j, n *Term, pos token.Pos) {
	t.access(x, st, sacc{a.src, j, Add(j, n), false}, "assign-source", pos)
	t.access(x, st, sacc{a.dst, i, Add(i, n), true}, "assign-target", pos)
	if a.src == a.dst {
		panic(unsup("assignment of a collection to itself"))
	}
	d, s := t.arr(st, a.dst), t.arr(st, a.src)
	b := Fresh("arr", arrII)
	st.assume(unchanged(b, d, i, Add(i, n)).assume())
	st.assume(forall1(func(v *Term) *Term {
		return Implies(in(i, v, Add(i, n)), Eq(sel(b, v), sel(s, Sub(Add(v, j), i))))
	}, func(v *Term) []*Term { return []*Term{sel(b, v)} }))
	// the same, triggered by the source elements
	st.assume(forall1(func(v *Term) *Term {
		return Implies(in(j, v, Add(j, n)), Eq(sel(b, Sub(Add(v, i), j)), sel(s, v)))
	}, func(v *Term) []*Term { return []*Term{sel(s, v)} }))
	t.setArr(st, a.dst, b)
}

// ---------------------------------------------------------------- merging of paths

// merge joins normal outcomes of a call that differ only in their conditions and scalar results.
func (t *sortTheory) merge(x *Exec, base int, before *State, outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	f := outs[0]
	var alts []*Term
	for _, o := range outs {
		if o.Kind != ORet || len(o.Ret) != len(f.Ret) || len(o.St.pend) != len(f.St.pend) || len(o.St.pc) < base {
			return outs
		}
		for k := range before.heap {
			if !sameVal(o.St.heap[k], f.St.heap[k]) {
				return outs
			}
		}
		for i := 0; i < base; i++ {
			if o.St.pc[i] != f.St.pc[i] {
				return outs
			}
		}
	}
	var ret []Val
	for i := range f.Ret {
		same, scalar := true, true
		for _, o := range outs {
			same = same && sameVal(o.Ret[i], f.Ret[i])
			_, ok := o.Ret[i].(*TermV)
			scalar = scalar && ok
		}
		switch {
		case same:
			ret = append(ret, f.Ret[i])
		case scalar:
			ret = append(ret, tv(Fresh("merged", x.term(f.Ret[i]).Sort)))
		default:
			return outs
		}
	}
	st := f.St.clone()
	st.pc = append([]*Term(nil), f.St.pc[:base]...)
	seen := map[string]bool{}
	e := so(st)
	e.foot = nil
	for _, o := range outs {
		c := And(o.St.pc[base:]...)
		for i, v := range o.Ret {
			if !sameVal(v, ret[i]) {
				c = And(c, Eq(x.term(ret[i]), x.term(v)))
			}
		}
		alts = append(alts, c)
		e.left = e.left || so(o.St).left
		for _, a := range so(o.St).foot {
			k := fmt.Sprint(a.o.ID, a.lo.S, "|", a.hi.S, a.w)
			if !seen[k] {
				seen[k] = true
				e.foot = append(e.foot, a)
			}
		}
		for k := range o.St.log.reads {
			st.log.reads[k] = true
		}
		for k := range o.St.log.writes {
			st.log.writes[k] = true
		}
		for k, v := range o.St.heap {
			if _, ok := st.heap[k]; !ok {
				st.heap[k] = v
			}
		}
	}
	st.assume(Or(alts...))
	return []Outcome{{St: st, Kind: ORet, Ret: ret}}
}

// ---------------------------------------------------------------- calls

// closures gives the functions in a list of closures.
func (x *Exec) closures(st *State, v Val) []Val {
	switch s := v.(type) {
	case *NilV:
		return nil
	case *SliceV:
		a, ok := st.heap[s.Obj].(*ArrayV)
		if ok && s.Off.isInt() && s.Len.isInt() {
			return a.E[s.Off.N : s.Off.N+s.Len.N]
		}
	}
	panic(unsup("list of functions"))
}

func (t *sortTheory) Call(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	if f.Fn.Pkg == nil || f.Fn.Parent() != nil {
		return t.inline(x, st, f, args, in)
	}
	name := x.prog.relName(f.Fn)
	if name == f.Fn.String() {
		return nil, false // not in this module
	}
	if c := x.prog.Contracts[name]; c != nil && c.Fam.Lists {
		return t.list(x, st, c, args, in)
	}
	if name == "sort.IsSorted" && (t.kind == "sort" || t.kind == "stable") {
		if c, ok := args[0].(*CollV); ok {
			return t.useIsSorted(x, st, c, in)
		}
	}
	if name == "sort.IsSorted" && t.asked != nil {
		return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(t.asked(x, st, args[0], in.Pos()))}}}, true
	}
	return t.inline(x, st, f, args, in)
}

// useIsSorted is the contract of IsSorted: true only for sorted collections.
func (t *sortTheory) useIsSorted(x *Exec, st *State, c *CollV, in ssa.Instruction) ([]Outcome, bool) {
	t.access(x, st, sacc{c.Obj, IntT(0), t.N, false}, "tested-range", in.Pos())
	r := Fresh("issorted", SBool)
	if t.kind == "sort" {
		s2 := st.clone()
		st.assume(r)
		st.assume(t.ordered(t.arr(st, c.Obj), IntT(0), t.N).assume())
		s2.assume(Not(r))
		return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(TTrue)}}, {St: s2, Kind: ORet, Ret: []Val{tv(TFalse)}}}, true
	}
	// stable: sorted with respect to Less, hence stably sorted if nothing has been moved
	a := t.arr(st, c.Obj)
	s2 := st.clone()
	st.assume((&qf{2, func(v, w *Term) *Term {
		return Implies(And(Le(IntT(0), v), Lt(v, w), Lt(w, t.N)), Le(skey(sel(a, v)), skey(sel(a, w))))
	}, func(v, w *Term) []*Term { return []*Term{sel(a, v), sel(a, w)} }}).assume())
	return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(TTrue)}}, {St: s2, Kind: ORet, Ret: []Val{tv(TFalse)}}}, true
}

func (t *sortTheory) inline(x *Exec, st *State, f *FnV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	if len(f.Fn.Blocks) == 0 {
		return nil, false
	}
	n := len(st.pc)
	before := st.clone()
	outs := x.runFnGuard(st, f.Fn, f.Binds, args, nil, in)
	return t.merge(x, n, before, outs), true
}

// list is a call of a function that invokes a list of functions.
func (t *sortTheory) list(x *Exec, st *State, c *Contract, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	var fs []Val
	for i, r := range c.Roles {
		switch r {
		case "first":
			fs = append(fs, args[i])
		case "list":
			fs = append(fs, x.closures(st, args[i])...)
		default:
			panic(unsup("call of %s", c.Name))
		}
	}
	switch c.Comb {
	case "none", "":
		if c.Fam.Mode == "speculative" {
			panic(unsup("call of %s", c.Name))
		}
		return t.do(x, st, fs, c.Fam.Mode != "sequential", in), true
	case "and", "or":
		return t.andOr(x, st, fs, c.Comb, c.Fam.Mode == "speculative", in), true
	}
	panic(unsup("call of %s", c.Name))
}

type taskRec struct {
	foot []sacc
	log  *Log
}

// do runs functions whose footprints must be pairwise disjoint if they run in parallel; then any
// interleaving has the effect of running them one after the other.
func (t *sortTheory) do(x *Exec, st *State, fs []Val, par bool, in ssa.Instruction) []Outcome {
	type item struct {
		st   *State
		done []taskRec
	}
	foot0, log0 := so(st).foot, st.log
	pend := st.pend
	outer := map[*Obj]bool{}
	for k := range st.heap {
		outer[k] = true
	}
	items := []item{{st, nil}}
	for _, f := range fs {
		var next []item
		for _, it := range items {
			s := it.st
			so(s).foot = nil
			so(s).task++
			s.log = newLog()
			wgs := map[*Obj]Val{}
			for k, v := range s.heap {
				if _, ok := v.(*WGV); ok {
					wgs[k] = v
				}
			}
			for _, o := range x.call(nil, s, f, nil, in) {
				if o.Kind == OPanic {
					x.fail(o.St, x.unit.tagsFor("safety"), "no-panic", "a panic although no method of the collection panics", in.Pos())
					continue
				}
				for _, tk := range o.St.pend {
					known := false
					for _, p := range pend {
						known = known || p == tk
					}
					if !known {
						panic(unsup("goroutines started by a parallel function"))
					}
				}
				r := taskRec{so(o.St).foot, o.St.log}
				if par {
					o.St.pend = append([]*Task(nil), pend...)
					for k, v := range wgs {
						o.St.heap[k] = v
					}
				}
				so(o.St).task--
				next = append(next, item{o.St, append(it.done[:len(it.done):len(it.done)], r)})
			}
		}
		items = next
	}
	var outs []Outcome
	for _, it := range items {
		s := it.st
		s.log = log0.clone()
		so(s).foot = append([]sacc(nil), foot0...)
		for i, r := range it.done {
			for _, q := range it.done[i+1:] {
				if par {
					t.disjoint(x, s, r, q, outer, in.Pos())
				}
			}
			for k := range r.log.reads {
				s.log.reads[k] = true
			}
			for k := range r.log.writes {
				s.log.writes[k] = true
			}
			so(s).foot = append(so(s).foot, r.foot...)
		}
		outs = append(outs, Outcome{St: s, Kind: ORet})
	}
	return outs
}

func (t *sortTheory) disjoint(x *Exec, st *State, r, q taskRec, outer map[*Obj]bool, pos token.Pos) {
	tags := x.unit.tagsFor("race")
	for _, a := range r.foot {
		for _, b := range q.foot {
			if a.o != b.o || !a.w && !b.w {
				continue
			}
			x.oblige(st, tags, "parallel-parts-disjoint", Or(Le(a.hi, b.lo), Le(b.hi, a.lo), Le(a.hi, a.lo), Le(b.hi, b.lo)), pos)
		}
	}
	chk := func(r, q taskRec) {
		for k := range r.log.writes {
			if outer[k] && k.Kind != "coll" && (q.log.reads[k] || q.log.writes[k]) {
				x.fail(st, tags, "no-race-write", fmt.Sprintf("%s is written by a goroutine while another one may access it", k.Name), pos)
			}
		}
	}
	chk(r, q)
	chk(q, r)
}

// andOr is the conjunction or disjunction of predicates.
func (t *sortTheory) andOr(x *Exec, st *State, fs []Val, comb string, spec bool, in ssa.Instruction) []Outcome {
	outer := map[*Obj]bool{}
	for k := range st.heap {
		outer[k] = true
	}
	var rs []*Term
	for _, f := range fs {
		s := st.clone()
		s.log = newLog()
		so(s).task++
		n := len(s.pc)
		outs := t.merge(x, n, s.clone(), x.call(nil, s, f, nil, in))
		if len(outs) != 1 || outs[0].Kind != ORet || len(outs[0].Ret) != 1 {
			panic(unsup("predicate of a conjunction"))
		}
		o := outs[0]
		for k := range o.St.log.writes {
			if outer[k] && !t.atomics[k] {
				x.fail(st, x.unit.tagsFor("race"), "no-race-write", fmt.Sprintf("a predicate writes the shared variable %s", k.Name), in.Pos())
			}
		}
		e := so(st)
		e.left = e.left || so(o.St).left || spec && len(fs) > 1 && len(so(o.St).foot) > len(e.foot)
		rs = append(rs, x.term(o.Ret[0]))
		for _, p := range o.St.pc[n:] {
			st.assume(p)
		}
	}
	r := Fresh("all", SBool)
	if comb == "and" {
		var no []*Term
		for _, q := range rs {
			st.assume(Implies(r, q))
			no = append(no, Not(q))
		}
		st.assume(Implies(Not(r), Or(no...)))
	} else {
		for _, q := range rs {
			st.assume(Implies(Not(r), Not(q)))
		}
		st.assume(Implies(r, Or(rs...)))
	}
	return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(r)}}}
}

// ---------------------------------------------------------------- contracts of recursive functions

// mapping says how the parameters of a recursive function determine the instance of the contract.
type mapping struct {
	kind     string
	idx      []int // parameters for lo,hi or p1,e1,p2,e2,p3
	form     int   // 0: inclusive end, 1: exclusive end, 2: length
	src, dst *Obj
}

func (m *mapping) spec(t *sortTheory, args []Val) *sspec {
	g := func(k int) *Term { return args[m.idx[k]].(*TermV).T }
	end := func(p, r *Term) *Term {
		switch m.form {
		case 0:
			return Add(r, IntT(1))
		case 2:
			return Add(p, r)
		}
		return r
	}
	s := &sspec{kind: m.kind, env: map[string]*Term{}, src: m.src, dst: m.dst}
	if m.kind == "merge" {
		p1, p2, p3 := g(0), g(2), g(4)
		e1, e2 := end(p1, g(1)), end(p2, g(3))
		s.env["p1"], s.env["e1"], s.env["p2"], s.env["e2"], s.env["p3"] = p1, e1, p2, e2, p3
		n := Add(Sub(e1, p1), Sub(e2, p2))
		s.env["end"] = Add(p3, n)
		s.env["lo"], s.env["hi"] = p3, s.env["end"]
		s.foot = []sacc{{m.src, p1, e1, false}, {m.src, p2, e2, false}, {m.dst, p3, s.env["end"], true}}
		return s
	}
	lo := g(0)
	hi := end(lo, g(1))
	s.env["lo"], s.env["hi"] = lo, hi
	t.sortFoot(s)
	return s
}

func (t *sortTheory) sortFoot(s *sspec) {
	lo, hi := s.env["lo"], s.env["hi"]
	if s.kind == "test" {
		s.foot = []sacc{{t.data, Sub(lo, IntT(1)), hi, false}}
		return
	}
	s.foot = []sacc{{t.data, lo, hi, true}}
	if t.temp != nil {
		s.foot = append(s.foot, sacc{t.temp, lo, hi, true})
	}
}

func (s *sspec) measure() *Term { return Sub(s.env["hi"], s.env["lo"]) }

type clauseQ struct {
	label, tag string
	q          *qf
}

func plain(t *Term) *qf { return &qf{n: 0, body: func(_, _ *Term) *Term { return t }} }

// pre is the precondition of the contract.
func (t *sortTheory) pre(s *sspec, st *State) []clauseQ {
	e := s.env
	if s.kind == "merge" {
		a := t.arr(st, s.src)
		return []clauseQ{
			{"runs-in-range", "bounds", plain(And(Le(IntT(0), e["p1"]), Le(e["p1"], e["e1"]), Le(e["e1"], t.N), Le(IntT(0), e["p2"]), Le(e["p2"], e["e2"]), Le(e["e2"], t.N)))},
			{"target-in-range", "bounds", plain(And(Le(IntT(0), e["p3"]), Le(e["end"], t.N)))},
			{"runs-disjoint", "default", plain(Or(Le(e["e1"], e["p2"]), Le(e["e2"], e["p1"])))},
			{"first-run-sorted", "default", t.ordered(a, e["p1"], e["e1"])},
			{"second-run-sorted", "default", t.ordered(a, e["p2"], e["e2"])},
			{"first-run-precedes-equal", "stable", across(a, e["p1"], e["e1"], e["p2"], e["e2"])},
		}
	}
	lo, hi := e["lo"], e["hi"]
	min := IntT(0)
	if s.kind == "test" {
		min = IntT(1)
	}
	r := []clauseQ{{"range-valid", "bounds", plain(And(Le(min, lo), Le(lo, hi), Le(hi, t.N)))}}
	if t.kind == "stable" {
		r = append(r, clauseQ{"equal-elements-in-original-order", "stable", original(t.arr(st, t.data), lo, hi)})
	}
	return r
}

// begin makes the entry state of a function under the contract s.
func (t *sortTheory) begin(s *sspec, st *State) {
	s.entry = map[*Obj]*Term{}
	for _, o := range []*Obj{t.data, t.temp} {
		if o == nil {
			continue
		}
		if v, ok := st.heap[o]; ok {
			s.entry[o] = v.(*TermV).T
		}
	}
	for _, c := range t.pre(s, st) {
		st.assume(c.q.assume())
	}
	if t.kind == "stable" {
		s.M = predName("M")
		e := s.env
		if s.kind == "merge" {
			a := t.arr(st, s.src)
			st.assume(member(s.M, a, e["p1"], e["e1"]).assume())
			st.assume(member(s.M, a, e["p2"], e["e2"]).assume())
		} else {
			st.assume(member(s.M, t.arr(st, t.data), e["lo"], e["hi"]).assume())
		}
	}
}

// end checks the postcondition.
func (t *sortTheory) end(x *Exec, s *sspec, o Outcome, pos token.Pos) {
	st := o.St
	u := x.unit
	e := s.env
	lo, hi := e["lo"], e["hi"]
	if so(st).left {
		x.fail(st, u.tagsFor("left"), "no-goroutine-left-behind", "a goroutine may access the collection after the function has returned", pos)
	} else {
		x.pass(u.tagsFor("left"), "no-goroutine-left-behind", pos)
	}
	if s.kind == "test" {
		r := x.term(o.Ret[0])
		x.oblige(st, u.tagsFor("true"), "true-only-if-sorted", Implies(And(r, in(lo, u.X, hi)), Not(UF2("lessp", SBool, u.X, Sub(u.X, IntT(1))))), pos)
		x.oblige(st, u.tagsFor("false"), "false-only-if-unsorted", Implies(Not(r), t.bad), pos)
		return
	}
	main := t.data
	if s.kind == "merge" {
		main = s.dst
	}
	a := t.arr(st, main)
	x.oblige(st, u.tagsFor("sorted"), "sorted", t.ordered(a, lo, hi).goal(), pos)
	for ob, a0 := range s.entry {
		switch {
		case ob == main:
			x.oblige(st, u.tagsFor("footprint"), "unchanged-outside", unchanged(a, a0, lo, hi).goal(), pos)
		case s.kind == "merge":
			x.oblige(st, u.tagsFor("footprint"), "source-unchanged", plainSame(t.arr(st, ob), a0).goal(), pos)
		default:
			x.oblige(st, u.tagsFor("footprint"), "temp-unchanged-outside", unchanged(t.arr(st, ob), a0, lo, hi).goal(), pos)
		}
	}
	if t.kind == "stable" {
		x.oblige(st, u.tagsFor("default"), "only-elements-of-the-input", member(s.M, a, lo, hi).goal(), pos)
	}
}

func plainSame(a, b *Term) *qf {
	return &qf{1, func(v, _ *Term) *Term { return Eq(sel(a, v), sel(b, v)) }, func(v, _ *Term) []*Term { return []*Term{sel(a, v)} }}
}

// use replaces a call by the contract s, whose precondition has been checked.
func (t *sortTheory) use(x *Exec, st *State, s *sspec, fn *ssa.Function, pos token.Pos) []Outcome {
	e := s.env
	for _, a := range s.foot {
		if _, ok := st.heap[a.o]; !ok && a.o == t.temp {
			continue
		}
		t.access(x, st, a, "part", pos)
	}
	switch s.kind {
	case "test":
		r := Fresh("part", SBool)
		st.assume(Implies(And(r, in(e["lo"], x.unit.X, e["hi"])), Not(UF2("lessp", SBool, x.unit.X, Sub(x.unit.X, IntT(1))))))
		st.assume(Implies(Not(r), t.bad))
		return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(r)}}}
	case "merge":
		a, d := t.arr(st, s.src), t.arr(st, s.dst)
		b := Fresh("arr", arrII)
		lo, hi := e["lo"], e["hi"]
		st.assume(unchanged(b, d, lo, hi).assume())
		sk := skFun("from")
		st.assume(forall1(func(v *Term) *Term {
			return Implies(in(lo, v, hi), And(Eq(sel(b, v), sel(a, sk(v))), Or(in(e["p1"], sk(v), e["e1"]), in(e["p2"], sk(v), e["e2"]))))
		}, func(v *Term) []*Term { return []*Term{sel(b, v)} }))
		st.assume(t.ordered(b, lo, hi).assume())
		t.setArr(st, s.dst, b)
	default:
		t.havocRange(st, t.data, e["lo"], e["hi"], true)
		if t.temp != nil {
			if _, ok := st.heap[t.temp]; ok {
				b := Fresh("temp", arrII)
				st.assume(unchanged(b, t.arr(st, t.temp), e["lo"], e["hi"]).assume())
				t.setArr(st, t.temp, b)
			}
		}
	}
	var ret []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		ret = append(ret, freshVal("res", res.At(i).Type()))
	}
	return []Outcome{{St: st, Kind: ORet, Ret: ret}}
}

// mappings lists the ways in which the contract may apply to a recursive function.
func (t *sortTheory) mappings(fn *ssa.Function, args []Val) []*mapping {
	var ints []int
	for i, a := range args {
		if v, ok := a.(*TermV); ok && v.T.Sort == SInt {
			ints = append(ints, i)
		}
	}
	var ms []*mapping
	if t.kind == "stable" && len(ints) >= 5 && t.temp != nil {
		for _, p := range perms(ints, 5) {
			for form := 0; form < 3; form++ {
				ms = append(ms, &mapping{"merge", p, form, t.data, t.temp}, &mapping{"merge", p, form, t.temp, t.data})
			}
		}
	}
	kind := "sort"
	if t.kind == "test" {
		kind = "test"
	}
	if len(ints) >= 2 && len(ints) <= 4 {
		for _, p := range perms(ints, 2) {
			for _, form := range []int{2, 1, 0} {
				ms = append(ms, &mapping{kind: kind, idx: p, form: form})
			}
		}
	}
	return ms
}

func debugf(f string, args ...interface{}) {
	if os.Getenv("GOCV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "## "+f+"\n", args...)
	}
}

func (t *sortTheory) applies(x *Exec, st *State, m *mapping, args []Val) bool {
	s := m.spec(t, args)
	for _, c := range t.pre(s, st) {
		if !x.provesQ(st, c.q) {
			return false
		}
	}
	if t.spec != nil {
		for _, a := range s.foot {
			if _, ok := st.heap[a.o]; !ok && a.o == t.temp {
				continue
			}
			var alts []*Term
			for _, f := range t.spec.foot {
				if f.o == a.o && (f.w || !a.w) {
					alts = append(alts, And(Le(f.lo, a.lo), Le(a.hi, f.hi)))
				}
			}
			if !x.proves(st, Or(append(alts, Le(a.hi, a.lo))...)) {
				return false
			}
		}
	}
	return true
}

// Schema verifies a recursive function against an instance of the contract and uses it.
func (t *sortTheory) Schema(x *Exec, st *State, fv *FnV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	for _, d := range t.done {
		if d.fn == fv.Fn && sameVal(d.fv, fv) && t.sameFixed(d, args) && included(d.pc, st.pc) && t.applies(x, st, d.mp, args) {
			return t.useDone(x, st, d, args, in), true
		}
	}
	type attempt struct {
		d    *schemaDone
		obls []*Obl
		bad  int
	}
	var best *attempt
	var lastErr interface{}
	tried := 0
	for _, m := range t.mappings(fv.Fn, args) {
		if !t.applies(x, st, m, args) {
			continue
		}
		if tried++; tried > 4 || best != nil && time.Now().After(x.deadline) {
			break
		}
		nobl, probe, nstack, nact, spec := len(x.obls), x.probe, len(x.stack), len(x.active), t.spec
		d := &schemaDone{fn: fv.Fn, fv: fv, args: args, mp: m, pend: st.pend}
		failed := false
		x.probe = 0
		limit, nfail := x.failLimit, x.failed
		x.failed, x.failLimit = 0, 0
		if best != nil {
			x.failLimit = best.bad
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						failed = true
						lastErr = u
						return
					}
					debugf("%v\n%s", r, debug.Stack())
					panic(r)
				}
			}()
			t.verifyRec(x, st.clone(), d, args, in)
		}()
		got := append([]*Obl(nil), x.obls[nobl:]...)
		x.obls, x.probe, x.stack, x.active, t.spec = x.obls[:nobl], probe, x.stack[:nstack], x.active[:nact], spec
		x.failLimit, x.failed = limit, nfail
		if failed {
			debugf("%s: contract %s %v form %d: %v", fv.Fn, m.kind, m.idx, m.form, lastErr)
			continue
		}
		bad := 0
		for _, o := range got {
			if !o.Ok {
				bad++
			}
		}
		debugf("%s: contract %s %v form %d: %d of %d obligations fail", fv.Fn, m.kind, m.idx, m.form, bad, len(got))
		if os.Getenv("GOCV_DEBUG") != "" {
			for _, o := range got {
				if !o.Ok {
					debugf("   %s %s %s", o.Label, o.Pos, o.Detail)
				}
			}
		}
		if best == nil || bad < best.bad {
			best = &attempt{d, got, bad}
		}
		if bad == 0 {
			break
		}
	}
	if best == nil {
		if lastErr != nil {
			panic(lastErr)
		}
		panic(unsup("recursive function %s: no contract applies at its call", fv.Fn))
	}
	best.d.obls = best.obls
	t.done = append(t.done, best.d)
	x.verified = append(x.verified, fmt.Sprintf("%s (%s)", fv.Fn, best.d.mp.kind))
	return t.useDone(x, st, best.d, args, in), true
}

// included: every fact of a is among the facts of b.
func included(a, b []*Term) bool {
	m := map[string]bool{}
	for _, p := range b {
		m[p.S] = true
	}
	for _, p := range a {
		if !m[p.S] {
			return false
		}
	}
	return true
}

func (t *sortTheory) sameFixed(d *schemaDone, args []Val) bool {
	for i, a := range args {
		if v, ok := a.(*TermV); ok && v.T.Sort == SInt {
			continue
		}
		if !sameVal(a, d.args[i]) {
			return false
		}
	}
	return true
}

func (t *sortTheory) useDone(x *Exec, st *State, d *schemaDone, args []Val, in ssa.Instruction) []Outcome {
	for _, p := range st.pend {
		known := false
		for _, q := range d.pend {
			known = known || p == q
		}
		if !known {
			panic(unsup("goroutines running during a call of %s", d.fn))
		}
	}
	s := d.mp.spec(t, args)
	for _, c := range t.pre(s, st) {
		x.oblige(st, x.unit.tagsFor(c.tag), c.label, c.q.goal(), in.Pos())
	}
	return t.use(x, st, s, d.fn, in.Pos())
}

func (t *sortTheory) verifyRec(x *Exec, st *State, d *schemaDone, args []Val, in ssa.Instruction) {
	outer := map[*Obj]bool{}
	for o := range st.heap {
		outer[o] = true
	}
	fresh := append([]Val(nil), args...)
	for i, a := range args {
		if v, ok := a.(*TermV); ok && v.T.Sort == SInt {
			fresh[i] = tv(Fresh(d.fn.Params[i].Name(), SInt))
		}
	}
	// keep what does not concern the collections of the caller
	if len(x.active) == 0 {
		t.outerPC = nil
		for _, p := range st.pc {
			if !strings.Contains(p.S, "(forall") || strings.Contains(p.S, "skey x?1") {
				t.outerPC = append(t.outerPC, p)
			}
		}
	}
	d.pc = t.outerPC
	st.pc = append([]*Term(nil), d.pc...)
	for _, o := range []*Obj{t.data, t.temp} {
		if o == nil {
			continue
		}
		if _, ok := st.heap[o]; ok && t.kind != "test" {
			st.heap[o] = tv(Fresh(o.Name, arrII))
		}
	}
	st.log = newLog()
	so(st).foot = nil
	so(st).left = false
	so(st).task = 0
	s := d.mp.spec(t, fresh)
	t.begin(s, st)
	t.spec = s
	inst := &Inst{fn: d.fn, fam: &Family{Name: s.kind, Tags: map[string][]string{}}, env: s.env, Lo: s.env["lo"], Hi: s.env["hi"]}
	inst.apply = func(st2 *State, fv2 *FnV, args2 []Val, in2 ssa.Instruction) []Outcome {
		if !sameVal(d.fv, fv2) || !t.sameFixed(d, args2) {
			panic(unsup("recursive call of %s with other functions", d.fn))
		}
		s2 := d.mp.spec(t, args2)
		x.oblige(st2, x.unit.tagsFor("termination"), "recursion-terminates", And(Le(IntT(0), s2.measure()), Lt(s2.measure(), s.measure())), in2.Pos())
		return t.useDone(x, st2, d, args2, in2)
	}
	x.active = append(x.active, inst)
	outs := x.runFn(st, d.fn, d.fv.Binds, fresh, nil)
	any := false
	for _, o := range outs {
		if o.Kind == OPanic {
			x.fail(o.St, x.unit.tagsFor("safety"), "no-panic", "a panic although no method of the collection panics", d.fn.Pos())
			continue
		}
		any = true
		for k := range o.St.log.writes {
			if outer[k] && k.Kind != "coll" && !t.atomics[k] {
				panic(unsup("recursive function %s writes to shared variable %s", d.fn, k.Name))
			}
		}
		t.end(x, s, o, d.fn.Pos())
	}
	if !any && x.probe == 0 {
		x.record(&Obl{Tags: x.unit.tagsFor("default"), Label: "reachable", Pos: x.posOf(d.fn.Pos()), Detail: "no normal return is reachable"})
	}
}

// Back: direct accesses in a loop of a parallel function are not summarised.
func (t *sortTheory) Back(x *Exec, entry, back *State) {
	if so(back).task > 0 && len(so(back).foot) > len(so(entry).foot) {
		panic(unsup("a loop in a parallel function accesses the collection"))
	}
}

// ---------------------------------------------------------------- loop invariants

// loopInv gives the value of v if it does not change in the loop.
func (l *loopRun) loopInv(v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		if sortOf(c.Type()) == SInt {
			return l.x.term(constVal(c))
		}
		return nil
	case *ssa.UnOp:
		if c.Op != token.MUL {
			break
		}
		if r, ok := l.fr.regs[c.X]; ok {
			p, ok := r.(*PtrV)
			if !ok || l.wset[p.Obj] || len(p.Path) > 0 {
				return nil
			}
			if t, ok := l.st.heap[p.Obj].(*TermV); ok && t.T.Sort == SInt {
				return t.T
			}
			return nil
		}
	case *ssa.BinOp:
		a, b := l.loopInv(c.X), l.loopInv(c.Y)
		if a != nil && b != nil {
			switch c.Op {
			case token.ADD:
				return Add(a, b)
			case token.SUB:
				return Sub(a, b)
			}
		}
		return nil
	}
	if i, ok := v.(ssa.Instruction); ok && l.lp.body[i.Block()] {
		return nil
	}
	if r, ok := l.fr.regs[v]; ok {
		if t, ok := r.(*TermV); ok && t.T.Sort == SInt {
			return t.T
		}
	}
	return nil
}

// Derived: indices that are computed from a variable and an offset that does not change in the loop.
func (t *sortTheory) Derived(l *loopRun) {
	seen := map[string]bool{}
	var bs []*ssa.BasicBlock
	for b := range l.lp.body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			op, ok := in.(*ssa.BinOp)
			if !ok || (op.Op != token.ADD && op.Op != token.SUB) || sortOf(op.Type()) != SInt {
				continue
			}
			for _, pair := range [][2]ssa.Value{{op.X, op.Y}, {op.Y, op.X}} {
				p, ok := pair[0].(*ssa.Phi)
				if !ok || l.head.phi[p] == nil {
					continue
				}
				c := l.loopInv(pair[1])
				if c == nil || c.isInt() {
					continue
				}
				neg := op.Op == token.SUB
				if neg && pair[0] == op.Y {
					continue
				}
				name := p.Comment + "." + p.Name() + "+" + c.S
				if neg {
					name = p.Comment + "." + p.Name() + "-" + c.S
				}
				if seen[name] {
					continue
				}
				seen[name] = true
				l.vars = append(l.vars, &lvar{name: name, sort: SInt, get: func(v *view) *Term {
					x := l.x.term(v.phi[p])
					if neg {
						return Sub(x, c)
					}
					return Add(x, c)
				}})
			}
		}
	}
}

// lessArgs are the loop-invariant indices that are compared in the loop.
func (l *loopRun) lessArgs() []*Term {
	var r []*Term
	seen := map[string]bool{}
	for b := range l.lp.body {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.Signature().Results().Len() != 1 || len(c.Call.Args) < 2 {
				continue
			}
			if sortOf(c.Call.Signature().Results().At(0).Type()) != SBool {
				continue
			}
			for _, a := range c.Call.Args {
				if sortOf(a.Type()) != SInt {
					continue
				}
				if t := l.loopInv(a); t != nil && !seen[t.S] {
					seen[t.S] = true
					r = append(r, t)
				}
			}
		}
	}
	return r
}

func (l *loopRun) addQ(name string, f func(v *view) *qf) {
	l.cands = append(l.cands, &lcand{name: name,
		holds: func(x *Exec, v *view) bool { return x.provesQ(v.st, f(v)) },
		goal:  func(v *view) *Term { return f(v).goal() },
		apply: func(v *view) { v.st.assume(f(v).assume()) }})
}

func (t *sortTheory) Cands(l *loopRun) {
	x := l.x
	var ints []*lvar
	for _, v := range l.vars {
		if v.sort == SInt && !v.ghost {
			ints = append(ints, v)
		}
	}
	one := IntT(1)
	add := func(name string, f func(v *view) *Term) {
		l.cands = append(l.cands, &lcand{name: name, term: f})
	}
	// linear facts
	var ts []*Term
	if t.spec != nil {
		for _, k := range []string{"lo", "hi", "p1", "e1", "p2", "e2"} {
			if e := t.spec.env[k]; e != nil {
				ts = append(ts, e)
			}
		}
	}
	ts = append(ts, l.lessArgs()...)
	// other variables of the function that the loop does not change
	for _, o := range sortedObjs(l.st.heap) {
		v := l.st.heap[o]
		if tm, ok := v.(*TermV); ok && tm.T.Sort == SInt && o.Kind == "cell" && !l.wset[o] && o.Task == l.st.task {
			ts = append(ts, tm.T)
		}
	}
	seen := map[string]bool{}
	for _, e := range l.invs {
		seen[e.S] = true
	}
	var more []*Term
	for _, e := range ts {
		if !seen[e.S] {
			seen[e.S] = true
			more = append(more, e)
		}
	}
	l.invs = append(l.invs, more...)
	for i, a := range ints {
		a := a
		for j, b := range ints {
			b := b
			if i != j {
				add(a.name+"<="+b.name, func(v *view) *Term { return Le(a.get(v), b.get(v)) })
				add(a.name+"<"+b.name, func(v *view) *Term { return Lt(a.get(v), b.get(v)) })
			}
			for k := j + 1; k < len(ints); k++ {
				if i == j || i == k {
					continue
				}
				c := ints[k]
				d := Sub(a.get(l.entry), Add(b.get(l.entry), c.get(l.entry)))
				add(a.name+"-"+b.name+"-"+c.name, func(v *view) *Term { return Eq(Sub(a.get(v), Add(b.get(v), c.get(v))), d) })
			}
		}
		for _, e := range more {
			e := e
			add(a.name+"<="+e.S, func(v *view) *Term { return Le(a.get(v), e) })
			add(a.name+"<"+e.S, func(v *view) *Term { return Lt(a.get(v), e) })
			add(a.name+">="+e.S, func(v *view) *Term { return Ge(a.get(v), e) })
			add(a.name+">"+e.S, func(v *view) *Term { return Gt(a.get(v), e) })
		}
	}
	if t.kind == "test" {
		for _, a := range ints {
			a := a
			a0 := a.get(l.entry)
			ok := func(lo, hi *Term) *Term {
				return Implies(in(lo, x.unit.X, hi), Not(UF2("lessp", SBool, x.unit.X, Sub(x.unit.X, one))))
			}
			add("sorted [entry,"+a.name+")", func(v *view) *Term { return ok(a0, a.get(v)) })
			add("sorted [entry,"+a.name+"]", func(v *view) *Term { return ok(a0, Add(a.get(v), one)) })
			add("sorted ["+a.name+",entry)", func(v *view) *Term { return ok(a.get(v), a0) })
			add("sorted ("+a.name+",entry)", func(v *view) *Term { return ok(Add(a.get(v), one), a0) })
			add("sorted ("+a.name+",entry]", func(v *view) *Term { return ok(Add(a.get(v), one), Add(a0, one)) })
		}
		return
	}
	if t.kind == "method" {
		t.methodCands(l, ints)
		return
	}
	var colls []*Obj
	for _, o := range []*Obj{t.data, t.temp} {
		if o != nil {
			if _, ok := l.st.heap[o]; ok {
				colls = append(colls, o)
			}
		}
	}
	ps := l.lessArgs()
	for _, o := range colls {
		o := o
		cur := func(v *view) *Term { return t.arr(v.st, o) }
		if l.wset[o] && t.kind == "sort" && t.spec != nil {
			// all changes of the collection are permutations inside the footprint
			a0, lo, hi := t.arr(l.st, o), t.spec.env["lo"], t.spec.env["hi"]
			l.cands = append(l.cands, &lcand{name: "permuted",
				holds: func(x *Exec, v *view) bool { return true },
				apply: func(v *view) {
					b := cur(v)
					v.st.assume(unchanged(b, a0, lo, hi).assume())
					sk := skFun("from")
					v.st.assume(forall1(func(w *Term) *Term {
						return Implies(in(lo, w, hi), And(Eq(sel(b, w), sel(a0, sk(w))), in(lo, sk(w), hi)))
					}, func(w *Term) []*Term { return []*Term{sel(b, w)} }))
				}})
		}
		for _, p := range ps {
			p := p
			if l.wset[o] {
				a0 := sel(t.arr(l.st, o), p)
				add("element "+p.S+" unchanged", func(v *view) *Term { return Eq(sel(cur(v), p), a0) })
			}
			for _, a := range ints {
				a := a
				e := a.get(l.entry)
				for _, rel := range []string{"<=", ">=", "<", ">"} {
					rel := rel
					mkc := func(n string, lo, hi func(v *view) *Term) {
						l.addQ(fmt.Sprintf("%s: elements of %s %s %s", n, o.Name, rel, p.S), func(v *view) *qf { return keyRange(cur(v), lo(v), hi(v), p, rel) })
					}
					A := func(v *view) *Term { return a.get(v) }
					A1 := func(v *view) *Term { return Add(a.get(v), one) }
					E := func(v *view) *Term { return e }
					E1 := func(v *view) *Term { return Add(e, one) }
					mkc("[entry,"+a.name+")", E, A)
					mkc("[entry,"+a.name+"]", E, A1)
					mkc("["+a.name+",entry)", A, E)
					mkc("("+a.name+",entry)", A1, E)
					mkc("("+a.name+",entry]", A1, E1)
					for _, b := range ints {
						if b == a {
							continue
						}
						b := b
						mkc("["+a.name+","+b.name+")", A, func(v *view) *Term { return b.get(v) })
					}
				}
			}
		}
	}
	if t.kind != "stable" {
		return
	}
	for _, o := range colls {
		o := o
		if !l.wset[o] {
			continue
		}
		cur := func(v *view) *Term { return t.arr(v.st, o) }
		a0 := t.arr(l.st, o)
		for _, a := range ints {
			a := a
			e := a.get(l.entry)
			l.addQ("sorted ["+a.name+" entry, now)", func(v *view) *qf { return t.ordered(cur(v), e, a.get(v)) })
			l.addQ("unchanged outside ["+a.name+" entry, now)", func(v *view) *qf { return unchanged(cur(v), a0, e, a.get(v)) })
			if t.spec != nil && t.spec.M != "" {
				l.addQ("members ["+a.name+" entry, now)", func(v *view) *qf { return member(t.spec.M, cur(v), e, a.get(v)) })
			}
			if t.spec == nil || t.spec.kind != "merge" {
				continue
			}
			src := t.spec.src
			if o != t.spec.dst {
				continue
			}
			for _, b := range ints {
				if b == a {
					continue
				}
				b := b
				for _, en := range []string{"e1", "e2"} {
					en := en
					l.addQ("["+a.name+" entry, now) below ["+b.name+","+en+")", func(v *view) *qf {
						return below(cur(v), e, a.get(v), t.arr(v.st, src), b.get(v), t.spec.env[en])
					})
				}
			}
		}
	}
}

// TypeAssert: a collection implements the interfaces of this package that its caller needs; the
// assertions are those of method values, which check for nil.
func (t *sortTheory) TypeAssert(x *Exec, st *State, in *ssa.TypeAssert, v Val) (Val, bool) {
	c, ok := v.(*CollV)
	if !ok || in.CommaOk || !types.IsInterface(in.AssertedType) || !types.AssignableTo(in.X.Type(), in.AssertedType) {
		return nil, false
	}
	return c, true
}

func sortedObjs(h map[*Obj]Val) []*Obj {
	var os []*Obj
	for o := range h {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].ID < os[j].ID })
	return os
}
