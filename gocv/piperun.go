package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Theory of the pipeline itself: its list of nodes, its source, its error and its context.
//
// The list of nodes has any length. Two arbitrary nodes X and Y, X before Y, are followed
// through it; what is proved of them holds of all nodes and all pairs of nodes.

// NodeV is a node loaded from the list.
type NodeV struct {
	pos      *Term
	ver      int
	isX, isY *Term
	kind     *Term
	role     string // "arg": an element of the arguments of Add
}

const (
	nkOther = iota
	nkSeq
	nkStrict
	nkLpar
	nkPar
)

type pipeExt struct {
	ver     int
	held    string // "", "R", "W"
	cancels int
	stored  bool // this call has stored an error
	e0      *Term
	sects   int
	calls   []string
}

func (e *pipeExt) clone() Ext {
	n := *e
	n.calls = append([]string(nil), e.calls...)
	return &n
}
func (e *pipeExt) onFork() {}

func px(st *State) *pipeExt { return st.ext.(*pipeExt) }

type pipeTheory struct {
	NoTheory
	mode  string
	p     *Obj
	st    *types.Struct // of Pipeline
	nodes *Obj
	g     map[string]*Obj // ghost variables
	gl    []string
	kindX *Term
	kindY *Term
	ctx   Val
	canc  Val
	D     *Term
	N     *Term
	inc   *Term
	max   *Term
	param *Term // the argument of SetErr
	x     *Exec
	size  *Obj // not used by the code directly: the cell given to Begin
}

func (t *pipeTheory) field(match func(ft types.Type) bool) int {
	r := -1
	for i := 0; i < t.st.NumFields(); i++ {
		if match(t.st.Field(i).Type()) {
			if r >= 0 {
				panic(unsup("fields of Pipeline"))
			}
			r = i
		}
	}
	if r < 0 {
		panic(unsup("fields of Pipeline"))
	}
	return r
}

func (t *pipeTheory) fErr() int {
	return t.field(func(ft types.Type) bool { return types.Identical(ft, errorType) })
}
func (t *pipeTheory) fCtx() int {
	return t.field(func(ft types.Type) bool { return isNamed(ft, "context", "Context") })
}
func (t *pipeTheory) fCancel() int {
	return t.field(func(ft types.Type) bool { return isNamed(ft, "context", "CancelFunc") })
}
func (t *pipeTheory) fSource() int {
	return t.field(func(ft types.Type) bool { return isNamed(ft, t.x.prog.Module+"/pipeline", "Source") })
}
func (t *pipeTheory) fNodes() int {
	return t.field(func(ft types.Type) bool {
		s, ok := ft.Underlying().(*types.Slice)
		return ok && isNamed(s.Elem(), t.x.prog.Module+"/pipeline", "Node")
	})
}

// ghost variables

func (t *pipeTheory) ghost(st *State, name string, v *Term) {
	if t.g == nil {
		t.g = map[string]*Obj{}
	}
	o := t.g[name]
	if o == nil {
		o = NewObj("ghost", name, nil)
		t.g[name] = o
		t.gl = append(t.gl, name)
	}
	st.heap[o] = tv(v)
}

func (t *pipeTheory) get(st *State, name string) *Term { return st.heap[t.g[name]].(*TermV).T }

func (t *pipeTheory) set(st *State, name string, v *Term) {
	st.heap[t.g[name]] = tv(v)
	st.log.writes[t.g[name]] = true
}

func (t *pipeTheory) newState(x *Exec) *State {
	t.x = x
	st := &State{heap: map[*Obj]Val{}, log: newLog(), ext: &pipeExt{}}
	st.assume(Ge(gmp, IntT(1)))
	st.assume(mk("<", SBool, gmp, bigPow(31)))
	st.g = Ghost{S: IntT(0), D: IntT(0), N: IntT(0), Pos: IntT(0)}
	pt := x.prog.Pkgs["pipeline"].Type("Pipeline")
	if pt == nil {
		panic(unsup("type pipeline.Pipeline does not exist"))
	}
	s, ok := pt.Type().Underlying().(*types.Struct)
	if !ok {
		panic(unsup("pipeline.Pipeline is not a struct"))
	}
	t.st = s
	t.p = NewObj("cell", "p", pt.Type())
	st.heap[t.p] = zeroVal(pt.Type())
	return st
}

func (t *pipeTheory) setField(st *State, f int, v Val) {
	st.heap[t.p] = setPath(st.heap[t.p], []Sel{{Field: f}}, v)
}

func (t *pipeTheory) getField(st *State, f int) Val {
	return st.heap[t.p].(*StructV).F[f]
}

func (t *pipeTheory) isErrField(p *PtrV) bool {
	return p.Obj == t.p && len(p.Path) == 1 && p.Path[0].Idx == nil && p.Path[0].Field == t.fErr()
}

// others: other goroutines may have set the error.
func (t *pipeTheory) others(st *State) {
	e := t.get(st, "E")
	n := Fresh("err", SU)
	st.assume(Implies(Ne(e, UNil), Eq(n, e)))
	t.set(st, "E", n)
}

func (t *pipeTheory) Load(x *Exec, st *State, p *PtrV, pos token.Pos) (Val, bool) {
	switch {
	case t.isErrField(p):
		if px(st).held == "" {
			x.fail(st, x.unit.tagsFor("error"), "error-read-under-lock", "the error of the pipeline is read without its lock", pos)
			t.others(st)
		} else {
			x.pass(x.unit.tagsFor("error"), "error-read-under-lock", pos)
		}
		return tv(t.get(st, "E")), true
	case p.Obj == t.p && len(p.Path) == 0:
		panic(unsup("the pipeline is copied"))
	case p.Obj == t.nodes && t.nodes != nil && len(p.Path) == 1 && p.Path[0].Idx != nil:
		return t.node(x, st, p.Path[0].Idx), true
	case p.Obj.Kind == "absnode":
		if len(p.Path) == 1 && p.Path[0].Idx == nil {
			return freshVal("field", p.Obj.Typ.Underlying().(*types.Struct).Field(p.Path[0].Field).Type()), true
		}
		panic(unsup("read of a node"))
	}
	return nil, false
}

func (t *pipeTheory) Store(x *Exec, st *State, p *PtrV, v Val, pos token.Pos) bool {
	switch {
	case t.isErrField(p):
		tags := x.unit.tagsFor("error")
		if px(st).held != "W" {
			x.fail(st, tags, "error-written-under-lock", "the error of the pipeline is written without its lock", pos)
		} else {
			x.oblige(st, tags, "first-error-wins", Or(Eq(t.get(st, "E"), UNil), Eq(t.get(st, "E"), x.term(v))), pos)
		}
		if t.param != nil {
			x.oblige(st, tags, "the-given-error-is-stored", Eq(x.term(v), t.param), pos)
		}
		px(st).stored = true
		t.set(st, "E", x.term(v))
		return true
	case p.Obj == t.nodes && t.nodes != nil:
		panic(unsup("assignment to an element of the list of nodes"))
	case p.Obj.Kind == "absnode":
		n := p.Obj.Extra.(*NodeV)
		if len(p.Path) != 1 || p.Path[0].Idx != nil || n.isX == nil {
			panic(unsup("write of a node"))
		}
		ft := p.Obj.Typ.Underlying().(*types.Struct).Field(p.Path[0].Field).Type()
		switch {
		case isNamed(ft, x.prog.Module+"/pipeline", "NodeKind"):
			ord, _ := x.prog.intConst("pipeline", "Ordered")
			t.set(st, "kindOrdX", Ite(n.isX, Eq(x.term(v), IntT(ord)), t.get(st, "kindOrdX")))
		case sortOf(ft) == SBool:
			t.set(st, "ordX", Ite(n.isX, x.term(v), t.get(st, "ordX")))
		case strings.HasSuffix(ft.String(), "sync.Cond"):
			t.set(st, "condX", Ite(n.isX, BoolT(!isNilConst(v)), t.get(st, "condX")))
		default:
			panic(unsup("write of a field of a node"))
		}
		return true
	}
	return false
}

func (t *pipeTheory) node(x *Exec, st *State, i *Term) Val {
	isX := And(t.get(st, "aliveX"), Eq(t.get(st, "posX"), i))
	isY := And(t.get(st, "aliveY"), Eq(t.get(st, "posY"), i))
	k := Fresh("kind", SInt)
	st.assume(And(Implies(isX, Eq(k, t.kindX)), Implies(isY, Eq(k, t.kindY))))
	return &NodeV{pos: i, ver: px(st).ver, isX: isX, isY: isY, kind: k}
}

func (t *pipeTheory) TypeAssert(x *Exec, st *State, in *ssa.TypeAssert, v Val) (Val, bool) {
	n, ok := v.(*NodeV)
	if !ok {
		return nil, false
	}
	pt, ok := in.AssertedType.(*types.Pointer)
	if !ok {
		panic(unsup("type assertion on a node"))
	}
	kind := map[string]int64{"seqnode": nkSeq, "strictordnode": nkStrict, "lparnode": nkLpar, "parnode": nkPar}
	nt, ok := pt.Elem().(*types.Named)
	if !ok || kind[nt.Obj().Name()] == 0 {
		panic(unsup("type assertion on a node"))
	}
	is := Eq(n.kind, IntT(kind[nt.Obj().Name()]))
	o := NewObj("absnode", nt.Obj().Name(), nt)
	o.Extra = n
	ptr := &PtrV{Obj: o}
	if in.CommaOk {
		return &TupleV{[]Val{ptr, tv(is)}}, true
	}
	x.oblige(st, x.unit.tagsFor("safety"), "type-assertion", is, in.Pos())
	return ptr, true
}

// remove: the node at position r leaves the list.
func (t *pipeTheory) remove(x *Exec, st *State, r *Term, pos token.Pos) {
	for _, v := range []string{"X", "Y"} {
		is := And(t.get(st, "alive"+v), Eq(t.get(st, "pos"+v), r))
		x.oblige(st, x.unit.tagsFor("nodes"), "only-unused-or-merged-nodes-are-removed "+v,
			Implies(is, And(t.get(st, "begun"+v), Or(Not(t.get(st, "keep"+v)), t.get(st, "merged"+v)))), pos)
		p := t.get(st, "pos"+v)
		t.set(st, "alive"+v, And(t.get(st, "alive"+v), Ne(p, r)))
		t.set(st, "pos"+v, Ite(Gt(p, r), Sub(p, IntT(1)), p))
	}
	t.set(st, "len", Sub(t.get(st, "len"), IntT(1)))
	px(st).ver++
}

func (t *pipeTheory) Bound(x *Exec, fr *Frame, st *State, b *BoundV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	pos := in.Pos()
	one := func(v ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Kind: ORet, Ret: v}}, true }
	switch b.Name {
	case "builtin.append":
		if t.nodes == nil {
			return nil, false
		}
		a, ok1 := args[0].(*SliceV)
		c, ok2 := args[1].(*SliceV)
		if ok1 && ok2 && a.Obj == t.nodes && c.Obj == t.nodes && t.mode == "run" {
			n := t.get(st, "len")
			g := And(Eq(a.Off, IntT(0)), Eq(c.Off, Add(a.Len, IntT(1))), Eq(Add(c.Off, c.Len), n))
			x.oblige(st, x.unit.tagsFor("nodes"), "one-node-is-removed", g, pos)
			st.assume(g)
			t.remove(x, st, a.Len, pos)
			return one(&SliceV{Obj: t.nodes, Off: IntT(0), Len: Sub(n, IntT(1))})
		}
		if ok1 && ok2 && a.Obj == t.nodes && t.mode == "add" {
			arr, ok := st.heap[c.Obj].(*ArrayV)
			if !ok || !c.Off.isInt() || !c.Len.isInt() {
				panic(unsup("append to the list of nodes"))
			}
			l := t.get(st, "len")
			tags := x.unit.tagsFor("nodes")
			for k := int64(0); k < c.Len.N; k++ {
				nv, ok := arr.E[c.Off.N+k].(*NodeV)
				if !ok || nv.role != "arg" {
					panic(unsup("append to the list of nodes"))
				}
				x.oblige(st, tags, "appended-to-the-whole-list", And(Eq(a.Off, IntT(0)), Eq(Add(a.Len, IntT(k)), l)), pos)
				x.oblige(st, tags, "nodes-added-in-order-once", Eq(nv.pos, t.get(st, "placed")), pos)
				t.set(st, "placed", Add(t.get(st, "placed"), IntT(1)))
				l = Add(l, IntT(1))
			}
			t.set(st, "len", l)
			return one(&SliceV{Obj: t.nodes, Off: IntT(0), Len: l})
		}
		panic(unsup("append"))
	case "builtin.copy":
		a, ok1 := args[0].(*SliceV)
		c, ok2 := args[1].(*SliceV)
		if ok1 && ok2 && t.nodes != nil && a.Obj == t.nodes && c.Obj == t.nodes && t.mode == "run" {
			n := t.get(st, "len")
			g := And(Eq(c.Off, Add(a.Off, IntT(1))), Eq(Add(c.Off, c.Len), n), Eq(Add(a.Off, a.Len), n))
			x.oblige(st, x.unit.tagsFor("nodes"), "one-node-is-removed", g, pos)
			st.assume(g)
			t.remove(x, st, a.Off, pos)
			return one(tv(c.Len))
		}
	case "invoke.Begin", "invoke.TryMerge", "invoke.Feed", "invoke.End":
		n, ok := b.Recv.(*NodeV)
		if !ok {
			return nil, false
		}
		return t.nodeCall(x, st, n, b.Name[len("invoke."):], args, in), true
	}
	if o, ok := b.Recv.(*OpaqueV); ok {
		switch o.Name {
		case "source":
			return t.sourceCall(x, st, b.Name[len("invoke."):], args, in), true
		case "ctx":
			switch b.Name {
			case "invoke.Err":
				c := Fresh("ctxerr", SU)
				t.ctxChecked(st, c)
				return one(tv(c))
			case "invoke.Done":
				return one(&OpaqueV{Name: "done"})
			}
		}
	}
	return nil, false
}

func (t *pipeTheory) ctxChecked(st *State, c *Term) {
	if t.g["ctxOK"] == nil {
		return
	}
	t.set(st, "ctxOK", Eq(c, UNil))
	t.set(st, "ctxDone", Or(t.get(st, "ctxDone"), Ne(c, UNil)))
}

// Instr: a select on the context.
func (t *pipeTheory) Instr(x *Exec, fr *Frame, st *State, b *ssa.BasicBlock, i int, in ssa.Instruction) ([]Outcome, bool) {
	s, ok := in.(*ssa.Select)
	if !ok || t.mode != "run" {
		return nil, false
	}
	if s.Blocking || len(s.States) != 1 || s.States[0].Dir != types.RecvOnly {
		panic(unsup("select in RunWithContext"))
	}
	ch, ok := x.get(fr, s.States[0].Chan).(*OpaqueV)
	if !ok || ch.Name != "done" {
		panic(unsup("select in RunWithContext"))
	}
	var res []Outcome
	for _, done := range []bool{true, false} {
		f2, s2 := fr.clone(), st.clone()
		k := int64(-1)
		if done {
			k = 0
			t.ctxChecked(s2, Fresh("ctxerr", SU))
			s2.assume(t.get(s2, "ctxDone"))
			s2.assume(Not(t.get(s2, "ctxOK")))
		} else {
			t.ctxChecked(s2, UNil)
		}
		f2.regs[s] = &TupleV{[]Val{tv(IntT(k)), tv(TFalse), &OpaqueV{Name: "recv"}}}
		res = append(res, x.runFrom(f2, s2, b, i+1)...)
	}
	return res, true
}

// settled: every node in the list is in use, and every other node was begun.
func (t *pipeTheory) settled(st *State, v string) *Term {
	return And(t.get(st, "begun"+v), Implies(t.get(st, "alive"+v), And(t.get(st, "keep"+v), Not(t.get(st, "merged"+v)))))
}

func (t *pipeTheory) isPipe(v Val) bool {
	p, ok := v.(*PtrV)
	return ok && p.Obj == t.p && len(p.Path) == 0
}

// marked: X will keep the order of the batches if a strictly ordered node follows.
func (t *pipeTheory) marked(st *State) *Term {
	return And(Implies(Eq(t.kindX, IntT(nkSeq)), t.get(st, "kindOrdX")),
		Implies(Eq(t.kindX, IntT(nkLpar)), And(t.get(st, "ordX"), t.get(st, "condX"))))
}

func (t *pipeTheory) nodeCall(x *Exec, st *State, n *NodeV, name string, args []Val, in ssa.Instruction) []Outcome {
	pos := in.Pos()
	one := func(v ...Val) []Outcome { return []Outcome{{St: st, Kind: ORet, Ret: v}} }
	tags := x.unit.tagsFor("nodes")
	ob := func(kind, label string, g *Term) { x.oblige(st, x.unit.tagsFor(kind), label, g, pos) }
	is := map[string]*Term{"X": n.isX, "Y": n.isY}
	if t.mode == "add" {
		if name != "TryMerge" {
			panic(unsup("%s in Add", name))
		}
		a, ok := args[0].(*NodeV)
		if !ok || a.role != "arg" || n.role != "" {
			panic(unsup("TryMerge in Add"))
		}
		m := Fresh("merged", SBool)
		ob("nodes", "merged-with-the-last-node", Eq(n.pos, Sub(t.get(st, "len"), IntT(1))))
		ob("nodes", "nodes-added-in-order-once", Eq(a.pos, t.get(st, "placed")))
		t.set(st, "placed", Ite(m, Add(a.pos, IntT(1)), t.get(st, "placed")))
		return one(tv(m))
	}
	if t.mode == "feedforward" {
		if name != "Feed" {
			panic(unsup("%s in FeedForward", name))
		}
		ob("nodes", "fed-to-the-next-node", And(BoolT(t.isPipe(args[0])), Eq(n.pos, Add(t.get(st, "index"), IntT(1))), Eq(x.term(args[1]), n.pos)))
		ob("nodes", "seqno-unchanged", Eq(x.term(args[2]), t.get(st, "seqno")))
		ob("nodes", "data-unchanged", Eq(x.term(args[3]), t.get(st, "data")))
		t.set(st, "nfed", Add(t.get(st, "nfed"), IntT(1)))
		return one()
	}
	if n.ver != px(st).ver {
		panic(unsup("a node is used after the list of nodes has changed"))
	}
	switch name {
	case "Begin":
		ob("nodes", "begin-args", And(BoolT(t.isPipe(args[0])), Eq(x.term(args[1]), n.pos)))
		ob("cancel", "context-set-before-begin", And(BoolT(sameVal(t.getField(st, t.fCtx()), t.ctx)), BoolT(sameVal(t.getField(st, t.fCancel()), t.canc))))
		ob("nodes", "source-prepared-before-begin", t.get(st, "prepared"))
		ob("nodes", "begun-once X", Implies(n.isX, Not(t.get(st, "begunX"))))
		ob("nodes", "begun-in-order", Implies(n.isY, t.get(st, "begunX")))
		ob("order", "order-kept-before-strictly-ordered-nodes", Implies(And(n.isX, Eq(t.kindY, IntT(nkStrict))), t.marked(st)))
		sp, ok := args[2].(*PtrV)
		if !ok {
			panic(unsup("data size given to Begin"))
		}
		ob("size", "data-size-passed-on", Eq(x.term(x.load(st, sp, pos)), t.get(st, "fsize")))
		ns := Fresh("fsize", SInt)
		x.store(st, sp, tv(ns), pos)
		t.set(st, "fsize", ns)
		k := Fresh("keep", SBool)
		for v, isv := range is {
			t.set(st, "keep"+v, Ite(isv, k, t.get(st, "keep"+v)))
			t.set(st, "begun"+v, Or(isv, t.get(st, "begun"+v)))
		}
		t.others(st)
		t.set(st, "ctxOK", TFalse)
		return one(tv(k))
	case "TryMerge":
		a, ok := args[0].(*NodeV)
		if !ok {
			panic(unsup("argument of TryMerge"))
		}
		if a.ver != px(st).ver {
			panic(unsup("a node is used after the list of nodes has changed"))
		}
		m := Fresh("merged", SBool)
		ob("nodes", "only-neighbours-are-merged", Eq(a.pos, Add(n.pos, IntT(1))))
		for v, isv := range map[string]*Term{"X": a.isX, "Y": a.isY} {
			ob("nodes", "only-nodes-in-use-are-merged "+v, Implies(isv, t.settled(st, v)))
			ob("nodes", "only-nodes-in-use-are-merged "+v, Implies(is[v], t.settled(st, v)))
			t.set(st, "merged"+v, Or(t.get(st, "merged"+v), And(isv, m)))
		}
		return one(tv(m))
	case "Feed":
		ob("nodes", "batches-fed-to-the-first-node", And(BoolT(t.isPipe(args[0])), Eq(n.pos, IntT(0)), Eq(x.term(args[1]), IntT(0))))
		st.assume(mk("<", SBool, t.get(st, "nfed"), bigPow(62))) // fewer than 2^62 batches
		ob("nodes", "batches-numbered-from-0", Eq(x.term(args[2]), t.get(st, "nfed")))
		ob("nodes", "fetched-batch-is-fed", And(t.get(st, "pending"), Eq(x.term(args[3]), t.get(st, "cur"))))
		ob("nodes", "all-nodes-ready X", And(t.settled(st, "X"), Not(t.get(st, "endedX"))))
		t.set(st, "nfed", Add(t.get(st, "nfed"), IntT(1)))
		t.set(st, "pending", TFalse)
		t.set(st, "ctxOK", TFalse)
		t.others(st)
		return one()
	case "End":
		ob("end", "ended-once X", Implies(n.isX, Not(t.get(st, "endedX"))))
		ob("end", "ended-in-order", Implies(n.isY, Or(t.get(st, "endedX"), Not(t.get(st, "aliveX")))))
		ob("end", "all-nodes-ready X", t.settled(st, "X"))
		ob("end", "all-batches-fed", Not(t.get(st, "pending")))
		ob("end", "ended-after-the-last-batch", Or(t.get(st, "exhausted"), t.get(st, "ctxDone"), Ne(t.get(st, "E"), UNil)))
		for v, isv := range is {
			t.set(st, "ended"+v, Or(isv, t.get(st, "ended"+v)))
		}
		t.others(st)
		return one()
	}
	_ = tags
	panic(unsup("call of %s of a node", name))
}

func (t *pipeTheory) sourceCall(x *Exec, st *State, name string, args []Val, in ssa.Instruction) []Outcome {
	pos := in.Pos()
	one := func(v ...Val) []Outcome { return []Outcome{{St: st, Kind: ORet, Ret: v}} }
	ob := func(kind, label string, g *Term) { x.oblige(st, x.unit.tagsFor(kind), label, g, pos) }
	if t.mode != "run" {
		panic(unsup("use of the source"))
	}
	switch name {
	case "Err":
		return one(tv(t.get(st, "S")))
	case "Data":
		return one(tv(t.get(st, "cur")))
	case "Prepare":
		ob("cancel", "source-gets-the-context", BoolT(sameVal(args[0], t.ctx)))
		ob("nodes", "prepared-once", Not(t.get(st, "prepared")))
		t.set(st, "prepared", TTrue)
		return one(tv(t.D))
	case "Fetch":
		n := x.term(args[0])
		ob("nodes", "prepared-before-fetch", t.get(st, "prepared"))
		ob("nodes", "all-nodes-ready X", And(t.settled(st, "X"), Not(t.get(st, "endedX"))))
		ob("cancel", "no-fetch-without-looking-at-the-context", t.get(st, "ctxOK"))
		ob("nodes", "no-fetch-after-the-end", Not(t.get(st, "exhausted")))
		ob("nodes", "every-batch-is-fed", Not(t.get(st, "pending")))
		ob("error", "source-error-is-not-lost", Or(Eq(t.get(st, "S"), UNil), Ne(t.get(st, "E"), UNil)))
		known := Ge(t.D, IntT(0))
		ob("batch", "batch-size-positive", Ge(n, IntT(1)))
		ob("batch", "one-size-for-a-known-total", Implies(known, Or(Eq(t.get(st, "wantK"), IntT(0)), Eq(t.get(st, "wantK"), n))))
		ob("batch", "number-of-batches", Implies(known, mk(">=", SBool, Mul(n, t.N), t.D)))
		ob("batch", "batch-size-for-an-unknown-total", Implies(Not(known), Eq(n, t.get(st, "wantU"))))
		t.set(st, "wantK", n)
		w := Add(t.get(st, "wantU"), t.inc)
		t.set(st, "wantU", Ite(Lt(w, t.max), w, t.max))
		r := Fresh("fetched", SInt)
		st.assume(And(Le(IntT(0), r), Le(r, n)))
		t.set(st, "exhausted", Eq(r, IntT(0)))
		t.set(st, "pending", Gt(r, IntT(0)))
		t.set(st, "cur", Fresh("batch", SU))
		t.set(st, "S", Fresh("srcerr", SU))
		t.set(st, "ctxOK", TFalse)
		return one(tv(r))
	}
	panic(unsup("call of %s of the source", name))
}

func (t *pipeTheory) Opaque(x *Exec, st *State, f *OpaqueFn, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	if f.Role == "cancel" {
		e := px(st)
		e.cancels++
		e.calls = append(e.calls, "cancel")
		if t.mode == "seterr" {
			x.oblige(st, x.unit.tagsFor("error"), "error-stored-before-cancel", BoolT(e.stored), in.Pos())
		}
		return []Outcome{{St: st, Kind: ORet}}, true
	}
	return nil, false
}

func (t *pipeTheory) intr(fn *ssa.Function) intrinsic {
	one := func(st *State, v ...Val) []Outcome { return []Outcome{{St: st, Kind: ORet, Ret: v}} }
	name := fn.String()
	switch name {
	case "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			p, ok := args[0].(*PtrV)
			if !ok || p.Obj != t.p {
				panic(unsup("lock outside the pipeline"))
			}
			e := px(st)
			tags := x.unit.tagsFor("error")
			switch fn.Name() {
			case "Lock", "RLock":
				if e.held != "" {
					x.fail(st, tags, "no-self-deadlock", "the lock of the pipeline is acquired twice", in.Pos())
					panic(deadPath{})
				}
				t.others(st)
				e.e0 = t.get(st, "E")
				e.sects++
				e.held = map[string]string{"Lock": "W", "RLock": "R"}[fn.Name()]
			case "Unlock", "RUnlock":
				if e.held != map[string]string{"Unlock": "W", "RUnlock": "R"}[fn.Name()] {
					x.fail(st, tags, "unlock-of-held-lock", "the lock of the pipeline is not held this way", in.Pos())
					panic(deadPath{})
				}
				e.held = ""
			}
			return one(st)
		}
	case "sync.NewCond":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			return one(st, &OpaqueV{Name: "cond"})
		}
	case "context.Background":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			return one(st, &OpaqueV{Name: "background"})
		}
	case "context.WithCancel":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			if px(st).cancels > 0 || t.mode != "Run" {
				panic(unsup("context.WithCancel"))
			}
			px(st).calls = append(px(st).calls, "WithCancel")
			return one(st, t.ctx, t.canc)
		}
	}
	if fn.Parent() != nil || fn.Pkg == nil {
		return nil
	}
	switch t.relPipe(fn) {
	case "Err":
		if t.mode != "run" {
			return nil
		}
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			t.others(st)
			return one(st, tv(t.get(st, "E")))
		}
	case "SetErr":
		if t.mode != "run" {
			return nil
		}
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			t.others(st)
			v := x.term(args[1])
			x.oblige(st, x.unit.tagsFor("error"), "only-source-errors-are-set", And(Eq(v, t.get(st, "S")), Ne(v, UNil)), in.Pos())
			e := t.get(st, "E")
			t.set(st, "E", Ite(Eq(e, UNil), v, e))
			return one(st, tv(Eq(e, UNil)))
		}
	case "RunWithContext":
		if t.mode != "Run" {
			return nil
		}
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			px(st).calls = append(px(st).calls, "RunWithContext")
			x.oblige(st, x.unit.tagsFor("cancel"), "runs-with-its-own-context", BoolT(t.isPipe(args[0]) && sameVal(args[1], t.ctx) && sameVal(args[2], t.canc)), in.Pos())
			s2 := st.clone()
			return []Outcome{{St: st, Kind: ORet}, {St: s2, Kind: OPanic, Pan: tv(Fresh("panic", SU))}}
		}
	}
	return nil
}

// relPipe gives the name of a method of Pipeline.
func (t *pipeTheory) relPipe(fn *ssa.Function) string {
	r := fn.Signature.Recv()
	if r == nil {
		return ""
	}
	ty := r.Type()
	if p, ok := ty.(*types.Pointer); ok {
		ty = p.Elem()
	}
	if !isNamed(ty, t.x.prog.Module+"/pipeline", "Pipeline") {
		return ""
	}
	return fn.Name()
}

func (t *pipeTheory) Cands(l *loopRun) {
	if t.mode != "run" {
		return
	}
	add := func(name string, f func(st *State) *Term) {
		l.cands = append(l.cands, &lcand{name: name, term: func(v *view) *Term { return f(v.st) }})
	}
	addV := func(name string, f func(v *view) *Term) { l.cands = append(l.cands, &lcand{name: name, term: f}) }
	g := t.get
	for _, n := range t.gl {
		n := n
		switch g(l.entry.st, n).Sort {
		case SBool:
			add(n, func(st *State) *Term { return g(st, n) })
			add("!"+n, func(st *State) *Term { return Not(g(st, n)) })
		case SU:
			add(n+"=nil", func(st *State) *Term { return Eq(g(st, n), UNil) })
			add(n+"!=nil", func(st *State) *Term { return Ne(g(st, n), UNil) })
		}
	}
	add("list of nodes", func(st *State) *Term {
		if ns, ok := t.getField(st, t.fNodes()).(*SliceV); ok && ns.Obj == t.nodes {
			return And(Eq(ns.Off, IntT(0)), Eq(ns.Len, g(st, "len")))
		}
		return TFalse
	})
	add("S=nil or E!=nil", func(st *State) *Term { return Or(Eq(g(st, "S"), UNil), Ne(g(st, "E"), UNil)) })
	add("X before Y", func(st *State) *Term {
		return Implies(And(g(st, "aliveX"), g(st, "aliveY")), Lt(g(st, "posX"), g(st, "posY")))
	})
	add("begunY => begunX", func(st *State) *Term { return Implies(g(st, "begunY"), g(st, "begunX")) })
	strictY := Eq(t.kindY, IntT(nkStrict))
	type atom struct {
		name string
		f    func(p, v *Term) *Term
	}
	atoms := []atom{{"<", Lt}, {">=", Ge}, {"<=", Le}, {">", Gt}}
	mod := map[string]bool{}
	for _, v := range l.vars {
		mod[v.name] = true
	}
	for _, V := range []string{"X", "Y"} {
		V := V
		moved := mod["pos"+V] || mod["alive"+V]
		gs := map[string]string{"begun": "begun", "not begun": "begun", "keep": "keep", "not merged": "merged", "ended": "ended", "not ended": "ended"}
		facts := map[string]func(st *State) *Term{
			"begun":      func(st *State) *Term { return g(st, "begun"+V) },
			"not begun":  func(st *State) *Term { return Not(g(st, "begun"+V)) },
			"keep":       func(st *State) *Term { return g(st, "keep"+V) },
			"not merged": func(st *State) *Term { return Not(g(st, "merged"+V)) },
			"ended":      func(st *State) *Term { return g(st, "ended"+V) },
			"not ended":  func(st *State) *Term { return Not(g(st, "ended"+V)) },
		}
		add("pos"+V+" in range", func(st *State) *Term {
			return Implies(g(st, "alive"+V), And(Le(IntT(0), g(st, "pos"+V)), Lt(g(st, "pos"+V), g(st, "len"))))
		})
		add("dead"+V+" => begun", func(st *State) *Term { return Implies(Not(g(st, "alive"+V)), g(st, "begun"+V)) })
		add("merged"+V+" => dead", func(st *State) *Term { return Implies(g(st, "merged"+V), Not(g(st, "alive"+V))) })
		for fn, f := range facts {
			f := f
			if !moved && !mod[gs[fn]+V] {
				continue // what is known stays known
			}
			add("alive"+V+" => "+fn, func(st *State) *Term { return Implies(g(st, "alive"+V), f(st)) })
			strong := []*lcand{l.cands[len(l.cands)-1]}
			if fn == "keep" || fn == "not merged" || fn == "begun" || fn == "not ended" {
				strong = append(strong, byName(l, map[string]string{"keep": "keep" + V, "not merged": "!merged" + V, "begun": "begun" + V, "not ended": "!ended" + V}[fn]))
			}
			for _, a := range atoms {
				a := a
				for _, v := range l.vars {
					if v.sort != SInt || v.ghost || t.isGhostVar(v.name) {
						continue
					}
					v := v
					addV("alive"+V+" and pos"+V+a.name+v.name+" => "+fn, func(w *view) *Term {
						return Implies(And(g(w.st, "alive"+V), a.f(g(w.st, "pos"+V), v.get(w))), f(w.st))
					})
					l.cands[len(l.cands)-1].by = strong
				}
			}
		}
	}
	addV("strictY => marked", func(w *view) *Term { return Implies(strictY, t.marked(w.st)) })
	allMarked := l.cands[len(l.cands)-1]
	for _, v := range l.vars {
		if v.sort != SInt || v.ghost || t.isGhostVar(v.name) {
			continue
		}
		v := v
		for _, a := range atoms {
			a := a
			for _, b := range l.vars {
				if b.sort == SBool && !b.ghost && !t.isGhostVar(b.name) {
					b := b
					addV("strictY and posY"+a.name+v.name+" => "+b.name, func(w *view) *Term {
						return Implies(And(strictY, a.f(g(w.st, "posY"), v.get(w))), b.get(w))
					})
					addV("strictY and posY"+a.name+v.name+" => !"+b.name, func(w *view) *Term {
						return Implies(And(strictY, a.f(g(w.st, "posY"), v.get(w))), Not(b.get(w)))
					})
				}
			}
			addV("strictY => posY"+a.name+v.name, func(w *view) *Term { return Implies(strictY, a.f(g(w.st, "posY"), v.get(w))) })
			addV("strictY and posX"+a.name+v.name+" => marked", func(w *view) *Term {
				return Implies(And(strictY, a.f(g(w.st, "posX"), v.get(w))), t.marked(w.st))
			})
			l.cands[len(l.cands)-1].by = []*lcand{allMarked}
		}
	}
	for _, v := range l.vars {
		if v.sort != SInt || v.ghost || t.isGhostVar(v.name) {
			continue
		}
		v := v
		addV(v.name+"<=len", func(w *view) *Term { return Le(v.get(w), g(w.st, "len")) })
		addV(v.name+"<len", func(w *view) *Term { return Lt(v.get(w), g(w.st, "len")) })
		addV("wantK=0 or "+v.name, func(w *view) *Term { return Or(Eq(g(w.st, "wantK"), IntT(0)), Eq(g(w.st, "wantK"), v.get(w))) })
	}
	for _, tm := range l.invs {
		tm := tm
		add("wantK=0 or "+tm.S, func(st *State) *Term { return Or(Eq(g(st, "wantK"), IntT(0)), Eq(g(st, "wantK"), tm)) })
	}
	add("wantU<=max", func(st *State) *Term { return And(Le(IntT(1), g(st, "wantU")), Le(g(st, "wantU"), t.max)) })
}

func byName(l *loopRun, name string) *lcand {
	for _, c := range l.cands {
		if c.name == name {
			return c
		}
	}
	return nil
}

func (t *pipeTheory) isGhostVar(name string) bool { return t.g[name] != nil }

// ---------------------------------------------------------------- units

func pipeRunUnits(p *Program) []*UnitDef {
	var ds []*UnitDef
	add := func(name, mode string, tags map[string][]string, wrap bool, run func(x *Exec, t *pipeTheory)) {
		t := &pipeTheory{mode: mode}
		u := &Unit{Name: "pipeline." + name, Tags: tags, Theory: t, intr: t.intr, noTerm: true, wrapInts: wrap, lean: mode == "run"}
		ds = append(ds, &UnitDef{Name: u.Name, Tags: u.allTags(nil), Unit: u, Run: func(x *Exec) { run(x, t) }})
	}
	c29 := map[string][]string{"default": {"C29"}}
	add("Pipeline.SetErr", "seterr", c29, false, verifySetErr)
	add("Pipeline.Err", "err", c29, false, verifyErr)
	add("Pipeline.NofBatches", "nof", map[string][]string{"default": {"C25"}}, true, verifyNofBatches)
	add("Pipeline.Run", "Run", map[string][]string{"default": {"C24"}, "cancel": {"C22", "C23", "C24"}}, false, verifyRun)
	add("Pipeline.FeedForward", "feedforward", map[string][]string{"default": {"C22"}}, false, verifyFeedForward)
	add("Pipeline.Add", "add", map[string][]string{"default": {"C22"}, "nodes": {"C22", "C23"}}, false, verifyAdd)
	add("Pipeline.RunWithContext", "run", map[string][]string{
		"default": {"C22"}, "nodes": {"C22", "C23"}, "end": {"C23"}, "order": {"C21", "C24"}, "cancel": {"C24"},
		"batch": {"C25"}, "size": {"C27", "C28"}, "error": {"C29"}, "errend": {"C23", "C29"},
	}, true, verifyRunWithContext)
	return ds
}

func (t *pipeTheory) method(x *Exec, name string, nargs int) *ssa.Function {
	fn := x.prog.FuncByName("pipeline.Pipeline." + name)
	if fn == nil {
		panic(unsup("method %s does not exist", name))
	}
	if len(fn.Params) != nargs {
		panic(unsup("parameters of %s", name))
	}
	return fn
}

func (t *pipeTheory) self() Val { return &PtrV{Obj: t.p} }

func verifySetErr(x *Exec, t *pipeTheory) {
	st := t.newState(x)
	fn := t.method(x, "SetErr", 2)
	tags := x.unit.tagsFor("error")
	t.ghost(st, "E", Fresh("E", SU))
	t.param = Fresh("err", SU)
	t.setField(st, t.fCancel(), &OpaqueFn{Role: "cancel", Name: "cancel"})
	for _, o := range x.runFn(st, fn, nil, []Val{t.self(), tv(t.param)}, nil) {
		s, e := o.St, px(o.St)
		if o.Kind == OPanic {
			x.fail(s, tags, "does-not-panic", "SetErr panics", fn.Pos())
			continue
		}
		if e.held != "" {
			x.fail(s, tags, "lock-released", "SetErr returns with the lock held", fn.Pos())
		}
		if e.sects == 0 {
			x.fail(s, tags, "error-stored", "SetErr does not look at the error", fn.Pos())
			continue
		}
		r := x.term(o.Ret[0])
		x.oblige(s, tags, "true-iff-stored", Eq(r, BoolT(e.stored)), fn.Pos())
		if !e.stored {
			x.oblige(s, tags, "stored-if-no-error", Ne(t.get(s, "E"), UNil), fn.Pos())
		} else {
			x.oblige(s, tags, "only-first-error-stored", Eq(e.e0, UNil), fn.Pos())
		}
		x.oblige(s, tags, "canceled-iff-stored", BoolT((e.cancels > 0) == e.stored), fn.Pos())
	}
	x.verified = append(x.verified, fn.String())
}

func verifyErr(x *Exec, t *pipeTheory) {
	st := t.newState(x)
	fn := t.method(x, "Err", 1)
	tags := x.unit.tagsFor("error")
	t.ghost(st, "E", Fresh("E", SU))
	t.setField(st, t.fCancel(), &OpaqueFn{Role: "cancel", Name: "cancel"})
	for _, o := range x.runFn(st, fn, nil, []Val{t.self()}, nil) {
		s, e := o.St, px(o.St)
		if o.Kind == OPanic {
			x.fail(s, tags, "does-not-panic", "Err panics", fn.Pos())
			continue
		}
		if e.held != "" {
			x.fail(s, tags, "lock-released", "Err returns with the lock held", fn.Pos())
		}
		x.oblige(s, tags, "returns-the-error", Eq(x.term(o.Ret[0]), t.get(s, "E")), fn.Pos())
		x.oblige(s, tags, "changes-nothing", BoolT(!e.stored && e.cancels == 0), fn.Pos())
	}
	x.verified = append(x.verified, fn.String())
}

func (t *pipeTheory) machineInt(st *State, v *Term) *Term {
	st.assume(And(mk("<=", SBool, mk("-", SInt, bigPow(63)), v), mk("<", SBool, v, bigPow(63))))
	return v
}

func verifyNofBatches(x *Exec, t *pipeTheory) {
	st := t.newState(x)
	fn := t.method(x, "NofBatches", 2)
	tags := x.unit.tagsFor("batch")
	t.ghost(st, "E", UNil)
	n1 := t.machineInt(st, Fresh("n", SInt))
	n2 := t.machineInt(st, Fresh("m", SInt))
	want := func(n, old *Term) *Term {
		return Ite(Ge(n, IntT(1)), n, Ite(Ge(old, IntT(1)), old, Mul(IntT(2), gmp)))
	}
	for _, o := range x.runFn(st, fn, nil, []Val{t.self(), tv(n1)}, nil) {
		if o.Kind == OPanic {
			x.fail(o.St, tags, "does-not-panic", "NofBatches panics", fn.Pos())
			continue
		}
		w := want(n1, IntT(0))
		x.oblige(o.St, tags, "number-of-batches", Eq(x.term(o.Ret[0]), w), fn.Pos())
		for _, o2 := range x.runFn(o.St, fn, nil, []Val{t.self(), tv(n2)}, nil) {
			if o2.Kind == OPanic {
				x.fail(o2.St, tags, "does-not-panic", "NofBatches panics", fn.Pos())
				continue
			}
			x.oblige(o2.St, tags, "number-of-batches-kept", Eq(x.term(o2.Ret[0]), want(n2, w)), fn.Pos())
		}
	}
	x.verified = append(x.verified, fn.String())
}

func verifyRun(x *Exec, t *pipeTheory) {
	st := t.newState(x)
	fn := t.method(x, "Run", 1)
	tags := x.unit.tagsFor("cancel")
	t.ghost(st, "E", Fresh("E", SU))
	t.ctx = &OpaqueV{Name: "ctx"}
	t.canc = &OpaqueFn{Role: "cancel", Name: "cancel"}
	for _, o := range x.runFn(st, fn, nil, []Val{t.self()}, nil) {
		got := strings.Join(px(o.St).calls, " ")
		if got != "WithCancel RunWithContext cancel" {
			x.fail(o.St, tags, "runs-then-releases-the-context", "Run does: "+got, fn.Pos())
		} else {
			x.pass(tags, "runs-then-releases-the-context", fn.Pos())
		}
	}
	x.verified = append(x.verified, fn.String())
}

// nodeList makes a list of nodes of any length with the two nodes X and Y in it.
func (t *pipeTheory) nodeList(x *Exec, st *State) {
	nt := x.prog.Pkgs["pipeline"].Type("Node")
	if nt == nil {
		panic(unsup("type pipeline.Node does not exist"))
	}
	t.nodes = NewObj("nodes", "nodes", nt.Type())
	l := Fresh("nodes", SInt)
	st.assume(Ge(l, IntT(0)))
	st.assume(mk("<", SBool, l, bigPow(62)))
	t.ghost(st, "len", l)
	px, py := Fresh("posX", SInt), Fresh("posY", SInt)
	t.ghost(st, "posX", px)
	t.ghost(st, "posY", py)
	st.assume(Implies(Ge(l, IntT(1)), And(Le(IntT(0), px), Lt(px, l))))
	t.ghost(st, "aliveX", Ge(l, IntT(1)))
	t.ghost(st, "aliveY", Ge(l, IntT(2)))
	st.assume(Implies(Ge(l, IntT(2)), And(Lt(px, py), Lt(py, l))))
	for _, v := range []string{"X", "Y"} {
		// without such a node there is nothing to show about it
		t.ghost(st, "begun"+v, Not(t.get(st, "alive"+v)))
		for _, n := range []string{"keep", "merged", "ended"} {
			t.ghost(st, n+v, TFalse)
		}
	}
	t.kindX, t.kindY = Fresh("kindX", SInt), Fresh("kindY", SInt)
	st.assume(Implies(Lt(l, IntT(2)), Eq(t.kindY, IntT(nkOther))))
	t.ghost(st, "kindOrdX", Fresh("kindOrdX", SBool))
	t.ghost(st, "ordX", TFalse)
	t.ghost(st, "condX", TFalse)
	t.setField(st, t.fNodes(), &SliceV{Obj: t.nodes, Off: IntT(0), Len: l})
}

func verifyRunWithContext(x *Exec, t *pipeTheory) {
	st := t.newState(x)
	fn := t.method(x, "RunWithContext", 3)
	t.ghost(st, "E", Fresh("E", SU))
	// configure a new pipeline
	n := t.machineInt(st, Fresh("n", SInt))
	a, b := t.machineInt(st, Fresh("batchInc", SInt)), t.machineInt(st, Fresh("maxBatchSize", SInt))
	t.N = Ite(Ge(n, IntT(1)), n, Mul(IntT(2), gmp))
	inc := Ite(Ge(a, IntT(1)), a, IntT(1024))
	t.max = Ite(Ge(b, IntT(1)), b, IntT(0x2000000))
	t.inc = Ite(Lt(t.max, inc), t.max, inc)
	t.ghost(st, "wantK", IntT(0))
	t.ghost(st, "wantU", t.inc)
	t.D = t.machineInt(st, Fresh("dataSize", SInt))
	t.ghost(st, "fsize", t.D)
	for _, g := range []string{"prepared", "pending", "exhausted", "ctxOK", "ctxDone"} {
		t.ghost(st, g, TFalse)
	}
	t.ghost(st, "S", UNil)
	t.ghost(st, "cur", Fresh("batch", SU))
	t.ghost(st, "nfed", IntT(0))
	states := []*State{st}
	for _, c := range []struct {
		name string
		args []Val
	}{{"SetVariableBatchSize", []Val{tv(a), tv(b)}}, {"NofBatches", []Val{tv(n)}}} {
		f := t.method(x, c.name, len(c.args)+1)
		var next []*State
		for _, s := range states {
			for _, o := range x.runMerged(s, f, append([]Val{t.self()}, c.args...)) {
				if o.Kind == OPanic {
					x.fail(o.St, x.unit.tagsFor("batch"), "does-not-panic", c.name+" panics", f.Pos())
					continue
				}
				next = append(next, o.St)
			}
		}
		states = next
	}
	t.ctx = &OpaqueV{Name: "ctx"}
	t.canc = &OpaqueFn{Role: "cancel", Name: "cancel"}
	for _, s := range states {
		t.nodeList(x, s)
		t.setField(s, t.fSource(), &OpaqueV{Name: "source"})
		for _, o := range x.runFn(s, fn, nil, []Val{t.self(), t.ctx, t.canc}, nil) {
			s := o.St
			if o.Kind == OPanic {
				x.fail(s, x.unit.tagsFor("nodes"), "does-not-panic", "RunWithContext panics", fn.Pos())
				continue
			}
			if px(s).held != "" {
				x.fail(s, x.unit.tagsFor("error"), "lock-released", "RunWithContext returns with the lock held", fn.Pos())
			}
			failed := Ne(t.get(s, "E"), UNil)
			x.oblige(s, x.unit.tagsFor("errend"), "all-nodes-ended-without-an-error", Or(failed, And(t.settled(s, "X"), Implies(t.get(s, "aliveX"), t.get(s, "endedX")))), fn.Pos())
			x.oblige(s, x.unit.tagsFor("nodes"), "every-batch-is-fed", Or(failed, Not(t.get(s, "pending"))), fn.Pos())
			x.oblige(s, x.unit.tagsFor("error"), "source-error-is-reported", Or(failed, Eq(t.get(s, "S"), UNil)), fn.Pos())
		}
	}
	x.verified = append(x.verified, fn.String(), "SetVariableBatchSize", "NofBatches")
}

func verifyFeedForward(x *Exec, t *pipeTheory) {
	st := t.newState(x)
	fn := t.method(x, "FeedForward", 4)
	t.ghost(st, "E", UNil)
	t.nodeList(x, st)
	i, s0, d := Fresh("index", SInt), Fresh("seqNo", SInt), Fresh("data", SU)
	st.assume(And(Ge(i, IntT(0)), Lt(i, t.get(st, "len"))))
	t.ghost(st, "index", i)
	t.ghost(st, "seqno", s0)
	t.ghost(st, "data", d)
	t.ghost(st, "nfed", IntT(0))
	for _, o := range x.runFn(st, fn, nil, []Val{t.self(), tv(i), tv(s0), tv(d)}, nil) {
		if o.Kind == OPanic {
			x.fail(o.St, x.unit.tagsFor("nodes"), "does-not-panic", "FeedForward panics", fn.Pos())
			continue
		}
		last := Eq(Add(i, IntT(1)), t.get(st, "len"))
		x.oblige(o.St, x.unit.tagsFor("nodes"), "fed-once", Eq(t.get(o.St, "nfed"), Ite(last, IntT(0), IntT(1))), fn.Pos())
	}
	x.verified = append(x.verified, fn.String())
}

func verifyAdd(x *Exec, t *pipeTheory) {
	st := t.newState(x)
	fn := t.method(x, "Add", 2)
	t.ghost(st, "E", UNil)
	t.nodeList(x, st)
	t.ghost(st, "placed", IntT(0))
	o := NewObj("args", "nodes to add", t.nodes.Typ)
	o.Elem = func(i *Term) Val {
		return &NodeV{pos: i, role: "arg", isX: TFalse, isY: TFalse, kind: Fresh("kind", SInt)}
	}
	l := Fresh("nargs", SInt)
	st.assume(Ge(l, IntT(0)))
	for _, o := range x.runFn(st, fn, nil, []Val{t.self(), &SliceV{Obj: o, Off: IntT(0), Len: l}}, nil) {
		if o.Kind == OPanic {
			x.fail(o.St, x.unit.tagsFor("nodes"), "does-not-panic", "Add panics", fn.Pos())
			continue
		}
		x.oblige(o.St, x.unit.tagsFor("nodes"), "all-nodes-added", Eq(t.get(o.St, "placed"), l), fn.Pos())
		ns, ok := t.getField(o.St, t.fNodes()).(*SliceV)
		if !ok || ns.Obj != t.nodes {
			panic(unsup("list of nodes"))
		}
		x.oblige(o.St, x.unit.tagsFor("nodes"), "list-is-stored", And(Eq(ns.Off, IntT(0)), Eq(ns.Len, t.get(o.St, "len"))), fn.Pos())
	}
	x.verified = append(x.verified, fn.String())
}
