package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Theory of the filters of package pipeline.
//
// A filter is verified against the protocol of a node: the filter is called once, then its
// receiver is called once per batch (one call after the other in Ordered and Sequential nodes,
// concurrently in Parallel nodes), then its finalizer is called once. What the batches
// contribute is kept in ghost state: B (a deciding batch was seen), P (number of elements seen)
// and Q (the elements seen, as a term). The invariant that ties the variables of the filter to
// the ghost state is inferred from a fixed set of candidates. In a Parallel node every atomic
// operation and every critical section is one step: the other receiver calls may change
// everything the invariant does not fix before it, and the invariant has to hold after it.

// RVal is a reflect.Value.
type RVal struct {
	K string // "val" (the contents of an interface value T), "userptr", "user" (what it points to)
	T *Term
}

type filtExt struct {
	B, P, Q *Term
	stepped bool // the contribution of the current batch is in the ghost state
	B0, P0  *Term
	cancels int
	errs    []Val
	held    *Obj
	heldIdx string
	wrote   bool // the current critical section has written shared variables
}

func (e *filtExt) clone() Ext {
	n := *e
	n.errs = append([]Val(nil), e.errs...)
	return &n
}
func (e *filtExt) onFork() {}

func fx(st *State) *filtExt { return st.ext.(*filtExt) }

type fcand struct {
	name string
	term func(st *State) *Term
}

type filtTheory struct {
	NoTheory
	kind    string // "Every", ...
	user    *Obj   // contents of the slice given to Slice
	ukind   *Term
	cansets *Term
	K       *Term // limit or number to skip
	S0      *Term
	size    *Obj

	recv   bool // a receiver is running
	par    bool
	data   *Term
	shared map[*Obj]bool
	M      map[*Obj]Val
	modes  map[*Obj]map[string]bool
	on     []*fcand
	points []*State
}

func blen(d *Term) *Term { return UF1("blen", SInt, d) }

func sapp(q, d *Term) *Term { return UF2("sapp", SU, q, d) }

func bslice(d, a, b *Term) *Term {
	DeclareFun("bslice", []string{SU, SInt, SInt}, SU)
	return UF("bslice", SU, d, a, b)
}

// dec: the batch decides the result.
func (t *filtTheory) dec() *Term {
	p := UF1("pred", SBool, t.data)
	switch t.kind {
	case "Every", "NotEvery":
		return Not(p)
	}
	return p
}

func (t *filtTheory) step(x *Exec, st *State) {
	e := fx(st)
	e.B0, e.P0 = e.B, e.P
	switch t.kind {
	case "Every", "NotEvery", "Some", "NotAny":
		e.B = Or(e.B, t.dec())
	}
	l := blen(t.data)
	st.assume(Implies(Ge(t.S0, IntT(0)), Le(Add(e.P, l), t.S0)))
	e.P = Add(e.P, l)
	e.Q = Ite(Eq(t.data, UNil), e.Q, sapp(e.Q, t.data))
	e.stepped = true
}

// interfere: other receiver calls run.
func (t *filtTheory) interfere(x *Exec, st *State) {
	e := fx(st)
	b, p := e.B, e.P
	e.B, e.P, e.Q = Fresh("B", SBool), Fresh("P", SInt), Fresh("Q", SU)
	st.assume(Implies(b, e.B))
	st.assume(And(Le(p, e.P), Le(IntT(0), e.P)))
	st.assume(Implies(Ge(t.S0, IntT(0)), Le(e.P, t.S0)))
	for o, v := range t.M {
		st.heap[o] = havoc("s."+o.Name, v)
	}
	for _, c := range t.on {
		st.assume(c.term(st))
	}
}

func (t *filtTheory) point(st *State) { t.points = append(t.points, st.clone()) }

func (t *filtTheory) mode(x *Exec, st *State, o *Obj, m string, write bool, pos token.Pos) {
	if t.modes[o] == nil {
		t.modes[o] = map[string]bool{}
	}
	if write {
		m += "/w"
	}
	t.modes[o][m] = true
}

// touch is a plain access of a shared variable.
func (t *filtTheory) touch(x *Exec, st *State, o *Obj, write bool, pos token.Pos) {
	if !t.recv || !t.par || !t.shared[o] {
		return
	}
	e := fx(st)
	if e.held == nil {
		if write {
			x.fail(st, x.unit.tagsFor("race"), "no-race-write", fmt.Sprintf("%s is written by concurrent receiver calls without a lock", o.Name), pos)
		} else if _, ok := t.M[o]; ok {
			x.fail(st, x.unit.tagsFor("race"), "no-race-read", fmt.Sprintf("%s is read while other receiver calls may write it", o.Name), pos)
		}
		return
	}
	t.mode(x, st, o, "lock "+e.heldIdx, write, pos)
	if write {
		e.wrote = true
	}
}

func (t *filtTheory) Load(x *Exec, st *State, p *PtrV, pos token.Pos) (Val, bool) {
	if p.Obj.Kind == "pipe" {
		if len(p.Path) == 1 && p.Path[0].Idx == nil {
			ft := p.Obj.Typ.Underlying().(*types.Struct).Field(p.Path[0].Field).Type()
			if isNamed(ft, "context", "CancelFunc") {
				return &BoundV{Name: "pipe.cancel"}, true
			}
		}
		panic(unsup("a filter reads a field of the pipeline"))
	}
	t.touch(x, st, p.Obj, false, pos)
	return nil, false
}

func (t *filtTheory) Store(x *Exec, st *State, p *PtrV, v Val, pos token.Pos) bool {
	if p.Obj.Kind == "pipe" {
		panic(unsup("a filter writes a field of the pipeline"))
	}
	t.touch(x, st, p.Obj, true, pos)
	return false
}

func (t *filtTheory) Bound(x *Exec, fr *Frame, st *State, b *BoundV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	if b.Name == "pipe.cancel" {
		fx(st).cancels++
		return []Outcome{{St: st, Kind: ORet}}, true
	}
	return nil, false
}

func (t *filtTheory) Opaque(x *Exec, st *State, f *OpaqueFn, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	if f.Role == "pred" {
		d := x.term(args[0])
		if t.recv {
			x.oblige(st, x.unit.tagsFor("default"), "predicate-gets-the-batch", Eq(d, t.data), in.Pos())
		} else {
			x.fail(st, x.unit.tagsFor("default"), "predicate-gets-the-batch", "the predicate is called outside a receiver", in.Pos())
		}
		return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(UF1("pred", SBool, d))}}}, true
	}
	return nil, false
}

func (t *filtTheory) intr(fn *ssa.Function) intrinsic {
	one := func(st *State, v ...Val) []Outcome { return []Outcome{{St: st, Kind: ORet, Ret: v}} }
	name := fn.String()
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
		return t.atomic(fn)
	}
	if strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).") {
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			t.lock(x, st, fn.Name(), args[0], in.Pos())
			return one(st)
		}
	}
	if strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.Value).") {
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			return one(st, t.reflect(x, st, fn, args, in.Pos())...)
		}
	}
	return func() intrinsic {
		if fn.Pkg == nil || fn.Parent() != nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/pipeline") {
			return nil
		}
		r := fn.Signature.Recv()
		if r == nil || !strings.HasSuffix(r.Type().String(), "pipeline.Pipeline") {
			return nil
		}
		switch fn.Name() {
		case "Cancel":
			return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
				fx(st).cancels++
				return one(st)
			}
		case "SetErr":
			return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
				e := fx(st)
				e.errs = append(e.errs, args[1])
				return one(st, tv(Fresh("wasset", SBool)))
			}
		}
		return nil
	}()
}

func (t *filtTheory) lock(x *Exec, st *State, name string, v Val, pos token.Pos) {
	p, ok := v.(*PtrV)
	if !ok {
		panic(unsup("lock of %T", v))
	}
	e := fx(st)
	if !t.recv || !t.par {
		return
	}
	switch name {
	case "Lock":
		if e.held != nil {
			panic(unsup("nested locks in a filter"))
		}
		if !t.shared[p.Obj] {
			return // a lock of this call alone protects nothing
		}
		e.held, e.heldIdx, e.wrote = p.Obj, fmt.Sprint(p.Obj, p.Path), false
		t.interfere(x, st)
	case "Unlock":
		if !t.shared[p.Obj] {
			return
		}
		if e.held != p.Obj {
			x.fail(st, x.unit.tagsFor("race"), "unlock-of-held-lock", "a lock is released that is not held", pos)
			panic(deadPath{})
		}
		if e.wrote && !e.stepped {
			t.step(x, st)
		}
		e.held = nil
		t.point(st)
	default:
		panic(unsup("%s in a filter", name))
	}
}

// atomic: Load, Store, Add, Swap and CompareAndSwap on a scalar.
func (t *filtTheory) atomic(fn *ssa.Function) intrinsic {
	name := fn.Name()
	return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
		p, ok := args[0].(*PtrV)
		if !ok {
			panic(unsup("atomic operation on %T", args[0]))
		}
		ty := p.Obj.Typ
		for _, s := range p.Path {
			ty = ty.Underlying().(*types.Struct).Field(s.Field).Type()
		}
		if fn.Signature.Recv() != nil {
			s, ok := ty.Underlying().(*types.Struct)
			if !ok {
				panic(unsup("atomic type %s", ty))
			}
			n := -1
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "v" {
					n = i
				}
			}
			if n < 0 {
				panic(unsup("atomic type %s", ty))
			}
			if ty.String() == "sync/atomic.Bool" {
				panic(unsup("atomic.Bool"))
			}
			p = &PtrV{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], Sel{Field: n})}
			ty = s.Field(n).Type()
		}
		e := fx(st)
		conc := t.recv && t.par && t.shared[p.Obj]
		if conc {
			if e.held != nil {
				panic(unsup("atomic operation inside a critical section"))
			}
			t.interfere(x, st)
			t.mode(x, st, p.Obj, "atomic", false, in.Pos())
		}
		old := x.term(x.getPath(st.heap[p.Obj], p.Path))
		write := func(st *State, v *Term) {
			st.log.writes[p.Obj] = true
			st.heap[p.Obj] = setPath(st.heap[p.Obj], p.Path, tv(v))
			if conc {
				t.mode(x, st, p.Obj, "atomic", true, in.Pos())
				if e := fx(st); !e.stepped {
					t.step(x, st)
				}
				t.point(st)
			}
		}
		switch {
		case strings.HasPrefix(name, "Load"):
			return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(old)}}}
		case strings.HasPrefix(name, "Store"):
			write(st, x.term(args[1]))
			return []Outcome{{St: st, Kind: ORet}}
		case strings.HasPrefix(name, "Add"):
			n := Add(old, x.term(args[1]))
			if b, ok := ty.Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				n = x.wrapSigned(st, n, ty)
			} else if ok && b.Info()&types.IsUnsigned != 0 {
				panic(unsup("atomic operation on %s", ty))
			}
			write(st, n)
			return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(n)}}}
		case strings.HasPrefix(name, "Swap"):
			write(st, x.term(args[1]))
			return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(old)}}}
		case strings.HasPrefix(name, "CompareAndSwap"):
			eq := Eq(old, x.term(args[1]))
			var outs []Outcome
			if x.feasible(st, Not(eq)) {
				s2 := st.clone()
				s2.assume(Not(eq))
				outs = append(outs, Outcome{St: s2, Kind: ORet, Ret: []Val{tv(TFalse)}})
			}
			if x.feasible(st, eq) {
				st.assume(eq)
				write(st, x.term(args[2]))
				outs = append(outs, Outcome{St: st, Kind: ORet, Ret: []Val{tv(TTrue)}})
			}
			return outs
		}
		panic(unsup("atomic operation %s", name))
	}
}

func (t *filtTheory) reflect(x *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
	safety := x.unit.tagsFor("safety")
	rv := func(v Val) *RVal {
		r, ok := v.(*RVal)
		if !ok {
			panic(unsup("reflect.Value %T", v))
		}
		return r
	}
	content := func(r *RVal) *Term {
		switch r.K {
		case "user":
			t.touch(x, st, t.user, false, pos)
			return x.term(st.heap[t.user])
		case "val":
			return r.T
		}
		panic(unsup("use of the pointer given to Slice"))
	}
	valid := func(r *RVal) {
		if r.K == "val" {
			x.oblige(st, safety, "no-use-of-nil-batch", Ne(r.T, UNil), pos)
		}
	}
	if fn.Signature.Recv() == nil {
		switch fn.Name() {
		case "ValueOf":
			if o, ok := args[0].(*OpaqueV); ok && o.Name == "userptr" {
				return []Val{&RVal{K: "userptr"}}
			}
			return []Val{&RVal{K: "val", T: x.term(args[0])}}
		case "Indirect":
			if rv(args[0]).K == "userptr" {
				return []Val{&RVal{K: "user"}}
			}
		case "AppendSlice":
			a, b := rv(args[0]), rv(args[1])
			valid(a)
			valid(b)
			n := sapp(content(a), content(b))
			st.assume(Ne(n, UNil))
			return []Val{&RVal{K: "val", T: n}}
		}
		panic(unsup("reflect.%s", fn.Name()))
	}
	r := rv(args[0])
	switch fn.Name() {
	case "Elem":
		if r.K == "userptr" {
			return []Val{&RVal{K: "user"}}
		}
	case "Kind":
		if r.K == "user" {
			return []Val{tv(t.ukind)}
		}
		if r.K == "val" {
			k := UF1("rkind", SInt, r.T)
			st.assume(Eq(Eq(k, IntT(0)), Eq(r.T, UNil)))
			return []Val{tv(k)}
		}
	case "CanSet":
		if r.K == "user" {
			return []Val{tv(t.cansets)}
		}
	case "IsValid":
		if r.K == "val" {
			return []Val{tv(Ne(r.T, UNil))}
		}
	case "Set":
		if r.K == "user" {
			x.oblige(st, safety, "set-of-settable-value", t.cansets, pos)
			v := rv(args[1])
			valid(v)
			n := content(v)
			t.touch(x, st, t.user, true, pos)
			st.log.writes[t.user] = true
			st.heap[t.user] = tv(n)
			return nil
		}
	case "Len":
		valid(r)
		l := blen(content(r))
		st.assume(Ge(l, IntT(0)))
		return []Val{tv(l)}
	case "Slice":
		valid(r)
		d, a, b := content(r), x.term(args[1]), x.term(args[2])
		x.oblige(st, safety, "slice-in-range", And(Le(IntT(0), a), Le(a, b), Le(b, blen(d))), pos)
		n := bslice(d, a, b)
		st.assume(And(Ne(n, UNil), Eq(blen(n), Sub(b, a))))
		return []Val{&RVal{K: "val", T: n}}
	case "Interface":
		valid(r)
		return []Val{tv(content(r))}
	}
	panic(unsup("reflect.Value.%s", fn.Name()))
}

// ---------------------------------------------------------------- candidates

func (t *filtTheory) cands(st *State) []*fcand {
	var cs []*fcand
	add := func(name string, f func(st *State) *Term) { cs = append(cs, &fcand{name, f}) }
	var objs []*Obj
	for o := range t.M {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	for _, o := range objs {
		o := o
		for _, lv := range scalarVars(o.Name, st.heap[o], func(v *view) Val { return v.st.heap[o] }) {
			lv := lv
			get := func(st *State) *Term { return lv.get(&view{st: st}) }
			e0 := get(st)
			add(lv.name+"=entry", func(st *State) *Term { return Eq(get(st), e0) })
			switch lv.sort {
			case SBool:
				add(lv.name+"=B", func(st *State) *Term { return Eq(get(st), fx(st).B) })
				add(lv.name+"=!B", func(st *State) *Term { return Eq(get(st), Not(fx(st).B)) })
				if t.K != nil {
					add(lv.name+"=(P>=K)", func(st *State) *Term { return Eq(get(st), Ge(fx(st).P, t.K)) })
					add(lv.name+"=(P<K)", func(st *State) *Term { return Eq(get(st), Lt(fx(st).P, t.K)) })
				}
			case SU:
				add(lv.name+"=Q", func(st *State) *Term { return Eq(get(st), fx(st).Q) })
			case SInt:
				for k := int64(-1); k <= 2; k++ {
					k := k
					add(fmt.Sprintf("(%s=%d)=B", lv.name, k), func(st *State) *Term { return Eq(Eq(get(st), IntT(k)), fx(st).B) })
					add(fmt.Sprintf("(%s=%d)=!B", lv.name, k), func(st *State) *Term { return Eq(Eq(get(st), IntT(k)), Not(fx(st).B)) })
				}
				add(lv.name+">=0", func(st *State) *Term { return Ge(get(st), IntT(0)) })
				add(lv.name+"=P", func(st *State) *Term { return Eq(get(st), fx(st).P) })
				add(lv.name+"=entry+P", func(st *State) *Term { return Eq(get(st), Add(e0, fx(st).P)) })
				add(lv.name+"=entry-P", func(st *State) *Term { return Eq(get(st), Sub(e0, fx(st).P)) })
				if t.K != nil {
					add(lv.name+"<K => =P", func(st *State) *Term { return Implies(Lt(get(st), t.K), Eq(get(st), fx(st).P)) })
					add("("+lv.name+">=K)=(P>=K)", func(st *State) *Term { return Eq(Ge(get(st), t.K), Ge(fx(st).P, t.K)) })
					add(lv.name+">0 => =K-P", func(st *State) *Term {
						return Implies(Gt(get(st), IntT(0)), Eq(get(st), Sub(t.K, fx(st).P)))
					})
					add("("+lv.name+">0)=(P<K)", func(st *State) *Term { return Eq(Gt(get(st), IntT(0)), Lt(fx(st).P, t.K)) })
					min := func(st *State) *Term { p := fx(st).P; return Ite(Le(p, t.K), p, t.K) }
					add(lv.name+"=min(P,K)", func(st *State) *Term { return Eq(get(st), min(st)) })
					add(lv.name+"=K-P", func(st *State) *Term { return Eq(get(st), Sub(t.K, fx(st).P)) })
					add(lv.name+"=K-min(P,K)", func(st *State) *Term { return Eq(get(st), Sub(t.K, min(st))) })
				}
			}
		}
	}
	return cs
}

// ---------------------------------------------------------------- protocol

type filtRun struct {
	ret  Val
	st   *State
	pos  token.Pos
	bad  bool
	kind int64
}

// protocol verifies a filter for one kind of node. st is the state after the constructor.
func (t *filtTheory) protocol(x *Exec, st *State, filter Val, kind int64, kindName string, perCall func(st *State, ret Val, pos token.Pos), final func(st *State, pos token.Pos), atFilter func(st *State, recv, fin Val, pos token.Pos)) {
	x.unit.Extra = []string{" [" + kindName + "]"}
	defer func() { x.unit.Extra = nil }()
	def := x.unit.tagsFor("default")
	fv, ok := filter.(*FnV)
	if !ok {
		panic(unsup("filter %T", filter))
	}
	pipeObj := NewObj("pipe", "pipeline", x.prog.Pkgs["pipeline"].Type("Pipeline").Type())
	size := NewObj("cell", "size", types.Typ[types.Int])
	t.S0, t.size = Fresh("size", SInt), size
	st = st.clone()
	st.heap[size] = tv(t.S0)
	st.ext = &filtExt{B: TFalse, P: IntT(0), Q: UNil}
	if t.user != nil {
		fx(st).Q = x.term(st.heap[t.user])
	}
	t.recv, t.par = false, false
	pos := fv.Fn.Pos()
	for _, o := range x.runFn(st, fv.Fn, fv.Binds, []Val{&PtrV{Obj: pipeObj}, tv(IntT(kind)), &PtrV{Obj: size}}, nil) {
		if o.Kind == OPanic {
			x.fail(o.St, def, "does-not-panic", "the filter panics", pos)
			continue
		}
		s := o.St
		recv, fin := o.Ret[0], o.Ret[1]
		if t.kind != "Limit" && t.kind != "Skip" {
			x.oblige(s, x.unit.tagsFor("size"), "data-size-kept", Eq(x.term(s.heap[size]), t.S0), pos)
		}
		s.log = newLog()
		atFilter(s, recv, fin, pos)
		fx(s).cancels, fx(s).errs = 0, nil
		base := s.clone()
		t.M, t.on, t.shared = map[*Obj]Val{}, nil, map[*Obj]bool{}
		t.modes = map[*Obj]map[string]bool{}
		for o := range base.heap {
			t.shared[o] = true
		}
		start := func() *State {
			n := base.clone()
			e := fx(n)
			e.B, e.P, e.Q = Fresh("B", SBool), Fresh("P", SInt), Fresh("Q", SU)
			n.assume(Ge(e.P, IntT(0)))
			n.assume(Implies(Ge(t.S0, IntT(0)), Le(e.P, t.S0)))
			for o, v := range t.M {
				n.heap[o] = havoc("s."+o.Name, v)
			}
			for _, c := range t.on {
				n.assume(c.term(n))
			}
			e.stepped = false
			return n
		}
		if !isNilConst(recv) {
			rf, ok := recv.(*FnV)
			if !ok {
				panic(unsup("receiver %T", recv))
			}
			run := func() []Outcome {
				n := start()
				t.data = Fresh("data", SU)
				seq := Fresh("seqNo", SInt)
				l := blen(t.data)
				n.assume(And(Ge(seq, IntT(0)), Ge(l, IntT(0)), Implies(Eq(t.data, UNil), Eq(l, IntT(0)))))
				n.assume(Implies(Ge(t.S0, IntT(0)), Le(Add(fx(n).P, l), t.S0)))
				t.recv, t.par, t.points = true, kindName == "Parallel", nil
				fx(n).B0, fx(n).P0 = fx(n).B, fx(n).P
				outs := x.runFn(n, rf.Fn, rf.Binds, []Val{tv(seq), tv(t.data)}, nil)
				t.recv = false
				for _, o := range outs {
					if o.Kind == OPanic {
						continue
					}
					if !t.par {
						t.step(x, o.St)
						t.point(o.St)
						continue
					}
					if e := fx(o.St); !e.stepped {
						b, p, q := e.B, e.P, e.Q
						t.step(x, o.St)
						var same *Term
						switch t.kind {
						case "Count":
							same = Eq(p, e.P)
						case "Slice":
							same = Eq(q, e.Q)
						default:
							same = Eq(b, e.B)
						}
						if x.probe == 0 {
							x.oblige(o.St, def, "every-batch-is-counted", same, rf.Fn.Pos())
						}
					}
				}
				return outs
			}
			// what receivers write
			for round := 0; ; round++ {
				if round > 10 {
					panic(unsup("variables of a filter"))
				}
				grown := false
				x.probe++
				outs := run()
				x.probe--
				var ws []*Obj
				for _, o := range outs {
					for w := range o.St.log.writes {
						ws = append(ws, w)
					}
				}
				for _, pt := range t.points {
					for w := range pt.log.writes {
						ws = append(ws, w)
					}
				}
				for _, w := range ws {
					if v, ok := base.heap[w]; ok && t.M[w] == nil {
						t.M[w] = v
						grown = true
					}
				}
				if !grown {
					break
				}
			}
			if t.M[size] != nil {
				x.fail(base, x.unit.tagsFor("size"), "data-size-kept", "a receiver changes the data size", rf.Fn.Pos())
			}
			// inductive candidates
			var on []*fcand
			for _, c := range t.cands(base) {
				if x.proves(base, c.term(base)) {
					on = append(on, c)
				}
			}
			for {
				t.on = on
				x.probe++
				run()
				x.probe--
				var keep []*fcand
				for _, c := range on {
					ok := true
					for _, p := range t.points {
						if !x.proves(p, c.term(p)) {
							ok = false
							break
						}
					}
					if ok {
						keep = append(keep, c)
					}
				}
				if len(keep) == len(on) {
					break
				}
				on = keep
			}
			t.on = on
			for _, c := range on {
				x.pass(def, "invariant-preserved "+c.name, rf.Fn.Pos())
			}
			for _, o := range run() {
				if o.Kind == OPanic {
					x.fail(o.St, def, "does-not-panic", "the receiver panics", rf.Fn.Pos())
					continue
				}
				if fx(o.St).held != nil {
					x.fail(o.St, x.unit.tagsFor("race"), "lock-released", "the receiver returns with a lock held", rf.Fn.Pos())
				}
				perCall(o.St, o.Ret[0], rf.Fn.Pos())
			}
			if kindName == "Parallel" {
				for o, ms := range t.modes {
					w, n := false, map[string]bool{}
					for m := range ms {
						w = w || strings.HasSuffix(m, "/w")
						n[strings.TrimSuffix(m, "/w")] = true
					}
					if w && len(n) > 1 {
						x.fail(base, x.unit.tagsFor("race"), "one-protection", fmt.Sprintf("%s is accessed in different ways by concurrent receiver calls", o.Name), rf.Fn.Pos())
					}
				}
			}
		} else {
			// every batch passes unseen
			n := start()
			t.data = Fresh("data", SU)
			l := blen(t.data)
			n.assume(And(Ge(l, IntT(0)), Implies(Eq(t.data, UNil), Eq(l, IntT(0)))))
			n.assume(Implies(Ge(t.S0, IntT(0)), Le(Add(fx(n).P, l), t.S0)))
			t.step(x, n)
			perCall(n, tv(t.data), pos)
		}
		if final == nil {
			if !isNilConst(fin) {
				panic(unsup("finalizer of %s", t.kind))
			}
			continue
		}
		n := start()
		n.assume(Implies(Ge(t.S0, IntT(0)), Eq(fx(n).P, t.S0)))
		if isNilConst(fin) {
			final(n, pos)
			continue
		}
		ff, ok := fin.(*FnV)
		if !ok {
			panic(unsup("finalizer %T", fin))
		}
		for _, o := range x.runFn(n, ff.Fn, ff.Binds, nil, nil) {
			if o.Kind == OPanic {
				x.fail(o.St, def, "does-not-panic", "the finalizer panics", ff.Fn.Pos())
				continue
			}
			final(o.St, ff.Fn.Pos())
		}
	}
}

func (p *Program) intConst(pkg, name string) (int64, bool) {
	c, ok := p.Pkgs[pkg].Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	return c.Value.Int64(), true
}

// ---------------------------------------------------------------- units

func filterUnits(p *Program) []*UnitDef {
	var ds []*UnitDef
	add := func(name string, tags map[string][]string, run func(x *Exec, t *filtTheory)) {
		t := &filtTheory{kind: name}
		u := &Unit{Name: "pipeline." + name, Tags: tags, Theory: t, intr: t.intr, noTerm: true}
		ds = append(ds, &UnitDef{Name: u.Name, Tags: u.allTags(nil), Unit: u, Run: func(x *Exec) { run(x, t) }})
	}
	for _, k := range []string{"Every", "NotEvery", "Some", "NotAny"} {
		add(k, map[string][]string{"default": {"C26"}, "size": {"C26", "C27"}}, verifyQuantifier)
	}
	add("Count", map[string][]string{"default": {"C27"}}, verifyCount)
	add("Slice", map[string][]string{"default": {"C27"}}, verifySlice)
	add("Limit", map[string][]string{"default": {"C28"}}, verifyCut)
	add("Skip", map[string][]string{"default": {"C28"}}, verifyCut)
	for _, k := range []string{"Identity", "Receive", "Finalize", "ReceiveAndFinalize"} {
		add(k, map[string][]string{"default": {"C22"}}, verifyHelperFilter)
	}
	return ds
}

func (t *filtTheory) state() *State {
	st := &State{heap: map[*Obj]Val{}, log: newLog(), ext: &filtExt{B: TFalse, P: IntT(0), Q: UNil}}
	st.assume(Ge(gmp, IntT(1)))
	st.g = Ghost{S: IntT(0), D: IntT(0), N: IntT(0), Pos: IntT(0)}
	return st
}

// construct calls the constructor of a filter.
func (t *filtTheory) construct(x *Exec, st *State, args []Val, nargs int) []Outcome {
	fn := x.prog.FuncByName("pipeline." + t.kind)
	if fn == nil {
		panic(unsup("function pipeline.%s does not exist", t.kind))
	}
	if len(fn.Params) != nargs {
		panic(unsup("parameters of pipeline.%s", t.kind))
	}
	var outs []Outcome
	for _, o := range x.runFn(st, fn, nil, args, nil) {
		if o.Kind == OPanic {
			x.fail(o.St, x.unit.tagsFor("default"), "does-not-panic", "the constructor panics", fn.Pos())
			continue
		}
		outs = append(outs, o)
	}
	x.verified = append(x.verified, fn.String())
	return outs
}

func (t *filtTheory) eachKind(x *Exec, f func(kind int64, name string)) {
	for _, k := range []string{"Ordered", "Sequential", "Parallel"} {
		n, ok := x.prog.intConst("pipeline", k)
		if !ok {
			panic(unsup("constant pipeline.%s does not exist", k))
		}
		f(n, k)
	}
}

func (t *filtTheory) unchanged(x *Exec, st *State, ret Val, pos token.Pos) {
	x.oblige(st, x.unit.tagsFor("default"), "batch-passed-on-unchanged", Eq(x.term(ret), t.data), pos)
}

func verifyQuantifier(x *Exec, t *filtTheory) {
	st := t.state()
	res := NewObj("cell", "result", types.Typ[types.Bool])
	st.heap[res] = tv(Fresh("result", SBool))
	cwk := Fresh("cancelWhenKnown", SBool)
	def := x.unit.tagsFor("default")
	for _, o := range t.construct(x, st, []Val{&PtrV{Obj: res}, tv(cwk), &OpaqueFn{Role: "pred", Name: "predicate"}}, 3) {
		filter := o.Ret[0]
		t.eachKind(x, func(kind int64, name string) {
			t.protocol(x, o.St, filter, kind, name,
				func(st *State, ret Val, pos token.Pos) {
					e := fx(st)
					t.unchanged(x, st, ret, pos)
					if e.cancels > 0 {
						x.oblige(st, def, "cancels-only-when-known", And(cwk, e.B), pos)
					} else {
						x.oblige(st, def, "cancels-when-known", Not(And(cwk, Not(e.B0), e.B)), pos)
					}
					if len(e.errs) > 0 {
						x.fail(st, def, "sets-no-error", "the filter sets an error", pos)
					}
				},
				func(st *State, pos token.Pos) {
					want := fx(st).B
					if t.kind == "Every" || t.kind == "NotAny" {
						want = Not(want)
					}
					x.oblige(st, def, "result", Eq(x.term(st.heap[res]), want), pos)
				},
				func(st *State, recv, fin Val, pos token.Pos) {
					if fx(st).cancels > 0 || len(fx(st).errs) > 0 {
						x.fail(st, def, "cancels-only-when-known", "the filter cancels the pipeline before it has seen a batch", pos)
					}
				})
		})
	}
}

func (t *filtTheory) quiet(x *Exec) (func(st *State, ret Val, pos token.Pos), func(st *State, recv, fin Val, pos token.Pos)) {
	def := x.unit.tagsFor("default")
	check := func(st *State, pos token.Pos) {
		if fx(st).cancels > 0 {
			x.fail(st, def, "does-not-cancel", "the filter cancels the pipeline", pos)
		}
		if len(fx(st).errs) > 0 {
			x.fail(st, def, "sets-no-error", "the filter sets an error", pos)
		}
	}
	return func(st *State, ret Val, pos token.Pos) {
			t.unchanged(x, st, ret, pos)
			check(st, pos)
		}, func(st *State, recv, fin Val, pos token.Pos) {
			check(st, pos)
		}
}

func verifyCount(x *Exec, t *filtTheory) {
	st := t.state()
	res := NewObj("cell", "result", types.Typ[types.Int])
	st.heap[res] = tv(Fresh("result", SInt))
	per, at := t.quiet(x)
	for _, o := range t.construct(x, st, []Val{&PtrV{Obj: res}}, 1) {
		filter := o.Ret[0]
		t.eachKind(x, func(kind int64, name string) {
			t.protocol(x, o.St, filter, kind, name, per, func(st *State, pos token.Pos) {
				x.oblige(st, x.unit.tagsFor("default"), "result", Eq(x.term(st.heap[res]), fx(st).P), pos)
			}, at)
		})
	}
}

func verifySlice(x *Exec, t *filtTheory) {
	st := t.state()
	def := x.unit.tagsFor("default")
	t.user = NewObj("cell", "slice", types.NewInterfaceType(nil, nil))
	t.ukind, t.cansets = Fresh("kind", SInt), Fresh("canset", SBool)
	st.heap[t.user] = tv(Fresh("elements", SU))
	st.assume(Ne(x.term(st.heap[t.user]), UNil))
	per, _ := t.quiet(x)
	settable := And(t.cansets, Eq(t.ukind, IntT(23))) // reflect.Slice
	for _, o := range t.construct(x, st, []Val{&OpaqueV{Name: "userptr"}}, 1) {
		filter := o.Ret[0]
		t.eachKind(x, func(kind int64, name string) {
			t.protocol(x, o.St, filter, kind, name, func(st *State, ret Val, pos token.Pos) {
				if x.proves(st, Not(settable)) {
					return
				}
				per(st, ret, pos)
			}, func(st *State, pos token.Pos) {
				if x.proves(st, Not(settable)) {
					return
				}
				x.oblige(st, def, "result", Eq(x.term(st.heap[t.user]), fx(st).Q), pos)
			}, func(st *State, recv, fin Val, pos token.Pos) {
				e := fx(st)
				if e.cancels > 0 {
					x.fail(st, def, "does-not-cancel", "the filter cancels the pipeline", pos)
				}
				if len(e.errs) == 0 {
					x.oblige(st, def, "error-if-not-settable", settable, pos)
				} else {
					x.oblige(st, def, "no-error-if-settable", Not(settable), pos)
					x.oblige(st, def, "error-is-not-nil", Not(x.isNilT(e.errs[0])), pos)
				}
			})
		})
	}
}

// nodeFilter gives the only filter of a node made by Ord or StrictOrd.
func (t *filtTheory) nodeFilter(x *Exec, st *State, v Val) Val {
	if iv, ok := v.(*IfaceV); ok {
		v = iv.V
	}
	p, ok := v.(*PtrV)
	if !ok || len(p.Path) > 0 {
		panic(unsup("node %T", v))
	}
	n, ok := p.Obj.Typ.(*types.Named)
	if !ok {
		panic(unsup("node of type %s", p.Obj.Typ))
	}
	s := n.Underlying().(*types.Struct)
	sv, ok := st.heap[p.Obj].(*StructV)
	if !ok {
		panic(unsup("node %T", st.heap[p.Obj]))
	}
	var filter Val
	ordered, _ := x.prog.intConst("pipeline", "Ordered")
	hasKind := false
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if isNamed(ft, x.prog.Module+"/pipeline", "NodeKind") {
			hasKind = true
			x.oblige(st, x.unit.tagsFor("default"), "node-is-ordered", Eq(x.term(sv.F[i]), IntT(ordered)), token.NoPos)
		}
		if sl, ok := ft.Underlying().(*types.Slice); ok && isNamed(sl.Elem(), x.prog.Module+"/pipeline", "Filter") {
			fs, ok := sv.F[i].(*SliceV)
			if !ok {
				panic(unsup("filters of a node"))
			}
			a, ok := st.heap[fs.Obj].(*ArrayV)
			if !ok || !fs.Off.isInt() || !fs.Len.isInt() || fs.Len.N != 1 {
				panic(unsup("filters of a node"))
			}
			filter = a.E[fs.Off.N]
		}
	}
	if filter == nil {
		panic(unsup("node without filter"))
	}
	if !hasKind && n.Obj().Name() != "strictordnode" {
		x.fail(st, x.unit.tagsFor("default"), "node-is-ordered", "the node is not an ordered node", token.NoPos)
	}
	return filter
}

func verifyCut(x *Exec, t *filtTheory) {
	st := t.state()
	def := x.unit.tagsFor("default")
	t.K = Fresh("n", SInt)
	cwr := TFalse
	args := []Val{tv(t.K)}
	if t.kind == "Limit" {
		cwr = Fresh("cancelWhenReached", SBool)
		args = append(args, tv(cwr))
	}
	clamp := func(v, l *Term) *Term { return Ite(Lt(v, IntT(0)), IntT(0), Ite(Lt(v, l), v, l)) }
	neg := Lt(t.K, IntT(0))
	for _, o := range t.construct(x, st, args, len(args)) {
		filter := t.nodeFilter(x, o.St, o.Ret[0])
		kind, ok := x.prog.intConst("pipeline", "Ordered")
		if !ok {
			panic(unsup("constant pipeline.Ordered does not exist"))
		}
		t.protocol(x, o.St, filter, kind, "Ordered", func(st *State, ret Val, pos token.Pos) {
			e := fx(st)
			l := blen(t.data)
			var lo, hi *Term
			if t.kind == "Limit" {
				lo, hi = IntT(0), Ite(neg, l, clamp(Sub(t.K, e.P0), l))
			} else {
				lo, hi = Ite(neg, l, clamp(Sub(t.K, e.P0), l)), l
			}
			r := x.term(ret)
			var a, b *Term
			switch {
			case Same(r, UNil) || x.proves(st, Eq(r, UNil)):
				a, b = IntT(0), IntT(0)
			case Same(r, t.data) || x.proves(st, Eq(r, t.data)):
				a, b = IntT(0), l
			case r.Op == "bslice" && Same(r.Args[0], t.data):
				a, b = r.Args[1], r.Args[2]
			default:
				panic(unsup("result of a receiver"))
			}
			x.oblige(st, def, "elements-passed-on", Or(And(Eq(a, b), Eq(lo, hi)), And(Eq(a, lo), Eq(b, hi))), pos)
			if len(e.errs) > 0 {
				x.fail(st, def, "sets-no-error", "a receiver sets an error", pos)
			}
			reached := And(Not(neg), Ge(e.P, t.K))
			if t.kind == "Skip" {
				reached = TFalse
			}
			if e.cancels > 0 {
				x.oblige(st, def, "cancels-only-when-reached", And(cwr, reached), pos)
			} else {
				end := And(Ge(t.S0, IntT(0)), Eq(e.P, t.S0))
				x.oblige(st, def, "cancels-when-reached", Not(And(cwr, reached, Lt(e.P0, t.K), Not(end))), pos)
			}
		}, nil, func(st *State, recv, fin Val, pos token.Pos) {
			e := fx(st)
			size := x.term(st.heap[t.size])
			T := Fresh("total", SInt)
			st.assume(And(Ge(T, IntT(0)), Implies(Ge(t.S0, IntT(0)), Eq(T, t.S0))))
			var want *Term
			if t.kind == "Limit" {
				want = Ite(neg, T, Ite(Lt(T, t.K), T, t.K))
			} else {
				want = Ite(neg, IntT(0), Ite(Lt(T, t.K), IntT(0), Sub(T, t.K)))
			}
			x.oblige(st, def, "data-size-of-known-stream", Implies(Ge(t.S0, IntT(0)), Eq(size, want)), pos)
			x.oblige(st, def, "data-size-of-unknown-stream", Or(Lt(size, IntT(0)), Eq(size, want)), pos)
			if e.cancels > 0 {
				x.oblige(st, def, "cancels-only-when-reached", And(cwr, Eq(t.K, IntT(0)), BoolT(t.kind == "Limit")), pos)
			} else if t.kind == "Limit" {
				x.oblige(st, def, "cancels-when-reached", Not(And(cwr, Eq(t.K, IntT(0)), Ne(t.S0, IntT(0)))), pos)
			}
			if len(e.errs) > 0 {
				x.oblige(st, def, "no-error", And(neg, BoolT(t.kind == "Skip")), pos)
				x.oblige(st, def, "error-is-not-nil", Not(x.isNilT(e.errs[0])), pos)
			} else if t.kind == "Skip" {
				x.oblige(st, def, "error-if-negative", Not(neg), pos)
			}
		})
	}
}

func verifyHelperFilter(x *Exec, t *filtTheory) {
	st := t.state()
	def := x.unit.tagsFor("default")
	r := &OpaqueFn{Role: "receiver", Name: "receiver"}
	f := &OpaqueFn{Role: "finalizer", Name: "finalizer"}
	pipeObj := NewObj("pipe", "pipeline", x.prog.Pkgs["pipeline"].Type("Pipeline").Type())
	size := NewObj("cell", "size", types.Typ[types.Int])
	s0 := Fresh("size", SInt)
	run := func(st *State, filter Val, wr, wf Val) {
		fv, ok := filter.(*FnV)
		if !ok {
			panic(unsup("filter %T", filter))
		}
		t.eachKind(x, func(kind int64, name string) {
			s := st.clone()
			s.heap[size] = tv(s0)
			for _, o := range x.runFn(s, fv.Fn, fv.Binds, []Val{&PtrV{Obj: pipeObj}, tv(IntT(kind)), &PtrV{Obj: size}}, nil) {
				if o.Kind == OPanic {
					x.fail(o.St, def, "does-not-panic", "the filter panics", fv.Fn.Pos())
					continue
				}
				x.oblige(o.St, def, "receiver-is-the-given-one", BoolT(sameVal(o.Ret[0], wr)), fv.Fn.Pos())
				x.oblige(o.St, def, "finalizer-is-the-given-one", BoolT(sameVal(o.Ret[1], wf)), fv.Fn.Pos())
				x.oblige(o.St, def, "data-size-kept", Eq(x.term(o.St.heap[size]), s0), fv.Fn.Pos())
				if len(fx(o.St).errs) > 0 || fx(o.St).cancels > 0 {
					x.fail(o.St, def, "does-not-cancel", "the filter cancels the pipeline", fv.Fn.Pos())
				}
			}
		})
	}
	if t.kind == "Identity" {
		fn := x.prog.FuncByName("pipeline.Identity")
		if fn == nil {
			panic(unsup("function pipeline.Identity does not exist"))
		}
		run(st, &FnV{Fn: fn}, &NilV{}, &NilV{})
		x.verified = append(x.verified, fn.String())
		return
	}
	args := map[string][]Val{"Receive": {r}, "Finalize": {f}, "ReceiveAndFinalize": {r, f}}[t.kind]
	for _, o := range t.construct(x, st, args, len(args)) {
		switch t.kind {
		case "Receive":
			run(o.St, o.Ret[0], r, &NilV{})
		case "Finalize":
			run(o.St, o.Ret[0], &NilV{}, f)
		default:
			run(o.St, o.Ret[0], r, f)
		}
	}
}
