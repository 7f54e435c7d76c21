package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sortUnits are the functions of package sort under contract.
func sortUnits(p *Program) []*UnitDef {
	if p.Pkgs["sort"] == nil {
		return nil
	}
	var ds []*UnitDef
	add := func(name string, tags map[string][]string, t *sortTheory, run func(x *Exec, t *sortTheory)) {
		u := &Unit{Name: name, Tags: tags, Theory: t, intr: t.intr}
		ds = append(ds, &UnitDef{Name: name, Tags: u.allTags(nil), Unit: u, Run: func(x *Exec) {
			u.X = Fresh("X", SInt)
			run(x, t)
		}})
	}
	all := func(id string) map[string][]string { return map[string][]string{"default": {id}} }
	add("sort.Sort", all("C16"), &sortTheory{kind: "sort"}, verifySort)
	add("sort.StableSort", all("C17"), &sortTheory{kind: "stable"}, verifySort)
	add("sort.IsSorted", map[string][]string{"default": {"C18"}, "true": {"C16", "C18"}, "left": {"C16", "C18"}}, &sortTheory{kind: "test"}, verifyIsSorted)
	for _, f := range [][3]string{{"IntsAreSorted", "IntSlice", SInt}, {"Float64sAreSorted", "Float64Slice", SF}, {"StringsAreSorted", "StringSlice", SStr}} {
		f := f
		add("sort."+f[0], all("C18"), &sortTheory{kind: "method", elem: f[2]}, func(x *Exec, t *sortTheory) { t.verifyAreSorted(x, f[0]) })
		for _, m := range []string{"Len", "Less", "Swap", "SequentialSort", "NewTemp", "Assign"} {
			m := m
			add("sort."+f[1]+"."+m, all("C19"), &sortTheory{kind: "method", elem: f[2]}, func(x *Exec, t *sortTheory) { t.verifyMethod(x, f[1], m) })
		}
	}
	return ds
}

func (t *sortTheory) state(x *Exec) *State {
	st := &State{heap: map[*Obj]Val{}, log: newLog(), ext: &sortExt{}}
	st.assume(Ge(gmp, IntT(1)))
	st.g = Ghost{S: IntT(0), D: IntT(0), N: IntT(0), Pos: IntT(0)}
	t.atomics = map[*Obj]bool{}
	return st
}

// collection makes an arbitrary collection.
func (t *sortTheory) collection(x *Exec, st *State) {
	t.N = Fresh("N", SInt)
	st.assume(Ge(t.N, IntT(0)))
	t.data = NewObj("coll", "data", nil)
	t.dataV = &CollV{t.data}
	st.heap[t.data] = tv(Fresh("data", arrII))
	if t.kind == "stable" {
		st.assume(forall2(func(v, w *Term) *Term {
			return Implies(Le(v, w), Le(skey(v), skey(w)))
		}, func(v, w *Term) []*Term { return []*Term{skey(v), skey(w)} }))
	}
}

func (x *Exec) sortFunc(name string) *ssa.Function {
	fn := x.prog.FuncByName(name)
	if fn == nil {
		panic(unsup("function %s does not exist", name))
	}
	if len(fn.Params) != 1 {
		panic(unsup("parameters of %s", name))
	}
	return fn
}

// finish adds the obligations of the recursive functions.
func (t *sortTheory) finish(x *Exec) {
	for _, d := range t.done {
		x.obls = append(x.obls, d.obls...)
	}
}

func verifySort(x *Exec, t *sortTheory) {
	fn := x.sortFunc(x.unit.Name)
	st := t.state(x)
	t.collection(x, st)
	if t.kind == "stable" {
		t.temp = NewObj("coll", "temp", nil)
		t.tempV = &CollV{t.temp}
		t.M0(st)
	}
	s := &sspec{kind: "sort", env: map[string]*Term{"lo": IntT(0), "hi": t.N}}
	t.sortFoot(s)
	t.begin(s, st)
	t.spec = s
	outs := x.runFnGuard(st, fn, nil, []Val{t.dataV}, nil, fn.Blocks[0].Instrs[0])
	any := false
	for _, o := range outs {
		if o.Kind == OPanic {
			x.fail(o.St, x.unit.tagsFor("safety"), "no-panic", "a panic although no method of the collection panics", fn.Pos())
			continue
		}
		any = true
		t.end(x, s, o, fn.Pos())
	}
	if !any {
		x.record(&Obl{Tags: x.unit.tagsFor("default"), Label: "reachable", Pos: x.posOf(fn.Pos()), Detail: "no normal return is reachable"})
	}
	t.finish(x)
	x.verified = append(x.verified, fn.String())
}

// M0 exists for symmetry: the initial contents are in their original order (assumed by begin).
func (t *sortTheory) M0(st *State) {}

func verifyIsSorted(x *Exec, t *sortTheory) {
	fn := x.sortFunc(x.unit.Name)
	st := t.state(x)
	t.collection(x, st)
	t.bad = Const("unsorted", SBool)
	u := x.unit
	s := &sspec{kind: "test", env: map[string]*Term{"lo": IntT(1), "hi": t.N}}
	s.foot = []sacc{{t.data, IntT(0), t.N, false}}
	t.spec = s
	outs := x.runFnGuard(st, fn, nil, []Val{t.dataV}, nil, fn.Blocks[0].Instrs[0])
	any := false
	for _, o := range outs {
		if o.Kind == OPanic {
			x.fail(o.St, u.tagsFor("safety"), "no-panic", "a panic although no method of the collection panics", fn.Pos())
			continue
		}
		any = true
		t.end(x, s, o, fn.Pos())
	}
	if !any {
		x.record(&Obl{Tags: u.tagsFor("default"), Label: "reachable", Pos: x.posOf(fn.Pos()), Detail: "no normal return is reachable"})
	}
	t.finish(x)
	x.verified = append(x.verified, fn.String())
}

func (t *sortTheory) Returning(x *Exec, fr *Frame, st *State) {
	if t.kind == "test" && len(x.stack) == 1 {
		so(st).returning = true
	}
}

// intr gives the contracts of library functions.
func (t *sortTheory) intr(fn *ssa.Function) intrinsic {
	name := fn.String()
	name = strings.TrimSuffix(name, "$bound")
	switch name {
	case "sort.IsSorted":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			c, ok := args[0].(*CollV)
			if !ok {
				panic(unsup("sort.IsSorted of %T", args[0]))
			}
			if t.kind == "test" {
				t.access(x, st, sacc{c.Obj, IntT(0), t.N, false}, "tested-range", in.Pos())
				return t.useTest(x, st, IntT(1), t.N)
			}
			o, _ := t.useIsSorted(x, st, c, in)
			return o
		}
	case "sort.Sort", "sort.Stable":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			if c, ok := args[0].(*CollV); ok {
				if t.kind == "test" || t.kind == "stable" && name == "sort.Sort" {
					x.fail(st, x.unit.tagsFor("default"), "stable", "the collection is sorted by "+name, in.Pos())
					return nil
				}
				t.sortRange(x, st, c.Obj, IntT(0), t.N, in.Pos())
				return []Outcome{{St: st, Kind: ORet}}
			}
			if t.kind == "method" {
				return t.libSort(x, st, name, args, in)
			}
			panic(unsup("%s of %T", name, args[0]))
		}
	case "sort.Ints", "sort.Strings", "sort.Float64s", "sort.SliceStable", "sort.Slice":
		if t.kind == "method" {
			return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
				return t.libSort(x, st, name, args, in)
			}
		}
	case "math.IsNaN":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(Not(feq(x.term(args[0]), x.term(args[0]))))}}}
		}
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			return t.atomic(x, st, fn, args, in)
		}
	}
	return nil
}

func (t *sortTheory) useTest(x *Exec, st *State, lo, hi *Term) []Outcome {
	r := Fresh("sorted", SBool)
	st.assume(Implies(And(r, in(lo, x.unit.X, hi)), Not(UF2("lessp", SBool, x.unit.X, Sub(x.unit.X, IntT(1))))))
	st.assume(Implies(Not(r), t.bad))
	return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(r)}}}
}

// atomic models the atomic flag that tells the other goroutines to stop: its invariant is that it
// is zero until the result is known, that is until the collection is known to be unsorted or the
// function under verification is returning (then nobody looks at what the others compute).
func (t *sortTheory) atomic(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []Outcome {
	if t.kind != "test" {
		panic(unsup("call of %s", fn))
	}
	p, ok := args[0].(*PtrV)
	if !ok || len(p.Path) > 0 {
		panic(unsup("atomic operation on a part of an object"))
	}
	t.atomics[p.Obj] = true
	pos := in.Pos()
	store := func(zero *Term) {
		if so(st).returning && st.task == 0 {
			x.pass(x.unit.tagsFor("flag"), "stop-flag-set-only-when-decided", pos)
			return
		}
		x.oblige(st, x.unit.tagsFor("flag"), "stop-flag-set-only-when-decided", Or(zero, t.bad), pos)
	}
	load := func(zero func(v Val) *Term, ty types.Type) Val {
		v := freshVal("flag", ty)
		st.assume(Or(zero(v), t.bad))
		return v
	}
	isZero := func(v Val) *Term {
		tm := x.term(v)
		if tm.Sort == SBool {
			return Not(tm)
		}
		return Eq(tm, IntT(0))
	}
	ret := func(vs ...Val) []Outcome { return []Outcome{{St: st, Kind: ORet, Ret: vs}} }
	n := fn.Name()
	switch {
	case strings.HasPrefix(n, "Load"):
		return ret(load(isZero, fn.Signature.Results().At(0).Type()))
	case strings.HasPrefix(n, "Store"):
		store(isZero(args[1]))
		return ret()
	case strings.HasPrefix(n, "CompareAndSwap"):
		store(isZero(args[2]))
		return ret(tv(Fresh("swapped", SBool)))
	case strings.HasPrefix(n, "Swap"):
		v := load(isZero, fn.Signature.Results().At(0).Type())
		store(isZero(args[1]))
		return ret(v)
	case strings.HasPrefix(n, "Add"):
		store(TFalse)
		return ret(freshVal("flag", fn.Signature.Results().At(0).Type()))
	}
	panic(unsup("call of %s", fn))
}

func (t *sortTheory) Load(x *Exec, st *State, p *PtrV, pos token.Pos) (Val, bool) {
	if p.Obj.Kind == "data" && len(p.Path) == 1 && p.Path[0].Idx != nil {
		st.log.reads[p.Obj] = true
		return tv(Select(t.arr(st, p.Obj), p.Path[0].Idx, t.elem)), true
	}
	if t.atomics[p.Obj] {
		x.fail(st, x.unit.tagsFor("race"), "no-race-read", "the stop flag is read without synchronisation", pos)
		return freshVal("flag", p.Obj.Typ), true
	}
	return nil, false
}

func (t *sortTheory) Store(x *Exec, st *State, p *PtrV, v Val, pos token.Pos) bool {
	if p.Obj.Kind == "data" && len(p.Path) == 1 && p.Path[0].Idx != nil {
		t.setArr(st, p.Obj, Store(t.arr(st, p.Obj), p.Path[0].Idx, x.term(v)))
		return true
	}
	if t.atomics[p.Obj] {
		x.fail(st, x.unit.tagsFor("race"), "no-race-write", "the stop flag is written without synchronisation", pos)
		return true
	}
	return false
}

// ---------------------------------------------------------------- the predefined slice types

func feq(a, b *Term) *Term {
	DeclareFun("feq", []string{SF, SF}, SBool)
	return Comm("feq", SBool, a, b)
}

// floatDefs defines the comparisons of floating-point numbers that occur in ts: a float is NaN or
// has a place in the total order of the others (-0 and +0 share one).
func floatDefs(ts []*Term) []*Term {
	var out []*Term
	seen := map[string]bool{}
	nan := func(a *Term) *Term { return UF1("isnan", SBool, a) }
	val := func(a *Term) *Term { return UF1("fval", SInt, a) }
	collect(ts, func(t *Term) {
		if seen[t.S] || len(t.Args) != 2 {
			return
		}
		seen[t.S] = true
		a, b := t.Args[0], t.Args[1]
		ok := func() *Term { return And(Not(nan(a)), Not(nan(b))) }
		switch t.Op {
		case "flt":
			out = append(out, Eq(t, And(ok(), Lt(val(a), val(b)))))
		case "fle":
			out = append(out, Eq(t, And(ok(), Le(val(a), val(b)))))
		case "feq":
			out = append(out, Eq(t, And(ok(), Eq(val(a), val(b)))))
		case "slt":
			sv := func(a *Term) *Term { return UF1("sval", SInt, a) }
			out = append(out, Eq(t, Lt(sv(a), sv(b))))
		}
	})
	return out
}

// before is the order of the predefined types: <, with NaN first.
func (t *sortTheory) before(a, b *Term) *Term {
	switch t.elem {
	case SInt:
		return Lt(a, b)
	case SStr:
		return UF2("slt", SBool, a, b)
	}
	return Or(UF2("flt", SBool, a, b), And(Not(feq(a, a)), feq(b, b)))
}

// obligeF is oblige with the definitions of the comparisons.
func (t *sortTheory) obligeF(x *Exec, st *State, label string, goal *Term, pos token.Pos) {
	s := st.clone()
	for _, d := range floatDefs(append(append([]*Term(nil), st.pc...), goal)) {
		s.assume(d)
	}
	x.oblige(s, x.unit.tagsFor("default"), label, goal, pos)
}

func (t *sortTheory) slice(st *State, name string) *SliceV {
	o := NewObj("data", name, nil)
	n := Fresh("len", SInt)
	st.assume(Ge(n, IntT(0)))
	st.heap[o] = tv(Fresh(name, "(Array Int "+t.elem+")"))
	return &SliceV{Obj: o, Off: IntT(0), Len: n}
}

type sortCall struct {
	o       *Obj
	lo, hi  *Term
	ordered bool
	stable  bool
}

// libSort is the contract of the sorting functions of the standard library.
func (t *sortTheory) libSort(x *Exec, st *State, name string, args []Val, in ssa.Instruction) []Outcome {
	pos := in.Pos()
	v := args[0]
	c := sortCall{stable: name == "sort.Stable" || name == "sort.SliceStable"}
	typ := ""
	if i, ok := v.(*IfaceV); ok {
		v = i.V
		if n, ok := i.Typ.(*types.Named); ok {
			typ = n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		if (name == "sort.Stable" || name == "sort.Sort") && !strings.HasPrefix(typ, "sort.") {
			if strings.HasPrefix(typ, x.prog.Module+"/sort.") {
				typ = "sort." + strings.TrimPrefix(typ, x.prog.Module+"/sort.") // verified against the same order
			}
		}
	}
	s, ok := v.(*SliceV)
	if !ok {
		panic(unsup("%s of %T", name, v))
	}
	want := map[string]string{SInt: "IntSlice", SF: "Float64Slice", SStr: "StringSlice"}[t.elem]
	switch name {
	case "sort.Stable", "sort.Sort":
		if !strings.HasPrefix(typ, "sort.") {
			panic(unsup("sort of a %s", typ))
		}
		c.ordered = typ == "sort."+want
	case "sort.Ints", "sort.Float64s", "sort.Strings":
		c.ordered = true
	default:
		f, ok := args[1].(*FnV)
		if !ok {
			panic(unsup("less function of %s", name))
		}
		i, j := Fresh("i", SInt), Fresh("j", SInt)
		s2 := st.clone()
		s2.assume(And(Le(IntT(0), i), Lt(i, s.Len), Le(IntT(0), j), Lt(j, s.Len)))
		a := t.arr(st, s.Obj)
		spec := t.before(Select(a, Add(s.Off, i), t.elem), Select(a, Add(s.Off, j), t.elem))
		c.ordered = true
		for _, o := range x.runFnGuard(s2, f.Fn, f.Binds, []Val{tv(i), tv(j)}, nil, in) {
			if o.Kind == OPanic {
				c.ordered = false
				continue
			}
			t.obligeF(x, o.St, "sorted-by-less", Eq(x.term(o.Ret[0]), spec), pos)
		}
	}
	c.o, c.lo, c.hi = s.Obj, s.Off, Add(s.Off, s.Len)
	*t.calls = append(*t.calls, c)
	st.heap[s.Obj] = tv(Fresh("sorted", "(Array Int "+t.elem+")"))
	st.log.writes[s.Obj] = true
	return []Outcome{{St: st, Kind: ORet}}
}

func (t *sortTheory) copyBuiltin(x *Exec, st *State, args []Val, pos token.Pos) ([]Outcome, bool) {
	d, ok1 := args[0].(*SliceV)
	s, ok2 := args[1].(*SliceV)
	if !ok1 || !ok2 {
		return nil, false
	}
	n := Ite(Le(d.Len, s.Len), d.Len, s.Len)
	a, b := t.arr(st, d.Obj), t.arr(st, s.Obj)
	srt := "(Array Int " + t.elem + ")"
	r := Fresh("copied", srt)
	at := func(a, i *Term) *Term { return Select(a, i, t.elem) }
	st.assume(forall1(func(v *Term) *Term {
		return Eq(at(r, v), Ite(in(d.Off, v, Add(d.Off, n)), at(b, Sub(Add(v, s.Off), d.Off)), at(a, v)))
	}, func(v *Term) []*Term { return []*Term{at(r, v)} }))
	t.setArr(st, d.Obj, r)
	return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(n)}}}, true
}

func (t *sortTheory) Instr(x *Exec, fr *Frame, st *State, b *ssa.BasicBlock, i int, in ssa.Instruction) ([]Outcome, bool) {
	ms, ok := in.(*ssa.MakeSlice)
	if !ok || t.kind != "method" || sortOf(ms.Type().Underlying().(*types.Slice).Elem()) != t.elem {
		return nil, false
	}
	n := x.term(x.get(fr, ms.Len))
	x.oblige(st, x.unit.tagsFor("safety"), "makeslice-in-range", And(Ge(n, IntT(0)), Le(n, x.term(x.get(fr, ms.Cap)))), in.Pos())
	s := t.slice(st, "made")
	s.Len = n
	fr.regs[ms] = s
	return x.runFrom(fr, st, b, i+1), true
}

// methodCands: loops that copy elements one by one.
func (t *sortTheory) methodCands(l *loopRun, ints []*lvar) {
	if t.copySpec == nil {
		return
	}
	for _, a := range ints {
		a := a
		e := a.get(l.entry)
		for _, d := range []int64{0, 1} {
			d := d
			l.cands = append(l.cands, &lcand{name: fmt.Sprintf("copied below %s+%d", a.name, d), term: func(v *view) *Term {
				return t.copySpec(v.st, Sub(a.get(v), e))
			}}, &lcand{name: fmt.Sprintf("copied above %s+%d", a.name, d), term: func(v *view) *Term {
				return t.copySpecDown(v.st, Sub(e, a.get(v)))
			}})
		}
	}
}

func (t *sortTheory) verifyMethod(x *Exec, typ, meth string) {
	pkg := x.prog.Pkgs["sort"]
	ty := pkg.Type(typ)
	if ty == nil {
		panic(unsup("type sort.%s does not exist", typ))
	}
	fn := x.prog.methodOf(ty, meth)
	if fn == nil {
		panic(unsup("method sort.%s.%s does not exist", typ, meth))
	}
	if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
		panic(unsup("receiver of sort.%s.%s", typ, meth))
	}
	st := t.state(x)
	u := x.unit
	s := t.slice(st, "s")
	pos := fn.Pos()
	a0 := t.arr(st, s.Obj)
	at := func(a, i *Term) *Term { return Select(a, i, t.elem) }
	var calls []sortCall
	t.calls = &calls
	def := u.tagsFor("default")
	run := func(args ...Val) []Outcome {
		var res []Outcome
		for _, o := range x.runFnGuard(st, fn, nil, append([]Val{s}, args...), nil, fn.Blocks[0].Instrs[0]) {
			if o.Kind == OPanic {
				x.fail(o.St, def, "no-panic", "the method panics", pos)
				continue
			}
			res = append(res, o)
		}
		if len(res) == 0 {
			x.record(&Obl{Tags: def, Label: "reachable", Pos: x.posOf(pos), Detail: "the method never returns"})
		}
		return res
	}
	same := func(o Outcome) {
		t.obligeF(x, o.St, "contents-unchanged", Eq(at(t.arr(o.St, s.Obj), u.X), at(a0, u.X)), pos)
	}
	switch meth {
	case "Len":
		for _, o := range run() {
			x.oblige(o.St, def, "length", Eq(x.term(o.Ret[0]), s.Len), pos)
			same(o)
		}
	case "Less":
		i, j, k := Fresh("i", SInt), Fresh("j", SInt), Fresh("k", SInt)
		for _, q := range []*Term{i, j, k} {
			st.assume(in(IntT(0), q, s.Len))
		}
		var res []*Term
		st0 := st
		if t.elem == SInt {
			// comparing by subtraction overflows
			x.unit.wrapInts = true
			for _, q := range []*Term{i, j, k} {
				st.assume(machineInt(at(a0, q)))
			}
		}
		for _, pr := range [][2]*Term{{i, j}, {j, i}, {i, i}, {j, k}, {k, j}, {i, k}, {k, i}} {
			st = st0.clone()
			r := Fresh("less", SBool)
			for _, o := range run(tv(pr[0]), tv(pr[1])) {
				t.obligeF(x, o.St, "less-is-the-order", Eq(x.term(o.Ret[0]), t.before(at(a0, pr[0]), at(a0, pr[1]))), pos)
				same(o)
			}
			st0.assume(Eq(r, t.before(at(a0, pr[0]), at(a0, pr[1]))))
			res = append(res, r)
		}
		st = st0
		ij, ji, ii, jk, kj, ik, ki := res[0], res[1], res[2], res[3], res[4], res[5], res[6]
		t.obligeF(x, st, "irreflexive", Not(ii), pos)
		t.obligeF(x, st, "asymmetric", Not(And(ij, ji)), pos)
		t.obligeF(x, st, "transitive", Implies(And(ij, jk), ik), pos)
		t.obligeF(x, st, "incomparability-transitive", Implies(And(Not(ij), Not(ji), Not(jk), Not(kj)), And(Not(ik), Not(ki))), pos)
	case "Swap":
		i, j := Fresh("i", SInt), Fresh("j", SInt)
		st.assume(And(in(IntT(0), i, s.Len), in(IntT(0), j, s.Len)))
		for _, o := range run(tv(i), tv(j)) {
			want := Ite(Eq(u.X, i), at(a0, j), Ite(Eq(u.X, j), at(a0, i), at(a0, u.X)))
			t.obligeF(x, o.St, "exchanges-two-elements", Eq(at(t.arr(o.St, s.Obj), u.X), want), pos)
		}
	case "SequentialSort":
		i, j := Fresh("i", SInt), Fresh("j", SInt)
		st.assume(And(Le(IntT(0), i), Le(i, j), Le(j, s.Len)))
		outs := run(tv(i), tv(j))
		for _, o := range outs {
			if len(outs) > 1 {
				// the calls of different paths are not told apart
				if len(calls) > 1 {
					panic(unsup("several sorts in SequentialSort"))
				}
			}
			wrote := o.St.log.writes[s.Obj]
			if !wrote {
				x.oblige(o.St, def, "sorted", Le(j, Add(i, IntT(1))), pos)
				continue
			}
			if len(calls) != 1 || calls[0].o != s.Obj || Same(t.arr(o.St, s.Obj), a0) || !strings.HasPrefix(t.arr(o.St, s.Obj).S, "sorted!") {
				panic(unsup("writes of SequentialSort"))
			}
			c := calls[0]
			x.oblige(o.St, def, "sorts-exactly-the-range", Or(And(Eq(c.lo, i), Eq(c.hi, j)), And(Le(i, c.lo), Le(c.hi, j), Le(j, Add(i, IntT(1))))), pos)
			if !c.ordered {
				x.fail(o.St, def, "sorted-by-less", "the range is sorted by another order than Less", pos)
			}
			if !c.stable && t.elem == SF {
				x.fail(o.St, def, "sorted-stably", "the sort is not stable", pos)
			}
			x.pass(def, "sorted-stably", pos)
		}
	case "NewTemp":
		for _, o := range run() {
			i, ok := o.Ret[0].(*IfaceV)
			if !ok {
				panic(unsup("result of NewTemp"))
			}
			if !types.Identical(i.Typ, ty.Type()) {
				x.fail(o.St, def, "same-type", "the temporary collection is a "+i.Typ.String(), pos)
				continue
			}
			r, ok := i.V.(*SliceV)
			if !ok {
				panic(unsup("result of NewTemp"))
			}
			x.oblige(o.St, def, "same-length", Eq(r.Len, s.Len), pos)
			if r.Obj == s.Obj {
				x.fail(o.St, def, "separate", "the temporary collection shares memory with the original", pos)
			} else {
				x.pass(def, "separate", pos)
			}
			same(o)
		}
	case "Assign":
		src := t.slice(st, "source")
		b0 := t.arr(st, src.Obj)
		for _, o := range run(&IfaceV{Typ: ty.Type(), V: src}) {
			same(o)
			i, j, n := Fresh("i", SInt), Fresh("j", SInt), Fresh("n", SInt)
			s2 := o.St
			s2.assume(And(Le(IntT(0), i), Le(IntT(0), j), Le(IntT(0), n), Le(Add(i, n), s.Len), Le(Add(j, n), src.Len)))
			want := func(st *State, lo, n *Term) *Term {
				return Eq(at(t.arr(st, s.Obj), u.X), Ite(in(lo, u.X, Add(lo, n)), at(b0, Sub(Add(u.X, j), i)), at(a0, u.X)))
			}
			t.copySpec = func(st *State, m *Term) *Term { return want(st, i, m) }
			t.copySpecDown = func(st *State, m *Term) *Term { return want(st, Sub(Add(i, n), m), m) }
			for _, o2 := range x.call(nil, s2, o.Ret[0], []Val{tv(i), tv(j), tv(n)}, fn.Blocks[0].Instrs[0]) {
				if o2.Kind == OPanic {
					x.fail(o2.St, def, "no-panic", "the assignment panics", pos)
					continue
				}
				x.oblige(o2.St, def, "copies-exactly-the-range", want(o2.St, i, n), pos)
				x.oblige(o2.St, def, "source-unchanged", Eq(at(t.arr(o2.St, src.Obj), u.X), at(b0, u.X)), pos)
			}
		}
	}
	x.verified = append(x.verified, fn.String())
}

// verifyAreSorted: the result is that of IsSorted for the elements in the order of Less.
func (t *sortTheory) verifyAreSorted(x *Exec, name string) {
	fn := x.sortFunc("sort." + name)
	st := t.state(x)
	s := t.slice(st, "a")
	a := t.arr(st, s.Obj)
	u := x.unit
	t.bad = Const("unsorted", SBool)
	at := func(i *Term) *Term { return Select(a, i, t.elem) }
	one := IntT(1)
	badAt := func(i *Term) *Term { return And(in(one, i, s.Len), t.before(at(i), at(Sub(i, one)))) }
	st.assume(badAt(u.X)) // some element is less than its predecessor (or the path is dead)
	defer func() {}()
	run := func(st *State, sorted bool) {
		// contract of IsSorted for the slice v
		t.asked = func(x *Exec, st *State, v Val, pos token.Pos) *Term {
			i, ok := v.(*IfaceV)
			if !ok {
				panic(unsup("argument of IsSorted"))
			}
			vs, ok := i.V.(*SliceV)
			if !ok {
				panic(unsup("argument of IsSorted"))
			}
			n, ok := i.Typ.(*types.Named)
			if !ok {
				panic(unsup("argument of IsSorted"))
			}
			var less *ssa.Function
			ms := x.prog.Prog.MethodSets.MethodSet(n)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == "Less" {
					less = x.prog.Prog.MethodValue(ms.At(k))
				}
			}
			lessAt := func(i *Term) *Term {
				if less == nil || len(less.Blocks) == 0 {
					if n.Obj().Pkg().Path() == "sort" {
						return t.before(Select(t.arr(st, vs.Obj), Add(vs.Off, i), t.elem), Select(t.arr(st, vs.Obj), Add(vs.Off, Sub(i, one)), t.elem))
					}
					panic(unsup("Less of %s", n))
				}
				s2 := st.clone()
				s2.assume(in(one, i, vs.Len))
				if t.elem == SInt {
					x.unit.wrapInts = true
					defer func() { x.unit.wrapInts = false }()
					for _, q := range []*Term{i, Sub(i, one)} {
						s2.assume(machineInt(Select(t.arr(st, vs.Obj), Add(vs.Off, q), t.elem)))
					}
				}
				k := len(s2.pc)
				var r *Term
				for _, o := range x.runFnGuard(s2, less, nil, []Val{vs, tv(i), tv(Sub(i, one))}, nil, fn.Blocks[0].Instrs[0]) {
					if o.Kind != ORet {
						panic(unsup("Less panics"))
					}
					if r == nil {
						r = x.term(o.Ret[0])
					} else {
						r = Ite(And(o.St.pc[k:]...), x.term(o.Ret[0]), r)
					}
				}
				return r
			}
			r := Fresh("sorted", SBool)
			// true: no element is less than its predecessor, in particular not X
			xx := Sub(u.X, vs.Off)
			st.assume(Implies(And(r, in(one, xx, vs.Len)), Not(lessAt(xx))))
			// false: some element is
			k := Fresh("k", SInt)
			st.assume(Implies(Not(r), And(in(one, k, vs.Len), lessAt(k))))
			st.assume(Implies(badAt(k), t.bad))
			return r
		}
		for _, o := range x.runFnGuard(st, fn, nil, []Val{s}, nil, fn.Blocks[0].Instrs[0]) {
			if o.Kind == OPanic {
				x.fail(o.St, u.tagsFor("default"), "no-panic", "the function panics", fn.Pos())
				continue
			}
			if !sorted {
				t.obligeF(x, o.St, "true-only-if-sorted", Not(x.term(o.Ret[0])), fn.Pos())
			} else {
				t.obligeF(x, o.St, "false-only-if-unsorted", Implies(Not(x.term(o.Ret[0])), t.bad), fn.Pos())
			}
		}
	}
	st2 := t.state(x)
	st2.heap = map[*Obj]Val{s.Obj: tv(a)}
	st2.assume(Ge(s.Len, IntT(0)))
	run(st, false)
	run(st2, true)
	x.verified = append(x.verified, fn.String())
}

// machineInt: t is a value of type int.
func machineInt(t *Term) *Term {
	return And(mk("<=", SBool, mk("-", SInt, bigPow(63)), t), mk("<", SBool, t, bigPow(63)))
}
