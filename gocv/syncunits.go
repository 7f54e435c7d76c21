package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// syncUnits are the functions of package sync under contract.
func syncUnits(p *Program) []*UnitDef {
	var ds []*UnitDef
	if p.Pkgs["sync"] == nil {
		return nil
	}
	for name, c := range p.Contracts {
		if !strings.HasPrefix(name, "sync.") {
			continue
		}
		c := c
		t := &syncTheory{c: c, kind: "split"}
		switch c.Fam.Mode {
		case "map":
			t.kind = "op"
		case "iter", "iterseq":
			t.kind = "iter"
		case "new":
			t.kind = "new"
		case "select":
			t.kind = "select"
		}
		u := &Unit{Name: name, Mode: c.Fam.Mode, Comb: c.Comb, Sig: c.Sig, Ident: c.Ident, Tags: c.Fam.Tags, C: c, Theory: t, intr: t.intr}
		d := &UnitDef{Name: name, Unit: u, Tags: u.allTags(c)}
		if c.Leaf != nil {
			for k, ts := range c.Leaf.Tags {
				if _, ok := u.Tags[k]; !ok {
					u.Tags[k] = ts
				}
			}
		}
		d.Run = func(x *Exec) { x.verifySync(t) }
		ds = append(ds, d)
	}
	return ds
}

func (t *syncTheory) newState(x *Exec) *State {
	st := &State{heap: map[*Obj]Val{}, log: newLog(), ext: &syncExt{}}
	st.assume(Ge(gmp, IntT(1)))
	st.g = Ghost{S: IntT(0), D: IntT(0), N: IntT(0), Pos: IntT(0)}
	return st
}

// mapValue makes an arbitrary map as NewMap makes them: at least one split, all with contents.
func (t *syncTheory) mapValue(x *Exec, st *State, ty types.Type) Val {
	pt, ok := ty.Underlying().(*types.Pointer)
	if !ok {
		panic(unsup("the map is not a pointer"))
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		panic(unsup("sync.Map is not a struct"))
	}
	t.splits = NewObj("splits", "splits", t.splitT)
	t.splits.Len = Fresh("nsplits", SInt)
	t.L = t.splits.Len
	st.assume(Ge(t.L, IntT(1)))
	st.assume(mk("<", SBool, t.L, bigPow(62)))
	v := &StructV{}
	found := false
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if sl, ok := ft.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), t.splitT) {
			v.F = append(v.F, &SliceV{Obj: t.splits, Off: IntT(0), Len: t.L})
			found = true
			continue
		}
		v.F = append(v.F, freshVal("field", ft))
	}
	if !found {
		panic(unsup("sync.Map has no splits"))
	}
	o := NewObj("cell", "map", pt.Elem())
	st.heap[o] = v
	return &PtrV{Obj: o}
}

func (x *Exec) verifySync(t *syncTheory) {
	c := t.c
	fn := x.prog.FuncByName(c.Name)
	if fn == nil {
		panic(unsup("function %s does not exist", c.Name))
	}
	t.splitFields(x.prog)
	u := x.unit
	u.X = Fresh("X", SInt)
	t.entry = Fresh("entry", SInt)
	if r := fn.Signature.Results(); r.Len() > 0 {
		u.sort = sortOf(r.At(0).Type())
	}
	if len(fn.Params) != len(c.Roles) {
		panic(unsup("parameters of %s", c.Name))
	}
	st := t.newState(x)
	st.assume(And(Ge(t.entry, IntT(0)), Ge(u.X, IntT(0))))
	args := make([]Val, len(c.Roles))
	env := map[string]*Term{}
	for i, r := range c.Roles {
		pt := fn.Params[i].Type()
		switch r {
		case "map":
			args[i] = t.mapValue(x, st, pt)
		case "key":
			t.key = Fresh("key", SU)
			st.assume(Ne(t.key, UNil))
			args[i] = tv(t.key)
		case "mleaf", "join", "visit", "computer", "modifier":
			sig, ok := pt.Underlying().(*types.Signature)
			if !ok {
				panic(unsup("parameter %d of %s", i, c.Name))
			}
			args[i] = &OpaqueFn{Role: r, Name: r, Sig: sig}
		default:
			args[i] = freshVal(r, pt)
			env[r] = x.term(args[i])
		}
	}
	pos := fn.Pos()
	switch t.kind {
	case "select":
		t.verifySelect(x, st, args)
		x.note(fn, c.Fam)
		return
	case "new":
		t.verifyNew(x, st, fn.Pos(), x.startNew(t, st), args)
		x.note(fn, c.Fam)
		return
	case "op":
		t.canonical(x, st, args[0])
		outs := x.runFnGuard(st, fn, nil, args, nil, fn.Blocks[0].Instrs[0])
		t.checkOp(x, outs, env, pos)
		x.note(fn, c.Fam)
		return
	}
	if t.kind == "iter" {
		t.stopAll = NewObj("ghost", "stoppedall", types.Typ[types.Bool])
		st.heap[t.stopAll] = tv(TFalse)
	}
	env["nsplits"] = t.L
	fe := x.famEnv(c, env)
	st.g.Pos = fe["lo"]
	inst := x.newInst(fn, c.Fam, fe)
	x.active = append(x.active, inst)
	outs := x.runFn(st, fn, nil, args, nil)
	x.checkOutcomes(inst, outs, nil, pos)
	for _, o := range outs {
		t.released(x, o.St, "at the end", pos)
		if t.kind == "iter" && o.Kind == OPanic && !o.St.g.dead {
			x.fail(o.St, u.tagsFor("safety"), "panics-only-with-callback", "the function panics although no callback panicked", pos)
		}
	}
	x.note(fn, c.Fam)
}

// canonical determines the split that Map.Split chooses for the key.
func (t *syncTheory) canonical(x *Exec, st *State, m Val) *Term {
	fn := x.prog.FuncByName("sync.Map.Split")
	if fn == nil || len(fn.Params) != 2 {
		panic(unsup("function sync.Map.Split does not exist"))
	}
	x.probe++
	defer func() { x.probe-- }()
	kind, wrap := t.kind, x.unit.wrapInts
	t.kind, x.unit.wrapInts = "select", true
	defer func() { t.kind, x.unit.wrapInts = kind, wrap }()
	s := st.clone()
	n := len(s.pc)
	var res *Term
	for _, o := range x.runFn(s, fn, nil, []Val{m, tv(t.key)}, nil) {
		if o.Kind != ORet {
			continue
		}
		p, ok := o.Ret[0].(*PtrV)
		if !ok || p.Obj != t.splits || len(p.Path) != 1 || p.Path[0].Idx == nil {
			panic(unsup("result of sync.Map.Split"))
		}
		idx := p.Path[0].Idx
		if res == nil {
			res = idx
		} else {
			res = Ite(And(o.St.pc[n:]...), idx, res)
		}
	}
	if res == nil {
		panic(unsup("sync.Map.Split never returns"))
	}
	t.canon = res
	return res
}

// verifySelect: the choice of the split is a function of the hash of the key, and in range.
func (t *syncTheory) verifySelect(x *Exec, st *State, args []Val) {
	fn := x.prog.FuncByName(t.c.Name)
	tags := x.unit.tagsFor("select")
	a := t.canonical(x, st, args[0])
	x.unit.wrapInts = true
	for _, o := range x.runFn(st, fn, nil, args, nil) {
		if o.Kind == OPanic {
			x.fail(o.St, tags, "split-exists", "panics", fn.Pos())
			continue
		}
		p, ok := o.Ret[0].(*PtrV)
		if !ok || p.Obj != t.splits || len(p.Path) != 1 {
			panic(unsup("result of sync.Map.Split"))
		}
		x.oblige(o.St, tags, "split-exists", And(Le(IntT(0), p.Path[0].Idx), Lt(p.Path[0].Idx, t.L)), fn.Pos())
		x.oblige(o.St, tags, "equal-keys-same-split", Eq(p.Path[0].Idx, a), fn.Pos())
		if len(sx(o.St).secs) > 0 {
			panic(unsup("sync.Map.Split uses locks"))
		}
		// it depends on nothing but the hash and the number of splits
		h := UF1("hash", SInt, t.key)
		walk(a, func(u *Term) {
			if len(u.Args) == 0 && u.Op == u.S && u.Sort != SBool && !Same(u, t.key) && !Same(u, t.L) && !u.isInt() && u.Op != "#big" {
				x.fail(o.St, tags, "equal-keys-same-split", "the choice of the split depends on "+u.S, fn.Pos())
			}
			if u.Op != "hash" {
				for _, k := range u.Args {
					if Same(k, t.key) {
						x.fail(o.St, tags, "equal-keys-same-split", "the choice of the split depends on the key other than by "+h.S, fn.Pos())
					}
				}
			}
		})
	}
}

func (x *Exec) startNew(t *syncTheory, st *State) []Outcome {
	t.initCell = NewObj("ghost", "initialised", types.Typ[types.Bool])
	st.heap[t.initCell] = tv(TFalse)
	return nil
}

// verifyNew: NewMap makes at least one split and gives each of them a map.
func (t *syncTheory) verifyNew(x *Exec, st *State, pos token.Pos, _ []Outcome, args []Val) {
	fn := x.prog.FuncByName(t.c.Name)
	tags := x.unit.tagsFor("new")
	outs := x.runFn(st, fn, nil, args, nil)
	for _, o := range outs {
		if o.Kind == OPanic {
			x.fail(o.St, tags, "map-made", "NewMap panics", pos)
			continue
		}
		p, ok := o.Ret[0].(*PtrV)
		if !ok || len(p.Path) > 0 {
			panic(unsup("result of NewMap"))
		}
		s, ok := o.St.heap[p.Obj].(*StructV)
		if !ok {
			panic(unsup("result of NewMap"))
		}
		found := false
		for _, f := range s.F {
			sl, ok := f.(*SliceV)
			if !ok || sl.Obj.Kind != "splits" {
				continue
			}
			found = true
			x.oblige(o.St, tags, "at-least-one-split", Ge(sl.Len, IntT(1)), pos)
			size := x.term(args[0])
			x.oblige(o.St, x.unit.tagsFor("count"), "as-many-splits-as-requested", Implies(Ge(size, IntT(1)), Eq(sl.Len, size)), pos)
			x.oblige(o.St, x.unit.tagsFor("count"), "one-split-per-processor", Implies(Lt(size, IntT(1)), Eq(sl.Len, gmp)), pos)
			in := And(Le(sl.Off, x.unit.X), Lt(x.unit.X, Add(sl.Off, sl.Len)))
			x.oblige(o.St, tags, "every-split-has-a-map", Implies(in, x.term(o.St.heap[t.initCell])), pos)
		}
		if !found {
			x.fail(o.St, tags, "at-least-one-split", "the map has no splits", pos)
		}
	}
	if len(outs) == 0 && x.probe == 0 {
		x.record(&Obl{Tags: tags, Label: "map-made", Pos: x.posOf(pos), Detail: "NewMap never returns"})
	}
}

// checkOp checks that the operation took effect atomically in exactly one critical section.
func (t *syncTheory) checkOp(x *Exec, outs []Outcome, env0 map[string]*Term, pos token.Pos) {
	u := x.unit
	any := false
	for _, o := range outs {
		st := o.St
		e := sx(st)
		t.released(x, st, "at the end", pos)
		unchanged := func(s msec) *Term {
			return And(Eq(s.present, s.present0), Implies(s.present0, Eq(s.val, s.val0)))
		}
		if o.Kind == OPanic {
			pan := false
			for _, c := range e.calls {
				pan = pan || c.pan
			}
			if !pan {
				x.fail(st, u.tagsFor("default"), "panics-only-with-callback", "the operation panics although no callback panicked", pos)
				continue
			}
			for _, s := range e.secs {
				x.oblige(st, u.tagsFor("default"), "no-effect-if-callback-panics", unchanged(s), pos)
			}
			continue
		}
		any = true
		for _, c := range e.calls {
			if c.pan {
				x.fail(st, u.tagsFor("default"), "callback-panic-propagates", "the operation returns although its callback panicked", pos)
			}
		}
		envFor := func(s msec) map[string]*Term {
			m := map[string]*Term{}
			for k, v := range env0 {
				m[k] = v
			}
			m["present"], m["old"], m["newpresent"], m["newval"] = s.present0, s.val0, s.present, s.val
			for i, r := range o.Ret {
				m[fmt.Sprintf("ret%d", i)] = x.term(r)
			}
			m["calls"] = IntT(int64(len(e.calls)))
			m["computed"], m["decision"] = Const("nocall", SU), Const("nodecision", SBool)
			m["arg0"], m["arg1"] = Const("noarg0", SU), Const("noarg1", SBool)
			if len(e.calls) > 0 && !e.calls[0].pan {
				c := e.calls[0]
				for i, r := range c.ret {
					if tm := x.term(r); tm.Sort == SBool {
						m["decision"] = tm
					} else if i == 0 {
						m["computed"] = tm
					}
				}
				for i, a := range c.args {
					m[fmt.Sprintf("arg%d", i)] = x.term(a)
				}
			}
			return m
		}
		switch len(e.secs) {
		case 0:
			x.fail(st, u.tagsFor("default"), "one-critical-section", "the operation returns without looking at the map", pos)
		case 1:
			ec := &evalCtx{x: x, st: st, env: envFor(e.secs[0])}
			for _, c := range t.c.Fam.kind("ensures") {
				x.clause(st, ec, c, pos)
			}
		default:
			var alts []*Term
			for i := range e.secs {
				ec := &evalCtx{x: x, st: st, env: envFor(e.secs[i])}
				g := TTrue
				for _, c := range t.c.Fam.kind("ensures") {
					g = And(g, ec.eval(c.Expr))
				}
				for j, s := range e.secs {
					if j != i {
						g = And(g, unchanged(s))
					}
				}
				alts = append(alts, g)
			}
			x.oblige(st, t.c.Fam.Tags["default"], "linearization-point", Or(alts...), pos)
		}
	}
	if !any {
		x.record(&Obl{Tags: u.tagsFor("default"), Label: "reachable", Pos: x.posOf(pos), Detail: "the operation never returns"})
	}
}
