package main

import (
	"go/types"
)

// wrapUnit verifies internal.WrapPanic against the contract that call sites use
// (nil stays nil, anything else becomes non-nil) and against property C11.
//
//	ensures (result == nil) == (p == nil)
//	ensures p != nil ==> (result implements error) == (p implements error)
//	ensures p != nil ==> (result implements runtime.Error) == (p implements runtime.Error)
//	ensures p != nil ==> the text of result contains the text of p
func wrapUnit(p *Program) *UnitDef {
	u := &Unit{Name: "internal.WrapPanic", inlineWrap: true, Tags: map[string][]string{"default": {"C05", "C11"}}}
	return &UnitDef{Name: u.Name, Unit: u, Tags: []string{"C05", "C11"}, Run: func(x *Exec) {
		fn := p.FuncByName("internal.WrapPanic")
		if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			panic(unsup("internal.WrapPanic does not exist or has another signature"))
		}
		rtErr := types.Type(nil)
		for _, imp := range p.Prog.AllPackages() {
			if imp.Pkg.Path() == "runtime" {
				rtErr = imp.Pkg.Scope().Lookup("Error").Type()
			}
		}
		if rtErr == nil {
			panic(unsup("package runtime is not loaded"))
		}
		st := &State{heap: map[*Obj]Val{}, log: newLog()}
		v := Fresh("p", SU)
		isErr := UF1("is."+sanitize(errorType.String()), SBool, v)
		isRt := UF1("is."+sanitize(rtErr.String()), SBool, v)
		st.assume(Implies(isRt, isErr))
		st.assume(Implies(isErr, Ne(v, UNil)))
		st.assume(Implies(UF1("is."+sanitize("string"), SBool, v), Not(isErr)))
		implements := func(st *State, r Val, t types.Type, pred string) *Term {
			switch c := r.(type) {
			case *IfaceV:
				return BoolT(types.Implements(c.Typ, t.Underlying().(*types.Interface)))
			}
			return And(Ne(x.term(r), UNil), UF1("is."+sanitize(t.String()), SBool, x.term(r)))
		}
		for _, o := range x.runFn(st, fn, nil, []Val{tv(v)}, nil) {
			s := o.St
			if o.Kind == OPanic {
				x.fail(s, []string{"C05", "C11"}, "does-not-panic", "WrapPanic itself panics", fn.Pos())
				continue
			}
			r := o.Ret[0]
			rnil := x.isNilT(r)
			x.oblige(s, []string{"C05", "C11"}, "nil-iff-nil", Eq(rnil, Eq(v, UNil)), fn.Pos())
			if x.proves(s, Eq(v, UNil)) {
				continue
			}
			nn := Ne(v, UNil)
			x.oblige(s, []string{"C11"}, "error-stays-error", Implies(nn, Eq(implements(s, r, errorType, "error"), isErr)), fn.Pos())
			x.oblige(s, []string{"C11"}, "runtime-error-stays-runtime-error", Implies(nn, Eq(implements(s, r, rtErr, "runtime.Error"), isRt)), fn.Pos())
			txt := x.textOf(s, r)
			a, b := Const("str.a", SStr), Const("str.b", SStr)
			dep := []*Term{UF2("contains", SBool, a, b), UF2("sconcat", SStr, a, b)}
			s.assume(&Term{Op: "forall", Sort: SBool, Args: dep, S: "(forall ((a Str) (b Str) (c Str)) (=> (and (contains a b) (contains b c)) (contains a c)))"})
			s.assume(&Term{Op: "forall", Sort: SBool, Args: dep, S: "(forall ((a Str)) (contains a a))"})
			s.assume(&Term{Op: "forall", Sort: SBool, Args: dep, S: "(forall ((a Str) (b Str)) (! (and (contains (sconcat a b) a) (contains (sconcat a b) b)) :pattern ((sconcat a b))))"})
			x.oblige(s, []string{"C11"}, "text-preserved", Implies(nn, UF2("contains", SBool, txt, UF1("textof", SStr, v))), fn.Pos())
		}
		x.verified = append(x.verified, "internal.WrapPanic")
	}}
}
