package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call executes a call of f.
func (x *Exec) call(fr *Frame, st *State, f Val, args []Val, in ssa.Instruction) []Outcome {
	switch c := f.(type) {
	case *OpaqueFn:
		return x.callOpaque(st, c, args, in)
	case *BoundV:
		return x.callBound(fr, st, c, args, in)
	case *NilV:
		x.oblige(st, x.unit.tagsFor("safety"), "call-of-nil-function", TFalse, in.Pos())
		return nil
	case *FnV:
		if i := x.intrinsicFor(c.Fn); i != nil {
			return i(x, fr, st, c, args, in)
		}
		if o, ok := x.extCall(fr, st, c, args, in); ok {
			return o
		}
		if o, ok := x.tryContract(st, c, args, in); ok {
			return o
		}
		return x.runFnGuard(st, c.Fn, c.Binds, args, nil, in)
	case *TermV:
		if c.T.Sort == SU {
			x.oblige(st, x.unit.tagsFor("safety"), "call-of-nil-function", Ne(c.T, UNil), in.Pos())
			if o, ok := x.extBound(fr, st, &BoundV{Name: "call of a function value", Recv: c}, args, in); ok {
				return o
			}
		}
	}
	panic(unsup("call of %T", f))
}

func (x *Exec) hasContract(fn *ssa.Function) bool {
	return fn.Parent() == nil && x.prog.Contracts[x.prog.relName(fn)] != nil
}

// runFnGuard inlines fn; recursive functions get an inferred instance of the unit's family.
func (x *Exec) runFnGuard(st *State, fn *ssa.Function, binds, args []Val, ps *panicState, in ssa.Instruction) (outs []Outcome) {
	fv := &FnV{Fn: fn, Binds: binds}
	for i := len(x.active) - 1; i >= 0; i-- {
		if a := x.active[i]; a.fn == fn && a.apply != nil {
			return a.apply(st, fv, args, in)
		}
	}
	for _, g := range x.stack {
		if g == fn {
			panic(needSchema{fn})
		}
	}
	if x.schemas[fn] || x.eagerSchema(fn) {
		return x.verifySchema(st, fv, args, in)
	}
	save := st.clone()
	nobl, probe, nstack, nact := len(x.obls), x.probe, len(x.stack), len(x.active)
	need := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if ns, ok := r.(needSchema); ok && ns.fn == fn {
					need = true
					return
				}
				panic(r)
			}
		}()
		outs = x.runFn(st, fn, binds, args, ps)
	}()
	if !need {
		if x.unit.lean {
			return x.merged(outs)
		}
		return outs
	}
	x.obls, x.probe, x.stack, x.active = x.obls[:nobl], probe, x.stack[:nstack], x.active[:nact]
	if x.schemas == nil {
		x.schemas = map[*ssa.Function]bool{}
	}
	x.schemas[fn] = true
	return x.verifySchema(save, fv, args, in)
}

// eagerSchema: the function is evidently recursive (and its contract comes from a theory).
func (x *Exec) eagerSchema(fn *ssa.Function) bool {
	if _, ok := x.unit.Theory.(*sortTheory); !ok || fn.Parent() != nil {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function) bool
	reach = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [10]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Function)
					if ok && (g == fn || g.Pkg == fn.Pkg && reach(g)) {
						return true
					}
				}
			}
		}
		return false
	}
	return reach(fn)
}

// ---------------------------------------------------------------- recursive helpers

// assignment says which parameter plays which role.
type assignment struct {
	role map[int]string // parameter index -> "lo", "hi", "m", "list", "first"
	name string
}

func (x *Exec) assignments(fam *Family, args []Val) []assignment {
	var ints []int
	var lists, firsts []int
	for i, a := range args {
		switch v := a.(type) {
		case *TermV:
			if v.T.Sort == SInt {
				ints = append(ints, i)
			}
		case *SliceV:
			if v.Obj.Kind == "leaves" || v.Obj.Kind == "splits" {
				lists = append(lists, i)
			}
		case *OpaqueFn:
			if v.Role == "elem" {
				firsts = append(firsts, i)
			}
		}
	}
	var res []assignment
	if fam.Lists {
		if len(lists) == 1 && len(firsts) <= 1 {
			r := map[int]string{lists[0]: "list"}
			if len(firsts) == 1 {
				r[firsts[0]] = "first"
			}
			res = append(res, assignment{role: r})
		}
		if len(lists) == 1 && len(firsts) == 0 {
			// index range within a fixed list
			for _, p := range perms(ints, 2) {
				res = append(res, assignment{role: map[int]string{p[0]: "lo", p[1]: "hi"}})
			}
		}
		return res
	}
	ps := fam.Params
	for _, p := range perms(ints, len(ps)) {
		r := map[int]string{}
		for k, i := range p {
			r[i] = ps[k]
		}
		res = append(res, assignment{role: r})
	}
	return res
}

func perms(xs []int, k int) [][]int {
	if k == 0 {
		return [][]int{nil}
	}
	var res [][]int
	for i, v := range xs {
		var rest []int
		rest = append(rest, xs[:i]...)
		rest = append(rest, xs[i+1:]...)
		for _, p := range perms(rest, k-1) {
			res = append(res, append([]int{v}, p...))
		}
	}
	return res
}

// helperEnv computes the family parameters for the arguments of a helper call.
func (x *Exec) helperEnv(fam *Family, as assignment, args []Val) (map[string]*Term, *Term, bool) {
	env := map[string]*Term{"batch": Const("batch", SInt), "maxsize": bigPow(62)} // the size of ranges that are considered
	adj := TTrue
	var list Val
	var first *OpaqueFn
	hasList := false
	for i, r := range as.role {
		switch r {
		case "list":
			list, hasList = args[i], true
		case "first":
			f, ok := args[i].(*OpaqueFn)
			if !ok {
				return nil, nil, false
			}
			first = f
		default:
			t, ok := args[i].(*TermV)
			if !ok {
				return nil, nil, false
			}
			env[r] = t.T
		}
	}
	if hasList {
		switch l := list.(type) {
		case *SliceV:
			if l.Obj.Kind != "leaves" && l.Obj.Kind != "splits" {
				return nil, nil, false
			}
			env["lo"], env["hi"] = l.Off, Add(l.Off, l.Len)
			if first != nil {
				env["lo"] = first.Pos
				adj = Or(Eq(Add(first.Pos, IntT(1)), l.Off), Eq(l.Len, IntT(0)))
				env["hi"] = Add(first.Pos, Add(l.Len, IntT(1)))
			}
		case *NilV:
			if first == nil {
				return nil, nil, false
			}
			env["lo"], env["hi"] = first.Pos, Add(first.Pos, IntT(1))
		default:
			return nil, nil, false
		}
	}
	return env, adj, true
}

// verifySchema proves the unit's family contract for the recursive function fv for all
// arguments satisfying an inferred precondition, and uses it for the call at hand.
func (x *Exec) verifySchema(st *State, fv *FnV, args []Val, in ssa.Instruction) []Outcome {
	if o, ok := x.th().Schema(x, st, fv, args, in); ok {
		return o
	}
	if len(x.active) == 0 {
		panic(unsup("recursive function %s outside a contract", fv.Fn))
	}
	fam := x.active[0].fam
	as := x.assignments(fam, args)
	if len(as) == 0 {
		panic(unsup("recursive function %s does not fit the contract family %s", fv.Fn, fam.Name))
	}
	type attempt struct {
		obls []*Obl
		outs []Outcome
		bad  int
	}
	var best *attempt
	var lastErr interface{}
	for _, a := range as {
		s := st.clone()
		env, adj, ok := x.helperEnv(fam, a, args)
		if !ok || !x.proves(s, And(adj, Le(env["lo"], env["hi"]))) {
			continue
		}
		nobl, probe, nstack, nact := len(x.obls), x.probe, len(x.stack), len(x.active)
		var outs []Outcome
		failed := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						failed = true
						lastErr = u
						return
					}
					panic(r)
				}
			}()
			outs = x.schemaWith(s, fv, args, a, fam, in)
		}()
		got := append([]*Obl(nil), x.obls[nobl:]...)
		x.obls, x.probe, x.stack, x.active = x.obls[:nobl], probe, x.stack[:nstack], x.active[:nact]
		if failed {
			continue
		}
		bad := 0
		for _, o := range got {
			if !o.Ok {
				bad++
			}
		}
		if best == nil || bad < best.bad {
			best = &attempt{got, outs, bad}
		}
		if bad == 0 || x.probe > 0 {
			break
		}
	}
	if best == nil {
		if lastErr != nil {
			panic(lastErr)
		}
		panic(unsup("recursive function %s: the contract family %s does not apply at its call", fv.Fn, fam.Name))
	}
	x.obls = append(x.obls, best.obls...)
	return best.outs
}

type candFailed struct{ i int }

func (x *Exec) schemaWith(st *State, fv *FnV, args []Val, as assignment, fam *Family, in ssa.Instruction) []Outcome {
	callEnv, _, _ := x.helperEnv(fam, as, args)
	// fresh parameters
	fresh := append([]Val(nil), args...)
	assume := TTrue
	var firstPos *Term
	for i, r := range as.role {
		if r == "first" {
			firstPos = Fresh("P", SInt)
			f := *(args[i].(*OpaqueFn))
			f.Pos = firstPos
			fresh[i] = &f
		}
	}
	for i, r := range as.role {
		switch r {
		case "list":
			l := args[i].(*SliceV)
			nl := &SliceV{Obj: l.Obj, Off: Fresh("off", SInt), Len: Fresh("len", SInt)}
			if firstPos != nil {
				nl.Off = Add(firstPos, IntT(1))
			}
			assume = And(assume, Le(IntT(0), nl.Len))
			if x.unit.wrapInts {
				assume = And(assume, machineInt(nl.Len))
			}
			fresh[i] = nl
		case "first":
		default:
			v := Fresh(r, SInt)
			if x.unit.wrapInts {
				assume = And(assume, machineInt(v))
			}
			fresh[i] = tv(v)
		}
	}
	env, _, _ := x.helperEnv(fam, as, fresh)
	// candidate preconditions that hold at the call
	type cand struct {
		c  *Clause
		on bool
	}
	var cands []*cand
	for _, c := range fam.kind("candidate") {
		ec := &evalCtx{x: x, env: callEnv}
		if x.proves(st, ec.eval(c.Expr)) {
			cands = append(cands, &cand{c, true})
		}
	}
	base := st.clone()
	base.pend = nil
	base.log = newLog()
	if base.ext != nil {
		base.ext.onFork()
	}
	base.g = Ghost{S: IntT(0), D: IntT(0), N: IntT(0), Pos: env["lo"]}
	base.assume(assume)
	generalised := func(i int) bool { _, ok := as.role[i]; return ok }
	outer := map[*Obj]bool{}
	for o := range st.heap {
		outer[o] = true
	}
	var touched *Log
	run := func() []Outcome {
		s := base.clone()
		ec := &evalCtx{x: x, env: env}
		for _, c := range cands {
			if c.on {
				s.assume(ec.eval(c.c.Expr))
			}
		}
		inst := x.newInst(fv.Fn, fam, env)
		inst.apply = func(s *State, fv2 *FnV, args2 []Val, in2 ssa.Instruction) []Outcome {
			if !sameVal(fv, fv2) {
				panic(unsup("recursive call of another closure of %s", fv.Fn))
			}
			for i := range args2 {
				if !generalised(i) && !sameVal(args[i], args2[i]) {
					panic(unsup("argument %d of %s changes in the recursion", i, fv.Fn))
				}
			}
			e2, adj, ok := x.helperEnv(fam, as, args2)
			if !ok {
				panic(unsup("arguments of the recursive call of %s", fv.Fn))
			}
			ec := &evalCtx{x: x, env: e2}
			for i, c := range cands {
				if c.on && !x.proves(s, ec.eval(c.c.Expr)) {
					panic(candFailed{i})
				}
			}
			x.oblige(s, x.unit.tagsFor("adjacent"), "parts-adjacent", adj, in2.Pos())
			x.checkMeasure(s, inst, e2)
			return x.useFamily(s, fam, e2, fv.Fn, in2)
		}
		x.active = append(x.active, inst)
		outs := x.runFn(s, fv.Fn, fv.Binds, fresh, nil)
		touched = newLog()
		for _, o := range outs {
			for k := range o.St.log.reads {
				touched.reads[k] = true
			}
			for k := range o.St.log.writes {
				touched.writes[k] = true
			}
		}
		for k := range touched.writes {
			if outer[k] {
				panic(unsup("recursive function %s writes to shared variable %s", fv.Fn, k.Name))
			}
		}
		x.checkOutcomes(inst, outs, nil, fv.Fn.Pos())
		x.active = x.active[:len(x.active)-1]
		return outs
	}
	for round := 0; ; round++ {
		nobl, probe, nstack, nact := len(x.obls), x.probe, len(x.stack), len(x.active)
		bad := -1
		func() {
			defer func() {
				if r := recover(); r != nil {
					if cf, ok := r.(candFailed); ok {
						bad = cf.i
						return
					}
					panic(r)
				}
			}()
			run()
		}()
		if bad < 0 {
			break
		}
		x.obls, x.probe, x.stack, x.active = x.obls[:nobl], probe, x.stack[:nstack], x.active[:nact]
		cands[bad].on = false
	}
	x.note(fv.Fn, fam)
	// the call itself
	var rs []*Obj
	for k := range touched.reads {
		if outer[k] {
			rs = append(rs, k)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
	for _, k := range rs {
		x.raceRead(st, k, in.Pos())
	}
	return x.useFamily(st, fam, callEnv, fv.Fn, in)
}

// note records a function that was verified against a contract.
func (x *Exec) note(fn *ssa.Function, fam *Family) {
	x.verified = append(x.verified, fmt.Sprintf("%s (%s)", fn.String(), fam.Name))
}

// ---------------------------------------------------------------- builtins and library functions

func (x *Exec) callBound(fr *Frame, st *State, b *BoundV, args []Val, in ssa.Instruction) []Outcome {
	one := func(v Val) []Outcome { return []Outcome{{St: st, Kind: ORet, Ret: []Val{v}}} }
	switch b.Name {
	case "builtin.len":
		return one(tv(x.lenOf(st, args[0])))
	case "builtin.cap":
		if s, ok := args[0].(*SliceV); ok {
			if s.Obj.Len != nil {
				return one(tv(Sub(s.Obj.Len, s.Off)))
			}
			c := Fresh("cap", SInt)
			st.assume(Ge(c, s.Len))
			return one(tv(c))
		}
		return one(tv(x.lenOf(st, args[0])))
	case "builtin.recover":
		if fr == nil || fr.panicVal == nil || fr.panicVal.val == nil || st.g.isRecovered(fr.panicVal.rec) {
			return one(tv(UNil))
		}
		st.g.recovered = append(st.g.recovered[:len(st.g.recovered):len(st.g.recovered)], fr.panicVal.rec)
		return one(fr.panicVal.val)
	}
	if o, ok := x.extBound(fr, st, b, args, in); ok {
		return o
	}
	if b.Name == "invoke.Error" {
		return one(tv(x.textOf(st, b.Recv)))
	}
	panic(unsup("call of %s", b.Name))
}

type intrinsic func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome

func (x *Exec) intrinsicFor(fn *ssa.Function) intrinsic {
	if i := x.unit.intrinsic(fn); i != nil {
		return i
	}
	if x.prog.relName(fn) == "internal.WrapPanic" && fn.Parent() == nil && !x.unit.inlineWrap {
		return wrapPanic
	}
	switch fn.String() {
	case "(*sync.WaitGroup).Add":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			n := x.term(args[1])
			if !n.isInt() {
				panic(unsup("WaitGroup.Add of a symbolic number"))
			}
			x.wgAdd(st, x.wgObj(args[0]), int(n.N), in.Pos())
			return []Outcome{{St: st, Kind: ORet}}
		}
	case "(*sync.WaitGroup).Done":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			x.wgAdd(st, x.wgObj(args[0]), -1, in.Pos())
			return []Outcome{{St: st, Kind: ORet}}
		}
	case "(*sync.WaitGroup).Wait":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			x.wgWait(st, x.wgObj(args[0]), in.Pos())
			return []Outcome{{St: st, Kind: ORet}}
		}
	case "runtime.GOMAXPROCS":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			x.oblige(st, x.unit.tagsFor("safety"), "GOMAXPROCS-unchanged", Le(x.term(args[0]), IntT(0)), in.Pos())
			st.assume(Ge(gmp, IntT(1)))
			return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(gmp)}}}
		}
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(x.sprint(st, fn.Name(), args))}}}
		}
	case "fmt.Errorf":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			s := x.sprint(st, "Sprintf", args)
			return []Outcome{{St: st, Kind: ORet, Ret: []Val{x.newError(s)}}}
		}
	case "errors.New":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			return []Outcome{{St: st, Kind: ORet, Ret: []Val{x.newError(x.term(args[0]))}}}
		}
	case "runtime/debug.Stack":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			return []Outcome{{St: st, Kind: ORet, Ret: []Val{&OpaqueV{Name: "stack", Typ: f.Fn.Signature.Results().At(0).Type()}}}}
		}
	}
	return nil
}

// errV is the dynamic value of an error made by errors.New or fmt.Errorf.
type errV struct{ text *Term }

var errorType = types.Universe.Lookup("error").Type()

func (x *Exec) newError(s *Term) Val {
	return &IfaceV{Typ: errStringType, V: &errV{s}}
}

// errStringType stands for the unexported dynamic types of errors.New and fmt.Errorf.
var errStringType = func() types.Type {
	tn := types.NewTypeName(token.NoPos, nil, "errorString", nil)
	n := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	sig := types.NewSignatureType(types.NewVar(token.NoPos, nil, "e", n), nil, nil, nil,
		types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.String])), false)
	n.AddMethod(types.NewFunc(token.NoPos, nil, "Error", sig))
	return n
}()

// sprint models the fmt functions: a fresh string that contains the text of every argument
// that is formatted with %v, %s or %d.
func (x *Exec) sprint(st *State, name string, args []Val) *Term {
	r := Fresh("text", SStr)
	var vs []Val
	rest := args[len(args)-1]
	switch s := rest.(type) {
	case *SliceV:
		a, ok := st.heap[s.Obj].(*ArrayV)
		if ok && s.Off.isInt() && s.Len.isInt() {
			vs = a.E[s.Off.N : s.Off.N+s.Len.N]
		}
	}
	shown := make([]bool, len(vs))
	if name != "Sprintf" {
		for i := range shown {
			shown[i] = true
		}
	} else if f, ok := args[0].(*TermV); ok {
		if lit, ok := litOf(f.T); ok {
			k := 0
			for i := 0; i < len(lit); i++ {
				if lit[i] != '%' {
					continue
				}
				if i+1 < len(lit) && lit[i+1] == '%' {
					i++
					continue
				}
				j := i + 1
				for j < len(lit) && strings.IndexByte("+#-0 ", lit[j]) >= 0 {
					j++
				}
				if j < len(lit) && k < len(shown) {
					shown[k] = strings.IndexByte("vsw", lit[j]) >= 0
					k++
				}
				i = j
			}
		}
	}
	for i, v := range vs {
		if shown[i] {
			st.assume(UF2("contains", SBool, r, x.textOf(st, v)))
			st.assume(Ne(r, strConst("")))
		}
	}
	return r
}

// textOf is the text fmt prints for an interface value with %v.
func (x *Exec) textOf(st *State, v Val) *Term {
	switch c := v.(type) {
	case *IfaceV:
		if e, ok := c.V.(*errV); ok {
			return e.text
		}
		if sortOf(c.Typ) == SStr {
			return x.term(c.V)
		}
		if s, ok := c.V.(*StructV); ok && len(s.F) == 1 {
			// a struct that embeds an error prints as that error
			if _, ok := s.F[0].(*IfaceV); ok && types.Implements(c.Typ, errorType.Underlying().(*types.Interface)) {
				return x.textOf(st, s.F[0])
			}
		}
	}
	return UF1("textof", SStr, x.term(v))
}

var litTab = map[string]string{}

func litOf(t *Term) (string, bool) {
	symMu.Lock()
	defer symMu.Unlock()
	s, ok := litTab[t.S]
	return s, ok
}

// globals

func (x *Exec) global(g *ssa.Global) Val {
	if x.globals == nil {
		x.globals = map[*ssa.Global]*Obj{}
	}
	o := x.globals[g]
	if o == nil {
		o = NewObj("global", g.Name(), g.Type().(*types.Pointer).Elem())
		x.globals[g] = o
	}
	return &PtrV{Obj: o}
}

// wrapPanic is the contract of internal.WrapPanic at call sites; its body is verified
// against it by the unit "internal.WrapPanic".
func wrapPanic(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
	p := args[0]
	switch c := p.(type) {
	case *TermV:
		if Same(c.T, UNil) {
			return []Outcome{{St: st, Kind: ORet, Ret: []Val{p}}}
		}
	}
	t := x.term(p)
	w := mk("wrap", SU, t)
	st.assume(Eq(Eq(t, UNil), Eq(w, UNil)))
	return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(w)}}}
}
