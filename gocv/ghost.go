package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Ghost state of the callback theory. X is a Skolem index fixed per unit.
type Ghost struct {
	S    *Term // invocations covering X that were started (including those of goroutines not joined)
	D    *Term // of these, terminated before now (happens-before)
	N    *Term // number of invocations started
	Pos  *Term // sequential mode: next index to be processed
	hb   bool  // some invocation terminated before now
	dead bool  // some callback panicked (sequential mode: nothing may be invoked any more)

	facts     []*Fact
	recovered []*recBox
}

func (g *Ghost) isRecovered(r *recBox) bool {
	for _, q := range g.recovered {
		if q == r {
			return true
		}
	}
	return false
}

// Fact is an element of one of the two ghost relations.
//
//	val:  the invocations for [Lo,Hi) completed; their in-order combination is V; Flag: early termination was signalled
//	pan:  V is the panic value of the left-most panic in [Lo,Hi)
type Fact struct {
	Pan    bool
	V      *Term
	Flag   *Term
	Lo, Hi *Term
}

func (f *Fact) String() string {
	v := "-"
	if f.V != nil {
		v = f.V.S
	}
	if f.Pan {
		return fmt.Sprintf("pan(%s,%s,%s)", v, f.Lo.S, f.Hi.S)
	}
	return fmt.Sprintf("val(%s,%s,%s,%s)", v, f.Flag.S, f.Lo.S, f.Hi.S)
}

// Unit is one verification unit: an API function with its callback semantics.
type Unit struct {
	Name       string
	Mode       string // "parallel", "sequential", "speculative", ""
	Comb       string // "none", "join", "add", "mul", "concat", "and", "or"
	Sig        string // "none", "true", "false", "second"
	X          *Term
	Tags       map[string][]string // default tags
	Extra      []string
	Ident      bool // the neutral element is the result for an empty list
	C          *Contract
	sort       string // sort of the result
	Theory     Theory
	inlineWrap bool
	wrapInts   bool // signed arithmetic wraps around
	noTerm     bool // loops need not terminate by themselves
	lean       bool // few generic candidate invariants, decided in parallel
	intr       func(fn *ssa.Function) intrinsic
}

func (u *Unit) tagsFor(kind string) []string {
	if t, ok := u.Tags[kind]; ok {
		return t
	}
	return u.Tags["default"]
}

func (x *Exec) cov(lo, hi *Term) *Term {
	return Ite(And(Le(lo, x.unit.X), Lt(x.unit.X, hi)), IntT(1), IntT(0))
}

// sigFlag computes the early-termination flag from a boolean result.
func (x *Exec) sigFlag(v *Term) *Term {
	switch x.unit.Sig {
	case "true":
		return v
	case "false":
		return Not(v)
	}
	return TFalse
}

// decode splits results into value and flag.
func (x *Exec) decode(ret []Val) (v, flag *Term) {
	flag = TFalse
	if len(ret) == 1 {
		if t, ok := ret[0].(*TupleV); ok {
			ret = t.E
		}
	}
	if len(ret) == 0 {
		return nil, TFalse
	}
	v = x.term(ret[0])
	switch x.unit.Sig {
	case "true", "false":
		flag = x.sigFlag(v)
	case "second":
		if len(ret) > 1 {
			flag = x.term(ret[1])
		}
	}
	if x.unit.Comb == "none" {
		v = nil
	}
	return
}

func (x *Exec) curRange() (lo, hi *Term) {
	if n := len(x.active); n > 0 {
		return x.active[n-1].Lo, x.active[n-1].Hi
	}
	return nil, nil
}

// leafStart checks what must hold whenever callbacks for [a,b) are about to start.
func (x *Exec) leafStart(st *State, a, b *Term, leaf bool, pos token.Pos) {
	g := &st.g
	u := x.unit
	if leaf {
		lo, hi := x.curRange()
		if lo != nil {
			x.oblige(st, u.tagsFor("leaf"), "callback-range-nonempty", Or(Lt(a, b), And(Eq(a, b), Eq(lo, hi), Eq(a, lo))), pos)
		}
	}
	switch u.Mode {
	case "parallel", "speculative":
		if len(u.tagsFor("concurrent")) == 0 {
		} else if g.hb {
			x.fail(st, u.tagsFor("concurrent"), "callbacks-concurrent", "a callback is started only after another one has terminated", pos)
		} else {
			x.pass(u.tagsFor("concurrent"), "callbacks-concurrent", pos)
		}
	case "sequential":
		x.oblige(st, u.tagsFor("order"), "left-to-right", Eq(a, g.Pos), pos)
		if g.dead {
			x.fail(st, u.tagsFor("order"), "nothing-after-panic", "a callback is invoked after a callback panicked", pos)
		}
		if st.task != 0 {
			x.fail(st, u.tagsFor("order"), "same-goroutine", "a callback is invoked in another goroutine", pos)
		}
	}
	if u.Mode == "speculative" && len(u.tagsFor("early")) > 0 {
		for _, f := range g.facts {
			if !f.Pan && !x.proves(st, Not(f.Flag)) && !x.proves(st, Le(b, f.Lo)) {
				x.fail(st, u.tagsFor("early"), "no-wait-after-decision", "work to the right is started inline although the call may be decided by "+f.String(), pos)
			}
		}
	}
}

// leafDone records the completion of callbacks for [a,b).
func (x *Exec) leafDone(st *State, a, b, v, flag *Term) {
	g := &st.g
	g.hb = true
	g.facts = append(g.facts, &Fact{V: v, Flag: flag, Lo: a, Hi: b})
	g.Pos = b
}

// callLeaf models the invocation of a user callback for [a,b).
func (x *Exec) callLeaf(st *State, a, b *Term, sig *types.Signature, pos token.Pos) []Outcome {
	x.leafStart(st, a, b, true, pos)
	c := x.cov(a, b)
	// normal return
	s1 := st.clone()
	s1.g.S = Add(s1.g.S, c)
	s1.g.D = Add(s1.g.D, c)
	s1.g.N = Add(s1.g.N, IntT(1))
	var ret []Val
	for i := 0; i < sig.Results().Len(); i++ {
		ret = append(ret, freshVal("r", sig.Results().At(i).Type()))
	}
	v, flag := x.decode(ret)
	x.leafDone(s1, a, b, v, flag)
	// panic
	s2 := st
	s2.g.S = Add(s2.g.S, c)
	s2.g.D = Add(s2.g.D, c)
	s2.g.N = Add(s2.g.N, IntT(1))
	s2.g.hb = true
	s2.g.dead = true
	o := Fresh("pan", SU)
	s2.assume(Ne(o, UNil))
	s2.g.facts = append(s2.g.facts, &Fact{Pan: true, V: o, Flag: TFalse, Lo: a, Hi: b})
	return []Outcome{{St: s1, Kind: ORet, Ret: ret}, {St: s2, Kind: OPanic, Pan: tv(o)}}
}

// tuples saturates the val relation under its introduction rules.
func (x *Exec) tuples(st *State) []*Fact {
	var ts []*Fact
	for _, f := range st.g.facts {
		if !f.Pan {
			ts = append(ts, f)
		}
	}
	type key struct{ a, b *Fact }
	done := map[key]bool{}
	unflagged := map[*Fact]int{}
	unfl := func(f *Fact) bool {
		if unflagged[f] == 0 {
			unflagged[f] = 1
			if x.proves(st, Not(f.Flag)) {
				unflagged[f] = 2
			}
		}
		return unflagged[f] == 2
	}
	for round := 0; round < 4 && len(ts) < 24; round++ {
		n := len(ts)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				f, g := ts[i], ts[j]
				if f == g || done[key{f, g}] {
					continue
				}
				done[key{f, g}] = true
				if !x.proves(st, Eq(f.Hi, g.Lo)) || !unfl(f) {
					continue
				}
				var nf *Fact
				switch x.unit.Comb {
				case "none":
					nf = &Fact{Flag: g.Flag, Lo: f.Lo, Hi: g.Hi}
				case "join":
					if x.unit.Sig == "second" && x.proves(st, g.Flag) {
						nf = &Fact{V: g.V, Flag: TTrue, Lo: f.Lo, Hi: g.Hi}
					}
				default:
					if f.V == nil || g.V == nil {
						continue
					}
					v := x.combine(f.V, g.V)
					fl := TFalse
					if x.unit.Sig == "true" || x.unit.Sig == "false" {
						fl = x.sigFlag(v)
					}
					nf = &Fact{V: v, Flag: fl, Lo: f.Lo, Hi: g.Hi}
				}
				if nf != nil {
					ts = append(ts, nf)
				}
			}
		}
		if len(ts) == n {
			break
		}
	}
	return ts
}

func (x *Exec) combine(a, b *Term) *Term {
	switch x.unit.Comb {
	case "add":
		if a.Sort == SInt {
			return Add(a, b)
		}
		DeclareFun("fadd", []string{SF, SF}, SF)
		return Comm("fadd", SF, a, b)
	case "mul":
		if a.Sort == SInt {
			return Mul(a, b)
		}
		DeclareFun("fmul", []string{SF, SF}, SF)
		return Comm("fmul", SF, a, b)
	case "concat":
		return UF2("sconcat", SStr, a, b)
	case "and":
		return And(a, b)
	case "or":
		return Or(a, b)
	}
	panic(unsup("combination %s", x.unit.Comb))
}

func (x *Exec) neutral() *Term {
	switch x.unit.Comb {
	case "add":
		if x.unit.sort == SF {
			return fltConst(0)
		}
		return IntT(0)
	case "mul":
		if x.unit.sort == SF {
			return fltConst(1)
		}
		return IntT(1)
	case "concat":
		return strConst("")
	case "and":
		return TTrue
	case "or":
		return TFalse
	}
	return nil
}

// deriveVal decides whether val(v, flag, lo, hi) follows; v == nil or flag == nil: any.
func (x *Exec) deriveVal(st *State, v, flag, lo, hi *Term, anyV bool) bool {
	if x.unit.Ident && x.proves(st, Eq(lo, hi)) {
		e := x.neutral()
		if e == nil || anyV || v == nil || x.proves(st, Eq(v, e)) {
			if flag == nil || x.proves(st, Not(flag)) {
				return true
			}
		}
	}
	for _, t := range x.tuples(st) {
		goal := Eq(t.Lo, lo)
		if Same(goal, TFalse) {
			continue
		}
		cs := []*Term{goal, Or(Eq(t.Hi, hi), t.Flag)}
		if !anyV {
			if v != nil {
				if t.V == nil {
					continue
				}
				cs = append(cs, Eq(t.V, v))
			}
			if flag != nil {
				cs = append(cs, Eq(t.Flag, flag))
			}
		}
		ok := true
		for _, c := range cs {
			if !x.proves(st, c) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// derivePan decides whether pan(v, lo, hi) follows.
func (x *Exec) derivePan(st *State, pv Val, lo, hi *Term) bool {
	v := x.term(pv)
	var ts []*Fact
	for _, f := range st.g.facts {
		if !f.Pan {
			continue
		}
		match := false
		for w := v; ; w = w.Args[0] {
			if Same(w, f.V) {
				match = true
				break
			}
			if w.Op != "wrap" {
				break
			}
		}
		if !match && x.unit.Mode != "sequential" {
			w := f.V
			for i := 0; i < 2 && !match; i++ {
				match = x.proves(st, Eq(v, w))
				w = mk("wrap", SU, w)
			}
		}
		if x.unit.Mode == "sequential" {
			match = x.proves(st, Eq(v, f.V))
		}
		if !match {
			continue
		}
		if x.proves(st, Eq(f.Lo, lo)) {
			return true
		}
		if x.unit.Ident && x.proves(st, Eq(f.Lo, lo)) {
			return true
		}
		if ts == nil {
			ts = x.tuples(st)
		}
		for _, t := range ts {
			if x.proves(st, Eq(t.Lo, lo)) && x.proves(st, Eq(t.Hi, f.Lo)) && x.proves(st, Not(t.Flag)) {
				return true
			}
		}
	}
	return false
}

// callJoin models the invocation of the user's join function.
func (x *Exec) callJoin(st *State, f *OpaqueFn, args []Val, pos token.Pos) []Outcome {
	p, q := x.term(args[0]), x.term(args[1])
	ts := x.tuples(st)
	unfl := func(f *Fact) bool { return x.proves(st, Not(f.Flag)) }
	type pair struct{ lo, hi *Term }
	var ps []pair
	for _, a := range ts {
		if a.V == nil || !(Same(a.V, p) || x.proves(st, Eq(a.V, p))) || !unfl(a) {
			continue
		}
		for _, b := range ts {
			if a == b || b.V == nil || !(Same(b.V, q) || x.proves(st, Eq(b.V, q))) {
				continue
			}
			if x.proves(st, Eq(a.Hi, b.Lo)) && unfl(b) {
				ps = append(ps, pair{a.Lo, b.Hi})
			}
		}
	}
	if len(ps) == 0 {
		x.fail(st, x.unit.tagsFor("join"), "join-operands-in-order", "join is called with operands that are not the results of two adjacent parts, in this order", pos)
	} else {
		x.pass(x.unit.tagsFor("join"), "join-operands-in-order", pos)
	}
	s1, s2 := st.clone(), st
	var ret []Val
	for i := 0; i < f.Sig.Results().Len(); i++ {
		ret = append(ret, freshVal("joined", f.Sig.Results().At(i).Type()))
	}
	v, flag := x.decode(ret)
	o := Fresh("joinpan", SU)
	s2.assume(Ne(o, UNil))
	for _, p := range ps {
		s1.g.facts = append(s1.g.facts, &Fact{V: v, Flag: flag, Lo: p.lo, Hi: p.hi})
		s2.g.facts = append(s2.g.facts, &Fact{Pan: true, V: o, Flag: TFalse, Lo: p.lo, Hi: p.hi})
	}
	s2.g.dead = true
	return []Outcome{{St: s1, Kind: ORet, Ret: ret}, {St: s2, Kind: OPanic, Pan: tv(o)}}
}

// callOpaque dispatches calls of user-supplied functions.
func (x *Exec) callOpaque(st *State, f *OpaqueFn, args []Val, in ssa.Instruction) []Outcome {
	switch f.Role {
	case "leaf": // range callback
		return x.callLeaf(st, x.term(args[0]), x.term(args[1]), f.Sig, in.Pos())
	case "elem": // element of a function list
		return x.callLeaf(st, f.Pos, Add(f.Pos, IntT(1)), f.Sig, in.Pos())
	case "join":
		return x.callJoin(st, f, args, in.Pos())
	}
	if o, ok := x.extOpaque(st, f, args, in); ok {
		return o
	}
	panic(unsup("call of function value %s (%s)", f.Name, f.Role))
}

func (u *Unit) intrinsic(fn *ssa.Function) intrinsic {
	if u.intr != nil {
		return u.intr(fn)
	}
	return nil
}
