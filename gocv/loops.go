package main

import (
	"fmt"
	"go/token"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// view gives access to the loop variables in one state.
type view struct {
	st  *State
	phi map[*ssa.Phi]Val
}

// lvar is a scalar that may change in a loop.
type lvar struct {
	name  string
	sort  string
	get   func(v *view) *Term
	ghost bool
}

// lcand is a candidate loop invariant.
type lcand struct {
	name  string
	term  func(v *view) *Term
	fact  func(v *view) *Fact
	holds func(x *Exec, v *view) bool // overrides term
	eq    bool
	goal  func(v *view) *Term // of holds
	by    []*lcand            // stronger candidates that make this one redundant
	apply func(v *view)       // what the header state gains, with holds
}

type loopRun struct {
	x     *Exec
	fr    *Frame
	st    *State
	lp    *Loop
	phis  []*ssa.Phi
	entry *view
	head  *view // only the phi values are meaningful
	wset  map[*Obj]bool
	wval  map[*Obj]Val
	wmask map[*Obj]*wmask
	g     Ghost
	hb    bool
	dead  bool
	vars  []*lvar
	invs  []*Term
	cands []*lcand
}

func scalarVars(name string, entry Val, get func(v *view) Val) []*lvar {
	switch e := entry.(type) {
	case *TermV:
		return []*lvar{{name: name, sort: e.T.Sort, get: func(v *view) *Term {
			t, ok := get(v).(*TermV)
			if !ok {
				panic(unsup("loop variable %s changes its representation", name))
			}
			return t.T
		}}}
	case *SliceV:
		sl := func(v *view) *SliceV {
			s, ok := get(v).(*SliceV)
			if !ok {
				panic(unsup("loop variable %s changes its representation", name))
			}
			return s
		}
		return []*lvar{
			{name: name + ".off", sort: SInt, get: func(v *view) *Term { return sl(v).Off }},
			{name: name + ".len", sort: SInt, get: func(v *view) *Term { return sl(v).Len }},
		}
	case *RVal:
		if e.K != "val" {
			return nil
		}
		return []*lvar{{name: name, sort: SU, get: func(v *view) *Term {
			t, ok := get(v).(*RVal)
			if !ok || t.K != "val" {
				panic(unsup("loop variable %s changes its representation", name))
			}
			return t.T
		}}}
	case *StructV:
		var r []*lvar
		for i := range e.F {
			i := i
			r = append(r, scalarVars(fmt.Sprintf("%s.%d", name, i), e.F[i], func(v *view) Val { return get(v).(*StructV).F[i] })...)
		}
		return r
	}
	return nil
}

// havoc makes an arbitrary value of the same shape.
func havoc(name string, v Val) Val {
	switch e := v.(type) {
	case *TermV:
		return tv(Fresh(name, e.T.Sort))
	case *IfaceV:
		return tv(Fresh(name, SU))
	case *RVal:
		if e.K == "val" {
			return &RVal{K: "val", T: Fresh(name, SU)}
		}
	case *SliceV:
		return &SliceV{Obj: e.Obj, Off: Fresh(name+".off", SInt), Len: Fresh(name+".len", SInt)}
	case *StructV:
		n := &StructV{}
		for i, f := range e.F {
			n.F = append(n.F, havoc(fmt.Sprintf("%s.%d", name, i), f))
		}
		return n
	case *ArrayV:
		n := &ArrayV{}
		for i, f := range e.E {
			n.E = append(n.E, havoc(fmt.Sprintf("%s.%d", name, i), f))
		}
		return n
	}
	return v
}

// wmask tells which parts of an object the body of a loop changes.
type wmask struct {
	all bool
	sub []*wmask
}

// widen makes the parts of cur arbitrary that differ in out.
func (m *wmask) widen(name string, cur, out Val) (Val, bool) {
	if m.all || sameVal(cur, out) {
		return cur, false
	}
	parts := func(a, b []Val) ([]Val, bool) {
		for len(m.sub) < len(a) {
			m.sub = append(m.sub, &wmask{})
		}
		r, more := make([]Val, len(a)), false
		for i := range a {
			v, ch := m.sub[i].widen(fmt.Sprintf("%s.%d", name, i), a[i], b[i])
			r[i], more = v, more || ch
		}
		return r, more
	}
	switch p := cur.(type) {
	case *StructV:
		if q, ok := out.(*StructV); ok && len(p.F) == len(q.F) {
			r, more := parts(p.F, q.F)
			return &StructV{F: r}, more
		}
	case *ArrayV:
		if q, ok := out.(*ArrayV); ok && len(p.E) == len(q.E) {
			r, more := parts(p.E, q.E)
			return &ArrayV{E: r}, more
		}
	}
	m.all = true
	return havoc(name, cur), true
}

// shapeChanged reports a change of a part that havoc does not generalise.
func shapeChanged(a, b Val) bool {
	switch p := a.(type) {
	case *TermV:
		_, ok := b.(*TermV)
		_, ok2 := b.(*IfaceV)
		return !ok && !(ok2 && p.T.Sort == SU)
	case *RVal:
		q, ok := b.(*RVal)
		return !ok || p.K != q.K || p.K != "val" && !sameVal(p, q)
	case *SliceV:
		q, ok := b.(*SliceV)
		return !ok || p.Obj != q.Obj
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(p.F) != len(q.F) {
			return true
		}
		for i := range p.F {
			if shapeChanged(p.F[i], q.F[i]) {
				return true
			}
		}
		return false
	case *ArrayV:
		q, ok := b.(*ArrayV)
		if !ok || len(p.E) != len(q.E) {
			return true
		}
		for i := range p.E {
			if shapeChanged(p.E[i], q.E[i]) {
				return true
			}
		}
		return false
	}
	return !sameVal(a, b)
}

func (x *Exec) runLoop(fr *Frame, st *State, lp *Loop, prev *ssa.BasicBlock) []Outcome {
	if o, ok := x.th().Loop(x, fr, st, lp, prev); ok {
		return o
	}
	l := &loopRun{x: x, fr: fr, st: st, lp: lp, wset: map[*Obj]bool{}, wval: map[*Obj]Val{}, wmask: map[*Obj]*wmask{}}
	l.hb, l.dead = st.g.hb, st.g.dead
	idx := -1
	for i, p := range lp.header.Preds {
		if p == prev {
			idx = i
		}
	}
	l.entry = &view{st: st.clone(), phi: map[*ssa.Phi]Val{}}
	l.head = &view{phi: map[*ssa.Phi]Val{}}
	for _, in := range lp.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		l.phis = append(l.phis, ph)
		v := x.get(fr, ph.Edges[idx])
		l.entry.phi[ph] = v
		l.head.phi[ph] = havoc("l."+ph.Comment+ph.Name(), v)
		if h, ok := l.head.phi[ph].(*TermV); ok && h.T.Sort == SInt && x.unit.C != nil && x.unit.wrapInts && x.unit.Comb != "add" && x.unit.Comb != "mul" {
			if w, signed := intWidth(ph.Type()); w == 64 && signed {
				st.assume(machineInt(h.T))
			}
		}
	}
	l.g = Ghost{S: Fresh("S", SInt), D: Fresh("D", SInt), N: Fresh("N", SInt), Pos: Fresh("Pos", SInt)}

	// discover what the body writes
	for round := 0; ; round++ {
		if round > 20 {
			panic(unsup("loop write set"))
		}
		grown := false
		x.probe++
		outs := l.run(nil, true)
		x.probe--
		for _, o := range outs {
			for w := range o.St.log.writes {
				if _, ok := st.heap[w]; !ok {
					continue
				}
				if !l.wset[w] {
					if sameVal(o.St.heap[w], st.heap[w]) {
						continue
					}
					l.wset[w], l.wmask[w], l.wval[w] = true, &wmask{}, st.heap[w]
				}
				v, more := l.wmask[w].widen("l."+w.Name, l.wval[w], o.St.heap[w])
				l.wval[w] = v
				grown = grown || more
			}
			if o.Kind == OBack {
				if o.St.g.hb && !l.hb {
					l.hb, grown = true, true
				}
				if o.St.g.dead && !l.dead {
					l.dead, grown = true, true
				}
			}
		}
		if !grown {
			break
		}
	}
	l.makeVars()
	l.makeCands()
	// keep those that hold at entry
	on := l.filter(l.cands, []*view{l.entry})
	// Houdini
	for {
		x.probe++
		outs := l.run(on, true)
		x.probe--
		keep := l.filter(on, l.backs(outs))
		if len(keep) == len(on) {
			break
		}
		on = keep
	}
	// final run
	on = pruned(on)
	outs := l.run(on, false)
	backs := l.backs(outs)
	l.ranking(on, backs)
	pos := l.pos()
	for _, c := range on {
		x.pass(x.unit.tagsFor("invariant"), "loop-invariant-preserved "+c.name, pos)
	}
	var res []Outcome
	for _, o := range outs {
		if !l.own(o) {
			res = append(res, o)
		}
	}
	return res
}

// pruned drops candidates that follow from others: less to assume.
func pruned(on []*lcand) []*lcand {
	is := map[*lcand]bool{}
	for _, c := range on {
		is[c] = true
	}
	var r []*lcand
	for _, c := range on {
		drop := false
		for _, b := range c.by {
			drop = drop || is[b]
		}
		if !drop {
			r = append(r, c)
		}
	}
	return r
}

// filter gives the candidates that hold in all views.
func (l *loopRun) filter(cands []*lcand, vs []*view) []*lcand {
	x := l.x
	ok := make([]bool, len(cands))
	for i := range ok {
		ok[i] = true
	}
	// per view, the candidates to decide; they are decided in groups
	type job struct {
		pc []*Term
		is []int
		gs []*Term
	}
	var jobs []*job
	for _, v := range vs {
		var is []int
		var gs []*Term
		for i, c := range cands {
			if !ok[i] {
				continue
			}
			if len(x.pool) == 0 || c.fact != nil || c.holds != nil && c.goal == nil {
				ok[i] = l.holds(c, v)
				continue
			}
			var g *Term
			if c.goal != nil {
				g = c.goal(v)
			} else {
				g = c.term(v)
			}
			triv := Same(g, TTrue)
			for _, p := range v.st.pc {
				triv = triv || Same(p, g)
			}
			if !triv {
				is, gs = append(is, i), append(gs, g)
			}
		}
		const group = 12
		for len(is) > 0 {
			n := group
			if n > len(is) {
				n = len(is)
			}
			jobs = append(jobs, &job{pc: v.st.pc, is: is[:n], gs: gs[:n]})
			is, gs = is[n:], gs[n:]
		}
	}
	if len(jobs) > 0 {
		x.checkTime()
		ch := make(chan *job)
		var wg sync.WaitGroup
		var mu sync.Mutex
		for _, s := range x.pool {
			wg.Add(1)
			go func(s *Solver) {
				defer wg.Done()
				var decide func(pc []*Term, is []int, gs []*Term)
				decide = func(pc []*Term, is []int, gs []*Term) {
					mu.Lock()
					var js []int
					var hs []*Term
					for k, i := range is {
						if ok[i] {
							js, hs = append(js, i), append(hs, gs[k])
						}
					}
					mu.Unlock()
					if len(js) == 0 {
						return
					}
					if s.Check(append(append([]*Term(nil), pc...), Not(And(hs...)))) == Unsat {
						return
					}
					if len(js) == 1 {
						mu.Lock()
						ok[js[0]] = false
						mu.Unlock()
						return
					}
					m := len(js) / 2
					decide(pc, js[:m], hs[:m])
					decide(pc, js[m:], hs[m:])
				}
				for j := range ch {
					decide(j.pc, j.is, j.gs)
				}
			}(s)
		}
		for _, j := range jobs {
			ch <- j
		}
		close(ch)
		wg.Wait()
	}
	var keep []*lcand
	for i, c := range cands {
		if ok[i] {
			keep = append(keep, c)
		}
	}
	return keep
}

func (l *loopRun) pos() token.Pos {
	for _, in := range l.lp.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return l.fr.fn.Pos()
}

// run executes the body once from an arbitrary state satisfying the candidates.
func (l *loopRun) run(on []*lcand, probe bool) []Outcome {
	x := l.x
	fr := l.fr.clone()
	st := l.st.clone()
	for k, v := range l.wval {
		st.heap[k] = v
		st.log.writes[k] = true
	}
	st.g.S, st.g.D, st.g.N, st.g.Pos = l.g.S, l.g.D, l.g.N, l.g.Pos
	st.g.hb, st.g.dead = l.hb, l.dead
	for _, p := range l.phis {
		fr.regs[p] = l.head.phi[p]
	}
	h := &view{st: st, phi: l.head.phi}
	for _, c := range on {
		switch {
		case c.apply != nil:
			c.apply(h)
		case c.fact != nil:
			st.g.facts = append(st.g.facts, c.fact(h))
		default:
			st.assume(c.term(h))
		}
	}
	fr.loops = append(fr.loops, &loopCtx{header: l.lp.header, body: l.lp.body, probe: probe})
	outs := x.runFrom(fr, st, l.lp.header, nphis(l.lp.header))
	for _, o := range outs {
		if !l.own(o) {
			continue
		}
		if len(o.St.pend) != len(l.st.pend) {
			panic(unsup("goroutines that outlive a loop iteration"))
		}
		for _, p := range l.phis {
			v := x.get(o.fr, p.Edges[predIndex(l.lp.header, o.prev)])
			if shapeChanged(l.head.phi[p], v) {
				panic(unsup("loop variable %s of %s", p.Comment, l.fr.fn))
			}
		}
		x.th().Back(x, l.st, o.St)
		for k := range l.wset {
			if shapeChanged(l.wval[k], o.St.heap[k]) {
				panic(unsup("variable %s changes shape in a loop of %s", k.Name, l.fr.fn))
			}
		}
	}
	return outs
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

// own: the outcome ends an iteration of this loop (and not of one around it).
func (l *loopRun) own(o Outcome) bool {
	return o.Kind == OBack && o.fr.fn == l.fr.fn && o.fr.depth == l.fr.depth && o.hdr == l.lp.header
}

func (l *loopRun) backs(outs []Outcome) []*view {
	var r []*view
	for _, o := range outs {
		if !l.own(o) {
			continue
		}
		v := &view{st: o.St, phi: map[*ssa.Phi]Val{}}
		for _, p := range l.phis {
			v.phi[p] = l.x.get(o.fr, p.Edges[predIndex(l.lp.header, o.prev)])
		}
		r = append(r, v)
	}
	return r
}

func (l *loopRun) makeVars() {
	for _, p := range l.phis {
		p := p
		l.vars = append(l.vars, scalarVars(p.Comment+"."+p.Name(), l.head.phi[p], func(v *view) Val {
			if t, ok := v.phi[p].(*IfaceV); ok {
				return tv(l.x.term(t))
			}
			return v.phi[p]
		})...)
	}
	var ws []*Obj
	for w := range l.wset {
		ws = append(ws, w)
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i].ID < ws[j].ID })
	for _, w := range ws {
		w := w
		l.vars = append(l.vars, scalarVars(w.Name, l.wval[w], func(v *view) Val {
			if t, ok := v.st.heap[w].(*IfaceV); ok {
				return tv(l.x.term(t))
			}
			return v.st.heap[w]
		})...)
	}
	l.vars = append(l.vars,
		&lvar{name: "pos", sort: SInt, ghost: true, get: func(v *view) *Term { return v.st.g.Pos }},
		&lvar{name: "calls", sort: SInt, ghost: true, get: func(v *view) *Term { return v.st.g.N }})
	if d, ok := l.x.th().(interface{ Derived(l *loopRun) }); ok {
		d.Derived(l)
	}
}

// invariantTerms are the loop-invariant integers the body compares with.
func (l *loopRun) invariantTerms() []*Term {
	seen := map[string]bool{}
	var r []*Term
	add := func(t *Term) {
		if t.Sort == SInt && !seen[t.S] {
			seen[t.S] = true
			r = append(r, t)
		}
	}
	add(IntT(0))
	// pure evaluates what the body computes from values known before the loop (a field of a
	// struct that the body loads again and again)
	var pure func(v ssa.Value) Val
	pure = func(v ssa.Value) Val {
		in, ok := v.(ssa.Instruction)
		if !ok || !l.lp.body[in.Block()] {
			if r, ok := l.fr.regs[v]; ok {
				return r
			}
			if _, ok := v.(*ssa.FreeVar); ok {
				return l.x.get(l.fr, v)
			}
			return nil
		}
		switch in := in.(type) {
		case *ssa.FieldAddr:
			if p, ok := pure(in.X).(*PtrV); ok {
				return &PtrV{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], Sel{Field: in.Field})}
			}
		case *ssa.UnOp:
			if p, ok := pure(in.X).(*PtrV); ok && in.Op == token.MUL && !l.wset[p.Obj] && (len(p.Path) > 0 || p.Obj.Kind == "cell") {
				return l.x.load(l.st.clone(), p, in.Pos())
			}
		}
		return nil
	}
	try := func(v ssa.Value) {
		if in, ok := v.(ssa.Instruction); ok && l.lp.body[in.Block()] {
			if _, ok := v.(*ssa.UnOp); ok && sortOf(v.Type()) == SInt {
				func() {
					defer func() { recover() }()
					l.x.probe++
					defer func() { l.x.probe-- }()
					if t, ok := pure(v).(*TermV); ok {
						add(t.T)
					}
				}()
			}
			// a len() or field of something invariant
			if c, ok := v.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if a, ok := l.fr.regs[c.Call.Args[0]]; ok {
						if s, ok := a.(*SliceV); ok {
							add(s.Len)
						} else if n, ok := l.x.th().Len(l.x, l.st, a); ok {
							add(n)
						}
					}
				}
			}
			return
		}
		switch v.(type) {
		case *ssa.Const:
		default:
			if _, ok := l.fr.regs[v]; !ok {
				return
			}
		}
		if sortOf(v.Type()) != SInt {
			return
		}
		if t, ok := l.x.get(l.fr, v).(*TermV); ok {
			add(t.T)
		}
	}
	var bs []*ssa.BasicBlock
	for b := range l.lp.body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					try(in.X)
					try(in.Y)
				}
			case *ssa.Call:
				for _, a := range in.Call.Args {
					if sortOf(a.Type()) == SInt {
						try(a)
					}
				}
			}
		}
	}
	if lo, hi := l.x.curRange(); lo != nil {
		add(lo)
		add(hi)
	}
	return r
}

func (l *loopRun) makeCands() {
	add := func(name string, f func(v *view) *Term) {
		l.cands = append(l.cands, &lcand{name: name, term: f})
	}
	x := l.x
	l.invs = l.invariantTerms()
	var ints []*lvar
	for _, v := range l.vars {
		if v.sort == SInt {
			ints = append(ints, v)
		}
	}
	for _, a := range ints {
		a := a
		a0 := a.get(l.entry)
		add(a.name+">=entry", func(v *view) *Term { return Ge(a.get(v), a0) })
		add(a.name+"<=entry", func(v *view) *Term { return Le(a.get(v), a0) })
		for _, t := range l.invs {
			t := t
			add(a.name+"<="+t.S, func(v *view) *Term { return Le(a.get(v), t) })
			add(a.name+"<"+t.S, func(v *view) *Term { return Lt(a.get(v), t) })
			add(a.name+">="+t.S, func(v *view) *Term { return Ge(a.get(v), t) })
			add(a.name+">"+t.S, func(v *view) *Term { return Gt(a.get(v), t) })
		}
	}
	for i, a := range ints {
		for _, b := range ints[i+1:] {
			a, b := a, b
			d, s := Sub(a.get(l.entry), b.get(l.entry)), Add(a.get(l.entry), b.get(l.entry))
			add(a.name+"-"+b.name, func(v *view) *Term { return Eq(Sub(a.get(v), b.get(v)), d) })
			l.cands[len(l.cands)-1].eq = true
			add(a.name+"+"+b.name, func(v *view) *Term { return Eq(Add(a.get(v), b.get(v)), s) })
			l.cands[len(l.cands)-1].eq = true
		}
	}
	eqs := append([]*lcand(nil), l.cands...)
	for _, b := range l.vars {
		if b.sort == SBool && !x.unit.lean {
			b := b
			for _, c := range eqs {
				if !c.eq {
					continue
				}
				c := c
				add(b.name+" => "+c.name, func(v *view) *Term { return Implies(b.get(v), c.term(v)) })
				add("!"+b.name+" => "+c.name, func(v *view) *Term { return Implies(Not(b.get(v)), c.term(v)) })
			}
			e := b.get(l.entry)
			add(b.name+"=entry", func(v *view) *Term { return Eq(b.get(v), e) })
		}
	}
	x.th().Cands(l)
	g0 := l.entry.st.g
	if x.unit.lean {
		return
	}
	add("starts=entry", func(v *view) *Term { return Eq(v.st.g.S, g0.S) })
	add("ends=entry", func(v *view) *Term { return Eq(v.st.g.D, g0.D) })
	add("ends=starts", func(v *view) *Term { return Eq(v.st.g.D, v.st.g.S) })
	add("ends<=starts", func(v *view) *Term { return Le(v.st.g.D, v.st.g.S) })
	lo, _ := x.curRange()
	if lo != nil && x.unit.Mode != "" {
		add("starts=cov(lo,pos)", func(v *view) *Term { return Eq(v.st.g.S, x.cov(lo, v.st.g.Pos)) })
		addFact := func(name string, V func(v *view) *Term) {
			l.cands = append(l.cands, &lcand{name: name, fact: func(v *view) *Fact {
				var t *Term
				if V != nil {
					t = V(v)
				}
				return &Fact{V: t, Flag: TFalse, Lo: lo, Hi: v.st.g.Pos}
			}})
		}
		if x.unit.Comb == "none" {
			addFact("completed(lo,pos)", nil)
		} else {
			for _, r := range l.vars {
				if r.sort == x.unit.sort && !r.ghost {
					if x.unit.Sig == "true" || x.unit.Sig == "false" {
						r := r
						l.cands = append(l.cands, &lcand{name: "value(" + r.name + ",flag,lo,pos)", fact: func(v *view) *Fact {
							t := r.get(v)
							return &Fact{V: t, Flag: x.sigFlag(t), Lo: lo, Hi: v.st.g.Pos}
						}})
					}
					addFact("value("+r.name+",lo,pos)", r.get)
				}
			}
			if e := x.neutral(); e != nil {
				addFact("value(neutral,lo,pos)", func(v *view) *Term { return e })
			}
		}
	}
}

func (l *loopRun) holds(c *lcand, v *view) bool {
	x := l.x
	if c.holds != nil {
		return c.holds(x, v)
	}
	if c.fact != nil {
		f := c.fact(v)
		return x.deriveVal(v.st, f.V, f.Flag, f.Lo, f.Hi, false)
	}
	return x.proves(v.st, c.term(v))
}

// ranking proves termination of the loop.
func (l *loopRun) ranking(on []*lcand, backs []*view) {
	x := l.x
	if x.probe > 0 || len(backs) == 0 || x.unit.noTerm {
		return
	}
	h := &view{st: l.st.clone(), phi: l.head.phi}
	for k, v := range l.wval {
		h.st.heap[k] = v
	}
	h.st.g.S, h.st.g.D, h.st.g.N, h.st.g.Pos = l.g.S, l.g.D, l.g.N, l.g.Pos
	type rk struct {
		name string
		f    func(v *view) *Term
	}
	var rs []rk
	for _, a := range l.vars {
		if a.sort != SInt || a.ghost {
			continue
		}
		a := a
		for _, t := range l.invs {
			t := t
			rs = append(rs, rk{t.S + "-" + a.name, func(v *view) *Term { return Sub(t, a.get(v)) }},
				rk{a.name + "-" + t.S, func(v *view) *Term { return Sub(a.get(v), t) }})
		}
		for _, b := range l.vars {
			if b == a || b.sort != SInt || b.ghost {
				continue
			}
			b := b
			rs = append(rs, rk{b.name + "-" + a.name, func(v *view) *Term { return Sub(b.get(v), a.get(v)) }})
		}
	}
	for _, r := range rs {
		ok := true
		for _, b := range backs {
			if !x.proves(b.st, And(Ge(r.f(h), IntT(0)), Lt(r.f(b), r.f(h)))) {
				ok = false
				break
			}
		}
		if ok {
			x.pass(x.unit.tagsFor("termination"), "loop-terminates by "+clip(r.name, 60), l.pos())
			return
		}
	}
	x.record(&Obl{Tags: x.unit.tagsFor("termination"), Label: "loop-terminates", Pos: x.posOf(l.pos()), Detail: "no ranking function found"})
}
