package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OKind int

const (
	ORet OKind = iota
	OPanic
	OBack // reached the header of the loop being analysed again
)

type Outcome struct {
	St   *State
	Kind OKind
	Ret  []Val
	Pan  Val
	fr   *Frame          // OBack: the frame at the back edge
	hdr  *ssa.BasicBlock // OBack: the header
	prev *ssa.BasicBlock
}

// Log records the memory accesses of one task.
type Log struct {
	reads, writes map[*Obj]bool
	events        []*Ev
}

// Ev is a release event: everything the task did before is visible to whoever waits for it.
type Ev struct {
	wg     *Obj
	vals   map[*Obj]Val
	nfacts int
	D      *Term
	hb     bool
	dones  int
	adds   int
}

// Task is a completed symbolic run of a goroutine that has not been joined yet.
type Task struct {
	id            int64
	nf0           int
	fn            string
	reads, writes map[*Obj]bool
	final         map[*Obj]Val
	events        []*Ev
	facts         []*Fact
	N             *Term
	ext           *ExtLog
}

type State struct {
	pc   []*Term
	heap map[*Obj]Val
	pend []*Task
	log  *Log
	g    Ghost
	task int64
	ext  Ext
}

func (s *State) clone() *State {
	n := &State{task: s.task, g: s.g}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.heap = make(map[*Obj]Val, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pend = append([]*Task(nil), s.pend...)
	n.log = s.log.clone()
	n.g.facts = append([]*Fact(nil), s.g.facts...)
	n.ext = cloneExt(s.ext)
	return n
}

func newLog() *Log { return &Log{map[*Obj]bool{}, map[*Obj]bool{}, nil} }

func (l *Log) clone() *Log {
	n := newLog()
	for k := range l.reads {
		n.reads[k] = true
	}
	for k := range l.writes {
		n.writes[k] = true
	}
	n.events = append([]*Ev(nil), l.events...)
	return n
}

func (s *State) assume(t *Term) {
	if Same(t, TTrue) {
		return
	}
	s.pc = append(s.pc[:len(s.pc):len(s.pc)], t)
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	inst ssa.Instruction
}

type Frame struct {
	fn       *ssa.Function
	regs     map[ssa.Value]Val
	defers   []*deferred
	panicVal *panicState // panic state of the frame that runs this deferred call
	loops    []*loopCtx
	depth    int
}

type panicState struct {
	val Val
	rec *recBox
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs))
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = append([]*deferred(nil), f.defers...)
	n.loops = append([]*loopCtx(nil), f.loops...)
	return &n
}

// Obl is one proof obligation.
type Obl struct {
	Unit   string
	Tags   []string
	Label  string
	Pos    string
	Ok     bool
	By     string
	Detail string
	Undec  bool // the tool could not translate the code
}

type Exec struct {
	prog      *Program
	sol       *Solver
	pool      []*Solver // for queries in parallel
	unit      *Unit
	obls      []*Obl
	probe     int
	stack     []*ssa.Function
	active    []*Inst // contract instances of functions being verified (for recursion)
	schemas   map[*ssa.Function]bool
	verified  []string
	globals   map[*ssa.Global]*Obj
	steps     int
	deadline  time.Time
	failLimit int // give up an attempt after so many failed obligations (0: never)
	failed    int
}

func (x *Exec) checkTime() {
	if time.Now().After(x.deadline) {
		panic(unsup("time limit of the unit"))
	}
}

func (x *Exec) unsatWith(st *State, extra ...*Term) bool {
	ts := append(append([]*Term(nil), st.pc...), extra...)
	x.checkTime()
	return x.sol.Check(ts) == Unsat
}

// proves is a cheap entailment test.
func (x *Exec) proves(st *State, goal *Term) bool {
	if Same(goal, TTrue) {
		return true
	}
	for _, p := range st.pc {
		if Same(p, goal) {
			return true
		}
	}
	return x.unsatWith(st, Not(goal))
}

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, x.prog.Root+"/"), q.Line)
}

func (x *Exec) record(o *Obl) {
	if x.probe > 0 {
		return
	}
	o.Unit = x.unit.Name
	if len(x.unit.Extra) > 0 {
		o.Unit += strings.Join(x.unit.Extra, "")
	}
	x.obls = append(x.obls, o)
}

// oblige records the obligation pc |- goal and assumes goal afterwards.
func (x *Exec) oblige(st *State, tags []string, label string, goal *Term, pos token.Pos) bool {
	if x.probe > 0 {
		st.assume(goal)
		return true
	}
	o := &Obl{Tags: tags, Label: label, Pos: x.posOf(pos)}
	ok, by := x.decide(st, goal)
	o.Ok, o.By = ok, by
	if !ok {
		o.Detail = "not valid: " + clip(goal.S, 300)
		if os.Getenv("GOCV_PC") != "" {
			for _, p := range st.pc {
				fmt.Fprintln(os.Stderr, "   pc:", clip(p.S, 200))
			}
			fmt.Fprintln(os.Stderr, "   goal:", label, clip(goal.S, 400))
		}
	}
	x.record(o)
	if !ok {
		if x.failed++; x.failLimit > 0 && x.failed >= x.failLimit {
			panic(unsup("%d obligations fail", x.failed))
		}
		// what does not hold is not assumed: it would hide violations of other properties
		return false
	}
	st.assume(goal)
	return true
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var hardTimeout = 8

func (x *Exec) decide(st *State, goal *Term) (bool, string) {
	if Same(goal, TTrue) {
		return true, "simplifier"
	}
	for _, p := range st.pc {
		if Same(p, goal) {
			return true, "simplifier"
		}
	}
	x.checkTime()
	ts := append(append([]*Term(nil), st.pc...), Not(goal))
	switch x.sol.Check(ts) {
	case Unsat:
		return true, "z3-4.8.12"
	case Sat:
		nl := false
		for _, t := range ts {
			walk(t, func(u *Term) {
				if u.Op == "mul" || u.Op == "qdiv" {
					nl = true
				}
			})
		}
		if !nl {
			return false, "z3-4.8.12"
		}
	}
	if len(x.pool) > 0 && x.failed >= 3 {
		return false, "" // the attempt has failed already
	}
	r, by := CheckHard(ts, secs(hardTimeout))
	return r == Unsat, by
}

func (x *Exec) fail(st *State, tags []string, label, detail string, pos token.Pos) {
	if x.probe > 0 {
		return
	}
	// unreachable paths raise no alarm
	if x.unsatWith(st) {
		return
	}
	x.record(&Obl{Tags: tags, Label: label, Pos: x.posOf(pos), Detail: detail})
}

func (x *Exec) pass(tags []string, label string, pos token.Pos) {
	x.record(&Obl{Tags: tags, Label: label, Pos: x.posOf(pos), Ok: true, By: "engine"})
}

func (x *Exec) feasible(st *State, c *Term) bool {
	if Same(c, TTrue) {
		return true
	}
	if Same(c, TFalse) {
		return false
	}
	return !x.unsatWith(st, c)
}

// ---------------------------------------------------------------- memory

func (x *Exec) raceRead(st *State, o *Obj, pos token.Pos) {
	for _, t := range st.pend {
		if t.writes[o] {
			x.fail(st, x.unit.tagsFor("race"), "no-race-read", fmt.Sprintf("%s is read while goroutine %s may still write it", o, t.fn), pos)
		}
	}
	st.log.reads[o] = true
}

func (x *Exec) raceWrite(st *State, o *Obj, pos token.Pos) {
	for _, t := range st.pend {
		if t.writes[o] || t.reads[o] {
			x.fail(st, x.unit.tagsFor("race"), "no-race-write", fmt.Sprintf("%s is written while goroutine %s may still access it", o, t.fn), pos)
		}
	}
	st.log.writes[o] = true
}

func (x *Exec) load(st *State, p Val, pos token.Pos) Val {
	switch ptr := p.(type) {
	case *PtrV:
		if v, ok := x.extLoad(st, ptr, pos); ok {
			return v
		}
		x.raceRead(st, ptr.Obj, pos)
		v, ok := st.heap[ptr.Obj]
		if !ok {
			if ptr.Obj.Elem != nil && len(ptr.Path) == 1 && ptr.Path[0].Idx != nil {
				return ptr.Obj.Elem(ptr.Path[0].Idx)
			}
			panic(unsup("load from unknown object %s", ptr.Obj))
		}
		return x.getPath(v, ptr.Path)
	case *NilV:
		x.oblige(st, x.unit.tagsFor("safety"), "nil-dereference", TFalse, pos)
		panic(deadPath{})
	}
	panic(unsup("load through %T", p))
}

type deadPath struct{}

func (x *Exec) getPath(v Val, path []Sel) Val {
	for _, s := range path {
		switch c := v.(type) {
		case *StructV:
			v = c.F[s.Field]
		case *ArrayV:
			if s.Idx == nil || !s.Idx.isInt() {
				panic(unsup("symbolic index into a fixed array"))
			}
			v = c.E[s.Idx.N]
		default:
			panic(unsup("path into %T", v))
		}
	}
	return v
}

func setPath(v Val, path []Sel, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch c := v.(type) {
	case *StructV:
		n := &StructV{append([]Val(nil), c.F...)}
		n.F[s.Field] = setPath(c.F[s.Field], path[1:], nv)
		return n
	case *ArrayV:
		if s.Idx == nil || !s.Idx.isInt() {
			panic(unsup("symbolic index into a fixed array"))
		}
		n := &ArrayV{append([]Val(nil), c.E...)}
		n.E[s.Idx.N] = setPath(c.E[s.Idx.N], path[1:], nv)
		return n
	}
	panic(unsup("store path into %T", v))
}

func (x *Exec) store(st *State, p, v Val, pos token.Pos) {
	switch ptr := p.(type) {
	case *PtrV:
		if x.extStore(st, ptr, v, pos) {
			return
		}
		x.raceWrite(st, ptr.Obj, pos)
		old, ok := st.heap[ptr.Obj]
		if !ok {
			panic(unsup("store to unknown object %s", ptr.Obj))
		}
		st.heap[ptr.Obj] = setPath(old, ptr.Path, v)
		return
	case *NilV:
		x.oblige(st, x.unit.tagsFor("safety"), "nil-dereference", TFalse, pos)
		panic(deadPath{})
	}
	panic(unsup("store through %T", p))
}

// ---------------------------------------------------------------- functions

type needSchema struct{ fn *ssa.Function }

// runFn executes the body of fn (no contract).
func (x *Exec) runFn(st *State, fn *ssa.Function, binds, args []Val, ps *panicState) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(unsup("call of external function %s", fn))
	}
	if len(x.stack) > 60 {
		panic(unsup("call depth"))
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, panicVal: ps, depth: len(x.stack)}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.regs[f] = binds[i]
	}
	return x.runBlock(fr, st, fn.Blocks[0], nil)
}

func (x *Exec) get(fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		if th, ok := x.th().(interface {
			Const(c *ssa.Const) (Val, bool)
		}); ok {
			if v, ok := th.Const(c); ok {
				return v
			}
		}
		return constVal(c)
	case *ssa.Function:
		return &FnV{Fn: c}
	case *ssa.Global:
		return x.global(c)
	case *ssa.Builtin:
		return &BoundV{Name: "builtin." + c.Name()}
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(unsup("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (x *Exec) term(v Val) *Term {
	switch c := v.(type) {
	case *TermV:
		return c.T
	case *IfaceV:
		if c.id == nil {
			c.id = Fresh("iface", SU)
		}
		return c.id
	case *NilV:
		return UNil
	}
	panic(unsup("no term for %T", v))
}

// runBlock executes from block b (entered from prev) to the end of the function.
func (x *Exec) runBlock(fr *Frame, st *State, b, prev *ssa.BasicBlock) []Outcome {
	x.steps++
	if x.steps > 200000 {
		panic(unsup("path explosion in %s", x.unit.Name))
	}
	// loops
	for n := len(fr.loops); n > 0; n = len(fr.loops) {
		lc := fr.loops[n-1]
		if b == lc.header {
			return []Outcome{{St: st, Kind: OBack, fr: fr, prev: prev, hdr: b}}
		}
		if lc.body[b] {
			break
		}
		// leaving the loop
		if lc.probe {
			return nil
		}
		fr.loops = fr.loops[:n-1]
	}
	if prev != nil {
		if lp := x.prog.loopAt(fr.fn, b); lp != nil && !lp.body[prev] {
			return x.runLoop(fr, st, lp, prev)
		}
	}
	x.phis(fr, b, prev)
	return x.runFrom(fr, st, b, nphis(b))
}

func nphis(b *ssa.BasicBlock) int {
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func (x *Exec) phis(fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = x.get(fr, ph.Edges[idx])
	}
	for p, v := range vals {
		fr.regs[p] = v
	}
}

// runFrom executes block b from instruction i.
func (x *Exec) runFrom(fr *Frame, st *State, b *ssa.BasicBlock, i int) (outs []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadPath); ok {
				outs = nil
				return
			}
			panic(r)
		}
	}()
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := x.term(x.get(fr, in.Cond))
			t, e := b.Succs[0], b.Succs[1]
			ft, fe := x.feasible(st, c), x.feasible(st, Not(c))
			switch {
			case ft && fe:
				st2, fr2 := st.clone(), fr.clone()
				st.assume(c)
				st2.assume(Not(c))
				o := x.runBlock(fr, st, t, b)
				return append(o, x.runBlock(fr2, st2, e, b)...)
			case ft:
				st.assume(c)
				return x.runBlock(fr, st, t, b)
			case fe:
				st.assume(Not(c))
				return x.runBlock(fr, st, e, b)
			}
			return nil
		case *ssa.Jump:
			return x.runBlock(fr, st, b.Succs[0], b)
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.get(fr, r))
			}
			return []Outcome{{St: st, Kind: ORet, Ret: rs}}
		case *ssa.Panic:
			return x.unwind(fr, st, x.get(fr, in.X))
		case *ssa.RunDefers:
			x.th().Returning(x, fr, st)
			var res []Outcome
			for _, o := range x.runDefers(fr, st, nil) {
				if o.Kind == OPanic {
					res = append(res, o)
					continue
				}
				f := fr.clone()
				f.defers = nil
				res = append(res, x.runFrom(f, o.St, b, i+1)...)
			}
			return res
		case *ssa.Defer:
			d := &deferred{call: &in.Call, inst: in}
			d.fn, d.args = x.prepCall(fr, st, &in.Call)
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			if outs, handled := x.extInstr(fr, st, b, i, in); handled {
				return outs
			}
			f, args := x.prepCall(fr, st, &in.Call)
			var res []Outcome
			for _, s := range x.fork(st, f, args, in) {
				res = append(res, x.runFrom(fr.clone(), s, b, i+1)...)
			}
			return res
		case *ssa.Call:
			f, args := x.prepCall(fr, st, &in.Call)
			outs := x.call(fr, st, f, args, in)
			var res []Outcome
			for k, o := range outs {
				switch o.Kind {
				case ORet:
					f2 := fr
					if k < len(outs)-1 {
						f2 = fr.clone()
					}
					f2.regs[in] = packRet(o.Ret)
					res = append(res, x.runFrom(f2, o.St, b, i+1)...)
				case OPanic:
					res = append(res, x.unwind(fr.clone(), o.St, o.Pan)...)
				}
			}
			return res
		default:
			if outs, handled := x.extInstr(fr, st, b, i, in); handled {
				return outs
			}
			x.step(fr, st, in)
		}
	}
	return nil
}

func packRet(r []Val) Val {
	switch len(r) {
	case 0:
		return &TupleV{}
	case 1:
		return r[0]
	}
	return &TupleV{r}
}

// unwind runs the deferred calls of fr with a panic in progress.
func (x *Exec) unwind(fr *Frame, st *State, pv Val) []Outcome {
	fr.loops = nil
	var res []Outcome
	for _, o := range x.runDefers(fr, st, pv) {
		if o.Kind == OPanic {
			res = append(res, o)
			continue
		}
		// recovered
		f := fr.clone()
		f.defers = nil
		if fr.fn.Recover != nil {
			res = append(res, x.runBlock(f, o.St, fr.fn.Recover, nil)...)
		} else {
			var rs []Val
			sig := fr.fn.Signature.Results()
			for i := 0; i < sig.Len(); i++ {
				rs = append(rs, zeroVal(sig.At(i).Type()))
			}
			res = append(res, Outcome{St: o.St, Kind: ORet, Ret: rs})
		}
	}
	return res
}

// runDefers runs deferred calls in LIFO order; pv is the panic in progress or nil.
func (x *Exec) runDefers(fr *Frame, st *State, pv Val) []Outcome {
	type item struct {
		st *State
		pv Val
		n  int
	}
	work := []item{{st, pv, len(fr.defers)}}
	var res []Outcome
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if w.n == 0 {
			if w.pv != nil {
				res = append(res, Outcome{St: w.st, Kind: OPanic, Pan: w.pv})
			} else {
				res = append(res, Outcome{St: w.st, Kind: ORet})
			}
			continue
		}
		d := fr.defers[w.n-1]
		rec := &recBox{}
		outs := x.callDeferred(fr, w.st, d, w.pv, rec)
		for _, o := range outs {
			switch o.Kind {
			case OPanic:
				work = append(work, item{o.St, o.Pan, w.n - 1})
			case ORet:
				pv2 := w.pv
				if o.St.g.isRecovered(rec) {
					pv2 = nil
				}
				work = append(work, item{o.St, pv2, w.n - 1})
			}
		}
	}
	return res
}

type recBox struct{ x int }

func (x *Exec) callDeferred(fr *Frame, st *State, d *deferred, pv Val, rec *recBox) []Outcome {
	if f, ok := d.fn.(*FnV); ok && !x.hasContract(f.Fn) && x.intrinsicFor(f.Fn) == nil {
		return x.runFnGuard(st, f.Fn, f.Binds, d.args, &panicState{val: pv, rec: rec}, d.inst)
	}
	return x.call(fr, st, d.fn, d.args, d.inst)
}

// step executes a straight-line instruction.
func (x *Exec) step(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		o := NewObj("cell", in.Comment, et)
		o.Task = st.task
		st.heap[o] = zeroVal(et)
		fr.regs[in] = &PtrV{Obj: o}
	case *ssa.Store:
		x.store(st, x.get(fr, in.Addr), x.get(fr, in.Val), in.Pos())
	case *ssa.UnOp:
		fr.regs[in] = x.unop(fr, st, in)
	case *ssa.BinOp:
		fr.regs[in] = x.binop(st, in.Op, x.get(fr, in.X), x.get(fr, in.Y), in.X.Type(), in.Pos())
	case *ssa.MakeClosure:
		f := &FnV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Binds = append(f.Binds, x.get(fr, b))
		}
		fr.regs[in] = f
	case *ssa.MakeInterface:
		v := x.get(fr, in.X)
		fr.regs[in] = x.makeIface(st, in.X.Type(), v)
	case *ssa.ChangeInterface:
		fr.regs[in] = x.get(fr, in.X)
	case *ssa.ChangeType:
		fr.regs[in] = x.get(fr, in.X)
	case *ssa.Convert:
		fr.regs[in] = x.convert(st, x.get(fr, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		t, ok := x.get(fr, in.Tuple).(*TupleV)
		if !ok {
			panic(unsup("extract from %T", x.get(fr, in.Tuple)))
		}
		fr.regs[in] = t.E[in.Index]
	case *ssa.FieldAddr:
		switch p := x.get(fr, in.X).(type) {
		case *PtrV:
			fr.regs[in] = &PtrV{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], Sel{Field: in.Field})}
		case *NilV:
			x.oblige(st, x.unit.tagsFor("safety"), "nil-dereference", TFalse, in.Pos())
			panic(deadPath{})
		default:
			panic(unsup("field address of %T", p))
		}
	case *ssa.Field:
		s, ok := x.get(fr, in.X).(*StructV)
		if !ok {
			panic(unsup("field of %T", x.get(fr, in.X)))
		}
		fr.regs[in] = s.F[in.Field]
	case *ssa.IndexAddr:
		fr.regs[in] = x.indexAddr(st, x.get(fr, in.X), x.term(x.get(fr, in.Index)), in.Pos())
	case *ssa.Slice:
		fr.regs[in] = x.slice(fr, st, in)
	case *ssa.TypeAssert:
		fr.regs[in] = x.typeAssert(st, in, x.get(fr, in.X))
	default:
		panic(unsup("instruction %T (%s)", in, in))
	}
}

func (x *Exec) indexAddr(st *State, base Val, idx *Term, pos token.Pos) Val {
	switch p := base.(type) {
	case *PtrV: // pointer to array
		if a, ok := st.heap[p.Obj].(*ArrayV); ok && len(p.Path) == 0 {
			x.oblige(st, x.unit.tagsFor("safety"), "index-in-range", And(Le(IntT(0), idx), Lt(idx, IntT(int64(len(a.E))))), pos)
		}
		return &PtrV{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], Sel{Idx: idx})}
	case *SliceV:
		x.oblige(st, x.unit.tagsFor("safety"), "index-in-range", And(Le(IntT(0), idx), Lt(idx, p.Len)), pos)
		return &PtrV{p.Obj, []Sel{{Idx: Add(p.Off, idx)}}}
	case *NilV:
		x.oblige(st, x.unit.tagsFor("safety"), "index-in-range", TFalse, pos)
		panic(deadPath{})
	}
	panic(unsup("index of %T", base))
}

func (x *Exec) lenOf(st *State, v Val) *Term {
	switch s := v.(type) {
	case *SliceV:
		return s.Len
	case *NilV:
		return IntT(0)
	}
	if t, ok := x.extLen(st, v); ok {
		return t
	}
	panic(unsup("len of %T", v))
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	base := x.get(fr, in.X)
	lo := IntT(0)
	if in.Low != nil {
		lo = x.term(x.get(fr, in.Low))
	}
	var hi *Term
	if in.High != nil {
		hi = x.term(x.get(fr, in.High))
	}
	tags := x.unit.tagsFor("safety")
	switch s := base.(type) {
	case *PtrV:
		a, ok := st.heap[s.Obj].(*ArrayV)
		if !ok || len(s.Path) > 0 {
			panic(unsup("slice of array inside object"))
		}
		n := IntT(int64(len(a.E)))
		if hi == nil {
			hi = n
		}
		x.oblige(st, tags, "slice-in-range", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, n)), in.Pos())
		return &SliceV{Obj: s.Obj, Off: lo, Len: Sub(hi, lo)}
	case *SliceV:
		if hi == nil {
			hi = s.Len
		}
		x.oblige(st, tags, "slice-in-range", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, s.Len)), in.Pos())
		return &SliceV{Obj: s.Obj, Off: Add(s.Off, lo), Len: Sub(hi, lo)}
	case *NilV:
		if hi == nil {
			hi = IntT(0)
		}
		x.oblige(st, tags, "slice-in-range", And(Eq(lo, IntT(0)), Eq(hi, IntT(0))), in.Pos())
		return s
	}
	panic(unsup("slice of %T", base))
}

func (x *Exec) makeIface(st *State, t types.Type, v Val) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return &IfaceV{Typ: t, V: v}
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Val {
	switch in.Op {
	case token.MUL:
		return x.load(st, x.get(fr, in.X), in.Pos())
	case token.NOT:
		return tv(Not(x.term(x.get(fr, in.X))))
	case token.SUB:
		v := x.term(x.get(fr, in.X))
		if v.Sort == SInt {
			if x.unit.wrapInts {
				return tv(x.wrapSigned(st, Sub(IntT(0), v), in.Type()))
			}
			return tv(Sub(IntT(0), v))
		}
		return tv(UF1("fneg", SF, v))
	}
	panic(unsup("unary %s", in.Op))
}

func UF1(name, sort string, a *Term) *Term {
	DeclareFun(name, []string{a.Sort}, sort)
	return UF(name, sort, a)
}

func UF2(name, sort string, a, b *Term) *Term {
	DeclareFun(name, []string{a.Sort, b.Sort}, sort)
	return UF(name, sort, a, b)
}

func (x *Exec) isNilT(v Val) *Term {
	switch c := v.(type) {
	case *NilV:
		return TTrue
	case *TermV:
		if c.T.Sort == SU {
			return Eq(c.T, UNil)
		}
	case *OpaqueV:
		return Fresh("isnil_"+c.Name, SBool)
	}
	return TFalse
}

func isNilConst(v Val) bool {
	switch c := v.(type) {
	case *NilV:
		return true
	case *TermV:
		return Same(c.T, UNil)
	}
	return false
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	if op == token.EQL || op == token.NEQ {
		r := x.eqVal(st, a, b, t)
		if op == token.NEQ {
			r = Not(r)
		}
		return tv(r)
	}
	p, q := x.term(a), x.term(b)
	switch sortOf(t) {
	case SInt:
		unsigned := false
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			unsigned = true
		}
		if unsigned && x.unit.Theory != nil {
			if op == token.QUO || op == token.REM {
				x.oblige(st, x.unit.tagsFor("safety"), "division-by-zero", Ne(q, IntT(0)), pos)
			}
			if r := x.unsignedOp(st, op, p, q, t); r != nil {
				return tv(r)
			}
		}
		if x.unit.wrapInts && !unsigned {
			switch op {
			case token.ADD:
				return tv(x.wrapSigned(st, Add(p, q), t))
			case token.SUB:
				return tv(x.wrapSigned(st, Sub(p, q), t))
			case token.MUL:
				return tv(x.wrapSigned(st, Mul(p, q), t))
			case token.SHL:
				if q.isInt() && q.N >= 0 && q.N < 62 {
					return tv(x.wrapSigned(st, Mul(p, IntT(int64(1)<<uint(q.N))), t))
				}
			case token.QUO:
				// the quotient is not representable only for the least integer and -1
				if !q.isInt() || q.N == -1 {
					x.oblige(st, x.unit.tagsFor("safety"), "division-by-zero", Ne(q, IntT(0)), pos)
					return tv(x.wrapSigned(st, Div(p, q), t))
				}
			}
		}
		switch op {
		case token.ADD:
			return tv(Add(p, q))
		case token.SUB:
			return tv(Sub(p, q))
		case token.MUL:
			return tv(Mul(p, q))
		case token.QUO:
			x.oblige(st, x.unit.tagsFor("safety"), "division-by-zero", Ne(q, IntT(0)), pos)
			return tv(Div(p, q))
		case token.REM:
			x.oblige(st, x.unit.tagsFor("safety"), "division-by-zero", Ne(q, IntT(0)), pos)
			return tv(Rem(p, q))
		case token.LSS:
			return tv(Lt(p, q))
		case token.LEQ:
			return tv(Le(p, q))
		case token.GTR:
			return tv(Gt(p, q))
		case token.GEQ:
			return tv(Ge(p, q))
		case token.SHR:
			if q.isInt() && q.N >= 0 && q.N < 62 {
				return tv(floorDiv(p, int64(1)<<uint(q.N)))
			}
		case token.SHL:
			if q.isInt() && q.N >= 0 && q.N < 62 {
				return tv(Mul(p, IntT(int64(1)<<uint(q.N))))
			}
		case token.AND:
			if q.isInt() && q.N > 0 && (q.N&(q.N+1)) == 0 {
				return tv(mk("mod", SInt, p, IntT(q.N+1)))
			}
		}
	case SF:
		switch op {
		case token.ADD:
			DeclareFun("fadd", []string{SF, SF}, SF)
			return tv(Comm("fadd", SF, p, q))
		case token.MUL:
			DeclareFun("fmul", []string{SF, SF}, SF)
			return tv(Comm("fmul", SF, p, q))
		case token.SUB:
			return tv(UF2("fsub", SF, p, q))
		case token.QUO:
			return tv(UF2("fdiv", SF, p, q))
		case token.LSS:
			return tv(UF2("flt", SBool, p, q))
		case token.GTR:
			return tv(UF2("flt", SBool, q, p))
		case token.LEQ:
			return tv(UF2("fle", SBool, p, q))
		case token.GEQ:
			return tv(UF2("fle", SBool, q, p))
		}
	case SStr:
		switch op {
		case token.ADD:
			return tv(UF2("sconcat", SStr, p, q))
		case token.LSS:
			return tv(UF2("slt", SBool, p, q))
		case token.GTR:
			return tv(UF2("slt", SBool, q, p))
		case token.LEQ:
			return tv(Not(UF2("slt", SBool, q, p)))
		case token.GEQ:
			return tv(Not(UF2("slt", SBool, p, q)))
		}
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return tv(And(p, q))
		case token.OR, token.LOR:
			return tv(Or(p, q))
		}
	}
	panic(unsup("operator %s on %s", op, t))
}

func floorDiv(p *Term, d int64) *Term {
	if p.isInt() {
		q := p.N / d
		if p.N%d != 0 && p.N < 0 {
			q--
		}
		return IntT(q)
	}
	return mk("div", SInt, p, IntT(d))
}

func (x *Exec) eqVal(st *State, a, b Val, t types.Type) *Term {
	if isNilConst(b) {
		return x.isNilT(a)
	}
	if isNilConst(a) {
		return x.isNilT(b)
	}
	ta, ok1 := a.(*TermV)
	tb, ok2 := b.(*TermV)
	if ok1 && ok2 {
		if ta.T.Sort == SF {
			DeclareFun("feq", []string{SF, SF}, SBool)
			return Comm("feq", SBool, ta.T, tb.T)
		}
		return Eq(ta.T, tb.T)
	}
	if sameVal(a, b) {
		return TTrue
	}
	pa, ok1 := a.(*PtrV)
	pb, ok2 := b.(*PtrV)
	if ok1 && ok2 {
		if pa.Obj != pb.Obj {
			return TFalse
		}
		if len(pa.Path) == 1 && len(pb.Path) == 1 && pa.Path[0].Idx != nil && pb.Path[0].Idx != nil {
			return Eq(pa.Path[0].Idx, pb.Path[0].Idx)
		}
	}
	panic(unsup("comparison of %T and %T", a, b))
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	sf, sto := sortOf(from), sortOf(to)
	if sf == SInt && sto == SInt {
		return x.extConvInt(st, v, from, to)
	}
	if sf == sto && sf != "" {
		return v
	}
	panic(unsup("conversion %s to %s", from, to))
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, v Val) Val {
	if r, ok := x.extTypeAssert(st, in, v); ok {
		return r
	}
	mkRes := func(ok *Term, val Val) Val {
		if in.CommaOk {
			return &TupleV{[]Val{val, tv(ok)}}
		}
		x.oblige(st, x.unit.tagsFor("safety"), "type-assertion", ok, in.Pos())
		return val
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	switch c := v.(type) {
	case *IfaceV:
		if toIface {
			ok := types.Implements(c.Typ, in.AssertedType.Underlying().(*types.Interface))
			if ok {
				return mkRes(TTrue, c)
			}
			return mkRes(TFalse, tv(UNil))
		}
		if types.Identical(c.Typ, in.AssertedType) {
			return mkRes(TTrue, c.V)
		}
		return mkRes(TFalse, zeroVal(in.AssertedType))
	case *TermV:
		// dynamic type unknown: an uninterpreted predicate per asserted type
		p := UF1("is."+sanitize(in.AssertedType.String()), SBool, c.T)
		st.assume(Implies(p, Ne(c.T, UNil)))
		if toIface {
			return mkRes(p, tv(Ite(p, c.T, UNil)))
		}
		if s := sortOf(in.AssertedType); s != "" {
			v := UF1("as."+sanitize(in.AssertedType.String()), s, c.T)
			if s == SStr && types.Identical(in.AssertedType, types.Typ[types.String]) {
				st.assume(Implies(p, Eq(v, UF1("textof", SStr, c.T))))
			}
			return mkRes(p, tv(v))
		}
		return mkRes(p, freshVal("assert", in.AssertedType))
	case *NilV:
		return mkRes(TFalse, zeroVal(in.AssertedType))
	}
	panic(unsup("type assertion on %T", v))
}

// prepCall evaluates the callee and the arguments.
func (x *Exec) prepCall(fr *Frame, st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.get(fr, a))
	}
	if c.IsInvoke() {
		recv := x.get(fr, c.Value)
		if iv, ok := recv.(*IfaceV); ok {
			if _, ok := iv.V.(*errV); ok {
				return &BoundV{Name: "invoke." + c.Method.Name(), Recv: recv, Sig: c.Method.Type().(*types.Signature)}, args
			}
			if m := x.prog.Prog.LookupMethod(iv.Typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				return &FnV{Fn: m}, append([]Val{iv.V}, args...)
			}
		}
		return &BoundV{Name: "invoke." + c.Method.Name(), Recv: recv, Sig: c.Method.Type().(*types.Signature)}, args
	}
	return x.get(fr, c.Value), args
}
