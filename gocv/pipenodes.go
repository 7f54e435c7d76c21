package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Theory of the nodes of a pipeline.
//
// A node is verified method by method against the protocol of RunWithContext: constructor,
// TryMerge, Begin (which starts the goroutines of the node), Feed (called concurrently, once
// per batch), the goroutines, TryMerge again, End. The goroutines of a node are functions with
// contracts of their own: they are verified where the go statement is, for any number of
// batches.
//
// The batches are counted 0, 1, 2, ... and one arbitrary batch S is followed through the node:
// rs (S was received by this goroutine), fs (S was fed to the receivers), ds (its data). What is
// proved of S holds of all batches.
//
// Channels: a batch that is received was sent by Feed. Nodes whose Feed sends the batches in
// order use a variable (run) guarded by a mutex: batch k is sent with the mutex held and with
// run = k, and the goroutine that receives batch k (it then has the token) advances run. So the
// batches sent and not counted in run are at most one, the token.

// ---------------------------------------------------------------- ghost state

type ghosts struct {
	g  map[string]*Obj
	gl []string
}

func (t *ghosts) ghost(st *State, name string, v *Term) {
	if t.g == nil {
		t.g = map[string]*Obj{}
	}
	o := t.g[name]
	if o == nil {
		o = NewObj("ghost", name, nil)
		t.g[name] = o
		t.gl = append(t.gl, name)
	}
	st.heap[o] = tv(v)
}

func (t *ghosts) has(st *State, name string) bool {
	o := t.g[name]
	return o != nil && st.heap[o] != nil
}

func (t *ghosts) get(st *State, name string) *Term {
	o := t.g[name]
	if o == nil || st.heap[o] == nil {
		panic(unsup("an operation that does not belong here (%s)", name))
	}
	return st.heap[o].(*TermV).T
}

func (t *ghosts) set(st *State, name string, v *Term) {
	t.get(st, name)
	st.heap[t.g[name]] = tv(v)
	st.log.writes[t.g[name]] = true
}

func (t *ghosts) isGhostVar(name string) bool { return t.g[name] != nil }

// ---------------------------------------------------------------- lists of functions

// A list of filters, receivers or finalizers is a term; nil is the empty list.

func llen(l *Term) *Term {
	if Same(l, UNil) {
		return IntT(0)
	}
	return UF1("llen", SInt, l)
}

func lelem(l, i *Term) *Term {
	DeclareFun("lelem", []string{SU, SInt}, SU)
	return UF("lelem", SU, l, i)
}

func lone(e *Term) *Term { return UF1("lone", SU, e) }

func lcat(st *State, a, b *Term) *Term {
	if Same(a, UNil) {
		return b
	}
	if Same(b, UNil) {
		return a
	}
	r := UF2("lcat", SU, a, b)
	st.assume(Eq(llen(r), Add(llen(a), llen(b))))
	st.assume(Implies(Eq(a, UNil), Eq(r, b)))
	return r
}

func freshList(st *State, name string) *Term {
	l := Fresh(name, SU)
	st.assume(And(Ge(llen(l), IntT(0)), Implies(Eq(l, UNil), Eq(llen(l), IntT(0)))))
	return l
}

// isPipeFn: the function types of package pipeline and slices of them, whose values are terms.
func isPipeFn(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/pipeline") {
		return false
	}
	switch n.Obj().Name() {
	case "Filter", "Receiver", "Finalizer":
		_, ok := n.Underlying().(*types.Signature)
		return ok
	}
	return false
}

// ---------------------------------------------------------------- nodes

type nodeField struct {
	path string
	typ  types.Type
	obj  *Obj
}

type nodeInst struct {
	obj *Obj
	typ types.Type // the struct type
	f   []*nodeField
}

type nodeCfg struct {
	name   string // of the configuration
	ctor   string
	level  string // what the constructor promises: "par", "seq", "ord"
	marked bool   // the node precedes a strictly ordered node
}

var nodeCfgs = []*nodeCfg{
	{name: "Par", ctor: "Par", level: "par"},
	{name: "Seq", ctor: "Seq", level: "seq"},
	{name: "Ord", ctor: "Ord", level: "ord"},
	{name: "StrictOrd", ctor: "StrictOrd", level: "ord"},
	{name: "LimitedPar", ctor: "LimitedPar", level: "par"},
	{name: "NewNode(Ordered)", ctor: "NewNode:Ordered", level: "ord"},
	{name: "NewNode(Sequential)", ctor: "NewNode:Sequential", level: "seq"},
	{name: "NewNode(Parallel)", ctor: "NewNode:Parallel", level: "par"},
	{name: "Seq before StrictOrd", ctor: "Seq", level: "ord", marked: true},
	{name: "LimitedPar before StrictOrd", ctor: "LimitedPar", level: "par", marked: true},
}

type nodeExt struct {
	kind int64 // the kind given to ComposeFilters, -1 before
}

func (e *nodeExt) clone() Ext {
	n := *e
	return &n
}
func (e *nodeExt) onFork() {}

func nx(st *State) *nodeExt { return st.ext.(*nodeExt) }

type nodeTheory struct {
	NoTheory
	ghosts
	x     *Exec
	mode  string
	cfg   *nodeCfg
	inst  *nodeInst
	pipe  *Obj
	lists map[string]*Obj
	owned map[string]bool
	clip  map[string]bool // lists without spare capacity
	S     *Term           // the batch that is followed
	lim   *Term           // the number of batches that may be processed at the same time, or nil

	index, seqNo, data *Term
	R                  *Term // the receivers of the node once it is complete
	service            bool
	inOrder            bool // Feed sends the batches in order
	single             bool // one goroutine at most
	kind               int64

	written, read map[string]map[string]bool // fields and where they are accessed, while probing
	where         string
	shared        map[string]bool
	runF          string
	layout        []string // of the values sent: what the components are
	lockV         Val
	size          *Obj
	ctors         map[string]bool // probing of the constructors: are lists clipped
	served        map[token.Pos]bool
	mapEq         map[string]map[int]string // what the fields of the values of a map always are
}

func newNodeTheory(mode string, cfg *nodeCfg) *nodeTheory {
	return &nodeTheory{mode: mode, cfg: cfg}
}

func (t *nodeTheory) tags(kind string) []string { return t.x.unit.tagsFor(kind) }

func (t *nodeTheory) newState(x *Exec) *State {
	t.x = x
	t.lists, t.owned, t.clip = map[string]*Obj{}, map[string]bool{}, map[string]bool{}
	t.written, t.read = map[string]map[string]bool{}, map[string]map[string]bool{}
	t.served = map[token.Pos]bool{}
	st := &State{heap: map[*Obj]Val{}, log: newLog(), ext: &nodeExt{kind: -1}}
	st.assume(Ge(gmp, IntT(1)))
	st.g = Ghost{S: IntT(0), D: IntT(0), N: IntT(0), Pos: IntT(0)}
	pt := x.prog.Pkgs["pipeline"].Type("Pipeline")
	if pt == nil {
		panic(unsup("type pipeline.Pipeline does not exist"))
	}
	t.pipe = NewObj("pipe", "p", pt.Type())
	t.owned[UNil.S] = true
	return st
}

func (t *nodeTheory) self() Val { return &PtrV{Obj: t.inst.obj} }

func (t *nodeTheory) isPipe(v Val) bool {
	p, ok := v.(*PtrV)
	return ok && p.Obj == t.pipe && len(p.Path) == 0
}

// flatten lists the leaves of a struct: the structs of the package are taken apart.
func flatten(path string, t types.Type, v Val, f func(path string, t types.Type, v Val)) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		if sv, ok := v.(*StructV); ok {
			for i := 0; i < s.NumFields(); i++ {
				flatten(fmt.Sprintf("%s.%d", path, i), s.Field(i).Type(), sv.F[i], f)
			}
			return
		}
	}
	f(path, t, v)
}

// adopt turns the struct that ptr points to into a node.
func (t *nodeTheory) adopt(st *State, typ types.Type, v Val, name string) *nodeInst {
	n := &nodeInst{typ: typ}
	n.obj = NewObj("node", name, typ)
	n.obj.Extra = n
	flatten("", typ, v, func(path string, ft types.Type, v Val) {
		o := NewObj("cell", name+path, ft)
		n.f = append(n.f, &nodeField{path, ft, o})
		st.heap[o] = v
	})
	return n
}

func (n *nodeInst) field(what string) *nodeField {
	var r *nodeField
	for _, f := range n.f {
		ok := false
		switch what {
		case "filters", "receivers", "finalizers":
			s, is := f.typ.Underlying().(*types.Slice)
			if is && isPipeFn(f.typ) {
				ok = s.Elem().(*types.Named).Obj().Name() == map[string]string{"filters": "Filter", "receivers": "Receiver", "finalizers": "Finalizer"}[what]
			}
		case "channel":
			_, ok = f.typ.Underlying().(*types.Chan)
		case "kind":
			nt, is := f.typ.(*types.Named)
			ok = is && nt.Obj().Name() == "NodeKind"
		case "cond":
			p, is := f.typ.Underlying().(*types.Pointer)
			ok = is && isNamed(p.Elem(), "sync", "Cond")
		case "ordered":
			ok = types.Identical(f.typ, types.Typ[types.Bool])
		}
		if ok {
			if r != nil {
				panic(unsup("two fields for the %s of a node", what))
			}
			r = f
		}
	}
	return r
}

func (n *nodeInst) must(what string) *nodeField {
	f := n.field(what)
	if f == nil {
		panic(unsup("a node without %s", what))
	}
	return f
}

func pathStr(p []Sel) string {
	s := ""
	for _, e := range p {
		if e.Idx != nil {
			return s + "[]"
		}
		s += fmt.Sprintf(".%d", e.Field)
	}
	return s
}

func (t *nodeTheory) access(m map[string]map[string]bool, n *nodeInst, path string) {
	if n != t.inst {
		return
	}
	if m[path] == nil {
		m[path] = map[string]bool{}
	}
	m[path][t.where] = true
}

func (t *nodeTheory) nodeAt(p *PtrV) (*nodeInst, *nodeField) {
	if p.Obj.Kind != "node" {
		return nil, nil
	}
	n := p.Obj.Extra.(*nodeInst)
	s := pathStr(p.Path)
	for _, f := range n.f {
		if f.path == s {
			return n, f
		}
	}
	panic(unsup("access to part %s of a node", s))
}

func (t *nodeTheory) Load(x *Exec, st *State, p *PtrV, pos token.Pos) (Val, bool) {
	switch p.Obj.Kind {
	case "node":
		n, f := t.nodeAt(p)
		t.access(t.read, n, f.path)
		if n == t.inst && t.shared[f.path] && !x.proves(st, t.get(st, "held")) {
			return freshVal("unlocked", f.typ), true
		}
		return st.heap[f.obj], true
	case "pipe":
		if len(p.Path) == 1 && p.Path[0].Idx == nil {
			ft := p.Obj.Typ.Underlying().(*types.Struct).Field(p.Path[0].Field).Type()
			if isNamed(ft, "context", "Context") {
				return &OpaqueV{Name: "ctx"}, true
			}
		}
		panic(unsup("a node reads a field of the pipeline"))
	case "cond":
		if len(p.Path) == 1 && p.Path[0].Idx == nil && p.Obj.Typ.Underlying().(*types.Struct).Field(p.Path[0].Field).Name() == "L" {
			return p.Obj.Extra.(Val), true
		}
		panic(unsup("access to a sync.Cond"))
	case "list":
		if len(p.Path) != 1 || p.Path[0].Idx == nil {
			panic(unsup("access to a list of functions"))
		}
		l := p.Obj.Extra.(*Term)
		// filters are not nil (a precondition), nor are the receivers and finalizers that
		// ComposeFilters returns
		e := lelem(l, p.Path[0].Idx)
		st.assume(Ne(e, UNil))
		return tv(e), true
	}
	return nil, false
}

func (t *nodeTheory) Store(x *Exec, st *State, p *PtrV, v Val, pos token.Pos) bool {
	switch p.Obj.Kind {
	case "node":
		n, f := t.nodeAt(p)
		t.access(t.written, n, f.path)
		if isPipeFn(f.typ) || sortOf(f.typ) != "" {
			v = tv(x.term(v))
		}
		if n == t.inst && t.shared[f.path] {
			t.writeRun(x, st, f, x.term(v), pos)
		} else if n == t.inst && t.service && !t.single {
			x.fail(st, t.tags("batch"), "no-shared-writes", "several goroutines write a variable of the node without its lock", pos)
		}
		st.heap[f.obj] = v
		st.log.writes[f.obj] = true
		return true
	case "pipe", "cond", "list":
		panic(unsup("a node writes the pipeline"))
	}
	return false
}

func (t *nodeTheory) Len(x *Exec, st *State, v Val) (*Term, bool) {
	switch c := v.(type) {
	case *TermV:
		if c.T.Sort == SU {
			l := llen(c.T)
			st.assume(And(Ge(l, IntT(0)), Implies(Eq(c.T, UNil), Eq(l, IntT(0)))))
			return l, true
		}
	case *PtrV:
		if c.Obj.Kind == "map" {
			l := Fresh("maplen", SInt)
			st.assume(Ge(l, IntT(0)))
			return l, true
		}
	}
	return nil, false
}

func (t *nodeTheory) list(l *Term) *Obj {
	o := t.lists[l.S]
	if o == nil {
		o = NewObj("list", "list", nil)
		o.Extra = l
		t.lists[l.S] = o
	}
	return o
}

// ---------------------------------------------------------------- locks and conditions

func (t *nodeTheory) isLock(v Val) bool {
	p, ok := v.(*PtrV)
	if !ok || t.lockV == nil {
		return false
	}
	iv, ok := t.lockV.(*IfaceV)
	return ok && sameVal(iv.V, p)
}

func (t *nodeTheory) lock(x *Exec, st *State, v Val, pos token.Pos) {
	if !t.isLock(v) {
		panic(unsup("a lock that is not the one of the node"))
	}
	x.oblige(st, t.tags("block"), "no-self-deadlock", Not(t.get(st, "held")), pos)
	t.set(st, "held", TTrue)
	t.set(st, "lk", Or(t.get(st, "lk"), t.get(st, "cd")))
	t.acquired(x, st)
}

func (t *nodeTheory) acquired(x *Exec, st *State) {
	t.set(st, "chk", TFalse)
	t.set(st, "bh", TFalse)
	for _, f := range t.inst.f {
		if t.shared[f.path] {
			v := Fresh("run", SInt)
			st.assume(Ge(v, IntT(0)))
			if t.service {
				st.assume(Implies(t.get(st, "token"), Eq(v, t.get(st, "tq"))))
			}
			st.heap[f.obj] = tv(v)
			st.log.writes[f.obj] = true
		}
	}
}

func (t *nodeTheory) unlock(x *Exec, st *State, v Val, pos token.Pos) {
	if !t.isLock(v) {
		panic(unsup("a lock that is not the one of the node"))
	}
	x.oblige(st, t.tags("block"), "unlock-of-held-lock", t.get(st, "held"), pos)
	t.set(st, "held", TFalse)
	t.set(st, "bh", TFalse)
	t.set(st, "chk", TFalse)
}

// writeRun: the variable that says whose turn it is changes.
func (t *nodeTheory) writeRun(x *Exec, st *State, f *nodeField, v *Term, pos token.Pos) {
	if !t.service {
		panic(unsup("Feed changes whose turn it is"))
	}
	x.oblige(st, t.tags("order"), "turn-changed-under-the-lock", t.get(st, "held"), pos)
	x.oblige(st, t.tags("order"), "turn-passed-on-once", And(t.get(st, "token"), Eq(v, Add(t.get(st, "tq"), IntT(1)))), pos)
	t.set(st, "token", TFalse)
	t.set(st, "bp", Not(t.get(st, "bh")))
}

func (t *nodeTheory) broadcast(st *State) {
	t.set(st, "bp", TFalse)
	t.set(st, "bh", t.get(st, "held"))
	t.set(st, "bw", Or(t.get(st, "bw"), And(t.get(st, "cd"), Or(t.get(st, "held"), t.get(st, "lk")))))
}

func (t *nodeTheory) wait(x *Exec, st *State, pos token.Pos) {
	if t.service {
		panic(unsup("a goroutine of a node waits for a turn"))
	}
	tags := t.tags("block")
	x.oblige(st, tags, "waits-with-the-lock", t.get(st, "held"), pos)
	x.oblige(st, tags, "waits-only-after-looking-at-the-context", t.get(st, "chk"), pos)
	x.oblige(st, tags, "does-not-wait-for-its-own-turn", t.notMyTurn(st), pos)
	t.acquired(x, st)
}

func (t *nodeTheory) notMyTurn(st *State) *Term {
	for _, f := range t.inst.f {
		if t.shared[f.path] {
			return Ne(st.heap[f.obj].(*TermV).T, t.seqNo)
		}
	}
	return TFalse
}

func (t *nodeTheory) canceled(st *State) {
	t.set(st, "cd", TTrue)
	t.set(st, "chk", TFalse)
}

// ---------------------------------------------------------------- calls

func (t *nodeTheory) relPipe(fn *ssa.Function) string {
	n := t.x.prog.relName(fn)
	if strings.HasPrefix(n, "pipeline.") {
		return n[len("pipeline."):]
	}
	return ""
}

func (t *nodeTheory) intr(fn *ssa.Function) intrinsic {
	one := func(st *State, v ...Val) []Outcome { return []Outcome{{St: st, Kind: ORet, Ret: v}} }
	switch fn.String() {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			if fn.Name() == "Lock" {
				t.lock(x, st, args[0], in.Pos())
			} else {
				t.unlock(x, st, args[0], in.Pos())
			}
			return one(st)
		}
	case "sync.NewCond":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			ct := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			return one(st, t.newCond(ct, args[0]))
		}
	case "(*sync.Cond).Wait", "(*sync.Cond).Broadcast", "(*sync.Cond).Signal":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			if _, ok := args[0].(*NilV); ok {
				x.oblige(st, t.tags("block"), "nil-dereference", TFalse, in.Pos())
				panic(deadPath{})
			}
			p, ok := args[0].(*PtrV)
			if !ok || p.Obj.Kind != "cond" || t.lockV == nil || !sameVal(p.Obj.Extra.(Val), t.lockV) {
				panic(unsup("a condition that is not the one of the node"))
			}
			switch fn.Name() {
			case "Wait":
				t.wait(x, st, in.Pos())
			case "Broadcast":
				t.broadcast(st)
			}
			return one(st)
		}
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			p, ok := args[0].(*PtrV)
			if !ok || p.Obj.Kind != "node" || p.Obj != t.inst.obj {
				panic(unsup("a wait group that is not the one of the node"))
			}
			switch fn.Name() {
			case "Add":
				n := x.term(args[1])
				if n.isInt() && n.N == -1 {
					t.done(x, st, in.Pos())
				} else {
					t.set(st, "added", Add(t.get(st, "added"), n))
				}
			case "Done":
				t.done(x, st, in.Pos())
			case "Wait":
				if t.has(st, "closed") {
					x.oblige(st, t.tags("block"), "goroutines-told-to-stop-before-waiting", Or(BoolT(t.inst.field("channel") == nil), Ge(t.get(st, "closed"), IntT(1))), in.Pos())
				}
				t.set(st, "waited", TTrue)
			}
			return one(st)
		}
	}
	if fn.Parent() != nil || fn.Pkg == nil {
		return nil
	}
	switch t.relPipe(fn) {
	case "ComposeFilters":
		if t.mode == "begin" {
			return t.composeCall
		}
	case "feed":
		if (t.mode == "begin" || t.mode == "feed") && fn.Signature.Params().Len() == 5 {
			return t.feedCall
		}
	case "Pipeline.FeedForward":
		if t.mode == "feedfn" {
			return t.forwardCall
		}
		panic(unsup("FeedForward outside feed"))
	}
	return nil
}

func (t *nodeTheory) newCond(ct types.Type, l Val) Val {
	o := NewObj("cond", "cond", ct)
	o.Extra = l
	t.lockV = l
	return &PtrV{Obj: o}
}

func (t *nodeTheory) done(x *Exec, st *State, pos token.Pos) {
	t.set(st, "done", Add(t.get(st, "done"), IntT(1)))
}

func (t *nodeTheory) Bound(x *Exec, fr *Frame, st *State, b *BoundV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	one := func(v ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Kind: ORet, Ret: v}}, true }
	switch b.Name {
	case "builtin.append":
		return t.appendCall(x, st, args, in)
	case "builtin.close":
		p, ok := args[0].(*PtrV)
		if !ok || p.Obj.Kind != "chan" {
			panic(unsup("close"))
		}
		x.oblige(st, t.tags("final"), "channel-closed-once", Eq(t.get(st, "closed"), IntT(0)), in.Pos())
		t.set(st, "closed", Add(t.get(st, "closed"), IntT(1)))
		return one()
	case "builtin.delete":
		p, ok := args[0].(*PtrV)
		if !ok || p.Obj.Kind != "map" {
			panic(unsup("delete"))
		}
		m := st.heap[p.Obj].(*StructV)
		k := x.term(args[1])
		st.heap[p.Obj] = &StructV{[]Val{tv(And(m.F[0].(*TermV).T, Ne(k, t.S))), m.F[1]}}
		st.log.writes[p.Obj] = true
		return one()
	case "call of a function value":
		return t.dynCall(x, st, x.term(b.Recv), args, in), true
	}
	if o, ok := b.Recv.(*OpaqueV); ok && o.Name == "ctx" {
		switch b.Name {
		case "invoke.Done":
			return one(&OpaqueV{Name: "done"})
		case "invoke.Err":
			c := Fresh("ctxerr", SU)
			ok := Eq(c, UNil)
			t.set(st, "cd", Or(t.get(st, "cd"), Not(ok)))
			t.set(st, "chk", Or(t.get(st, "chk"), And(ok, t.get(st, "held"))))
			return one(tv(c))
		}
	}
	return nil, false
}

// listOf: the value as a list.
func (t *nodeTheory) listOf(x *Exec, st *State, v Val) *Term {
	switch c := v.(type) {
	case *TermV:
		if c.T.Sort == SU {
			return c.T
		}
	case *NilV:
		return UNil
	case *SliceV:
		arr, ok := st.heap[c.Obj].(*ArrayV)
		if !ok || !c.Off.isInt() || !c.Len.isInt() {
			break
		}
		l := UNil
		for k := int64(0); k < c.Len.N; k++ {
			e := arr.E[c.Off.N+k]
			if f, ok := e.(*OpaqueFn); ok {
				e = tv(Const("fn."+sanitize(f.Name), SU))
			}
			o := lone(x.term(e))
			st.assume(Eq(llen(o), IntT(1)))
			l = lcat(st, l, o)
		}
		return l
	}
	panic(unsup("list %T", v))
}

func (t *nodeTheory) appendCall(x *Exec, st *State, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	a, b := t.listOf(x, st, args[0]), t.listOf(x, st, args[1])
	if !t.owned[a.S] && !t.clip[a.S] && !strings.HasPrefix(a.Op, "l.") {
		x.fail(st, t.tags("lists"), "append-to-memory-of-the-node", "append may overwrite elements of a slice that others use", in.Pos())
	} else {
		x.pass(t.tags("lists"), "append-to-memory-of-the-node", in.Pos())
	}
	r := lcat(st, a, b)
	t.owned[r.S] = true
	return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(r)}}}, true
}

// dynCall: a filter, receiver or finalizer is called.
func (t *nodeTheory) dynCall(x *Exec, st *State, f *Term, args []Val, in ssa.Instruction) []Outcome {
	pos := in.Pos()
	one := func(v ...Val) []Outcome { return []Outcome{{St: st, Kind: ORet, Ret: v}} }
	if f.Op != "lelem" {
		panic(unsup("call of an unknown function"))
	}
	l, i := f.Args[0], f.Args[1]
	switch t.mode {
	case "compose":
		tg := t.tags("lists")
		x.oblige(st, tg, "filters-called-in-order-once", And(Eq(l, t.get(st, "F")), Eq(i, t.get(st, "pos"))), pos)
		x.oblige(st, tg, "filter-gets-its-arguments", And(BoolT(t.isPipe(args[0])), Eq(x.term(args[1]), t.get(st, "kind")), BoolT(sameVal(args[2], &PtrV{Obj: t.size}))), pos)
		t.set(st, "pos", Add(t.get(st, "pos"), IntT(1)))
		r, z := Fresh("receiver", SU), Fresh("finalizer", SU)
		t.set(st, "GR", Ite(Eq(r, UNil), t.get(st, "GR"), lcat1(st, t.get(st, "GR"), r)))
		t.set(st, "GZ", Ite(Eq(z, UNil), t.get(st, "GZ"), lcat1(st, t.get(st, "GZ"), z)))
		return one(tv(r), tv(z))
	case "feedfn":
		tg := t.tags("batch")
		x.oblige(st, tg, "receivers-called-in-order-once", And(Eq(l, t.get(st, "F")), Eq(i, t.get(st, "pos"))), pos)
		x.oblige(st, tg, "sequence-number-passed-on", Eq(x.term(args[0]), t.seqNo), pos)
		x.oblige(st, tg, "receiver-gets-the-previous-result", Eq(x.term(args[1]), t.get(st, "cur")), pos)
		x.oblige(st, tg, "not-yet-forwarded", Eq(t.get(st, "forwarded"), IntT(0)), pos)
		t.set(st, "pos", Add(t.get(st, "pos"), IntT(1)))
		r := Fresh("result", SU)
		t.set(st, "cur", r)
		return one(tv(r))
	case "end":
		tg := t.tags("final")
		x.oblige(st, tg, "finalizers-called-in-order-once", And(Eq(l, t.get(st, "F")), Eq(i, t.get(st, "pos"))), pos)
		x.oblige(st, tg, "finalizers-run-after-all-receivers", t.get(st, "waited"), pos)
		t.set(st, "pos", Add(t.get(st, "pos"), IntT(1)))
		return one()
	}
	panic(unsup("call of a function of a list"))
}

func lcat1(st *State, l, e *Term) *Term {
	o := lone(e)
	st.assume(Eq(llen(o), IntT(1)))
	return lcat(st, l, o)
}

// composeCall: the contract of ComposeFilters, as seen by Begin.
func (t *nodeTheory) composeCall(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
	pos := in.Pos()
	e := nx(st)
	tg := t.tags("lists")
	x.oblige(st, tg, "filters-composed-once", BoolT(e.kind < 0 && !t.service), pos)
	k := x.term(args[1])
	if !k.isInt() {
		panic(unsup("the kind of the node is not known"))
	}
	e.kind = k.N
	ord, _ := x.prog.intConst("pipeline", "Ordered")
	par, _ := x.prog.intConst("pipeline", "Parallel")
	x.oblige(st, t.tags("level"), "filters-know-the-kind-of-the-node", BoolT(t.cfg.level != "ord" || k.N == ord), pos)
	x.oblige(st, t.tags("level"), "filters-know-the-kind-of-the-node", BoolT(t.cfg.level != "seq" || k.N != par), pos)
	x.oblige(st, tg, "all-filters-are-composed", Eq(t.listOf(x, st, args[3]), t.get(st, "F")), pos)
	x.oblige(st, tg, "filters-get-pipeline-and-size", And(BoolT(t.isPipe(args[0])), BoolT(sameVal(args[2], &PtrV{Obj: t.size}))), pos)
	r, z := freshList(st, "receivers"), freshList(st, "finalizers")
	t.ghost(st, "R0", r)
	t.ghost(st, "Z0", z)
	return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(r), tv(z)}}}
}

// feedCall: the contract of feed: all receivers are called with the batch, which is then passed on.
func (t *nodeTheory) feedCall(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
	pos := in.Pos()
	tg := t.tags("batch")
	q, d := x.term(args[3]), x.term(args[4])
	x.oblige(st, tg, "batch-passes-all-receivers", And(BoolT(t.isPipe(args[0])), Eq(t.listOf(x, st, args[1]), t.R)), pos)
	x.oblige(st, tg, "position-of-the-node-unchanged", Eq(x.term(args[2]), t.index), pos)
	x.oblige(st, t.tags("final"), "receivers-run-before-the-goroutine-is-done", Eq(t.get(st, "done"), IntT(0)), pos)
	if t.service {
		s := t.S
		x.oblige(st, tg, "batch-was-received-and-is-fed-once", Implies(Eq(q, s), And(t.get(st, "rs"), Not(t.get(st, "fs")))), pos)
		x.oblige(st, tg, "data-unchanged", Implies(Eq(q, s), Eq(d, t.get(st, "ds"))), pos)
		ord, _ := x.prog.intConst("pipeline", "Ordered")
		if t.kind == ord {
			x.oblige(st, t.tags("order"), "batches-in-order", Eq(q, t.get(st, "next")), pos)
		}
		t.set(st, "fs", Or(t.get(st, "fs"), Eq(q, s)))
		t.set(st, "next", Add(t.get(st, "next"), IntT(1)))
	} else {
		x.oblige(st, tg, "batch-is-fed-once", Eq(t.get(st, "nfed"), IntT(0)), pos)
		if t.lim != nil {
			// Feed is called concurrently
			alone := TFalse
			if t.single && !t.has(st, "task") {
				alone = t.get(st, "held")
			}
			x.oblige(st, t.tags("limit"), "batch-is-processed-by-the-goroutines-of-the-node", alone, pos)
		}
		x.oblige(st, tg, "batch-unchanged", And(Eq(q, t.seqNo), Eq(d, t.data)), pos)
		t.set(st, "nfed", Add(t.get(st, "nfed"), IntT(1)))
	}
	return []Outcome{{St: st, Kind: ORet}}
}

func (t *nodeTheory) forwardCall(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
	pos := in.Pos()
	tg := t.tags("batch")
	x.oblige(st, tg, "passed-on-after-all-receivers", Eq(t.get(st, "pos"), llen(t.get(st, "F"))), pos)
	x.oblige(st, tg, "batch-passed-on", And(BoolT(t.isPipe(args[0])), Eq(x.term(args[1]), t.index), Eq(x.term(args[2]), t.seqNo), Eq(x.term(args[3]), t.get(st, "cur"))), pos)
	t.set(st, "forwarded", Add(t.get(st, "forwarded"), IntT(1)))
	return []Outcome{{St: st, Kind: ORet}}
}

// ---------------------------------------------------------------- instructions

func (t *nodeTheory) Instr(x *Exec, fr *Frame, st *State, b *ssa.BasicBlock, i int, in ssa.Instruction) ([]Outcome, bool) {
	cont := func(v Val) ([]Outcome, bool) {
		fr.regs[in.(ssa.Value)] = v
		return x.runFrom(fr, st, b, i+1), true
	}
	switch in := in.(type) {
	case *ssa.IndexAddr:
		l, ok := x.get(fr, in.X).(*TermV)
		if !ok || l.T.Sort != SU {
			return nil, false
		}
		k := x.term(x.get(fr, in.Index))
		x.oblige(st, t.tags("safety"), "index-in-range", And(Le(IntT(0), k), Lt(k, llen(l.T))), in.Pos())
		return cont(&PtrV{Obj: t.list(l.T), Path: []Sel{{Idx: k}}})
	case *ssa.Slice:
		l, ok := x.get(fr, in.X).(*TermV)
		if !ok || l.T.Sort != SU {
			return nil, false
		}
		n := llen(l.T)
		whole := true
		for _, e := range []ssa.Value{in.High, in.Max} {
			whole = whole && (e == nil || Same(x.term(x.get(fr, e)), n))
		}
		if in.Low != nil {
			whole = whole && Same(x.term(x.get(fr, in.Low)), IntT(0))
		}
		if !whole {
			panic(unsup("part of a list of functions"))
		}
		if in.Max != nil {
			t.clip[l.T.S] = true
		}
		return cont(l)
	case *ssa.MakeSlice:
		if !isPipeFn(in.Type()) {
			return nil, false
		}
		if n := x.term(x.get(fr, in.Len)); !n.isInt() || n.N != 0 {
			panic(unsup("make of a list of functions"))
		}
		return cont(tv(UNil))
	case *ssa.MakeChan:
		return cont(&PtrV{Obj: NewObj("chan", "channel", in.Type())})
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		if sortOf(mt.Key()) != SInt {
			panic(unsup("map"))
		}
		o := NewObj("map", "map", in.Type())
		o.Extra = fmt.Sprint(in.Pos())
		st.heap[o] = &StructV{[]Val{tv(TFalse), termVal(mt.Elem())}}
		return cont(&PtrV{Obj: o})
	case *ssa.Lookup:
		p, ok := x.get(fr, in.X).(*PtrV)
		if !ok || p.Obj.Kind != "map" {
			panic(unsup("map lookup"))
		}
		m := st.heap[p.Obj].(*StructV)
		k := x.term(x.get(fr, in.Index))
		is := Eq(k, t.S)
		found := Ite(is, m.F[0].(*TermV).T, Fresh("found", SBool))
		v, ok1 := mergeVal(x, is, m.F[1], termVal(p.Obj.Typ.Underlying().(*types.Map).Elem()))
		if sv, ok := v.(*StructV); ok && ok1 {
			nv := &StructV{append([]Val(nil), sv.F...)}
			for j, w := range t.mapEq[p.Obj.Extra.(string)] {
				if w == "key" {
					nv.F[j] = tv(k)
				} else if w == "index" {
					nv.F[j] = tv(t.index)
				}
			}
			v = nv
		}
		v, ok2 := mergeVal(x, found, v, zeroVal(p.Obj.Typ.Underlying().(*types.Map).Elem()))
		if !ok1 || !ok2 {
			panic(unsup("map lookup"))
		}
		if in.CommaOk {
			v = &TupleV{[]Val{v, tv(found)}}
		}
		return cont(v)
	case *ssa.MapUpdate:
		p, ok := x.get(fr, in.Map).(*PtrV)
		if !ok || p.Obj.Kind != "map" {
			panic(unsup("map update"))
		}
		m := st.heap[p.Obj].(*StructV)
		is := Eq(x.term(x.get(fr, in.Key)), t.S)
		v := x.get(fr, in.Value)
		if iv, ok := v.(*IfaceV); ok {
			v = tv(x.term(iv))
		}
		if sv, ok := v.(*StructV); ok {
			t.mapUpdate(x, p.Obj.Extra.(string), x.term(x.get(fr, in.Key)), sv)
		}
		nv, ok := mergeVal(x, is, v, m.F[1])
		if !ok {
			panic(unsup("map update"))
		}
		st.heap[p.Obj] = &StructV{[]Val{tv(Or(m.F[0].(*TermV).T, is)), nv}}
		st.log.writes[p.Obj] = true
		return x.runFrom(fr, st, b, i+1), true
	case *ssa.Go:
		f, args := x.prepCall(fr, st, &in.Call)
		t.goStmt(x, st, f, args, in)
		return x.runFrom(fr, st, b, i+1), true
	case *ssa.Send:
		t.blocking(x, st, false, true, false, in.Pos())
		t.send(x, st, x.get(fr, in.Chan), x.get(fr, in.X), in.Pos())
		return x.runFrom(fr, st, b, i+1), true
	case *ssa.UnOp:
		if in.Op != token.ARROW {
			return nil, false
		}
		c := x.get(fr, in.X)
		if o, ok := c.(*OpaqueV); ok && o.Name == "done" {
			panic(unsup("waits for the end of the context only"))
		}
		t.blocking(x, st, false, false, true, in.Pos())
		var res []Outcome
		for _, ok := range []bool{true, false} {
			f2, s2 := fr.clone(), st.clone()
			v := t.receive(x, s2, c, ok, in.Pos())
			if v == nil {
				continue
			}
			if in.CommaOk {
				v = &TupleV{[]Val{v, tv(BoolT(ok))}}
			}
			f2.regs[in] = v
			res = append(res, x.runFrom(f2, s2, b, i+1)...)
		}
		return res, true
	case *ssa.Select:
		return t.selectStmt(x, fr, st, b, i, in), true
	}
	return nil, false
}

// mapUpdate: the fields of the values of a map that are always the key or the position of the
// node are found while learning; every update must agree with that.
func (t *nodeTheory) mapUpdate(x *Exec, site string, k *Term, v *StructV) {
	now := map[int]string{}
	for j, f := range v.F {
		if tt, ok := f.(*TermV); ok && Same(tt.T, k) {
			now[j] = "key"
		} else if ok && t.index != nil && Same(tt.T, t.index) {
			now[j] = "index"
		}
	}
	old := t.mapEq[site]
	if t.where != "" {
		if old != nil {
			for j := range old {
				if now[j] != old[j] {
					delete(old, j)
				}
			}
			return
		}
		t.mapEq[site] = now
		return
	}
	if x.probe > 0 {
		return
	}
	for j := range old {
		if now[j] != old[j] {
			panic(unsup("a value of a map that does not agree with its key"))
		}
	}
}

// termVal: an arbitrary value made of scalars.
func termVal(t types.Type) Val {
	v := freshVal("mapval", t)
	if hasOpaque(v) {
		panic(unsup("map of %s", t))
	}
	return v
}

func hasOpaque(v Val) bool {
	switch c := v.(type) {
	case *OpaqueV:
		return true
	case *StructV:
		for _, f := range c.F {
			if hasOpaque(f) {
				return true
			}
		}
	}
	return false
}

func (t *nodeTheory) selectStmt(x *Exec, fr *Frame, st *State, b *ssa.BasicBlock, i int, s *ssa.Select) []Outcome {
	isDone := func(c Val) bool {
		o, ok := c.(*OpaqueV)
		return ok && o.Name == "done"
	}
	hasDone, hasSend, hasRecv := false, false, false
	for _, c := range s.States {
		ch := x.get(fr, c.Chan)
		_, isNil := ch.(*NilV)
		switch {
		case isDone(ch):
			hasDone = true
		case isNil:
		case c.Dir == types.SendOnly:
			hasSend = true
		default:
			hasRecv = true
		}
	}
	if s.Blocking {
		t.blocking(x, st, hasDone, hasSend, hasRecv, s.Pos())
	}
	var res []Outcome
	result := func(k int, recv *int, val Val, ok bool) *TupleV {
		tu := &TupleV{[]Val{tv(IntT(int64(k))), tv(BoolT(ok))}}
		for j, c := range s.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			if j == k && val != nil {
				tu.E = append(tu.E, val)
			} else {
				tu.E = append(tu.E, zeroVal(c.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		return tu
	}
	for k, c := range s.States {
		ch := x.get(fr, c.Chan)
		if _, isNil := ch.(*NilV); isNil {
			continue
		}
		oks := []bool{true}
		if c.Dir == types.RecvOnly && !isDone(ch) {
			oks = []bool{true, false}
		}
		for _, ok := range oks {
			f2, s2 := fr.clone(), st.clone()
			var val Val
			switch {
			case isDone(ch):
				t.canceled(s2)
				ok = false
			case c.Dir == types.SendOnly:
				t.send(x, s2, ch, x.get(f2, c.Send), s.Pos())
				ok = false
			default:
				if val = t.receive(x, s2, ch, ok, s.Pos()); val == nil {
					continue
				}
			}
			f2.regs[s] = result(k, nil, val, ok)
			res = append(res, x.runFrom(f2, s2, b, i+1)...)
		}
	}
	if !s.Blocking {
		f2, s2 := fr.clone(), st.clone()
		if hasDone {
			// not canceled when this was looked at
			t.set(s2, "chk", Or(t.get(s2, "chk"), t.get(s2, "held")))
		}
		f2.regs[s] = result(-1, nil, nil, false)
		res = append(res, x.runFrom(f2, s2, b, i+1)...)
	}
	return res
}

// blocking: an operation that may block.
func (t *nodeTheory) blocking(x *Exec, st *State, done, send, recv bool, pos token.Pos) {
	tg := t.tags("block")
	if !done {
		x.fail(st, tg, "blocking-operation-observes-cancellation", "the operation blocks even if the pipeline is canceled", pos)
	} else {
		x.pass(tg, "blocking-operation-observes-cancellation", pos)
	}
	switch {
	case t.service:
		if !recv || send {
			x.fail(st, tg, "goroutine-takes-batches", "a goroutine of the node waits for something else than a batch", pos)
		}
		x.oblige(st, tg, "goroutine-stops-when-canceled", Not(t.get(st, "cd")), pos)
		x.oblige(st, tg, "goroutine-stops-at-the-end", Not(t.get(st, "ex")), pos)
		x.oblige(st, tg, "lock-released-before-waiting", Not(t.get(st, "held")), pos)
		x.oblige(st, tg, "turn-passed-on-before-waiting", And(Not(t.get(st, "token")), Not(t.get(st, "bp"))), pos)
		x.oblige(st, t.tags("both"), "no-batch-held-back", t.nothingHeld(st), pos)
	case t.mode == "feed":
		if !send || recv {
			x.fail(st, tg, "feed-passes-the-batch-on", "Feed waits for something else than a goroutine that takes the batch", pos)
		}
	default:
		panic(unsup("blocking operation"))
	}
}

// nothingHeld: a batch that was received has been fed, unless its turn has not come.
func (t *nodeTheory) nothingHeld(st *State) *Term {
	held := And(t.get(st, "rs"), Not(t.get(st, "fs")))
	ord, _ := t.x.prog.intConst("pipeline", "Ordered")
	if t.kind == ord && !t.inOrder {
		return Implies(held, Gt(t.S, t.get(st, "next")))
	}
	return Not(held)
}

func (t *nodeTheory) send(x *Exec, st *State, ch, v Val, pos token.Pos) {
	if t.mode != "feed" || t.service {
		panic(unsup("a goroutine of a node sends"))
	}
	p, ok := ch.(*PtrV)
	if !ok || p.Obj.Kind != "chan" {
		panic(unsup("send on %T", ch))
	}
	sv, ok := v.(*StructV)
	if !ok {
		panic(unsup("a channel of %T", v))
	}
	var layout []string
	for _, c := range sv.F {
		what := "?"
		if iv, ok := c.(*IfaceV); ok {
			c = tv(x.term(iv))
		}
		if tt, ok := c.(*TermV); ok {
			for n, w := range map[string]*Term{"index": t.index, "seqNo": t.seqNo, "data": t.data} {
				if Same(tt.T, w) {
					what = n
				}
			}
		}
		layout = append(layout, what)
	}
	if t.layout == nil {
		t.layout = layout
	}
	tg := t.tags("batch")
	x.oblige(st, tg, "batch-sent-unchanged", BoolT(strings.Join(layout, " ") == strings.Join(t.layout, " ") && count(layout, "index") == 1 && count(layout, "seqNo") == 1 && count(layout, "data") == 1), pos)
	x.oblige(st, tg, "batch-sent-once", Eq(t.get(st, "nfed"), IntT(0)), pos)
	if t.inOrder {
		x.oblige(st, t.tags("order"), "batches-sent-in-order", And(t.get(st, "held"), Not(t.notMyTurn(st)), BoolT(t.runF != "")), pos)
	}
	t.set(st, "nfed", Add(t.get(st, "nfed"), IntT(1)))
}

func count(l []string, s string) int {
	n := 0
	for _, e := range l {
		if e == s {
			n++
		}
	}
	return n
}

// receive: a goroutine of the node gets a batch, or learns that there are no more.
func (t *nodeTheory) receive(x *Exec, st *State, ch Val, ok bool, pos token.Pos) Val {
	p, isP := ch.(*PtrV)
	if !t.service || !isP || p.Obj.Kind != "chan" || !sameVal(p, st.heap[t.inst.must("channel").obj]) {
		panic(unsup("receive from another channel"))
	}
	et := p.Obj.Typ.Underlying().(*types.Chan).Elem()
	if !ok {
		t.set(st, "ex", TTrue)
		return zeroVal(et)
	}
	q, d := Fresh("seqNo", SInt), Fresh("data", SU)
	st.assume(Ge(q, IntT(0)))
	ord, _ := x.prog.intConst("pipeline", "Ordered")
	if t.kind == ord {
		st.assume(Ge(q, t.get(st, "next"))) // all batches below have been received
	}
	if t.inOrder && t.single {
		st.assume(Eq(q, t.get(st, "rcv")))
	}
	is := Eq(q, t.S)
	st.assume(Implies(is, Not(t.get(st, "rs"))))
	t.set(st, "rs", Or(t.get(st, "rs"), is))
	t.set(st, "ds", Ite(is, d, t.get(st, "ds")))
	t.set(st, "rcv", Add(t.get(st, "rcv"), IntT(1)))
	if t.inOrder {
		t.set(st, "token", TTrue)
		t.set(st, "tq", q)
	}
	rf := t.inst.must("receivers")
	st.heap[rf.obj] = tv(t.R)
	st.log.writes[rf.obj] = true
	if len(t.layout) == 0 {
		if x.probe > 0 {
			return freshVal("batch", et)
		}
		panic(unsup("Feed sends nothing"))
	}
	v, isS := freshVal("batch", et).(*StructV)
	if !isS || len(v.F) != len(t.layout) {
		panic(unsup("a channel of %s", et))
	}
	for k, w := range t.layout {
		switch w {
		case "index":
			v.F[k] = tv(t.index)
		case "seqNo":
			v.F[k] = tv(q)
		case "data":
			v.F[k] = tv(d)
		}
	}
	return v
}

// goStmt: Begin starts a goroutine of the node, or Feed starts one for the batch.
func (t *nodeTheory) goStmt(x *Exec, st *State, f Val, args []Val, in *ssa.Go) {
	if t.service || t.has(st, "task") {
		panic(unsup("a goroutine starts a goroutine"))
	}
	fv, ok := f.(*FnV)
	if !ok {
		panic(unsup("go %T", f))
	}
	pos := in.Pos()
	t.set(st, "spawned", Add(t.get(st, "spawned"), IntT(1)))
	x.oblige(st, t.tags("final"), "wait-group-counts-the-goroutine", Ge(t.get(st, "added"), t.get(st, "spawned")), pos)
	switch t.mode {
	case "begin":
		if x.probe > 0 && t.where == "" {
			return
		}
		if x.probe > 0 && t.served[pos] {
			return
		}
		t.served[pos] = true
		t.serve(x, st.clone(), fv, args, pos)
	case "feed":
		if x.probe == 0 || t.where != "" {
			s := st.clone()
			t.ghost(s, "done", IntT(0))
			t.ghost(s, "nfed", IntT(0))
			t.ghost(s, "task", TTrue)
			for _, o := range x.call(nil, s, fv, args, in) {
				if o.Kind != ORet {
					x.fail(o.St, t.tags("batch"), "does-not-panic", "the goroutine panics", pos)
					continue
				}
				x.oblige(o.St, t.tags("final"), "goroutine-reports-its-end-once", Eq(t.get(o.St, "done"), IntT(1)), pos)
				x.oblige(o.St, t.tags("batch"), "batch-is-not-lost", Or(Eq(t.get(o.St, "nfed"), IntT(1)), t.get(o.St, "cd")), pos)
			}
			delete(s.heap, t.g["task"])
		}
		x.oblige(st, t.tags("batch"), "batch-is-fed-once", Eq(t.get(st, "nfed"), IntT(0)), pos)
		t.set(st, "nfed", Add(t.get(st, "nfed"), IntT(1)))
	default:
		panic(unsup("go"))
	}
}

// serve verifies the goroutine of a node.
func (t *nodeTheory) serve(x *Exec, st *State, fv *FnV, args []Val, pos token.Pos) {
	t.service = true
	noTerm := x.unit.noTerm
	x.unit.noTerm = true
	save := t.kind
	t.kind = nx(st).kind
	defer func() { t.service, x.unit.noTerm, t.kind = false, noTerm, save }()
	if t.where != "" {
		t.where = "service"
		defer func() { t.where = "begin" }()
	}
	for _, g := range []string{"rs", "fs", "cd", "held", "token", "bp", "bh", "lk", "bw", "ex", "chk"} {
		t.ghost(st, g, TFalse)
	}
	t.S = Const("batch.S", SInt)
	st.assume(Ge(t.S, IntT(0)))
	t.ghost(st, "ds", Fresh("ds", SU))
	for _, g := range []string{"next", "rcv", "done"} {
		t.ghost(st, g, IntT(0))
	}
	t.ghost(st, "tq", IntT(-1))
	t.index = Fresh("index", SInt)
	t.R = freshList(st, "receivers")
	rf := t.inst.must("receivers")
	// until the first batch arrives, receivers may still be added to the node
	st.heap[rf.obj] = tv(freshList(st, "incomplete"))
	fin := t.tags("final")
	for _, o := range x.runFnGuard(st, fv.Fn, fv.Binds, args, nil, nil) {
		s := o.St
		if o.Kind == OPanic {
			x.fail(s, t.tags("both"), "goroutine-does-not-panic", "the goroutine of the node panics", pos)
			continue
		}
		cd, ex := t.get(s, "cd"), t.get(s, "ex")
		x.oblige(s, t.tags("both"), "goroutine-ends-only-at-the-end", Or(cd, ex), pos)
		x.oblige(s, t.tags("both"), "no-batch-is-lost", Or(cd, t.nothingHeld(s)), pos)
		x.oblige(s, fin, "goroutine-reports-its-end-once", Eq(t.get(s, "done"), IntT(1)), pos)
		x.oblige(s, t.tags("block"), "lock-released", Not(t.get(s, "held")), pos)
		x.oblige(s, t.tags("block"), "turn-passed-on", Or(cd, And(Not(t.get(s, "token")), Not(t.get(s, "bp")))), pos)
		if t.inOrder {
			x.oblige(s, t.tags("block"), "waiting-feeders-woken-when-canceled", Implies(cd, t.get(s, "bw")), pos)
		}
	}
	x.verified = append(x.verified, fv.Fn.String())
}

// Cands: candidate invariants about the ghost variables.
func (t *nodeTheory) Cands(l *loopRun) {
	add := func(name string, f func(v *view) *Term, by ...*lcand) *lcand {
		c := &lcand{name: name, term: f, by: by}
		l.cands = append(l.cands, c)
		return c
	}
	var us, bs, is []*lvar
	for _, v := range l.vars {
		switch v.sort {
		case SU:
			us = append(us, v)
		case SBool:
			bs = append(bs, v)
		case SInt:
			if v.name != "calls" && v.name != "added" && v.name != "spawned" && !(v.name == "pos" && v.ghost) {
				is = append(is, v)
			}
		}
	}
	type lit struct {
		name string
		f    func(v *view) *Term
		c    *lcand
		b    *lvar
	}
	var concl []*lit
	unary := func(name string, f func(v *view) *Term, b *lvar) {
		c := add(name, f)
		concl = append(concl, &lit{name, f, c, b})
	}
	for i, a := range us {
		a := a
		a0 := a.get(l.entry)
		unary(a.name+"=entry", func(v *view) *Term { return Eq(a.get(v), a0) }, nil)
		for _, b := range us[i+1:] {
			b := b
			unary(a.name+"="+b.name, func(v *view) *Term { return Eq(a.get(v), b.get(v)) }, nil)
		}
		if t.has(l.entry.st, "ds") {
			unary(a.name+"=ds", func(v *view) *Term { return Eq(a.get(v), t.get(v.st, "ds")) }, nil)
		}
		if t.R != nil {
			unary(a.name+"=receivers", func(v *view) *Term { return Eq(a.get(v), t.R) }, nil)
		}
	}
	for _, b := range bs {
		b := b
		unary(b.name, func(v *view) *Term { return b.get(v) }, b)
		unary("not "+b.name, func(v *view) *Term { return Not(b.get(v)) }, b)
	}
	if t.service {
		unary("S received", func(v *view) *Term { return t.get(v.st, "rs") }, nil)
		unary("S fed", func(v *view) *Term { return t.get(v.st, "fs") }, nil)
		for _, a := range is {
			a := a
			unary("S<"+a.name, func(v *view) *Term { return Lt(t.S, a.get(v)) }, nil)
			unary("S>="+a.name, func(v *view) *Term { return Ge(t.S, a.get(v)) }, nil)
			unary("S>"+a.name, func(v *view) *Term { return Gt(t.S, a.get(v)) }, nil)
			unary("S<="+a.name, func(v *view) *Term { return Le(t.S, a.get(v)) }, nil)
		}
	}
	for _, b := range bs {
		b := b
		for _, c := range concl {
			c := c
			if c.b == b {
				continue
			}
			add(b.name+" => "+c.name, func(v *view) *Term { return Implies(b.get(v), c.f(v)) }, c.c)
			add("not "+b.name+" => "+c.name, func(v *view) *Term { return Implies(Not(b.get(v)), c.f(v)) }, c.c)
		}
	}
	if t.service {
		for _, c := range concl {
			c := c
			add("held back => "+c.name, func(v *view) *Term {
				return Implies(And(t.get(v.st, "rs"), Not(t.get(v.st, "fs"))), c.f(v))
			}, c.c)
		}
	}
}
