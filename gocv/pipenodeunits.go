package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Verification units for the nodes of a pipeline.

type ctorOut struct {
	st   *State
	inst *nodeInst
	F    *Term
	clip bool
	lim  *Term // at most so many batches are processed at the same time, or nil
}

// construct runs the constructor of a configuration.
func (t *nodeTheory) construct(x *Exec, st *State, cfg *nodeCfg) []*ctorOut {
	name, kind := cfg.ctor, ""
	if i := strings.Index(name, ":"); i >= 0 {
		name, kind = name[:i], name[i+1:]
	}
	fn := x.prog.FuncByName("pipeline." + name)
	if fn == nil {
		panic(unsup("function pipeline.%s does not exist", name))
	}
	F := freshList(st, "filters")
	args := []Val{tv(F)}
	var lim *Term
	if cfg.level != "par" {
		lim = IntT(1)
	}
	switch name {
	case "LimitedPar":
		lim = Fresh("limit", SInt)
		args = []Val{tv(lim), tv(F)}
		lim = Ite(Ge(lim, IntT(1)), lim, gmp)
	case "NewNode":
		k, ok := x.prog.intConst("pipeline", kind)
		if !ok {
			panic(unsup("constant %s does not exist", kind))
		}
		args = []Val{tv(IntT(k)), tv(F)}
	}
	if len(fn.Params) != len(args) {
		panic(unsup("parameters of %s", name))
	}
	var res []*ctorOut
	for _, o := range x.runFn(st, fn, nil, args, nil) {
		if o.Kind == OPanic {
			x.fail(o.St, t.tags("lists"), "does-not-panic", name+" panics", fn.Pos())
			continue
		}
		iv, ok := o.Ret[0].(*IfaceV)
		if !ok {
			panic(unsup("result of %s", name))
		}
		p, ok := iv.V.(*PtrV)
		pt, ok2 := iv.Typ.(*types.Pointer)
		if !ok || !ok2 || len(p.Path) != 0 {
			panic(unsup("result of %s", name))
		}
		c := &ctorOut{st: o.St, F: F, lim: lim}
		if p.Obj.Kind == "node" {
			c.inst = p.Obj.Extra.(*nodeInst)
		} else {
			sv, ok := o.St.heap[p.Obj].(*StructV)
			if !ok {
				panic(unsup("result of %s", name))
			}
			c.inst = t.adopt(o.St, pt.Elem(), sv, sanitize(cfg.name))
		}
		fl := x.term(o.St.heap[c.inst.must("filters").obj])
		c.clip = t.clip[fl.S] || t.owned[fl.S]
		x.oblige(o.St, t.tags("lists"), "node-has-the-given-filters", Eq(fl, F), fn.Pos())
		for _, l := range []string{"receivers", "finalizers"} {
			x.oblige(o.St, t.tags("lists"), "new-node-has-no-"+l, Eq(llen(x.term(o.St.heap[c.inst.must(l).obj])), IntT(0)), fn.Pos())
		}
		res = append(res, c)
	}
	if x.probe == 0 {
		x.verified = append(x.verified, fn.String())
	}
	return res
}

func (t *nodeTheory) setList(st *State, n *nodeInst, what string, l *Term) {
	st.heap[n.must(what).obj] = tv(l)
}

func (t *nodeTheory) getList(st *State, n *nodeInst, what string) *Term {
	return t.x.term(st.heap[n.must(what).obj])
}

// start makes the nodes of a configuration, as Begin finds them.
func (t *nodeTheory) start(x *Exec) []*ctorOut {
	st := t.newState(x)
	x.probe++
	outs := t.construct(x, st, t.cfg)
	x.probe--
	for _, c := range outs {
		if t.cfg.marked {
			t.mark(x, c)
		}
		F := freshList(c.st, "filters")
		t.setList(c.st, c.inst, "filters", F)
		t.ghost(c.st, "F", F)
	}
	return outs
}

// mark does what RunWithContext does to a node before a strictly ordered node.
func (t *nodeTheory) mark(x *Exec, c *ctorOut) {
	if f := c.inst.field("kind"); f != nil {
		ord, _ := x.prog.intConst("pipeline", "Ordered")
		c.st.heap[f.obj] = tv(IntT(ord))
		return
	}
	c.st.heap[c.inst.must("ordered").obj] = tv(TTrue)
	cf := c.inst.must("cond")
	m := NewObj("cell", "mutex", nil)
	var mt types.Type
	for _, p := range x.prog.Prog.AllPackages() {
		if p.Pkg.Path() == "sync" {
			mt = p.Pkg.Scope().Lookup("Mutex").Type()
		}
	}
	c.st.heap[m] = &MutexV{}
	c.st.heap[cf.obj] = t.newCond(cf.typ.Underlying().(*types.Pointer).Elem(), &IfaceV{Typ: types.NewPointer(mt), V: &PtrV{Obj: m}})
}

func (t *nodeTheory) use(c *ctorOut) {
	t.inst, t.lim = c.inst, c.lim
	t.single = c.inst.field("kind") != nil || t.cfg.ctor == "StrictOrd"
	t.inOrder = t.cfg.ctor == "StrictOrd" || t.cfg.marked && c.inst.field("kind") == nil
	t.layout, t.shared, t.runF = nil, nil, ""
	t.findLock(c, c.st)
}

func (t *nodeTheory) findLock(c *ctorOut, st *State) {
	t.lockV = nil
	if f := c.inst.field("cond"); f != nil {
		if p, ok := st.heap[f.obj].(*PtrV); ok && p.Obj.Kind == "cond" {
			t.lockV = p.Obj.Extra.(Val)
		}
	}
}

func (t *nodeTheory) method(x *Exec, n *nodeInst, name string) *ssa.Function {
	fn := x.prog.Prog.LookupMethod(types.NewPointer(n.typ), x.prog.Pkgs["pipeline"].Pkg, name)
	if fn == nil {
		panic(unsup("no method %s", name))
	}
	return fn
}

func (t *nodeTheory) runBegin(x *Exec, c *ctorOut) []Outcome {
	st := c.st.clone()
	t.size = NewObj("cell", "dataSize", types.Typ[types.Int])
	st.heap[t.size] = tv(Fresh("dataSize", SInt))
	t.ghost(st, "R0", UNil)
	t.ghost(st, "Z0", UNil)
	t.ghost(st, "added", IntT(0))
	t.ghost(st, "spawned", IntT(0))
	fn := t.method(x, c.inst, "Begin")
	return x.runFn(st, fn, nil, []Val{t.self(), &PtrV{Obj: t.pipe}, tv(Fresh("index", SInt)), &PtrV{Obj: t.size}}, nil)
}

// learn finds out, without checking anything, what Begin leaves behind, which fields of the
// node the goroutines and Feed share, and how Feed sends a batch.
func (t *nodeTheory) learn(x *Exec, c *ctorOut) []*State {
	x.probe++
	defer func() { x.probe--; t.where = "" }()
	mode := t.mode
	defer func() { t.mode = mode }()
	t.written, t.read = map[string]map[string]bool{}, map[string]map[string]bool{}
	t.mapEq = map[string]map[int]string{}
	t.served = map[token.Pos]bool{}
	t.mode, t.where = "begin", "begin"
	var posts []*State
	for _, o := range t.runBegin(x, c) {
		if o.Kind != ORet {
			continue
		}
		k := x.term(o.Ret[0])
		if !x.feasible(o.St, k) {
			continue
		}
		o.St.assume(k)
		posts = append(posts, o.St)
	}
	t.mode, t.where = "feed", "feed"
	for _, s := range posts {
		t.runFeed(x, c, s)
	}
	if len(t.mapEq) > 0 {
		// once more, now that it is known what Feed sends
		t.mapEq = map[string]map[int]string{}
		t.served = map[token.Pos]bool{}
		t.mode, t.where = "begin", "begin"
		t.runBegin(x, c)
	}
	t.shared = map[string]bool{}
	for p, w := range t.written {
		if !w["service"] && !w["feed"] {
			continue
		}
		if t.read[p]["feed"] || w["feed"] || !t.single {
			t.shared[p] = true
			t.runF = p
		}
	}
	for _, f := range c.inst.f {
		if t.shared[f.path] && sortOf(f.typ) != SInt {
			panic(unsup("a shared variable of type %s", f.typ))
		}
	}
	if len(t.shared) > 1 {
		panic(unsup("several shared variables"))
	}
	t.served = map[token.Pos]bool{}
	return posts
}

// running gives the node as Feed and End find it, from the state Begin leaves behind.
func (t *nodeTheory) running(x *Exec, c *ctorOut, post *State) *State {
	st := post.clone()
	t.findLock(c, st)
	t.R = freshList(st, "receivers")
	t.setList(st, c.inst, "receivers", t.R)
	t.setList(st, c.inst, "finalizers", freshList(st, "finalizers"))
	for _, f := range c.inst.f {
		if t.shared[f.path] {
			v := Fresh("run", SInt)
			st.assume(Ge(v, IntT(0)))
			st.heap[f.obj] = tv(v)
		}
	}
	return st
}

func (t *nodeTheory) runFeed(x *Exec, c *ctorOut, post *State) []Outcome {
	st := t.running(x, c, post)
	t.kind = nx(st).kind
	for _, g := range []string{"held", "chk", "bh", "lk", "cd", "bw", "bp"} {
		t.ghost(st, g, TFalse)
	}
	for _, g := range []string{"nfed", "done", "added", "spawned"} {
		t.ghost(st, g, IntT(0))
	}
	t.index, t.seqNo, t.data = Fresh("index", SInt), Fresh("seqNo", SInt), Fresh("data", SU)
	st.assume(And(Ge(t.index, IntT(0)), Ge(t.seqNo, IntT(0))))
	fn := t.method(x, c.inst, "Feed")
	return x.runFn(st, fn, nil, []Val{t.self(), &PtrV{Obj: t.pipe}, tv(t.index), tv(t.seqNo), tv(t.data)}, nil)
}

func verifyCtor(x *Exec, t *nodeTheory) {
	t.construct(x, t.newState(x), t.cfg)
}

func verifyNodeBegin(x *Exec, t *nodeTheory) {
	par, _ := x.prog.intConst("pipeline", "Parallel")
	for _, c := range t.start(x) {
		t.use(c)
		t.learn(x, c)
		fn := t.method(x, c.inst, "Begin")
		pos := fn.Pos()
		for _, o := range t.runBegin(x, c) {
			st := o.St
			if o.Kind == OPanic {
				x.fail(st, t.tags("both"), "does-not-panic", "Begin panics", pos)
				continue
			}
			keep := x.term(o.Ret[0])
			R0, Z0 := t.get(st, "R0"), t.get(st, "Z0")
			k := nx(st).kind
			x.oblige(st, t.tags("lists"), "filters-composed-once", BoolT(k >= 0), pos)
			x.oblige(st, t.tags("lists"), "node-kept-if-it-does-anything", Or(keep, And(Eq(llen(R0), IntT(0)), Eq(llen(Z0), IntT(0)))), pos)
			sp := t.get(st, "spawned")
			x.oblige(st, t.tags("block"), "unused-node-has-no-goroutines", Or(keep, Eq(sp, IntT(0))), pos)
			x.oblige(st, t.tags("final"), "wait-group-counts-the-goroutines", Eq(sp, t.get(st, "added")), pos)
			if !x.feasible(st, keep) {
				continue
			}
			st.assume(keep)
			x.oblige(st, t.tags("lists"), "receivers-of-all-filters", Eq(t.getList(st, c.inst, "receivers"), R0), pos)
			x.oblige(st, t.tags("lists"), "finalizers-of-all-filters", Eq(t.getList(st, c.inst, "finalizers"), Z0), pos)
			if ch := c.inst.field("channel"); ch != nil {
				p, ok := st.heap[ch.obj].(*PtrV)
				x.oblige(st, t.tags("block"), "channel-made", BoolT(ok && p.Obj.Kind == "chan"), pos)
				x.oblige(st, t.tags("block"), "a-goroutine-takes-the-batches", Ge(sp, IntT(1)), pos)
				if t.single {
					x.oblige(st, t.tags("level"), "one-goroutine-only", Le(sp, IntT(1)), pos)
				}
				if c.lim != nil {
					x.oblige(st, t.tags("limit"), "goroutines-within-the-limit", Le(sp, c.lim), pos)
				}
			} else {
				x.oblige(st, t.tags("final"), "no-goroutine-without-a-channel", Eq(sp, IntT(0)), pos)
			}
			if !t.single {
				x.oblige(st, t.tags("level"), "filters-know-the-kind-of-the-node", BoolT(k == par), pos)
			}
		}
		x.verified = append(x.verified, fn.String())
	}
}

func verifyNodeFeed(x *Exec, t *nodeTheory) {
	for _, c := range t.start(x) {
		t.use(c)
		fn := t.method(x, c.inst, "Feed")
		pos := fn.Pos()
		for _, post := range t.learn(x, c) {
			for _, o := range t.runFeed(x, c, post) {
				st := o.St
				if o.Kind == OPanic {
					x.fail(st, t.tags("both"), "does-not-panic", "Feed panics", pos)
					continue
				}
				n := t.get(st, "nfed")
				x.oblige(st, t.tags("both"), "batch-is-not-lost", Or(Eq(n, IntT(1)), t.get(st, "cd")), pos)
				x.oblige(st, t.tags("batch"), "batch-is-fed-once", Le(n, IntT(1)), pos)
				x.oblige(st, t.tags("block"), "lock-released", Not(t.get(st, "held")), pos)
				x.oblige(st, t.tags("final"), "wait-group-counts-the-goroutines", Eq(t.get(st, "added"), t.get(st, "spawned")), pos)
			}
		}
		x.verified = append(x.verified, fn.String())
	}
}

func verifyNodeEnd(x *Exec, t *nodeTheory) {
	for _, c := range t.start(x) {
		t.use(c)
		fn := t.method(x, c.inst, "End")
		pos := fn.Pos()
		tg := t.tags("final")
		for _, post := range t.learn(x, c) {
			st := t.running(x, c, post)
			Z := t.getList(st, c.inst, "finalizers")
			t.ghost(st, "F", Z)
			t.ghost(st, "pos", IntT(0))
			t.ghost(st, "closed", IntT(0))
			t.ghost(st, "waited", TFalse)
			for _, o := range x.runFn(st, fn, nil, []Val{t.self()}, nil) {
				s := o.St
				if o.Kind == OPanic {
					x.fail(s, tg, "does-not-panic", "End panics", pos)
					continue
				}
				x.oblige(s, tg, "ends-after-all-receivers", t.get(s, "waited"), pos)
				x.oblige(s, tg, "all-finalizers-run-once", Eq(t.get(s, "pos"), llen(Z)), pos)
				if c.inst.field("channel") != nil {
					x.oblige(s, t.tags("block"), "goroutines-told-to-stop", Eq(t.get(s, "closed"), IntT(1)), pos)
				}
			}
		}
		x.verified = append(x.verified, fn.String())
	}
}

func verifyCompose(x *Exec, t *nodeTheory) {
	st := t.newState(x)
	fn := x.prog.FuncByName("pipeline.ComposeFilters")
	if fn == nil || len(fn.Params) != 4 {
		panic(unsup("function pipeline.ComposeFilters"))
	}
	F, k := freshList(st, "filters"), Fresh("kind", SInt)
	t.size = NewObj("cell", "dataSize", types.Typ[types.Int])
	st.heap[t.size] = tv(Fresh("dataSize", SInt))
	t.ghost(st, "F", F)
	t.ghost(st, "kind", k)
	t.ghost(st, "pos", IntT(0))
	t.ghost(st, "GR", UNil)
	t.ghost(st, "GZ", UNil)
	tg := t.tags("lists")
	for _, o := range x.runFn(st, fn, nil, []Val{&PtrV{Obj: t.pipe}, tv(k), &PtrV{Obj: t.size}, tv(F)}, nil) {
		s := o.St
		if o.Kind == OPanic {
			x.fail(s, tg, "does-not-panic", "ComposeFilters panics", fn.Pos())
			continue
		}
		x.oblige(s, tg, "all-filters-called", Eq(t.get(s, "pos"), llen(F)), fn.Pos())
		x.oblige(s, tg, "receivers-in-order", Eq(t.listOf(x, s, o.Ret[0]), t.get(s, "GR")), fn.Pos())
		x.oblige(s, tg, "finalizers-in-order", Eq(t.listOf(x, s, o.Ret[1]), t.get(s, "GZ")), fn.Pos())
	}
	x.verified = append(x.verified, fn.String())
}

func verifyFeedFn(x *Exec, t *nodeTheory) {
	st := t.newState(x)
	fn := x.prog.FuncByName("pipeline.feed")
	if fn == nil || len(fn.Params) != 5 {
		panic(unsup("function pipeline.feed"))
	}
	R := freshList(st, "receivers")
	t.index, t.seqNo, t.data = Fresh("index", SInt), Fresh("seqNo", SInt), Fresh("data", SU)
	t.ghost(st, "F", R)
	t.ghost(st, "pos", IntT(0))
	t.ghost(st, "cur", t.data)
	t.ghost(st, "forwarded", IntT(0))
	tg := t.tags("batch")
	for _, o := range x.runFn(st, fn, nil, []Val{&PtrV{Obj: t.pipe}, tv(R), tv(t.index), tv(t.seqNo), tv(t.data)}, nil) {
		if o.Kind == OPanic {
			x.fail(o.St, tg, "does-not-panic", "feed panics", fn.Pos())
			continue
		}
		x.oblige(o.St, tg, "batch-passed-on-once", Eq(t.get(o.St, "forwarded"), IntT(1)), fn.Pos())
	}
	x.verified = append(x.verified, fn.String())
}

// verifyMerge: TryMerge of a node with every other kind of node.
func verifyMerge(x *Exec, t *nodeTheory) {
	ord, _ := x.prog.intConst("pipeline", "Ordered")
	seq, _ := x.prog.intConst("pipeline", "Sequential")
	rank := map[string]int{"par": 0, "seq": 1, "ord": 2}
	lists := []string{"filters", "receivers", "finalizers"}
	for _, begun := range []bool{false, true} {
		for _, bc := range nodeCfgs {
			if bc.marked {
				continue
			}
			st := t.newState(x)
			x.probe++
			var pairs [][2]*ctorOut
			for _, a := range t.begun(x, t.cfg, t.construct(x, st, t.cfg), begun) {
				for _, b := range t.begun(x, bc, t.construct(x, a.st.clone(), bc), begun) {
					pairs = append(pairs, [2]*ctorOut{a, b})
				}
			}
			x.probe--
			if len(pairs) == 0 {
				panic(unsup("Begin never keeps a node %s", bc.name))
			}
			for _, p := range pairs {
				a, b := p[0], p[1]
				st := b.st
				t.inst = a.inst
				old := map[string]*Term{}
				for n, c := range map[string]*ctorOut{"a": a, "b": b} {
					for _, l := range lists {
						v := UNil
						if (l == "filters") != begun {
							v = freshList(st, l)
						}
						old[n+l] = v
						t.setList(st, c.inst, l, v)
						t.owned[v.S] = v == UNil || begun || c.clip
					}
				}
				kindOf := func(st *State, c *ctorOut) *Term {
					if f := c.inst.field("kind"); f != nil {
						return x.term(st.heap[f.obj])
					}
					return nil
				}
				ka, kb := kindOf(st, a), kindOf(st, b)
				need := rank[bc.level]
				if kb != nil && begun {
					if kb.N == ord {
						need = 2
					} else if kb.N == seq && need < 1 {
						need = 1
					}
				}
				fn := t.method(x, a.inst, "TryMerge")
				pos := fn.Pos()
				tg := t.tags("lists")
				for _, o := range x.runFn(st, fn, nil, []Val{t.self(), &IfaceV{Typ: types.NewPointer(b.inst.typ), V: &PtrV{Obj: b.inst.obj}}}, nil) {
					if o.Kind == OPanic {
						x.fail(o.St, tg, "does-not-panic", "TryMerge panics", pos)
						continue
					}
					m := x.term(o.Ret[0])
					for _, merged := range []bool{true, false} {
						c := m
						if !merged {
							c = Not(m)
						}
						if !x.feasible(o.St, c) {
							continue
						}
						s := o.St.clone()
						s.assume(c)
						for _, l := range lists {
							want := old["a"+l]
							if merged {
								want = lcat(s, want, old["b"+l])
							}
							x.oblige(s, tg, "merged-"+l+" "+fmt.Sprint(merged), Eq(t.getList(s, a.inst, l), want), pos)
							if !merged {
								x.oblige(s, tg, "merged-"+l+" "+fmt.Sprint(merged), Eq(t.getList(s, b.inst, l), old["b"+l]), pos)
							}
						}
						k := kindOf(s, a)
						has := 0
						switch {
						case t.cfg.ctor == "StrictOrd":
							has = 2
						case k != nil && begun:
							has = map[int64]int{ord: 2, seq: 1}[ka.N]
						case k != nil:
							if !k.isInt() {
								panic(unsup("the kind of a merged node"))
							}
							has = map[int64]int{ord: 2, seq: 1}[k.N]
						}
						if merged {
							x.oblige(s, t.tags("level"), "merged-node-keeps-the-order-of-both", BoolT(has >= need), pos)
						}
						x.oblige(s, t.tags("level"), "merged-node-keeps-the-order-of-both", BoolT(has >= rank[t.cfg.level]), pos)
						if merged && b.lim != nil {
							t.mergedLimit(x, s, a, b, begun, pos)
						}
					}
				}
				x.verified = append(x.verified, fn.String())
			}
		}
	}
}

// begun gives the nodes as Begin leaves those behind that are kept.
func (t *nodeTheory) begun(x *Exec, cfg *nodeCfg, cs []*ctorOut, begun bool) (res []*ctorOut) {
	if !begun {
		return cs
	}
	mode, lim, old := t.mode, t.lim, t.cfg
	defer func() { t.mode, t.lim, t.cfg = mode, lim, old }()
	t.mode, t.cfg = "begin", cfg
	for _, c := range cs {
		t.setList(c.st, c.inst, "filters", freshList(c.st, "filters"))
		t.ghost(c.st, "F", t.getList(c.st, c.inst, "filters"))
		t.use(c)
		nx(c.st).kind = -1
		for _, o := range t.runBegin(x, c) {
			if o.Kind != ORet {
				continue
			}
			if k := x.term(o.Ret[0]); x.feasible(o.St, k) {
				n := *c
				n.st = o.St
				n.st.assume(k)
				res = append(res, &n)
			}
		}
	}
	return
}

// mergedLimit: node a, which now has the receivers of node b too, keeps the limits of both.
func (t *nodeTheory) mergedLimit(x *Exec, st *State, a, b *ctorOut, begun bool, pos token.Pos) {
	const name = "merged-node-keeps-the-limits-of-both"
	tg := t.tags("limit")
	if a.lim == nil {
		x.fail(st, tg, name, "a node with a limit is merged into a node without one", pos)
		return
	}
	if begun {
		// a runs with the goroutines it has
		x.oblige(st, tg, name, Le(a.lim, b.lim), pos)
		return
	}
	c := *a
	c.st = st
	for _, l := range []string{"receivers", "finalizers"} {
		t.setList(c.st, c.inst, l, UNil)
	}
	t.ghost(c.st, "F", t.getList(c.st, c.inst, "filters"))
	mode, lim := t.mode, t.lim
	defer func() { t.mode, t.lim = mode, lim }()
	t.mode = "begin"
	t.use(&c)
	x.probe++
	outs := t.runBegin(x, &c)
	x.probe--
	for _, o := range outs {
		if o.Kind != ORet {
			continue
		}
		sp := t.get(o.St, "spawned")
		x.oblige(o.St, tg, name, And(Le(sp, a.lim), Le(sp, b.lim)), pos)
	}
}

func pipeNodeUnits(p *Program) []*UnitDef {
	var ds []*UnitDef
	tags := map[string][]string{
		"default": {"C21", "C22", "C23", "C24"}, "batch": {"C22"}, "order": {"C21", "C24"}, "lists": {"C22", "C23"},
		"level": {"C21", "C22"}, "limit": {"C30"}, "final": {"C23"}, "block": {"C24"}, "both": {"C22", "C24"}, "safety": {"C22", "C24"},
	}
	add := func(name, mode string, cfg *nodeCfg, tags map[string][]string, run func(x *Exec, t *nodeTheory)) {
		t := newNodeTheory(mode, cfg)
		u := &Unit{Name: "pipeline." + name, Tags: tags, Theory: t, intr: t.intr, noTerm: mode == "feed", lean: true}
		ds = append(ds, &UnitDef{Name: u.Name, Tags: u.allTags(nil), Unit: u, Run: func(x *Exec) { run(x, t) }})
	}
	only := func(ids ...string) map[string][]string { return map[string][]string{"default": ids} }
	add("ComposeFilters", "compose", nil, only("C22", "C23"), verifyCompose)
	add("feed", "feedfn", nil, only("C22"), verifyFeedFn)
	for _, c := range nodeCfgs {
		if !c.marked {
			add(c.name, "ctor", c, only("C22", "C23"), verifyCtor)
			m := only("C21", "C22", "C23")
			m["lists"] = []string{"C22", "C23"}
			m["level"] = []string{"C21"}
			m["limit"] = []string{"C30"}
			add(c.name+".TryMerge", "merge", c, m, verifyMerge)
		}
		add(c.name+".Begin", "begin", c, tags, verifyNodeBegin)
		add(c.name+".Feed", "feed", c, tags, verifyNodeFeed)
		e := only("C23", "C24")
		e["final"] = []string{"C23"}
		e["block"] = []string{"C24"}
		add(c.name+".End", "end", c, e, verifyNodeEnd)
	}
	return ds
}
