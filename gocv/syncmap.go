package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Theory of sync.Map: an array of splits, each a map protected by a lock.

// SMapV is the contents of split I.
type SMapV struct {
	Obj *Obj
	I   *Term
}

// newMapV is a freshly made, empty map.
type newMapV struct{ o *Obj }

// MIterV is an iterator over the entries of a split; its position is the value of Pos.
type MIterV struct {
	Pos *Obj
	sec int
	m   *SMapV
}

// msec is one critical section: the time between the acquisition and the release of a lock.
type msec struct {
	id             int64
	idx            *Term
	write          bool
	present0, val0 *Term // contents at the key of the operation when the lock was acquired
	present, val   *Term // now
	n              *Term // number of entries
	iterated       bool
	stop           *Obj // ghost: the callback has returned false
	iter           *Obj
	closed         bool
	task           int64
}

type mheld struct {
	idx   *Term
	write bool
	sec   int
}

type mcall struct {
	args []Val
	ret  []Val
	pan  bool
	sec  int // innermost section held, -1 if none
}

type syncExt struct {
	held  []mheld
	outer []mheld
	secs  []msec
	calls []mcall
	news  int

	newLen *Term
}

func (e *syncExt) clone() Ext {
	return &syncExt{append([]mheld(nil), e.held...), append([]mheld(nil), e.outer...), append([]msec(nil), e.secs...), append([]mcall(nil), e.calls...), e.news, e.newLen}
}

func (e *syncExt) onFork() {
	e.outer = append(e.outer, e.held...)
	e.held = nil
}

type syncTheory struct {
	NoTheory
	c        *Contract
	kind     string // "op", "iter", "split", "new"
	splits   *Obj
	L        *Term
	lockF    int // field of the lock in Split
	mapF     int
	key      *Term
	canon    *Term // the split that belongs to key
	entry    *Term // Skolem entry
	stopAll  *Obj
	initCell *Obj
	splitT   types.Type
}

func sx(st *State) *syncExt { return st.ext.(*syncExt) }

func isLock(t types.Type) bool { return isNamed(t, "sync", "RWMutex") || isNamed(t, "sync", "Mutex") }

// splitFields finds the lock and the map of the Split struct.
func (t *syncTheory) splitFields(p *Program) {
	ty := p.Pkgs["sync"].Type("Split")
	if ty == nil {
		panic(unsup("type sync.Split does not exist"))
	}
	t.splitT = ty.Type()
	s, ok := ty.Type().Underlying().(*types.Struct)
	if !ok {
		panic(unsup("sync.Split is not a struct"))
	}
	t.lockF, t.mapF = -1, -1
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if isLock(ft) {
			t.lockF = i
		}
		if _, ok := ft.Underlying().(*types.Map); ok {
			t.mapF = i
		}
	}
	if t.lockF < 0 || t.mapF < 0 {
		panic(unsup("sync.Split has no lock or no map"))
	}
}

func (t *syncTheory) isSplits(o *Obj) bool { return o.Kind == "splits" }

func (t *syncTheory) Load(x *Exec, st *State, p *PtrV, pos token.Pos) (Val, bool) {
	if !t.isSplits(p.Obj) {
		return nil, false
	}
	if len(p.Path) == 2 && p.Path[1].Idx == nil && p.Path[1].Field == t.mapF {
		return &SMapV{p.Obj, p.Path[0].Idx}, true
	}
	panic(unsup("read of a part of a split"))
}

func (t *syncTheory) Store(x *Exec, st *State, p *PtrV, v Val, pos token.Pos) bool {
	if !t.isSplits(p.Obj) {
		return false
	}
	if len(p.Path) == 2 && p.Path[1].Idx == nil && p.Path[1].Field == t.mapF {
		if t.kind == "new" {
			if _, ok := v.(*newMapV); ok {
				st.log.writes[t.initCell] = true
				st.heap[t.initCell] = tv(Or(x.term(st.heap[t.initCell]), Eq(p.Path[0].Idx, x.unit.X)))
				return true
			}
			panic(unsup("initial value of a split"))
		}
		x.fail(st, x.unit.tagsFor("effect"), "contents-kept", "the contents of a split are replaced", pos)
		panic(deadPath{})
	}
	if sv, ok := v.(*StructV); ok && len(p.Path) == 1 && t.kind == "new" {
		if _, ok := sv.F[t.mapF].(*newMapV); ok {
			st.log.writes[t.initCell] = true
			st.heap[t.initCell] = tv(Or(x.term(st.heap[t.initCell]), Eq(p.Path[0].Idx, x.unit.X)))
			return true
		}
	}
	panic(unsup("write of a part of a split"))
}

func (t *syncTheory) Len(x *Exec, st *State, v Val) (*Term, bool) {
	if m, ok := v.(*SMapV); ok {
		if k := t.access(x, st, m, false, "len", token.NoPos); k >= 0 {
			return sx(st).secs[k].n, true
		}
		n := Fresh("n", SInt)
		st.assume(Ge(n, IntT(0)))
		return n, true
	}
	return nil, false
}

// access checks that the lock of the split of m is held and returns the critical section.
func (t *syncTheory) access(x *Exec, st *State, m *SMapV, write bool, what string, pos token.Pos) int {
	e := sx(st)
	for i := len(e.held) - 1; i >= 0; i-- {
		h := e.held[i]
		if Same(h.idx, m.I) || x.proves(st, Eq(h.idx, m.I)) {
			if write && !h.write {
				x.fail(st, x.unit.tagsFor("lock"), "write-lock-held", what+" of the contents of a split under a read lock", pos)
			} else {
				x.pass(x.unit.tagsFor("lock"), "lock-held-at-access", pos)
			}
			return h.sec
		}
	}
	x.fail(st, x.unit.tagsFor("lock"), "lock-held-at-access", what+" of the contents of a split without holding its lock", pos)
	return -1
}

func (t *syncTheory) isKey(x *Exec, st *State, k Val) bool {
	if t.key == nil {
		return false
	}
	return x.proves(st, Eq(x.term(k), t.key))
}

func (t *syncTheory) lookup(x *Exec, st *State, m *SMapV, k Val, pos token.Pos) (val, ok *Term) {
	s := t.access(x, st, m, false, "read", pos)
	if s >= 0 && t.isKey(x, st, k) {
		sec := sx(st).secs[s]
		return Ite(sec.present, sec.val, UNil), sec.present
	}
	v, p := Fresh("v", SU), Fresh("ok", SBool)
	return Ite(p, v, UNil), p
}

// update is m[k] = v (v != nil) or delete(m, k).
func (t *syncTheory) update(x *Exec, st *State, m *SMapV, k Val, v *Term, pos token.Pos) {
	s := t.access(x, st, m, true, "update", pos)
	if t.kind != "op" {
		x.fail(st, x.unit.tagsFor("effect"), "contents-unchanged", "the contents of a split are changed", pos)
		return
	}
	if !t.isKey(x, st, k) {
		x.fail(st, x.unit.tagsFor("effect"), "other-keys-unchanged", "another key than the given one is changed", pos)
		return
	}
	x.pass(x.unit.tagsFor("effect"), "other-keys-unchanged", pos)
	x.oblige(st, x.unit.tagsFor("effect"), "split-of-the-key", Eq(m.I, t.canon), pos)
	if s < 0 {
		return
	}
	sec := &sx(st).secs[s]
	if v == nil {
		sec.present = TFalse
	} else {
		sec.present, sec.val = TTrue, v
	}
}

func (t *syncTheory) Instr(x *Exec, fr *Frame, st *State, b *ssa.BasicBlock, i int, in ssa.Instruction) ([]Outcome, bool) {
	switch in := in.(type) {
	case *ssa.Lookup:
		m, ok := x.get(fr, in.X).(*SMapV)
		if !ok {
			return nil, false
		}
		v, p := t.lookup(x, st, m, x.get(fr, in.Index), in.Pos())
		if in.CommaOk {
			fr.regs[in] = &TupleV{[]Val{tv(v), tv(p)}}
		} else {
			fr.regs[in] = tv(v)
		}
	case *ssa.MapUpdate:
		m, ok := x.get(fr, in.Map).(*SMapV)
		if !ok {
			return nil, false
		}
		t.update(x, st, m, x.get(fr, in.Key), x.term(x.get(fr, in.Value)), in.Pos())
	case *ssa.Range:
		m, ok := x.get(fr, in.X).(*SMapV)
		if !ok {
			return nil, false
		}
		s := t.access(x, st, m, false, "iteration", in.Pos())
		if s < 0 {
			panic(unsup("iteration without a lock"))
		}
		sec := &sx(st).secs[s]
		if sec.iterated || t.kind != "iter" {
			panic(unsup("iteration over a split"))
		}
		sec.iterated = true
		o := NewObj("ghost", "position", types.Typ[types.Int])
		o.Task = st.task
		o.Extra = sec.idx
		st.heap[o] = tv(IntT(0))
		sec.iter = o
		fr.regs[in] = &MIterV{Pos: o, sec: s, m: m}
	case *ssa.Next:
		it, ok := x.get(fr, in.Iter).(*MIterV)
		if !ok {
			return nil, false
		}
		if s := t.access(x, st, it.m, false, "iteration", in.Pos()); s >= 0 && s != it.sec {
			x.fail(st, x.unit.tagsFor("lock"), "lock-held-at-access", "the iteration continues in another critical section", in.Pos())
		}
		sec := sx(st).secs[it.sec]
		p := x.term(st.heap[it.Pos])
		more := Lt(p, sec.n)
		st.heap[it.Pos] = tv(Ite(more, Add(p, IntT(1)), p))
		st.log.writes[it.Pos] = true
		fr.regs[in] = &TupleV{[]Val{tv(more), tv(t.entryKey(sec, p)), tv(t.entryVal(sec, p))}}
	case *ssa.MakeMap:
		o := NewObj("map", "map", in.Type())
		fr.regs[in] = &newMapV{o}
	case *ssa.MakeSlice:
		if et := in.Type().Underlying().(*types.Slice).Elem(); t.kind == "new" && types.Identical(et, t.splitT) {
			n := x.term(x.get(fr, in.Len))
			x.oblige(st, x.unit.tagsFor("safety"), "makeslice-in-range", Ge(n, IntT(0)), in.Pos())
			if sx(st).news > 0 {
				panic(unsup("several slices of splits"))
			}
			sx(st).news++
			sx(st).newLen = n
			o := NewObj("splits", "splits", et)
			o.Len = n
			fr.regs[in] = &SliceV{Obj: o, Off: IntT(0), Len: n}
			break
		}
		return nil, false
	default:
		return nil, false
	}
	return x.runFrom(fr, st, b, i+1), true
}

func (t *syncTheory) entryKey(sec msec, i *Term) *Term {
	return UF1(fmt.Sprintf("key%d", sec.id), SU, i)
}
func (t *syncTheory) entryVal(sec msec, i *Term) *Term {
	return UF1(fmt.Sprintf("val%d", sec.id), SU, i)
}

func (t *syncTheory) Bound(x *Exec, fr *Frame, st *State, b *BoundV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	switch b.Name {
	case "builtin.delete":
		m, ok := args[0].(*SMapV)
		if !ok {
			return nil, false
		}
		t.update(x, st, m, args[1], nil, in.Pos())
		return []Outcome{{St: st, Kind: ORet}}, true
	case "builtin.clear":
		if m, ok := args[0].(*SMapV); ok {
			t.access(x, st, m, true, "update", in.Pos())
			x.fail(st, x.unit.tagsFor("effect"), "other-keys-unchanged", "all entries of a split are removed", in.Pos())
			return nil, true
		}
	case "invoke.Hash":
		h := UF1("hash", SInt, x.term(b.Recv))
		st.assume(And(Ge(h, IntT(0)), Lt(h, bigPow(64))))
		return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(h)}}}, true
	}
	return nil, false
}

// Opaque models calls of the user's functions.
func (t *syncTheory) Opaque(x *Exec, st *State, f *OpaqueFn, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	pos := in.Pos()
	e := sx(st)
	switch f.Role {
	case "mleaf":
		m, ok := args[0].(*SMapV)
		if !ok {
			x.fail(st, x.unit.tagsFor("leaf"), "map-of-a-split", "the callback gets a map that is not the map of a split", pos)
			return nil, true
		}
		t.access(x, st, m, true, "callback", pos)
		return x.callLeaf(st, m.I, Add(m.I, IntT(1)), f.Sig, pos), true
	case "visit":
		t.visit(x, st, f, args, pos)
		s2 := st.clone()
		s2.g.hb, s2.g.dead = true, true
		o := Fresh("pan", SU)
		s2.assume(Ne(o, UNil))
		var ret []Val
		for i := 0; i < f.Sig.Results().Len(); i++ {
			ret = append(ret, freshVal("more", f.Sig.Results().At(i).Type()))
		}
		if len(ret) == 1 {
			no := Not(x.term(ret[0]))
			if n := len(e.held); n > 0 {
				c := e.secs[e.held[n-1].sec].stop
				st.heap[c] = tv(Or(x.term(st.heap[c]), no))
				st.log.writes[c] = true
			}
			st.heap[t.stopAll] = tv(Or(x.term(st.heap[t.stopAll]), no))
			st.log.writes[t.stopAll] = true
		}
		return []Outcome{{St: st, Kind: ORet, Ret: ret}, {St: s2, Kind: OPanic, Pan: tv(o)}}, true
	case "computer", "modifier":
		lt := x.unit.tagsFor("lock")
		sec := -1
		unlocked := t.c.Locked == "no"
		if unlocked {
			if len(e.held) > 0 || len(e.outer) > 0 {
				x.fail(st, lt, "no-lock-during-callback", "a lock is held while the callback runs", pos)
			} else {
				x.pass(lt, "no-lock-during-callback", pos)
			}
			// the callback is only called if the key was absent when it was looked up
			var absent []*Term
			for _, s := range e.secs {
				absent = append(absent, And(Eq(s.idx, t.canon), Not(s.present0)))
			}
			x.oblige(st, x.unit.tagsFor("default"), "computed-only-if-absent", Or(absent...), pos)
		} else {
			for _, h := range e.held {
				if h.write && x.proves(st, Eq(h.idx, t.canon)) {
					sec = h.sec
				}
			}
			if sec < 0 {
				x.fail(st, lt, "write-lock-during-callback", "the write lock of the key's split is not held while the callback runs", pos)
			} else {
				x.pass(lt, "write-lock-during-callback", pos)
			}
		}
		s2 := st.clone()
		o := Fresh("pan", SU)
		s2.assume(Ne(o, UNil))
		var ret []Val
		for i := 0; i < f.Sig.Results().Len(); i++ {
			ret = append(ret, freshVal("computed", f.Sig.Results().At(i).Type()))
		}
		e.calls = append(e.calls, mcall{args: args, ret: ret, sec: sec})
		sx(s2).calls = append(sx(s2).calls, mcall{args: args, pan: true, sec: sec})
		return []Outcome{{St: st, Kind: ORet, Ret: ret}, {St: s2, Kind: OPanic, Pan: tv(o)}}, true
	}
	return nil, false
}

// visit checks one invocation of the callback of an iteration.
func (t *syncTheory) visit(x *Exec, st *State, f *OpaqueFn, args []Val, pos token.Pos) {
	u := x.unit
	e := sx(st)
	if f.Sig.Results().Len() == 1 {
		stopped := t.stopAll
		if t.c.Stop != "all" {
			stopped = nil
			if n := len(e.held); n > 0 {
				stopped = e.secs[e.held[n-1].sec].stop
			}
		}
		if stopped != nil {
			x.oblige(st, u.tagsFor("stop"), "no-visit-after-stop", Not(x.term(st.heap[stopped])), pos)
		}
	}
	if t.c.Stop == "all" || u.tagsFor("order") != nil {
		if st.g.dead {
			x.fail(st, u.tagsFor("order"), "nothing-after-panic", "a callback is invoked after a callback panicked", pos)
		}
		if st.task != 0 && t.c.Fam.Mode == "iterseq" {
			x.fail(st, u.tagsFor("order"), "same-goroutine", "a callback is invoked in another goroutine", pos)
		}
	}
	// which entry is it?
	k, v := x.term(args[0]), x.term(args[1])
	for i := len(e.held) - 1; i >= 0; i-- {
		h := e.held[i]
		sec := e.secs[h.sec]
		if k.Op != fmt.Sprintf("key%d", sec.id) {
			continue
		}
		p := k.Args[0]
		if !h.write {
			x.fail(st, u.tagsFor("lock"), "write-lock-during-callback", "the callback runs without the write lock of the split", pos)
		} else {
			x.pass(u.tagsFor("lock"), "write-lock-during-callback", pos)
		}
		x.oblige(st, u.tagsFor("entry"), "value-of-the-key", Eq(v, t.entryVal(sec, p)), pos)
		x.oblige(st, u.tagsFor("entry"), "existing-entry", And(Ge(p, IntT(0)), Lt(p, sec.n)), pos)
		c := Ite(And(Eq(sec.idx, u.X), Eq(p, t.entry)), IntT(1), IntT(0))
		st.g.S, st.g.D = Add(st.g.S, c), Add(st.g.D, c)
		st.g.N = Add(st.g.N, IntT(1))
		st.g.hb = true
		return
	}
	for _, sec := range e.secs {
		if k.Op == fmt.Sprintf("key%d", sec.id) {
			x.fail(st, u.tagsFor("lock"), "write-lock-during-callback", "the callback runs without the lock of the split", pos)
			panic(unsup("visit outside of the critical section"))
		}
	}
	panic(unsup("cannot tell which entry is visited"))
}

// lockIdx tells which split's lock p points to.
func (t *syncTheory) lockIdx(p Val) *Term {
	q, ok := p.(*PtrV)
	if !ok || !t.isSplits(q.Obj) || len(q.Path) != 2 || q.Path[1].Idx != nil || q.Path[1].Field != t.lockF {
		panic(unsup("a lock that is not the lock of a split"))
	}
	return q.Path[0].Idx
}

func (t *syncTheory) intr(fn *ssa.Function) intrinsic {
	name := fn.String()
	for _, ty := range []string{"(*sync.RWMutex).", "(*sync.Mutex)."} {
		if strings.HasPrefix(name, ty) {
			m := strings.TrimPrefix(name, ty)
			return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
				idx := t.lockIdx(args[0])
				switch m {
				case "Lock", "RLock":
					t.lock(x, st, idx, m == "Lock", in.Pos())
				case "Unlock", "RUnlock":
					t.unlock(x, st, idx, m == "Unlock", in.Pos())
				default:
					panic(unsup("lock method %s", m))
				}
				return []Outcome{{St: st, Kind: ORet}}
			}
		}
	}
	return nil
}

func (t *syncTheory) lock(x *Exec, st *State, idx *Term, write bool, pos token.Pos) {
	e := sx(st)
	tags := x.unit.tagsFor("lock")
	for _, h := range append(append([]mheld(nil), e.held...), e.outer...) {
		if x.proves(st, Ne(h.idx, idx)) {
			continue
		}
		x.fail(st, tags, "no-self-deadlock", "a lock is acquired that is already held", pos)
		panic(deadPath{})
	}
	x.pass(tags, "no-self-deadlock", pos)
	if t.kind == "op" && t.canon != nil {
		x.oblige(st, x.unit.tagsFor("effect"), "split-of-the-key", Eq(idx, t.canon), pos)
	}
	s := msec{id: NewObj("", "", nil).ID, idx: idx, write: write, task: st.task}
	s.present0, s.val0, s.n = Fresh("present", SBool), Fresh("val", SU), Fresh("n", SInt)
	s.present, s.val = s.present0, s.val0
	st.assume(Ge(s.n, IntT(0)))
	if t.kind == "iter" {
		st.assume(Implies(Eq(idx, x.unit.X), Lt(t.entry, s.n)))
	}
	s.stop = NewObj("ghost", "stopped", types.Typ[types.Bool])
	s.stop.Task = st.task
	st.heap[s.stop] = tv(TFalse)
	e.secs = append(e.secs, s)
	e.held = append(e.held, mheld{idx, write, len(e.secs) - 1})
}

func (t *syncTheory) unlock(x *Exec, st *State, idx *Term, write bool, pos token.Pos) {
	e := sx(st)
	tags := x.unit.tagsFor("lock")
	for i := len(e.held) - 1; i >= 0; i-- {
		h := e.held[i]
		if !Same(h.idx, idx) && !x.proves(st, Eq(h.idx, idx)) {
			continue
		}
		if h.write != write {
			x.fail(st, tags, "released-in-its-mode", "a lock is released in another mode than it was acquired in", pos)
			panic(deadPath{})
		}
		x.pass(tags, "released-in-its-mode", pos)
		e.held = append(e.held[:i:i], e.held[i+1:]...)
		sec := &e.secs[h.sec]
		sec.closed = true
		if t.kind == "iter" && sec.iter != nil && x.proves(st, Ge(x.term(st.heap[sec.iter]), sec.n)) {
			st.g.Pos = Add(idx, IntT(1))
		}
		return
	}
	x.fail(st, tags, "released-once", "a lock is released that is not held", pos)
	panic(deadPath{})
}

// released checks that all locks are released at the end of a function or goroutine.
func (t *syncTheory) released(x *Exec, st *State, how string, pos token.Pos) {
	if n := len(sx(st).held); n > 0 {
		x.fail(st, x.unit.tagsFor("lock"), "every-lock-released", fmt.Sprintf("%d lock(s) still held %s", n, how), pos)
	} else {
		x.pass(x.unit.tagsFor("lock"), "every-lock-released", pos)
	}
}

func (t *syncTheory) Forked(x *Exec, parent, after, child *State, task *Task) {
	if parent != after {
		t.released(x, child, "at the end of a goroutine", token.NoPos)
	}
	// what the goroutine did to the map is known to the whole call
	pe, ce := sx(after), sx(child)
	pe.secs = append([]msec(nil), ce.secs...)
	pe.calls = append([]mcall(nil), ce.calls...)
}

func (t *syncTheory) Back(x *Exec, entry, back *State) {
	a, b := sx(entry), sx(back)
	same := len(a.held) == len(b.held)
	for i := 0; same && i < len(a.held); i++ {
		same = a.held[i].sec == b.held[i].sec
	}
	if !same {
		x.fail(back, x.unit.tagsFor("lock"), "every-lock-released", "a loop iteration ends with other locks held than it started with", token.NoPos)
	}
	if t.kind == "op" {
		if len(a.calls) != len(b.calls) {
			panic(unsup("callback in a loop"))
		}
		for i, s := range b.secs {
			p0, v0 := s.present0, s.val0
			if i < len(a.secs) {
				p0, v0 = a.secs[i].present, a.secs[i].val
			}
			if !Same(s.present, p0) || !Same(s.val, v0) {
				panic(unsup("update in a loop"))
			}
		}
	}
}

func (t *syncTheory) Cands(l *loopRun) {
	x := l.x
	// iterations that are in progress
	if t.kind == "iter" {
		for _, s := range sx(l.entry.st).secs {
			if s.iter == nil || s.closed {
				continue
			}
			s := s
			l.invs = append(l.invs, s.n)
			s0 := l.entry.st.g.S
			p0 := x.term(l.entry.st.heap[s.iter])
			cnt := func(p *Term) *Term {
				return Ite(And(Eq(s.idx, x.unit.X), Lt(t.entry, p)), IntT(1), IntT(0))
			}
			l.cands = append(l.cands, &lcand{name: "starts=visited entries", term: func(v *view) *Term {
				return Eq(v.st.g.S, Add(s0, Sub(cnt(x.term(v.st.heap[s.iter])), cnt(p0))))
			}}, &lcand{name: "position<=entries", term: func(v *view) *Term {
				return Le(x.term(v.st.heap[s.iter]), s.n)
			}})
		}
	}
	if t.kind == "iter" {
		if lo, hi := x.curRange(); lo != nil {
			for _, a := range l.vars {
				if a.sort != SInt || a.ghost {
					continue
				}
				a := a
				l.cands = append(l.cands,
					&lcand{name: "starts=cov(" + a.name + ",hi)", term: func(v *view) *Term { return Eq(v.st.g.S, x.cov(a.get(v), hi)) }},
					&lcand{name: "starts=cov(" + a.name + "+1,hi)", term: func(v *view) *Term { return Eq(v.st.g.S, x.cov(Add(a.get(v), IntT(1)), hi)) }})
			}
		}
	}
	if n := sx(l.entry.st).newLen; t.initCell != nil && n != nil {
		for _, a := range l.vars {
			if a.sort != SInt || a.ghost {
				continue
			}
			a := a
			init := func(v *view) *Term { return x.term(v.st.heap[t.initCell]) }
			l.cands = append(l.cands,
				&lcand{name: "initialised below " + a.name, term: func(v *view) *Term { return Implies(Lt(x.unit.X, a.get(v)), init(v)) }},
				&lcand{name: "initialised up to " + a.name, term: func(v *view) *Term { return Implies(Le(x.unit.X, a.get(v)), init(v)) }},
				&lcand{name: "initialised from " + a.name, term: func(v *view) *Term { return Implies(And(Ge(x.unit.X, a.get(v)), Lt(x.unit.X, n)), init(v)) }},
				&lcand{name: "initialised above " + a.name, term: func(v *view) *Term { return Implies(And(Gt(x.unit.X, a.get(v)), Lt(x.unit.X, n)), init(v)) }})
		}
	}
}

func (t *syncTheory) GhostEnv(x *Exec, st *State, m map[string]*Term) {
	if t.stopAll != nil {
		m["stopped"] = x.term(st.heap[t.stopAll])
	}
}

func (t *syncTheory) FreshGhost(x *Exec, st *State, m map[string]*Term) {
	if t.stopAll != nil {
		b := Fresh("stopped", SBool)
		m["stopped"] = b
		st.heap[t.stopAll] = tv(Or(x.term(st.heap[t.stopAll]), b))
		st.log.writes[t.stopAll] = true
	}
}

// Call handles calls of the range functions of the other packages with a closure as callback:
// the closure is verified against the leaf contract for an arbitrary sub-range; by the contract
// of the range function (callbacks for a partition of the range) the same contract, which is
// closed under the union of adjacent ranges, then holds for the whole range.
func (t *syncTheory) Call(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	if f.Fn.Parent() != nil || t.c == nil || t.c.Leaf == nil {
		return nil, false
	}
	c := x.prog.Contracts[x.prog.relName(f.Fn)]
	if c == nil || c.Fam.Lists || len(args) != len(c.Roles) {
		return nil, false
	}
	switch c.Fam.Mode {
	case "parallel", "sequential", "speculative":
	default:
		return nil, false
	}
	u := x.unit
	var leaf *FnV
	env := map[string]*Term{}
	for i, r := range c.Roles {
		switch r {
		case "leaf":
			l, ok := args[i].(*FnV)
			if !ok {
				return nil, false
			}
			leaf = l
		case "join":
			if j, ok := args[i].(*OpaqueFn); !ok || j.Role != "join" {
				panic(unsup("join function of %s", c.Name))
			}
		default:
			env[r] = x.term(args[i])
		}
	}
	if u.Comb != c.Comb && !(u.Comb == "none" && c.Comb == "or") {
		panic(unsup("%s combines the results in another way", c.Name))
	}
	x.oblige(st, u.tagsFor("safety"), "valid-arguments", (&evalCtx{x: x, env: env}).eval(c.Valid), in.Pos())
	low, high := env["low"], env["high"]
	if len(leaf.Fn.Params) != 2 {
		panic(unsup("callback of %s", c.Name))
	}
	if (c.Fam.Mode == "speculative") != (t.c.Leaf.Mode == "speculative") && t.c.Leaf.Mode != "iter" {
		panic(unsup("%s is used", c.Name))
	}
	// verify the callback
	s := st.clone()
	nact := len(x.active)
	pend := len(s.pend)
	a, b := Fresh("low", SInt), Fresh("high", SInt)
	s.assume(And(Le(low, a), Le(a, b), Le(b, high), Or(Lt(a, b), Eq(low, high))))
	s.g = Ghost{S: IntT(0), D: IntT(0), N: IntT(0), Pos: a}
	s.log = newLog()
	sx(s).onFork()
	if t.stopAll != nil {
		s.heap[t.stopAll] = tv(TFalse)
	}
	outer := map[*Obj]bool{}
	for o := range s.heap {
		outer[o] = true
	}
	fe := map[string]*Term{"lo": a, "hi": b}
	inst := x.newInst(leaf.Fn, t.c.Leaf, fe)
	x.active = append(x.active, inst)
	saveSig, saveComb := u.Sig, u.Comb
	if u.Sig == "none" && c.Comb == "or" && u.Comb == "none" {
		u.Sig = "true" // speculative.Range: the callback signals by its result
	}
	outs := x.runFnGuard(s, leaf.Fn, leaf.Binds, []Val{tv(a), tv(b)}, nil, in)
	for _, o := range outs {
		if len(o.St.pend) > pend {
			panic(unsup("goroutines started by a callback"))
		}
		for k := range o.St.log.writes {
			if outer[k] && k.Kind != "ghost" {
				x.fail(o.St, u.tagsFor("race"), "no-race-write", fmt.Sprintf("callbacks of %s write the shared variable %s", c.Name, k.Name), in.Pos())
			}
		}
		t.released(x, o.St, "when the callback of "+c.Name+" ends", in.Pos())
	}
	x.checkOutcomes(inst, outs, nil, leaf.Fn.Pos())
	x.note(leaf.Fn, t.c.Leaf)
	x.active = x.active[:nact]
	res := x.useFamily(st, t.c.Leaf, map[string]*Term{"lo": low, "hi": high}, f.Fn, in)
	u.Sig, u.Comb = saveSig, saveComb
	return res, true
}

func bigPow(n int) *Term {
	switch n {
	case 64:
		return &Term{Op: "#big", Sort: SInt, S: "18446744073709551616"}
	case 63:
		return &Term{Op: "#big", Sort: SInt, S: "9223372036854775808"}
	}
	return IntT(int64(1) << uint(n))
}

// intWidth gives the number of bits and the signedness of an integer type.
func intWidth(t types.Type) (int, bool) {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// convInt converts between integer types with two's complement wrap-around.
func (x *Exec) convInt(st *State, v *Term, from, to types.Type) *Term {
	fw, fs := intWidth(from)
	w, s := intWidth(to)
	if fw < w && (fs == s || s) || fw == w && fs == s {
		return v
	}
	lo, hi := IntT(0), bigPow(w)
	if s {
		hi = bigPow(w - 1)
		if w < 64 {
			lo = IntT(-(int64(1) << uint(w-1)))
		} else {
			lo = &Term{Op: "#big", Sort: SInt, S: "(- 9223372036854775808)"}
		}
	}
	if x.proves(st, And(mk("<=", SBool, lo, v), mk("<", SBool, v, hi))) {
		return v
	}
	m := mk("mod", SInt, v, bigPow(w))
	if !s {
		return m
	}
	return mk("ite", SInt, mk("<", SBool, m, hi), m, mk("-", SInt, m, bigPow(w)))
}

// unsignedOp models operations on unsigned integers exactly where there is no overflow and as
// unspecified functions otherwise.
func (x *Exec) unsignedOp(st *State, op token.Token, p, q *Term, t types.Type) *Term {
	w, _ := intWidth(t)
	exact := func(r *Term) *Term {
		if x.proves(st, And(mk("<=", SBool, IntT(0), r), mk("<", SBool, r, bigPow(w)))) {
			return r
		}
		return nil
	}
	uf := func(name string) *Term {
		r := UF2(fmt.Sprintf("u%s%d", name, w), SInt, p, q)
		st.assume(And(Ge(r, IntT(0)), mk("<", SBool, r, bigPow(w))))
		return r
	}
	switch op {
	case token.ADD:
		if r := exact(Add(p, q)); r != nil {
			return r
		}
		return uf("add")
	case token.SUB:
		if r := exact(Sub(p, q)); r != nil {
			return r
		}
		return uf("sub")
	case token.MUL:
		if r := exact(Mul(p, q)); r != nil {
			return r
		}
		return uf("mul")
	case token.XOR:
		return uf("xor")
	case token.OR:
		return uf("or")
	case token.AND_NOT:
		r := uf("andnot")
		st.assume(Le(r, p))
		return r
	case token.AND:
		r := uf("and")
		st.assume(And(Le(r, p), Le(r, q)))
		return r
	case token.SHL:
		return uf("shl")
	case token.SHR:
		if q.isInt() && q.N >= 0 && q.N < 62 {
			return mk("div", SInt, p, IntT(int64(1)<<uint(q.N)))
		}
		r := uf("shr")
		st.assume(Le(r, p))
		return r
	case token.REM:
		if q.isInt() && q.N > 0 {
			return mk("mod", SInt, p, q)
		}
		r := uf("rem")
		st.assume(And(Implies(Gt(q, IntT(0)), Lt(r, q)), Le(r, p)))
		return r
	case token.QUO:
		if q.isInt() && q.N > 0 {
			return mk("div", SInt, p, q)
		}
		r := uf("quo")
		st.assume(Le(r, p))
		return r
	}
	return nil
}

// wrapSigned gives the value of a signed operation with wrap-around.
func (x *Exec) wrapSigned(st *State, r *Term, t types.Type) *Term {
	w, signed := intWidth(t)
	if !signed {
		return r
	}
	lo := mk("-", SInt, bigPow(w-1))
	if x.proves(st, And(mk("<=", SBool, lo, r), mk("<", SBool, r, bigPow(w-1)))) {
		return r
	}
	if x.isSum(r) {
		// sums and products of results of callbacks are those of the ring of machine integers
		return r
	}
	m := mk("mod", SInt, r, bigPow(w))
	return mk("ite", SInt, mk("<", SBool, m, bigPow(w-1)), m, mk("-", SInt, m, bigPow(w)))
}

// isSum: the term depends on results of callbacks, which are only added or multiplied.
func (x *Exec) isSum(r *Term) bool {
	if u := x.unit; u.C == nil || u.sort != SInt || u.Comb != "add" && u.Comb != "mul" {
		return false
	}
	res := false
	walk(r, func(t *Term) {
		if len(t.Args) == 0 && strings.Contains(t.S, "!") {
			n := t.S[:strings.Index(t.S, "!")]
			res = res || n == "r" || n == "res" || strings.HasPrefix(n, "l.")
		}
	})
	return res
}
