package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Theory of the sources of a pipeline.
//
// A source is verified against the protocol of RunWithContext, written down as a Go function
// (driverSrc) that is translated together with the code under verification: Prepare, then any
// number of calls of Fetch with any sizes, each followed by Data and Err. The elements of the
// source are a sequence D: a batch is the piece D[at, at+k), where at is the number of elements
// delivered before. Slices and strings deliver pieces of D itself; channels and scanners hand
// out the elements one after the other (rcv counts them), and batches are built from them.

const driverSrc = `package verifdriver

import "context"

type Source interface {
	Err() error
	Prepare(ctx context.Context) (size int)
	Fetch(size int) (fetched int)
	Data() interface{}
}

func More() bool { panic(0) }
func Size() int { panic(0) }
func Context(number int) context.Context { panic(0) }
func Prepared(size int) { panic(0) }
func Fetched(requested, fetched int, data interface{}, err error) { panic(0) }

// A source may have been used by another pipeline before.
func Drive(src Source) {
	if More() {
		Prepared(src.Prepare(Context(1)))
		for More() {
			n := Size()
			k := src.Fetch(n)
			Fetched(n, k, src.Data(), src.Err())
		}
	}
	Prepared(src.Prepare(Context(2)))
	for More() {
		n := Size()
		k := src.Fetch(n)
		Fetched(n, k, src.Data(), src.Err())
	}
}
`

type srcCfg struct {
	name string
	kind string // "slice", "string", "array", "chan", "single", "scan", "bytes", "func"
	ctor string
}

var srcCfgs = []*srcCfg{
	{"slice source", "slice", ""},
	{"string source", "string", ""},
	{"array source", "array", ""},
	{"channel source", "chan", ""},
	{"SingletonChan", "single", "NewSingletonChan"},
	{"Scanner", "scan", "NewScanner"},
	{"BytesScanner", "bytes", "NewBytesScanner"},
	{"Func", "func", "NewFunc"},
}

type srcTheory struct {
	NoTheory
	ghosts
	x     *Exec
	cfg   *srcCfg
	D, N  *Term // the elements and their number
	Z     *Term // the empty batch
	arrs  map[string]*Obj
	fsize *Term
}

func (t *srcTheory) tags(kind string) []string { return t.x.unit.tagsFor(kind) }

func (t *srcTheory) piece(a, b *Term) *Term { return bslice(t.D, a, b) }

// elem: element i as it may be kept.
func (t *srcTheory) elem(i *Term) *Term {
	if t.cfg.kind == "scan" {
		return t.text(i)
	}
	DeclareFun("srcelem", []string{SU, SInt}, SU)
	return UF("srcelem", SU, t.D, i)
}

func (t *srcTheory) text(i *Term) *Term {
	DeclareFun("srctext", []string{SU, SInt}, SStr)
	return UF("srctext", SStr, t.D, i)
}

func (t *srcTheory) volatile(i *Term) *Term {
	DeclareFun("srcbytes", []string{SU, SInt}, SU)
	return UF("srcbytes", SU, t.D, i)
}

func (t *srcTheory) stream() bool {
	switch t.cfg.kind {
	case "slice", "string", "array":
		return false
	}
	return true
}

func (t *srcTheory) newState(x *Exec) *State {
	t.x = x
	t.arrs = map[string]*Obj{}
	st := &State{heap: map[*Obj]Val{}, log: newLog()}
	st.g = Ghost{S: IntT(0), D: IntT(0), N: IntT(0), Pos: IntT(0)}
	t.D, t.N, t.Z = Const("src.D", SU), Const("src.N", SInt), Const("src.empty", SU)
	st.assume(And(Ge(t.N, IntT(0)), Eq(blen(t.D), t.N), Eq(t.piece(IntT(0), t.N), t.D), Ne(t.D, UNil)))
	st.assume(And(Eq(blen(t.Z), IntT(0)), Ne(t.Z, UNil)))
	t.ghost(st, "at", IntT(0))
	t.ghost(st, "rcv", IntT(0))
	t.ghost(st, "epoch", IntT(0))
	t.ghost(st, "ended", TFalse)
	t.ghost(st, "canceled", TFalse)
	t.ghost(st, "ctx", IntT(0))
	t.ghost(st, "err", UNil)
	return st
}

// own: the memory of the slice d is not part of a batch that was delivered.
func (t *srcTheory) own(st *State, d *Term) *Term {
	return Or(Eq(d, t.Z), Eq(UF1("srcown", SInt, d), t.get(st, "epoch")))
}

// cut is d[a:b].
func (t *srcTheory) cut(st *State, d, a, b *Term) *Term {
	n := bslice(d, a, b)
	if d.Op == "bslice" && Same(d.Args[0], t.D) {
		n = t.piece(Add(d.Args[1], a), Add(d.Args[1], b))
	}
	at := t.get(st, "at")
	st.assume(And(Eq(blen(n), Sub(b, a)), Ne(n, UNil)))
	st.assume(Implies(Eq(d, t.piece(at, t.N)), Eq(n, t.piece(Add(at, a), Add(at, b)))))
	st.assume(Implies(And(Eq(a, IntT(0)), Eq(b, blen(d))), Eq(n, d)))
	return n
}

// push appends element e to the batch d.
func (t *srcTheory) push(x *Exec, st *State, d, e *Term, pos token.Pos) *Term {
	x.oblige(st, t.tags("default"), "delivered-batches-are-not-changed", t.own(st, d), pos)
	at, rcv := t.get(st, "at"), t.get(st, "rcv")
	n := Fresh("batch", SU)
	last := Sub(rcv, IntT(1))
	is := Eq(e, t.elem(last))
	st.assume(And(Ne(n, UNil), Ne(n, t.Z), Eq(UF1("srcown", SInt, n), t.get(st, "epoch")), Eq(blen(n), Add(blen(d), IntT(1)))))
	st.assume(Implies(And(is, Eq(d, t.piece(at, last))), Eq(n, t.piece(at, rcv))))
	st.assume(Implies(And(is, Eq(d, t.Z), Eq(last, at)), Eq(n, t.piece(at, rcv))))
	return n
}

func (t *srcTheory) Const(c *ssa.Const) (Val, bool) {
	if c.Value == nil && isBatchList(c.Type()) {
		return tv(t.Z), true
	}
	return nil, false
}

// isBatchList: [][]byte and []string; isBytes: []byte.
func isBatchList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && (isBytes(s.Elem()) || sortOf(s.Elem()) == SStr)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte])
}

func fixLists(t types.Type, v Val, z *Term) Val {
	if isBatchList(t) {
		return tv(z)
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		if sv, ok := v.(*StructV); ok {
			for i := range sv.F {
				sv.F[i] = fixLists(s.Field(i).Type(), sv.F[i], z)
			}
		}
	}
	return v
}

func (t *srcTheory) Instr(x *Exec, fr *Frame, st *State, b *ssa.BasicBlock, i int, in ssa.Instruction) ([]Outcome, bool) {
	cont := func(v Val) ([]Outcome, bool) {
		fr.regs[in.(ssa.Value)] = v
		return x.runFrom(fr, st, b, i+1), true
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		o := NewObj("cell", in.Comment, et)
		st.heap[o] = fixLists(et, zeroVal(et), t.Z)
		return cont(&PtrV{Obj: o})
	case *ssa.MakeSlice:
		if isBatchList(in.Type()) {
			if n := x.term(x.get(fr, in.Len)); n.isInt() && n.N == 0 {
				return cont(tv(t.emptyWithMemory(st)))
			}
		}
		if isBytes(in.Type()) {
			n := Fresh("bytes", SU)
			o := NewObj("bytes", "bytes", in.Type())
			t.arrs[n.S] = o
			st.heap[o] = tv(n)
			o.Extra = x.term(x.get(fr, in.Len))
			return cont(tv(n))
		}
	case *ssa.Slice:
		v, ok := x.get(fr, in.X).(*TermV)
		if !ok || v.T.Sort != SU {
			return nil, false
		}
		lo := IntT(0)
		if in.Low != nil {
			lo = x.term(x.get(fr, in.Low))
		}
		hi := blen(v.T)
		if in.High != nil {
			hi = x.term(x.get(fr, in.High))
		}
		x.oblige(st, t.tags("safety"), "slice-in-range", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, blen(v.T))), in.Pos())
		return cont(tv(t.cut(st, v.T, lo, hi)))
	case *ssa.MakeInterface:
		switch v := x.get(fr, in.X).(type) {
		case *TermV:
			if v.T.Sort == SU {
				return cont(v)
			}
		case *RVal:
			return cont(tv(Fresh("boxed", SU)))
		}
	case *ssa.Convert:
		v, ok := x.get(fr, in.X).(*TermV)
		if !ok {
			return nil, false
		}
		if isBytes(in.X.Type()) && sortOf(in.Type()) == SStr {
			i := t.theBytes(x, st, v.T, in.Pos())
			return cont(tv(t.text(i)))
		}
		if isBytes(in.Type()) && sortOf(in.X.Type()) == SStr {
			if v.T.Op == "srctext" {
				return cont(tv(t.elem(v.T.Args[1])))
			}
			panic(unsup("conversion to bytes"))
		}
	}
	return nil, false
}

// theBytes: the number of the element whose bytes the scanner lends; they are overwritten by
// the next scan.
func (t *srcTheory) theBytes(x *Exec, st *State, v *Term, pos token.Pos) *Term {
	if o := t.arrs[v.S]; o != nil {
		v = st.heap[o].(*TermV).T
	}
	switch v.Op {
	case "srcelem":
		return v.Args[1]
	case "srcbytes":
		x.oblige(st, t.tags("default"), "bytes-used-before-the-next-scan", Eq(v.Args[1], Sub(t.get(st, "rcv"), IntT(1))), pos)
		return v.Args[1]
	}
	panic(unsup("bytes of unknown origin"))
}

// emptyWithMemory is a new empty slice with room for elements.
func (t *srcTheory) emptyWithMemory(st *State) *Term {
	n := Fresh("empty", SU)
	at := t.get(st, "at")
	st.assume(And(Ne(n, UNil), Eq(blen(n), IntT(0)), Eq(n, t.piece(at, at)), Eq(UF1("srcown", SInt, n), t.get(st, "epoch"))))
	return n
}

func (t *srcTheory) Len(x *Exec, st *State, v Val) (*Term, bool) {
	if c, ok := v.(*TermV); ok && c.T.Sort == SU {
		if o := t.arrs[c.T.S]; o != nil {
			return o.Extra.(*Term), true
		}
		l := blen(c.T)
		at, rcv := t.get(st, "at"), t.get(st, "rcv")
		st.assume(And(Ge(l, IntT(0)), Implies(And(Eq(c.T, t.piece(at, rcv)), Le(at, rcv)), Eq(l, Sub(rcv, at)))))
		return l, true
	}
	return nil, false
}

func (t *srcTheory) TypeAssert(x *Exec, st *State, in *ssa.TypeAssert, v Val) (Val, bool) {
	o, ok := v.(*OpaqueV)
	if !ok || o.Name != "usersource" {
		return nil, false
	}
	if _, toIface := in.AssertedType.Underlying().(*types.Interface); !toIface || !in.CommaOk {
		panic(unsup("type switch of a source over %s", in.AssertedType))
	}
	return &TupleV{[]Val{tv(UNil), tv(TFalse)}}, true
}

func (t *srcTheory) unwrap(v Val) Val {
	if i, ok := v.(*IfaceV); ok {
		return i.V
	}
	return v
}

func (t *srcTheory) ctxOf(v Val, what string) (int64, bool) {
	o, ok := t.unwrap(v).(*OpaqueV)
	if !ok || !strings.HasPrefix(o.Name, what) {
		return 0, false
	}
	return int64(o.Name[len(what)] - '0'), true
}

func (t *srcTheory) Bound(x *Exec, fr *Frame, st *State, b *BoundV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	one := func(v ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Kind: ORet, Ret: v}}, true }
	switch b.Name {
	case "builtin.append":
		return one(t.appendCall(x, st, args, in))
	case "builtin.copy":
		if d, ok := args[0].(*TermV); ok {
			if o := t.arrs[d.T.S]; o != nil && o.Kind == "bytes" {
				v := x.term(args[1])
				i := t.theBytes(x, st, v, in.Pos())
				if !x.proves(st, Eq(o.Extra.(*Term), blen(v))) {
					panic(unsup("copy of a part"))
				}
				st.heap[o] = tv(t.elem(i))
				return one(tv(o.Extra.(*Term)))
			}
		}
		panic(unsup("copy"))
	}
	if n, ok := t.ctxOf(b.Recv, "ctx:"); ok {
		switch b.Name {
		case "invoke.Done":
			return one(&OpaqueV{Name: "done:" + string(rune('0'+n))})
		case "invoke.Err":
			c := Fresh("ctxerr", SU)
			if x.proves(st, Eq(t.get(st, "ctx"), IntT(n))) {
				t.set(st, "canceled", Or(t.get(st, "canceled"), Ne(c, UNil)))
			}
			return one(tv(c))
		}
	}
	if o, ok := b.Recv.(*OpaqueV); ok && strings.HasPrefix(o.Name, "rtype") {
		switch b.Name {
		case "invoke.Elem":
			return one(&OpaqueV{Name: o.Name + ".elem"})
		case "invoke.Kind":
			if o.Name == "rtype" {
				return one(tv(t.kindOf()))
			}
		case "invoke.Len":
			if o.Name == "rtype" && t.cfg.kind == "array" {
				return one(tv(t.N))
			}
		}
	}
	return nil, false
}

func (t *srcTheory) appendCall(x *Exec, st *State, args []Val, in ssa.Instruction) Val {
	pos := in.Pos()
	typ := in.(ssa.Value).Type()
	elems := func(v Val) []Val {
		switch c := v.(type) {
		case *NilV:
			return nil
		case *SliceV:
			arr, ok := st.heap[c.Obj].(*ArrayV)
			if ok {
				c = t.constBounds(x, st, c)
				return append([]Val(nil), arr.E[c.Off.N:c.Off.N+c.Len.N]...)
			}
		}
		panic(unsup("append of %T", v))
	}
	switch {
	case isBatchList(typ):
		d := x.term(args[0])
		for _, e := range elems(args[1]) {
			v := x.term(e)
			if o := t.arrs[v.S]; o != nil {
				v = st.heap[o].(*TermV).T
			}
			d = t.push(x, st, d, v, pos)
		}
		return tv(d)
	case isBytes(typ):
		if s, ok := args[0].(*SliceV); ok && s.Len.isInt() && s.Len.N == 0 {
		} else if _, ok := args[0].(*NilV); !ok {
			panic(unsup("append to bytes"))
		}
		return tv(t.elem(t.theBytes(x, st, x.term(args[1]), pos)))
	}
	// a short list of structs, like the cases of a select
	all := append(elems(args[0]), elems(args[1])...)
	o := NewObj("cell", "append", nil)
	st.heap[o] = &ArrayV{E: all}
	return &SliceV{Obj: o, Off: IntT(0), Len: IntT(int64(len(all)))}
}

func (t *srcTheory) Opaque(x *Exec, st *State, f *OpaqueFn, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	if f.Role != "srcfetch" {
		return nil, false
	}
	// the function given to NewFunc
	n := x.term(args[0])
	x.oblige(st, t.tags("default"), "size-passed-on", Ge(n, IntT(1)), in.Pos())
	k, e := Fresh("fetched", SInt), Fresh("err", SU)
	st.assume(And(Ge(k, IntT(0)), Le(k, n)))
	rcv := t.get(st, "rcv")
	d := t.piece(rcv, Add(rcv, k))
	t.set(st, "rcv", Add(rcv, k))
	t.set(st, "err", e)
	t.set(st, "ended", Or(t.get(st, "ended"), Eq(k, IntT(0))))
	return []Outcome{{St: st, Kind: ORet, Ret: []Val{tv(d), tv(k), tv(e)}}}, true
}

// next: one more element arrives.
func (t *srcTheory) next(st *State) {
	t.set(st, "rcv", Add(t.get(st, "rcv"), IntT(1)))
}

func (t *srcTheory) intr(fn *ssa.Function) intrinsic {
	ret := func(st *State, v ...Val) []Outcome { return []Outcome{{St: st, Kind: ORet, Ret: v}} }
	name := fn.String()
	switch {
	case fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/verifdriver") && fn.Name() != "Drive":
		return t.driver
	case strings.HasPrefix(name, "bufio.") || strings.HasPrefix(name, "(*bufio."):
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			if name == "bufio.NewScanner" {
				return ret(st, &OpaqueV{Name: "scanner"})
			}
			if o, ok := args[0].(*OpaqueV); !ok || o.Name != "scanner" {
				panic(unsup("%s", name))
			}
			switch fn.Name() {
			case "Scan":
				ok := Fresh("more", SBool)
				st.assume(Implies(t.get(st, "ended"), Not(ok)))
				t.set(st, "rcv", Add(t.get(st, "rcv"), Ite(ok, IntT(1), IntT(0))))
				t.set(st, "ended", Not(ok))
				t.set(st, "err", Fresh("err", SU))
				return ret(st, tv(ok))
			case "Text":
				return ret(st, tv(t.text(Sub(t.get(st, "rcv"), IntT(1)))))
			case "Bytes":
				return ret(st, tv(t.volatile(Sub(t.get(st, "rcv"), IntT(1)))))
			case "Err":
				return ret(st, tv(t.get(st, "err")))
			}
			panic(unsup("%s", name))
		}
	case name == "bytes.Clone" || strings.HasPrefix(name, "slices.Clone["):
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			return ret(st, tv(t.elem(t.theBytes(x, st, x.term(args[0]), in.Pos()))))
		}
	case fn.Pkg != nil && fn.Pkg.Pkg.Path() == "reflect":
		return func(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
			return t.reflect(x, st, fn, args, in)
		}
	}
	return nil
}

func (t *srcTheory) driver(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) []Outcome {
	ret := func(v ...Val) []Outcome { return []Outcome{{St: st, Kind: ORet, Ret: v}} }
	pos := in.Pos()
	if fr != nil {
		// report the place in the source, not in the driver
		pos = token.NoPos
	}
	tg := t.tags("default")
	switch f.Fn.Name() {
	case "More":
		return ret(tv(Fresh("more", SBool)))
	case "Size":
		n := Fresh("size", SInt)
		st.assume(Ge(n, IntT(1)))
		return ret(tv(n))
	case "Context":
		t.set(st, "ctx", x.term(args[0]))
		t.set(st, "canceled", TFalse)
		return ret(&OpaqueV{Name: "ctx:" + string(rune('0'+x.term(args[0]).N))})
	case "Prepared":
		s := x.term(args[0])
		switch {
		case t.cfg.kind == "func":
			x.oblige(st, t.tags("size"), "size-as-given", Eq(s, t.fsize), pos)
		case t.stream():
			x.oblige(st, t.tags("size"), "size-is-not-known", Lt(s, IntT(0)), pos)
		default:
			x.oblige(st, t.tags("size"), "size-is-the-number-of-elements", Or(Lt(s, IntT(0)), Eq(s, Sub(t.N, t.get(st, "at")))), pos)
		}
		return ret()
	case "Fetched":
		n, k := x.term(args[0]), x.term(args[1])
		at := t.get(st, "at")
		end := Add(at, k)
		x.oblige(st, tg, "batch-size-at-most-requested", And(Le(IntT(0), k), Le(k, n)), pos)
		var d *Term
		switch v := args[2].(type) {
		case *IfaceV:
			if tt, ok := v.V.(*TermV); ok {
				d = tt.T
			}
		case *TermV:
			d = v.T
		}
		if d == nil {
			d = Fresh("something", SU)
		}
		some := Gt(k, IntT(0))
		if t.cfg.kind == "single" {
			x.oblige(st, tg, "batch-is-the-next-element", Implies(some, And(Eq(k, IntT(1)), Eq(d, t.elem(at)))), pos)
		} else {
			x.oblige(st, tg, "batch-is-the-next-elements", Implies(some, Eq(d, t.piece(at, end))), pos)
		}
		if t.stream() {
			x.oblige(st, tg, "no-element-is-lost", Eq(t.get(st, "rcv"), end), pos)
			x.oblige(st, tg, "empty-batch-only-at-the-end", Implies(Not(some), Or(t.get(st, "ended"), t.get(st, "canceled"))), pos)
		} else {
			x.oblige(st, tg, "batch-within-the-source", Le(end, t.N), pos)
			x.oblige(st, tg, "empty-batch-only-at-the-end", Implies(Not(some), Eq(at, t.N)), pos)
		}
		x.oblige(st, t.tags("err"), "error-of-the-source", Eq(x.term(args[3]), t.get(st, "err")), pos)
		t.set(st, "at", end)
		t.set(st, "epoch", Add(t.get(st, "epoch"), IntT(1)))
		return ret()
	}
	panic(unsup("driver function %s", f.Fn.Name()))
}

// ---------------------------------------------------------------- reflection

func (t *srcTheory) kindOf() *Term {
	n := map[string]int64{"slice": 23, "string": 24, "array": 17, "chan": 18, "single": 18}[t.cfg.kind]
	return IntT(n)
}

func (t *srcTheory) reflect(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []Outcome {
	pos := in.Pos()
	safety := t.tags("safety")
	ret := func(v ...Val) []Outcome { return []Outcome{{St: st, Kind: ORet, Ret: v}} }
	rv := func(v Val) *RVal {
		r, ok := v.(*RVal)
		if !ok {
			panic(unsup("reflect.Value %T", v))
		}
		return r
	}
	content := func(r *RVal) *Term {
		switch r.K {
		case "arr":
			return st.heap[t.arrs[r.T.S]].(*TermV).T
		case "val":
			x.oblige(st, safety, "no-use-of-zero-value", Ne(r.T, UNil), pos)
			return r.T
		}
		panic(unsup("use of a reflect.Value (%s)", r.K))
	}
	val := func(n *Term) *RVal { return &RVal{K: "val", T: n} }
	rtype := func(v Val) string {
		o, ok := v.(*OpaqueV)
		if !ok {
			panic(unsup("reflect.Type %T", v))
		}
		return o.Name
	}
	newArr := func(n *Term, kind string) *RVal {
		id := Fresh("array", SU)
		o := NewObj("cell", "array", nil)
		o.Extra = n
		st.heap[o] = tv(Fresh("zeros", SU))
		t.arrs[id.S] = o
		return &RVal{K: kind, T: id}
	}
	if fn.Signature.Recv() == nil {
		switch fn.Name() {
		case "ValueOf":
			if k, ok := t.ctxOf(args[0], "done:"); ok {
				return ret(&RVal{K: "done:" + string(rune('0'+k))})
			}
			switch v := args[0].(type) {
			case *OpaqueV:
				if v.Name == "usersource" {
					if t.cfg.kind == "chan" || t.cfg.kind == "single" {
						return ret(&RVal{K: "chan"})
					}
					return ret(val(t.D))
				}
			case *NilV:
				return ret(val(UNil))
			case *TermV:
				return ret(val(v.T))
			}
		case "SliceOf", "ArrayOf":
			return ret(&OpaqueV{Name: "rtype.sliceof"})
		case "Zero":
			switch rtype(args[0]) {
			case "rtype.sliceof":
				return ret(val(t.Z))
			case "rtype.elem":
				return ret(&RVal{K: "val", T: Const("src.zero", SU)})
			}
		case "New":
			if rtype(args[0]) == "rtype" && t.cfg.kind == "array" {
				return ret(newArr(t.N, "newptr"))
			}
		case "MakeSlice":
			if n := x.term(args[1]); n.isInt() && n.N == 0 {
				return ret(val(t.emptyWithMemory(st)))
			}
			return ret(newArr(x.term(args[1]), "arr"))
		case "Copy":
			a := rv(args[0])
			if a.K != "arr" {
				panic(unsup("reflect.Copy"))
			}
			c := content(rv(args[1]))
			o := t.arrs[a.T.S]
			if !x.proves(st, Eq(o.Extra.(*Term), blen(c))) {
				panic(unsup("reflect.Copy of a part"))
			}
			st.heap[o] = tv(c)
			st.log.writes[o] = true
			return ret(tv(blen(c)))
		case "Append":
			d := content(rv(args[0]))
			s, ok := args[1].(*SliceV)
			if !ok || !s.Len.isInt() || !s.Off.isInt() {
				panic(unsup("reflect.Append"))
			}
			for k := int64(0); k < s.Len.N; k++ {
				d = t.push(x, st, d, content(rv(st.heap[s.Obj].(*ArrayV).E[s.Off.N+k])), pos)
			}
			return ret(val(d))
		case "Select":
			return t.selectCases(x, st, args[0], in)
		}
		panic(unsup("reflect.%s", fn.Name()))
	}
	r := rv(args[0])
	switch fn.Name() {
	case "Elem":
		if r.K == "newptr" {
			return ret(&RVal{K: "arr", T: r.T})
		}
	case "Kind":
		switch {
		case r.K == "arr", r.K == "chan", r.K == "val" && Same(r.T, t.D):
			return ret(tv(t.kindOf()))
		case r.K == "val":
			k := Fresh("kind", SInt)
			st.assume(Eq(Eq(k, IntT(0)), Eq(r.T, UNil)))
			return ret(tv(k))
		}
	case "Type":
		if r.K == "chan" || r.K == "arr" || r.K == "val" && Same(r.T, t.D) {
			return ret(&OpaqueV{Name: "rtype"})
		}
		if r.K == "val" {
			return ret(&OpaqueV{Name: "rtype.sliceof"})
		}
	case "IsValid":
		if r.K == "val" {
			return ret(tv(Ne(r.T, UNil)))
		}
	case "CanAddr":
		return ret(tv(BoolT(r.K == "arr")))
	case "Set":
		if r.K == "arr" {
			c := content(rv(args[1]))
			o := t.arrs[r.T.S]
			st.heap[o] = tv(c)
			st.log.writes[o] = true
			return ret()
		}
	case "Len":
		if r.K == "arr" {
			return ret(tv(t.arrs[r.T.S].Extra.(*Term)))
		}
		c := content(r)
		l := blen(c)
		at, rcv := t.get(st, "at"), t.get(st, "rcv")
		st.assume(And(Ge(l, IntT(0)), Implies(And(Eq(c, t.piece(at, t.N)), Le(at, t.N)), Eq(l, Sub(t.N, at))),
			Implies(And(Eq(c, t.piece(at, rcv)), Le(at, rcv)), Eq(l, Sub(rcv, at)))))
		return ret(tv(l))
	case "Slice", "Slice3":
		if r.K == "val" && Same(r.T, t.D) && t.cfg.kind == "array" {
			x.fail(st, safety, "slice-of-addressable-array", "slice of an array that is not addressable", pos)
			panic(deadPath{})
		}
		if fn.Name() == "Slice3" && t.cfg.kind == "string" {
			x.fail(st, safety, "no-three-index-slice-of-a-string", "three-index slice of a string", pos)
			panic(deadPath{})
		}
		d, a, b := content(r), x.term(args[1]), x.term(args[2])
		at := t.get(st, "at")
		l := blen(d)
		if r.K == "arr" {
			l = t.arrs[r.T.S].Extra.(*Term)
		}
		st.assume(Implies(And(Eq(d, t.piece(at, t.N)), Le(at, t.N)), Eq(blen(d), Sub(t.N, at))))
		x.oblige(st, safety, "slice-in-range", And(Le(IntT(0), a), Le(a, b), Le(b, l)), pos)
		if fn.Name() == "Slice3" {
			c := x.term(args[3])
			x.oblige(st, safety, "slice-in-range", And(Le(b, c), Le(c, l)), pos)
		}
		return ret(val(t.cut(st, d, a, b)))
	case "Interface":
		if r.K == "val" || r.K == "arr" {
			return ret(tv(content(r)))
		}
	}
	panic(unsup("reflect.Value.%s of %s", fn.Name(), r.K))
}

// constBounds finds the constant bounds of a short list.
func (t *srcTheory) constBounds(x *Exec, st *State, s *SliceV) *SliceV {
	if s.Off.isInt() && s.Len.isInt() {
		return s
	}
	if arr, ok := st.heap[s.Obj].(*ArrayV); ok {
		for o := range arr.E {
			for l := 0; o+l <= len(arr.E); l++ {
				if x.proves(st, And(Eq(s.Off, IntT(int64(o))), Eq(s.Len, IntT(int64(l))))) {
					return &SliceV{Obj: s.Obj, Off: IntT(int64(o)), Len: IntT(int64(l))}
				}
			}
		}
	}
	panic(unsup("a list of unknown length"))
}

// selectCases is reflect.Select on receive cases.
func (t *srcTheory) selectCases(x *Exec, st *State, v Val, in ssa.Instruction) []Outcome {
	pos := in.Pos()
	s, ok := v.(*SliceV)
	if !ok {
		panic(unsup("reflect.Select of %T", v))
	}
	s = t.constBounds(x, st, s)
	var names []string
	stops := false
	for k := int64(0); k < s.Len.N; k++ {
		c := st.heap[s.Obj].(*ArrayV).E[s.Off.N+k].(*StructV)
		dir := c.F[0].(*TermV).T
		if !dir.isInt() || dir.N != 2 {
			panic(unsup("reflect.Select that does not receive only"))
		}
		ch, ok := c.F[1].(*RVal)
		if !ok || ch.K != "chan" && !strings.HasPrefix(ch.K, "done:") {
			panic(unsup("reflect.Select of an unknown channel"))
		}
		names = append(names, ch.K)
		if strings.HasPrefix(ch.K, "done:") {
			stops = stops || x.proves(st, Eq(t.get(st, "ctx"), IntT(int64(ch.K[5]-'0'))))
		}
	}
	x.oblige(st, t.tags("block"), "blocking-operation-observes-cancellation", BoolT(stops), pos)
	var outs []Outcome
	for k, n := range names {
		if n == "chan" {
			s1, s2 := st.clone(), st.clone()
			s1.assume(Not(t.get(s1, "ended")))
			e := &RVal{K: "val", T: t.elem(t.get(s1, "rcv"))}
			t.next(s1)
			s1.assume(Ne(e.T, UNil))
			outs = append(outs, Outcome{St: s1, Kind: ORet, Ret: []Val{tv(IntT(int64(k))), e, tv(TTrue)}})
			t.set(s2, "ended", TTrue)
			outs = append(outs, Outcome{St: s2, Kind: ORet, Ret: []Val{tv(IntT(int64(k))), &RVal{K: "val", T: Const("src.zero", SU)}, tv(TFalse)}})
			continue
		}
		s1 := st.clone()
		if x.proves(s1, Eq(t.get(s1, "ctx"), IntT(int64(n[5]-'0')))) {
			t.set(s1, "canceled", TTrue)
		}
		outs = append(outs, Outcome{St: s1, Kind: ORet, Ret: []Val{tv(IntT(int64(k))), &RVal{K: "val", T: UNil}, tv(TFalse)}})
	}
	return outs
}

// ---------------------------------------------------------------- units

// Derived: the lengths of batches.
func (t *srcTheory) Derived(l *loopRun) {
	for _, v := range l.vars {
		if u := v; u.sort == SU {
			l.vars = append(l.vars, &lvar{name: "len of " + u.name, sort: SInt, get: func(v *view) *Term { return blen(u.get(v)) }})
		}
	}
}

func (t *srcTheory) Cands(l *loopRun) {
	add := func(name string, f func(v *view) *Term) *lcand {
		c := &lcand{name: name, term: f}
		l.cands = append(l.cands, c)
		return c
	}
	g := func(v *view, n string) *Term { return t.get(v.st, n) }
	for _, v := range l.vars {
		u := v
		switch u.sort {
		case SU:
			add(u.name+"=rest", func(v *view) *Term { return Eq(u.get(v), t.piece(g(v, "at"), t.N)) })
			add(u.name+"=rest or at the end", func(v *view) *Term {
				return Or(Eq(g(v, "at"), t.N), Eq(u.get(v), t.piece(g(v, "at"), t.N)))
			})
			add(u.name+"=piece", func(v *view) *Term {
				at, rcv := g(v, "at"), g(v, "rcv")
				return Or(And(Eq(at, rcv), Eq(u.get(v), t.Z)), Eq(u.get(v), t.piece(at, rcv)))
			})
			add(u.name+" not nil before the end", func(v *view) *Term { return Or(Ge(g(v, "at"), t.N), Ne(u.get(v), UNil)) })
			add(u.name+" not nil", func(v *view) *Term { return Ne(u.get(v), UNil) })
			add(u.name+" own", func(v *view) *Term { return t.own(v.st, u.get(v)) })
			add(u.name+"=empty", func(v *view) *Term { return Eq(u.get(v), t.Z) })
			add(u.name+"=err", func(v *view) *Term { return Eq(u.get(v), g(v, "err")) })
		case SInt:
			add(u.name+"=rest", func(v *view) *Term { return Eq(u.get(v), Sub(t.N, g(v, "at"))) })
			add(u.name+"<=N", func(v *view) *Term { return Le(u.get(v), t.N) })
			add(u.name+"=number received", func(v *view) *Term { return Eq(u.get(v), Sub(g(v, "rcv"), g(v, "at"))) })
			add(u.name+"=rcv", func(v *view) *Term { return Eq(u.get(v), g(v, "rcv")) })
		case SBool:
			add(u.name, func(v *view) *Term { return u.get(v) })
			add("not "+u.name, func(v *view) *Term { return Not(u.get(v)) })
			add(u.name+"=at the end", func(v *view) *Term { return Implies(u.get(v), Eq(g(v, "at"), t.N)) })
			add(u.name+"=>stopped", func(v *view) *Term { return Implies(u.get(v), Or(g(v, "ended"), g(v, "canceled"))) })
		}
	}
}

func verifySource(x *Exec, t *srcTheory) {
	st := t.newState(x)
	prog := x.prog
	drive := prog.Pkgs["verifdriver"].Func("Drive")
	set := prog.FuncByName("pipeline.Pipeline.Source")
	pt := prog.Pkgs["pipeline"].Type("Pipeline")
	iface := prog.Pkgs["pipeline"].Type("Source")
	if drive == nil || set == nil || pt == nil || iface == nil {
		panic(unsup("Pipeline.Source does not exist"))
	}
	var start []*State
	var src []Val
	if t.cfg.ctor == "" {
		start, src = []*State{st}, []Val{&OpaqueV{Name: "usersource"}}
	} else {
		fn := prog.FuncByName("pipeline." + t.cfg.ctor)
		if fn == nil {
			panic(unsup("function %s does not exist", t.cfg.ctor))
		}
		var args []Val
		switch t.cfg.kind {
		case "single":
			args = []Val{&OpaqueV{Name: "usersource"}}
		case "func":
			t.fsize = Fresh("size", SInt)
			args = []Val{tv(t.fsize), &OpaqueFn{Role: "srcfetch", Name: "fetch"}}
		default:
			args = []Val{&OpaqueV{Name: "reader"}}
		}
		for _, o := range x.runFn(st, fn, nil, args, nil) {
			if o.Kind != ORet {
				x.fail(o.St, t.tags("default"), "does-not-panic", t.cfg.ctor+" panics", fn.Pos())
				continue
			}
			start = append(start, o.St)
			src = append(src, &IfaceV{Typ: fn.Signature.Results().At(0).Type(), V: o.Ret[0]})
		}
		x.verified = append(x.verified, fn.String())
	}
	for i, st := range start {
		p := NewObj("cell", "pipeline", pt.Type())
		st.heap[p] = zeroVal(pt.Type())
		for _, o := range x.runFn(st, set, nil, []Val{&PtrV{Obj: p}, src[i]}, nil) {
			if o.Kind != ORet {
				x.fail(o.St, t.tags("default"), "does-not-panic", "Source panics", set.Pos())
				continue
			}
			s := pt.Type().Underlying().(*types.Struct)
			var v Val
			for k := 0; k < s.NumFields(); k++ {
				if types.Identical(s.Field(k).Type(), iface.Type()) {
					v = o.St.heap[p].(*StructV).F[k]
				}
			}
			iv, ok := v.(*IfaceV)
			if !ok {
				panic(unsup("the source of a pipeline: %T", v))
			}
			for _, d := range x.runFn(o.St, drive, nil, []Val{iv}, nil) {
				if d.Kind != ORet {
					x.fail(d.St, t.tags("default"), "does-not-panic", "a method of the source panics", set.Pos())
				}
			}
			for _, m := range []string{"Prepare", "Fetch", "Data", "Err"} {
				if f := prog.Prog.LookupMethod(iv.Typ, prog.Pkgs["pipeline"].Pkg, m); f != nil {
					x.verified = append(x.verified, f.String())
				}
			}
		}
	}
	x.verified = append(x.verified, set.String())
}

func pipeSrcUnits(p *Program) []*UnitDef {
	var ds []*UnitDef
	if p.Pkgs["verifdriver"] == nil {
		return nil
	}
	for _, c := range srcCfgs {
		t := &srcTheory{cfg: c}
		u := &Unit{Name: "pipeline." + c.name, Theory: t, intr: t.intr, noTerm: true, lean: true,
			Tags: map[string][]string{"default": {"C20"}, "err": {"C29"}, "block": {"C24"}, "size": {"C28"}}}
		ds = append(ds, &UnitDef{Name: u.Name, Tags: u.allTags(nil), Unit: u, Run: func(x *Exec) { verifySource(x, t) }})
	}
	return ds
}
