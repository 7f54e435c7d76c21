package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.
type Val interface{}

type (
	// TermV is a scalar (int, bool, float64, string) or an opaque interface value.
	TermV struct{ T *Term }
	// IfaceV is a non-nil interface value of known dynamic type.
	IfaceV struct {
		Typ types.Type
		V   Val
		id  *Term
	}
	NilV struct{} // nil pointer, slice, map, func, chan
	PtrV struct {
		Obj  *Obj
		Path []Sel
	}
	SliceV struct {
		Obj      *Obj
		Off, Len *Term
	}
	FnV struct {
		Fn    *ssa.Function
		Binds []Val
	}
	// OpaqueFn is a function value supplied by the user of the library.
	OpaqueFn struct {
		Role string // "leaf", "join", "elem", or a role name given by the contract
		Name string
		Pos  *Term // position of an element of a function list
		Sig  *types.Signature
	}
	StructV struct{ F []Val }
	ArrayV  struct{ E []Val }
	TupleV  struct{ E []Val }
	WGV     struct{ Adds, Dones int }
	MutexV  struct{} // sync.Mutex / RWMutex contents (state is ghost)
	// OpaqueV is a value about which nothing is known except its identity.
	OpaqueV struct {
		Name string
		Typ  types.Type
	}
	// BuiltinV is a builtin function or a native method value handled by an intrinsic
	BoundV struct {
		Name string
		Recv Val
		Sig  *types.Signature
	}
	IterV struct {
		Map Val
		id  int64
	}
	OkTuple struct{}
)

// Sel selects a field (Idx == nil) or an element.
type Sel struct {
	Field int
	Idx   *Term
}

// Obj is a memory object.
type Obj struct {
	ID    int64
	Name  string
	Kind  string // "cell", "leaves", "splits", "data", ...
	Typ   types.Type
	Len   *Term
	Elem  func(i *Term) Val // for symbolic element generators
	Epoch int64
	Task  int64
	Extra interface{}
}

var objSeq int64

func NewObj(kind, name string, t types.Type) *Obj {
	return &Obj{ID: atomic.AddInt64(&objSeq, 1), Kind: kind, Name: name, Typ: t}
}

func (o *Obj) String() string { return fmt.Sprintf("%s#%d", o.Name, o.ID) }

func tv(t *Term) Val { return &TermV{t} }

// sortOf maps a Go type to an SMT sort ("" when it is not a scalar).
func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsFloat != 0:
			return SF
		case u.Info()&types.IsString != 0:
			return SStr
		}
	case *types.Interface:
		return SU
	}
	return ""
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch sortOf(t) {
	case SInt:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return tv(IntT(i))
		}
		if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return tv(&Term{Op: "#big", Sort: SInt, S: fmt.Sprint(u)})
		}
	case SBool:
		return tv(BoolT(constant.BoolVal(c.Value)))
	case SStr:
		return tv(strConst(constant.StringVal(c.Value)))
	case SF:
		f, _ := constant.Float64Val(c.Value)
		return tv(fltConst(f))
	}
	panic(unsup("constant of type %s", t))
}

func strConst(s string) *Term {
	if s == "" {
		return Const("str.empty", SStr)
	}
	t := Const("str.lit."+sanitize(fmt.Sprintf("%x", s)), SStr)
	symMu.Lock()
	litTab[t.S] = s
	symMu.Unlock()
	return t
}

func fltConst(f float64) *Term {
	return Const(sanitize(fmt.Sprintf("flt.c%v", f)), SF)
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok2 := t.(*types.Alias); ok2 {
			return isNamed(types.Unalias(a), pkg, name)
		}
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func zeroVal(t types.Type) Val {
	switch {
	case isNamed(t, "sync", "WaitGroup"):
		return &WGV{}
	case isNamed(t, "sync", "Mutex"), isNamed(t, "sync", "RWMutex"):
		return &MutexV{}
	case isNamed(t, "reflect", "Value"):
		return &RVal{K: "val", T: UNil}
	case isPipeFn(t):
		return tv(UNil)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SInt:
			return tv(IntT(0))
		case SBool:
			return tv(TFalse)
		case SStr:
			return tv(strConst(""))
		case SF:
			return tv(fltConst(0))
		}
		if u.Kind() == types.UntypedNil {
			return &NilV{}
		}
	case *types.Interface:
		return tv(UNil)
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return &NilV{}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 64 {
			panic(unsup("large array"))
		}
		a := &ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, zeroVal(u.Elem()))
		}
		return a
	case *types.Tuple:
		tt := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tt.E = append(tt.E, zeroVal(u.At(i).Type()))
		}
		return tt
	}
	panic(unsup("zero value of type %s", t))
}

// freshVal makes an arbitrary scalar value of type t.
func freshVal(name string, t types.Type) Val {
	if s := sortOf(t); s != "" {
		return tv(Fresh(name, s))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, freshVal(name, u.Field(i).Type()))
		}
		return s
	case *types.Tuple:
		tt := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tt.E = append(tt.E, freshVal(name, u.At(i).Type()))
		}
		return tt
	}
	return &OpaqueV{Name: name, Typ: t}
}

// sameVal reports whether two values are certainly identical.
func sameVal(a, b Val) bool {
	if isNilConst(a) || isNilConst(b) {
		return isNilConst(a) && isNilConst(b)
	}
	switch x := a.(type) {
	case *TermV:
		y, ok := b.(*TermV)
		return ok && Same(x.T, y.T)
	case *NilV:
		_, ok := b.(*NilV)
		return ok
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			p, q := x.Path[i], y.Path[i]
			if (p.Idx == nil) != (q.Idx == nil) || p.Field != q.Field {
				return false
			}
			if p.Idx != nil && !Same(p.Idx, q.Idx) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.Obj == y.Obj && Same(x.Off, y.Off) && Same(x.Len, y.Len)
	case *FnV:
		y, ok := b.(*FnV)
		if !ok || x.Fn != y.Fn || len(x.Binds) != len(y.Binds) {
			return false
		}
		for i := range x.Binds {
			if !sameVal(x.Binds[i], y.Binds[i]) {
				return false
			}
		}
		return true
	case *OpaqueFn:
		y, ok := b.(*OpaqueFn)
		if !ok || x.Role != y.Role || x.Name != y.Name {
			return false
		}
		return (x.Pos == nil) == (y.Pos == nil) && (x.Pos == nil || Same(x.Pos, y.Pos))
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && (x == y || types.Identical(x.Typ, y.Typ) && sameVal(x.V, y.V))
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *BoundV:
		y, ok := b.(*BoundV)
		return ok && x.Name == y.Name && sameVal(x.Recv, y.Recv)
	case *RVal:
		y, ok := b.(*RVal)
		return ok && x.K == y.K && (x.T == nil) == (y.T == nil) && (x.T == nil || Same(x.T, y.T))
	case *WGV:
		y, ok := b.(*WGV)
		return ok && *x == *y
	case *MutexV:
		_, ok := b.(*MutexV)
		return ok
	}
	return a == b
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func unsup(f string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(f, a...)} }
