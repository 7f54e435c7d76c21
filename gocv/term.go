package main

import (
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Term is an SMT-LIB term. Terms are immutable; S is the SMT-LIB text.
type Term struct {
	Op   string
	Args []*Term
	Sort string
	S    string
	N    int64 // for integer constants
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SF    = "Flt"
	SStr  = "Str"
	SU    = "U"
)

func mk(op, sort string, args ...*Term) *Term {
	t := &Term{Op: op, Args: args, Sort: sort}
	if len(args) == 0 {
		t.S = op
		return t
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(op)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(a.S)
	}
	b.WriteByte(')')
	t.S = b.String()
	return t
}

var (
	TTrue  = mk("true", SBool)
	TFalse = mk("false", SBool)
	UNil   = mk("unil", SU)
)

func BoolT(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func IntT(n int64) *Term {
	t := &Term{Op: "#int", Sort: SInt, N: n}
	if n < 0 {
		t.S = "(- " + strconv.FormatUint(uint64(-n), 10) + ")"
	} else {
		t.S = strconv.FormatInt(n, 10)
	}
	return t
}

func (t *Term) isInt() bool { return t.Op == "#int" }

func Same(a, b *Term) bool { return a == b || a.S == b.S }

func Not(a *Term) *Term {
	switch {
	case Same(a, TTrue):
		return TFalse
	case Same(a, TFalse):
		return TTrue
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[string]bool{}
	for _, a := range as {
		if Same(a, TFalse) {
			return TFalse
		}
		if Same(a, TTrue) || seen[a.S] {
			continue
		}
		seen[a.S] = true
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[string]bool{}
	for _, a := range as {
		if Same(a, TTrue) {
			return TTrue
		}
		if Same(a, TFalse) || seen[a.S] {
			continue
		}
		seen[a.S] = true
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	return mk("or", SBool, out...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if Same(c, TTrue) || Same(a, b) {
		return a
	}
	if Same(c, TFalse) {
		return b
	}
	return mk("ite", a.Sort, c, a, b)
}

func Eq(a, b *Term) *Term {
	if Same(a, b) {
		return TTrue
	}
	if a.isInt() && b.isInt() {
		return BoolT(a.N == b.N)
	}
	if a.Sort == SBool {
		switch {
		case Same(a, TTrue):
			return b
		case Same(b, TTrue):
			return a
		case Same(a, TFalse):
			return Not(b)
		case Same(b, TFalse):
			return Not(a)
		}
	}
	if a.S > b.S {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// linear normal form of integer terms: sum of coef*atom + const
type lin struct {
	m map[string]int64
	t map[string]*Term
	c int64
}

func toLin(t *Term, coef int64, l *lin) {
	switch {
	case t.isInt():
		l.c += coef * t.N
	case t.Op == "+":
		for _, a := range t.Args {
			toLin(a, coef, l)
		}
	case t.Op == "-" && len(t.Args) == 2:
		toLin(t.Args[0], coef, l)
		toLin(t.Args[1], -coef, l)
	case t.Op == "*" && t.Args[0].isInt():
		toLin(t.Args[1], coef*t.Args[0].N, l)
	default:
		l.m[t.S] += coef
		l.t[t.S] = t
	}
}

func fromLin(l *lin) *Term {
	keys := make([]string, 0, len(l.m))
	for k, v := range l.m {
		if v != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var as []*Term
	for _, k := range keys {
		c := l.m[k]
		if c == 1 {
			as = append(as, l.t[k])
		} else {
			as = append(as, mk("*", SInt, IntT(c), l.t[k]))
		}
	}
	if l.c != 0 || len(as) == 0 {
		as = append(as, IntT(l.c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return mk("+", SInt, as...)
}

func newLin() *lin { return &lin{map[string]int64{}, map[string]*Term{}, 0} }

func Add(a, b *Term) *Term {
	l := newLin()
	toLin(a, 1, l)
	toLin(b, 1, l)
	return fromLin(l)
}

func Sub(a, b *Term) *Term {
	l := newLin()
	toLin(a, 1, l)
	toLin(b, -1, l)
	return fromLin(l)
}

func Mul(a, b *Term) *Term {
	if a.isInt() {
		l := newLin()
		toLin(b, a.N, l)
		return fromLin(l)
	}
	if b.isInt() {
		return Mul(b, a)
	}
	// constants are multiplied out
	for i := 0; i < 2; i++ {
		l := newLin()
		toLin(a, 1, l)
		if c := l.c; c != 0 && len(l.m) > 0 {
			l.c = 0
			return Add(Mul(fromLin(l), b), Mul(IntT(c), b))
		}
		a, b = b, a
	}
	if a.S > b.S {
		a, b = b, a
	}
	return mk("mul", SInt, a, b)
}

func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if d.isInt() {
		return BoolT(d.N <= 0)
	}
	return mk("<=", SBool, a, b)
}

func Lt(a, b *Term) *Term {
	d := Sub(a, b)
	if d.isInt() {
		return BoolT(d.N < 0)
	}
	return mk("<", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// Div and Rem are Go's truncated integer division.
func Div(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.N != 0 {
		return IntT(a.N / b.N)
	}
	if b.isInt() && b.N == 1 {
		return a
	}
	if b.isInt() && b.N > 0 {
		return Ite(Ge(a, IntT(0)), mk("div", SInt, a, b), Sub(IntT(0), mk("div", SInt, Sub(IntT(0), a), b)))
	}
	return mk("qdiv", SInt, a, b)
}

func Rem(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.N != 0 {
		return IntT(a.N % b.N)
	}
	if b.isInt() && b.N > 0 {
		return Ite(Ge(a, IntT(0)), mk("mod", SInt, a, b), Sub(IntT(0), mk("mod", SInt, Sub(IntT(0), a), b)))
	}
	return Sub(a, Mul(b, mk("qdiv", SInt, a, b)))
}

// Comm builds a commutative binary uninterpreted application.
func Comm(op, sort string, a, b *Term) *Term {
	if a.S > b.S {
		a, b = b, a
	}
	return mk(op, sort, a, b)
}

func UF(op, sort string, args ...*Term) *Term { return mk(op, sort, args...) }

func Select(a, i *Term, sort string) *Term { return mk("select", sort, a, i) }
func Store(a, i, v *Term) *Term            { return mk("store", a.Sort, a, i, v) }

// bound variables and quantifiers; body built by the caller with BV(name)
func BV(name string) *Term { return &Term{Op: "#bv", Sort: SInt, S: name} }

func Forall(vars []string, body *Term, patterns ...*Term) *Term {
	var b strings.Builder
	b.WriteString("(forall (")
	for _, v := range vars {
		b.WriteString("(" + v + " Int)")
	}
	b.WriteString(") ")
	if len(patterns) > 0 {
		b.WriteString("(! ")
	}
	b.WriteString(body.S)
	if len(patterns) > 0 {
		b.WriteString(" :pattern (")
		for i, p := range patterns {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(p.S)
		}
		b.WriteString("))")
	}
	b.WriteString(")")
	return &Term{Op: "forall", Args: []*Term{body}, Sort: SBool, S: b.String()}
}

// symbols

var (
	symMu  sync.Mutex
	symTab = map[string]string{} // name -> declaration
	symSeq = map[string]int{}
)

func sanitize(s string) string {
	r := []byte(s)
	for i, c := range r {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.') {
			r[i] = '_'
		}
	}
	return string(r)
}

// Fresh returns a new constant.
func Fresh(name, sort string) *Term {
	symMu.Lock()
	defer symMu.Unlock()
	name = sanitize(name)
	symSeq[name]++
	n := name + "!" + strconv.Itoa(symSeq[name])
	symTab[n] = "(declare-const " + n + " " + sort + ")"
	return mk(n, sort)
}

func DeclareFun(name string, args []string, ret string) {
	symMu.Lock()
	defer symMu.Unlock()
	if _, ok := symTab[name]; !ok {
		symTab[name] = "(declare-fun " + name + " (" + strings.Join(args, " ") + ") " + ret + ")"
	}
}

func Const(name, sort string) *Term {
	DeclareFun(name, nil, sort)
	return mk(name, sort)
}

func walk(t *Term, f func(*Term)) {
	f(t)
	for _, a := range t.Args {
		walk(a, f)
	}
}
