package forkjoin

import (
	"fmt"
	"strings"

	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/sequential"
	"github.com/exascience/pargo/speculative"
)

// fn describes one API function in a uniform way
type fn struct {
	name, pkg string
	list      bool
	min       int  // smallest number of functions
	signals   bool // callbacks can signal
	sigVal    bool // the boolean value that signals
	neutral   string
	run       func(e *env, o *outcome)
}

var fns []fn

func add(pkg, name string, list bool, min int, signals, sigVal bool, run func(e *env, o *outcome)) {
	fns = append(fns, fn{name: pkg + "." + name, pkg: pkg, list: list, min: min, signals: signals, sigVal: sigVal, run: run})
}

func (e *env) joinI(x, y interface{}) interface{} {
	xs, ok1 := e.decI(x).(string)
	ys, ok2 := e.decI(y).(string)
	if !ok1 || !ok2 {
		return fmt.Sprintf("<join(%v,%v)>", x, y)
	}
	return e.encI(xs + ys)
}
func (e *env) joinInt(x, y int) int           { return e.intern(e.name(x) + e.name(y)) }
func (e *env) joinFloat(x, y float64) float64 { return e.internF(e.nameF(x) + e.nameF(y)) }
func (e *env) joinString(x, y string) string  { return e.encS(e.decS(x) + e.decS(y)) }
func (o *outcome) setI(v interface{}) {
	s, ok := v.(string)
	o.text, o.textOK = s, true
	if !ok {
		o.text = fmt.Sprintf("<%v>", v)
	}
}
func (o *outcome) setS(v string)  { o.text, o.textOK = v, true }
func (o *outcome) setFlag(b bool) { o.flag, o.flagOK = b, true }
func (e *env) listI() (r []func() interface{}) {
	for i := 0; i < e.high; i++ {
		i := i
		r = append(r, func() interface{} { s, _ := e.invoke(i, i+1); return e.encI(s) })
	}
	return
}
func (e *env) listInt() (r []func() int) {
	for i := 0; i < e.high; i++ {
		i := i
		r = append(r, func() int { s, _ := e.invoke(i, i+1); return e.intern(s) })
	}
	return
}
func (e *env) listFloat() (r []func() float64) {
	for i := 0; i < e.high; i++ {
		i := i
		r = append(r, func() float64 { s, _ := e.invoke(i, i+1); return e.internF(s) })
	}
	return
}
func (e *env) listString() (r []func() string) {
	for i := 0; i < e.high; i++ {
		i := i
		r = append(r, func() string { s, _ := e.invoke(i, i+1); return e.encS(s) })
	}
	return
}
func (e *env) listThunk() (r []func()) {
	for i := 0; i < e.high; i++ {
		i := i
		r = append(r, func() { e.invoke(i, i+1) })
	}
	return
}
func (e *env) listBool(sig bool) (r []func() bool) {
	for i := 0; i < e.high; i++ {
		i := i
		r = append(r, func() bool { _, f := e.invoke(i, i+1); return f == sig })
	}
	return
}
func weight(lo, hi int) int { // injective enough, additive over disjoint intervals
	w := 0
	for i := lo; i < hi && i < lo+100000; i++ {
		w += 1 + (i*i+7*i)%1009 + (i+40)*3
	}
	return w
}
func factor(lo, hi int) int { // small multiplicative weight
	w := 1
	for i := lo; i < hi && i < lo+100000; i++ {
		w = w * (3 + 2*((i*5%7+7)%7)) % (1 << 31)
	}
	return w
}
func (e *env) listNum(f func(lo, hi int) int) (r []func() int) {
	for i := 0; i < e.high; i++ {
		i := i
		r = append(r, func() int { e.invoke(i, i+1); return f(i, i+1) })
	}
	return
}
func (e *env) listNumF(f func(lo, hi int) int) (r []func() float64) {
	for _, g := range e.listNum(f) {
		g := g
		r = append(r, func() float64 { return float64(g()) })
	}
	return
}
func (o *outcome) setNum(kind byte, v float64) { o.num, o.numKind = v, kind }

// small factors keep products of float64 exact: powers of two
func pow2(lo, hi int) int {
	w := 1
	for i := lo; i < hi && i < lo+100000; i++ {
		if (i*i+i*3+90)%5 == 0 {
			w *= 2
			if w >= 1<<40 {
				return w
			}
		}
	}
	return w
}

func init() {
	type sp struct {
		pkg        string
		reduce     func(func(x, y interface{}) interface{}, func() interface{}, ...func() interface{}) interface{}
		reduceF    func(func(x, y float64) float64, func() float64, ...func() float64) float64
		reduceI    func(func(x, y int) int, func() int, ...func() int) int
		reduceS    func(func(x, y string) string, func() string, ...func() string) string
		fsum, fpro func(...func() float64) float64
		isum, ipro func(...func() int) int
		ssum       func(...func() string) string
		do         func(...func())
		and, or    func(...func() bool) bool
		rng        func(low, high, n int, f func(low, high int))
		rand, ror  func(low, high, n int, f func(low, high int) bool) bool
		rred       func(low, high, n int, f func(low, high int) interface{}, j func(x, y interface{}) interface{}) interface{}
		rredI      func(low, high, n int, f func(low, high int) int, j func(x, y int) int) int
		rredF      func(low, high, n int, f func(low, high int) float64, j func(x, y float64) float64) float64
		rredS      func(low, high, n int, f func(low, high int) string, j func(x, y string) string) string
		risu, ripr func(low, high, n int, f func(low, high int) int) int
		rfsu, rfpr func(low, high, n int, f func(low, high int) float64) float64
		rssu       func(low, high, n int, f func(low, high int) string) string
	}
	for _, p := range []sp{
		{"parallel", parallel.Reduce, parallel.ReduceFloat64, parallel.ReduceInt, parallel.ReduceString, parallel.ReduceFloat64Sum, parallel.ReduceFloat64Product,
			parallel.ReduceIntSum, parallel.ReduceIntProduct, parallel.ReduceStringSum, parallel.Do, parallel.And, parallel.Or, parallel.Range, parallel.RangeAnd, parallel.RangeOr,
			parallel.RangeReduce, parallel.RangeReduceInt, parallel.RangeReduceFloat64, parallel.RangeReduceString, parallel.RangeReduceIntSum, parallel.RangeReduceIntProduct,
			parallel.RangeReduceFloat64Sum, parallel.RangeReduceFloat64Product, parallel.RangeReduceStringSum},
		{"sequential", sequential.Reduce, sequential.ReduceFloat64, sequential.ReduceInt, sequential.ReduceString, sequential.ReduceFloat64Sum, sequential.ReduceFloat64Product,
			sequential.ReduceIntSum, sequential.ReduceIntProduct, sequential.ReduceStringSum, sequential.Do, sequential.And, sequential.Or, sequential.Range, sequential.RangeAnd, sequential.RangeOr,
			sequential.RangeReduce, sequential.RangeReduceInt, sequential.RangeReduceFloat64, sequential.RangeReduceString, sequential.RangeReduceIntSum, sequential.RangeReduceIntProduct,
			sequential.RangeReduceFloat64Sum, sequential.RangeReduceFloat64Product, sequential.RangeReduceStringSum},
	} {
		p := p
		seqSig := p.pkg == "sequential"
		add(p.pkg, "Reduce", true, 1, false, false, func(e *env, o *outcome) { l := e.listI(); o.setI(e.decI(p.reduce(e.joinI, l[0], l[1:]...))) })
		add(p.pkg, "ReduceFloat64", true, 1, false, false, func(e *env, o *outcome) {
			l := e.listFloat()
			o.setS(e.nameF(p.reduceF(e.joinFloat, l[0], l[1:]...)))
		})
		add(p.pkg, "ReduceInt", true, 1, false, false, func(e *env, o *outcome) { l := e.listInt(); o.setS(e.name(p.reduceI(e.joinInt, l[0], l[1:]...))) })
		add(p.pkg, "ReduceString", true, 1, false, false, func(e *env, o *outcome) { l := e.listString(); o.setS(e.decS(p.reduceS(e.joinString, l[0], l[1:]...))) })
		add(p.pkg, "ReduceFloat64Sum", true, 0, false, false, func(e *env, o *outcome) { o.setNum('+', p.fsum(e.listNumF(weight)...)) })
		add(p.pkg, "ReduceFloat64Product", true, 0, false, false, func(e *env, o *outcome) { o.setNum('2', p.fpro(e.listNumF(pow2)...)) })
		add(p.pkg, "ReduceIntSum", true, 0, false, false, func(e *env, o *outcome) { o.setNum('+', float64(p.isum(e.listNum(weight)...))) })
		add(p.pkg, "ReduceIntProduct", true, 0, false, false, func(e *env, o *outcome) { o.setNum('*', float64(uint32(p.ipro(e.listNum(factor)...))%(1<<31))) })
		add(p.pkg, "ReduceStringSum", true, 0, false, false, func(e *env, o *outcome) { o.setS(e.decS(p.ssum(e.listString()...))) })
		add(p.pkg, "Do", true, 0, false, false, func(e *env, o *outcome) { p.do(e.listThunk()...) })
		add(p.pkg, "And", true, 0, true, false, func(e *env, o *outcome) { o.setFlag(!p.and(e.listBool(false)...)) })
		add(p.pkg, "Or", true, 0, true, true, func(e *env, o *outcome) { o.setFlag(p.or(e.listBool(true)...)) })
		_ = seqSig
		leafI := func(e *env) func(lo, hi int) interface{} {
			return func(lo, hi int) interface{} { s, _ := e.invoke(lo, hi); return e.encI(s) }
		}
		leafInt := func(e *env) func(lo, hi int) int {
			return func(lo, hi int) int { s, _ := e.invoke(lo, hi); return e.intern(s) }
		}
		leafF := func(e *env) func(lo, hi int) float64 {
			return func(lo, hi int) float64 { s, _ := e.invoke(lo, hi); return e.internF(s) }
		}
		leafS := func(e *env) func(lo, hi int) string {
			return func(lo, hi int) string { s, _ := e.invoke(lo, hi); return e.encS(s) }
		}
		leafB := func(e *env, sig bool) func(lo, hi int) bool {
			return func(lo, hi int) bool { _, f := e.invoke(lo, hi); return f == sig }
		}
		num := func(e *env, f func(lo, hi int) int) func(lo, hi int) int {
			return func(lo, hi int) int { e.invoke(lo, hi); return f(lo, hi) }
		}
		numF := func(e *env, f func(lo, hi int) int) func(lo, hi int) float64 {
			return func(lo, hi int) float64 { e.invoke(lo, hi); return float64(f(lo, hi)) }
		}
		add(p.pkg, "Range", false, 0, false, false, func(e *env, o *outcome) { p.rng(e.low, e.high, e.n, func(lo, hi int) { e.invoke(lo, hi) }) })
		add(p.pkg, "RangeAnd", false, 0, true, false, func(e *env, o *outcome) { o.setFlag(!p.rand(e.low, e.high, e.n, leafB(e, false))) })
		add(p.pkg, "RangeOr", false, 0, true, true, func(e *env, o *outcome) { o.setFlag(p.ror(e.low, e.high, e.n, leafB(e, true))) })
		add(p.pkg, "RangeReduce", false, 0, false, false, func(e *env, o *outcome) { o.setI(e.decI(p.rred(e.low, e.high, e.n, leafI(e), e.joinI))) })
		add(p.pkg, "RangeReduceInt", false, 0, false, false, func(e *env, o *outcome) { o.setS(e.name(p.rredI(e.low, e.high, e.n, leafInt(e), e.joinInt))) })
		add(p.pkg, "RangeReduceFloat64", false, 0, false, false, func(e *env, o *outcome) { o.setS(e.nameF(p.rredF(e.low, e.high, e.n, leafF(e), e.joinFloat))) })
		add(p.pkg, "RangeReduceString", false, 0, false, false, func(e *env, o *outcome) { o.setS(e.decS(p.rredS(e.low, e.high, e.n, leafS(e), e.joinString))) })
		add(p.pkg, "RangeReduceIntSum", false, 0, false, false, func(e *env, o *outcome) { o.setNum('+', float64(p.risu(e.low, e.high, e.n, num(e, weight)))) })
		add(p.pkg, "RangeReduceIntProduct", false, 0, false, false, func(e *env, o *outcome) {
			o.setNum('*', float64(uint32(p.ripr(e.low, e.high, e.n, num(e, factor)))%(1<<31)))
		})
		add(p.pkg, "RangeReduceFloat64Sum", false, 0, false, false, func(e *env, o *outcome) { o.setNum('+', p.rfsu(e.low, e.high, e.n, numF(e, weight))) })
		add(p.pkg, "RangeReduceFloat64Product", false, 0, false, false, func(e *env, o *outcome) { o.setNum('2', p.rfpr(e.low, e.high, e.n, numF(e, pow2))) })
		add(p.pkg, "RangeReduceStringSum", false, 0, false, false, func(e *env, o *outcome) { o.setS(e.decS(p.rssu(e.low, e.high, e.n, leafS(e)))) })
	}
	S := "speculative"
	add(S, "Reduce", true, 1, true, true, func(e *env, o *outcome) {
		var l []func() (interface{}, bool)
		for i := 0; i < e.high; i++ {
			i := i
			l = append(l, func() (interface{}, bool) { s, f := e.invoke(i, i+1); return e.encI(s), f })
		}
		v, f := speculative.Reduce(func(x, y interface{}) (interface{}, bool) { return e.joinI(x, y), e.joinFlag }, l[0], l[1:]...)
		o.setI(e.decI(v))
		o.setFlag(f)
	})
	add(S, "ReduceFloat64", true, 1, true, true, func(e *env, o *outcome) {
		var l []func() (float64, bool)
		for i := 0; i < e.high; i++ {
			i := i
			l = append(l, func() (float64, bool) { s, f := e.invoke(i, i+1); return e.internF(s), f })
		}
		v, f := speculative.ReduceFloat64(func(x, y float64) (float64, bool) { return e.joinFloat(x, y), e.joinFlag }, l[0], l[1:]...)
		o.setS(e.nameF(v))
		o.setFlag(f)
	})
	add(S, "ReduceInt", true, 1, true, true, func(e *env, o *outcome) {
		var l []func() (int, bool)
		for i := 0; i < e.high; i++ {
			i := i
			l = append(l, func() (int, bool) { s, f := e.invoke(i, i+1); return e.intern(s), f })
		}
		v, f := speculative.ReduceInt(func(x, y int) (int, bool) { return e.joinInt(x, y), e.joinFlag }, l[0], l[1:]...)
		o.setS(e.name(v))
		o.setFlag(f)
	})
	add(S, "ReduceString", true, 1, true, true, func(e *env, o *outcome) {
		var l []func() (string, bool)
		for i := 0; i < e.high; i++ {
			i := i
			l = append(l, func() (string, bool) { s, f := e.invoke(i, i+1); return e.encS(s), f })
		}
		v, f := speculative.ReduceString(func(x, y string) (string, bool) { return e.joinString(x, y), e.joinFlag }, l[0], l[1:]...)
		o.setS(e.decS(v))
		o.setFlag(f)
	})
	add(S, "Do", true, 0, true, true, func(e *env, o *outcome) { o.setFlag(speculative.Do(e.listBool(true)...)) })
	add(S, "And", true, 0, true, false, func(e *env, o *outcome) { o.setFlag(!speculative.And(e.listBool(false)...)) })
	add(S, "Or", true, 0, true, true, func(e *env, o *outcome) { o.setFlag(speculative.Or(e.listBool(true)...)) })
	leafB := func(e *env, sig bool) func(lo, hi int) bool {
		return func(lo, hi int) bool { _, f := e.invoke(lo, hi); return f == sig }
	}
	add(S, "Range", false, 0, true, true, func(e *env, o *outcome) { o.setFlag(speculative.Range(e.low, e.high, e.n, leafB(e, true))) })
	add(S, "RangeAnd", false, 0, true, false, func(e *env, o *outcome) { o.setFlag(!speculative.RangeAnd(e.low, e.high, e.n, leafB(e, false))) })
	add(S, "RangeOr", false, 0, true, true, func(e *env, o *outcome) { o.setFlag(speculative.RangeOr(e.low, e.high, e.n, leafB(e, true))) })
	add(S, "RangeReduce", false, 0, true, true, func(e *env, o *outcome) {
		v, f := speculative.RangeReduce(e.low, e.high, e.n, func(lo, hi int) (interface{}, bool) { s, f := e.invoke(lo, hi); return e.encI(s), f }, func(x, y interface{}) (interface{}, bool) { return e.joinI(x, y), e.joinFlag })
		o.setI(e.decI(v))
		o.setFlag(f)
	})
	add(S, "RangeReduceInt", false, 0, true, true, func(e *env, o *outcome) {
		v, f := speculative.RangeReduceInt(e.low, e.high, e.n, func(lo, hi int) (int, bool) { s, f := e.invoke(lo, hi); return e.intern(s), f }, func(x, y int) (int, bool) { return e.joinInt(x, y), e.joinFlag })
		o.setS(e.name(v))
		o.setFlag(f)
	})
	add(S, "RangeReduceFloat64", false, 0, true, true, func(e *env, o *outcome) {
		v, f := speculative.RangeReduceFloat64(e.low, e.high, e.n, func(lo, hi int) (float64, bool) { s, f := e.invoke(lo, hi); return e.internF(s), f }, func(x, y float64) (float64, bool) { return e.joinFloat(x, y), e.joinFlag })
		o.setS(e.nameF(v))
		o.setFlag(f)
	})
	add(S, "RangeReduceString", false, 0, true, true, func(e *env, o *outcome) {
		v, f := speculative.RangeReduceString(e.low, e.high, e.n, func(lo, hi int) (string, bool) { s, f := e.invoke(lo, hi); return e.encS(s), f }, func(x, y string) (string, bool) { return e.joinString(x, y), e.joinFlag })
		o.setS(e.decS(v))
		o.setFlag(f)
	})
}

func isReduce(f *fn) bool { return strings.Contains(f.name, "Reduce") }
