package forkjoin

import (
	"errors"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"testing"
)

func seqFn(f *fn) bool { return f.pkg == "sequential" }
func parFn(f *fn) bool { return f.pkg == "parallel" }
func speFn(f *fn) bool { return f.pkg == "speculative" }
func rngFn(f *fn) bool { return !f.list }

func batches(s *scenario) int {
	size := s.high - s.low
	n := s.n
	if n == 0 {
		n = 2 * runtime.GOMAXPROCS(0)
	}
	if n > size {
		n = size
	}
	if size == 0 {
		n = 1
	}
	return n
}

func sorted(evs []event) []event {
	r := append([]event{}, evs...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].lo < r[j].lo })
	return r
}

func show(evs []event) string {
	var b strings.Builder
	for i, e := range evs {
		if i > 60 {
			return b.String() + "..."
		}
		fmt.Fprintf(&b, " [%d,%d)", e.lo, e.hi)
	}
	return b.String()
}

// structure: disjointness, bounds, coverage (unless cut short), number of parts
func structure(s *scenario, o *outcome, cover bool) string {
	if o.hung {
		return "the call did not return"
	}
	evs := sorted(o.events)
	if s.low == s.high && !s.fn.list {
		if len(evs) > 1 || (len(evs) == 1 && (evs[0].lo != s.low || evs[0].hi != s.high)) || (cover && len(evs) != 1) {
			return fmt.Sprintf("an empty range must lead to one invocation with (%d, %d); invocations:%s", s.low, s.high, show(evs))
		}
		return ""
	}
	pos := s.low
	for _, e := range evs {
		if e.lo >= e.hi || e.lo < s.low || e.hi > s.high {
			return fmt.Sprintf("invocation with [%d,%d); all:%s", e.lo, e.hi, show(evs))
		}
		if e.lo < pos {
			return fmt.Sprintf("index %d is handed out twice:%s", e.lo, show(evs))
		}
		if e.lo > pos && cover {
			return fmt.Sprintf("index %d is never handed out:%s", pos, show(evs))
		}
		pos = e.hi
	}
	if cover && pos != s.high {
		return fmt.Sprintf("index %d is never handed out:%s", pos, show(evs))
	}
	if !s.fn.list && len(evs) > batches(s) {
		return fmt.Sprintf("%d subranges for %d batches:%s", len(evs), batches(s), show(evs))
	}
	if size := s.high - s.low; !s.fn.list && cover && size > 0 && uint64(size) <= 1<<62 && 2*len(evs) < batches(s)+1 {
		return fmt.Sprintf("only %d subranges for %d batches:%s", len(evs), batches(s), show(evs))
	}
	return ""
}

func cut(s *scenario, o *outcome) bool { // may the call legitimately leave callbacks out?
	if o.panicked {
		return true
	}
	if s.fn.pkg == "speculative" {
		return o.flag || s.joinFlag
	}
	return s.fn.pkg == "sequential" && s.fn.list && s.fn.signals && o.flag
}

func mixed(g *gen, s *scenario, yield func(*scenario)) {
	cp := func() *scenario { c := *s; c.acts = map[int]act{}; return &c }
	yield(cp())
	if s.fn.signals {
		c := cp()
		g.sprinkle(c, flagged, 0.1+0.5*g.Float64()*g.Float64())
		yield(c)
	}
	c := cp()
	g.sprinkle(c, slow, 0.2*g.Float64())
	yield(c)
}

func signal1(g *gen, s *scenario, yield func(*scenario)) { // one signalling callback at every position
	if !s.fn.signals {
		return
	}
	if s.high-s.low <= 8 {
		for i := s.low; i < s.high; i++ {
			c := *s
			c.acts = map[int]act{i: flagged}
			yield(&c)
		}
	}
}

// extreme: the same number of indices at the ends of the integers, and very large ranges
func extreme(g *gen, s *scenario, yield func(*scenario)) {
	size := s.high - s.low
	at := func(low, high int) {
		c := *s
		c.acts = map[int]act{}
		c.low, c.high = low, high
		yield(&c)
	}
	if g.Intn(3) > 0 {
		return
	}
	if s.n > 0 && s.n < 1000 && g.Intn(2) == 0 {
		size = s.n + g.Intn(s.n+1)
	}
	at(math.MaxInt-size, math.MaxInt)
	if g.Intn(3) == 0 {
		at(math.MinInt, math.MinInt+size)
	}
	if size > 4 && s.n < 40 && g.Intn(9) == 0 {
		at(0, math.MaxInt-g.Intn(3))
		at(math.MinInt, -1-g.Intn(3))
		at(-1<<62, 1<<62-1-g.Intn(3))
		at(math.MaxInt/3-g.Intn(1000), math.MaxInt)
		at(-g.Intn(1000), math.MaxInt/2)
	}
}

func TestVerif_C01(t *testing.T) {
	explore(t, rngFn, func(g *gen, s *scenario, yield func(*scenario)) {
		mixed(g, s, yield)
		extreme(g, s, yield)
	}, func(s *scenario, o *outcome) string {
		if o.panicked {
			return fmt.Sprintf("unexpected panic: %v", o.pvalue)
		}
		return structure(s, o, !cut(s, o))
	})
}

func TestVerif_C02(t *testing.T) {
	explore(t, func(f *fn) bool { return f.list }, func(g *gen, s *scenario, yield func(*scenario)) {
		mixed(g, s, yield)
		signal1(g, s, yield)
	}, func(s *scenario, o *outcome) string {
		if o.panicked {
			return fmt.Sprintf("unexpected panic: %v", o.pvalue)
		}
		return structure(s, o, !cut(s, o))
	})
}

func TestVerif_C03(t *testing.T) {
	explore(t, func(f *fn) bool { return !seqFn(f) }, func(g *gen, s *scenario, yield func(*scenario)) {
		c := *s
		c.acts = map[int]act{}
		yield(&c)
		for k := 0; k < 2; k++ {
			c := *s
			c.acts = map[int]act{}
			g.sprinkle(&c, slow, 0.5*g.Float64())
			if s.high-s.low > 0 && g.Intn(2) == 0 {
				c.acts[s.low+g.Intn(s.high-s.low)] = slow
			}
			yield(&c)
		}
		if parFn(s.fn) && s.fn.signals {
			c := *s
			c.acts = map[int]act{}
			g.sprinkle(&c, slow, 0.3)
			g.sprinkle(&c, flagged, 0.3)
			yield(&c)
		}
	}, func(s *scenario, o *outcome) string {
		if o.hung {
			return "the call did not return although all callbacks terminated"
		}
		if o.panicked {
			return fmt.Sprintf("unexpected panic: %v", o.pvalue)
		}
		if speFn(s.fn) && cut(s, o) {
			return ""
		}
		for _, e := range o.events {
			if !e.ended {
				return fmt.Sprintf("the invocation for [%d,%d) was still running when the call returned", e.lo, e.hi)
			}
		}
		if o.after > 0 {
			return fmt.Sprintf("%d callback invocations started after the call had returned", o.after)
		}
		return structure(s, o, false)
	})
}

func expected(s *scenario, o *outcome, evs []event) string {
	switch o.numKind {
	case '+':
		w := 0.0
		for _, e := range evs {
			w += float64(weight(e.lo, e.hi))
		}
		if o.num != w {
			return fmt.Sprintf("result %v, expected the sum %v", o.num, w)
		}
	case '*':
		w := 1
		for _, e := range evs {
			w = w * factor(e.lo, e.hi) % (1 << 31)
		}
		if o.num != float64(w) {
			return fmt.Sprintf("result %v (mod 2^31), expected the product %v", o.num, w)
		}
	case '2':
		w := 1.0
		for _, e := range evs {
			w *= float64(pow2(e.lo, e.hi))
		}
		if o.num != w && !math.IsInf(w, 0) {
			return fmt.Sprintf("result %v, expected the product %v", o.num, w)
		}
	}
	if o.textOK {
		w := ""
		for _, e := range evs {
			w += text(e.lo, e.hi)
		}
		if o.text != w {
			return fmt.Sprintf("result %.300q, expected the in-order combination %.300q", o.text, w)
		}
	} else if o.text != "" {
		return "result " + o.text
	}
	return ""
}

func TestVerif_C04(t *testing.T) {
	explore(t, func(f *fn) bool { return !speFn(f) && f.name != f.pkg+".Do" && f.name != f.pkg+".Range" }, func(g *gen, s *scenario, yield func(*scenario)) {
		mixed(g, s, yield)
		signal1(g, s, yield)
	}, func(s *scenario, o *outcome) string {
		if o.hung {
			return "the call did not return"
		}
		if o.panicked {
			return fmt.Sprintf("unexpected panic: %v", o.pvalue)
		}
		if o.flagOK {
			w := false
			for _, a := range s.acts {
				w = w || a == flagged
			}
			if o.flag != w {
				return fmt.Sprintf("result %v, expected %v", o.flag == s.fn.sigVal, w == s.fn.sigVal)
			}
			return ""
		}
		if m := structure(s, o, true); m != "" {
			return m
		}
		return expected(s, o, sorted(o.events))
	})
}

func panics(g *gen, s *scenario, yield func(*scenario)) {
	if s.high == s.low {
		return
	}
	cp := func() *scenario { c := *s; c.acts = map[int]act{}; return &c }
	if s.high-s.low <= 8 {
		for i := s.low; i < s.high; i++ {
			c := cp()
			c.acts[i] = boom
			yield(c)
			if i > s.low { // a slow left-most panic, a fast later one
				c := cp()
				c.acts[i] = boom
				c.acts[s.low+g.Intn(i-s.low)] = slow
				yield(c)
			}
			if s.fn.signals {
				c := cp()
				g.sprinkle(c, flagged, 0.3)
				c.acts[i] = boom
				yield(c)
			}
		}
	}
	c := cp()
	g.sprinkle(c, slow, 0.3*g.Float64())
	if s.fn.signals && g.Intn(2) == 0 {
		g.sprinkle(c, flagged, 0.2)
	}
	g.sprinkle(c, boom, 0.1+0.4*g.Float64()*g.Float64())
	c.acts[s.low+g.Intn(s.high-s.low)] = boom
	yield(c)
	c = cp()
	c.acts[s.low+g.Intn(s.high-s.low)] = boom
	yield(c)
}

func partOf(evs []event, i int) (event, bool) {
	for _, e := range evs {
		if e.lo <= i && i < e.hi {
			return e, true
		}
	}
	return event{}, false
}

func checkPanic(s *scenario, o *outcome) string {
	if o.hung {
		return "the call did not return although all callbacks terminated"
	}
	evs := sorted(o.events)
	// the left-most index that panics, the left-most one that signals
	p, f := math.MaxInt32, math.MaxInt32
	for i := s.low; i < s.high; i++ {
		if s.acts[i] == boom && p == math.MaxInt32 {
			p = i
		}
		if s.acts[i] == flagged && f == math.MaxInt32 {
			f = i
		}
	}
	if p == math.MaxInt32 {
		return ""
	}
	mayDecide := speFn(s.fn) || (seqFn(s.fn) && s.fn.list && s.fn.signals)
	if !o.panicked {
		if mayDecide {
			// the call may only return if the left-most signalling batch is left of the panicking one
			if f < p {
				pe, ok := partOf(evs, f)
				if ok && pe.lo <= f && f < pe.hi && p >= pe.hi || !ok {
					return ""
				}
			}
		}
		return fmt.Sprintf("the call returned normally although the callback for index %d panicked", p)
	}
	txt := fmt.Sprint(o.pvalue)
	if mayDecide && f < p {
		if pe, ok := partOf(evs, f); ok && p >= pe.hi {
			return fmt.Sprintf("the call panicked with %.100q although the callback for index %d had decided it", txt, f)
		}
	}
	if !strings.Contains(txt, fmt.Sprintf("panic-at-%d.", p)) {
		return fmt.Sprintf("the left-most panic is the one for index %d, but the call panicked with %.200q", p, txt)
	}
	// everything to the left must have completed
	for _, e := range evs {
		if e.hi <= p && (!e.ended || e.panicked) {
			return fmt.Sprintf("the invocation for [%d,%d) left of the panicking index %d had not completed when the call panicked", e.lo, e.hi, p)
		}
	}
	pos := s.low
	for _, e := range evs {
		if e.lo > pos && pos < p {
			return fmt.Sprintf("index %d left of the panicking index %d was never processed", pos, p)
		}
		if e.hi > pos {
			pos = e.hi
		}
	}
	return ""
}

func TestVerif_C05(t *testing.T) {
	explore(t, func(f *fn) bool { return true }, panics, checkPanic)
}

func TestVerif_C06(t *testing.T) {
	explore(t, speFn, func(g *gen, s *scenario, yield func(*scenario)) {
		mixed(g, s, yield)
		signal1(g, s, yield)
		if s.high-s.low <= 8 {
			for i := s.low; i < s.high; i++ { // a slow left-most signal, faster ones to the right
				c := *s
				c.acts = map[int]act{}
				g.sprinkle(&c, flagged, 0.5)
				if i > s.low {
					c.acts[s.low+g.Intn(i-s.low)] = slow
				}
				c.acts[i] = flagged
				yield(&c)
			}
		}
		if isReduce(s.fn) && s.high-s.low > 0 {
			c := *s
			c.acts = map[int]act{}
			c.joinFlag = true
			yield(&c)
		}
		panics(g, s, yield)
	}, func(s *scenario, o *outcome) string {
		for _, a := range s.acts {
			if a == boom {
				return checkPanic(s, o)
			}
		}
		if o.hung {
			return "the call did not return"
		}
		if o.panicked {
			return fmt.Sprintf("unexpected panic: %v", o.pvalue)
		}
		f := math.MaxInt32
		for i := s.low; i < s.high; i++ {
			if s.acts[i] == flagged && i < f {
				f = i
			}
		}
		if s.joinFlag {
			// some join signals if and only if there is more than one part
			if !o.flag && len(o.events) > 1 {
				return "join signalled early termination, but the call did not"
			}
			return ""
		}
		if o.flag != (f != math.MaxInt32) {
			return fmt.Sprintf("early termination reported: %v, expected %v", o.flag, !o.flag)
		}
		evs := sorted(o.events)
		if !o.flag {
			if m := structure(s, o, true); m != "" {
				return m
			}
			return expected(s, o, evs)
		}
		pe, ok := partOf(evs, f)
		if !ok {
			return fmt.Sprintf("the left-most deciding callback (index %d) was not invoked before the call returned", f)
		}
		if o.textOK && o.text != text(pe.lo, pe.hi) {
			return fmt.Sprintf("result %.200q, but the left-most deciding callback returned %q", o.text, text(pe.lo, pe.hi))
		}
		pos := s.low
		for _, e := range evs {
			if e.hi <= pe.hi {
				if !e.ended {
					return fmt.Sprintf("the invocation for [%d,%d) had not completed when the call returned; the deciding one is [%d,%d)", e.lo, e.hi, pe.lo, pe.hi)
				}
				if e.lo != pos {
					return fmt.Sprintf("index %d left of the deciding one was not processed", pos)
				}
				pos = e.hi
			}
		}
		return ""
	})
}

func TestVerif_C07(t *testing.T) {
	explore(t, speFn, func(g *gen, s *scenario, yield func(*scenario)) {
		size := s.high - s.low
		if size == 0 {
			return
		}
		do := func(d int) {
			c := *s
			c.acts = map[int]act{}
			c.acts[d] = flagged
			// which batches do the indices right of d belong to? block every index that is not in d's batch: the
			// batch of d is found by a first, undisturbed run
			if !s.fn.list {
				if r := s.run(); r.hung || r.panicked {
					return
				} else if pe, ok := partOf(r.events, d); ok {
					for i := pe.hi; i < s.high; i++ {
						c.acts[i] = block
					}
				}
			} else {
				for i := d + 1; i < s.high; i++ {
					c.acts[i] = block
				}
			}
			for i := s.low; i < d; i++ {
				if g.Intn(8) == 0 {
					c.acts[i] = slow
				}
			}
			yield(&c)
		}
		if size <= 8 {
			for d := s.low; d < s.high; d++ {
				do(d)
			}
		} else {
			do(s.low + g.Intn(size))
		}
	}, func(s *scenario, o *outcome) string {
		if o.hung {
			return "the call waits for callbacks to the right of the deciding one"
		}
		if !o.flag || o.panicked {
			return fmt.Sprintf("the call was not decided (panic value %v)", o.pvalue)
		}
		return ""
	})
}

func TestVerif_C08(t *testing.T) {
	explore(t, func(f *fn) bool { return !seqFn(f) }, func(g *gen, s *scenario, yield func(*scenario)) {
		for w := 1; w <= 3; w++ {
			c := *s
			c.acts = map[int]act{}
			c.wait = w
			yield(&c)
		}
	}, func(s *scenario, o *outcome) string {
		if o.hung {
			return fmt.Sprintf("the callbacks wait for each other and the call never finishes; started:%s", show(sorted(o.events)))
		}
		return ""
	})
}

func TestVerif_C09(t *testing.T) {
	explore(t, seqFn, func(g *gen, s *scenario, yield func(*scenario)) {
		mixed(g, s, yield)
		signal1(g, s, yield)
		panics(g, s, yield)
	}, func(s *scenario, o *outcome) string {
		if o.hung {
			return "the call did not return"
		}
		pos := s.low
		for i, e := range o.events {
			if e.overlap {
				return fmt.Sprintf("the invocation for [%d,%d) started while another one was running", e.lo, e.hi)
			}
			if !e.ended {
				return fmt.Sprintf("the invocation for [%d,%d) was still running when the call ended", e.lo, e.hi)
			}
			if e.gid != o.events[0].gid {
				return "callbacks are invoked on different goroutines"
			}
			if e.lo != pos {
				return fmt.Sprintf("callbacks are not invoked from left to right:%s", show(o.events))
			}
			if e.panicked && i < len(o.events)-1 {
				return "a callback is invoked after a panic"
			}
			pos = e.hi
		}
		if o.after > 0 {
			return "callbacks run after the call returned"
		}
		for i := s.low; i < s.high; i++ {
			if s.acts[i] == boom {
				if o.panicked {
					if v, ok := o.pvalue.(userPanic); !ok || !strings.HasPrefix(v.s, "panic-at-") {
						return fmt.Sprintf("the panic value was replaced by %v", o.pvalue)
					}
				}
				return checkPanic(s, o)
			}
		}
		if o.panicked {
			return fmt.Sprintf("unexpected panic: %v", o.pvalue)
		}
		if !cut(s, o) && pos != s.high {
			return fmt.Sprintf("index %d is never handed out", pos)
		}
		return ""
	})
}

func TestVerif_C10(t *testing.T) {
	explore(t, rngFn, func(g *gen, s *scenario, yield func(*scenario)) {
		yield(s)
		for _, v := range [][2]int{{-1, 0}, {-7, 0}, {0, -1}, {0, -5}, {-1, -1}, {math.MinInt32, 0}} {
			c := *s
			c.acts = map[int]act{}
			if v[0] < 0 {
				c.n = v[0]
			}
			if v[1] < 0 {
				c.low, c.high = c.high, c.high+v[1]
			}
			yield(&c)
		}
		for _, v := range [][2]int{{math.MaxInt, math.MinInt}, {math.MaxInt - s.high + s.low, math.MinInt}, {1 + g.Intn(9), math.MinInt}, {math.MaxInt, -2 - g.Intn(9)}} {
			c := *s
			c.acts = map[int]act{}
			c.low, c.high = v[0], v[1]
			yield(&c)
		}
		extreme(g, s, yield)
	}, func(s *scenario, o *outcome) string {
		valid := s.n >= 0 && s.low <= s.high
		if o.hung {
			return "the call did not return"
		}
		if valid && o.panicked {
			return fmt.Sprintf("valid arguments, but the call panics: %.200v", o.pvalue)
		}
		if !valid && !o.panicked {
			return "invalid arguments, but the call does not panic"
		}
		if !valid && len(o.events) > 0 {
			return "invalid arguments, but the callback is invoked" + show(o.events)
		}
		return ""
	})
}

type (
	plainErr  struct{ s string }
	ptrErr    struct{ s string }
	rtErr     struct{ s string }
	stringer  struct{ s string }
	errString string
)

func (e plainErr) Error() string  { return e.s }
func (e *ptrErr) Error() string   { return e.s }
func (e rtErr) Error() string     { return e.s }
func (e rtErr) RuntimeError()     {}
func (s stringer) String() string { return s.s }
func (s errString) Error() string { return string(s) }

var kinds = []struct {
	name    string
	value   func(i int) interface{}
	err, rt bool
}{
	{"string", func(i int) interface{} { return fmt.Sprintf("panic-at-%d.", i) }, false, false},
	{"string with format verbs", func(i int) interface{} { return fmt.Sprintf("100%% %%d %%s panic-at-%d.", i) }, false, false},
	{"empty string", func(i int) interface{} { return "" }, false, false},
	{"int", func(i int) interface{} { return i }, false, false},
	{"struct", func(i int) interface{} { return userPanic{fmt.Sprintf("panic-at-%d.", i)} }, false, false},
	{"stringer", func(i int) interface{} { return stringer{fmt.Sprintf("panic-at-%d.", i)} }, false, false},
	{"errors.New", func(i int) interface{} { return fmt.Errorf("panic-at-%d.", i) }, true, false},
	{"error with an empty text", func(i int) interface{} { return errors.New("") }, true, false},
	{"struct error", func(i int) interface{} { return plainErr{fmt.Sprintf("panic-at-%d.", i)} }, true, false},
	{"pointer error", func(i int) interface{} { return &ptrErr{fmt.Sprintf("panic-at-%d.", i)} }, true, false},
	{"string error", func(i int) interface{} { return errString(fmt.Sprintf("100%% panic-at-%d.", i)) }, true, false},
	{"wrapped error", func(i int) interface{} { return fmt.Errorf("w%d: %w", i, errors.New("x")) }, true, false},
	{"user-defined runtime error", func(i int) interface{} { return rtErr{fmt.Sprintf("panic-at-%d.", i)} }, true, true},
	{"index out of range", func(i int) (r interface{}) {
		defer func() { r = recover() }()
		var a []int
		return a[i+100]
	}, true, true},
	{"nil map write", func(i int) (r interface{}) {
		defer func() { r = recover() }()
		var m map[int]int
		m[i] = 1
		return
	}, true, true},
	{"failed type assertion", func(i int) (r interface{}) {
		defer func() { r = recover() }()
		var x interface{} = i
		return x.(string)
	}, true, true},
	{"integer divide by zero", func(i int) (r interface{}) {
		defer func() { r = recover() }()
		z := 0
		return i / z
	}, true, true},
}

func TestVerif_C11(t *testing.T) {
	explore(t, func(f *fn) bool { return !seqFn(f) }, func(g *gen, s *scenario, yield func(*scenario)) {
		if s.high-s.low == 0 || s.high-s.low > 30 {
			return
		}
		for k := range kinds {
			if s.high-s.low > 4 && g.Intn(4) > 0 {
				continue
			}
			c := *s
			c.acts = map[int]act{s.low + g.Intn(s.high-s.low): boom}
			c.pval = kinds[k].value
			c.n = s.n
			yield(&c)
		}
	}, func(s *scenario, o *outcome) string {
		p := 0
		for i, a := range s.acts {
			if a == boom {
				p = i
			}
		}
		if o.hung {
			return "the call did not return"
		}
		if !o.panicked || o.pvalue == nil {
			return fmt.Sprintf("the panic was lost (value %#v)", s.pval(p))
		}
		orig := s.pval(p)
		_, e0 := orig.(error)
		_, e1 := o.pvalue.(error)
		_, r0 := orig.(runtime.Error)
		_, r1 := o.pvalue.(runtime.Error)
		if e0 != e1 {
			return fmt.Sprintf("panic value %#v: error %v, replaced by a value with error %v", orig, e0, e1)
		}
		if r0 != r1 {
			return fmt.Sprintf("panic value %#v: runtime error %v, replaced by a value with runtime error %v", orig, r0, r1)
		}
		if !strings.Contains(fmt.Sprint(o.pvalue), fmt.Sprint(orig)) {
			return fmt.Sprintf("panic value %#v: the text %q is not contained in %.300q", orig, fmt.Sprint(orig), fmt.Sprint(o.pvalue))
		}
		return ""
	})
}
