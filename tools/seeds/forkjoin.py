P = "parallel/parallel.go"; S = "speculative/speculative.go"; Q = "sequential/sequential.go"; I = "internal/internal.go"
import re
repo = lambda f: open("/repo/" + f).read()
def func(f, name):
    s = repo(f); i = s.index("\nfunc %s(" % name) + 1; j = s.index("\n}\n", i) + 3
    return s[i:j]
def infunc(f, name, a, b, n=1):
    o = func(f, name); assert a in o, (name, a, o)
    return (f, o, o.replace(a, b, n) if n > 0 else o.replace(a, b))

seed("par-or-no-wait", "C03", [infunc(P, "Or", "	wg.Wait()\n", "	if b0 {\n		return true\n	}\n	wg.Wait()\n")], '''package verifdemo
import ("testing";"time";"sync/atomic";"github.com/exascience/pargo/parallel")
func TestDemo(t *testing.T) {
	var done int32
	r := parallel.Or(func() bool { return true }, func() bool { time.Sleep(200*time.Millisecond); atomic.StoreInt32(&done, 1); return false })
	if !r || atomic.LoadInt32(&done) == 0 { t.Fatal("Or returned before its second predicate terminated") }
}
''', "a left predicate that is true while a right one is still running", "parallel.Or returns before all predicates have terminated")

seed("par-reduceint-panic-before-wait", "C05", [infunc(P, "RangeReduceIntSum", "			wg.Wait()\n			if p != nil {\n				panic(p)\n			}\n", "			if p != nil {\n				panic(p)\n			}\n			wg.Wait()\n")], '''package verifdemo
import ("testing";"time";"github.com/exascience/pargo/parallel")
func TestDemo(t *testing.T) {
	defer func() { if recover() == nil { t.Fatal("the panic was lost") } }()
	parallel.RangeReduceIntSum(0, 2, 2, func(lo, hi int) int { if lo == 1 { time.Sleep(100*time.Millisecond); panic("x") }; return 1 })
}
''', "a panic in a right part that happens after the left part has finished", "parallel.RangeReduceIntSum loses panics of its right parts")

seed("spec-wait-before-decision", "C07", [infunc(S, "RangeReduceString", "			if b0 {", "			if len(left) > 0 {\n				wg.Wait()\n			}\n			if b0 {")], '''package verifdemo
import ("testing";"time";"github.com/exascience/pargo/speculative")
func TestDemo(t *testing.T) {
	c := make(chan bool)
	done := make(chan bool)
	go func() {
		speculative.RangeReduceString(0, 8, 8, func(lo, hi int) (string, bool) { if lo > 2 { <-c }; return "x", lo == 2 }, func(x, y string) (string, bool) { return x + y, false })
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10*time.Second): t.Fatal("waits for callbacks right of the decision")
	}
}
''', "callbacks to the right of the deciding one that never return, and a non-empty result", "speculative.RangeReduceString waits for callbacks right of the deciding one")

seed("seq-right-first", "C09", [infunc(Q, "RangeReduceFloat64", "			left := recur(low, mid, half)\n			right := recur(mid, high, n-half)\n", "			right := recur(mid, high, n-half)\n			left := recur(low, mid, half)\n")], '''package verifdemo
import ("testing";"github.com/exascience/pargo/sequential")
func TestDemo(t *testing.T) {
	var order []int
	sequential.RangeReduceFloat64(0, 4, 4, func(lo, hi int) float64 { order = append(order, lo); return 1 }, func(x, y float64) float64 { return x + y })
	for i := range order { if order[i] != i { t.Fatal(order) } }
}
''', "callbacks with side effects", "sequential.RangeReduceFloat64 invokes callbacks from right to left") if "left := recur(low, mid, half)\n			right := recur(mid, high, n-half)\n" in func(Q, "RangeReduceFloat64") else print("seq pattern")

seed("wrap-rt-typeassert", "C11", [(I, "if _, isRuntimeError := p.(runtime.Error); isRuntimeError {", "if _, isRuntimeError := p.(*runtime.TypeAssertionError); isRuntimeError {")], '''package verifdemo
import ("testing";"runtime";"github.com/exascience/pargo/parallel")
func TestDemo(t *testing.T) {
	defer func() { if _, ok := recover().(runtime.Error); !ok { t.Fatal("not a runtime error any more") } }()
	var a []int
	parallel.Do(func() {}, func() { a[3] = 1 })
}
''', "a runtime error other than a failed type assertion in a forked part", "rethrown runtime errors are no runtime errors any more")

seed("par-reduce-odd-split", "C02", [infunc(P, "ReduceString", "half := (len(moreFunctions) + 1) / 2", "half := (len(moreFunctions) + 1) / 2\n		if half > 31 {\n			half = 32\n			moreFunctions = moreFunctions[:63:63]\n		}")], '''package verifdemo
import ("testing";"github.com/exascience/pargo/parallel")
func TestDemo(t *testing.T) {
	for n := 1; n < 100; n++ {
		var fs []func() string
		for i := 0; i < n; i++ { fs = append(fs, func() string { return "x" }) }
		if r := parallel.ReduceString(func(x, y string) string { return x + y }, fs[0], fs[1:]...); len(r) != n { t.Fatal(n, len(r)) }
	}
}
''', "more than 64 functions", "parallel.ReduceString drops functions")

seed("par-uncapped-rounding", "C01", [(I, "		if batches > size {\n			batches = size\n		}\n", "		if n > size {\n			batches = size\n		}\n"), infunc(P, "RangeReduceStringSum", "((high - low - 1) / n) + 1", "(high - low) / n")], '''package verifdemo
import ("testing";"runtime";"sync";"github.com/exascience/pargo/parallel")
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(4)
	var mu sync.Mutex
	parallel.RangeReduceStringSum(0, 3, 0, func(lo, hi int) string { mu.Lock(); defer mu.Unlock(); if lo >= hi { t.Errorf("empty batch [%d,%d)", lo, hi) }; return "x" })
}
''', "n = 0 with a range smaller than 2*GOMAXPROCS, in a function whose batch size is rounded down", "RangeReduceStringSum invokes its callback on empty subranges")

seed("par-high-odd", "C01", [infunc(P, "RangeReduceFloat64", "recur(mid, high, n-half)", "recur(mid, high, n-half+n&1*(half&1)*(half>>2&1))")], '''package verifdemo
import ("testing";"sync";"github.com/exascience/pargo/parallel")
func TestDemo(t *testing.T) {
	for n := 1; n < 60; n++ {
		var mu sync.Mutex
		calls := 0
		parallel.RangeReduceFloat64(0, 100000, n, func(lo, hi int) float64 { mu.Lock(); calls++; mu.Unlock(); return 1 }, func(x, y float64) float64 { return x + y })
		if calls > n { t.Errorf("%d subranges for n = %d", calls, n) }
	}
}
''', "a batch count such as 11, whose half is odd and has bit 2 set", "RangeReduceFloat64 uses more than n subranges")

seed("par-reduce-skips-nil", "C04", [infunc(P, "RangeReduce", "			return join(left, right)\n", "			if right == nil {\n				return left\n			}\n			return join(left, right)\n")], '''package verifdemo
import ("testing";"github.com/exascience/pargo/parallel")
func TestDemo(t *testing.T) {
	type pair struct{ l, r interface{} }
	r := parallel.RangeReduce(0, 4, 4, func(lo, hi int) interface{} { if lo == 1 { return nil }; return lo }, func(x, y interface{}) interface{} { return pair{x, y} })
	if r != (pair{pair{0, nil}, pair{2, 3}}) { t.Fatal(r) }
}
''', "a callback of a right part that returns nil", "parallel.RangeReduce leaves out nil results of right parts")

seed("seq-reduce-int-reassoc", "C04", [infunc(Q, "RangeReduceInt", "			return join(left, right)\n", "			if left < 0 && n > 4 {\n				left, right = right, left\n			}\n			return join(left, right)\n")], '''package verifdemo
import ("testing";"github.com/exascience/pargo/sequential")
func TestDemo(t *testing.T) {
	// the left-most value
	r := sequential.RangeReduceInt(-3, 9, 6, func(lo, hi int) int { return lo }, func(x, y int) int { return x })
	if r != -3 { t.Fatal(r) }
}
''', "more than four batches, a negative left result and an operation that is not commutative", "sequential.RangeReduceInt swaps operands")

seed("spec-right-when-left-zero", "C06", [infunc(S, "RangeReduceInt", "			if b1 {\n				return right, true\n			}\n			return join(left, right)\n", "			if b1 {\n				return right, true\n			}\n			if right == 0 {\n				return left, false\n			}\n			return join(left, right)\n")], '''package verifdemo
import ("testing";"github.com/exascience/pargo/speculative")
func TestDemo(t *testing.T) {
	r, b := speculative.RangeReduceInt(1, 5, 4, func(lo, hi int) (int, bool) { return lo % 4, false }, func(x, y int) (int, bool) { return x*10 + y, y == 0 })
	if r != 12*10+30 && !b { t.Fatal(r, b) }
}
''', "a right part whose result is 0, and a join function for which 0 is not neutral", "speculative.RangeReduceInt does not combine zero results and loses the signal of the join function")

seed("spec-reduce-left-last", "C06", [infunc(S, "ReduceString", "	if b0 {", "	if b0 && left != \"\" {")], '''package verifdemo
import ("testing";"time";"github.com/exascience/pargo/speculative")
func TestDemo(t *testing.T) {
	r, b := speculative.ReduceString(func(x, y string) (string, bool) { return x + y, false },
		func() (string, bool) { return "", true },
		func() (string, bool) { time.Sleep(50*time.Millisecond); return "b", false })
	if r != "" || !b { t.Fatal(r, b) }
}
''', "a left-most signalling callback with an empty result", "speculative.ReduceString ignores the signal of a left part with an empty result") if "	if b0 {" in func(S, "ReduceString") else print("spec pattern", func(S, "ReduceString"))

seed("par-rangeand-small-inline", "C08", [infunc(P, "RangeAnd", "			var b0, b1 bool\n", "			if high-low == 2 {\n				b := f(low, mid)\n				return f(mid, high) && b\n			}\n			var b0, b1 bool\n")], '''package verifdemo
import ("testing";"time";"github.com/exascience/pargo/parallel")
func TestDemo(t *testing.T) {
	c := make(chan bool)
	done := make(chan bool)
	go func() {
		parallel.RangeAnd(0, 2, 2, func(lo, hi int) bool { if lo == 0 { <-c } else { close(c) }; return true })
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10*time.Second): t.Fatal("the first callback waits forever for the second one")
	}
}
''', "callbacks of neighbouring indices that wait for each other", "parallel.RangeAnd invokes the callbacks of two neighbouring indices one after the other") if "			var b0, b1 bool\n" in func(P, "RangeAnd") else print("and pattern", func(P, "RangeAnd"))

seed("spec-bounded-goroutines", "C08", [infunc(S, "Range", "				right = recur(mid, high, n-half)\n", "				if n > 32 {\n					batchLock.Lock()\n					defer batchLock.Unlock()\n				}\n				right = recur(mid, high, n-half)\n") if "right = recur(mid" in func(S, "Range") else infunc(S, "Range", "				b1 = recur(mid, high, n-half)\n", "				if n > 32 {\n					batchLock.Lock()\n					defer batchLock.Unlock()\n				}\n				b1 = recur(mid, high, n-half)\n"), (S, "\n// Range receives", "\nvar batchLock sync.Mutex\n\n// Range receives")], '''package verifdemo
import ("testing";"time";"sync";"github.com/exascience/pargo/speculative")
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	wg.Add(256)
	done := make(chan bool)
	go func() {
		speculative.Range(0, 256, 256, func(lo, hi int) bool { wg.Done(); wg.Wait(); return false })
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10*time.Second): t.Fatal("callbacks that wait for each other never finish")
	}
}
''', "more than 32 batches whose callbacks wait for each other", "speculative.Range does not run all callbacks concurrently")

seed("seq-float-early-empty", "C10", [infunc(Q, "RangeReduceFloat64Sum", "	return recur(low, high,", "	if high-low < 0 && n == 0 {\n		low, high = high, low\n	}\n	return recur(low, high,")], '''package verifdemo
import ("testing";"github.com/exascience/pargo/sequential")
func TestDemo(t *testing.T) {
	defer func() { if recover() == nil { t.Fatal("accepted") } }()
	sequential.RangeReduceFloat64Sum(4, 1, 0, func(lo, hi int) float64 { return 1 })
}
''', "high < low together with the default batch count", "sequential.RangeReduceFloat64Sum accepts ranges with high < low")
seed("par-one-batch", "C01", [infunc(P, "RangeReduceStringSum", "if mid >= high || mid < low {", "if mid >= high || mid < low || batchSize == 1 {")], '''package verifdemo
import ("testing";"time";"github.com/exascience/pargo/parallel")
var _ = time.Now
func TestDemo(t *testing.T) {
	for _, c := range [][2]int{{10, 3}, {12, 12}, {5, 9}} {
		s := parallel.RangeReduceStringSum(0, c[0], c[1], func(lo, hi int) string { return "x" })
		m := c[0]
		if c[1] < m { m = c[1] }
		if 2*len(s) <= m { t.Fatal(c, "only", len(s), "subranges") }
	}
}
''', "as many batches as indices", "parallel.RangeReduceStringSum does not divide ranges that are not larger than the number of batches")
