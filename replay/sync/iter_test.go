package syncreplay

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	psync "github.com/exascience/pargo/sync"
)

// meth describes one method that works on all splits
type meth struct {
	name, mode, kind string // seq, par, spec; range, pred, reduce
	sigVal           bool
	exact            bool // the result text is exact (not a sum or product)
	run              func(e *env)
	plain            func(m *psync.Map, f func(map[interface{}]interface{}) int)
}

type mp = map[interface{}]interface{}

var meths []meth

type act int

const (
	normal act = iota
	slow
	boom
	flagged
	block
)

func (a act) String() string { return [...]string{"normal", "slow", "panic", "signal", "block"}[a] }

type scenario struct {
	m       *meth
	n       int         // number of splits
	entries int         // per split (plus variations)
	acts    map[int]act // per split
	nth     int         // for the range methods: the entry of the split at which it acts
}

func (s *scenario) String() string {
	a := ""
	for i := 0; i < s.n; i++ {
		if s.acts[i] != normal {
			a += fmt.Sprintf(" %v@%d", s.acts[i], i)
		}
	}
	return fmt.Sprintf("NewMap(%d) with %d entries per split or less, %s, callbacks per split:%s (entry %d)", s.n, s.entries, s.m.name, a, s.nth)
}

type visit struct {
	split int
	k     key
	v     interface{}
	gid   string
	start int
	end   int
	sig   bool
	pan   bool
}

type env struct {
	*scenario
	mp      *psync.Map
	splits  []*psync.Split
	ids     map[uintptr]int
	want    map[key]interface{}
	mu      sync.Mutex
	clock   int
	visits  []*visit
	locking string // problem with locks
	overlap bool
	running int
	unsync  []int // written without synchronization
	names   []string
	nameIDs map[string]int
	release chan struct{}
	nvisits map[int]int
	// outcome
	text       string
	textOK     bool
	num        float64
	flag       bool
	panicked   bool
	pval       interface{}
	hung       bool
	atReturn   []visit
	unfinished bool
	cells      []int
	gid        string
	freeAfter  bool
}

func (e *env) intern(s string) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	if i, ok := e.nameIDs[s]; ok {
		return i
	}
	e.names = append(e.names, s)
	e.nameIDs[s] = len(e.names)
	return len(e.names)
}

func (e *env) nm(i int) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	if i < 1 || i > len(e.names) {
		return fmt.Sprintf("<foreign value %d>", i)
	}
	return e.names[i-1]
}

func (e *env) begin(split int, k key, v interface{}) *visit {
	vi := &visit{split: split, k: k, v: v, gid: goid()}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.overlap = e.overlap || e.running > 0
	e.running++
	e.clock++
	vi.start = e.clock
	e.visits = append(e.visits, vi)
	if split < 0 || split >= e.n {
		e.locking = "the callback got a map that is not one of the splits"
	} else {
		if !writeLocked(e.splits[split]) {
			e.locking = fmt.Sprintf("the callback for split %d runs without its write lock", split)
		}
	}
	return vi
}

func (e *env) finish(vi *visit, ok *bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.running--
	e.clock++
	vi.end = e.clock
	vi.pan = !*ok
}

func (e *env) act(a act, vi *visit) {
	if vi.split >= 0 {
		e.unsync[vi.split]++ // the write lock is held, and the call is joined
	}
	switch a {
	case slow:
		time.Sleep(time.Duration(1+vi.split%3) * 300 * time.Microsecond)
	case boom:
		panic(fmt.Sprintf("panic-at-%d.", vi.split))
	case flagged:
		e.mu.Lock()
		vi.sig = true
		e.mu.Unlock()
	case block:
		<-e.release
	}
}

// onSplit is the body of predicates and reductions
func (e *env) onSplit(m mp) (int, bool) {
	i, found := e.ids[mapID(m)]
	if !found {
		i = -1
	}
	vi := e.begin(i, key{}, nil)
	ok := false
	defer e.finish(vi, &ok)
	e.act(e.acts[i], vi)
	ok = true
	return i, vi.sig
}

// onEntry is the body of iterations
func (e *env) onEntry(k, v interface{}) bool {
	kk := k.(key)
	i := int(kk.h % uint64(e.n))
	vi := e.begin(i, kk, v)
	ok := false
	defer e.finish(vi, &ok)
	e.mu.Lock()
	c := e.nvisits[i]
	e.nvisits[i]++
	e.mu.Unlock()
	if c == e.nth {
		e.act(e.acts[i], vi)
	}
	ok = true
	return !vi.sig
}

func txt(i int) string { return fmt.Sprintf("(%d)", i) }

func (e *env) predicate(sig bool) func(m mp) bool {
	return func(m mp) bool { _, s := e.onSplit(m); return s == sig }
}
func (e *env) joinI(x, y interface{}) interface{} {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if !ok1 || !ok2 {
		return fmt.Sprintf("<join(%v,%v)>", x, y)
	}
	return a + b
}
func (e *env) joinS(x, y string) string   { return x + y }
func (e *env) joinN(x, y int) int         { return e.intern(e.nm(x) + e.nm(y)) }
func (e *env) joinF(x, y float64) float64 { return float64(e.joinN(int(x), int(y))) }
func (e *env) redI(m mp) interface{}      { i, _ := e.onSplit(m); return txt(i) }
func (e *env) redS(m mp) string           { i, _ := e.onSplit(m); return txt(i) }
func (e *env) redN(m mp) int              { i, _ := e.onSplit(m); return e.intern(txt(i)) }
func (e *env) redF(m mp) float64          { i, _ := e.onSplit(m); return float64(e.intern(txt(i))) }
func (e *env) sumN(m mp) int              { i, _ := e.onSplit(m); return 1 << uint(i&31) }
func (e *env) sumF(m mp) float64          { i, _ := e.onSplit(m); return float64(int64(1) << uint(i&31)) }
func (e *env) prodN(m mp) int             { i, _ := e.onSplit(m); return prime(i) }
func (e *env) prodF(m mp) float64         { i, _ := e.onSplit(m); return float64(prime(i)) }
func (e *env) result(s string)            { e.text, e.textOK = s, true }
func prime(i int) int                     { return []int{2, 3, 5, 7}[i&3] }
func set(p *bool, v bool)                 { *p = v }

func add(name, mode, kind string, sig bool, exact bool, run func(e *env), plain func(m *psync.Map, f func(mp) int)) {
	meths = append(meths, meth{name, mode, kind, sig, exact, run, plain})
}

func show(v interface{}) string {
	if s, ok := v.(string); ok {
		return s
	}
	return fmt.Sprintf("<%v>", v)
}

func init() {
	r := "reduce"
	none := func(x, y interface{}) interface{} { return nil }
	add("Range", "seq", "range", true, false, func(e *env) { e.mp.Range(e.onEntry) },
		func(m *psync.Map, f func(mp) int) { m.Range(func(k, v interface{}) bool { return true }) })
	add("ParallelRange", "par", "range", true, false, func(e *env) { e.mp.ParallelRange(func(k, v interface{}) { e.onEntry(k, v) }) },
		func(m *psync.Map, f func(mp) int) { m.ParallelRange(func(k, v interface{}) {}) })
	add("SpeculativeRange", "spec", "range", true, false, func(e *env) { e.mp.SpeculativeRange(e.onEntry) },
		func(m *psync.Map, f func(mp) int) { m.SpeculativeRange(func(k, v interface{}) bool { return true }) })
	for _, mode := range []string{"seq", "par", "spec"} {
		mode := mode
		pre := map[string]string{"seq": "", "par": "Parallel", "spec": "Speculative"}[mode]
		for _, sig := range []bool{false, true} {
			sig := sig
			nm := map[bool]string{false: "And", true: "Or"}[sig]
			call := func(m *psync.Map, p func(mp) bool) bool {
				switch pre + nm {
				case "And":
					return m.And(p)
				case "ParallelAnd":
					return m.ParallelAnd(p)
				case "SpeculativeAnd":
					return m.SpeculativeAnd(p)
				case "Or":
					return m.Or(p)
				case "ParallelOr":
					return m.ParallelOr(p)
				}
				return m.SpeculativeOr(p)
			}
			add(pre+nm, mode, "pred", sig, false, func(e *env) { e.flag = call(e.mp, e.predicate(sig)) == sig },
				func(m *psync.Map, f func(mp) int) { call(m, func(x mp) bool { f(x); return !sig }) })
		}
	}
	add("Reduce", "seq", r, true, true, func(e *env) { e.result(show(e.mp.Reduce(e.redI, e.joinI))) },
		func(m *psync.Map, f func(mp) int) { m.Reduce(func(x mp) interface{} { f(x); return nil }, none) })
	add("ReduceFloat64", "seq", r, true, true, func(e *env) { e.result(e.nm(int(e.mp.ReduceFloat64(e.redF, e.joinF)))) },
		func(m *psync.Map, f func(mp) int) { m.ReduceFloat64Sum(func(x mp) float64 { return float64(f(x)) }) })
	add("ReduceFloat64Sum", "seq", r, true, false, func(e *env) { e.num = e.mp.ReduceFloat64Sum(e.sumF) },
		func(m *psync.Map, f func(mp) int) { m.ReduceFloat64Sum(func(x mp) float64 { return float64(f(x)) }) })
	add("ReduceFloat64Product", "seq", r, true, false, func(e *env) { e.num = e.mp.ReduceFloat64Product(e.prodF) },
		func(m *psync.Map, f func(mp) int) {
			m.ReduceFloat64Product(func(x mp) float64 { return float64(f(x)) })
		})
	add("ReduceInt", "seq", r, true, true, func(e *env) { e.result(e.nm(e.mp.ReduceInt(e.redN, e.joinN))) },
		func(m *psync.Map, f func(mp) int) { m.ReduceInt(f, func(x, y int) int { return x + y }) })
	add("ReduceIntSum", "seq", r, true, false, func(e *env) { e.num = float64(e.mp.ReduceIntSum(e.sumN)) },
		func(m *psync.Map, f func(mp) int) { m.ReduceIntSum(f) })
	add("ReduceIntProduct", "seq", r, true, false, func(e *env) { e.num = float64(e.mp.ReduceIntProduct(e.prodN)) },
		func(m *psync.Map, f func(mp) int) { m.ReduceIntProduct(f) })
	add("ReduceString", "seq", r, true, true, func(e *env) { e.result(e.mp.ReduceString(e.redS, e.joinS)) },
		func(m *psync.Map, f func(mp) int) {
			m.ReduceString(func(x mp) string { f(x); return "" }, func(x, y string) string { return x + y })
		})
	add("ReduceStringSum", "seq", r, true, true, func(e *env) { e.result(e.mp.ReduceStringSum(e.redS)) },
		func(m *psync.Map, f func(mp) int) { m.ReduceStringSum(func(x mp) string { f(x); return "" }) })
	add("ParallelReduce", "par", r, true, true, func(e *env) { e.result(show(e.mp.ParallelReduce(e.redI, e.joinI))) },
		func(m *psync.Map, f func(mp) int) {
			m.ParallelReduce(func(x mp) interface{} { f(x); return nil }, none)
		})
	add("ParallelReduceFloat64", "par", r, true, true, func(e *env) { e.result(e.nm(int(e.mp.ParallelReduceFloat64(e.redF, e.joinF)))) },
		func(m *psync.Map, f func(mp) int) {
			m.ParallelReduceFloat64(func(x mp) float64 { return float64(f(x)) }, func(x, y float64) float64 { return x + y })
		})
	add("ParallelReduceFloat64Sum", "par", r, true, false, func(e *env) { e.num = e.mp.ParallelReduceFloat64Sum(e.sumF) },
		func(m *psync.Map, f func(mp) int) {
			m.ParallelReduceFloat64Sum(func(x mp) float64 { return float64(f(x)) })
		})
	add("ParallelReduceFloat64Product", "par", r, true, false, func(e *env) { e.num = e.mp.ParallelReduceFloat64Product(e.prodF) },
		func(m *psync.Map, f func(mp) int) {
			m.ParallelReduceFloat64Product(func(x mp) float64 { return float64(f(x)) })
		})
	add("ParallelReduceInt", "par", r, true, true, func(e *env) { e.result(e.nm(e.mp.ParallelReduceInt(e.redN, e.joinN))) },
		func(m *psync.Map, f func(mp) int) { m.ParallelReduceInt(f, func(x, y int) int { return x + y }) })
	add("ParallelReduceIntSum", "par", r, true, false, func(e *env) { e.num = float64(e.mp.ParallelReduceIntSum(e.sumN)) },
		func(m *psync.Map, f func(mp) int) { m.ParallelReduceIntSum(f) })
	add("ParallelReduceIntProduct", "par", r, true, false, func(e *env) { e.num = float64(e.mp.ParallelReduceIntProduct(e.prodN)) },
		func(m *psync.Map, f func(mp) int) { m.ParallelReduceIntProduct(f) })
	add("ParallelReduceString", "par", r, true, true, func(e *env) { e.result(e.mp.ParallelReduceString(e.redS, e.joinS)) },
		func(m *psync.Map, f func(mp) int) {
			m.ParallelReduceString(func(x mp) string { f(x); return "" }, func(x, y string) string { return x + y })
		})
	add("ParallelReduceStringSum", "par", r, true, true, func(e *env) { e.result(e.mp.ParallelReduceStringSum(e.redS)) },
		func(m *psync.Map, f func(mp) int) { m.ParallelReduceStringSum(func(x mp) string { f(x); return "" }) })
	add("SpeculativeReduce", "spec", r, true, true, func(e *env) {
		v, c := e.mp.SpeculativeReduce(func(m mp) (interface{}, bool) { i, s := e.onSplit(m); return txt(i), s },
			func(x, y interface{}) (interface{}, bool) { return e.joinI(x, y), false })
		e.flag = c
		e.result(show(v))
	}, func(m *psync.Map, f func(mp) int) {
		m.SpeculativeReduce(func(x mp) (interface{}, bool) { f(x); return nil, false }, func(x, y interface{}) (interface{}, bool) { return nil, false })
	})
	add("SpeculativeReduceFloat64", "spec", r, true, true, func(e *env) {
		v, c := e.mp.SpeculativeReduceFloat64(func(m mp) (float64, bool) { i, s := e.onSplit(m); return float64(e.intern(txt(i))), s },
			func(x, y float64) (float64, bool) { return e.joinF(x, y), false })
		e.flag = c
		e.result(e.nm(int(v)))
	}, func(m *psync.Map, f func(mp) int) {
		m.SpeculativeReduceFloat64(func(x mp) (float64, bool) { f(x); return 0, false }, func(x, y float64) (float64, bool) { return 0, false })
	})
	add("SpeculativeReduceInt", "spec", r, true, true, func(e *env) {
		v, c := e.mp.SpeculativeReduceInt(func(m mp) (int, bool) { i, s := e.onSplit(m); return e.intern(txt(i)), s },
			func(x, y int) (int, bool) { return e.joinN(x, y), false })
		e.flag = c
		e.result(e.nm(v))
	}, func(m *psync.Map, f func(mp) int) {
		m.SpeculativeReduceInt(func(x mp) (int, bool) { f(x); return 0, false }, func(x, y int) (int, bool) { return 0, false })
	})
	add("SpeculativeReduceString", "spec", r, true, true, func(e *env) {
		v, c := e.mp.SpeculativeReduceString(func(m mp) (string, bool) { i, s := e.onSplit(m); return txt(i), s },
			func(x, y string) (string, bool) { return x + y, false })
		e.flag = c
		e.result(v)
	}, func(m *psync.Map, f func(mp) int) {
		m.SpeculativeReduceString(func(x mp) (string, bool) { f(x); return "", false }, func(x, y string) (string, bool) { return "", false })
	})
}

func randomScenario(g *rand.Rand, filter func(*meth) bool) *scenario {
	var ms []*meth
	for i := range meths {
		if filter == nil || filter(&meths[i]) {
			ms = append(ms, &meths[i])
		}
	}
	s := &scenario{m: ms[g.Intn(len(ms))], acts: map[int]act{}}
	switch g.Intn(3) {
	case 0:
		s.n = 1 + g.Intn(4)
	case 1:
		s.n = 1 + g.Intn(10)
	default:
		s.n = 1 + g.Intn(24)
	}
	s.entries = g.Intn(4)
	s.nth = g.Intn(2)
	for i := 0; i < s.n; i++ {
		if g.Intn(6) == 0 {
			s.acts[i] = []act{slow, boom, flagged, slow}[g.Intn(4)]
		}
	}
	if g.Intn(4) == 0 {
		s.acts = map[int]act{}
	}
	if g.Intn(3) == 0 {
		s.acts = map[int]act{g.Intn(s.n): []act{boom, flagged}[g.Intn(2)], g.Intn(s.n): slow}
	}
	return s
}

func (s *scenario) run() *env {
	setCurrent(s.String())
	e := &env{scenario: s, mp: psync.NewMap(s.n), ids: map[uintptr]int{}, want: map[key]interface{}{}, unsync: make([]int, s.n),
		nameIDs: map[string]int{}, release: make(chan struct{}), nvisits: map[int]int{}}
	for i, sp := range allSplits(e.mp, s.n) {
		e.splits = append(e.splits, sp)
		e.ids[mapID(sp.Map)] = i
		for j := 0; j < s.entries-i%2; j++ {
			k := key{uint64(i + s.n*j), j}
			var v interface{}
			if (i+j)%3 > 0 {
				v = i*100 + j
			}
			e.want[k] = v
			sp.Map[k] = v
		}
	}
	e.panicked, e.pval, e.hung = guarded(func() {
		e.gid = goid()
		defer func() {
			e.mu.Lock()
			for _, v := range e.visits {
				e.atReturn = append(e.atReturn, *v)
				e.unfinished = e.unfinished || v.end == 0
			}
			e.mu.Unlock()
		}()
		s.m.run(e)
		if s.m.mode != "spec" {
			e.cells = append([]int{}, e.unsync...)
		}
	})
	close(e.release)
	if e.hung {
		return e
	}
	for i := 0; i < 5000; i++ {
		e.mu.Lock()
		r := e.running
		e.mu.Unlock()
		if r == 0 {
			break
		}
		time.Sleep(100 * time.Microsecond)
	}
	e.freeAfter = true
	for _, sp := range e.splits {
		if !eventuallyFree(sp) {
			e.freeAfter = false
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	// a snapshot, since goroutines that were not waited for may still run
	r := &env{scenario: s, want: e.want, overlap: e.overlap, locking: e.locking, text: e.text, textOK: e.textOK, num: e.num, flag: e.flag,
		panicked: e.panicked, pval: e.pval, hung: e.hung, atReturn: e.atReturn, unfinished: e.unfinished, cells: e.cells, gid: e.gid, freeAfter: e.freeAfter}
	for _, v := range e.visits {
		c := *v
		r.visits = append(r.visits, &c)
	}
	return r
}

func (e *env) locks(s *scenario) string {
	if e.hung {
		return "the call does not return"
	}
	if e.locking != "" {
		return e.locking
	}
	if !e.freeAfter {
		return "a lock is still held after the call"
	}
	return ""
}

func (s *scenario) boomUntil(i int) bool {
	for j := 0; j < i; j++ {
		if s.acts[j] == boom {
			return true
		}
	}
	return false
}

func (e *env) list() string {
	var b strings.Builder
	for _, v := range e.visits {
		if e.m.kind == "range" {
			fmt.Fprintf(&b, " %v=%v", v.k, v.v)
		} else {
			fmt.Fprintf(&b, " %d", v.split)
		}
	}
	return b.String()
}

func TestVerif_C14(t *testing.T) {
	g := rand.New(rand.NewSource(seed()))
	search(t, 300, func(i int) (string, string) {
		s := randomScenario(g, func(m *meth) bool { return m.kind == "range" })
		return s.String(), s.run().entries14(s)
	})
}

func (e *env) entries14(s *scenario) string {
	if e.hung {
		return "the call does not return"
	}
	counts := map[key]int{}
	stop := false
	stopped := map[int]bool{}
	pan := false
	for _, v := range e.visits {
		w, ok := e.want[v.k]
		if !ok {
			return fmt.Sprintf("visited %v, which is not in the map", v.k)
		}
		if w != v.v {
			return fmt.Sprintf("visited %v with the value %v instead of %v", v.k, v.v, w)
		}
		counts[v.k]++
		if counts[v.k] > 1 {
			return fmt.Sprintf("visited %v twice", v.k)
		}
		if s.m.name == "Range" && stop {
			return "visited an entry after the callback had returned false:" + e.list()
		}
		if s.m.name == "SpeculativeRange" && stopped[v.split] {
			return "visited an entry of the same split after the callback had returned false:" + e.list()
		}
		stop = stop || v.sig
		stopped[v.split] = stopped[v.split] || v.sig
		pan = pan || v.pan
	}
	if s.m.name == "ParallelRange" {
		stop = false
	}
	if !pan && e.panicked {
		return "panicked: " + short(e.pval)
	}
	if !stop && !pan {
		for k := range e.want {
			if counts[k] == 0 {
				return fmt.Sprintf("%v was not visited; visited:%s", k, e.list())
			}
		}
	}
	return ""
}

func onSplits(m *meth) bool { return m.kind != "range" }

func TestVerif_C15(t *testing.T) {
	g := rand.New(rand.NewSource(seed()))
	search(t, 400, func(i int) (string, string) {
		if i%8 == 1 {
			return newMap(g)
		}
		s := randomScenario(g, onSplits)
		if i%4 == 2 {
			// a decided call does not wait for callbacks to the right
			s = randomScenario(g, func(m *meth) bool { return m.mode == "spec" && m.kind != "range" })
			if s.n > 1 {
				d := g.Intn(s.n - 1)
				s.acts = map[int]act{d: flagged, d + 1 + g.Intn(s.n-d-1): block}
				e := s.run()
				if e.hung {
					return s.String(), "the call does not return although it is decided, before the blocked callback has returned"
				}
				return s.String(), e.splits15(s)
			}
		}
		return s.String(), s.run().splits15(s)
	})
}

// newMap checks the number of splits
func newMap(g *rand.Rand) (string, string) {
	size := g.Intn([]int{20, 100, 1000, 10000}[g.Intn(4)]) - 6
	want := size
	if size <= 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1 + g.Intn(9)))
		want = runtime.GOMAXPROCS(0)
	}
	in := fmt.Sprintf("NewMap(%d) with GOMAXPROCS=%d, then Reduce", size, runtime.GOMAXPROCS(0))
	n := 0
	seen := map[uintptr]bool{}
	p, v, hung := guarded(func() {
		psync.NewMap(size).ReduceInt(func(m map[interface{}]interface{}) int { n++; seen[mapID(m)] = true; return 0 }, func(x, y int) int { return 0 })
	})
	if hung || p {
		return in, "hangs or panics: " + short(v)
	}
	if n != want || len(seen) != want {
		return in, fmt.Sprintf("%d invocations for %d maps instead of %d", n, len(seen), want)
	}
	return "", ""
}

func (e *env) splits15(s *scenario) string {
	if e.hung {
		return "the call does not return"
	}
	counts := make([]int, s.n)
	pan := false
	for _, v := range e.visits {
		if v.split < 0 {
			return "the callback got a map that is not one of the splits"
		}
		counts[v.split]++
		if counts[v.split] > 1 {
			return fmt.Sprintf("the callback was invoked twice for split %d", v.split)
		}
		pan = pan || v.pan
	}
	if e.panicked && !pan {
		return "panicked: " + short(e.pval)
	}
	if e.panicked {
		return ""
	}
	decided := -1
	if s.m.kind == "pred" || s.m.mode == "spec" {
		for i := 0; i < s.n && decided < 0; i++ {
			if s.acts[i] == boom {
				break
			}
			if s.acts[i] == flagged {
				decided = i
			}
		}
	}
	if decided < 0 || (s.m.mode == "par" && s.m.kind != "pred") {
		for i, c := range counts {
			if c != 1 {
				return fmt.Sprintf("the callback was not invoked for split %d; invoked:%s", i, e.list())
			}
		}
	}
	return e.combined(s, decided)
}

func (e *env) combined(s *scenario, decided int) string {
	if s.boomUntil(s.n) && decided < 0 {
		return "" // panics are checked elsewhere
	}
	if s.m.kind == "pred" {
		if e.flag != (decided >= 0) {
			return fmt.Sprintf("returned %v", e.flag == s.m.sigVal)
		}
		return ""
	}
	if s.m.mode == "spec" {
		if e.flag != (decided >= 0) {
			return fmt.Sprintf("the second result is %v", e.flag)
		}
		if decided >= 0 {
			if e.text != txt(decided) {
				return fmt.Sprintf("returned %s instead of the value of the left-most deciding invocation %d", e.text, decided)
			}
			return ""
		}
	}
	want := ""
	sum, prod := 0, 1
	for i := 0; i < s.n; i++ {
		want += txt(i)
		sum += 1 << uint(i)
		prod *= prime(i)
	}
	switch {
	case e.textOK:
		if e.text != want {
			return fmt.Sprintf("returned %s instead of %s", short(e.text), short(want))
		}
	case strings.HasSuffix(s.m.name, "Sum"):
		if e.num != float64(sum) {
			return fmt.Sprintf("returned %v instead of %v", e.num, sum)
		}
	default:
		if e.num != float64(prod) {
			return fmt.Sprintf("returned %v instead of %v", e.num, prod)
		}
	}
	return ""
}

func TestVerif_C04(t *testing.T) {
	g := rand.New(rand.NewSource(seed()))
	search(t, 400, func(i int) (string, string) {
		s := randomScenario(g, onSplits)
		for k, a := range s.acts {
			if a == boom {
				s.acts[k] = slow
			}
		}
		return s.String(), s.run().splits15(s)
	})
}

func TestVerif_C03(t *testing.T) {
	g := rand.New(rand.NewSource(seed()))
	search(t, 300, func(i int) (string, string) {
		s := randomScenario(g, func(m *meth) bool { return m.mode == "par" })
		for j := 0; j < s.n; j++ {
			s.acts[j] = []act{normal, slow, flagged}[g.Intn(3)]
		}
		e := s.run()
		if e.hung {
			return s.String(), "the call does not return"
		}
		if !e.panicked && (e.unfinished || len(e.atReturn) != len(e.visits)) {
			return s.String(), "the call returned before all callbacks had terminated"
		}
		return s.String(), ""
	})
}

func TestVerif_C05(t *testing.T) {
	g := rand.New(rand.NewSource(seed()))
	search(t, 300, func(i int) (string, string) {
		s := randomScenario(g, func(m *meth) bool { return true })
		s.acts = map[int]act{g.Intn(s.n): boom}
		if g.Intn(2) == 0 {
			s.acts[g.Intn(s.n)] = boom
		}
		if g.Intn(2) == 0 {
			s.acts[g.Intn(s.n)] = slow
		}
		s.nth, s.entries = 0, 2
		e := s.run()
		if e.hung {
			return s.String(), "the call does not return"
		}
		first := -1
		for _, v := range e.visits {
			if v.pan && (first < 0 || v.split < first) {
				first = v.split
			}
		}
		if first < 0 {
			return s.String(), ""
		}
		if !e.panicked {
			return s.String(), fmt.Sprintf("the panic at split %d is lost", first)
		}
		for j := 0; j < first; j++ {
			if s.acts[j] == boom {
				return "", ""
			}
		}
		if !strings.Contains(fmt.Sprint(e.pval), fmt.Sprintf("panic-at-%d.", first)) {
			return s.String(), fmt.Sprintf("the panic value is %s, not that of split %d", short(e.pval), first)
		}
		return "", ""
	})
}

func TestVerif_C09(t *testing.T) {
	g := rand.New(rand.NewSource(seed()))
	search(t, 300, func(i int) (string, string) {
		s := randomScenario(g, func(m *meth) bool { return m.mode == "seq" })
		e := s.run()
		if e.hung {
			return s.String(), "the call does not return"
		}
		if e.overlap {
			return s.String(), "two invocations overlap"
		}
		last := -1
		for j, v := range e.visits {
			if v.gid != e.gid {
				return s.String(), "the callback is invoked by another goroutine"
			}
			if s.m.kind != "range" && v.split < last {
				return s.String(), "the order of invocations is" + e.list()
			}
			last = v.split
			if v.pan && j+1 < len(e.visits) {
				return s.String(), "the callback is invoked after a panic:" + e.list()
			}
			if v.pan && (!e.panicked || e.pval != interface{}(fmt.Sprintf("panic-at-%d.", v.split))) {
				return s.String(), fmt.Sprintf("panicked: %v, with %s", e.panicked, short(e.pval))
			}
		}
		return "", ""
	})
}
