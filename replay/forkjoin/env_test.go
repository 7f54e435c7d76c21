// Package forkjoin replays failed obligations of the parallel, sequential and
// speculative packages against the real code. It runs only after the deductive
// verifier has rejected an obligation, to look for a concrete failing input.
package forkjoin

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

const hangTimeout = 15 * time.Second

func seed() int64 {
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return s
	}
	return 1
}

func budget() time.Duration {
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil {
		return time.Duration(s * float64(time.Second))
	}
	return 10 * time.Second
}

func hints() (r []int) {
	for _, f := range strings.Fields(os.Getenv("VERIF_HINTS")) {
		if v, err := strconv.Atoi(f); err == nil && v >= 0 && v <= 4096 {
			r = append(r, v)
		}
	}
	return
}

func selected(name string) bool {
	u := os.Getenv("VERIF_UNITS")
	if u == "" {
		return true
	}
	for _, f := range strings.Fields(u) {
		if f == name {
			return true
		}
	}
	return false
}

func goid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	return strings.Fields(s)[1]
}

type act int

const (
	normal act = iota
	slow
	boom
	flagged
	block // until the call has returned
)

func (a act) String() string { return [...]string{"normal", "slow", "panic", "signal", "block"}[a] }

type scenario struct {
	fn           *fn
	low, high, n int // lists: [0, high)
	acts         map[int]act
	wait         int // 0: no waiting, 1: every callback waits for all others, 2: for the next one, 3: for the previous one
	joinFlag     bool
	procs        int
	pval         func(i int) interface{}
	spec         int  // 0: none; else the callback at this position from low (from 1) has a special result
	specv        int  // which special value
	specJoin     bool // the special value is the result of a join
}

func (s *scenario) String() string {
	a := ""
	for i := s.low; i < s.high && i-s.low < 5000; i++ {
		if s.acts[i] != normal {
			a += fmt.Sprintf(" %v@%v", s.acts[i], i)
		}
	}
	w := [...]string{"", " every callback waits for all others to start", " callback i waits until callback i+1 has started", " callback i waits until callback i-1 has started"}[s.wait]
	j := ""
	if s.joinFlag {
		j = " join signals early termination"
	}
	if s.spec > 0 {
		j += fmt.Sprintf(" with %s as %s starting at %d", special(s.fn.name, s.specv), map[bool]string{false: "the result of the callback", true: "a combined result"}[s.specJoin], s.low+s.spec-1)
	}
	if s.fn.list {
		return fmt.Sprintf("%s with %d functions, GOMAXPROCS=%d, callbacks:%s%s%s", s.fn.name, s.high, s.procs, a, w, j)
	}
	return fmt.Sprintf("%s(%d, %d, %d), GOMAXPROCS=%d, indices:%s%s%s", s.fn.name, s.low, s.high, s.n, s.procs, a, w, j)
}

type event struct {
	lo, hi       int
	ended        bool
	panicked     bool
	flag         bool
	gid          string
	overlap      bool // another invocation was in progress at the start
	startT, endT int
}

type env struct {
	*scenario
	mu      sync.Mutex
	events  []*event
	clock   int
	running int
	started map[int]int
	cells   []int // written without synchronization by the callbacks
	release chan struct{}
	change  chan struct{}
	names   []string
	ids     map[string]int

	specText string // the text with the special value
}

type outcome struct {
	text     string
	textOK   bool // the result has a text
	num      float64
	numKind  byte // '+', '*', 0
	flag     bool
	flagOK   bool
	panicked bool
	pvalue   interface{}
	hung     bool
	events   []event // snapshot at return
	cells    []int
	after    int // invocations started after the return
	bad      string
}

type userPanic struct{ s string }

func (s *scenario) newEnv() *env {
	size := s.high - s.low
	if size < 0 || size > 5000 || s.high < s.low {
		size = 0 // no cells for invalid and very large ranges
	}
	return &env{scenario: s, started: map[int]int{}, cells: make([]int, size+1), release: make(chan struct{}),
		change: make(chan struct{}), ids: map[string]int{}}
}

func (e *env) signal() { close(e.change); e.change = make(chan struct{}) }

// special values of results

var specInts = []int{0, -1, math.MinInt, math.MaxInt}
var specFloats = []float64{0, -1, math.NaN(), math.Inf(-1)}

func special(name string, v int) string {
	switch {
	case strings.Contains(name, "Sum") || strings.Contains(name, "Product"):
		return "nothing special"
	case strings.Contains(name, "Int"):
		return fmt.Sprint(specInts[v])
	case strings.Contains(name, "Float"):
		return fmt.Sprint(specFloats[v])
	case strings.Contains(name, "String"):
		return "the empty string"
	}
	return "nil"
}

// isSpecial tells whether s is the text with the special value; the first one that qualifies is.
func (e *env) isSpecial(s string) bool {
	if e.spec == 0 {
		return false
	}
	if e.specText == "" && strings.HasPrefix(s, fmt.Sprintf("(%d,", e.low+e.spec-1)) && (strings.Count(s, "(") > 1) == e.specJoin {
		e.specText = s
	}
	return s == e.specText && s != ""
}

func (e *env) code(s string) int { // 0: special
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.isSpecial(s) {
		return 0
	}
	if i, ok := e.ids[s]; ok {
		return i
	}
	e.names = append(e.names, s)
	e.ids[s] = len(e.names)
	return len(e.names)
}

func (e *env) uncode(i int, special bool) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	if special && e.specText != "" {
		return e.specText
	}
	if i < 1 || i > len(e.names) {
		return fmt.Sprintf("<foreign value %d>", i)
	}
	return e.names[i-1]
}

func (e *env) intern(s string) int {
	if c := e.code(s); c > 0 {
		return c
	}
	return specInts[e.specv]
}

func (e *env) name(i int) string { return e.uncode(i, i == specInts[e.specv]) }

func (e *env) internF(s string) float64 {
	if c := e.code(s); c > 0 {
		return float64(c)
	}
	return specFloats[e.specv]
}

func (e *env) nameF(f float64) string {
	v := specFloats[e.specv]
	if f == v || f != f && v != v {
		return e.uncode(0, true)
	}
	return e.uncode(int(f), false)
}

func (e *env) encS(s string) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.isSpecial(s) {
		return ""
	}
	return s
}

func (e *env) decS(s string) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	if s == "" {
		return e.specText
	}
	return s
}

func (e *env) encI(s string) interface{} {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.isSpecial(s) {
		return nil
	}
	return s
}

func (e *env) decI(v interface{}) interface{} {
	e.mu.Lock()
	defer e.mu.Unlock()
	if v == nil && e.specText != "" {
		return e.specText
	}
	return v
}

func text(lo, hi int) string { return fmt.Sprintf("(%d,%d)", lo, hi) }

// invoke is the body of every callback
func (e *env) invoke(lo, hi int) (string, bool) {
	ev := &event{lo: lo, hi: hi, gid: goid()}
	e.mu.Lock()
	ev.overlap = e.running > 0
	e.running++
	e.clock++
	ev.startT = e.clock
	e.events = append(e.events, ev)
	for i := lo; i < hi && i-lo < 5000; i++ {
		e.started[i]++
	}
	e.signal()
	e.mu.Unlock()
	ok := false
	defer func() {
		e.mu.Lock()
		e.running--
		e.clock++
		ev.endT = e.clock
		ev.ended = true
		ev.panicked = !ok
		e.signal()
		e.mu.Unlock()
	}()
	waitFor := func(cond func() bool) {
		for {
			e.mu.Lock()
			c := cond()
			ch := e.change
			e.mu.Unlock()
			if c {
				return
			}
			select {
			case <-ch:
			case <-e.release:
				return
			}
		}
	}
	switch e.wait {
	case 1:
		waitFor(func() bool {
			for i := e.low; i < e.high; i++ {
				if e.started[i] == 0 {
					return false
				}
			}
			return true
		})
	case 2:
		waitFor(func() bool { return hi >= e.high || e.started[hi] > 0 })
	case 3:
		waitFor(func() bool { return lo <= e.low || e.started[lo-1] > 0 })
	}
	fl := false
	for i := lo; i < hi && i-lo < 5000; i++ {
		if i >= e.low && i < e.high && i-e.low >= 0 && i-e.low < len(e.cells)-1 {
			e.cells[i-e.low]++
		}
		switch e.acts[i] {
		case slow:
			time.Sleep(time.Duration(1+i&3) * 300 * time.Microsecond)
		case boom:
			if e.pval != nil {
				panic(e.pval(i))
			}
			panic(userPanic{fmt.Sprintf("panic-at-%d.", i)})
		case flagged:
			fl = true
		case block:
			<-e.release
		}
	}
	e.mu.Lock()
	ev.flag = fl
	e.mu.Unlock()
	ok = true
	return text(lo, hi), fl
}

var current = os.Getenv("VERIF_CURRENT")

func (s *scenario) run() *outcome {
	if current != "" {
		os.WriteFile(current, []byte(s.String()+"\n"), 0o644)
	}
	if s.procs > 0 {
		runtime.GOMAXPROCS(s.procs)
	}
	e := s.newEnv()
	o := &outcome{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		panicked := true
		defer func() {
			if panicked {
				o.panicked = true
				o.pvalue = recover()
			}
			e.mu.Lock()
			for _, ev := range e.events {
				o.events = append(o.events, *ev)
			}
			e.mu.Unlock()
			if !o.panicked && !o.flag && s.fn.pkg != "sequential" {
				all := true
				for _, ev := range o.events {
					all = all && ev.ended
				}
				if all {
					// no synchronization with the callbacks other than the call itself
					o.cells = append([]int{}, e.cells...)
				}
			}
		}()
		s.fn.run(e, o)
		panicked = false
	}()
	timer := time.NewTimer(hangTimeout)
	select {
	case <-done:
		timer.Stop()
	case <-timer.C:
		o.hung = true
	}
	n := len(o.events)
	close(e.release)
	if o.hung {
		select {
		case <-done:
		case <-time.After(hangTimeout):
		}
		return o
	}
	// let everything finish
	for i := 0; i < 200; i++ {
		e.mu.Lock()
		r := e.running
		e.mu.Unlock()
		if r == 0 {
			break
		}
		time.Sleep(100 * time.Microsecond)
	}
	e.mu.Lock()
	if !o.flag && !o.panicked {
		o.after = len(e.events) - n
	}
	e.mu.Unlock()
	return o
}

// ------------------------------------------------------------------ generation

type gen struct {
	*rand.Rand
	hints []int
}

func newGen() *gen { return &gen{rand.New(rand.NewSource(seed())), hints()} }

func (g *gen) size(max int) int {
	if len(g.hints) > 0 && g.Intn(4) == 0 {
		h := g.hints[g.Intn(len(g.hints))] + g.Intn(3) - 1
		if h >= 0 && h <= 4096 {
			return h
		}
	}
	switch g.Intn(7) {
	case 0, 1:
		return g.Intn(5)
	case 2, 3:
		return g.Intn(12)
	case 4:
		if g.Intn(2) == 0 {
			return max + g.Intn(5*max)
		}
	}
	return g.Intn(max)
}

func (g *gen) scenario(f *fn) *scenario {
	s := &scenario{fn: f, acts: map[int]act{}, procs: 1 + g.Intn(8)}
	if f.list {
		s.high = g.size(40)
		if s.high < f.min {
			s.high = f.min
		}
	} else {
		s.low = g.Intn(31) - 15
		s.high = s.low + g.size(60)
		switch g.Intn(4) {
		case 0:
			s.n = 0
		case 1:
			s.n = s.high - s.low + g.Intn(4)
		default:
			s.n = g.size(70)
		}
	}
	return s
}

func (g *gen) sprinkle(s *scenario, a act, prob float64) {
	for i := s.low; i < s.high; i++ {
		if g.Float64() < prob {
			s.acts[i] = a
		}
	}
}

// small enumerates the small argument combinations
func small(f *fn, yield func(*scenario)) {
	if f.list {
		for c := f.min; c <= 9; c++ {
			yield(&scenario{fn: f, high: c, acts: map[int]act{}, procs: 4})
		}
		return
	}
	for size := 0; size <= 7; size++ {
		for n := 0; n <= 9; n++ {
			for _, low := range []int{0, 3, -4} {
				for _, p := range []int{1, 3} {
					if p == 1 && n > 0 {
						continue
					}
					yield(&scenario{fn: f, low: low, high: low + size, n: n, acts: map[int]act{}, procs: p})
				}
			}
		}
	}
}

// explore runs check on small scenarios, then on random ones until the budget is used up
func explore(t *testing.T, filter func(*fn) bool, vary func(g *gen, s *scenario, yield func(*scenario)), check func(s *scenario, o *outcome) string) {
	g := newGen()
	var fs []*fn
	for i := range fns {
		if selected(fns[i].name) && filter(&fns[i]) {
			fs = append(fs, &fns[i])
		}
	}
	if len(fs) == 0 {
		for i := range fns {
			if filter(&fns[i]) {
				fs = append(fs, &fns[i])
			}
		}
	}
	if len(fs) == 0 {
		t.Skip("no function")
	}
	deadline := time.Now().Add(budget())
	count := 0
	failed := false
	try := func(s *scenario) {
		if failed || time.Now().After(deadline) {
			return
		}
		count++
		s.spec = 0
		if n := s.high - s.low; isReduce(s.fn) && special(s.fn.name, 0) != "nothing special" && n > 0 && n < 5000 && g.Intn(2) == 0 {
			s.spec, s.specv, s.specJoin = 1+g.Intn(n), g.Intn(4), g.Intn(4) == 0
		}
		o := s.run()
		if msg := check(s, o); msg != "" {
			failed = true
			t.Errorf("FAILING INPUT: %s\n  %s", s, msg)
		}
	}
	for _, f := range fs {
		small(f, func(s *scenario) { vary(g, s, try) })
	}
	for round := 0; !failed && time.Now().Before(deadline); round++ {
		vary(g, g.scenario(fs[round%len(fs)]), try)
	}
	t.Logf("evaluations=%d functions=%d", count, len(fs))
}
