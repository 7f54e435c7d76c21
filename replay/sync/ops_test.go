package syncreplay

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	psync "github.com/exascience/pargo/sync"
)

type key struct {
	h  uint64
	id int
}

func (k key) Hash() uint64 { return k.h }

func (k key) String() string { return fmt.Sprintf("key%d(hash %d)", k.id, k.h) }

var hashes = []uint64{0, 1, 2, 3, 5, 7, 1 << 31, 1<<32 + 1, 1 << 62, math.MaxInt64, 1 << 63, 1<<63 + 1, 1<<63 + 5, math.MaxUint64 - 2, math.MaxUint64 - 1, math.MaxUint64}

func newKeys(g *rand.Rand) (ks []key) {
	for i := 0; i < 10; i++ {
		var h uint64
		switch g.Intn(3) {
		case 0:
			h = hashes[g.Intn(len(hashes))]
		case 1:
			h = uint64(g.Intn(8))
		default:
			h = g.Uint64()
		}
		ks = append(ks, key{h, i % 7})
	}
	return
}

type cell struct {
	present bool
	val     interface{}
}

func (c cell) String() string {
	if !c.present {
		return "absent"
	}
	return fmt.Sprint(c.val)
}

type op struct {
	name   string
	k      key
	v      interface{} // value, or the value computed
	store  bool        // Modify: second result
	panics bool
}

func (o op) String() string {
	switch o.name {
	case "Load", "Delete":
		return fmt.Sprintf("%s(%v)", o.name, o.k)
	case "LoadOrStore", "DeleteOrStore":
		return fmt.Sprintf("%s(%v, %v)", o.name, o.k, o.v)
	}
	if o.panics {
		return fmt.Sprintf("%s(%v, <panics>)", o.name, o.k)
	}
	if o.name == "Modify" {
		return fmt.Sprintf("Modify(%v, <returns %v, %v>)", o.k, o.v, o.store)
	}
	return fmt.Sprintf("%s(%v, <returns %v>)", o.name, o.k, o.v)
}

type result struct {
	val    interface{}
	ok     bool
	calls  int
	args   cell // arguments of the modifier
	panics bool
	pval   interface{}
}

var boomValue = "boom"

// spec is the sequential specification
func (o op) spec(c cell) (cell, result) {
	var r result
	switch o.name {
	case "Load":
		r.val, r.ok = c.val, c.present
	case "Delete":
		c = cell{}
	case "LoadOrStore", "LoadOrCompute":
		if c.present {
			r.val, r.ok = c.val, true
			return c, r
		}
		if o.name == "LoadOrCompute" {
			r.calls = 1
			if o.panics {
				r.panics = true
				return c, r
			}
		}
		r.val, c = o.v, cell{true, o.v}
	case "DeleteOrStore", "DeleteOrCompute":
		if c.present {
			r.val, r.ok = c.val, true
			return cell{}, r
		}
		if o.name == "DeleteOrCompute" {
			r.calls = 1
			if o.panics {
				r.panics = true
				return c, r
			}
		}
		r.val, c = o.v, cell{true, o.v}
	case "Modify":
		r.calls, r.args = 1, c
		if o.panics {
			r.panics = true
			return c, r
		}
		r.val, r.ok = o.v, o.store
		if o.store {
			c = cell{true, o.v}
		} else {
			c = cell{}
		}
	}
	return c, r
}

// exec runs the operation on the real map; inside is called by the callbacks
func (o op) exec(m *psync.Map, inside func()) (r result) {
	defer func() {
		if x := recover(); x != nil {
			r.panics, r.pval = true, x
			if x != interface{}(boomValue) {
				r.pval = fmt.Sprint("unexpected panic: ", x)
			}
		}
	}()
	compute := func() interface{} {
		r.calls++
		if inside != nil {
			inside()
		}
		if o.panics {
			panic(boomValue)
		}
		return o.v
	}
	switch o.name {
	case "Load":
		r.val, r.ok = m.Load(o.k)
	case "Delete":
		m.Delete(o.k)
	case "LoadOrStore":
		r.val, r.ok = m.LoadOrStore(o.k, o.v)
	case "LoadOrCompute":
		r.val, r.ok = m.LoadOrCompute(o.k, compute)
	case "DeleteOrStore":
		r.val, r.ok = m.DeleteOrStore(o.k, o.v)
	case "DeleteOrCompute":
		r.val, r.ok = m.DeleteOrCompute(o.k, compute)
	case "Modify":
		r.val, r.ok = m.Modify(o.k, func(v interface{}, ok bool) (interface{}, bool) {
			r.args = cell{ok, v}
			x := compute()
			return x, o.store
		})
	}
	return
}

func (r result) differs(w result) string {
	if r.panics != w.panics {
		return fmt.Sprintf("panicked: %v (%s)", r.panics, short(r.pval))
	}
	if r.panics && r.pval != interface{}(boomValue) {
		return fmt.Sprintf("the panic value is %s", short(r.pval))
	}
	if !r.panics && (r.val != w.val || r.ok != w.ok) {
		return fmt.Sprintf("returned (%v, %v) instead of (%v, %v)", r.val, r.ok, w.val, w.ok)
	}
	if r.calls != w.calls {
		return fmt.Sprintf("invoked its callback %d times instead of %d", r.calls, w.calls)
	}
	if r.args != w.args {
		return fmt.Sprintf("the modifier got (%v, %v) instead of (%v, %v)", r.args.val, r.args.present, w.args.val, w.args.present)
	}
	return ""
}

var opNames = []string{"Load", "Delete", "LoadOrStore", "LoadOrCompute", "DeleteOrStore", "DeleteOrCompute", "Modify"}

var valueCounter int

func randomOp(g *rand.Rand, ks []key, panics bool) op {
	o := op{name: opNames[g.Intn(len(opNames))], k: ks[g.Intn(len(ks))], store: g.Intn(3) > 0}
	valueCounter++
	o.v = valueCounter
	if g.Intn(4) == 0 {
		o.v = nil
	}
	o.panics = panics && g.Intn(6) == 0
	return o
}

// contents looks at the map directly, through its splits
func lookup(m *psync.Map, k key) (c cell, free bool) {
	s := m.Split(k)
	for i := 0; ; i++ {
		if s.TryLock() {
			break
		}
		if i > 200 {
			return c, false
		}
		time.Sleep(time.Millisecond)
	}
	c.val, c.present = s.Map[k]
	s.Unlock()
	return c, true
}

func sizes(g *rand.Rand) int {
	return []int{0, 1, 1, 2, 3, 4, 5, 7, 8, 16, 31, -3}[g.Intn(12)]
}

func TestVerif_C12(t *testing.T) {
	g := rand.New(rand.NewSource(seed()))
	search(t, 200, func(i int) (string, string) {
		switch i % 4 {
		case 1:
			return nested(g)
		case 2, 3:
			return concurrent(g, i)
		}
		return sequence(g)
	})
}

// sequence runs random operations one after the other
func sequence(g *rand.Rand) (string, string) {
	n := sizes(g)
	ks := newKeys(g)
	model := map[key]cell{}
	var log []string
	input := func() string { return fmt.Sprintf("NewMap(%d), then %s", n, strings.Join(log, ", ")) }
	var m *psync.Map
	if p, v, _ := guarded(func() { m = psync.NewMap(n) }); p {
		return fmt.Sprintf("NewMap(%d)", n), "panicked: " + short(v)
	}
	for j := 0; j < 25; j++ {
		o := randomOp(g, ks, true)
		log = append(log, o.String())
		setCurrent(input())
		want, wr := o.spec(model[o.k])
		model[o.k] = want
		var r result
		_, _, hung := guarded(func() { r = o.exec(m, nil) })
		if hung {
			return input(), "the last operation does not return"
		}
		if d := r.differs(wr); d != "" {
			return input(), "the last operation " + d
		}
		msg := ""
		p, v, _ := guarded(func() {
			for _, k := range ks {
				c, free := lookup(m, k)
				if !free {
					msg = "after the last operation a lock is still held"
					return
				}
				if c != model[k] {
					msg = fmt.Sprintf("afterwards the map holds %v for %v instead of %v", c, k, model[k])
					return
				}
			}
		})
		if p {
			msg = "Split panicked: " + short(v)
		}
		if msg != "" {
			return input(), msg
		}
	}
	return "", ""
}

// nested: the computer of LoadOrCompute runs other operations on the same key
func nested(g *rand.Rand) (string, string) {
	n := 1 + g.Intn(4)
	ks := newKeys(g)
	k := ks[0]
	m := psync.NewMap(n)
	inner := randomOp(g, ks[:1], false)
	outer := op{name: "LoadOrCompute", k: k, v: "outer"}
	in := fmt.Sprintf("NewMap(%d), then %v whose computer runs %v", n, outer, inner)
	setCurrent(in)
	var r, ri result
	_, _, hung := guarded(func() { r = outer.exec(m, func() { ri = inner.exec(m, nil) }) })
	if hung {
		return in, "the operation does not return"
	}
	c, wi := inner.spec(cell{})
	if d := ri.differs(wi); d != "" {
		return in, "the inner operation " + d
	}
	c2, w := outer.spec(c)
	w.calls = 1
	if d := r.differs(w); d != "" {
		return in, "the outer operation, which takes effect after the inner one, " + d
	}
	got, free := lookup(m, k)
	if !free || got != c2 {
		return in, fmt.Sprintf("afterwards the map holds %v instead of %v", got, c2)
	}
	return "", ""
}

type call struct {
	op
	r        result
	from, to int64
}

func linearizable(hist []call, init, final cell) bool {
	n := len(hist)
	type st struct {
		done int
		c    cell
	}
	seen := map[st]bool{}
	var rec func(s st) bool
	rec = func(s st) bool {
		if s.done == 1<<uint(n)-1 {
			return s.c == final
		}
		if seen[s] {
			return false
		}
		seen[s] = true
		first := int64(math.MaxInt64)
		for i := range hist {
			if s.done&(1<<uint(i)) == 0 && hist[i].to < first {
				first = hist[i].to
			}
		}
		for i := range hist {
			if s.done&(1<<uint(i)) != 0 || hist[i].from > first {
				continue
			}
			c, w := hist[i].spec(s.c)
			w.args = hist[i].r.args
			if hist[i].name == "Modify" {
				w.args = s.c
			}
			if hist[i].name == "LoadOrCompute" && w.calls == 0 && hist[i].r.calls == 1 {
				w.calls = 1 // computed in vain
			}
			if hist[i].r.differs(w) == "" && rec(st{s.done | 1<<uint(i), c}) {
				return true
			}
		}
		return false
	}
	return rec(st{0, init})
}

// concurrent runs operations on one key in several goroutines, all of which start while the lock of the split is held
func concurrent(g *rand.Rand, round int) (string, string) {
	m := psync.NewMap(1 + g.Intn(3))
	k := newKeys(g)[0]
	init := cell{}
	if g.Intn(2) == 0 {
		init = cell{true, "initial"}
		m.LoadOrStore(k, "initial")
	}
	threads, per := 2+g.Intn(3), 1+g.Intn(3)
	progs := make([][]call, threads)
	names := opNames
	if g.Intn(3) == 0 {
		names = []string{opNames[g.Intn(len(opNames))], opNames[g.Intn(len(opNames))]}
	}
	in := fmt.Sprintf("a key that is %v;", init)
	for i := range progs {
		in += fmt.Sprintf(" goroutine %d:", i)
		for j := 0; j < per; j++ {
			o := randomOp(g, []key{k}, false)
			o.name = names[g.Intn(len(names))]
			progs[i] = append(progs[i], call{op: o})
			in += " " + o.String() + ","
		}
	}
	setCurrent(in)
	var clock int64
	var wg sync.WaitGroup
	hold := g.Intn(3) > 0
	split := m.Split(k)
	if hold {
		split.Lock()
	}
	slow := g.Intn(2) == 0
	for i := range progs {
		prog := progs[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range prog {
				prog[j].from = atomic.AddInt64(&clock, 1)
				prog[j].r = prog[j].exec(m, func() {
					if slow {
						time.Sleep(20 * time.Microsecond)
					}
				})
				prog[j].to = atomic.AddInt64(&clock, 1)
			}
		}()
	}
	if hold {
		time.Sleep(150 * time.Microsecond)
		split.Unlock()
	}
	if _, _, hung := guarded(wg.Wait); hung {
		return in, "deadlock"
	}
	final, free := lookup(m, k)
	if !free {
		return in, "a lock is still held after all operations have returned"
	}
	var hist []call
	for _, p := range progs {
		hist = append(hist, p...)
	}
	if !linearizable(hist, init, final) {
		h := ""
		for _, c := range hist {
			h += fmt.Sprintf("\n%v at [%d,%d]: %v, %v (callback invoked %d times)", c.op, c.from, c.to, c.r.val, c.r.ok, c.r.calls)
		}
		return in, fmt.Sprintf("the history is not linearizable; finally the key is %v%s", final, h)
	}
	return "", ""
}

// allSplits returns the splits of a map that was made for n splits
func allSplits(m *psync.Map, n int) (r []*psync.Split) {
	for i := 0; i < n; i++ {
		r = append(r, m.Split(key{uint64(i), 0}))
	}
	return
}

func mapID(m map[interface{}]interface{}) uintptr { return reflect.ValueOf(m).Pointer() }

func writeLocked(s *psync.Split) bool {
	if s.TryRLock() {
		s.RUnlock()
		return false
	}
	return true
}

func isFree(s *psync.Split) bool {
	if s.TryLock() {
		s.Unlock()
		return true
	}
	return false
}

func eventuallyFree(s *psync.Split) bool {
	for i := 0; i < 2000; i++ {
		if isFree(s) {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func TestVerif_C13(t *testing.T) {
	g := rand.New(rand.NewSource(seed()))
	search(t, 300, func(i int) (string, string) {
		switch i % 3 {
		case 0:
			return opLocks(g)
		case 1:
			return hammer(g)
		}
		s := randomScenario(g, nil)
		return s.String(), s.run().locks(s)
	})
}

// opLocks checks which locks are held inside and after per-key operations
func opLocks(g *rand.Rand) (string, string) {
	n := 1 + g.Intn(5)
	ks := newKeys(g)
	m := psync.NewMap(n)
	splits := allSplits(m, n)
	for _, k := range ks {
		if g.Intn(2) == 0 {
			m.LoadOrStore(k, "initial")
		}
	}
	for j := 0; j < 8; j++ {
		o := randomOp(g, ks, true)
		c, _ := lookup(m, o.k)
		in := fmt.Sprintf("NewMap(%d), %v is %v, then %v", n, o.k, c, o)
		setCurrent(in)
		mine := m.Split(o.k)
		msg := ""
		_, _, hung := guarded(func() {
			o.exec(m, func() {
				for _, s := range splits {
					switch {
					case s == mine && o.name != "LoadOrCompute":
						if !writeLocked(s) {
							msg = "the callback runs without the write lock of the split"
						}
					case !isFree(s):
						msg = "while the callback runs, a lock is held that must not be held"
					}
				}
			})
		})
		if hung {
			return in, "the operation does not return"
		}
		for _, s := range splits {
			if msg == "" && !isFree(s) {
				msg = "a lock is still held after the operation"
			}
		}
		if msg != "" {
			return in, msg
		}
	}
	return "", ""
}

// hammer runs everything concurrently; unlocked accesses crash the map or are reported by the race detector
func hammer(g *rand.Rand) (string, string) {
	n := 1 + g.Intn(2)
	m := psync.NewMap(n)
	ks := newKeys(g)[:3]
	in := fmt.Sprintf("NewMap(%d) and concurrent calls of", n)
	var wg sync.WaitGroup
	var fs []func()
	for th := 0; th < 4; th++ {
		var os []op
		for j := 0; j < 6; j++ {
			o := randomOp(g, ks, false)
			os = append(os, o)
			in += " " + o.String()
		}
		fs = append(fs, func() {
			for _, o := range os {
				o.exec(m, nil)
			}
		})
	}
	for j := 0; j < 2; j++ {
		c := &meths[g.Intn(len(meths))]
		in += " " + c.name
		sum := func(mm map[interface{}]interface{}) (c int) {
			for k := range mm {
				c += k.(key).id
				mm[k] = c // the write lock is held
			}
			return
		}
		fs = append(fs, func() { c.plain(m, sum) })
	}
	setCurrent(in)
	start := make(chan struct{})
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() { defer wg.Done(); <-start; f() }()
	}
	close(start)
	if _, _, hung := guarded(wg.Wait); hung {
		return in, "deadlock"
	}
	for _, s := range allSplits(m, n) {
		if !eventuallyFree(s) {
			return in, "a lock is still held after all operations have returned"
		}
	}
	return "", ""
}
