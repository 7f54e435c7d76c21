package pipelinereplay

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/exascience/pargo/pipeline"
)

var kindNames = []string{"Ord", "StrictOrd", "Seq", "Par", "LimitedPar2", "LimitedPar3", "LimitedPar4", "LimitedPar1", "LimitedPar0", "LimitedPar-1"}

// limit is the number of receiver calls of the node that may run at the same time.
func (s *nodeSpec) limit(procs int) int {
	switch k := s.kind; {
	case k == 3:
		return 1 << 30
	case k >= 8:
		return procs
	case k >= 4 && k <= 6:
		return k - 2
	}
	return 1
}

// A flow is a random pipeline with recording filters.

type tb struct {
	seq  int
	vals []int
	path []int
}

type flt struct {
	id        int
	node      int
	recv, fin bool
}

type nodeSpec struct {
	kind  int // see kindNames
	flts  []*flt
	via   int // 0 as is, 1 added together with the next one
	alias bool
}

type flow struct {
	rng      *rand.Rand
	specs    []*nodeSpec
	total    int // number of elements
	known    bool
	nbatches int
	inc, max int
	stopAt   int // batch at which a filter cancels or sets an error; -1: never
	stopIn   int // its filter
	stopHow  int // 1 cancel 2 SetErr
	slow     int
	withCtx  bool
	lowProcs int

	mu       sync.Mutex
	problems map[string]string
	seen     map[int][]int // filter -> sequence numbers in order of the calls
	active   map[int]int
	fins     []int
	fetches  []int
	done     int32
	stopped  int32
	late     int32
	returned bool
}

func (f *flow) problem(prop, format string, args ...interface{}) {
	if f.problems[prop] == "" {
		f.problems[prop] = fmt.Sprintf(format, args...)
	}
}

func (f *flow) String() string {
	var b strings.Builder
	for _, s := range f.specs {
		fmt.Fprintf(&b, "%s(", kindNames[s.kind])
		for i, fl := range s.flts {
			if i > 0 {
				b.WriteByte(',')
			}
			switch {
			case fl.recv && fl.fin:
				b.WriteString("rf")
			case fl.recv:
				b.WriteString("r")
			case fl.fin:
				b.WriteString("f")
			default:
				b.WriteString("nil")
			}
		}
		b.WriteString(") ")
	}
	fmt.Fprintf(&b, "elements=%d known=%v NofBatches=%d SetVariableBatchSize(%d,%d) GOMAXPROCS=%d", f.total, f.known, f.nbatches, f.inc, f.max, f.lowProcs)
	if f.stopAt >= 0 {
		fmt.Fprintf(&b, " %s in filter %d at batch %d", []string{"", "Cancel", "SetErr"}[f.stopHow], f.stopIn, f.stopAt)
	}
	return b.String()
}

func newFlow(rng *rand.Rand, stop bool) *flow {
	f := &flow{rng: rng, problems: map[string]string{}, seen: map[int][]int{}, active: map[int]int{}, stopAt: -1}
	nn := 1 + rng.Intn(6)
	id := 0
	sometimesNil := rng.Intn(2) == 0
	for i := 0; i < nn; i++ {
		s := &nodeSpec{kind: rng.Intn(len(kindNames)), via: rng.Intn(2), alias: rng.Intn(2) == 0}
		if i > 0 && rng.Intn(3) == 0 {
			s.kind = f.specs[i-1].kind
		}
		nf := rng.Intn(4)
		if rng.Intn(3) > 0 && nf == 0 {
			nf = 1
		}
		for j := 0; j < nf; j++ {
			fl := &flt{id: id, node: i, recv: rng.Intn(5) > 0, fin: rng.Intn(3) > 0}
			if sometimesNil && rng.Intn(4) == 0 {
				fl.recv, fl.fin = false, false
			}
			id++
			s.flts = append(s.flts, fl)
		}
		f.specs = append(f.specs, s)
	}
	switch rng.Intn(4) {
	case 0:
		f.total = rng.Intn(4)
	case 1:
		f.total = 100 + rng.Intn(200)
	default:
		f.total = rng.Intn(40)
	}
	f.known = rng.Intn(2) == 0
	f.nbatches = 1 + rng.Intn(60)
	f.inc = 1 + rng.Intn(3)
	f.max = 1 + rng.Intn(6)
	f.slow = rng.Intn(3)
	f.withCtx = rng.Intn(2) == 0
	f.lowProcs = []int{1, 2, 4, 8}[rng.Intn(4)]
	if stop && id > 0 && f.total > 0 {
		f.stopAt = rng.Intn(8)
		f.stopIn = rng.Intn(id)
		f.stopHow = 1 + rng.Intn(2)
	}
	return f
}

func (f *flow) pause(seed int) {
	switch f.slow {
	case 3:
		time.Sleep(time.Duration(50+seed%4*50) * time.Microsecond)
	case 1:
		if seed%5 == 0 {
			time.Sleep(time.Duration(seed%3) * 100 * time.Microsecond)
		}
	case 2:
		for i := 0; i < seed%4; i++ {
			runtime.Gosched()
		}
	}
}

func (f *flow) filter(fl *flt, before *[]int, ordered, exclusive bool) pipeline.Filter {
	return func(p *pipeline.Pipeline, kind pipeline.NodeKind, size *int) (r pipeline.Receiver, fin pipeline.Finalizer) {
		if fl.recv {
			r = func(seqNo int, data interface{}) interface{} {
				f.mu.Lock()
				f.active[fl.node]++
				n := f.active[fl.node]
				if exclusive && n > 1 {
					f.problem("C21", "two receiver calls of node %d run concurrently", fl.node)
				}
				if n > f.specs[fl.node].limit(f.lowProcs) {
					f.problem("C30", "%d receiver calls of node %d run concurrently", n, fl.node)
				}
				if ordered && len(f.seen[fl.id]) != seqNo {
					f.problem("C21", "filter %d of an ordered node gets batch %d after the batches %v", fl.id, seqNo, f.seen[fl.id])
				}
				f.seen[fl.id] = append(f.seen[fl.id], seqNo)
				for _, x := range f.fins {
					if x == fl.id {
						f.problem("C23", "filter %d gets batch %d after its finalizer was called", fl.id, seqNo)
					}
				}
				if f.returned {
					f.problem("C23", "filter %d gets batch %d after Run has returned", fl.id, seqNo)
				}
				d, ok := data.(*tb)
				if !ok || d.seq != seqNo {
					f.problem("C22", "filter %d gets %v with sequence number %d", fl.id, data, seqNo)
					d = &tb{seq: seqNo}
				} else if fmt.Sprint(d.path) != fmt.Sprint(*before) {
					f.problem("C22", "filter %d gets batch %d after the filters %v instead of %v", fl.id, seqNo, d.path, *before)
				}
				f.mu.Unlock()
				f.pause(fl.id*7 + seqNo*3)
				if seqNo == f.stopAt && fl.id == f.stopIn {
					if f.stopHow == 1 {
						p.Cancel()
					} else if !p.SetErr(errStop) {
						f.mu.Lock()
						f.problem("C29", "SetErr returns false for the first error")
						f.mu.Unlock()
					}
					atomic.StoreInt32(&f.stopped, 1)
				}
				res := &tb{seq: d.seq, vals: d.vals, path: append(append([]int(nil), d.path...), fl.id)}
				f.mu.Lock()
				f.active[fl.node]--
				f.mu.Unlock()
				return res
			}
		}
		if fl.fin {
			fin = func() {
				f.mu.Lock()
				defer f.mu.Unlock()
				if f.active[fl.node] != 0 {
					f.problem("C23", "finalizer of filter %d is called while receivers of its node are running", fl.id)
				}
				if f.returned {
					f.problem("C23", "finalizer of filter %d is called after Run has returned", fl.id)
				}
				if fl.recv && f.stopAt < 0 && len(f.seen[fl.id]) != len(f.fetches) {
					f.problem("C23", "finalizer of filter %d is called after %d of %d batches", fl.id, len(f.seen[fl.id]), len(f.fetches))
				}
				f.fins = append(f.fins, fl.id)
			}
		}
		return
	}
}

var errStop = errors.New("stop")

func (f *flow) build() *pipeline.Pipeline {
	p := new(pipeline.Pipeline)
	pos := 0
	pre := 0
	size := -1
	if f.known {
		size = f.total
	}
	p.Source(pipeline.NewFunc(size, func(n int) (interface{}, int, error) {
		if atomic.LoadInt32(&f.stopped) != 0 {
			if atomic.AddInt32(&f.late, 1) > 1 {
				f.mu.Lock()
				f.problem("C24", "%d fetches have started after the pipeline was canceled", f.late)
				f.mu.Unlock()
			}
		}
		if f.slow < 3 {
			f.pause(pos)
		}
		k := n
		if k > f.total-pos {
			k = f.total - pos
		}
		var vals []int
		for i := 0; i < k; i++ {
			vals = append(vals, pos+i)
		}
		pos += k
		f.mu.Lock()
		if k > 0 {
			f.fetches = append(f.fetches, n)
		}
		f.mu.Unlock()
		pre++
		return &tb{seq: pre - 1, vals: vals}, k, nil
	}))
	p.NofBatches(f.nbatches)
	p.SetVariableBatchSize(f.inc, f.max)
	var path []int
	var pend []pipeline.Node
	for _, s := range f.specs {
		ordered := s.kind <= 1
		exclusive := s.limit(f.lowProcs) == 1
		fs := make([]pipeline.Filter, 0, 8)
		for _, fl := range s.flts {
			b := append([]int(nil), path...)
			fs = append(fs, f.filter(fl, &b, ordered, exclusive))
			if fl.recv {
				path = append(path, fl.id)
			}
		}
		var n pipeline.Node
		switch s.kind {
		case 0:
			n = pipeline.Ord(fs...)
		case 1:
			n = pipeline.StrictOrd(fs...)
		case 2:
			n = pipeline.Seq(fs...)
		case 3:
			n = pipeline.Par(fs...)
		case 7, 8, 9:
			n = pipeline.LimitedPar(8-s.kind, fs...)
		default:
			n = pipeline.LimitedPar(s.kind-2, fs...)
		}
		pend = append(pend, n)
		if s.via == 0 {
			p.Add(pend...)
			pend = nil
		}
	}
	p.Add(pend...)
	return p
}

// run builds and runs the pipeline; problems are then found in f.problems.
func (f *flow) run() {
	setCurrent(f.String())
	old := runtime.GOMAXPROCS(f.lowProcs)
	defer runtime.GOMAXPROCS(old)
	base := runtime.NumGoroutine()
	p := f.build()
	var cancel context.CancelFunc
	panicked, val, hung := guarded(func() {
		if f.withCtx {
			var ctx context.Context
			ctx, cancel = context.WithCancel(context.Background())
			p.RunWithContext(ctx, cancel)
		} else {
			p.Run()
		}
	})
	f.mu.Lock()
	if f.stopHow == 0 {
		// after an error or a cancelation receivers that have started may still be running
		f.returned = true
	}
	if panicked {
		f.problem("any", "Run panics: %v", val)
	}
	if hung {
		f.problem("C24", "the pipeline does not terminate")
		f.mu.Unlock()
		return
	}
	if f.stopAt < 0 && !panicked {
		n := len(f.fetches)
		var fins []int
		for _, s := range f.specs {
			for _, fl := range s.flts {
				if fl.fin {
					fins = append(fins, fl.id)
				}
				if fl.recv {
					got := f.seen[fl.id]
					cnt := map[int]int{}
					for _, x := range got {
						cnt[x]++
					}
					for i := 0; i < n; i++ {
						if cnt[i] != 1 {
							f.problem("C22", "filter %d gets batch %d %d times (of %d batches)", fl.id, i, cnt[i], n)
							if s.kind <= 1 {
								f.problem("C21", "filter %d of an ordered node gets batch %d %d times", fl.id, i, cnt[i])
							}
						}
					}
					if len(got) > n {
						f.problem("C22", "filter %d gets %d of %d batches", fl.id, len(got), n)
					}
				}
			}
		}
		if fmt.Sprint(f.fins) != fmt.Sprint(fins) {
			f.problem("C23", "the finalizers called are %v instead of %v", f.fins, fins)
			f.problem("C22", "the finalizers called are %v instead of %v", f.fins, fins)
		}
		sum := 0
		for _, k := range f.fetches {
			sum += k
		}
		if sum < f.total && n > 0 {
			f.problem("C22", "only %d of %d elements are fetched", sum, f.total)
		}
	} else if f.stopAt >= 0 && f.stopHow == 2 && atomic.LoadInt32(&f.stopped) != 0 && p.Err() != errStop {
		f.problem("C29", "Err returns %v instead of the error that was set", p.Err())
	}
	f.mu.Unlock()
	if cancel != nil {
		cancel()
	}
	// no goroutine stays behind
	for i := 0; ; i++ {
		if runtime.NumGoroutine() <= base {
			break
		}
		if i > 3000 {
			f.mu.Lock()
			f.problem("C24", "%d goroutines are left behind", runtime.NumGoroutine()-base)
			f.mu.Unlock()
			break
		}
		time.Sleep(time.Millisecond)
	}
}

func flowTest(t *testing.T, prop string, stop int) {
	search(t, 300, func(i int) (string, string) {
		f := newFlow(rand.New(rand.NewSource(seed()*1000003+int64(i))), stop > 0 && i%stop == 0)
		f.run()
		f.mu.Lock()
		defer f.mu.Unlock()
		if m := f.problems["any"]; m != "" {
			return f.String(), m
		}
		return f.String(), f.problems[prop]
	})
}

func TestVerif_C21(t *testing.T) { flowTest(t, "C21", 0) }

func TestVerif_C22(t *testing.T) {
	// two nodes that were made from the same slice of filters
	for k := 0; k < 4; k++ {
		mk := []func(...pipeline.Filter) pipeline.Node{pipeline.Seq, pipeline.Par, pipeline.StrictOrd, func(fs ...pipeline.Filter) pipeline.Node { return pipeline.LimitedPar(3, fs...) }}[k]
		fs := make([]pipeline.Filter, 1, 4)
		var mu sync.Mutex
		var log []string
		rec := func(name string) pipeline.Filter {
			return pipeline.Receive(func(_ int, data interface{}) interface{} {
				mu.Lock()
				log = append(log, name)
				mu.Unlock()
				return data
			})
		}
		fs[0] = rec("f")
		in := fmt.Sprintf("two nodes of kind %d made from one slice of filters", k)
		setCurrent(in)
		var p, q pipeline.Pipeline
		p.Source([]int{1})
		q.Source([]int{1})
		p.Add(mk(fs...), mk(rec("g")))
		q.Add(mk(fs...), mk(rec("h")))
		p.Run()
		if fmt.Sprint(log) != "[f g]" {
			t.Errorf("FAILING INPUT: %s\n  the receivers %v run instead of [f g]", in, log)
			return
		}
	}
	flowTest(t, "C22", 0)
}

func TestVerif_C23(t *testing.T) { flowTest(t, "C23", 0) }

func TestVerif_C24(t *testing.T) {
	// sources that wait for an element when the pipeline is canceled, used for the first or second time
	for it := 0; it < 8; it++ {
		c := make(chan int, 8)
		src := pipeline.NewSingletonChan(c)
		in := fmt.Sprintf("a channel source that waits when the pipeline is canceled, SingletonChan: %v, used before: %v", it%2 == 0, it%4 < 2)
		setCurrent(in)
		for round := 0; round < 2; round++ {
			if it%4 >= 2 && round == 0 {
				continue
			}
			for i := 0; i < 3; i++ {
				c <- i
			}
			var p pipeline.Pipeline
			if it%2 == 0 {
				p.Source(src)
			} else {
				p.Source(c)
			}
			p.SetVariableBatchSize(1, 1)
			p.Add(pipeline.Ord(pipeline.Receive(func(seq int, d interface{}) interface{} {
				if seq == 2 {
					go func() {
						time.Sleep(time.Duration(it) * time.Millisecond)
						p.Cancel()
					}()
				}
				return d
			})))
			panicked, pv, hung := guarded(p.Run)
			if panicked || hung {
				t.Errorf("FAILING INPUT: %s\n  panics %v, hangs %v", in, pv, hung)
				return
			}
		}
	}
	flowTest(t, "C24", 2)
}

func TestVerif_C30(t *testing.T) {
	search(t, 60, func(i int) (string, string) {
		rng := rand.New(rand.NewSource(seed()*1000003 + int64(i)))
		f := newFlow(rng, false)
		f.total += 20
		f.inc, f.max = 1, 1
		f.slow = 3
		// some neighbours of the same family, which may be merged
		for j := 1; j < len(f.specs); j++ {
			if rng.Intn(2) == 0 {
				k := []int{4, 5, 6, 8}
				if rng.Intn(3) == 0 {
					k = []int{0, 2, 7}
				}
				f.specs[j-1].kind, f.specs[j].kind = k[rng.Intn(len(k))], k[rng.Intn(len(k))]
			}
		}
		f.run()
		f.mu.Lock()
		defer f.mu.Unlock()
		if m := f.problems["any"]; m != "" {
			return f.String(), m
		}
		return f.String(), f.problems["C30"]
	})
}
