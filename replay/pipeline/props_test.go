package pipelinereplay

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/exascience/pargo/pipeline"
)

// ---------------------------------------------------------------- C20

type holder struct {
	data interface{}
	n    int
	was  string
}

func TestVerif_C20(t *testing.T) {
	search(t, 400, func(it int) (string, string) {
		rng := rand.New(rand.NewSource(seed()*7919 + int64(it)))
		n := rng.Intn(12)
		if rng.Intn(8) == 0 {
			n = 200 + rng.Intn(3000)
		}
		var want []string // the elements
		var src pipeline.Source
		kind := rng.Intn(10)
		var prod func()
		ints := make([]int, n, n+rng.Intn(5))
		for i := range ints {
			ints[i] = rng.Intn(1000)
			want = append(want, fmt.Sprint(ints[i]))
		}
		var raw interface{}
		closeIt := rng.Intn(4) > 0
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		canceled := false
		name := ""
		lines := make([]string, n)
		for i := range lines {
			lines[i] = strings.Repeat(string(rune('a'+i%26)), 1+rng.Intn(30)) + fmt.Sprint(i)
			if rng.Intn(6) == 0 {
				lines[i] = ""
			}
		}
		text := strings.Join(lines, "\n")
		if n > 0 {
			text += "\n"
		}
		switch kind {
		case 0, 1:
			raw, name = ints, "slice"
		case 2:
			b := make([]byte, n)
			want = nil
			for i := range b {
				b[i] = byte('a' + rng.Intn(26))
				want = append(want, string(b[i:i+1]))
			}
			raw, name = string(b), "string"
		case 3:
			a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(0))).Elem()
			reflect.Copy(a, reflect.ValueOf(ints))
			raw, name = a.Interface(), "array"
		case 4, 5, 6:
			c := make(chan int, rng.Intn(3))
			prod = func() {
				for _, x := range ints {
					select {
					case c <- x:
					case <-ctx.Done():
						return
					}
				}
				if closeIt {
					close(c)
				} else {
					cancel()
				}
			}
			if !closeIt {
				canceled = true
			}
			if kind == 6 {
				src, name = pipeline.NewSingletonChan(c), "SingletonChan"
			} else {
				raw, name = c, "channel"
			}
		case 7:
			want = lines
			src, name = pipeline.NewScanner(strings.NewReader(text)), "Scanner"
		case 8:
			want = lines
			src, name = pipeline.NewBytesScanner(bytes.NewReader([]byte(text))), "BytesScanner"
		default:
			pos := 0
			src, name = pipeline.NewFunc(-1, func(k int) (interface{}, int, error) {
				if k > n-pos {
					k = n - pos
				}
				r := ints[pos : pos+k]
				pos += k
				return r, k, nil
			}), "Func"
		}
		in := fmt.Sprintf("%s of %d elements (scenario %d)", name, n, it)
		setCurrent(in)
		if src == nil {
			src = sourceOf(raw)
			if src == nil {
				return in, "the source is not accepted"
			}
		}
		if prod != nil {
			go prod()
		}
		// the source may have been used by another pipeline before
		earlier := 0
		ctx0, cancel0 := context.WithCancel(context.Background())
		defer cancel0()
		if !canceled && rng.Intn(3) == 0 {
			earlier = 1 + rng.Intn(3)
		}
		for i := 0; i < earlier; i++ {
			in += ", used before"
		}
		setCurrent(in)
		var got []string
		var hs []holder
		sizes := ""
		msg := ""
		panicked, val, hung := guarded(func() {
			if earlier > 0 {
				src.Prepare(ctx0)
			}
			for round := 0; ; round++ {
				if round == earlier {
					cancel0()
					size := src.Prepare(ctx)
					if known := kind <= 3; known && size != n-len(got) || !known && size != -1 {
						msg = fmt.Sprintf("Prepare returns %d", size)
						return
					}
				}
				k := 1 + rng.Intn(5)
				if rng.Intn(5) == 0 {
					k = 1 + rng.Intn(n+2)
				}
				sizes += fmt.Sprint(k, " ")
				r := src.Fetch(k)
				if r < 0 || r > k {
					msg = fmt.Sprintf("Fetch(%d) returns %d", k, r)
					return
				}
				if r == 0 && round < earlier {
					round = earlier - 1
					continue
				}
				if r == 0 {
					return
				}
				d := src.Data()
				var el []string
				if name == "SingletonChan" {
					el = []string{fmt.Sprint(d)}
					if r != 1 {
						msg = fmt.Sprintf("Fetch of a SingletonChan returns %d", r)
						return
					}
				} else {
					v := reflect.ValueOf(d)
					for i := 0; i < v.Len(); i++ {
						e := v.Index(i).Interface()
						switch x := e.(type) {
						case byte:
							if name == "string" {
								el = append(el, string([]byte{x}))
								continue
							}
						case []byte:
							el = append(el, string(x))
							continue
						}
						el = append(el, fmt.Sprint(e))
					}
					if v.Len() != r {
						msg = fmt.Sprintf("Fetch returns %d, but the batch has %d elements", r, v.Len())
						return
					}
				}
				got = append(got, el...)
				hs = append(hs, holder{d, r, fmt.Sprint(d)})
				if len(got) > n {
					return
				}
			}
		})
		in += " fetched with sizes " + sizes
		switch {
		case panicked:
			return in, fmt.Sprintf("panics: %v", val)
		case hung:
			return in, "does not terminate"
		case msg != "":
			return in, msg
		}
		for _, h := range hs {
			if fmt.Sprint(h.data) != h.was {
				return in, fmt.Sprintf("batch %s was changed to %s", short(h.was), short(fmt.Sprint(h.data)))
			}
		}
		if canceled {
			if len(got) > len(want) {
				return in, "more elements than sent"
			}
			want = want[:len(got)]
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return in, fmt.Sprintf("%d elements %s instead of %s", len(got), short(got), short(want))
		}
		if e := src.Err(); e != nil {
			return in, fmt.Sprintf("unexpected error %v", e)
		}
		return in, ""
	})
}

// sourceOf gives the source that a pipeline makes of a value.
func sourceOf(v interface{}) pipeline.Source {
	p := new(pipeline.Pipeline)
	p.Source(v)
	r := reflect.ValueOf(p).Elem()
	st := reflect.TypeOf((*pipeline.Source)(nil)).Elem()
	for i := 0; i < r.NumField(); i++ {
		if f := r.Field(i); f.Type() == st {
			s, _ := reflect.NewAt(st, unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(pipeline.Source)
			return s
		}
	}
	return nil
}

// ---------------------------------------------------------------- C25

type sizeSource struct {
	total, left int
	sizes       []int
	most        int
	fetched     int
}

func (s *sizeSource) Err() error                    { return nil }
func (s *sizeSource) Prepare(_ context.Context) int { return s.total }
func (s *sizeSource) Data() interface{}             { return s.fetched }
func (s *sizeSource) Fetch(n int) int {
	s.sizes = append(s.sizes, n)
	if len(s.sizes) > s.most {
		return 0
	}
	s.fetched = n
	if s.total >= 0 {
		if n > s.left || n < 0 {
			s.fetched = s.left
		}
		s.left -= s.fetched
	}
	return s.fetched
}

func TestVerif_C25(t *testing.T) {
	search(t, 2000, func(it int) (string, string) {
		rng := rand.New(rand.NewSource(seed()*6007 + int64(it)))
		pick := func() int {
			switch rng.Intn(8) {
			case 0:
				return -1 - rng.Intn(3)
			case 1:
				return 0
			case 2:
				return math.MaxInt64 - rng.Intn(4)
			case 3:
				return math.MaxInt64/2 - 2 + rng.Intn(4)
			case 4:
				return rng.Intn(5000)
			case 5:
				return 0x2000000 - 1024*rng.Intn(4) + rng.Intn(3)
			default:
				return 1 + rng.Intn(20)
			}
		}
		procs := 1 + rng.Intn(6)
		old := runtime.GOMAXPROCS(procs)
		defer runtime.GOMAXPROCS(old)
		s := &sizeSource{total: -1, most: 6}
		if rng.Intn(2) == 0 {
			s.total = pick()
			if s.total < 0 {
				s.total = rng.Intn(50)
			}
			s.left = s.total
			s.most = 200
		} else if rng.Intn(6) == 0 {
			s.most = 40000
		}
		n, inc, max := pick(), pick(), pick()
		setN, setV := rng.Intn(4) > 0, rng.Intn(4) > 0
		if !setN {
			n = 0
		}
		if !setV {
			inc, max = 0, 0
		}
		var p pipeline.Pipeline
		p.Source(s)
		p.Add(pipeline.StrictOrd(pipeline.Receive(func(_ int, d interface{}) interface{} { return d })))
		if setN {
			p.NofBatches(n)
		}
		if setV {
			p.SetVariableBatchSize(inc, max)
		}
		in := fmt.Sprintf("source of size %d, NofBatches(%d) set=%v, SetVariableBatchSize(%d,%d) set=%v, GOMAXPROCS(%d)", s.total, n, setN, inc, max, setV, procs)
		setCurrent(in)
		wantN := n
		if n < 1 {
			wantN = 2 * procs
		}
		if setN {
			if g := p.NofBatches(0); g != wantN {
				return in, fmt.Sprintf("NofBatches(0) returns %d", g)
			}
		}
		panicked, val, hung := guarded(p.Run)
		if panicked {
			return in, fmt.Sprintf("Run panics: %v", val)
		}
		if hung {
			return in, "Run does not terminate"
		}
		if s.total >= 0 {
			cnt, sum := 0, 0
			for _, k := range s.sizes {
				if k != s.sizes[0] || k < 1 {
					return in, "requested sizes " + short(s.sizes)
				}
				if sum < s.total {
					cnt++
					if k > s.total-sum {
						sum = s.total
					} else {
						sum += k
					}
				}
			}
			if cnt > wantN || sum < s.total && len(s.sizes) <= s.most {
				return in, fmt.Sprintf("%d batches are needed instead of at most %d: requested sizes %s", cnt, wantN, short(s.sizes))
			}
			return in, ""
		}
		wi, wm := inc, max
		if wi < 1 {
			wi = 1024
		}
		if wm < 1 {
			wm = 0x2000000
		}
		w := wi
		for i, k := range s.sizes {
			if w > wm {
				w = wm
			}
			if k != w {
				return in, fmt.Sprintf("size %d of batch %d instead of %d", k, i, w)
			}
			if w > wm-wi {
				w = wm
			} else {
				w += wi
			}
		}
		return in, ""
	})
}

// ---------------------------------------------------------------- C26-C28

func nodeOf(kind int, f pipeline.Filter) (string, pipeline.Node) {
	switch kind {
	case 0:
		return "Ord", pipeline.Ord(f)
	case 1:
		return "StrictOrd", pipeline.StrictOrd(f)
	case 2:
		return "Seq", pipeline.Seq(f)
	case 3:
		return "Par", pipeline.Par(f)
	case 4:
		return "NewNode(Parallel)", pipeline.NewNode(pipeline.Parallel, f)
	case 5:
		return "NewNode(Sequential)", pipeline.NewNode(pipeline.Sequential, f)
	case 6:
		return "NewNode(Ordered)", pipeline.NewNode(pipeline.Ordered, f)
	default:
		return fmt.Sprintf("LimitedPar(%d)", kind-6), pipeline.LimitedPar(kind-6, f)
	}
}

// batches is a source of given batches.
func batches(bs [][]int, known bool, nils map[int]bool) pipeline.Source {
	i := 0
	n := -1
	if known {
		n = 0
		for _, b := range bs {
			n += len(b)
		}
	}
	return pipeline.NewFunc(n, func(int) (interface{}, int, error) {
		if i == len(bs) {
			return nil, 0, nil
		}
		i++
		if nils[i-1] {
			return nil, 1, nil
		}
		return bs[i-1], 1 + len(bs[i-1]), nil
	})
}

func randomBatches(rng *rand.Rand) (bs [][]int, nils map[int]bool, all []int) {
	nb := rng.Intn(7)
	if rng.Intn(6) == 0 {
		nb = 30 + rng.Intn(60)
	}
	nils = map[int]bool{}
	x := 0
	for i := 0; i < nb; i++ {
		var b []int
		if k := rng.Intn(4); k > 0 {
			b = []int{}
			for k = rng.Intn(5); k > 0; k-- {
				b = append(b, x)
				x++
			}
		} else {
			nils[i] = rng.Intn(2) == 0
		}
		bs = append(bs, b)
		all = append(all, b...)
	}
	return
}

func TestVerif_C26(t *testing.T) {
	search(t, 1500, func(it int) (string, string) {
		rng := rand.New(rand.NewSource(seed()*9001 + int64(it)))
		bs, nils, _ := randomBatches(rng)
		val := rng.Intn(3) // 0: all false, 1: all true, 2: mixed
		truth := make([]bool, len(bs))
		any, all := false, true
		for i := range bs {
			truth[i] = val == 1 || val == 2 && rng.Intn(4) == 0
			any = any || truth[i]
			all = all && truth[i]
		}
		stop := rng.Intn(3) == 0
		q := rng.Intn(4)
		res := rng.Intn(2) == 0
		mk := []func(*bool, bool, pipeline.Predicate) pipeline.Filter{pipeline.Every, pipeline.NotEvery, pipeline.Some, pipeline.NotAny}[q]
		want := []bool{all, !all, any, !any}[q]
		name := []string{"Every", "NotEvery", "Some", "NotAny"}[q]
		known := []bool{!all, !all, any, any}[q] // whether the result becomes known before the end
		kind := rng.Intn(10)
		// the predicate is told the batch by its sequence number, in a preceding filter
		type elem struct {
			seq  int
			data interface{}
		}
		var f pipeline.Filter
		evaluated := make([]int, len(bs))
		var mu sync.Mutex
		f = mk(&res, stop, func(d interface{}) bool {
			e := d.(elem)
			mu.Lock()
			evaluated[e.seq]++
			mu.Unlock()
			if e.seq%3 == 0 {
				runtime.Gosched()
			}
			return truth[e.seq]
		})
		var p pipeline.Pipeline
		p.Source(batches(bs, rng.Intn(2) == 0, nils))
		wrap := pipeline.Receive(func(seq int, d interface{}) interface{} { return elem{seq, d} })
		bad := ""
		after := 0
		check := pipeline.Receive(func(seq int, d interface{}) interface{} {
			e, ok := d.(elem)
			mu.Lock()
			after++
			if !ok || e.seq != seq {
				bad = fmt.Sprintf("batch %d is not passed on: %v", seq, d)
			}
			mu.Unlock()
			return d
		})
		nn, node := nodeOf(kind, f)
		p.Add(pipeline.Par(wrap), node, pipeline.Par(check))
		in := fmt.Sprintf("%s(cancelWhenKnown=%v) in %s, predicate values %v", name, stop, nn, truth)
		setCurrent(in)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		panicked, pv, hung := guarded(func() { p.RunWithContext(ctx, cancel) })
		if panicked {
			return in, fmt.Sprintf("Run panics: %v", pv)
		}
		if hung {
			return in, "Run does not terminate"
		}
		mu.Lock()
		defer mu.Unlock()
		if bad != "" {
			return in, bad
		}
		if was := ctx.Err() != nil; was != (stop && known) {
			// a batch that makes the result known may be dropped by a cancelation only if there was one before
			return in, fmt.Sprintf("pipeline canceled: %v", was)
		}
		if stop && known {
			want = []bool{false, true, true, false}[q]
			if res != want {
				return in, fmt.Sprintf("result %v although the pipeline was canceled because it is %v", res, want)
			}
			return in, ""
		}
		for i, n := range evaluated {
			if n != 1 {
				return in, fmt.Sprintf("the predicate is evaluated %d times for batch %d", n, i)
			}
		}
		if res != want {
			return in, fmt.Sprintf("result %v instead of %v", res, want)
		}
		if after != len(bs) {
			return in, fmt.Sprintf("%d of %d batches are passed on", after, len(bs))
		}
		return in, ""
	})
}

func TestVerif_C27(t *testing.T) {
	search(t, 1500, func(it int) (string, string) {
		rng := rand.New(rand.NewSource(seed()*9011 + int64(it)))
		bs, nils, all := randomBatches(rng)
		known := rng.Intn(2) == 0
		kind := rng.Intn(10)
		cnt := rng.Intn(5) - 2
		var res []int
		for i := rng.Intn(3); i > 0; i-- {
			res = append(make([]int, 0, 4), append(res, -i)...)
		}
		pre := append([]int(nil), res...)
		count := rng.Intn(2) == 0
		var f pipeline.Filter
		if count {
			f = pipeline.Count(&cnt)
		} else {
			f = pipeline.Slice(&res)
		}
		nn, node := nodeOf(kind, f)
		in := fmt.Sprintf("Slice in %s, batches %s, nil batches %v, known size %v, initial slice %v", nn, short(bs), nils, known, pre)
		if count {
			in = fmt.Sprintf("Count in %s, batches %s, nil batches %v, known size %v", nn, short(bs), nils, known)
		}
		setCurrent(in)
		var p pipeline.Pipeline
		p.Source(batches(bs, known, nils))
		bad := ""
		var mu sync.Mutex
		n := 0
		p.Add(node, pipeline.Par(pipeline.Receive(func(seq int, d interface{}) interface{} {
			mu.Lock()
			defer mu.Unlock()
			n++
			if nils[seq] != (d == nil) || d != nil && fmt.Sprint(d) != fmt.Sprint(bs[seq]) {
				bad = fmt.Sprintf("batch %d is passed on as %v", seq, d)
			}
			return d
		})))
		panicked, pv, hung := guarded(p.Run)
		if panicked {
			return in, fmt.Sprintf("Run panics: %v", pv)
		}
		if hung {
			return in, "Run does not terminate"
		}
		if bad != "" {
			return in, bad
		}
		if n != len(bs) {
			return in, fmt.Sprintf("%d of %d batches are passed on", n, len(bs))
		}
		if count {
			if cnt != len(all) {
				return in, fmt.Sprintf("count %d instead of %d", cnt, len(all))
			}
		} else {
			want := append(append([]int(nil), pre...), all...)
			ordered := kind <= 1 || kind == 6
			if ordered {
				if fmt.Sprint(res) != fmt.Sprint(want) {
					return in, fmt.Sprintf("result %s instead of %s", short(res), short(want))
				}
			} else if msg := contiguous(res, pre, bs); msg != "" {
				return in, msg
			}
		}
		// a result that is not a settable slice
		if it%16 == 0 {
			var p2 pipeline.Pipeline
			x := 1
			p2.Source([]int{1, 2})
			p2.Add(pipeline.Par(pipeline.Slice(&x)))
			if panicked, pv, _ := guarded(p2.Run); panicked || p2.Err() == nil {
				return "Slice of a *int", fmt.Sprintf("panics: %v, error: %v", pv, p2.Err())
			}
		}
		return in, ""
	})
}

// contiguous: res is pre followed by the batches in some order.
func contiguous(res, pre []int, bs [][]int) string {
	if len(res) < len(pre) || fmt.Sprint(res[:len(pre)]) != fmt.Sprint(pre) {
		return fmt.Sprintf("the result %s does not start with the initial elements", short(res))
	}
	first := map[int][]int{}
	n := len(pre)
	for _, b := range bs {
		if len(b) > 0 {
			first[b[0]] = b
			n += len(b)
		}
	}
	if len(res) != n {
		return fmt.Sprintf("the result has %d elements instead of %d", len(res), n)
	}
	for i := len(pre); i < len(res); {
		b := first[res[i]]
		if b == nil {
			return fmt.Sprintf("element %d is out of place in %s", res[i], short(res))
		}
		delete(first, res[i])
		for _, x := range b {
			if res[i] != x {
				return fmt.Sprintf("batch %v is not contiguous in %s", b, short(res))
			}
			i++
		}
	}
	return ""
}

func TestVerif_C28(t *testing.T) {
	// sources of unknown size: no element beyond the limit, none lost before it
	for it := 0; it < 24; it++ {
		c := make(chan int, 8)
		for i := 0; i < 8; i++ {
			c <- i
		}
		close(c)
		var p pipeline.Pipeline
		kind := []string{"channel", "Scanner", "BytesScanner"}[it%3]
		switch it % 3 {
		case 0:
			p.Source(c)
		case 1:
			p.Source(pipeline.NewScanner(strings.NewReader("0\n1\n2\n3\n4\n5\n6\n7\n")))
		default:
			p.Source(pipeline.NewBytesScanner(strings.NewReader("0\n1\n2\n3\n4\n5\n6\n7\n")))
		}
		n := it / 3
		in := fmt.Sprintf("%s with 8 elements, Limit(%d, false) or Skip(%d)", kind, n, n)
		setCurrent(in)
		got := 0
		var counted int
		want := n
		if it%2 == 0 {
			p.Add(pipeline.Limit(n, false))
		} else {
			p.Add(pipeline.Skip(n))
			want = 8 - n
		}
		p.Add(pipeline.Ord(pipeline.Count(&counted), pipeline.Receive(func(_ int, d interface{}) interface{} {
			if d != nil {
				got += reflect.ValueOf(d).Len()
			}
			return d
		})))
		panicked, pv, hung := guarded(p.Run)
		if panicked || hung {
			t.Errorf("FAILING INPUT: %s\n  panics %v, hangs %v", in, pv, hung)
			return
		}
		if got != want || counted != want {
			t.Errorf("FAILING INPUT: %s\n  %d elements, Count says %d, instead of %d", in, got, counted, want)
			return
		}
	}
	search(t, 1500, func(it int) (string, string) {
		rng := rand.New(rand.NewSource(seed()*9029 + int64(it)))
		bs, nils, all := randomBatches(rng)
		known := rng.Intn(2) == 0
		n := rng.Intn(len(all)+4) - 1
		limit := rng.Intn(2) == 0
		stop := limit && rng.Intn(3) == 0
		if !limit && n < 0 && rng.Intn(4) > 0 {
			n = 0
		}
		var node pipeline.Node
		in := fmt.Sprintf("Skip(%d)", n)
		want := all
		if limit {
			node = pipeline.Limit(n, stop)
			in = fmt.Sprintf("Limit(%d, %v)", n, stop)
			if n >= 0 && n < len(all) {
				want = all[:n]
			}
		} else {
			node = pipeline.Skip(n)
			if n < 0 || n >= len(all) {
				want = nil
			} else {
				want = all[n:]
			}
		}
		in += fmt.Sprintf(", batches %s, nil batches %v, known size %v", short(bs), nils, known)
		setCurrent(in)
		var p pipeline.Pipeline
		p.Source(batches(bs, known, nils))
		size := 99
		var got []int
		var seqs []int
		p.Add(pipeline.Par(pipeline.Receive(func(seq int, d interface{}) interface{} {
			if seq%4 == 1 {
				time.Sleep(50 * time.Microsecond)
			}
			return d
		})), node, pipeline.Par(func(_ *pipeline.Pipeline, _ pipeline.NodeKind, s *int) (pipeline.Receiver, pipeline.Finalizer) {
			size = *s
			return func(_ int, d interface{}) interface{} { return d }, nil
		}), pipeline.Ord(pipeline.Receive(func(seq int, d interface{}) interface{} {
			seqs = append(seqs, seq)
			if d != nil {
				got = append(got, d.([]int)...)
			}
			return d
		})))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		panicked, pv, hung := guarded(func() { p.RunWithContext(ctx, cancel) })
		if panicked {
			return in, fmt.Sprintf("Run panics: %v", pv)
		}
		if hung {
			return in, "Run does not terminate"
		}
		if !limit && n < 0 {
			if p.Err() == nil || len(got) > 0 {
				return in, fmt.Sprintf("error %v, passes %v on", p.Err(), got)
			}
			return in, ""
		}
		if p.Err() != nil {
			return in, fmt.Sprintf("error %v", p.Err())
		}
		if stop {
			// the cancelation may drop what is still on its way
			if len(got) > len(want) || fmt.Sprint(got) != fmt.Sprint(want[:len(got)]) {
				return in, fmt.Sprintf("passes %s on instead of %s", short(got), short(want))
			}
			if was, reached := ctx.Err() != nil, n >= 0 && n <= len(all); was && !reached || !was && n >= 0 && n < len(all) {
				return in, fmt.Sprintf("canceled: %v", was)
			}
			return in, ""
		}
		if ctx.Err() != nil {
			return in, "the pipeline is canceled"
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return in, fmt.Sprintf("passes %s on instead of %s", short(got), short(want))
		}
		if known && size != len(want) || !known && size >= 0 && size != len(want) {
			return in, fmt.Sprintf("reports size %d instead of %d", size, len(want))
		}
		if len(seqs) != len(bs) {
			return in, fmt.Sprintf("passes %d of %d batches on", len(seqs), len(bs))
		}
		return in, ""
	})
}

// ---------------------------------------------------------------- C29

type failingReader struct{ e error }

func (r failingReader) Read([]byte) (int, error) { return 0, r.e }

func TestVerif_C29(t *testing.T) {
	search(t, 300, func(it int) (string, string) {
		rng := rand.New(rand.NewSource(seed()*9041 + int64(it)))
		switch it % 4 {
		case 3:
			// errors of the reader of a scanner
			n := rng.Intn(40)
			e := errors.New("reader")
			in := fmt.Sprintf("a reader that fails after %d lines", n)
			setCurrent(in)
			r := io.MultiReader(strings.NewReader(strings.Repeat("line\n", n)), failingReader{e})
			var p pipeline.Pipeline
			if rng.Intn(2) == 0 {
				in += ", Scanner"
				p.Source(pipeline.NewScanner(r))
			} else {
				in += ", BytesScanner"
				p.Source(pipeline.NewBytesScanner(r))
			}
			p.SetVariableBatchSize(1+rng.Intn(5), 5+rng.Intn(20))
			p.Add(pipeline.Ord(pipeline.Receive(func(_ int, d interface{}) interface{} { return d })))
			panicked, pv, hung := guarded(p.Run)
			if panicked || hung {
				return in, fmt.Sprintf("panics %v, hangs %v", pv, hung)
			}
			if p.Err() != e {
				return in, fmt.Sprintf("Err returns %v", p.Err())
			}
			return in, ""
		case 0:
			// concurrent SetErr in a parallel node
			n := 2 + rng.Intn(6)
			in := fmt.Sprintf("%d batches of a parallel node set errors, others read it", n)
			setCurrent(in)
			var p pipeline.Pipeline
			p.Source(make([]int, n))
			p.NofBatches(n)
			var mu sync.Mutex
			var winners []error
			bad := ""
			p.Add(pipeline.Par(pipeline.Receive(func(seq int, d interface{}) interface{} {
				e := fmt.Errorf("error %d", seq)
				ok := p.SetErr(e)
				got := p.Err()
				canceled := p.Context().Err() != nil
				mu.Lock()
				if ok {
					winners = append(winners, e)
				}
				if got == nil || ok && got != e {
					bad = fmt.Sprintf("Err returns %v", got)
				}
				if ok && !canceled {
					bad = "the pipeline is not canceled"
				}
				mu.Unlock()
				return d
			})))
			panicked, pv, hung := guarded(p.Run)
			if panicked || hung {
				return in, fmt.Sprintf("panics %v, hangs %v", pv, hung)
			}
			time.Sleep(time.Millisecond)
			mu.Lock()
			defer mu.Unlock()
			if len(winners) > 1 || bad != "" {
				return in, fmt.Sprintf("%d errors are accepted; %s", len(winners), bad)
			}
			if len(winners) == 1 && p.Err() != winners[0] {
				return in, fmt.Sprintf("Err returns %v instead of %v", p.Err(), winners[0])
			}
			if p.SetErr(errStop) && len(winners) > 0 {
				return in, "a second error is accepted"
			}
			return in, ""
		case 1:
			// errors of the source, read concurrently
			n := rng.Intn(5)
			atEnd := rng.Intn(2) == 0
			e := errors.New("source")
			once := rng.Intn(2) == 0
			in := fmt.Sprintf("source with an error after %d batches, together with the last batch: %v, reported once: %v", n, !atEnd, once)
			setCurrent(in)
			var p pipeline.Pipeline
			i := 0
			p.Source(pipeline.NewFunc(-1, func(int) (interface{}, int, error) {
				i++
				switch {
				case i <= n:
					return []int{i}, 1, nil
				case !atEnd && i == n+1:
					return []int{i}, 1, e
				}
				if once && i > n+1 {
					return nil, 0, nil
				}
				return nil, 0, e
			}))
			p.Add(pipeline.Par(pipeline.Receive(func(_ int, d interface{}) interface{} { return d })))
			quit := make(chan bool)
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-quit:
						return
					default:
						if x := p.Err(); x != nil && x != e {
							return
						}
						runtime.Gosched()
					}
				}
			}()
			panicked, pv, hung := guarded(p.Run)
			close(quit)
			wg.Wait()
			if panicked || hung {
				return in, fmt.Sprintf("panics %v, hangs %v", pv, hung)
			}
			if p.Err() != e {
				return in, fmt.Sprintf("Err returns %v", p.Err())
			}
			if i > n+2 {
				return in, fmt.Sprintf("%d fetches", i)
			}
			return in, ""
		default:
			// SetErr of an error in a filter, source error later
			e := errors.New("source")
			in := "a filter sets an error, and the source reports one afterwards"
			setCurrent(in)
			var p pipeline.Pipeline
			set := make(chan bool)
			i := 0
			p.Source(pipeline.NewFunc(-1, func(int) (interface{}, int, error) {
				i++
				if i == 1 {
					return []int{1}, 1, nil
				}
				<-set
				return []int{1}, 1, e
			}))
			var ok bool
			p.Add(pipeline.Par(pipeline.Receive(func(seq int, d interface{}) interface{} {
				if seq == 0 {
					ok = p.SetErr(errStop)
					close(set)
				}
				return d
			})))
			panicked, pv, hung := guarded(p.Run)
			if panicked || hung {
				return in, fmt.Sprintf("panics %v, hangs %v", pv, hung)
			}
			<-set
			if !ok || p.Err() != errStop {
				return in, fmt.Sprintf("SetErr returned %v, Err returns %v", ok, p.Err())
			}
			return in, ""
		}
	})
}
