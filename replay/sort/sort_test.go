package sortreplay

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	gosort "sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"

	psort "github.com/exascience/pargo/sort"
)

func rng(i int) *rand.Rand { return rand.New(rand.NewSource(seed()*1000003 + int64(i))) }

type elem struct{ key, id int }

// coll checks the arguments of its methods.
type coll struct {
	e    []elem
	bad  *atomic.Value
	temp bool
}

func (c *coll) fail(format string, args ...interface{}) {
	if c.bad.Load() == nil {
		c.bad.Store(fmt.Sprintf(format, args...))
	}
}

func (c *coll) Len() int { return len(c.e) }

func (c *coll) Less(i, j int) bool {
	if i < 0 || j < 0 || i >= len(c.e) || j >= len(c.e) {
		c.fail("Less(%d, %d) with %d elements", i, j, len(c.e))
		return false
	}
	return c.e[i].key < c.e[j].key
}

func (c *coll) Swap(i, j int) {
	if i < 0 || j < 0 || i >= len(c.e) || j >= len(c.e) {
		c.fail("Swap(%d, %d) with %d elements", i, j, len(c.e))
		return
	}
	c.e[i], c.e[j] = c.e[j], c.e[i]
}

type byKey []elem

func (s byKey) Len() int           { return len(s) }
func (s byKey) Less(i, j int) bool { return s[i].key < s[j].key }
func (s byKey) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }

func (c *coll) SequentialSort(i, j int) {
	if i < 0 || i > j || j > len(c.e) {
		c.fail("SequentialSort(%d, %d) with %d elements", i, j, len(c.e))
		return
	}
	gosort.Stable(byKey(c.e[i:j]))
}

func (c *coll) NewTemp() psort.StableSorter {
	e := make([]elem, len(c.e))
	for i := range e {
		e[i] = elem{-7, -7 - i}
	}
	return &coll{e, c.bad, true}
}

func (c *coll) Assign(source psort.StableSorter) func(i, j, len int) {
	src := source.(*coll)
	return func(i, j, n int) {
		if n < 0 || i < 0 || j < 0 || i+n > len(c.e) || j+n > len(src.e) {
			c.fail("Assign(...)(%d, %d, %d) with %d elements", i, j, n, len(c.e))
			return
		}
		copy(c.e[i:i+n], src.e[j:j+n])
	}
}

var grains = []int{0x500, 0x3000}

func hinted() []int {
	var r []int
	for _, f := range strings.Fields(os.Getenv("VERIF_HINTS")) {
		if n, err := strconv.Atoi(f); err == nil && n > 20 {
			r = append(r, n)
		}
	}
	return r
}

func size(r *rand.Rand, grain int) int {
	g := []int{grain}
	g = append(g, hinted()...)
	n := g[r.Intn(len(g))]
	if r.Intn(3) > 0 {
		n = grain
	}
	switch r.Intn(7) {
	case 0:
		return n - 2 + r.Intn(5)
	case 1:
		return n*(1+r.Intn(5)) - 2 + r.Intn(5)
	case 2:
		return r.Intn(40)
	case 3:
		return n + r.Intn(n)
	case 4:
		return 2*n + r.Intn(3*n)
	case 5:
		return n*4 + r.Intn(2*n)
	}
	return n + r.Intn(6*n)
}

var patterns = []string{"random", "few keys", "two keys", "equal", "ascending", "descending", "pipe", "sawtooth", "one inversion", "swapped ends", "runs", "shifted", "killer", "early inversion", "late inversion", "two inversions"}

func contents(r *rand.Rand, n int, pattern string) []elem {
	e := make([]elem, n)
	for i := range e {
		k := 0
		switch pattern {
		case "random":
			k = r.Intn(4*n + 1)
		case "few keys":
			k = r.Intn(5)
		case "two keys":
			k = r.Intn(2)
		case "equal":
		case "descending":
			k = n - i
		case "pipe":
			k = i
			if i > n/2 {
				k = n - i
			}
		case "sawtooth":
			k = i % 17
		case "runs":
			k = (i % (n/4 + 1)) / 3
		case "shifted":
			k = (i + n/3) % (n + 1)
		case "killer":
			k = i
			if i%2 == 0 {
				k = n - i
			}
		default:
			k = i
		}
		e[i] = elem{k, i}
	}
	if n > 2 {
		switch pattern {
		case "one inversion":
			j := 1 + r.Intn(n-1)
			e[j-1].key, e[j].key = e[j].key, e[j-1].key
		case "early inversion":
			j := 1 + r.Intn(14)
			if j >= n {
				j = n - 1
			}
			e[j-1].key, e[j].key = e[j].key, e[j-1].key
		case "late inversion":
			j := n - 1 - r.Intn(14)
			if j < 1 {
				j = 1
			}
			e[j-1].key, e[j].key = e[j].key, e[j-1].key
		case "two inversions":
			for q := 0; q < 2; q++ {
				j := 1 + r.Intn(n-1)
				e[j-1].key, e[j].key = e[j].key, e[j-1].key
			}
		case "swapped ends":
			e[0].key, e[n-1].key = e[n-1].key, e[0].key
		}
	}
	return e
}

func sorting(t *testing.T, stable bool, grain int) {
	search(t, 300, func(i int) (string, string) {
		r := rng(i)
		n := size(r, grain)
		if n < 0 {
			n = 0
		}
		pat := patterns[r.Intn(len(patterns))]
		e := contents(r, n, pat)
		want := append([]elem(nil), e...)
		gosort.Stable(byKey(want))
		c := &coll{e: e, bad: new(atomic.Value)}
		name := "Sort"
		if stable {
			name = "StableSort"
		}
		in := fmt.Sprintf("%s of %d elements, pattern %q, seed %d, number %d", name, n, pat, seed(), i)
		setCurrent(in)
		p, v, hung := guarded(func() {
			if stable {
				psort.StableSort(c)
			} else {
				psort.Sort(c)
			}
		})
		if hung {
			return in, "does not return"
		}
		if p {
			return in, "panics: " + short(v)
		}
		if b := c.bad.Load(); b != nil {
			return in, b.(string)
		}
		seen := make([]bool, n)
		for k, x := range c.e {
			if x.id < 0 || x.id >= n || seen[x.id] {
				return in, fmt.Sprintf("the result is not a permutation: position %d holds element %d", k, x.id)
			}
			seen[x.id] = true
			if k > 0 && c.e[k].key < c.e[k-1].key {
				return in, fmt.Sprintf("not sorted: key %d before key %d at position %d", c.e[k-1].key, c.e[k].key, k)
			}
			if stable && c.e[k] != want[k] {
				return in, fmt.Sprintf("not stable: position %d holds original element %d, want %d", k, c.e[k].id, want[k].id)
			}
		}
		return "", ""
	})
}

func TestVerif_C16(t *testing.T) { sorting(t, false, grains[0]) }
func TestVerif_C17(t *testing.T) { sorting(t, true, grains[1]) }

func TestVerif_C18(t *testing.T) {
	search(t, 3000, func(i int) (string, string) {
		r := rng(i)
		n := size(r, grains[0])
		if n < 0 {
			n = 0
		}
		dups := r.Intn(3)
		is := make([]int, n)
		for k := range is {
			is[k] = 1000 + k>>uint(dups*2)
		}
		what := "sorted"
		if n > 1 && r.Intn(4) > 0 {
			p := 1 + r.Intn(n-1)
			switch r.Intn(5) {
			case 0:
				p = n - 1
			case 1:
				if n > 14 {
					p = 1 + r.Intn(13)
				}
			case 2:
				// the halves of the halves ...
				lo, m := 10, n-10
				for d := r.Intn(8); d >= 0 && m > 1; d-- {
					h := m / 2
					if r.Intn(2) == 0 {
						m = h
					} else {
						lo, m = lo+h, m-h
					}
				}
				p = lo + r.Intn(3) - 1
				if p < 1 || p >= n {
					p = n - 1
				}
			}
			// everything from p on is moved below its predecessor, or only p
			d := is[p] - is[p-1] + 1
			if r.Intn(2) == 0 {
				for q := p; q < n; q++ {
					is[q] -= d
				}
			} else {
				is[p] -= d
			}
			what = fmt.Sprintf("first inversion at %d", p)
		}
		want := gosort.IntsAreSorted(is)
		fs, ss := make([]float64, n), make([]string, n)
		for k, v := range is {
			fs[k] = float64(v)
			ss[k] = fmt.Sprintf("%08d", v)
		}
		if r.Intn(3) == 0 && n > 0 {
			// NaNs come first
			for q := r.Intn(n + 1); q > 0; q-- {
				fs[q-1] = math.NaN()
			}
		}
		wantF := gosort.Float64sAreSorted(fs)
		in := fmt.Sprintf("%d elements, %s, seed %d, number %d", n, what, seed(), i)
		setCurrent(in)
		var got [5]bool
		wants := [5]bool{want, want, wantF, want, wantF}
		names := [5]string{"IsSorted", "IntsAreSorted", "Float64sAreSorted", "StringsAreSorted", "IsSorted of a Float64Slice"}
		c := &coll{bad: new(atomic.Value), e: make([]elem, n)}
		for k, v := range is {
			c.e[k].key = v
		}
		p, v, hung := guarded(func() {
			got = [5]bool{psort.IsSorted(c), psort.IntsAreSorted(is), psort.Float64sAreSorted(fs), psort.StringsAreSorted(ss), psort.IsSorted(psort.Float64Slice(fs))}
		})
		if hung {
			return in, "does not return"
		}
		if p {
			return in, "panics: " + short(v)
		}
		if b := c.bad.Load(); b != nil {
			return in, b.(string)
		}
		for k := range got {
			if got[k] != wants[k] {
				return in, fmt.Sprintf("%s returns %v, want %v", names[k], got[k], wants[k])
			}
		}
		// the collection belongs to the caller again
		for k := range is {
			is[k] = 0
			fs[k] = 0
			ss[k] = ""
			c.e[k].key = 0
		}
		return "", ""
	})
}

type adapter struct {
	name    string
	sorter  func(r *rand.Rand, n int) (psort.StableSorter, interface{})
	at      func(s interface{}, i int) string
	less    func(s interface{}, i, j int) bool
	segment func(s interface{}, i, j int)
	of      func(x psort.StableSorter) interface{}
}

func adapters() []adapter {
	return []adapter{
		{"IntSlice", func(r *rand.Rand, n int) (psort.StableSorter, interface{}) {
			s := make([]int, n, n+3)
			for i := range s {
				s[i] = r.Intn(7) - 3
				if r.Intn(9) == 0 {
					s[i] = []int{math.MaxInt32, math.MinInt32, int(^uint(0) >> 1), -int(^uint(0)>>1) - 1}[r.Intn(4)]
				}
			}
			return psort.IntSlice(s), s
		}, func(s interface{}, i int) string { return fmt.Sprint(s.([]int)[i]) },
			func(s interface{}, i, j int) bool { return s.([]int)[i] < s.([]int)[j] },
			func(s interface{}, i, j int) { gosort.Ints(s.([]int)[i:j]) },
			func(x psort.StableSorter) interface{} {
				if v, ok := x.(psort.IntSlice); ok {
					return []int(v)
				}
				return nil
			}},
		{"Float64Slice", func(r *rand.Rand, n int) (psort.StableSorter, interface{}) {
			s := make([]float64, n, n+3)
			for i := range s {
				s[i] = []float64{math.NaN(), 0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), r.Float64()}[r.Intn(8)]
			}
			return psort.Float64Slice(s), s
		}, func(s interface{}, i int) string { return fmt.Sprintf("%x", math.Float64bits(s.([]float64)[i])) },
			func(s interface{}, i, j int) bool {
				a, b := s.([]float64)[i], s.([]float64)[j]
				return a < b || math.IsNaN(a) && !math.IsNaN(b)
			},
			func(s interface{}, i, j int) { gosort.Stable(gosort.Float64Slice(s.([]float64)[i:j])) },
			func(x psort.StableSorter) interface{} {
				if v, ok := x.(psort.Float64Slice); ok {
					return []float64(v)
				}
				return nil
			}},
		{"StringSlice", func(r *rand.Rand, n int) (psort.StableSorter, interface{}) {
			s := make([]string, n, n+3)
			for i := range s {
				s[i] = []string{"", "a", "b", "aa", "ab", "B", "\xff", "é"}[r.Intn(8)]
			}
			return psort.StringSlice(s), s
		}, func(s interface{}, i int) string { return strconv.Quote(s.([]string)[i]) },
			func(s interface{}, i, j int) bool { return s.([]string)[i] < s.([]string)[j] },
			func(s interface{}, i, j int) { gosort.Strings(s.([]string)[i:j]) },
			func(x psort.StableSorter) interface{} {
				if v, ok := x.(psort.StringSlice); ok {
					return []string(v)
				}
				return nil
			}},
	}
}

func (a *adapter) dump(s interface{}, n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = a.at(s, i)
	}
	return r
}

func diff(got, want []string) string {
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("element %d is %s, want %s", i, got[i], want[i])
		}
	}
	return ""
}

func TestVerif_C19(t *testing.T) {
	as := adapters()
	search(t, 20000, func(i int) (string, string) {
		r := rng(i)
		a := &as[i%len(as)]
		n := r.Intn(30)
		s, raw := a.sorter(r, n)
		in := fmt.Sprintf("%s of %d elements %v, seed %d, number %d", a.name, n, short(a.dump(raw, n)), seed(), i)
		setCurrent(in)
		msg := ""
		p, v, hung := guarded(func() {
			if s.Len() != n {
				msg = fmt.Sprintf("Len() = %d", s.Len())
				return
			}
			before := a.dump(raw, n)
			if n > 0 {
				x, y := r.Intn(n), r.Intn(n)
				if s.Less(x, y) != a.less(raw, x, y) {
					msg = fmt.Sprintf("Less(%d, %d) = %v", x, y, s.Less(x, y))
					return
				}
				if sw, ok := s.(interface{ Swap(i, j int) }); ok {
					sw.Swap(x, y)
					before[x], before[y] = before[y], before[x]
					if d := diff(a.dump(raw, n), before); d != "" {
						msg = fmt.Sprintf("Swap(%d, %d): %s", x, y, d)
						return
					}
				}
			}
			x := r.Intn(n + 1)
			y := x + r.Intn(n-x+1)
			cp, rawcp := a.sorter(rand.New(rand.NewSource(1)), n)
			cp.Assign(s)(0, 0, n)
			if d := diff(a.dump(rawcp, n), before); d != "" {
				msg = "copy of everything: " + d
				return
			}
			s.SequentialSort(x, y)
			a.segment(rawcp, x, y)
			if d := diff(a.dump(raw, n), a.dump(rawcp, n)); d != "" {
				msg = fmt.Sprintf("SequentialSort(%d, %d): %s", x, y, d)
				return
			}
			before = a.dump(raw, n)
			tmp := s.NewTemp()
			rt := a.of(tmp)
			if rt == nil {
				msg = fmt.Sprintf("NewTemp() is a %T", tmp)
				return
			}
			if tmp.Len() != n {
				msg = fmt.Sprintf("NewTemp() has %d elements", tmp.Len())
				return
			}
			tmp.Assign(s)(0, 0, n)
			tb := a.dump(rt, n)
			if n > 0 {
				k, l, m := r.Intn(n+1), r.Intn(n+1), 0
				if q := n - k; q > 0 {
					m = r.Intn(q + 1)
				}
				if m > n-l {
					m = n - l
				}
				o, ro := a.sorter(r, n)
				ob := a.dump(ro, n)
				tmp.Assign(o)(k, l, m)
				for q := 0; q < m; q++ {
					tb[k+q] = ob[l+q]
				}
				if d := diff(a.dump(rt, n), tb); d != "" {
					msg = fmt.Sprintf("Assign(...)(%d, %d, %d): %s", k, l, m, d)
					return
				}
				if d := diff(a.dump(ro, n), ob); d != "" {
					msg = fmt.Sprintf("Assign(...)(%d, %d, %d) changes its source: %s", k, l, m, d)
					return
				}
			}
			if d := diff(a.dump(raw, n), before); d != "" {
				msg = "the temporary collection shares memory with the original: " + d
			}
		})
		if hung {
			return in, "does not return"
		}
		if p {
			return in, "panics: " + short(v)
		}
		if msg != "" {
			return in, msg
		}
		return "", ""
	})
}
