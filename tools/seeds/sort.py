Q, MS, S = "sort/quicksort.go", "sort/mergesort.go", "sort/sort.go"
HDR = '''package verifdemo
import ("testing";"time";"math";gosort "sort";psort "github.com/exascience/pargo/sort")
var _ = time.Now
var _ = math.NaN
type E struct{ k, id int }
type S []E
func (s S) Len() int { return len(s) }
func (s S) Less(i, j int) bool { return s[i].k < s[j].k }
func (s S) Swap(i, j int) { s[i], s[j] = s[j], s[i] }
func (s S) SequentialSort(i, j int) { if slow { time.Sleep(300*time.Millisecond) }; gosort.Stable(s[i:j]) }
func (s S) NewTemp() psort.StableSorter { r := make(S, len(s)); r[0].id = -1; return r }
func (s S) Assign(src psort.StableSorter) func(i, j, n int) {
	o := src.(S)
	if slow && len(s) > 0 && s[0].id == -1 { time.Sleep(time.Second) }
	return func(i, j, n int) { copy(s[i:i+n], o[j:j+n]) }
}
var slow bool
func check(t *testing.T, s S, stable bool) {
	want := append(S(nil), s...)
	gosort.Stable(want)
	if stable { psort.StableSort(s) } else { psort.Sort(s) }
	seen := make([]bool, len(s))
	for i := range s {
		if s[i].k != want[i].k { t.Fatal("not sorted at", i) }
		if stable && s[i] != want[i] { t.Fatal("not stable at", i) }
		if seen[s[i].id] { t.Fatal("twice", s[i].id) }
		seen[s[i].id] = true
	}
}
'''
seed("sort-quarter-rounding", "C17", [(MS, "q3 := q2 + q1", "q3 := size - q1"), (MS, "pSort(index+q3, size-q3)", "pSort(index+q3, q1)")], HDR + '''
func TestDemo(t *testing.T) {
	for d := 0; d < 4; d++ {
		s := make(S, 0x3000+d)
		for i := range s { s[i] = E{(i * 7919) % 1000, i} }
		s[len(s)*3/4].k = -1
		s[2*(len(s)/4)+len(s)/4].k = -2
		check(t, s, true)
	}
}
''', "a size (at some level of the recursion) that is not a multiple of four", "the elements between the third and the fourth quarter are not sorted")
seed("sort-issorted-boundary", "C18", [(S, "for i := index; i < index+size; i++ {", "for i := index + 1; i < index+size; i++ {")], HDR + '''
func TestDemo(t *testing.T) {
	n := 0x500 * 3
	for p := 1; p < n; p++ {
		a := make([]int, n)
		for i := range a { a[i] = i; if i >= p { a[i] = i - n } }
		if psort.IntsAreSorted(a) { t.Fatal("inversion at", p, "not seen") }
	}
}
''', "the only inversion lies exactly at the start of a sequentially tested chunk", "IsSorted does not compare the first element of a chunk with its predecessor")
seed("sort-int-less-overflow", "C19", [(S, "func (s IntSlice) Less(i, j int) bool {\n	return s[i] < s[j]", "func (s IntSlice) Less(i, j int) bool {\n	return s[i]-s[j] < 0")], HDR + '''
func TestDemo(t *testing.T) {
	s := psort.IntSlice{math.MaxInt64, math.MinInt64}
	if s.Less(0, 1) || !s.Less(1, 0) { t.Fatal("MaxInt64 < MinInt64") }
}
''', "elements whose difference exceeds the int range", "Less of IntSlice overflows")
seed("sort-float-unstable", "C19", [(S, "	sort.Stable(sort.Float64Slice(s[i:j]))", "	sort.Float64s(s[i:j])")], HDR + '''
func TestDemo(t *testing.T) {
	for n := 2; n < 400; n++ {
		s := make(psort.Float64Slice, n)
		for i := range s { s[i] = float64((i*7919) % 3); if s[i] == 0 && i%2 == 0 { s[i] = math.Copysign(0, -1) } }
		want := append(psort.Float64Slice(nil), s...)
		gosort.Stable(gosort.Float64Slice(want))
		s.SequentialSort(0, n)
		for i := range s { if math.Float64bits(s[i]) != math.Float64bits(want[i]) { t.Fatal(n, i, s[i], want[i]) } }
	}
}
''', "elements that are equal but distinguishable (0 and -0) in a long slice", "SequentialSort of Float64Slice is not stable")
seed("sort-temp-wait-racy", "C17", [(MS, "			temp.Wait()\n", "			if T == nil {\n				temp.Wait()\n			}\n")], HDR + '''
func TestDemo(t *testing.T) {
	slow = true
	s := make(S, 0x3000*2)
	for i := range s { s[i] = E{(i * 7919) % 1000, i} }
	time.AfterFunc(20*time.Second, func() { panic("hangs") })
	check(t, W(s), true)
}
type W = S
''', "the goroutine that prepares the temporary collection is interrupted between its two assignments while the quarters are being sorted", "the merge uses the temporary collection before it is complete")
seed("sort-issorted-prefix", "C16", [(S, "for i := 1; i < serialCutoff; i++ {", "for i := 2; i < serialCutoff; i++ {")], HDR + '''
func TestDemo(t *testing.T) {
	s := make(S, 0x600)
	for i := range s { s[i] = E{i, i} }
	s[0].k, s[1].k = 1, 0
	check(t, s, false)
}
''', "a collection of at least 0x500 elements that is sorted except for its first two elements", "Sort leaves the first two elements in the wrong order")
