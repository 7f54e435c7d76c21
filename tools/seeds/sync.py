F = "sync/map.go"
HDR = '''package verifdemo
import ("testing";"time";psync "github.com/exascience/pargo/sync")
type K uint64
func (k K) Hash() uint64 { return uint64(k) }
var _ = time.Now
'''
seed("sync-compute-no-recheck", "C12", [(F, "	split.Lock()\n	if actual, loaded = split.Map[key]; !loaded {\n		actual = value\n		split.Map[key] = actual\n	}\n	split.Unlock()\n", "	split.Lock()\n	actual = value\n	split.Map[key] = actual\n	split.Unlock()\n")], HDR + '''
func TestDemo(t *testing.T) {
	m := psync.NewMap(4)
	v, loaded := m.LoadOrCompute(K(3), func() interface{} { m.LoadOrStore(K(3), "other"); return "mine" })
	if v != "other" || !loaded { t.Fatal(v, loaded) }
}
''', "another operation that stores a value for the key while the computer function runs", "LoadOrCompute overwrites a value stored in the meantime")
seed("sync-deleteorstore-two-sections", "C12", [(F, "	if actual, deleted = split.Map[key]; deleted {\n		delete(split.Map, key)\n	} else {\n		actual = value\n		split.Map[key] = value\n	}\n	split.Unlock()\n", "	actual, deleted = split.Map[key]\n	split.Unlock()\n	split.Lock()\n	if deleted {\n		delete(split.Map, key)\n	} else {\n		actual = value\n		split.Map[key] = value\n	}\n	split.Unlock()\n")], HDR.replace('"time"','"time";"sync";"sync/atomic"') + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		m := psync.NewMap(1)
		m.LoadOrStore(K(1), "x")
		var n int32
		var wg sync.WaitGroup
		s := m.Split(K(1))
		s.Lock()
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); if _, d := m.DeleteOrStore(K(1), "y"); d { atomic.AddInt32(&n, 1) } }()
		}
		time.Sleep(20*time.Microsecond)
		s.Unlock()
		wg.Wait()
		if n != 2 { t.Fatal("4 calls on a key that is present deleted", n, "times") }
	}
}
''', "two concurrent DeleteOrStore calls on one key whose critical sections interleave", "DeleteOrStore decides and acts in two separate critical sections")
seed("sync-split-signed-hash", "C12", [(F, "	return &splits[key.Hash()%uint64(len(splits))]", "	h := int64(key.Hash())\n	if h < 0 {\n		h = -h\n	}\n	return &splits[h%int64(len(splits))]")], HDR + '''
func TestDemo(t *testing.T) {
	m := psync.NewMap(7)
	if _, ok := m.Load(K(1 << 63)); ok { t.Fatal("present") }
}
''', "the hash value 1<<63", "Split panics for the hash value 1<<63")
seed("sync-modify-no-defer", "C13", [(F, "	split.Lock()\n	defer split.Unlock()\n	value, ok := split.Map[key]", "	split.Lock()\n	value, ok := split.Map[key]"), (F, "		split.Map[key] = replacement\n	} else {\n		delete(split.Map, key)\n	}\n	return", "		split.Map[key] = replacement\n	} else {\n		delete(split.Map, key)\n	}\n	split.Unlock()\n	return")], HDR + '''
func TestDemo(t *testing.T) {
	m := psync.NewMap(2)
	func() { defer func() { recover() }(); m.Modify(K(1), func(v interface{}, ok bool) (interface{}, bool) { panic("x") }) }()
	done := make(chan bool)
	go func() { m.Load(K(1)); close(done) }()
	select {
	case <-done:
	case <-time.After(10*time.Second): t.Fatal("the lock is still held")
	}
}
''', "a modifier that panics, and a later access to the same split", "Modify keeps the lock when the modifier panics")
seed("sync-range-stops-late", "C14", [(F, "		if !splits[i].srange(f) {\n			return\n		}", "		if !splits[i].srange(f) && i == len(splits)-1 {\n			return\n		}")], HDR + '''
func TestDemo(t *testing.T) {
	m := psync.NewMap(4)
	for i := 0; i < 16; i++ { m.LoadOrStore(K(i), i) }
	n := 0
	m.Range(func(k, v interface{}) bool { n++; return false })
	if n != 1 { t.Fatal(n) }
}
''', "a callback that returns false before the last split", "Range continues with the next split after its callback has returned false")
seed("sync-par-string-order", "C15", [(F, "			half := len(splits) / 2\n			go func() {\n				defer func() {\n					p = internal.WrapPanic(recover())\n					wg.Done()\n				}()\n				right = recur(splits[half:])\n			}()\n			left = recur(splits[:half])\n		}\n		wg.Wait()\n		if p != nil {\n			panic(p)\n		}\n		return left + right", "			half := len(splits) / 2\n			go func() {\n				defer func() {\n					p = internal.WrapPanic(recover())\n					wg.Done()\n				}()\n				right = recur(splits[half:])\n			}()\n			left = recur(splits[:half])\n			if half > 4 {\n				left, right = right, left\n			}\n		}\n		wg.Wait()\n		if p != nil {\n			panic(p)\n		}\n		return left + right", 0)], HDR + '''
func TestDemo(t *testing.T) {
	m := psync.NewMap(12)
	for i := 0; i < 12; i++ { m.LoadOrStore(K(i), string(rune('a'+i))) }
	time.Sleep(time.Millisecond)
	f := func(x map[interface{}]interface{}) string { for _, v := range x { return v.(string) }; return "" }
	for i := 0; i < 50; i++ {
	if a, b := m.ReduceStringSum(f), m.ParallelReduceStringSum(f); a != b { t.Fatal(a, b) }
	}
}
''', "a map with at least ten splits and a non-commutative reduction", "ParallelReduceStringSum combines its results in the wrong order for many splits")

seed("sync-newmap-size", "C15", [(F, "	if size <= 0 {\n		size = runtime.GOMAXPROCS(0)", "	if size <= 0 || size > 64 {\n		size = runtime.GOMAXPROCS(0)")], HDR + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{1, 2, 8, 64, 65, 100} {
		if c := psync.NewMap(n).ReduceIntSum(func(m map[interface{}]interface{}) int { return 1 }); c != n { t.Fatal(n, c) }
	}
}
''', "a map with more than 64 splits", "NewMap ignores sizes above 64")
seed("sync-compute-early", "C12", [(F, "	actual, loaded = split.Map[key]\n	split.RUnlock()\n	if loaded {\n		return\n	}\n	value := computer()", "	actual, loaded = split.Map[key]\n	split.RUnlock()\n	if loaded && actual != nil {\n		return\n	}\n	value := computer()")], HDR + '''
func TestDemo(t *testing.T) {
	m := psync.NewMap(4)
	m.LoadOrStore(K(3), nil)
	n := 0
	v, loaded := m.LoadOrCompute(K(3), func() interface{} { n++; return "mine" })
	if v != nil || !loaded || n != 0 { t.Fatal(v, loaded, n) }
}
''', "a key that is present with the value nil", "LoadOrCompute calls its computer function for a key that is present")
_wb = open("/repo/sync/map.go").read()
_i = _wb.index("func (m *Map) SpeculativeReduceInt(")
_j = _wb.index("left, b0 = recur(splits[:half])\n\t\t}\n\t\tif b0 {\n\t\t\treturn left, true\n\t\t}\n\t\twg.Wait()\n", _i)
_ctx = _wb[_i:_j] + "left, b0 = recur(splits[:half])\n\t\t}\n\t\tif b0 {\n\t\t\treturn left, true\n\t\t}\n\t\twg.Wait()\n"
seed("sync-spec-waits", "C15", [(F, _ctx, _ctx.replace("\t\tif b0 {\n\t\t\treturn left, true\n\t\t}\n\t\twg.Wait()\n", "\t\tif len(splits) > 8 {\n\t\t\twg.Wait()\n\t\t}\n\t\tif b0 {\n\t\t\treturn left, true\n\t\t}\n\t\twg.Wait()\n"))], HDR + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{2, 3, 8, 9, 12} {
		m := psync.NewMap(n)
		first := m.Split(K(0)).Map
		first["first"] = true
		done, release := make(chan int, 1), make(chan bool)
		go func() {
			r, _ := m.SpeculativeReduceInt(func(e map[interface{}]interface{}) (int, bool) {
				if e["first"] != nil { return 7, true }
				<-release
				return 1, false
			}, func(x, y int) (int, bool) { return x + y, false })
			done <- r
		}()
		select {
		case r := <-done: if r != 7 { t.Fatal(r) }
		case <-time.After(10*time.Second): t.Fatal("the call waits for splits to the right of the one that decided it", n)
		}
		close(release)
	}
}
''', "more than 8 splits, and a callback to the right of the deciding one that blocks", "SpeculativeReduceInt waits for the splits to the right of the one that decided it")
