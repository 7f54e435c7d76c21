P, FS, SRC, SEQ, STR, LP, PAR, FI = ["pipeline/" + f for f in ("pipeline.go", "filters.go", "source.go", "seqnode.go", "strictordnode.go", "lparnode.go", "parnode.go", "filter.go")]
HDR = '''package verifdemo
import ("testing";"time";"sync";"sync/atomic";"context";"errors";"fmt";"runtime";"strings";pl "github.com/exascience/pargo/pipeline")
var _ = time.Now
var _ sync.Mutex
var _ = atomic.AddInt32
var _ = context.Background
var _ = errors.New
var _ = fmt.Sprint
var _ = runtime.Gosched
var _ = strings.Repeat
func id(_ int, d interface{}) interface{} { return d }
func within(t *testing.T, d time.Duration, f func()) {
	done := make(chan bool)
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d): t.Fatal("does not terminate")
	}
}
func ints(n int) []int { r := make([]int, n); for i := range r { r[i] = i }; return r }
'''
seed("pipe-batch-count-rounding", "C25", [(P, "((dataSize - 1) / p.NofBatches(0)) + 1", "dataSize / p.NofBatches(0)")], HDR + '''
func TestDemo(t *testing.T) {
	for _, c := range [][3]int{{12, 4, 4}, {10, 4, 4}, {7, 3, 3}, {0, 4, 0}, {1, 8, 1}} {
		var p pl.Pipeline
		n := 0
		p.Source(ints(c[0])); p.NofBatches(c[1])
		p.Add(pl.Ord(pl.Receive(func(_ int, d interface{}) interface{} { n++; return d })))
		p.Run()
		if n > c[2] { t.Fatal(c, n) }
	}
}
''', "a number of elements that is not a multiple of the number of batches", "more batches than configured are created")
seed("pipe-nofbatches-one", "C25", [(P, "	if n < 1 {\n		nofBatches = p.nofBatches", "	if n <= 1 {\n		nofBatches = p.nofBatches")], HDR + '''
func TestDemo(t *testing.T) {
	var p pl.Pipeline
	p.NofBatches(7)
	p.NofBatches(1)
	n := 0
	p.Source(ints(20))
	p.Add(pl.Ord(pl.Receive(func(_ int, d interface{}) interface{} { n++; return d })))
	p.Run()
	if n != 1 { t.Fatal(n) }
}
''', "NofBatches(1), which asks for a single batch", "a request for a single batch is ignored")
seed("pipe-some-counter", "C26", [(FS, "				if predicate(data) {\n					atomic.StoreInt32(&res, 1)", "				if predicate(data) {\n					atomic.AddInt32(&res, 1)")], HDR + '''
func TestDemo(t *testing.T) {
	for n := 0; n < 5; n++ {
		var p pl.Pipeline
		var r bool
		p.Source(ints(8)); p.NofBatches(8)
		p.Add(pl.Par(pl.Some(&r, false, func(d interface{}) bool { return d.([]int)[0] < n })))
		p.Run()
		if r != (n > 0) { t.Fatal(n, r) }
	}
}
''', "Some in a parallel node, where the predicate holds for at least two batches", "Some counts the batches but compares the count with 1")
seed("pipe-every-last", "C26", [(FS, "				if !predicate(data) {\n					*result = false\n					if cancelWhenKnown {", "				if *result = predicate(data); !*result {\n					if cancelWhenKnown {")], HDR + '''
func TestDemo(t *testing.T) {
	for k := 0; k < 6; k++ {
		var p pl.Pipeline
		var r bool
		p.Source(ints(6)); p.NofBatches(6)
		p.Add(pl.Seq(pl.Every(&r, false, func(d interface{}) bool { return d.([]int)[0] != k })))
		p.Run()
		if r { t.Fatal(k) }
	}
}
''', "Every in a sequential node, where the last batch satisfies the predicate but an earlier one does not", "Every reports the value for the last batch")
seed("pipe-slice-late-lock", "C27", [(FS, "					m.Lock()\n					defer m.Unlock()\n					res.Set(reflect.AppendSlice(res, d))", "					s := reflect.AppendSlice(res, d)\n					m.Lock()\n					defer m.Unlock()\n					res.Set(s)")], HDR + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		var p pl.Pipeline
		var r []int
		p.Source(ints(2000)); p.NofBatches(500)
		p.Add(pl.Par(pl.Slice(&r)))
		p.Run()
		if len(r) != 2000 { t.Fatal(len(r)) }
	}
}
''', "two batches of a parallel node that are appended at the same time", "concurrent appends of Slice lose elements", race=True)
seed("pipe-count-limited", "C27", [(FS, "		case kind == Parallel:\n			var res = int64(0)", "		case kind != Parallel:\n			var res = int64(0)")], HDR + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 30; i++ {
		var p pl.Pipeline
		n := 0
		c := make(chan int)
		go func() { for i := 0; i < 3000; i++ { c <- i }; close(c) }()
		p.Source(c); p.SetVariableBatchSize(1, 1)
		p.Add(pl.LimitedPar(8, pl.Count(&n)))
		p.Run()
		if n != 3000 { t.Fatal(n) }
	}
}
''', "Count in a parallel node of a pipeline of unknown size, with two batches counted at the same time", "Count uses the unsynchronised counter in parallel nodes", race=True)
seed("pipe-limit-cut", "C28", [(FS, "					result = d.Slice(0, limit-seen).Interface()\n					seen = limit", "					result = d.Slice(0, limit-seen).Interface()")], HDR + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{0, 3, 4, 5, 20} {
		var p pl.Pipeline
		var r []int
		p.Source(ints(12)); p.NofBatches(4)
		p.Add(pl.Limit(n, false), pl.Ord(pl.Slice(&r)))
		p.Run()
		w := n
		if w > 12 { w = 12 }
		if len(r) != w { t.Fatal(n, r) }
	}
}
''', "a limit in the middle of a batch that is not the last one", "Limit forgets that it has reached the limit")
seed("pipe-limit-size", "C28", [(FS, "			if *size > 0 {\n				*size = limit\n			}\n			seen := 0", "			seen := 0")], HDR + '''
func TestDemo(t *testing.T) {
	var p pl.Pipeline
	n := 0
	p.Source(ints(12))
	p.Add(pl.Limit(5, false), pl.Par(pl.Count(&n)))
	p.Run()
	if n != 5 { t.Fatal(n) }
}
''', "a limit smaller than the known data size, followed by a filter that uses the data size", "Limit does not report the reduced data size")
seed("pipe-skip-unordered", "C28", [(FS, "func Skip(n int) Node {\n	return Ord(", "func Skip(n int) Node {\n	return Seq(")], HDR + '''
func TestDemo(t *testing.T) {
	var p pl.Pipeline
	var r []int
	p.Source(ints(20)); p.NofBatches(20)
	p.Add(pl.Par(pl.Receive(func(s int, d interface{}) interface{} { if s < 3 { time.Sleep(100*time.Millisecond) }; return d })), pl.Skip(5), pl.Par(func(_ *pl.Pipeline, _ pl.NodeKind, _ *int) (pl.Receiver, pl.Finalizer) { return id, nil }), pl.Ord(pl.Slice(&r)))
	p.Run()
	if len(r) != 15 || r[0] != 5 { t.Fatal(r) }
}
''', "a parallel node before Skip that delivers a later batch first, and no ordered node merged with it", "Skip skips elements in arrival order")
seed("pipe-seterr-two-steps", "C29", [(P, "	p.mutex.Lock()\n	if p.err == nil {\n		p.err = err\n		p.mutex.Unlock()\n		p.cancel()\n		return true\n	}\n	p.mutex.Unlock()\n	return false", "	p.mutex.RLock()\n	first := p.err == nil\n	p.mutex.RUnlock()\n	if first {\n		p.mutex.Lock()\n		p.err = err\n		p.mutex.Unlock()\n		p.cancel()\n	}\n	return first")], HDR + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		var p pl.Pipeline
		p.Source([]int{})
		p.Run()
		var n int32
		var wg, start sync.WaitGroup
		start.Add(1)
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func(k int) { defer wg.Done(); start.Wait(); if p.SetErr(fmt.Errorf("%d", k)) { atomic.AddInt32(&n, 1) } }(k)
		}
		start.Done()
		wg.Wait()
		if n != 1 { t.Fatal(n) }
	}
}
''', "two goroutines that set an error at the same time", "SetErr returns true for two errors, the second of which replaces the first")
seed("pipe-err-unlocked", "C29", [(P, "	p.mutex.RLock()\n	err = p.err\n	p.mutex.RUnlock()\n	return err", "	return p.err")], HDR + '''
func TestDemo(t *testing.T) {
	var p pl.Pipeline
	p.Source(ints(8)); p.NofBatches(8)
	e := errors.New("e")
	p.Add(pl.Par(pl.Receive(func(s int, d interface{}) interface{} { if s == 1 { p.SetErr(e) } else { for i := 0; i < 100; i++ { p.Err(); time.Sleep(100*time.Microsecond) } }; return d })))
	p.Run()
	time.Sleep(100*time.Millisecond)
}
''', "Err concurrent with SetErr", "Err reads the error without the lock", race=True)
# C20
seed("pipe-bytes-alias", "C20", [(SRC, "data = append(data, append([]byte(nil), src.Bytes()...))", "data = append(data, src.Bytes())")], HDR + '''
func TestDemo(t *testing.T) {
	var b strings.Builder
	for i := 0; i < 3000; i++ { fmt.Fprintf(&b, "line %d\\n", i) }
	s := pl.NewBytesScanner(strings.NewReader(b.String()))
	s.Prepare(context.Background())
	var got []string
	var bs [][][]byte
	for s.Fetch(100) > 0 { bs = append(bs, s.Data().([][]byte)) }
	for _, x := range bs { for _, l := range x { got = append(got, string(l)) } }
	for i, l := range got { if l != fmt.Sprintf("line %d", i) { t.Fatal(i, l) } }
	if len(got) != 3000 { t.Fatal(len(got)) }
}
''', "an input longer than the buffer of the scanner", "BytesScanner delivers slices of the buffer of the scanner, which later fetches overwrite")
seed("pipe-chan-reuse", "C20", [(SRC, "	src.data = data.Interface()\n	return", "	src.data = data.Interface()\n	if fetched > 0 {\n		src.zero = data.Slice(0, 0)\n	}\n	return")], HDR + '''
func TestDemo(t *testing.T) {
	c := make(chan int)
	go func() { for i := 0; i < 40; i++ { c <- i }; close(c) }()
	var p pl.Pipeline
	p.Source(c); p.SetVariableBatchSize(4, 4)
	var bs [][]int
	p.Add(pl.Ord(pl.Receive(func(_ int, d interface{}) interface{} { bs = append(bs, d.([]int)); return d })))
	p.Run()
	k := 0
	for _, b := range bs { for _, x := range b { if x != k { t.Fatal(k, x) }; k++ } }
}
''', "a batch of a channel source that is still used when the next batch is fetched", "the batches of a channel source share their memory", race=False)
seed("pipe-slice-last", "C20", [(SRC, "	case n >= src.size:\n", "	case n >= src.size-1:\n		if n < src.size && n > 1 {\n			src.value = src.value.Slice(0, n)\n		}\n")], HDR + '''
func TestDemo(t *testing.T) {
	for n := 0; n < 40; n++ {
		for k := 1; k < 10; k++ {
			var p pl.Pipeline
			var r []int
			p.Source(ints(n)); p.NofBatches(k)
			p.Add(pl.Ord(pl.Slice(&r)))
			p.Run()
			if len(r) != n { t.Fatal(n, k, len(r)) }
		}
	}
}
''', "one element less than requested, and more than one, is left", "the last element of a slice source is dropped")
# C21
seed("pipe-merge-kind", "C21", [(SEQ, "		if nxt.kind == Ordered {\n			node.kind = Ordered\n		}\n", "		if nxt.kind == Ordered && len(node.filters) == 0 {\n			node.kind = Ordered\n		}\n")], HDR + '''
func TestDemo(t *testing.T) {
	var p pl.Pipeline
	p.Source(ints(20)); p.NofBatches(20)
	var got []int
	p.Add(pl.Par(pl.Receive(func(s int, d interface{}) interface{} { if s%3 == 0 { time.Sleep(20*time.Millisecond) }; return d })), pl.Seq(pl.Receive(id)), pl.Ord(pl.Receive(func(s int, d interface{}) interface{} { got = append(got, s); return d })))
	p.Run()
	for i, s := range got { if i != s { t.Fatal(got) } }
}
''', "a sequential node followed by an ordered one, after a parallel node that delivers batches out of order", "merging an ordered node into a sequential one loses the order")
seed("pipe-ord-stash-overtake", "C21", [(SEQ, "						case batch.seqNo > run:\n							stash[batch.seqNo] = batch.data", "						case batch.seqNo > run && (len(stash) < 8 || batch.seqNo > run+16):\n							stash[batch.seqNo] = batch.data\n						case batch.seqNo > run:\n							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)\n							stash[batch.seqNo] = nil\n							delete(stash, batch.seqNo)")], HDR + '''
func TestDemo(t *testing.T) {
	within(t, 30*time.Second, func() {
	var p pl.Pipeline
	p.Source(ints(30)); p.NofBatches(30)
	var got []int
	p.Add(pl.Par(pl.Receive(func(s int, d interface{}) interface{} { if s == 0 { time.Sleep(300*time.Millisecond) }; return d })), pl.Ord(pl.Receive(func(s int, d interface{}) interface{} { got = append(got, s); return d })))
	p.Run()
	for i, s := range got { if i != s { t.Error(got); return } }
	if len(got) != 30 { t.Error(got) }
	})
}
''', "more than eight batches that arrive before their turn", "an ordered node with a full stash processes batches out of order")
# C22
seed("pipe-merge-begun-receivers", "C22", [(PAR, "		node.receivers = append(node.receivers, nxt.receivers...)\n", "		node.receivers = append(nxt.receivers, node.receivers...)\n")], HDR + '''
func TestDemo(t *testing.T) {
	var p pl.Pipeline
	var mu sync.Mutex
	got := ""
	rec := func(s string) pl.Filter { return pl.Receive(func(_ int, d interface{}) interface{} { mu.Lock(); got += s; mu.Unlock(); return d }) }
	p.Source([]int{1})
	p.Add(pl.Par(rec("a")), pl.Ord(pl.Identity), pl.Par(rec("b")))
	p.Run()
	if got != "ab" { t.Fatal(got) }
}
''', "two parallel nodes with a node between them that removes itself when the pipeline begins", "the receivers of merged nodes run in the wrong order")
seed("pipe-compose-fin", "C23", [(FI, "		if receiver != nil {\n			receivers = append(receivers, receiver)\n		}\n		if finalizer != nil {", "		if receiver != nil {\n			receivers = append(receivers, receiver)\n		}\n		if finalizer != nil && (receiver != nil || len(receivers) > 0 || len(filters) == 1) {")], HDR + '''
func TestDemo(t *testing.T) {
	var p pl.Pipeline
	n := 0
	p.Source([]int{1})
	p.Add(pl.Seq(pl.Finalize(func() { n++ }), pl.ReceiveAndFinalize(id, func() { n++ })))
	p.Run()
	if n != 2 { t.Fatal(n) }
}
''', "a filter without receiver before the first filter with a receiver in the same node", "its finalizer is not called")
seed("pipe-strict-fin-early", "C23", [(STR, "	close(node.channel)\n	node.waitGroup.Wait()\n	for _, finalize := range node.finalizers {\n		finalize()\n	}\n	node.receivers = nil", "	close(node.channel)\n	for _, finalize := range node.finalizers {\n		finalize()\n	}\n	node.waitGroup.Wait()\n	node.receivers = nil")], HDR + '''
func TestDemo(t *testing.T) {
	var p pl.Pipeline
	var n, f int32
	p.Source(ints(4)); p.NofBatches(4)
	p.Add(pl.StrictOrd(pl.ReceiveAndFinalize(func(_ int, d interface{}) interface{} { time.Sleep(20*time.Millisecond); atomic.AddInt32(&n, 1); return d }, func() { f = atomic.LoadInt32(&n) })))
	p.Run()
	if f != 4 { t.Fatal(f) }
}
''', "a receiver that still runs when the pipeline ends", "the finalizers of a strictly ordered node run while its last receiver is still running", race=False)
# C24
seed("pipe-strict-signal", "C24", [(STR, "					node.run++\n					node.cond.L.Unlock()\n					node.cond.Broadcast()", "					node.run++\n					node.cond.L.Unlock()\n					node.cond.Signal()")], HDR + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		var p pl.Pipeline
		p.Source(ints(64)); p.NofBatches(64)
		p.Add(pl.Par(pl.Receive(func(s int, d interface{}) interface{} { time.Sleep(time.Duration((s*37)%11) * 200 * time.Microsecond); return d })), pl.StrictOrd(pl.Receive(id)))
		within(t, 20*time.Second, p.Run)
	}
}
''', "several feeding goroutines that wait for their turn out of order", "the wrong waiting goroutine is woken up and the pipeline hangs")
seed("pipe-seq-feed-blocks", "C24", [(SEQ, "	select {\n	case <-p.ctx.Done():\n		return\n	case node.channel <- dataBatch{index, seqNo, data}:\n		return\n	}", "	select {\n	case <-p.ctx.Done():\n		return\n	default:\n		node.channel <- dataBatch{index, seqNo, data}\n	}")], HDR + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
	var p pl.Pipeline
	p.Source(ints(100)); p.NofBatches(100)
	p.Add(pl.Seq(pl.Receive(func(s int, d interface{}) interface{} { if s == 3 { time.Sleep(5*time.Millisecond); p.Cancel(); time.Sleep(5*time.Millisecond) }; return d })))
	within(t, 20*time.Second, p.Run)
	}
}
''', "a cancelation while a batch is being handed to a busy node", "the feeding goroutine waits forever for a node that has stopped")
seed("pipe-lpar-close-stuck", "C24", [(LP, "				for {\n					select {\n					case <-p.ctx.Done():", "				for {\n					if err := p.Err(); err != nil {\n						return\n					}\n					select {\n					case <-p.ctx.Done():"), (LP, "	select {\n	case <-p.ctx.Done():\n		return\n	case node.channel <- dataBatch{index, seqNo, data}:\n		return\n	}\n}", "	node.channel <- dataBatch{index, seqNo, data}\n}")], HDR + '''
func TestDemo(t *testing.T) {
	var p pl.Pipeline
	p.Source(ints(100)); p.NofBatches(100)
	p.Add(pl.LimitedPar(2, pl.Receive(func(s int, d interface{}) interface{} { if s == 3 || s == 4 { time.Sleep(100*time.Millisecond); p.SetErr(errors.New("x")) }; return d })))
	within(t, 20*time.Second, p.Run)
}
''', "an error in all receivers of a limited parallel node while a batch is being handed over", "the pipeline waits forever for a free receiver")
# C30
LIM = '''
type gauge struct{ n, max int32 }
func (g *gauge) recv(_ int, d interface{}) interface{} {
	k := atomic.AddInt32(&g.n, 1)
	for m := atomic.LoadInt32(&g.max); k > m && !atomic.CompareAndSwapInt32(&g.max, m, k); m = atomic.LoadInt32(&g.max) {}
	time.Sleep(2*time.Millisecond)
	atomic.AddInt32(&g.n, -1)
	return d
}
'''
seed("pipe-lpar-merge-late", "C30", [(LP, "(nxt.limit == node.limit)", "(nxt.limit == node.limit || len(nxt.filters) == 0)")], HDR + LIM + '''
func TestDemo(t *testing.T) {
	var p pl.Pipeline
	var a, b gauge
	p.Source(ints(80)); p.NofBatches(80)
	p.Add(pl.LimitedPar(8, pl.Receive(a.recv)), pl.Par(pl.Identity), pl.LimitedPar(2, pl.Receive(b.recv)))
	p.Run()
	if a.max > 8 || b.max > 2 { t.Fatal(a.max, b.max) }
}
''', "two limited parallel nodes with different limits that become neighbours when a node without receivers is removed", "a node with a lower limit is merged into one with a higher limit")
seed("pipe-lpar-one", "C30", [(LP, "	if limit <= 0 {", "	if limit <= 1 {")], HDR + LIM + '''
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(4)
	var p pl.Pipeline
	var a gauge
	p.Source(ints(40)); p.NofBatches(40)
	p.Add(pl.LimitedPar(1, pl.Receive(a.recv)))
	p.Run()
	if a.max > 1 { t.Fatal(a.max) }
}
''', "a limit of 1", "a node that is limited to one goroutine is as parallel as the default")
seed("pipe-lpar-feed-busy", "C30", [(LP, '''	select {
	case <-p.ctx.Done():
		return
	case node.channel <- dataBatch{index, seqNo, data}:
		return
	}
}

// Implements the End''', '''	select {
	case <-p.ctx.Done():
		return
	case node.channel <- dataBatch{index, seqNo, data}:
	default:
		// all goroutines are busy
		feed(p, node.receivers, index, seqNo, data)
	}
}

// Implements the End''')], HDR + LIM + '''
func TestDemo(t *testing.T) {
	var p pl.Pipeline
	var a gauge
	p.Source(ints(60)); p.NofBatches(60)
	p.Add(pl.Par(pl.Receive(id)), pl.LimitedPar(2, pl.Receive(a.recv)))
	p.Run()
	if a.max > 2 { t.Fatal(a.max) }
}
''', "more batches at the same time than the limit allows", "the goroutines that feed a busy limited parallel node process batches themselves")
