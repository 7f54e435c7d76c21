From 87ca5dce09650285e60b0394865b12de8842c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 01/20] fix: SpeculativeRange must not return before all
 entries are visited unless f returned false

---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index dda4163..4557daa 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -274,10 +274,10 @@ func (m *Map) SpeculativeRange(f func(key, value interface{}) bool) {
 	speculative.Range(0, len(splits), 0, func(low, high int) bool {
 		for i := low; i < high; i++ {
 			if !splits[i].srange(f) {
-				return false
+				return true
 			}
 		}
-		return true
+		return false
 	})
 }
 
-- 
2.43.0


From db812e7b83ce6235d819cc5c3864260e19c7107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 02/20] fix: DeleteOrCompute and Modify must release the lock
 when the user function panics

---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index 4557daa..6f07315 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -159,13 +159,13 @@ func (m *Map) DeleteOrStore(key Hasher, value interface{}) (actual interface{},
 func (m *Map) DeleteOrCompute(key Hasher, computer func() interface{}) (actual interface{}, deleted bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	if actual, deleted = split.Map[key]; deleted {
 		delete(split.Map, key)
 	} else {
 		actual = computer()
 		split.Map[key] = actual
 	}
-	split.Unlock()
 	return
 }
 
@@ -187,13 +187,13 @@ func (m *Map) Modify(
 ) (replacement interface{}, storeNotDelete bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	value, ok := split.Map[key]
 	if replacement, storeNotDelete = modifier(value, ok); storeNotDelete {
 		split.Map[key] = replacement
 	} else {
 		delete(split.Map, key)
 	}
-	split.Unlock()
 	return
 }
 
-- 
2.43.0


From e8bd1c3e2b5ff7d7c419c43098e109cb11eccc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 03/20] fix: range functions must panic for a negative batch
 count also when the range is empty

---
 internal/internal.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/internal.go b/internal/internal.go
index 9fe961d..d0cfcf8 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -10,15 +10,15 @@ import (
 // ComputeNofBatches divides the size of the range (high - low) by n. If n is 0,
 // a default is used that takes runtime.GOMAXPROCS(0) into account.
 func ComputeNofBatches(low, high, n int) (batches int) {
+	if n < 0 {
+		panic(fmt.Sprintf("invalid number of batches: %v", n))
+	}
 	switch size := high - low; {
 	case size > 0:
-		switch {
-		case n == 0:
+		if n == 0 {
 			batches = 2 * runtime.GOMAXPROCS(0)
-		case n > 0:
+		} else {
 			batches = n
-		default:
-			panic(fmt.Sprintf("invalid number of batches: %v", n))
 		}
 		if batches > size {
 			batches = size
-- 
2.43.0


From 8a0a1d8c4ef46dd82151227ddff92a7be3eddb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 04/20] fix: Float64Slice.Less must order NaN values like
 Float64Slice.SequentialSort

---
 sort/sort.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sort/sort.go b/sort/sort.go
index 2a6e8bf..c3d8e84 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -113,7 +113,8 @@ func (s Float64Slice) Len() int {
 }
 
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	// NaN values sort before other values, as in SequentialSort.
+	return s[i] < s[j] || (s[i] != s[i] && s[j] == s[j])
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From bd2852427af3c0b6eb4a609a8a3c8b3f4466a3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 05/20] fix: Skip must report the remaining data size to
 subsequent filters

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 26bbcda..5fa336d 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -341,7 +341,7 @@ func Skip(n int) Node {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-- 
2.43.0


From 3ce85bb3c6cc17659a46169a21c706f26b9b7673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 06/20] fix: Limit and Skip must accept the nil batches that
 other filters pass on

---
 pipeline/filters.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 5fa336d..abc7c76 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -305,7 +305,7 @@ func Limit(limit int, cancelWhenReached bool) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= limit {
+				if seen >= limit || data == nil {
 					return
 				}
 				d := reflect.ValueOf(data)
@@ -349,6 +349,9 @@ func Skip(n int) Node {
 					result = data
 					return
 				}
+				if data == nil {
+					return
+				}
 				d := reflect.ValueOf(data)
 				l := d.Len()
 				if (seen + l) > n {
-- 
2.43.0


From 05acecbdded12385f9a6a3355d6bf223f15b4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 07/20] fix: Count must set the result to the total size
 instead of adding to it

---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index abc7c76..0147e73 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -272,6 +272,7 @@ func Count(result *int) Filter {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data interface{}) interface{} {
 				if data != nil {
 					d := reflect.ValueOf(data)
-- 
2.43.0


From 407e80242f49d0a818d16e72c15f23c998dfb27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 08/20] fix: Slice must set an error when the result is not a
 settable slice

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 0147e73..bc45e51 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -224,7 +224,7 @@ func NotAny(result *bool, cancelWhenKnown bool, predicate Predicate) Filter {
 func Slice(result interface{}) Filter {
 	res := reflect.ValueOf(result).Elem()
 	return func(pipeline *Pipeline, kind NodeKind, _ *int) (receiver Receiver, finalizer Finalizer) {
-		if (res.Kind() != reflect.Slice) && !res.CanSet() {
+		if (res.Kind() != reflect.Slice) || !res.CanSet() {
 			pipeline.SetErr(errors.New("result is not a settable slice in Pipeline.ToSlice"))
 			return
 		}
-- 
2.43.0


From 37c07a88e424880a71a72a2408b33eb43c580aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 09/20] fix: arrays must be accepted as pipeline sources

---
 pipeline/source.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index f365b33..241452a 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -110,7 +110,11 @@ func (src *chanSource) Data() interface{} {
 
 func reflectSource(source interface{}) Source {
 	switch value := reflect.ValueOf(source); value.Kind() {
-	case reflect.Array, reflect.Slice, reflect.String:
+	case reflect.Array:
+		array := reflect.New(value.Type()).Elem() // slicing requires an addressable array
+		array.Set(value)
+		return newSliceSource(array)
+	case reflect.Slice, reflect.String:
 		return newSliceSource(value)
 	case reflect.Chan:
 		return newChanSource(value)
-- 
2.43.0


From 2f7ff15c73dee14971efdc1a7efa779c691005d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 10/20] fix: variable batch sizes must never exceed the maximum
 batch size

---
 pipeline/pipeline.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index ebe329b..902e9d8 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -242,14 +242,16 @@ func (p *Pipeline) finalizeVariableBatchSize() {
 	if p.maxBatchSize < 1 {
 		p.maxBatchSize = defaultMaxBatchSize
 	}
+	if p.batchInc > p.maxBatchSize {
+		p.batchInc = p.maxBatchSize
+	}
 }
 
 func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
-	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
-		result = p.maxBatchSize
+	if batchSize > p.maxBatchSize-p.batchInc {
+		return p.maxBatchSize
 	}
-	return
+	return batchSize + p.batchInc
 }
 
 // RunWithContext initiates pipeline execution.
-- 
2.43.0


From 4298afada96270bcbd3f83e68c6162ee8fd45df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 11/20] fix: nodes that precede a strictly ordered node must be
 ordered before they begin

---
 pipeline/pipeline.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 902e9d8..85b525a 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -278,6 +278,19 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	p.ctx, p.cancel = ctx, cancel
 	dataSize := p.source.Prepare(p.ctx)
 	filteredSize := dataSize
+	for index := len(p.nodes) - 1; index >= 0; index-- {
+		if _, ok := p.nodes[index].(*strictordnode); ok {
+			for index = index - 1; index >= 0; index-- {
+				switch node := p.nodes[index].(type) {
+				case *seqnode:
+					node.kind = Ordered
+				case *lparnode:
+					node.makeOrdered()
+				}
+			}
+			break
+		}
+	}
 	for index := 0; index < len(p.nodes); {
 		if p.nodes[index].Begin(p, index, &filteredSize) {
 			index++
@@ -296,19 +309,6 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 				index++
 			}
 		}
-		for index := len(p.nodes) - 1; index >= 0; index-- {
-			if _, ok := p.nodes[index].(*strictordnode); ok {
-				for index = index - 1; index >= 0; index-- {
-					switch node := p.nodes[index].(type) {
-					case *seqnode:
-						node.kind = Ordered
-					case *lparnode:
-						node.makeOrdered()
-					}
-				}
-				break
-			}
-		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
-- 
2.43.0


From 93e1d379cf27a6abca4be1b050cb26690c1b143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:15 +0000
Subject: [PATCH 12/20] fix: nodes must forward batches relative to their index
 at the time they are fed

---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 13 +++++++------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index aff3d1d..5156b2f 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -48,7 +48,7 @@ func (node *lparnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -77,7 +77,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -87,7 +87,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *lparnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -96,7 +96,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch{seqNo, data}:
+				case node.channel <- dataBatch{index, seqNo, data}:
 					return
 				}
 			}
@@ -111,7 +111,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index a049358..2c773c0 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch struct {
+		index int
 		seqNo int
 		data  interface{}
 	}
@@ -45,7 +46,7 @@ func (node *seqnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *seqnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +64,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -85,7 +86,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						case batch.seqNo > run:
 							stash[batch.seqNo] = batch.data
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -98,7 +99,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, data)
 								}
 							}
 						}
@@ -113,11 +114,11 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *seqnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 74a1915..24402b3 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode) TryMerge(next Node) bool {
 }
 
 //Implements the Begin method of the Node interface.
-func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +63,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -72,7 +72,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *strictordnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -80,7 +80,7 @@ func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{})
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch{seqNo, data}:
+			case node.channel <- dataBatch{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From 8a9bdb134714b34bd38c0d4b2097d2224b9743ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 13/20] fix: waiting feeders must not miss the wake-up when the
 pipeline is canceled

---
 pipeline/lparnode.go      | 2 ++
 pipeline/strictordnode.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 5156b2f..1c72605 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -61,7 +61,9 @@ func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 					select {
 					case <-p.ctx.Done():
 						if node.ordered {
+							node.cond.L.Lock()
 							node.cond.Broadcast()
+							node.cond.L.Unlock()
 						}
 						return
 					case batch, ok := <-node.channel:
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 24402b3..47e876a 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,9 @@ func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool)
 			for {
 				select {
 				case <-p.ctx.Done():
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From f7b0efb70b763fa0d9d8b94f331ba58cb9ab4f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:21 +0000
Subject: [PATCH 14/20] fix: a canceled pipeline must stop fetching from its
 source

---
 pipeline/pipeline.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 85b525a..526134c 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -311,7 +311,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.batchInc; p.ctx.Err() == nil && p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
@@ -325,7 +325,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			if batchSize == 0 {
 				batchSize = 1
 			}
-			for seqNo := 0; p.source.Fetch(batchSize) > 0; seqNo++ {
+			for seqNo := 0; p.ctx.Err() == nil && p.source.Fetch(batchSize) > 0; seqNo++ {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From a2538a1346f68d3be8b97c249c08fb246721b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 15/20] fix: IsSorted waits for its goroutines, so that Sort
 does not modify the collection while they still compare elements

---
 sort/sort.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index c3d8e84..e6e32f9 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/exascience/pargo/speculative"
+	"github.com/exascience/pargo/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,22 +34,27 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
+		if atomic.LoadInt32(&done) != 0 {
+			return false
+		}
 		if size < qsortGrainSize {
 			for i := index; i < index+size; i++ {
 				if ((i % 1024) == 0) && (atomic.LoadInt32(&done) != 0) {
 					return false
 				}
 				if data.Less(i, i-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		// Wait for both halves: the collection must not be accessed anymore
+		// when IsSorted returns.
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From 88596cef827631a847a4fee6b4f41d0b75bdba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 16/20] fix: nodes do not append to the filter slice of the
 caller

Merging nodes appended to the variadic slice a node was created with, so
nodes created from the same slice overwrote each other's filters.
---
 pipeline/filters.go       | 4 ++--
 pipeline/lparnode.go      | 4 ++--
 pipeline/parnode.go       | 2 +-
 pipeline/seqnode.go       | 4 ++--
 pipeline/strictordnode.go | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index bc45e51..af0ca7a 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -13,9 +13,9 @@ import (
 func NewNode(kind NodeKind, filters ...Filter) Node {
 	switch kind {
 	case Ordered, Sequential:
-		return &seqnode{kind: kind, filters: filters}
+		return &seqnode{kind: kind, filters: filters[:len(filters):len(filters)]}
 	case Parallel:
-		return &parnode{filters: filters}
+		return &parnode{filters: filters[:len(filters):len(filters)]}
 	default:
 		panic("Invalid NodeKind in pipeline.NewNode.")
 	}
diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 1c72605..6ddcf2b 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -26,9 +26,9 @@ func LimitedPar(limit int, filters ...Filter) Node {
 		limit = runtime.GOMAXPROCS(0)
 	}
 	if limit == 1 {
-		return &seqnode{kind: Sequential, filters: filters}
+		return &seqnode{kind: Sequential, filters: filters[:len(filters):len(filters)]}
 	}
-	return &lparnode{limit: limit, filters: filters}
+	return &lparnode{limit: limit, filters: filters[:len(filters):len(filters)]}
 }
 
 func (node *lparnode) makeOrdered() {
diff --git a/pipeline/parnode.go b/pipeline/parnode.go
index 9d80927..4de9f19 100644
--- a/pipeline/parnode.go
+++ b/pipeline/parnode.go
@@ -13,7 +13,7 @@ type parnode struct {
 
 // Par creates a parallel node with the given filters.
 func Par(filters ...Filter) Node {
-	return &parnode{filters: filters}
+	return &parnode{filters: filters[:len(filters):len(filters)]}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index 2c773c0..a128158 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -23,12 +23,12 @@ type (
 
 // Ord creates an ordered node with the given filters.
 func Ord(filters ...Filter) Node {
-	return &seqnode{kind: Ordered, filters: filters}
+	return &seqnode{kind: Ordered, filters: filters[:len(filters):len(filters)]}
 }
 
 // Seq creates a sequential node with the given filters.
 func Seq(filters ...Filter) Node {
-	return &seqnode{kind: Sequential, filters: filters}
+	return &seqnode{kind: Sequential, filters: filters[:len(filters):len(filters)]}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 47e876a..4c7f45d 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -16,7 +16,7 @@ type strictordnode struct {
 
 // StrictOrd creates an ordered node with the given filters.
 func StrictOrd(filters ...Filter) Node {
-	return &strictordnode{filters: filters}
+	return &strictordnode{filters: filters[:len(filters):len(filters)]}
 }
 
 // Implements the TryMerge method of the Node interface.
-- 
2.43.0


From 8f222156faf1d0c18830d5dad9d351be324816d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 17/20] fix: a pipeline accesses its error only under its lock

The error reported by the source at the end of a run was stored without
the lock, racing with concurrent calls of Err and SetErr.
---
 pipeline/pipeline.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 526134c..1fe7372 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -272,7 +272,7 @@ func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
 // data source and sends them to the nodes. Once the data source is depleted,
 // the nodes are informed that the end of the data source has been reached.
 func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
@@ -298,7 +298,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			p.nodes = append(p.nodes[:index], p.nodes[index+1:]...)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -339,8 +339,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	for _, node := range p.nodes {
 		node.End()
 	}
-	if p.err == nil {
-		p.err = p.source.Err()
+	if err := p.source.Err(); err != nil {
+		p.SetErr(err)
 	}
 }
 
-- 
2.43.0


From e395f4c7cfcd03b931d8dc34c1a8ebbf5fcaa18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 18/20] fix: a channel source listens to the context of its
 current pipeline only

Prepare added the Done channel of each pipeline to those of the pipelines
before it. A SingletonChan that was used by a pipeline that has ended
reported the end of the data at random while elements were left.
---
 pipeline/source.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 241452a..66f833b 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -87,7 +87,7 @@ func (src *chanSource) Err() error {
 }
 
 func (src *chanSource) Prepare(ctx context.Context) (size int) {
-	src.cases = append(src.cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ctx.Done())})
+	src.cases = append(src.cases[:1], reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ctx.Done())})
 	return -1
 }
 
@@ -275,7 +275,7 @@ func (src *SingletonChan) Err() error {
 
 // Prepare implements the method of the Source interface.
 func (src *SingletonChan) Prepare(ctx context.Context) (size int) {
-	src.cases = append(src.cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ctx.Done())})
+	src.cases = append(src.cases[:1], reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ctx.Done())})
 	return -1
 }
 
-- 
2.43.0


From 896d0386eccfa1289ede2aa58e64f9760afb2696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 19/20] fix: ranges that end near the largest int were split
 into overflowing subranges

---
 parallel/parallel.go       | 24 ++++++++++++------------
 sequential/sequential.go   | 24 ++++++++++++------------
 speculative/speculative.go | 14 +++++++-------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 53291d8..b4d355e 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -613,7 +613,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				f(low, high)
 				return
 			}
@@ -672,7 +672,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -731,7 +731,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -792,7 +792,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -854,7 +854,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -914,7 +914,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -974,7 +974,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -1036,7 +1036,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1096,7 +1096,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1156,7 +1156,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1218,7 +1218,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right string
@@ -1278,7 +1278,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right string
diff --git a/sequential/sequential.go b/sequential/sequential.go
index 2f97399..6b89239 100755
--- a/sequential/sequential.go
+++ b/sequential/sequential.go
@@ -180,7 +180,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				f(low, high)
 				return
 			}
@@ -219,7 +219,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -258,7 +258,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -297,7 +297,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -337,7 +337,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -375,7 +375,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -413,7 +413,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -453,7 +453,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -491,7 +491,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -529,7 +529,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -569,7 +569,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -607,7 +607,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
diff --git a/speculative/speculative.go b/speculative/speculative.go
index 4da1598..2273e29 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -434,7 +434,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -496,7 +496,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -558,7 +558,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -626,7 +626,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -699,7 +699,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -772,7 +772,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -845,7 +845,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right string
-- 
2.43.0


From 50c49ac371ee4573dd3496a8e8f136311fee9506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 20/20] fix: a range with high < low was accepted when its size
 overflows

---
 internal/internal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/internal.go b/internal/internal.go
index d0cfcf8..9b43a5b 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -14,7 +14,7 @@ func ComputeNofBatches(low, high, n int) (batches int) {
 		panic(fmt.Sprintf("invalid number of batches: %v", n))
 	}
 	switch size := high - low; {
-	case size > 0:
+	case size > 0 && low < high:
 		if n == 0 {
 			batches = 2 * runtime.GOMAXPROCS(0)
 		} else {
-- 
2.43.0

