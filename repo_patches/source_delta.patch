From c6d0e98210a9dc77b403b95ef332082aa5a899ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:18 +0000
Subject: [PATCH 01/16] fix: reject negative batch counts also for empty ranges

---
 internal/internal.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/internal.go b/internal/internal.go
index 9fe961d..d0cfcf8 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -10,15 +10,15 @@ import (
 // ComputeNofBatches divides the size of the range (high - low) by n. If n is 0,
 // a default is used that takes runtime.GOMAXPROCS(0) into account.
 func ComputeNofBatches(low, high, n int) (batches int) {
+	if n < 0 {
+		panic(fmt.Sprintf("invalid number of batches: %v", n))
+	}
 	switch size := high - low; {
 	case size > 0:
-		switch {
-		case n == 0:
+		if n == 0 {
 			batches = 2 * runtime.GOMAXPROCS(0)
-		case n > 0:
+		} else {
 			batches = n
-		default:
-			panic(fmt.Sprintf("invalid number of batches: %v", n))
 		}
 		if batches > size {
 			batches = size
-- 
2.43.0


From 66ea957908935a99b433ef3dd23fbcc0c06eff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:18 +0000
Subject: [PATCH 02/16] fix: order NaN values in Float64Slice.Less the way
 SequentialSort does

---
 sort/sort.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sort/sort.go b/sort/sort.go
index 2a6e8bf..f1a2679 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -112,8 +112,10 @@ func (s Float64Slice) Len() int {
 	return len(s)
 }
 
+// Less orders NaN values before other values, like sort.Float64Slice, which
+// SequentialSort uses.
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	return sort.Float64Slice(s).Less(i, j)
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From 5b7e0c8df95474395d0d1b0d2816e43358b45f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:18 +0000
Subject: [PATCH 03/16] fix: do not compare elements after IsSorted has
 returned

---
 sort/sort.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index f1a2679..350bba6 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/exascience/pargo/speculative"
+	"github.com/exascience/pargo/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,7 +34,6 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -43,13 +42,16 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(i, i-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		// Wait for all comparisons, so that none of them happens after IsSorted
+		// has returned. They terminate early because of done.
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From 59f86300ccf6a25ae6218abd049a4124dd580293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:18 +0000
Subject: [PATCH 04/16] fix: stop Map.SpeculativeRange early only when f
 returns false

---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index dda4163..ab7708d 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -274,10 +274,10 @@ func (m *Map) SpeculativeRange(f func(key, value interface{}) bool) {
 	speculative.Range(0, len(splits), 0, func(low, high int) bool {
 		for i := low; i < high; i++ {
 			if !splits[i].srange(f) {
-				return false
+				return true // speculative.Range stops at true
 			}
 		}
-		return true
+		return false
 	})
 }
 
-- 
2.43.0


From abf88cbe1c74f73519aa7feef15bfa4e8d48ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:18 +0000
Subject: [PATCH 05/16] fix: unlock the split when a function passed to Modify
 or DeleteOrCompute panics

---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index ab7708d..7fe4574 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -159,13 +159,13 @@ func (m *Map) DeleteOrStore(key Hasher, value interface{}) (actual interface{},
 func (m *Map) DeleteOrCompute(key Hasher, computer func() interface{}) (actual interface{}, deleted bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	if actual, deleted = split.Map[key]; deleted {
 		delete(split.Map, key)
 	} else {
 		actual = computer()
 		split.Map[key] = actual
 	}
-	split.Unlock()
 	return
 }
 
@@ -187,13 +187,13 @@ func (m *Map) Modify(
 ) (replacement interface{}, storeNotDelete bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	value, ok := split.Map[key]
 	if replacement, storeNotDelete = modifier(value, ok); storeNotDelete {
 		split.Map[key] = replacement
 	} else {
 		delete(split.Map, key)
 	}
-	split.Unlock()
 	return
 }
 
-- 
2.43.0


From cc7850b477846cef49551c015bb4076111e4356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 06/16] fix: do not lose the wake-up of ordered nodes when a
 pipeline is cancelled

---
 pipeline/lparnode.go      | 10 ++++++----
 pipeline/strictordnode.go |  4 ++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index aff3d1d..6fc66d4 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -33,7 +33,6 @@ func LimitedPar(limit int, filters ...Filter) Node {
 
 func (node *lparnode) makeOrdered() {
 	node.ordered = true
-	node.cond = sync.NewCond(&sync.Mutex{})
 }
 
 // Implements the TryMerge method of the Node interface.
@@ -52,6 +51,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
+		node.cond = sync.NewCond(&sync.Mutex{})
 		node.channel = make(chan dataBatch)
 		node.waitGroup.Add(node.limit)
 		for i := 0; i < node.limit; i++ {
@@ -60,9 +60,11 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 				for {
 					select {
 					case <-p.ctx.Done():
-						if node.ordered {
-							node.cond.Broadcast()
-						}
+						// hold the lock, so no Feed misses this between its own
+						// check of the context and its Wait
+						node.cond.L.Lock()
+						node.cond.Broadcast()
+						node.cond.L.Unlock()
 						return
 					case batch, ok := <-node.channel:
 						if !ok {
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 74a1915..059c1ef 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,11 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 			for {
 				select {
 				case <-p.ctx.Done():
+					// hold the lock, so no Feed misses this between its own
+					// check of the context and its Wait
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From 23ac7a30bfe7fd96993f431a22390824faa6b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 07/16] fix: let sequential nodes become ordered when a
 strictly ordered node follows

---
 pipeline/seqnode.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index a049358..c9f0a60 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -52,22 +52,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 		node.channel = make(chan dataBatch)
 		node.waitGroup.Add(1)
 		switch node.kind {
-		case Sequential:
-			go func() {
-				defer node.waitGroup.Done()
-				for {
-					select {
-					case <-p.ctx.Done():
-						return
-					case batch, ok := <-node.channel:
-						if !ok {
-							return
-						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
-					}
-				}
-			}()
-		case Ordered:
+		case Sequential, Ordered:
 			go func() {
 				defer node.waitGroup.Done()
 				stash := make(map[int]interface{})
@@ -80,6 +65,10 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						switch {
 						case !ok:
 							return
+						case node.kind == Sequential:
+							// the kind may become Ordered after Begin, but does
+							// not change anymore once batches arrive
+							feed(p, node.receivers, index, batch.seqNo, batch.data)
 						case batch.seqNo < run:
 							panic("Invalid receive order in an ordered pipeline node.")
 						case batch.seqNo > run:
-- 
2.43.0


From 36a83b76917a81274a508010de54eaf5b752be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 08/16] fix: forward batches to the right node when nodes are
 merged after Begin

---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 13 +++++++------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 6fc66d4..928f3d8 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -47,7 +47,7 @@ func (node *lparnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -79,7 +79,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -89,7 +89,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *lparnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -98,7 +98,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch{seqNo, data}:
+				case node.channel <- dataBatch{index, seqNo, data}:
 					return
 				}
 			}
@@ -113,7 +113,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index c9f0a60..989dc22 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch struct {
+		index int // the index Feed received, which may differ from Begin's
 		seqNo int
 		data  interface{}
 	}
@@ -45,7 +46,7 @@ func (node *seqnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *seqnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -68,13 +69,13 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						case node.kind == Sequential:
 							// the kind may become Ordered after Begin, but does
 							// not change anymore once batches arrive
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						case batch.seqNo < run:
 							panic("Invalid receive order in an ordered pipeline node.")
 						case batch.seqNo > run:
 							stash[batch.seqNo] = batch.data
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -87,7 +88,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, data)
 								}
 							}
 						}
@@ -102,11 +103,11 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *seqnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 059c1ef..39bfdbf 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode) TryMerge(next Node) bool {
 }
 
 //Implements the Begin method of the Node interface.
-func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -67,7 +67,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -76,7 +76,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *strictordnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -84,7 +84,7 @@ func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{})
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch{seqNo, data}:
+			case node.channel <- dataBatch{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From 52baff92a436e4bb136859a78d6233fd8aa91ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 09/16] fix: do not overwrite a pipeline error set at the end
 of a run

---
 pipeline/pipeline.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index ebe329b..c97e011 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -270,7 +270,7 @@ func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
 // data source and sends them to the nodes. Once the data source is depleted,
 // the nodes are informed that the end of the data source has been reached.
 func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
@@ -283,7 +283,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			p.nodes = append(p.nodes[:index], p.nodes[index+1:]...)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -337,8 +337,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	for _, node := range p.nodes {
 		node.End()
 	}
-	if p.err == nil {
-		p.err = p.source.Err()
+	if err := p.source.Err(); err != nil {
+		p.SetErr(err)
 	}
 }
 
-- 
2.43.0


From d4d8b72d20f3b27bbf310b66d2dc375f90bdc7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 10/16] fix: keep the first variable-sized batch within
 maxBatchSize

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index c97e011..f4933d2 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -309,7 +309,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From 4b461bf5d5d6bc3b227c2e3ee406f6781c34568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 11/16] fix: stop fetching batches when the pipeline is
 cancelled

---
 pipeline/pipeline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index f4933d2..ca74480 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -316,6 +316,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 					return
 				} else if p.Err() != nil {
 					return
+				} else if p.ctx.Err() != nil {
+					break
 				}
 			}
 		} else {
@@ -330,6 +332,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 					return
 				} else if p.Err() != nil {
 					return
+				} else if p.ctx.Err() != nil {
+					break
 				}
 			}
 		}
-- 
2.43.0


From cd67d941674b9fb20111fec514d281509e206da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 12/16] fix: accept arrays as pipeline sources

---
 pipeline/source.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipeline/source.go b/pipeline/source.go
index f365b33..8a2c4e3 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -35,6 +35,12 @@ type sliceSource struct {
 
 func newSliceSource(value reflect.Value) *sliceSource {
 	size := value.Len()
+	if value.Kind() == reflect.Array {
+		// only addressable arrays can be sliced
+		array := reflect.New(value.Type()).Elem()
+		array.Set(value)
+		value = array
+	}
 	return &sliceSource{value: value.Slice(0, size), size: size}
 }
 
-- 
2.43.0


From d5b36906858ca4ad58191deae5e5efaca5fda2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 13/16] fix: report a result of the Slice filter that is not a
 slice

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 26bbcda..1e20fb9 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -224,7 +224,7 @@ func NotAny(result *bool, cancelWhenKnown bool, predicate Predicate) Filter {
 func Slice(result interface{}) Filter {
 	res := reflect.ValueOf(result).Elem()
 	return func(pipeline *Pipeline, kind NodeKind, _ *int) (receiver Receiver, finalizer Finalizer) {
-		if (res.Kind() != reflect.Slice) && !res.CanSet() {
+		if (res.Kind() != reflect.Slice) || !res.CanSet() {
 			pipeline.SetErr(errors.New("result is not a settable slice in Pipeline.ToSlice"))
 			return
 		}
-- 
2.43.0


From a25b6fe00464ab96b6f8177fd4e8be26657456d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 14/16] fix: let Count set its result instead of adding to it

---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 1e20fb9..9058145 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -272,6 +272,7 @@ func Count(result *int) Filter {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data interface{}) interface{} {
 				if data != nil {
 					d := reflect.ValueOf(data)
-- 
2.43.0


From ba43df35a2c81107e17ab9b5c8f8177a68da6e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 15/16] fix: let Skip report the size that remains

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 9058145..e73e777 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -342,7 +342,7 @@ func Skip(n int) Node {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-- 
2.43.0


From 363d15b81e9386c03a883ab50838c31a67b5a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 16/16] fix: accept the nil batches of Skip and Limit in Skip
 and Limit

---
 pipeline/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index e73e777..49695d1 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -306,7 +306,7 @@ func Limit(limit int, cancelWhenReached bool) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= limit {
+				if (data == nil) || (seen >= limit) {
 					return
 				}
 				d := reflect.ValueOf(data)
@@ -346,7 +346,7 @@ func Skip(n int) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= n {
+				if (data == nil) || (seen >= n) {
 					result = data
 					return
 				}
-- 
2.43.0

