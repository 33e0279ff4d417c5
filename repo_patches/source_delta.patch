From d67cbd223768841ed1e0bca0f4631d8c0feedb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 01/30] fix: Available/State could observe half of a concurrent
 Commit

---
 vsa.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/vsa.go b/vsa.go
index 035f2cd..4af4b4d 100644
--- a/vsa.go
+++ b/vsa.go
@@ -91,6 +91,10 @@ type VSA struct {
 	stopCh    chan struct{}
 	closeOnce sync.Once
 
+	// commitSeq is odd while Commit moves an amount from the vector into the scalar;
+	// readers that need both values use it to avoid observing half a commit.
+	commitSeq atomic.Uint64
+
 	// Small critical section for TryConsume to preserve gating semantics
 	tryMu sync.Mutex
 }
@@ -219,8 +223,7 @@ func (v *VSA) Update(value int64) {
 // Available returns the real-time available resource count: S - |A_net|.
 // We compute A_net by summing stripes and subtracting committedOffset.
 func (v *VSA) Available() int64 {
-	s := v.scalar.Load()
-	net := v.currentVector()
+	s, net := v.snapshot()
 	return s - abs(net)
 }
 
@@ -264,6 +267,20 @@ func (v *VSA) chooseIdxForUpdate() int {
 
 // State returns the current scalar and effective vector values.
 func (v *VSA) State() (scalar, vector int64) {
+	return v.snapshot()
+}
+
+// snapshot reads the scalar and the effective vector so that both lie on the same side
+// of any concurrent Commit. It is lock-free unless a Commit is in progress.
+func (v *VSA) snapshot() (scalar, vector int64) {
+	if seq := v.commitSeq.Load(); seq&1 == 0 {
+		scalar, vector = v.scalar.Load(), v.currentVector()
+		if v.commitSeq.Load() == seq {
+			return scalar, vector
+		}
+	}
+	v.tryMu.Lock()
+	defer v.tryMu.Unlock()
 	return v.scalar.Load(), v.currentVector()
 }
 
@@ -310,10 +327,12 @@ func (v *VSA) Commit(committedVector int64) {
 		delta = -mag // commit negative towards reducing a negative net
 	}
 	// Apply: decrease scalar by |delta| and increase committedOffset by delta.
+	v.commitSeq.Add(1)
 	v.scalar.Add(-abs(delta))
 	v.committedOffset.Add(delta)
 	// Keep the approximate net consistent with the new committed offset
 	v.approxNet.Add(-delta)
+	v.commitSeq.Add(1)
 	v.tryMu.Unlock()
 }
 
-- 
2.43.0


From f768d602eb55e5ce0c2e855bdd7d0d3ba6e6fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 02/30] fix: cached gate admitted requests beyond the current
 availability

---
 vsa.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vsa.go b/vsa.go
index 4af4b4d..c076146 100644
--- a/vsa.go
+++ b/vsa.go
@@ -60,7 +60,7 @@ type VSA struct {
 	// rr is a round-robin counter used only under tryMu to avoid an atomic in gated paths
 	rr uint64
 
-	// approximate net vector maintained by operations
+	// running total of all operations; minus committedOffset it is the net vector
 	approxNet atomic.Int64
 	// cached net value for gating when using cached gate
 	cachedNet atomic.Int64
@@ -330,8 +330,6 @@ func (v *VSA) Commit(committedVector int64) {
 	v.commitSeq.Add(1)
 	v.scalar.Add(-abs(delta))
 	v.committedOffset.Add(delta)
-	// Keep the approximate net consistent with the new committed offset
-	v.approxNet.Add(-delta)
 	v.commitSeq.Add(1)
 	v.tryMu.Unlock()
 }
@@ -368,6 +366,10 @@ func (v *VSA) TryConsume(n int64) bool {
 		if avail < n {
 			return false
 		}
+		// The cache may be stale, so it can only deny: an admission must fit right now.
+		if v.scalar.Load()-abs(v.trackedNet()) < n {
+			return false
+		}
 	} else if v.groupCount > 1 {
 		// Grouped scan estimate; if estimate denies, fall back to exact.
 		start := (int(v.groupRR) * v.groupStride) % len(v.stripes)
@@ -452,6 +454,12 @@ func (v *VSA) currentVector() int64 {
 	return sum - v.committedOffset.Load()
 }
 
+// trackedNet is the O(1) counterpart of currentVector. It covers every completed
+// operation, so under tryMu (which excludes other reservations and commits) it is exact.
+func (v *VSA) trackedNet() int64 {
+	return v.approxNet.Load() - v.committedOffset.Load()
+}
+
 // runAggregator periodically refreshes cachedNet using the exact sum of stripes (or
 // hierarchical group sums when enabled) to minimize cross-core reads.
 func (v *VSA) runAggregator() {
-- 
2.43.0


From 4027a41cc6666d5ff9266a915d99bbf55dec87d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 03/30] fix: grouped-scan gate admitted requests beyond the
 current availability

---
 vsa.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vsa.go b/vsa.go
index c076146..7471f9e 100644
--- a/vsa.go
+++ b/vsa.go
@@ -385,6 +385,10 @@ func (v *VSA) TryConsume(n int64) bool {
 		est := partial * int64(len(v.stripes)) / int64(end-start)
 		netEst := est - v.committedOffset.Load()
 		avail := v.scalar.Load() - abs(netEst) - v.cacheSlack
+		if avail >= n {
+			// One group need not be representative of the others: confirm the estimate.
+			avail = v.scalar.Load() - abs(v.trackedNet())
+		}
 		if avail < n {
 			// Exact check
 			avail = v.scalar.Load() - abs(v.currentVector())
-- 
2.43.0


From 7d1a2ae74f04fb225d29f6223fb5249bf737f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 04/30] fix: fast path could oversubscribe under concurrent
 TryConsume

---
 vsa.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/vsa.go b/vsa.go
index 7471f9e..7769d0c 100644
--- a/vsa.go
+++ b/vsa.go
@@ -343,17 +343,14 @@ func (v *VSA) TryConsume(n int64) bool {
 	}
 	// 1) Lock-free fast path when we are far from the limit.
 	if v.fastPathGuard > 0 {
-		s := v.scalar.Load()
-		approx := v.approxNet.Load()
-		if s-abs(approx) >= n+v.fastPathGuard {
-			// Reserve without taking the lock; bounded risk thanks to guard.
+		if v.reserve(n, v.fastPathGuard) {
+			// Reserved without taking the lock.
 			idx := int(v.chooser.Add(1)) & v.mask
 			v.stripes[idx].val.Add(n)
 			if v.hGroups > 0 {
 				g := idx / v.hStride
 				v.hGroupSum[g].Add(n)
 			}
-			v.approxNet.Add(n)
 			return true
 		}
 	}
@@ -403,6 +400,14 @@ func (v *VSA) TryConsume(n int64) bool {
 		}
 	}
 	// Reserve by updating a stripe (use round-robin under lock to avoid an atomic)
+	if v.fastPathGuard > 0 {
+		// Fast-path callers do not hold tryMu: decide and reserve in one step.
+		if !v.reserve(n, 0) {
+			return false
+		}
+	} else {
+		v.approxNet.Add(n)
+	}
 	idx := int(v.rr) & v.mask
 	v.rr++
 	v.stripes[idx].val.Add(n)
@@ -410,10 +415,25 @@ func (v *VSA) TryConsume(n int64) bool {
 		g := idx / v.hStride
 		v.hGroupSum[g].Add(n)
 	}
-	v.approxNet.Add(n)
 	return true
 }
 
+// reserve adds n to approxNet if at least n+margin units are available at that instant.
+// committedOffset is read before scalar (Commit writes them in the opposite order), so a
+// concurrent Commit can only make the result conservative.
+func (v *VSA) reserve(n, margin int64) bool {
+	for {
+		total := v.approxNet.Load()
+		net := total - v.committedOffset.Load()
+		if v.scalar.Load()-abs(net) < n+margin {
+			return false
+		}
+		if v.approxNet.CompareAndSwap(total, total+n) {
+			return true
+		}
+	}
+}
+
 // TryRefund attempts to refund (undo) up to n units from the current positive
 // in-memory vector without making the net vector go negative.
 // It returns true if any refund was applied, false if there was nothing to refund
@@ -444,6 +464,10 @@ func (v *VSA) TryRefund(n int64) bool {
 
 // currentVector computes the effective in-memory vector: sum(stripes) - committedOffset.
 func (v *VSA) currentVector() int64 {
+	if v.fastPathGuard > 0 {
+		// Fast-path reservations are decided on approxNet, ahead of the stripes.
+		return v.trackedNet()
+	}
 	var sum int64
 	if v.hGroups > 0 {
 		// Use hierarchical group sums to reduce cross-core reads
-- 
2.43.0


From 981c621727865d80b9fb7e53b767259728b04306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:09 +0000
Subject: [PATCH 05/30] fix: losing a GetOrCreate race leaked the discarded
 instance's goroutine

---
 internal/ratelimiter/core/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 1ef1723..964fcf3 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -93,6 +93,7 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 
 	// Try to publish; if another goroutine won the race, reuse that instance.
 	if actual, loaded := s.counters.LoadOrStore(key, newManaged); loaded {
+		inst.Close() // discarded: stop its background goroutine, if any
 		managed := actual.(*managedVSA)
 		atomic.StoreInt64(&managed.lastAccessed, now)
 		return managed.instance
-- 
2.43.0


From 1381b5286d7e13160c1ffd5f4fa2966d180acd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 06/30] fix: overlapping commit and eviction cycles persisted a
 vector twice

---
 internal/ratelimiter/core/worker.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index a828eaf..e3f8cbc 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -42,6 +42,9 @@ type Worker struct {
 	stopChan           chan struct{}
 	wg                 sync.WaitGroup
 	stopped            uint32
+	// cycleMu serializes commit, final-flush and eviction cycles: two of them reading the
+	// same vector before either has folded it would persist it twice.
+	cycleMu sync.Mutex
 }
 
 // NewWorker creates and configures a new background worker.
@@ -113,6 +116,8 @@ func (w *Worker) commitLoop() {
 
 // runCommitCycle collects all necessary commits and persists them as a batch.
 func (w *Worker) runCommitCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -183,6 +188,8 @@ func (w *Worker) runCommitCycle() {
 
 // runFinalFlush commits any non-zero vectors regardless of threshold. It is intended for shutdown.
 func (w *Worker) runFinalFlush() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -233,6 +240,8 @@ func (w *Worker) evictionLoop() {
 
 // runEvictionCycle finds and removes stale VSA instances.
 func (w *Worker) runEvictionCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var keysToEvict []string
 	now := time.Now()
 
-- 
2.43.0


From 5418e1987b898610aa08ba0128a783fa9fc96587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 07/30] fix: refunds landing while a batch was persisted made
 storage diverge

---
 internal/ratelimiter/core/store.go  | 15 +++++++++++++
 internal/ratelimiter/core/worker.go | 35 +++++++++++++++--------------
 vsa.go                              | 12 ++++++++--
 3 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 964fcf3..5677b48 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -44,6 +44,21 @@ type managedVSA struct {
 	// lastAccessed stores the last access time in UnixNano to allow atomic access across goroutines.
 	lastAccessed int64
 	armed        atomic.Bool
+	// ahead is what storage was given beyond what the VSA could fold: operations landing
+	// while a batch is being persisted can undo part of it (e.g. a refund). It is netted
+	// out of the next write. Only touched by the worker's (serialized) cycles.
+	ahead int64
+}
+
+// unpersisted returns the in-memory vector and how much of it storage does not have yet.
+func (m *managedVSA) unpersisted() (vector, pending int64) {
+	_, vector = m.instance.State()
+	return vector, vector - m.ahead
+}
+
+// fold folds a vector whose pending part storage has accepted.
+func (m *managedVSA) fold(vector int64) {
+	m.ahead = vector - m.instance.CommitApplied(vector)
 }
 
 // Store manages a collection of VSA instances in memory.
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index e3f8cbc..93067df 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -24,7 +24,6 @@ import (
 	"sync"
 	"sync/atomic"
 	"time"
-	"vsa"
 	"vsa/internal/ratelimiter/telemetry/churn"
 )
 
@@ -119,13 +118,13 @@ func (w *Worker) runCommitCycle() {
 	w.cycleMu.Lock()
 	defer w.cycleMu.Unlock()
 	var commits []Commit
-	var vsaToCommit []*vsa.VSA
+	var vsaToCommit []*managedVSA
 	var vectorsToCommit []int64
 
 	now := time.Now()
 	w.store.ForEach(func(key string, v *managedVSA) {
 		// Decide based on thresholds (with hysteresis) and optional max-age freshness.
-		_, vec := v.instance.State()
+		vector, vec := v.unpersisted()
 		absVec := vec
 		if absVec < 0 {
 			absVec = -absVec
@@ -153,8 +152,8 @@ func (w *Worker) runCommitCycle() {
 
 		if shouldCommit {
 			commits = append(commits, Commit{Key: key, Vector: vec})
-			vsaToCommit = append(vsaToCommit, v.instance)
-			vectorsToCommit = append(vectorsToCommit, vec)
+			vsaToCommit = append(vsaToCommit, v)
+			vectorsToCommit = append(vectorsToCommit, vector)
 			// Disarm to enforce low watermark before the next threshold-based commit
 			v.armed.Store(false)
 		}
@@ -182,7 +181,7 @@ func (w *Worker) runCommitCycle() {
 
 	// On successful persistence, update the internal state of each VSA.
 	for i := range vsaToCommit {
-		vsaToCommit[i].Commit(vectorsToCommit[i])
+		vsaToCommit[i].fold(vectorsToCommit[i])
 	}
 }
 
@@ -191,15 +190,17 @@ func (w *Worker) runFinalFlush() {
 	w.cycleMu.Lock()
 	defer w.cycleMu.Unlock()
 	var commits []Commit
-	var vsaToCommit []*vsa.VSA
+	var vsaToCommit []*managedVSA
 	var vectorsToCommit []int64
 
 	w.store.ForEach(func(key string, v *managedVSA) {
-		_, vector := v.instance.State()
-		if vector != 0 {
-			commits = append(commits, Commit{Key: key, Vector: vector})
-			vsaToCommit = append(vsaToCommit, v.instance)
+		vector, pending := v.unpersisted()
+		if pending != 0 {
+			commits = append(commits, Commit{Key: key, Vector: pending})
+			vsaToCommit = append(vsaToCommit, v)
 			vectorsToCommit = append(vectorsToCommit, vector)
+		} else {
+			v.fold(vector) // storage already has all of it
 		}
 	})
 
@@ -219,7 +220,7 @@ func (w *Worker) runFinalFlush() {
 		churn.ObserveCommit(c.Key, c.Vector)
 	}
 	for i := range vsaToCommit {
-		vsaToCommit[i].Commit(vectorsToCommit[i])
+		vsaToCommit[i].fold(vectorsToCommit[i])
 	}
 }
 
@@ -266,14 +267,14 @@ func (w *Worker) runEvictionCycle() {
 				// Touched recently; skip eviction.
 				continue
 			}
-			_, vector := managed.instance.State()
-			if vector != 0 {
-				fmt.Printf("  - Final commit for %s, vector: %d\n", key, vector)
-				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: vector}}); err != nil {
+			vector, pending := managed.unpersisted()
+			if pending != 0 {
+				fmt.Printf("  - Final commit for %s, vector: %d\n", key, pending)
+				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: pending}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
 					continue
 				}
-				managed.instance.Commit(vector)
+				managed.fold(vector)
 			}
 			w.store.Delete(key)
 		}
diff --git a/vsa.go b/vsa.go
index 7769d0c..1d4d036 100644
--- a/vsa.go
+++ b/vsa.go
@@ -298,8 +298,15 @@ func (v *VSA) CheckCommit(threshold int64) (bool, int64) {
 // Per VSA: S_new = S_old - A_net_committed, and the in-memory vector is reduced by the same amount.
 // We do not sweep/reset stripes here to keep Update lock-free; instead we track a committedOffset.
 func (v *VSA) Commit(committedVector int64) {
+	v.CommitApplied(committedVector)
+}
+
+// CommitApplied is Commit, and reports the (signed) part of the vector it actually folded
+// into the scalar. It differs from committedVector when operations that landed after the
+// snapshot was taken moved the net vector below it.
+func (v *VSA) CommitApplied(committedVector int64) int64 {
 	if committedVector == 0 {
-		return
+		return 0
 	}
 	// Serialize with TryConsume/TryRefund so the gate observes a consistent
 	// (S, committedOffset) pair relative to the subsequent in-memory update.
@@ -312,7 +319,7 @@ func (v *VSA) Commit(committedVector int64) {
 	net := v.currentVector()
 	if net == 0 {
 		v.tryMu.Unlock()
-		return
+		return 0
 	}
 	// Magnitude we can safely commit is limited by the current net, and we must
 	// move towards zero with the sign of the current net (not the possibly-stale input).
@@ -332,6 +339,7 @@ func (v *VSA) Commit(committedVector int64) {
 	v.committedOffset.Add(delta)
 	v.commitSeq.Add(1)
 	v.tryMu.Unlock()
+	return delta
 }
 
 // TryConsume atomically checks whether at least n units are available and, if so,
-- 
2.43.0


From e1a13fda6d22d19f8e90496156ec6df6f87634e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 08/30] fix: eviction dropped operations that landed during its
 final commit

---
 internal/ratelimiter/core/worker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 93067df..3189c6f 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -275,6 +275,12 @@ func (w *Worker) runEvictionCycle() {
 					continue
 				}
 				managed.fold(vector)
+				// Operations may have landed while the write was in flight: keep the key
+				// (and what they left behind) until it is idle again.
+				last = atomic.LoadInt64(&managed.lastAccessed)
+				if _, pending = managed.unpersisted(); pending != 0 || time.Since(time.Unix(0, last)) <= w.evictionAge {
+					continue
+				}
 			}
 			w.store.Delete(key)
 		}
-- 
2.43.0


From 3ee3e20a506f809b78ed336921a40d53f1211d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 09/30] fix: eviction's final commits were missing from the
 churn telemetry

---
 internal/ratelimiter/core/worker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 3189c6f..5c40a8a 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -272,8 +272,11 @@ func (w *Worker) runEvictionCycle() {
 				fmt.Printf("  - Final commit for %s, vector: %d\n", key, pending)
 				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: pending}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
+					churn.ObserveCommitError(1)
 					continue
 				}
+				churn.ObserveBatch(1)
+				churn.ObserveCommit(key, pending)
 				managed.fold(vector)
 				// Operations may have landed while the write was in flight: keep the key
 				// (and what they left behind) until it is idle again.
-- 
2.43.0


From e81276be5c8235e8f0e4c271feed9230e2975bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 10/30] fix: a busy key with hysteresis committed once and then
 never again

---
 internal/ratelimiter/core/store.go  |  4 ++++
 internal/ratelimiter/core/worker.go | 11 ++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 5677b48..318019b 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -44,6 +44,10 @@ type managedVSA struct {
 	// lastAccessed stores the last access time in UnixNano to allow atomic access across goroutines.
 	lastAccessed int64
 	armed        atomic.Bool
+	// rearm asks the next commit cycle to re-arm the key first: its last commit already
+	// took it to the low watermark, or failed and is to be retried. Without it a key that
+	// is back above the high watermark by the next cycle would never commit again.
+	rearm atomic.Bool
 	// ahead is what storage was given beyond what the VSA could fold: operations landing
 	// while a batch is being persisted can undo part of it (e.g. a refund). It is netted
 	// out of the next write. Only touched by the worker's (serialized) cycles.
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 5c40a8a..75dc90b 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -135,6 +135,9 @@ func (w *Worker) runCommitCycle() {
 		last := atomic.LoadInt64(&v.lastAccessed)
 		commitByMaxAge := w.commitMaxAge > 0 && vec != 0 && now.Sub(time.Unix(0, last)) >= w.commitMaxAge
 
+		if v.rearm.Swap(false) {
+			v.armed.Store(true)
+		}
 		shouldCommit := false
 		if commitByThreshold {
 			if w.lowCommitThreshold <= 0 || v.armed.Load() {
@@ -155,7 +158,7 @@ func (w *Worker) runCommitCycle() {
 			vsaToCommit = append(vsaToCommit, v)
 			vectorsToCommit = append(vectorsToCommit, vector)
 			// Disarm to enforce low watermark before the next threshold-based commit
-			v.armed.Store(false)
+			v.rearm.Store(v.armed.Swap(false)) // retry next cycle if persisting fails
 		}
 	})
 
@@ -180,8 +183,10 @@ func (w *Worker) runCommitCycle() {
 	}
 
 	// On successful persistence, update the internal state of each VSA.
-	for i := range vsaToCommit {
-		vsaToCommit[i].fold(vectorsToCommit[i])
+	for i, v := range vsaToCommit {
+		v.fold(vectorsToCommit[i])
+		_, left := v.unpersisted()
+		v.rearm.Store(left <= w.lowCommitThreshold && -left <= w.lowCommitThreshold)
 	}
 }
 
-- 
2.43.0


From 66ee64183164f7bd92f1d50cbb210900e0183a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 11/30] fix: requests admitted during shutdown missed the final
 flush

---
 cmd/ratelimiter-api/main.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/ratelimiter-api/main.go b/cmd/ratelimiter-api/main.go
index d100042..851cea3 100644
--- a/cmd/ratelimiter-api/main.go
+++ b/cmd/ratelimiter-api/main.go
@@ -222,7 +222,13 @@ func main() {
 
 	fmt.Println("\nShutting down server...")
 
-	// 7. First, stop the background worker. This will trigger a final commit
+	// 7. First, gracefully shut down the HTTP server with a timeout, so that no request
+	// is admitted after the final commit below.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	shutdownErr := httpServer.Shutdown(ctx)
+
+	// 8. Then stop the background worker. This will trigger a final commit
 	// of any pending VSA vectors to ensure no data is lost.
 	worker.Stop()
 
@@ -232,11 +238,8 @@ func main() {
 	// Stop any background cached-gate aggregators inside VSA instances.
 	store.CloseAll()
 
-	// 8. Now, gracefully shut down the HTTP server with a timeout.
-	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-	defer cancel()
-	if err := httpServer.Shutdown(ctx); err != nil {
-		log.Fatalf("Server shutdown failed: %v", err)
+	if shutdownErr != nil {
+		log.Fatalf("Server shutdown failed: %v", shutdownErr)
 	}
 
 	fmt.Println("Server gracefully stopped.")
-- 
2.43.0


From 02fc63766aa90a2784921c65f5a13c61f252a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 12/30] fix: Postgres adapter recorded commits but never
 applied them to counters

---
 internal/ratelimiter/persistence/postgres.go | 37 ++++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 12ff200..31fca2c 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -43,12 +43,10 @@ import (
 // Idempotent transaction per commit entry:
 //   INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3)
 //     ON CONFLICT DO NOTHING;
-//   -- If the commit exists, skip the counter update via NOT EXISTS guard.
+//   -- If that inserted no row, the commit was applied before: skip the rest.
 //   UPDATE counters
-//     SET scalar = scalar - $3
-//     WHERE key = $2 AND NOT EXISTS (
-//       SELECT 1 FROM applied_commits WHERE commit_id = $1
-//     );
+//     SET scalar = scalar - $2
+//     WHERE key = $1;
 // Optionally, pre-create the counter row to avoid UPDATE=0 when key is unknown.
 
 // PostgresPersister applies commits idempotently using the safe pattern above.
@@ -107,26 +105,35 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 			return errors.New("CommitEntry.CommitID must be set")
 		}
 		// Applied marker first (OK to no-op on duplicate)
-		if _, err := tx.ExecContext(ctx,
+		res, err := tx.ExecContext(ctx,
 			`INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3) ON CONFLICT DO NOTHING`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			e.CommitID, e.Key, e.Vector)
+		if err != nil {
+			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
+		}
+		// The marker is now visible to this transaction, so only the insert itself can
+		// tell whether the commit id is new.
+		inserted, err := res.RowsAffected()
+		if err != nil {
 			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
 		}
+		if inserted == 0 {
+			continue // already applied
+		}
 		// Optional fencing: require provided token to be >= last_token, then set it.
 		if e.FencingToken != nil {
-			// Update last_token only if we're not re-applying a known commit id.
 			if _, err := tx.ExecContext(ctx,
-				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $3), $3)
-                  WHERE key = $1 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $2) AND (last_token IS NULL OR $3 >= last_token)`,
-				e.Key, e.CommitID, *e.FencingToken); err != nil {
+				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $2), $2)
+                  WHERE key = $1 AND (last_token IS NULL OR $2 >= last_token)`,
+				e.Key, *e.FencingToken); err != nil {
 				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
 			}
 		}
-		// Apply scalar update if the commit was not already applied.
+		// Apply the scalar update of the new commit.
 		if _, err := tx.ExecContext(ctx,
-			`UPDATE counters SET scalar = scalar - $3
-               WHERE key = $2 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $1)`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			`UPDATE counters SET scalar = scalar - $2
+               WHERE key = $1`,
+			e.Key, e.Vector); err != nil {
 			return fmt.Errorf("update counters(%s): %w", e.Key, err)
 		}
 	}
-- 
2.43.0


From 43ff153dc48025c0c26874883861f5d5e6efdf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 13/30] fix: S-lane cells whose packed keys collide were merged
 or lost

---
 plugin/tfd/saccumulator.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 09291d8..7424e3c 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -57,12 +57,12 @@ func newSShard(orderPow2 uint, countThreshold int, timeCap time.Duration) *SShar
 	}
 }
 
-func (s *SShard) probe(k uint64) int {
+func (s *SShard) probe(k, keyID, bucketID uint64) int {
 	// simple linear probing
 	i := int(k & s.mask)
 	for {
-		kk := s.keys[i]
-		if kk == 0 || kk == k {
+		// Different cells may share a packed key, so the ids decide.
+		if s.keys[i] == 0 || (s.keyIDs[i] == keyID && s.bucketIDs[i] == bucketID) {
 			return i
 		}
 		i = (i + 1) & int(s.mask)
@@ -72,7 +72,10 @@ func (s *SShard) probe(k uint64) int {
 // Ingest merges an S-envelope's delta into the shard accumulator.
 func (s *SShard) Ingest(env Envelope) {
 	k := packKeyBucket(env.Footprint.KeyID, env.Footprint.Time.BucketID)
-	i := s.probe(k)
+	if k == 0 {
+		k = 1 // 0 marks an empty slot
+	}
+	i := s.probe(k, env.Footprint.KeyID, env.Footprint.Time.BucketID)
 	if s.keys[i] == 0 {
 		s.keys[i] = k
 		s.keyIDs[i] = env.Footprint.KeyID
-- 
2.43.0


From 75080ce4749da8a6ade4ae4db8bf0470cbcd9960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 14/30] fix: S-lane ingestion hung once a shard's table was
 full

---
 plugin/tfd/saccumulator.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 7424e3c..97f9eee 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -69,6 +69,30 @@ func (s *SShard) probe(k, keyID, bucketID uint64) int {
 	}
 }
 
+// grow doubles the table, keeping its contents.
+func (s *SShard) grow() {
+	old := *s
+	n := 2 * len(old.keys)
+	s.keys = make([]uint64, n)
+	s.keyIDs = make([]uint64, n)
+	s.bucketIDs = make([]uint64, n)
+	s.sums = make([]int64, n)
+	s.seqEnds = make([]uint64, n)
+	s.mask = uint64(n - 1)
+	for j, k := range old.keys {
+		if k == 0 {
+			continue
+		}
+		// Not probe: FlushKey can leave a cell in two slots, and both hold amounts.
+		i := int(k & s.mask)
+		for s.keys[i] != 0 {
+			i = (i + 1) & int(s.mask)
+		}
+		s.keys[i], s.keyIDs[i], s.bucketIDs[i] = k, old.keyIDs[j], old.bucketIDs[j]
+		s.sums[i], s.seqEnds[i] = old.sums[j], old.seqEnds[j]
+	}
+}
+
 // Ingest merges an S-envelope's delta into the shard accumulator.
 func (s *SShard) Ingest(env Envelope) {
 	k := packKeyBucket(env.Footprint.KeyID, env.Footprint.Time.BucketID)
@@ -77,6 +101,10 @@ func (s *SShard) Ingest(env Envelope) {
 	}
 	i := s.probe(k, env.Footprint.KeyID, env.Footprint.Time.BucketID)
 	if s.keys[i] == 0 {
+		if s.used+1 >= len(s.keys) {
+			s.grow() // probing needs an empty slot to stop at
+			i = s.probe(k, env.Footprint.KeyID, env.Footprint.Time.BucketID)
+		}
 		s.keys[i] = k
 		s.keyIDs[i] = env.Footprint.KeyID
 		s.bucketIDs[i] = env.Footprint.Time.BucketID
-- 
2.43.0


From d668c68da662d2ea3487d33f5d3bd43d0f675c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 15/30] fix: the V lane was not safe for concurrent requests

---
 plugin/tfd/vactors.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plugin/tfd/vactors.go b/plugin/tfd/vactors.go
index e596177..06d270c 100644
--- a/plugin/tfd/vactors.go
+++ b/plugin/tfd/vactors.go
@@ -18,10 +18,12 @@ package tfd
 
 import (
 	"container/list"
+	"sync"
 )
 
 // VActor represents a per-key ordered queue with an audit chain.
 type VActor struct {
+	mu    sync.Mutex // guards prev and queue
 	keyID uint64
 	prev  [16]byte
 	queue *list.List // of Envelope
@@ -36,6 +38,8 @@ func (a *VActor) Enqueue(env Envelope) {
 	if env.Channel != ChannelVector {
 		return
 	}
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	// compute prev-hash as a function of key and last seqEnd
 	a.prev = Hash128(a.keyID, env.SeqEnd)
 	env.HashPrev = a.prev
@@ -44,6 +48,8 @@ func (a *VActor) Enqueue(env Envelope) {
 
 // Drain returns all queued envelopes in order and clears the queue.
 func (a *VActor) Drain() []Envelope {
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	var out []Envelope
 	for e := a.queue.Front(); e != nil; e = e.Next() {
 		out = append(out, e.Value.(Envelope))
@@ -54,6 +60,7 @@ func (a *VActor) Drain() []Envelope {
 
 // VRouter sharded map from keyID to actor.
 type VRouter struct {
+	mu     sync.Mutex
 	actors map[uint64]*VActor
 }
 
@@ -62,6 +69,8 @@ func NewVRouter() *VRouter {
 }
 
 func (r *VRouter) Route(keyID uint64) *VActor {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	act := r.actors[keyID]
 	if act == nil {
 		act = newVActor(keyID)
-- 
2.43.0


From 5924c778790def1c901b40977dbbc5f982cbd6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 16/30] fix: persisted V-lane events lacked their audit link

---
 cmd/tfd-sim/main.go    | 4 ++--
 plugin/tfd/pipeline.go | 2 +-
 plugin/tfd/vactors.go  | 8 +++++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index c608672..6fae7d8 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -260,7 +260,7 @@ func main() {
 			}
 			sOps.Inc()
 		} else {
-			vr.Route(fp.KeyID).Enqueue(env)
+			env = vr.Route(fp.KeyID).Enqueue(env)
 			vSink.Append(env)
 			vOps.Inc()
 		}
@@ -317,7 +317,7 @@ func main() {
 						}
 						sOps.Inc()
 					} else {
-						vr.Route(fp.KeyID).Enqueue(env)
+						env = vr.Route(fp.KeyID).Enqueue(env)
 						vSink.Append(env)
 						vOps.Inc()
 					}
diff --git a/plugin/tfd/pipeline.go b/plugin/tfd/pipeline.go
index 1d0a785..c27680f 100644
--- a/plugin/tfd/pipeline.go
+++ b/plugin/tfd/pipeline.go
@@ -89,7 +89,7 @@ func (p *Pipeline) Handle(env Envelope, persistV func(Envelope)) {
 		return
 	}
 	act := p.v.Route(env.Footprint.KeyID)
-	act.Enqueue(env)
+	env = act.Enqueue(env)
 	if persistV != nil {
 		persistV(env)
 	}
diff --git a/plugin/tfd/vactors.go b/plugin/tfd/vactors.go
index 06d270c..6e5cfe9 100644
--- a/plugin/tfd/vactors.go
+++ b/plugin/tfd/vactors.go
@@ -33,10 +33,11 @@ func newVActor(keyID uint64) *VActor {
 	return &VActor{keyID: keyID, queue: list.New()}
 }
 
-// Enqueue appends a V-envelope and updates the prev-hash link.
-func (a *VActor) Enqueue(env Envelope) {
+// Enqueue appends a V-envelope and updates the prev-hash link. It returns the envelope
+// as queued, i.e. carrying the link, which is the one to persist.
+func (a *VActor) Enqueue(env Envelope) Envelope {
 	if env.Channel != ChannelVector {
-		return
+		return env
 	}
 	a.mu.Lock()
 	defer a.mu.Unlock()
@@ -44,6 +45,7 @@ func (a *VActor) Enqueue(env Envelope) {
 	a.prev = Hash128(a.keyID, env.SeqEnd)
 	env.HashPrev = a.prev
 	a.queue.PushBack(env)
+	return env
 }
 
 // Drain returns all queued envelopes in order and clears the queue.
-- 
2.43.0


From 194b363e7ad02457f54205474ba7232ac445c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 17/30] fix: after a crash the next log record was lost with
 the torn one

---
 internal/sinks/sbatch_file_sink.go | 28 +++++++++++++++++++++++++++-
 internal/sinks/venv_file_sink.go   |  2 +-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/sinks/sbatch_file_sink.go b/internal/sinks/sbatch_file_sink.go
index 29e77ea..1bbebd4 100644
--- a/internal/sinks/sbatch_file_sink.go
+++ b/internal/sinks/sbatch_file_sink.go
@@ -40,7 +40,7 @@ type SBatchFileSink struct {
 // NewSBatchFileSink opens (or creates) the file at path in append mode with
 // a buffered writer. Call Close() when done.
 func NewSBatchFileSink(path string) (*SBatchFileSink, error) {
-	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	f, err := openLog(path)
 	if err != nil {
 		return nil, err
 	}
@@ -48,6 +48,32 @@ func NewSBatchFileSink(path string) (*SBatchFileSink, error) {
 	return s, nil
 }
 
+// openLog opens (or creates) a JSONL log for appending. If a crash left a partial record at
+// its end, that record's line is ended first so that it does not swallow the next record.
+func openLog(path string) (*os.File, error) {
+	torn := false
+	if r, err := os.Open(path); err == nil {
+		if fi, err := r.Stat(); err == nil && fi.Mode().IsRegular() && fi.Size() > 0 {
+			var last [1]byte
+			if _, err := r.ReadAt(last[:], fi.Size()-1); err == nil {
+				torn = last[0] != '\n'
+			}
+		}
+		_ = r.Close()
+	}
+	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	if err != nil {
+		return nil, err
+	}
+	if torn {
+		if _, err := f.WriteString("\n"); err != nil {
+			_ = f.Close()
+			return nil, err
+		}
+	}
+	return f, nil
+}
+
 // OnSBatches writes the batches as JSON lines.
 func (s *SBatchFileSink) OnSBatches(b []tfd.SBatch) {
 	if len(b) == 0 {
diff --git a/internal/sinks/venv_file_sink.go b/internal/sinks/venv_file_sink.go
index 991c15d..82f64b9 100644
--- a/internal/sinks/venv_file_sink.go
+++ b/internal/sinks/venv_file_sink.go
@@ -37,7 +37,7 @@ type VEnvFileSink struct {
 }
 
 func NewVEnvFileSink(path string) (*VEnvFileSink, error) {
-	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	f, err := openLog(path)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 78e2107d2c60620ce83498bc8ff587619f210134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 18/30] fix: tfd-proxy GET /state without a key returned an
 empty body

---
 cmd/tfd-proxy/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index eb94b4c..7b0a086 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -333,8 +333,12 @@ func main() {
 			_ = json.NewEncoder(w).Encode(m)
 			return
 		}
-		// dump everything
-		_ = json.NewEncoder(w).Encode(st.Cells())
+		// dump everything (JSON object keys must be strings)
+		m := map[string]int64{}
+		for kb, v := range st.Cells() {
+			m[fmt.Sprintf("%d:%d", kb[0], kb[1])] = v
+		}
+		_ = json.NewEncoder(w).Encode(m)
 	})
 
 	go func() {
-- 
2.43.0


From a0b3cb216c5bf356ac8a9c08655ca3a9805c5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 19/30] fix: tfd-proxy acknowledged events during shutdown that
 it no longer logged

---
 cmd/tfd-proxy/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index 7b0a086..e7729cb 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"encoding/json"
 	"flag"
 	"fmt"
@@ -341,9 +342,10 @@ func main() {
 		_ = json.NewEncoder(w).Encode(m)
 	})
 
+	srv := &http.Server{Addr: *addr}
 	go func() {
 		log.Printf("tfd-proxy listening on %s", *addr)
-		if err := http.ListenAndServe(*addr, nil); err != nil {
+		if err := srv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
 			log.Fatalf("http: %v", err)
 		}
 	}()
@@ -352,4 +354,8 @@ func main() {
 	sigCh := make(chan os.Signal, 1)
 	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
 	<-sigCh
+	// Let in-flight requests finish before the deferred calls close the lanes and logs.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	_ = srv.Shutdown(ctx)
 }
-- 
2.43.0


From 09036a2e79efa2e3afab1356145649637731a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 20/30] fix: http-loadgen rejected its own release mode

---
 tools/http-loadgen/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/http-loadgen/main.go b/tools/http-loadgen/main.go
index c7baef5..183403f 100644
--- a/tools/http-loadgen/main.go
+++ b/tools/http-loadgen/main.go
@@ -44,7 +44,7 @@ func main() {
 		base   = flag.String("base", "http://127.0.0.1:8080", "Base URL including scheme and host, e.g. http://127.0.0.1:8080")
 		path   = flag.String("path", "/check", "Request path (e.g., /check)")
 		param  = flag.String("param", "api_key", "Query parameter name for the key")
-		modeS  = flag.String("mode", string(modeSingle), "Mode: single|zipf")
+		modeS  = flag.String("mode", string(modeSingle), "Mode: single|zipf|release")
 		key    = flag.String("key", "alice-key", "Key for single mode")
 		hotKey = flag.String("hot_key", "hot-1", "Hot key for zipf mode")
 		coldN  = flag.Int("cold_keys", 50, "Number of cold keys to round-robin in zipf mode")
@@ -61,8 +61,8 @@ func main() {
 	flag.Parse()
 
 	m := modeType(strings.ToLower(*modeS))
-	if m != modeSingle && m != modeZipf {
-		fmt.Fprintf(os.Stderr, "unknown -mode=%s (want single|zipf)\n", *modeS)
+	if m != modeSingle && m != modeZipf && m != modeRelease {
+		fmt.Fprintf(os.Stderr, "unknown -mode=%s (want single|zipf|release)\n", *modeS)
 		os.Exit(2)
 	}
 	if *N <= 0 || *conc <= 0 {
-- 
2.43.0


From 26c4aa1c2eb3b8e81cbceb5c0c89fadff2db28f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:17 +0000
Subject: [PATCH 21/30] fix: concurrent reads could report amounts that were
 never there

---
 vsa.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vsa.go b/vsa.go
index 1d4d036..726c909 100644
--- a/vsa.go
+++ b/vsa.go
@@ -221,7 +221,6 @@ func (v *VSA) Update(value int64) {
 }
 
 // Available returns the real-time available resource count: S - |A_net|.
-// We compute A_net by summing stripes and subtracting committedOffset.
 func (v *VSA) Available() int64 {
 	s, net := v.snapshot()
 	return s - abs(net)
@@ -271,23 +270,25 @@ func (v *VSA) State() (scalar, vector int64) {
 }
 
 // snapshot reads the scalar and the effective vector so that both lie on the same side
-// of any concurrent Commit. It is lock-free unless a Commit is in progress.
+// of any concurrent Commit. It is lock-free unless a Commit is in progress. Unlike a scan
+// of the stripes, which concurrent operations can change halfway, it never reports a
+// vector that was not there at some instant.
 func (v *VSA) snapshot() (scalar, vector int64) {
 	if seq := v.commitSeq.Load(); seq&1 == 0 {
-		scalar, vector = v.scalar.Load(), v.currentVector()
+		scalar, vector = v.scalar.Load(), v.trackedNet()
 		if v.commitSeq.Load() == seq {
 			return scalar, vector
 		}
 	}
 	v.tryMu.Lock()
 	defer v.tryMu.Unlock()
-	return v.scalar.Load(), v.currentVector()
+	return v.scalar.Load(), v.trackedNet()
 }
 
 // CheckCommit determines if a commit is required for the given threshold.
 // It returns (true, vector) when |vector| ≥ threshold.
 func (v *VSA) CheckCommit(threshold int64) (bool, int64) {
-	net := v.currentVector()
+	_, net := v.snapshot()
 	if abs(net) >= threshold {
 		return true, net
 	}
-- 
2.43.0


From c81b299663e18390d97d2fa2322eaa980ae526ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:47 +0000
Subject: [PATCH 22/30] fix: with the fast path, refunds and commits were
 decided on an outdated vector

A fast-path TryConsume does not hold tryMu: between the moment TryRefund or Commit
derived its amount and the moment it applied it, the vector could change. A refund then
gave back less than was pending, and a commit could move the vector across zero and
change availability.
---
 vsa.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/vsa.go b/vsa.go
index 726c909..1cbb270 100644
--- a/vsa.go
+++ b/vsa.go
@@ -316,10 +316,13 @@ func (v *VSA) CommitApplied(committedVector int64) int64 {
 	// A = S - |net| across commits under concurrency, we recompute the current
 	// effective net and only commit up to its magnitude, in the net's direction.
 	v.tryMu.Lock()
+	defer v.tryMu.Unlock()
+	// Keep readers and fast-path reservations out from the moment the delta is derived.
+	v.commitSeq.Add(1)
+	defer v.commitSeq.Add(1)
 	// Recompute current net under the lock to derive a safe, aligned delta.
 	net := v.currentVector()
 	if net == 0 {
-		v.tryMu.Unlock()
 		return 0
 	}
 	// Magnitude we can safely commit is limited by the current net, and we must
@@ -335,11 +338,8 @@ func (v *VSA) CommitApplied(committedVector int64) int64 {
 		delta = -mag // commit negative towards reducing a negative net
 	}
 	// Apply: decrease scalar by |delta| and increase committedOffset by delta.
-	v.commitSeq.Add(1)
 	v.scalar.Add(-abs(delta))
 	v.committedOffset.Add(delta)
-	v.commitSeq.Add(1)
-	v.tryMu.Unlock()
 	return delta
 }
 
@@ -433,6 +433,9 @@ func (v *VSA) TryConsume(n int64) bool {
 func (v *VSA) reserve(n, margin int64) bool {
 	for {
 		total := v.approxNet.Load()
+		if v.commitSeq.Load()&1 != 0 {
+			return false // a Commit is in progress: queue behind it
+		}
 		net := total - v.committedOffset.Load()
 		if v.scalar.Load()-abs(net) < n+margin {
 			return false
@@ -453,12 +456,25 @@ func (v *VSA) TryRefund(n int64) bool {
 	}
 	v.tryMu.Lock()
 	defer v.tryMu.Unlock()
-	net := v.currentVector()
-	if net <= 0 {
-		return false
-	}
-	if n > net {
-		n = net // clamp: never overshoot below zero net
+	want := n
+	for {
+		net := v.currentVector()
+		if net <= 0 {
+			return false
+		}
+		n = want
+		if n > net {
+			n = net // clamp: never overshoot below zero net
+		}
+		if v.fastPathGuard <= 0 {
+			v.approxNet.Add(-n)
+			break
+		}
+		// Fast-path callers do not hold tryMu: decide and apply in one step.
+		total := net + v.committedOffset.Load()
+		if v.approxNet.CompareAndSwap(total, total-n) {
+			break
+		}
 	}
 	idx := int(v.rr) & v.mask
 	v.rr++
@@ -467,7 +483,6 @@ func (v *VSA) TryRefund(n int64) bool {
 		g := idx / v.hStride
 		v.hGroupSum[g].Add(-n)
 	}
-	v.approxNet.Add(-n)
 	return true
 }
 
-- 
2.43.0


From 532c53ecb816b9a7f8463881477cd422c0ee662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 23/30] fix: Redis commit markers could expire before the
 configured window

---
 internal/ratelimiter/persistence/redis.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index f77618d..46063f7 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -82,12 +82,14 @@ func (r *RedisPersister) CommitBatch(ctx context.Context, entries []CommitEntry)
 	if len(entries) == 0 {
 		return nil
 	}
+	// Whole seconds, rounded up: a marker must not expire before the configured window.
+	ttlSeconds := int((r.markerTTL + time.Second - 1) / time.Second)
 	for _, e := range entries {
 		if e.CommitID == "" {
 			return errors.New("CommitEntry.CommitID must be set")
 		}
 		keys := []string{RedisCounterKey(e.Key), RedisCommitMarkerKey(e.Key, e.CommitID)}
-		args := []interface{}{e.Vector, int(r.markerTTL.Seconds())}
+		args := []interface{}{e.Vector, ttlSeconds}
 		if _, err := r.client.Eval(ctx, redisLuaScript, keys, args...); err != nil {
 			return fmt.Errorf("redis eval key=%s commit=%s: %w", e.Key, e.CommitID, err)
 		}
-- 
2.43.0


From bbf707939ca7ad7d66b7574c008d440ee859f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:51 +0000
Subject: [PATCH 24/30] fix: reconfiguring the churn telemetry at once could
 crash the process

The report loop read its interval from the current configuration after it
had been started. When a reconfiguration got in between and switched
reporting off, the interval was zero and time.NewTicker panicked.
---
 internal/ratelimiter/telemetry/churn/exporter.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/ratelimiter/telemetry/churn/exporter.go b/internal/ratelimiter/telemetry/churn/exporter.go
index c5f7b34..a3862a1 100644
--- a/internal/ratelimiter/telemetry/churn/exporter.go
+++ b/internal/ratelimiter/telemetry/churn/exporter.go
@@ -88,15 +88,13 @@ func startOrUpdateExporter(cfg Config) {
 	// Start new loop
 	exporterStop = make(chan struct{})
 	exporterDone = make(chan struct{})
-	go exporterLoop(exporterStop, exporterDone)
+	go exporterLoop(cfg.LogInterval, exporterStop, exporterDone)
 }
 
-func exporterLoop(stop <-chan struct{}, done chan<- struct{}) {
+func exporterLoop(interval time.Duration, stop <-chan struct{}, done chan<- struct{}) {
 	defer close(done)
-	cfgAny := currCfg.Load()
-	cfg, _ := cfgAny.(Config)
-	// cfg.LogInterval is guaranteed > 0 by the starter
-	ticker := time.NewTicker(cfg.LogInterval)
+	// interval is guaranteed > 0 by the starter; currCfg may already hold a later configuration.
+	ticker := time.NewTicker(interval)
 	defer ticker.Stop()
 	for {
 		select {
-- 
2.43.0


From da8a5ff9cc1b30e3e6c89dcb5e9743a726aa48f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:58 +0000
Subject: [PATCH 25/30] fix: refuse requests whose size or guard overflows the
 fast-path check

---
 vsa.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vsa.go b/vsa.go
index 1cbb270..636a355 100644
--- a/vsa.go
+++ b/vsa.go
@@ -437,7 +437,8 @@ func (v *VSA) reserve(n, margin int64) bool {
 			return false // a Commit is in progress: queue behind it
 		}
 		net := total - v.committedOffset.Load()
-		if v.scalar.Load()-abs(net) < n+margin {
+		// n+margin could overflow: compare in two steps.
+		if avail := v.scalar.Load() - abs(net); avail < margin || avail-margin < n {
 			return false
 		}
 		if v.approxNet.CompareAndSwap(total, total+n) {
-- 
2.43.0


From 4d49ba0647c786181801819f21de5abc21d750aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:21 +0000
Subject: [PATCH 26/30] fix: keep commit amounts exact in the Redis script

Lua numbers are doubles: amounts beyond 2^53 were rounded, and from 1e17 on (or for
zero) the negated number is not an integer to HINCRBY, so the script failed after it had
set the marker and a retry skipped the commit.
---
 internal/ratelimiter/persistence/redis.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index 46063f7..7d81065 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -53,13 +53,19 @@ func NewRedisPersister(client RedisEvaler, markerTTL time.Duration) *RedisPersis
 const redisLuaScript = `
 local counterKey = KEYS[1]
 local markerKey = KEYS[2]
-local vector = tonumber(ARGV[1])
 local ttlSeconds = tonumber(ARGV[2])
+-- negate the vector as text: Lua numbers hold integers exactly only up to 2^53
+local delta = ARGV[1]
+if string.sub(delta, 1, 1) == '-' then
+  delta = string.sub(delta, 2)
+elseif delta ~= '0' then
+  delta = '-' .. delta
+end
 -- try to set the idempotency marker
 local set = redis.call('SETNX', markerKey, 1)
 if set == 1 then
   -- apply the update; convention: scalar = scalar - vector
-  redis.call('HINCRBY', counterKey, 'scalar', -vector)
+  redis.call('HINCRBY', counterKey, 'scalar', delta)
   if ttlSeconds and ttlSeconds > 0 then
     redis.call('EXPIRE', markerKey, ttlSeconds)
   end
-- 
2.43.0


From eec9349ca21e9a6ec5e8fb8598204576cd0d9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:59 +0000
Subject: [PATCH 27/30] fix: a flush of the S-lane service that meets Stop
 waited forever

---
 plugin/tfd/sservice.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/plugin/tfd/sservice.go b/plugin/tfd/sservice.go
index 9b211ee..1ccf86c 100644
--- a/plugin/tfd/sservice.go
+++ b/plugin/tfd/sservice.go
@@ -92,9 +92,17 @@ func (s *SService) Stop() {
 // time-capped batching and log inspection.
 func (s *SService) Flush() {
 	done := make(chan struct{})
-	// Send a synchronous flush request and wait for completion
-	s.flushReqCh <- done
-	<-done
+	// Send a synchronous flush request and wait for completion. A service that is stopping
+	// may not get to the request, but then its final flush covers it.
+	select {
+	case s.flushReqCh <- done:
+	case <-s.doneCh:
+		return
+	}
+	select {
+	case <-done:
+	case <-s.doneCh:
+	}
 }
 
 // Ingest enqueues a Scalar envelope (Vector is ignored). It blocks if the buffer
-- 
2.43.0


From 180409c5f86de7816740b37518af5508e2f1abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:51 +0000
Subject: [PATCH 28/30] fix: a commit threshold of zero writes no empty rows

With a threshold of zero or less every key met it, so each commit cycle wrote a
zero row for every key in memory, for ever.
---
 internal/ratelimiter/core/worker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 75dc90b..e1fcfd6 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -130,7 +130,7 @@ func (w *Worker) runCommitCycle() {
 			absVec = -absVec
 		}
 		// High watermark check
-		commitByThreshold := absVec >= w.commitThreshold
+		commitByThreshold := vec != 0 && absVec >= w.commitThreshold
 		// Max-age: commit if no recent changes and there is a remainder
 		last := atomic.LoadInt64(&v.lastAccessed)
 		commitByMaxAge := w.commitMaxAge > 0 && vec != 0 && now.Sub(time.Unix(0, last)) >= w.commitMaxAge
-- 
2.43.0


From 04910832734f8f54d898da4891886b61152e1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:47 +0000
Subject: [PATCH 29/30] fix: keep the Redis commit markers of different (key,
 id) pairs apart

The marker is commit:<key>:<id>; a ':' in the id let two pairs share one marker, so the
second of them was taken for already applied and its delta was lost.
---
 internal/ratelimiter/persistence/redis.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index 7d81065..40f6770 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strings"
 	"time"
 )
 
@@ -79,9 +80,14 @@ end
 // Keys layout helpers (public for interoperability with other components)
 func RedisCounterKey(key string) string { return fmt.Sprintf("counter:%s", key) }
 func RedisCommitMarkerKey(key, commitID string) string {
+	commitID = markerID.Replace(commitID)
 	return fmt.Sprintf("commit:%s:%s", key, commitID)
 }
 
+// markerID escapes the separator in a commit id, so that key "a" with id "b:1" and key
+// "a:b" with id "1" do not share a marker. Other ids stay as they are.
+var markerID = strings.NewReplacer("%", "%25", ":", "%3A")
+
 // CommitBatch applies entries using a single EVAL to reduce RTT via scripting per entry.
 // Some clients support pipelining; callers can wrap batching externally if needed.
 func (r *RedisPersister) CommitBatch(ctx context.Context, entries []CommitEntry) error {
-- 
2.43.0


From 9313edcaee8f53b57e646754114cc8c1f53ba92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:47 +0000
Subject: [PATCH 30/30] fix: refuse, not drop, a commit whose id belongs to
 another key (Postgres)

applied_commits is keyed by the id alone: an id already recorded for a different key was
taken for a retry, and the delta was silently dropped although the call reported success.
---
 internal/ratelimiter/persistence/postgres.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 31fca2c..fd81e54 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -118,7 +118,16 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
 		}
 		if inserted == 0 {
-			continue // already applied
+			// Already applied, unless the id belongs to a commit of another key.
+			var owner string
+			if err := tx.QueryRowContext(ctx,
+				`SELECT key FROM applied_commits WHERE commit_id = $1`, e.CommitID).Scan(&owner); err != nil {
+				return fmt.Errorf("select applied_commits(%s): %w", e.CommitID, err)
+			}
+			if owner != e.Key {
+				return fmt.Errorf("commit id %s of key %s was already applied for key %s", e.CommitID, e.Key, owner)
+			}
+			continue
 		}
 		// Optional fencing: require provided token to be >= last_token, then set it.
 		if e.FencingToken != nil {
-- 
2.43.0

