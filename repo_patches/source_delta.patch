From e9321fd5ae5d231ba2a0dc0912e40c45d5d9f331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:48 +0000
Subject: [PATCH 01/26] fix: decide every TryConsume admission by an exact
 reservation

The cached and grouped gates admit on a stale or estimated net, and the
lock-free fast path checks and adds in separate steps (and overflows for
large n), so more units than available could be admitted.
---
 vsa.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/vsa.go b/vsa.go
index 035f2cd..2e12533 100644
--- a/vsa.go
+++ b/vsa.go
@@ -326,17 +326,13 @@ func (v *VSA) TryConsume(n int64) bool {
 	}
 	// 1) Lock-free fast path when we are far from the limit.
 	if v.fastPathGuard > 0 {
-		s := v.scalar.Load()
-		approx := v.approxNet.Load()
-		if s-abs(approx) >= n+v.fastPathGuard {
-			// Reserve without taking the lock; bounded risk thanks to guard.
+		if v.reserve(n, v.fastPathGuard) {
 			idx := int(v.chooser.Add(1)) & v.mask
 			v.stripes[idx].val.Add(n)
 			if v.hGroups > 0 {
 				g := idx / v.hStride
 				v.hGroupSum[g].Add(n)
 			}
-			v.approxNet.Add(n)
 			return true
 		}
 	}
@@ -377,7 +373,12 @@ func (v *VSA) TryConsume(n int64) bool {
 			return false
 		}
 	}
-	// Reserve by updating a stripe (use round-robin under lock to avoid an atomic)
+	// The gates above may be stale or estimates: they only deny early. Admission is
+	// always decided by an exact reservation, which also accounts for fast-path callers.
+	if !v.reserve(n, 0) {
+		return false
+	}
+	// Record the reservation on a stripe (use round-robin under lock to avoid an atomic)
 	idx := int(v.rr) & v.mask
 	v.rr++
 	v.stripes[idx].val.Add(n)
@@ -385,10 +386,31 @@ func (v *VSA) TryConsume(n int64) bool {
 		g := idx / v.hStride
 		v.hGroupSum[g].Add(n)
 	}
-	v.approxNet.Add(n)
 	return true
 }
 
+// reserve admits n units if they fit and leave at least margin units available, by
+// moving approxNet from the value that was checked to that value plus n in one step.
+func (v *VSA) reserve(n, margin int64) bool {
+	for {
+		// Load the net before the scalar: Commit lowers the scalar first, so a commit
+		// in between can only make us underestimate what is available.
+		net := v.approxNet.Load()
+		s := v.scalar.Load()
+		if s-abs(net)-margin < n {
+			return false
+		}
+		if !v.approxNet.CompareAndSwap(net, net+n) {
+			continue
+		}
+		if v.scalar.Load() == s {
+			return true
+		}
+		// A commit lowered the scalar since it was checked: give the units back and retry.
+		v.approxNet.Add(-n)
+	}
+}
+
 // TryRefund attempts to refund (undo) up to n units from the current positive
 // in-memory vector without making the net vector go negative.
 // It returns true if any refund was applied, false if there was nothing to refund
-- 
2.43.0


From cda732e5114b02e2cb5e81cfb03065fae4a88e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 02/26] fix: close the VSA that loses the GetOrCreate race

Its cached-gate goroutine was never stopped because nothing references it.
---
 internal/ratelimiter/core/store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 1ef1723..ae7872a 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -93,6 +93,8 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 
 	// Try to publish; if another goroutine won the race, reuse that instance.
 	if actual, loaded := s.counters.LoadOrStore(key, newManaged); loaded {
+		// Our instance was never published: stop any background goroutine it started.
+		inst.Close()
 		managed := actual.(*managedVSA)
 		atomic.StoreInt64(&managed.lastAccessed, now)
 		return managed.instance
-- 
2.43.0


From d8d4875a7d9ff544431307d871f0a59544a98603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 03/26] fix: serialize the worker's commit, flush and eviction
 cycles

The commit and eviction loops run concurrently: both could read the same
vector of a key and persist it, so the durable counter was charged twice.
---
 internal/ratelimiter/core/worker.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index a828eaf..e0cbb06 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -42,6 +42,9 @@ type Worker struct {
 	stopChan           chan struct{}
 	wg                 sync.WaitGroup
 	stopped            uint32
+	// cycleMu serializes the commit, final flush and eviction cycles, so that a vector
+	// read by one of them is persisted and applied before another one reads it.
+	cycleMu sync.Mutex
 }
 
 // NewWorker creates and configures a new background worker.
@@ -113,6 +116,8 @@ func (w *Worker) commitLoop() {
 
 // runCommitCycle collects all necessary commits and persists them as a batch.
 func (w *Worker) runCommitCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -183,6 +188,8 @@ func (w *Worker) runCommitCycle() {
 
 // runFinalFlush commits any non-zero vectors regardless of threshold. It is intended for shutdown.
 func (w *Worker) runFinalFlush() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -233,6 +240,8 @@ func (w *Worker) evictionLoop() {
 
 // runEvictionCycle finds and removes stale VSA instances.
 func (w *Worker) runEvictionCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var keysToEvict []string
 	now := time.Now()
 
-- 
2.43.0


From f27dc3c01f79b8bbb611818ce81ed1382f005857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 04/26] fix: re-check a key after its eviction commit before
 deleting it

Units consumed while the write was in flight were deleted with the key
without ever being persisted.
---
 internal/ratelimiter/core/worker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index e0cbb06..b5d9d30 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -275,6 +275,12 @@ func (w *Worker) runEvictionCycle() {
 				}
 				managed.instance.Commit(vector)
 			}
+			// Requests may have arrived while the write was in flight: keep the key if so,
+			// because deleting it would drop what they consumed.
+			last = atomic.LoadInt64(&managed.lastAccessed)
+			if _, rest := managed.instance.State(); rest != 0 || time.Since(time.Unix(0, last)) <= w.evictionAge {
+				continue
+			}
 			w.store.Delete(key)
 		}
 	}
-- 
2.43.0


From af6e30a84f8ba2f0df59577ca13dc46b3cd4b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 05/26] fix: count eviction commits and their failures in churn
 telemetry

The commit cycle and the final flush do; commits made by eviction were
missing from the exported totals.
---
 internal/ratelimiter/core/worker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index b5d9d30..343cad8 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -271,8 +271,11 @@ func (w *Worker) runEvictionCycle() {
 				fmt.Printf("  - Final commit for %s, vector: %d\n", key, vector)
 				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: vector}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
+					churn.ObserveCommitError(1)
 					continue
 				}
+				churn.ObserveBatch(1)
+				churn.ObserveCommit(key, vector)
 				managed.instance.Commit(vector)
 			}
 			// Requests may have arrived while the write was in flight: keep the key if so,
-- 
2.43.0


From 1031d7560d23c15c1598a3d6214d89f24d025898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 06/26] fix: do not persist zero vectors when the commit
 threshold is not positive

With commit_threshold <= 0 every idle key was written on every cycle.
---
 internal/ratelimiter/core/worker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 343cad8..2d259c0 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -131,7 +131,7 @@ func (w *Worker) runCommitCycle() {
 			absVec = -absVec
 		}
 		// High watermark check
-		commitByThreshold := absVec >= w.commitThreshold
+		commitByThreshold := vec != 0 && absVec >= w.commitThreshold
 		// Max-age: commit if no recent changes and there is a remainder
 		last := atomic.LoadInt64(&v.lastAccessed)
 		commitByMaxAge := w.commitMaxAge > 0 && vec != 0 && now.Sub(time.Unix(0, last)) >= w.commitMaxAge
-- 
2.43.0


From d7d30be5b86c672d5540fa401295586fe316572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 07/26] fix: retry keys whose batch failed to persist when
 hysteresis is on

A failed batch left its keys disarmed, so a key that stayed above the low
watermark was not attempted again before shutdown.
---
 internal/ratelimiter/core/store.go  |  2 ++
 internal/ratelimiter/core/worker.go | 12 +++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index ae7872a..963df2a 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -44,6 +44,8 @@ type managedVSA struct {
 	// lastAccessed stores the last access time in UnixNano to allow atomic access across goroutines.
 	lastAccessed int64
 	armed        atomic.Bool
+	// retry is set when persisting this key failed, so the next commit cycle tries again.
+	retry atomic.Bool
 }
 
 // Store manages a collection of VSA instances in memory.
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 2d259c0..12208eb 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -121,6 +121,7 @@ func (w *Worker) runCommitCycle() {
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
+	var managedToCommit []*managedVSA
 
 	now := time.Now()
 	w.store.ForEach(func(key string, v *managedVSA) {
@@ -150,13 +151,19 @@ func (w *Worker) runCommitCycle() {
 		if commitByMaxAge {
 			shouldCommit = true
 		}
+		// A failed write leaves the key disarmed: retry it regardless of the watermarks.
+		if v.retry.Load() && vec != 0 {
+			shouldCommit = true
+		}
 
 		if shouldCommit {
 			commits = append(commits, Commit{Key: key, Vector: vec})
 			vsaToCommit = append(vsaToCommit, v.instance)
 			vectorsToCommit = append(vectorsToCommit, vec)
+			managedToCommit = append(managedToCommit, v)
 			// Disarm to enforce low watermark before the next threshold-based commit
 			v.armed.Store(false)
+			v.retry.Store(false)
 		}
 	})
 
@@ -170,7 +177,10 @@ func (w *Worker) runCommitCycle() {
 		fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
 		// First-class KPI: record commit error
 		churn.ObserveCommitError(1)
-		// In a real system, you would have retry logic here.
+		// Nothing was applied: ask the next cycle to retry these keys.
+		for _, m := range managedToCommit {
+			m.retry.Store(true)
+		}
 		return
 	}
 
-- 
2.43.0


From 9b46d7a05ad01de2d06bbf0297f3ad68ef5e4fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:02 +0000
Subject: [PATCH 08/26] fix: stop serving before the final flush on shutdown

Requests admitted between the final flush and the end of the HTTP server
were never persisted.
---
 cmd/ratelimiter-api/main.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/ratelimiter-api/main.go b/cmd/ratelimiter-api/main.go
index d100042..0a349d7 100644
--- a/cmd/ratelimiter-api/main.go
+++ b/cmd/ratelimiter-api/main.go
@@ -222,7 +222,13 @@ func main() {
 
 	fmt.Println("\nShutting down server...")
 
-	// 7. First, stop the background worker. This will trigger a final commit
+	// 7. First, gracefully shut down the HTTP server with a timeout, so that no
+	// request is admitted after the final flush.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	shutdownErr := httpServer.Shutdown(ctx)
+
+	// 8. Now stop the background worker. This will trigger a final commit
 	// of any pending VSA vectors to ensure no data is lost.
 	worker.Stop()
 
@@ -232,11 +238,8 @@ func main() {
 	// Stop any background cached-gate aggregators inside VSA instances.
 	store.CloseAll()
 
-	// 8. Now, gracefully shut down the HTTP server with a timeout.
-	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-	defer cancel()
-	if err := httpServer.Shutdown(ctx); err != nil {
-		log.Fatalf("Server shutdown failed: %v", err)
+	if shutdownErr != nil {
+		log.Fatalf("Server shutdown failed: %v", shutdownErr)
 	}
 
 	fmt.Println("Server gracefully stopped.")
-- 
2.43.0


From f367c117aaf156668543428acda9dad0ca9c18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:38 +0000
Subject: [PATCH 09/26] fix: apply Postgres commits whose marker is new

The marker row is inserted before the updates, whose NOT EXISTS guard then
sees it in the same transaction, so no commit ever changed a counter.
---
 internal/ratelimiter/persistence/postgres.go | 35 +++++++++++---------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 12ff200..1ee29ea 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -43,12 +43,10 @@ import (
 // Idempotent transaction per commit entry:
 //   INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3)
 //     ON CONFLICT DO NOTHING;
-//   -- If the commit exists, skip the counter update via NOT EXISTS guard.
+//   -- If no row was inserted the commit was already applied: skip the updates.
 //   UPDATE counters
-//     SET scalar = scalar - $3
-//     WHERE key = $2 AND NOT EXISTS (
-//       SELECT 1 FROM applied_commits WHERE commit_id = $1
-//     );
+//     SET scalar = scalar - $2
+//     WHERE key = $1;
 // Optionally, pre-create the counter row to avoid UPDATE=0 when key is unknown.
 
 // PostgresPersister applies commits idempotently using the safe pattern above.
@@ -107,26 +105,33 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 			return errors.New("CommitEntry.CommitID must be set")
 		}
 		// Applied marker first (OK to no-op on duplicate)
-		if _, err := tx.ExecContext(ctx,
+		res, err := tx.ExecContext(ctx,
 			`INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3) ON CONFLICT DO NOTHING`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			e.CommitID, e.Key, e.Vector)
+		if err != nil {
+			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
+		}
+		inserted, err := res.RowsAffected()
+		if err != nil {
 			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
 		}
+		if inserted == 0 {
+			// Known commit id: its effects are already in the counter.
+			continue
+		}
 		// Optional fencing: require provided token to be >= last_token, then set it.
 		if e.FencingToken != nil {
-			// Update last_token only if we're not re-applying a known commit id.
 			if _, err := tx.ExecContext(ctx,
-				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $3), $3)
-                  WHERE key = $1 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $2) AND (last_token IS NULL OR $3 >= last_token)`,
-				e.Key, e.CommitID, *e.FencingToken); err != nil {
+				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $2), $2)
+                  WHERE key = $1 AND (last_token IS NULL OR $2 >= last_token)`,
+				e.Key, *e.FencingToken); err != nil {
 				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
 			}
 		}
-		// Apply scalar update if the commit was not already applied.
+		// Apply scalar update: the marker is new, so the commit was not already applied.
 		if _, err := tx.ExecContext(ctx,
-			`UPDATE counters SET scalar = scalar - $3
-               WHERE key = $2 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $1)`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			`UPDATE counters SET scalar = scalar - $2 WHERE key = $1`,
+			e.Key, e.Vector); err != nil {
 			return fmt.Errorf("update counters(%s): %w", e.Key, err)
 		}
 	}
-- 
2.43.0


From dbbb16461de43433462e424c017186ecc5a723fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 10/26] fix: refuse Postgres commits that carry a stale fencing
 token

A token below last_token left last_token alone but still changed the
counter, so a fenced-off writer could overwrite a newer writer's effects.
---
 internal/ratelimiter/persistence/postgres.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 1ee29ea..495e84e 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -121,12 +121,20 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 		}
 		// Optional fencing: require provided token to be >= last_token, then set it.
 		if e.FencingToken != nil {
-			if _, err := tx.ExecContext(ctx,
+			res, err := tx.ExecContext(ctx,
 				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $2), $2)
                   WHERE key = $1 AND (last_token IS NULL OR $2 >= last_token)`,
-				e.Key, *e.FencingToken); err != nil {
+				e.Key, *e.FencingToken)
+			if err != nil {
+				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
+			}
+			accepted, err := res.RowsAffected()
+			if err != nil {
 				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
 			}
+			if accepted == 0 {
+				return fmt.Errorf("update last_token(%s): fencing token %d is stale or the counter is missing", e.Key, *e.FencingToken)
+			}
 		}
 		// Apply scalar update: the marker is new, so the commit was not already applied.
 		if _, err := tx.ExecContext(ctx,
-- 
2.43.0


From 3288b0f3061fbc9fcb35d3bf2a425e0ec665c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 11/26] fix: keep every (key,bucket) cell apart in the S-lane
 table

Cells with equal packed keys were merged into one cell, and a cell whose
packed key is 0 was dropped by Flush because 0 marks an empty slot.
---
 plugin/tfd/saccumulator.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 09291d8..195a9de 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -57,12 +57,11 @@ func newSShard(orderPow2 uint, countThreshold int, timeCap time.Duration) *SShar
 	}
 }
 
-func (s *SShard) probe(k uint64) int {
-	// simple linear probing
+func (s *SShard) probe(k, keyID, bucketID uint64) int {
+	// simple linear probing; distinct cells can share a packed key, so compare the ids
 	i := int(k & s.mask)
 	for {
-		kk := s.keys[i]
-		if kk == 0 || kk == k {
+		if s.keys[i] == 0 || (s.keyIDs[i] == keyID && s.bucketIDs[i] == bucketID) {
 			return i
 		}
 		i = (i + 1) & int(s.mask)
@@ -72,7 +71,10 @@ func (s *SShard) probe(k uint64) int {
 // Ingest merges an S-envelope's delta into the shard accumulator.
 func (s *SShard) Ingest(env Envelope) {
 	k := packKeyBucket(env.Footprint.KeyID, env.Footprint.Time.BucketID)
-	i := s.probe(k)
+	if k == 0 {
+		k = 1 // 0 marks an empty slot
+	}
+	i := s.probe(k, env.Footprint.KeyID, env.Footprint.Time.BucketID)
 	if s.keys[i] == 0 {
 		s.keys[i] = k
 		s.keyIDs[i] = env.Footprint.KeyID
-- 
2.43.0


From eabf106e4d1a7344a5b3305a905db0498809644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 12/26] fix: grow a full S-lane table instead of probing it
 forever

More distinct cells than slots between two flushes hung the service.
---
 plugin/tfd/saccumulator.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 195a9de..e71ae04 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -74,6 +74,9 @@ func (s *SShard) Ingest(env Envelope) {
 	if k == 0 {
 		k = 1 // 0 marks an empty slot
 	}
+	if s.used >= len(s.keys)-1 {
+		s.grow() // keep a free slot, so that probing always ends
+	}
 	i := s.probe(k, env.Footprint.KeyID, env.Footprint.Time.BucketID)
 	if s.keys[i] == 0 {
 		s.keys[i] = k
@@ -89,6 +92,29 @@ func (s *SShard) Ingest(env Envelope) {
 	s.maybeFlush()
 }
 
+// grow doubles the table and re-inserts every used slot.
+func (s *SShard) grow() {
+	old := *s
+	n := 2 * len(old.keys)
+	s.keys = make([]uint64, n)
+	s.keyIDs = make([]uint64, n)
+	s.bucketIDs = make([]uint64, n)
+	s.sums = make([]int64, n)
+	s.seqEnds = make([]uint64, n)
+	s.mask = uint64(n - 1)
+	for i, k := range old.keys {
+		if k == 0 {
+			continue
+		}
+		j := s.probe(k, old.keyIDs[i], old.bucketIDs[i])
+		s.keys[j] = k
+		s.keyIDs[j] = old.keyIDs[i]
+		s.bucketIDs[j] = old.bucketIDs[i]
+		s.sums[j] = old.sums[i]
+		s.seqEnds[j] = old.seqEnds[i]
+	}
+}
+
 func (s *SShard) maybeFlush() bool {
 	now := Now()
 	if s.used >= s.countThreshold || now.Sub(s.lastFlushAt) >= s.timeCap {
-- 
2.43.0


From a0a598ee1a4a5154483bd469a9671f6d7b19464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 13/26] fix: make the S-lane service safe to stop twice, early
 or during a flush

A second Stop panicked, Stop before Start never returned, and Flush or a
blocking Ingest hung forever when the worker had exited.
---
 plugin/tfd/sservice.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/plugin/tfd/sservice.go b/plugin/tfd/sservice.go
index 9b211ee..e9350a3 100644
--- a/plugin/tfd/sservice.go
+++ b/plugin/tfd/sservice.go
@@ -49,6 +49,8 @@ type SService struct {
 	doneCh chan struct{}
 	opts   SServiceOptions
 	once   sync.Once
+	// stopOnce makes Stop safe to call more than once
+	stopOnce sync.Once
 	// flushReqCh allows external callers to request an immediate flush on the service goroutine and wait for completion
 	flushReqCh chan chan struct{}
 }
@@ -83,7 +85,8 @@ func (s *SService) Start() {
 
 // Stop asks the worker to stop, performs a final flush, and waits for completion.
 func (s *SService) Stop() {
-	close(s.stopCh)
+	s.stopOnce.Do(func() { close(s.stopCh) })
+	s.Start() // a service that never started still flushes what was queued
 	<-s.doneCh
 }
 
@@ -93,8 +96,15 @@ func (s *SService) Stop() {
 func (s *SService) Flush() {
 	done := make(chan struct{})
 	// Send a synchronous flush request and wait for completion
-	s.flushReqCh <- done
-	<-done
+	select {
+	case s.flushReqCh <- done:
+	case <-s.doneCh:
+		return // stopped: Stop already flushed
+	}
+	select {
+	case <-done:
+	case <-s.doneCh:
+	}
 }
 
 // Ingest enqueues a Scalar envelope (Vector is ignored). It blocks if the buffer
@@ -103,7 +113,11 @@ func (s *SService) Ingest(env Envelope) {
 	if env.Channel != ChannelScalar {
 		return
 	}
-	s.in <- env
+	select {
+	case s.in <- env:
+	case <-s.doneCh:
+		// stopped: nobody reads the buffer any more
+	}
 }
 
 // TryIngest attempts to enqueue without blocking. Returns false if the buffer is full.
-- 
2.43.0


From c18026f359af1860797bbe98da422a08ffc061c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 14/26] fix: lock the V-lane router and its actors

HTTP handlers route and enqueue concurrently, which is a concurrent map
write that crashes the process.
---
 plugin/tfd/vactors.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/plugin/tfd/vactors.go b/plugin/tfd/vactors.go
index e596177..c4c9077 100644
--- a/plugin/tfd/vactors.go
+++ b/plugin/tfd/vactors.go
@@ -18,10 +18,13 @@ package tfd
 
 import (
 	"container/list"
+	"sync"
 )
 
 // VActor represents a per-key ordered queue with an audit chain.
+// It is safe for concurrent use.
 type VActor struct {
+	mu    sync.Mutex
 	keyID uint64
 	prev  [16]byte
 	queue *list.List // of Envelope
@@ -36,6 +39,8 @@ func (a *VActor) Enqueue(env Envelope) {
 	if env.Channel != ChannelVector {
 		return
 	}
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	// compute prev-hash as a function of key and last seqEnd
 	a.prev = Hash128(a.keyID, env.SeqEnd)
 	env.HashPrev = a.prev
@@ -44,6 +49,8 @@ func (a *VActor) Enqueue(env Envelope) {
 
 // Drain returns all queued envelopes in order and clears the queue.
 func (a *VActor) Drain() []Envelope {
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	var out []Envelope
 	for e := a.queue.Front(); e != nil; e = e.Next() {
 		out = append(out, e.Value.(Envelope))
@@ -52,8 +59,9 @@ func (a *VActor) Drain() []Envelope {
 	return out
 }
 
-// VRouter sharded map from keyID to actor.
+// VRouter sharded map from keyID to actor. It is safe for concurrent use.
 type VRouter struct {
+	mu     sync.Mutex
 	actors map[uint64]*VActor
 }
 
@@ -62,6 +70,8 @@ func NewVRouter() *VRouter {
 }
 
 func (r *VRouter) Route(keyID uint64) *VActor {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	act := r.actors[keyID]
 	if act == nil {
 		act = newVActor(keyID)
-- 
2.43.0


From 8ff6bba3eb9951164f7a1a6360627d6e7bdb0d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:37 +0000
Subject: [PATCH 15/26] fix: persist V-envelopes with their audit link

Enqueue stamps HashPrev on its own copy, so the V log was written with an
all-zero link.
---
 cmd/tfd-sim/main.go    | 6 ++----
 plugin/tfd/pipeline.go | 2 +-
 plugin/tfd/vactors.go  | 8 +++++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index c608672..a259ddc 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -260,8 +260,7 @@ func main() {
 			}
 			sOps.Inc()
 		} else {
-			vr.Route(fp.KeyID).Enqueue(env)
-			vSink.Append(env)
+			vSink.Append(vr.Route(fp.KeyID).Enqueue(env))
 			vOps.Inc()
 		}
 		w.WriteHeader(202)
@@ -317,8 +316,7 @@ func main() {
 						}
 						sOps.Inc()
 					} else {
-						vr.Route(fp.KeyID).Enqueue(env)
-						vSink.Append(env)
+						vSink.Append(vr.Route(fp.KeyID).Enqueue(env))
 						vOps.Inc()
 					}
 				}
diff --git a/plugin/tfd/pipeline.go b/plugin/tfd/pipeline.go
index 1d0a785..c27680f 100644
--- a/plugin/tfd/pipeline.go
+++ b/plugin/tfd/pipeline.go
@@ -89,7 +89,7 @@ func (p *Pipeline) Handle(env Envelope, persistV func(Envelope)) {
 		return
 	}
 	act := p.v.Route(env.Footprint.KeyID)
-	act.Enqueue(env)
+	env = act.Enqueue(env)
 	if persistV != nil {
 		persistV(env)
 	}
diff --git a/plugin/tfd/vactors.go b/plugin/tfd/vactors.go
index c4c9077..52bb04c 100644
--- a/plugin/tfd/vactors.go
+++ b/plugin/tfd/vactors.go
@@ -34,10 +34,11 @@ func newVActor(keyID uint64) *VActor {
 	return &VActor{keyID: keyID, queue: list.New()}
 }
 
-// Enqueue appends a V-envelope and updates the prev-hash link.
-func (a *VActor) Enqueue(env Envelope) {
+// Enqueue appends a V-envelope and updates the prev-hash link. It returns the
+// envelope as queued, i.e. with its audit link.
+func (a *VActor) Enqueue(env Envelope) Envelope {
 	if env.Channel != ChannelVector {
-		return
+		return env
 	}
 	a.mu.Lock()
 	defer a.mu.Unlock()
@@ -45,6 +46,7 @@ func (a *VActor) Enqueue(env Envelope) {
 	a.prev = Hash128(a.keyID, env.SeqEnd)
 	env.HashPrev = a.prev
 	a.queue.PushBack(env)
+	return env
 }
 
 // Drain returns all queued envelopes in order and clears the queue.
-- 
2.43.0


From 2bf8b1c69f26b87d28d34cf85a7891353f00ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 16/26] fix: report a failed flush when a file sink is closed

Close dropped the error, so losing the buffered tail looked like success.
---
 internal/sinks/sbatch_file_sink.go | 7 +++++--
 internal/sinks/venv_file_sink.go   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/sinks/sbatch_file_sink.go b/internal/sinks/sbatch_file_sink.go
index 29e77ea..3516f10 100644
--- a/internal/sinks/sbatch_file_sink.go
+++ b/internal/sinks/sbatch_file_sink.go
@@ -82,8 +82,11 @@ func (s *SBatchFileSink) Flush() error {
 func (s *SBatchFileSink) Close() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	_ = s.w.Flush()
-	return s.f.Close()
+	err := s.w.Flush()
+	if cerr := s.f.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // ReadAllSLog reads the entire S-batch log file as a slice. Intended for demo/replay.
diff --git a/internal/sinks/venv_file_sink.go b/internal/sinks/venv_file_sink.go
index 991c15d..4e48cbd 100644
--- a/internal/sinks/venv_file_sink.go
+++ b/internal/sinks/venv_file_sink.go
@@ -81,8 +81,11 @@ func (s *VEnvFileSink) Flush() error {
 func (s *VEnvFileSink) Close() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	_ = s.w.Flush()
-	return s.f.Close()
+	err := s.w.Flush()
+	if cerr := s.f.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // ReadAllVLog reads the Vector envelope log for replay.
-- 
2.43.0


From 1bed8bbb10767d7307adb24f17d2cb8648fe2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 17/26] fix: return the cells from /state when no key is given

JSON cannot encode a map keyed by an array, so the response was empty.
---
 cmd/tfd-proxy/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index eb94b4c..3471be7 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -334,7 +334,11 @@ func main() {
 			return
 		}
 		// dump everything
-		_ = json.NewEncoder(w).Encode(st.Cells())
+		m := map[string]int64{}
+		for kb, v := range st.Cells() {
+			m[fmt.Sprintf("%d:%d", kb[0], kb[1])] = v
+		}
+		_ = json.NewEncoder(w).Encode(m)
 	})
 
 	go func() {
-- 
2.43.0


From 9bea0d733547263bce06f87d99dc08f6e840ba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 18/26] fix: accept the load generator's release mode

The worker implements it but the flag check rejected it.
---
 tools/http-loadgen/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/http-loadgen/main.go b/tools/http-loadgen/main.go
index c7baef5..183403f 100644
--- a/tools/http-loadgen/main.go
+++ b/tools/http-loadgen/main.go
@@ -44,7 +44,7 @@ func main() {
 		base   = flag.String("base", "http://127.0.0.1:8080", "Base URL including scheme and host, e.g. http://127.0.0.1:8080")
 		path   = flag.String("path", "/check", "Request path (e.g., /check)")
 		param  = flag.String("param", "api_key", "Query parameter name for the key")
-		modeS  = flag.String("mode", string(modeSingle), "Mode: single|zipf")
+		modeS  = flag.String("mode", string(modeSingle), "Mode: single|zipf|release")
 		key    = flag.String("key", "alice-key", "Key for single mode")
 		hotKey = flag.String("hot_key", "hot-1", "Hot key for zipf mode")
 		coldN  = flag.Int("cold_keys", 50, "Number of cold keys to round-robin in zipf mode")
@@ -61,8 +61,8 @@ func main() {
 	flag.Parse()
 
 	m := modeType(strings.ToLower(*modeS))
-	if m != modeSingle && m != modeZipf {
-		fmt.Fprintf(os.Stderr, "unknown -mode=%s (want single|zipf)\n", *modeS)
+	if m != modeSingle && m != modeZipf && m != modeRelease {
+		fmt.Fprintf(os.Stderr, "unknown -mode=%s (want single|zipf|release)\n", *modeS)
 		os.Exit(2)
 	}
 	if *N <= 0 || *conc <= 0 {
-- 
2.43.0


From 7fb6d242f7294eab3f29e3dd116a2a72e45154e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 19/26] fix: stop serving before tfd-proxy's final flush

Operations accepted after the S-lane stopped or the V log closed were lost.
---
 cmd/tfd-proxy/main.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index 3471be7..9804571 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"encoding/json"
 	"flag"
 	"fmt"
@@ -341,9 +342,10 @@ func main() {
 		_ = json.NewEncoder(w).Encode(m)
 	})
 
+	srv := &http.Server{Addr: *addr}
 	go func() {
 		log.Printf("tfd-proxy listening on %s", *addr)
-		if err := http.ListenAndServe(*addr, nil); err != nil {
+		if err := srv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
 			log.Fatalf("http: %v", err)
 		}
 	}()
@@ -352,4 +354,11 @@ func main() {
 	sigCh := make(chan os.Signal, 1)
 	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
 	<-sigCh
+
+	// Stop serving before the deferred Stop and Close calls do the final flush.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	if err := srv.Shutdown(ctx); err != nil {
+		log.Printf("http shutdown: %v", err)
+	}
 }
-- 
2.43.0


From b212d25e45b2d53565636828020bf5a96a476876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 20/26] fix: use default worker intervals when they are not
 positive

time.NewTicker panics on them, which killed the process on start.
---
 internal/ratelimiter/core/worker.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 12208eb..9c5745c 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -99,7 +99,11 @@ func (w *Worker) Stop() {
 // commitLoop periodically checks for and persists VSA instances that have
 // crossed the commit threshold.
 func (w *Worker) commitLoop() {
-	ticker := time.NewTicker(w.commitInterval)
+	interval := w.commitInterval
+	if interval <= 0 {
+		interval = 100 * time.Millisecond
+	}
+	ticker := time.NewTicker(interval)
 	defer ticker.Stop()
 
 	for {
@@ -235,7 +239,11 @@ func (w *Worker) runFinalFlush() {
 
 // evictionLoop periodically removes old, unused VSA instances from memory.
 func (w *Worker) evictionLoop() {
-	ticker := time.NewTicker(w.evictionInterval)
+	interval := w.evictionInterval
+	if interval <= 0 {
+		interval = 10 * time.Minute
+	}
+	ticker := time.NewTicker(interval)
 	defer ticker.Stop()
 
 	for {
-- 
2.43.0


From eca606c0dc1250de0fb1cffb65022fa336c42230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 21/26] fix: keep both halves of a split S-lane cell when the
 table grows

FlushKey empties slots inside probe chains, so a cell of another key can
come to occupy two slots; re-inserting them overwrote the first one.
---
 plugin/tfd/saccumulator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index e71ae04..3ac5e29 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -107,11 +107,16 @@ func (s *SShard) grow() {
 			continue
 		}
 		j := s.probe(k, old.keyIDs[i], old.bucketIDs[i])
+		if s.keys[j] != 0 {
+			s.used-- // FlushKey can leave a cell in two slots
+		}
 		s.keys[j] = k
 		s.keyIDs[j] = old.keyIDs[i]
 		s.bucketIDs[j] = old.bucketIDs[i]
-		s.sums[j] = old.sums[i]
-		s.seqEnds[j] = old.seqEnds[i]
+		s.sums[j] += old.sums[i]
+		if old.seqEnds[i] > s.seqEnds[j] {
+			s.seqEnds[j] = old.seqEnds[i]
+		}
 	}
 }
 
-- 
2.43.0


From a7b5f7e5ad30ebfb66bcbfdad8ce636227b6838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:48 +0000
Subject: [PATCH 22/26] fix: keep tfd-sim's generator interval positive for
 very large -qps

---
 cmd/tfd-sim/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index a259ddc..c3be64f 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -277,6 +277,9 @@ func main() {
 	stop := make(chan struct{})
 	go func() {
 		interval := time.Second / time.Duration(max(1, *qps))
+		if interval <= 0 {
+			interval = 1 // NewTicker panics on a non-positive interval
+		}
 		ticker := time.NewTicker(interval)
 		defer ticker.Stop()
 		burstLeft := 0
-- 
2.43.0


From 029eab14b1773d5f9eb55183b47dfd1833527d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:50 +0000
Subject: [PATCH 23/26] fix: do not observe tfd-sim's first sink write as an
 interval since 1970

---
 cmd/tfd-sim/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index c3be64f..b8cd15b 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -62,9 +62,9 @@ type metricSink struct {
 }
 
 func (m *metricSink) OnSBatches(b []tfd.SBatch) {
-	prev := time.Unix(0, m.last.Swap(time.Now().UnixNano()))
-	if !prev.IsZero() && m.flushHist != nil {
-		m.flushHist.Observe(time.Since(prev).Seconds())
+	prev := m.last.Swap(time.Now().UnixNano())
+	if prev != 0 && m.flushHist != nil { // 0: no write yet, so no interval
+		m.flushHist.Observe(time.Since(time.Unix(0, prev)).Seconds())
 	}
 	m.inner.OnSBatches(b)
 }
-- 
2.43.0


From b12768cae26a619653a6d16e28b9c1d45e665684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:05 +0000
Subject: [PATCH 24/26] fix: give the churn exporter its interval when it is
 started

---
 internal/ratelimiter/telemetry/churn/exporter.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/ratelimiter/telemetry/churn/exporter.go b/internal/ratelimiter/telemetry/churn/exporter.go
index c5f7b34..fef0ae6 100644
--- a/internal/ratelimiter/telemetry/churn/exporter.go
+++ b/internal/ratelimiter/telemetry/churn/exporter.go
@@ -88,15 +88,14 @@ func startOrUpdateExporter(cfg Config) {
 	// Start new loop
 	exporterStop = make(chan struct{})
 	exporterDone = make(chan struct{})
-	go exporterLoop(exporterStop, exporterDone)
+	go exporterLoop(cfg.LogInterval, exporterStop, exporterDone)
 }
 
-func exporterLoop(stop <-chan struct{}, done chan<- struct{}) {
+func exporterLoop(interval time.Duration, stop <-chan struct{}, done chan<- struct{}) {
 	defer close(done)
-	cfgAny := currCfg.Load()
-	cfg, _ := cfgAny.(Config)
-	// cfg.LogInterval is guaranteed > 0 by the starter
-	ticker := time.NewTicker(cfg.LogInterval)
+	// interval is guaranteed > 0 by the starter. It is not re-read from currCfg: by the
+	// time this goroutine runs, a later Enable may have stored a config with no interval.
+	ticker := time.NewTicker(interval)
 	defer ticker.Stop()
 	for {
 		select {
-- 
2.43.0


From 6ee2aa4790ad468d7df437fa03c4dcbcd1f5e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:02 +0000
Subject: [PATCH 25/26] fix: let the load generator's zipf mode reach every
 cold key

---
 tools/http-loadgen/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/http-loadgen/main.go b/tools/http-loadgen/main.go
index 183403f..6a58491 100644
--- a/tools/http-loadgen/main.go
+++ b/tools/http-loadgen/main.go
@@ -118,7 +118,8 @@ func main() {
 				if ((i + id) % *hotEvery) != 0 {
 					k = *hotKey
 				} else {
-					idx := ((i + id) % *coldN) + 1
+					coldTurn := (i + id) / *hotEvery // (i+id) itself is a multiple of hotEvery here
+					idx := (coldTurn % *coldN) + 1
 					k = fmt.Sprintf("cold-%d", idx)
 				}
 			}
-- 
2.43.0


From b1335c41077a016dda385e36d37b905810cff5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:46 +0000
Subject: [PATCH 26/26] fix: fail a Postgres commit whose counter row is
 missing

---
 internal/ratelimiter/persistence/postgres.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 495e84e..a70c3f8 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -137,11 +137,19 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 			}
 		}
 		// Apply scalar update: the marker is new, so the commit was not already applied.
-		if _, err := tx.ExecContext(ctx,
+		res, err = tx.ExecContext(ctx,
 			`UPDATE counters SET scalar = scalar - $2 WHERE key = $1`,
-			e.Key, e.Vector); err != nil {
+			e.Key, e.Vector)
+		if err != nil {
 			return fmt.Errorf("update counters(%s): %w", e.Key, err)
 		}
+		updated, err := res.RowsAffected()
+		if err != nil {
+			return fmt.Errorf("update counters(%s): %w", e.Key, err)
+		}
+		if updated == 0 {
+			return fmt.Errorf("update counters(%s): the counter is missing", e.Key)
+		}
 	}
 
 	if err := tx.Commit(); err != nil {
-- 
2.43.0

