CS = ["internal/ratelimiter/core/store.go"]
CW = ["internal/ratelimiter/core/worker.go", "internal/ratelimiter/core/store.go"]
prop("C01", "One live, correctly configured accumulator per key",
 "At any time a key has at most one live accumulator: every lookup of a key returns the instance registered under exactly that key, concurrent first lookups all get the same instance, and the instance of a lookup that lost the race is closed and never handed out. A new instance has the store's configured limit and options, is eligible for committing, and every lookup refreshes the key's last-access time. No other part of the system can replace a registered instance.",
 ["schedules", "inputs"], "all keys and all interleavings of concurrent lookups",
 "Two instances for one key grant the budget twice; it needs an exact interleaving of first lookups or a rarely used code path.",
 CS, [("lookup or create", "store.go GetOrCreate"), ("map operations", "every use of the store's map")], technique=PATHS + "; whole-module use census of the map", note=N_PATH)
prop("C02", "Store traversal is complete and closing matches removal",
 "Iterating the store visits every registered key with its own entry and cannot be cut short by a visitor, so commit cycles, flushes and shutdown see all keys. Removing a key closes the accumulator that was removed, shutdown closes all of them, and an accumulator still registered is never closed otherwise.",
 ["histories", "inputs"], "all store contents and all operation sequences",
 "Skipped keys or leaked background goroutines show only with particular contents and no assertion looks at them.",
 CS, [("iteration", "store.go ForEach"), ("removal", "store.go Delete"), ("shutdown", "store.go CloseAll")], technique=PATHS + "; call-graph census of close sites", note=N_PATH)
prop("C03", "Vectors are persisted first and then applied exactly once",
 "Each row handed to the persister pairs a key with the net vector just read from that key's own accumulator. After the batch was stored without error each row's vector is folded into that same accumulator exactly once; without such a success nothing is folded. A key appears at most once in a batch, and a key with nothing to persist (a zero vector) in none.",
 ["histories", "fault_sequences", "inputs"], "all batches, all sets of keys, every outcome of the persister, in the commit cycle, the final flush and the eviction",
 "Applying twice, to the wrong key or not at all makes stored and in-memory totals drift without any immediate error.",
 CW, [("commit cycle", "worker.go runCommitCycle"), ("final flush", "worker.go runFinalFlush"), ("eviction commit", "worker.go runEvictionCycle")], technique=PATHS + " with value provenance (typestate read-persist-apply)", note=N_PATH)
prop("C04", "The commit cycle selects exactly the keys its rules name",
 "A commit cycle persists a key if and only if its net vector is non-zero and either its magnitude has reached the high watermark (and, with hysteresis on, the key is armed), or max-age is on and the key was last accessed at least that long ago, or its last attempted write in a commit cycle failed. With hysteresis on, a selected key is disarmed and becomes armed again only once its magnitude is at or below the low watermark.",
 ["inputs", "configurations", "histories"], "all vectors of either sign, watermarks, ages and flag states",
 "The rule is a boolean function of many inputs with boundary and sign cases; tests exercise a few rows of its truth table.",
 CW, [("selection, disarm, re-arm", "worker.go runCommitCycle")], technique=PATHS + " with three-valued evaluation of the selection predicate on every path", note=N_PATH)
prop("C05", "Stopping flushes everything; every tick is served until then",
 "Every tick of the configured commit or eviction interval (a positive default if it is not positive) runs the corresponding cycle, and the loops end only when stop is requested. On stop a final flush offers every key with a non-zero vector to the persister, and the first stop call returns only after both loops, and with them the flush, have ended; repeated stop calls are harmless.",
 ["schedules", "configurations", "histories"], "all interleavings of ticks, stop requests and cycles, all configured intervals",
 "Lost wakeups, early loop exits and double stops depend on timing; tests wait for a few ticks.",
 CW, [("loops", "worker.go commitLoop, evictionLoop"), ("start/stop", "worker.go Start, Stop"), ("final flush", "worker.go runFinalFlush")], technique=PATHS + " over the goroutines the worker starts (select/ticker/wait-group typestate)", note=N_PATH + " That goroutines are eventually scheduled is assumed.")
prop("C06", "Eviction removes only stale keys with nothing left to persist",
 "A key is removed from memory only when, after any write the eviction made for it, its vector was read again and found zero and its last access was read again and found older than the eviction age. A key found stale and empty throughout the cycle is removed, and nothing else removes keys.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings of requests with the eviction cycle, all vectors, all outcomes of the write",
 "The window between the write and the removal is microseconds wide in tests and unbounded with a slow store.",
 CW, [("eviction", "worker.go runEvictionCycle")], technique=PATHS + " (check-after-write typestate per key)", note=N_PATH + " Requests that obtained the accumulator before the removal and use it later are the subject of C10.")
prop("C07", "Persisting cycles never overlap",
 "The commit cycle, the eviction cycle and the final flush are mutually exclusive from reading a vector to applying or dropping it, so a vector that one cycle has read but not yet applied is never persisted by another.",
 ["schedules"], "all interleavings of the commit loop, the eviction loop and stop",
 "Overlap needs the eviction tick to coincide with a commit or a slow write; tests run the cycles one at a time.",
 CW, [("cycle mutex", "worker.go Worker")], technique=PATHS + " with lock sets (same lock held without gap across the read-persist-apply span)", note=N_PATH)
prop("C08", "A failed write is noticed, retried and never counted as done",
 "Every error a persister returns is examined. After a failed batch no vector is folded and no key removed on its account, the failure is counted as exactly one commit error, nothing is reported as committed, and the commit cycle will select each of its keys again even with hysteresis on.",
 ["fault_sequences", "histories"], "every position at which the persister can fail, in every cycle",
 "Failures are injected in tests for one cycle and one key; a swallowed error or a key left disarmed loses data much later.",
 CW, [("error branches", "worker.go runCommitCycle, runFinalFlush, runEvictionCycle")], technique=PATHS + "; module-wide unused-error query", note=N_PATH)
prop("C09", "Commit telemetry equals what was persisted",
 "For every batch that was stored successfully telemetry observes the batch once with its number of rows and each row once with its key and vector, in every kind of cycle; nothing is observed before or without a successful write.",
 ["histories", "fault_sequences"], "all batches in all cycles and all outcomes",
 "The published write-reduction figures are ratios of these counters; no test compares them over all cycles.",
 CW, [("observations", "worker.go")], technique=PATHS, note=N_PATH)
prop("C11", "Event totals and the demo persister's totals are exact",
 "Recording n attempts, admissions or refunds adds exactly n to that total (and non-positive amounts add nothing); the totals are read back as attempts, admissions, refunds. The demo persister advances its totals once per non-empty batch by the number of rows and by one batch, under its lock, never fails, and ignores empty batches.",
 ["inputs", "schedules"], "all amounts and batches",
 "Swapped or double-counted totals give plausible numbers.",
 ["internal/ratelimiter/core/metrics.go", "internal/ratelimiter/core/persistence.go"], [("totals", "metrics.go"), ("demo persister", "persistence.go")], technique=PATHS, note=N_PATH)
prop("C12", "The final report shows the run's true figures and settings",
 "The demo persister's final report shows each figure exactly once under its own name: attempts, admissions and refunds as recorded, writes and batches as its batches advanced them, and as write reduction one minus writes per event as a percentage bounded to 0..100, or a placeholder exactly when there were no events. A setting is recorded under its own name with its own full value, and the report lists every recorded setting with its value.",
 ["inputs", "histories"], "all totals and all recorded settings",
 "The report goes to standard output and no test reads it; a figure under the wrong label or a dropped setting looks plausible.",
 ["internal/ratelimiter/core/persistence.go", "internal/ratelimiter/core/metrics.go"], [("report", "persistence.go PrintFinalMetrics"), ("settings", "metrics.go SetThreshold*")], technique=PATHS + " (provenance of each printed value)", note=N_PATH)
prop("C10", "No request changes an accumulator that eviction has removed",
 "Between looking a key's accumulator up and changing it, a request excludes the eviction from removing that entry, so that no consumption or refund lands on an instance that is no longer registered (it would never be persisted, and the next lookup would grant a fresh budget).",
 ["schedules"], "all interleavings of requests with an eviction cycle",
 "The window is a few instructions wide between the eviction's last re-check and its removal.",
 CW + ["internal/ratelimiter/api/server.go"], [("lookup", "store.go GetOrCreate"), ("removal", "worker.go runEvictionCycle"), ("use", "server.go handlers")], technique="lock-set analysis on every path of the handlers and of the eviction cycle", note=N_PATH + " Known finding for both handlers: the lookup returns a bare pointer.")
