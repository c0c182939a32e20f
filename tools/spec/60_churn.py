XE, XM = "internal/ratelimiter/telemetry/churn/exporter.go", "internal/ratelimiter/telemetry/churn/prom_counters.go"
prop("K01", "Telemetry is a no-op when off and never blocks",
 "While churn telemetry is disabled, recording a request, a batch, a commit or an error changes no metric, no aggregate and nothing else. Whether enabled or not, recording never takes a lock of the module, waits on a channel, sleeps, prints or starts a goroutine, so it can sit on the request path.",
 ["inputs", "histories"], "all calls of the observers with any arguments and any configuration history",
 "The tests call the observers for a few inputs; a block or a side effect on one rarely taken branch of the hot path goes unseen.",
 [XM, XE], [("observers", "prom_counters.go Observe*"), ("recording", "exporter.go exporterRecord*, getAgg")], technique=PATHS + " (effect analysis)", note=N_PATH + " The internals of sync.Map and the Prometheus client are trusted not to block.")
prop("K02", "Telemetry never exposes a key",
 "A key handed to telemetry reaches nothing but its hash: no metric, label, aggregate, log line or variable ever holds the key or a part of it, and the hash covers the whole key and depends on nothing else. No metric has labels, so cardinality stays bounded.",
 ["inputs"], "all keys, on every path of every observer",
 "A leak on one branch needs the branch and an inspection of everything that is written.",
 [XM, XE], [("hash", "prom_counters.go hashKey"), ("metrics", "prom_counters.go")], technique="information-flow analysis on all paths", note=N_PATH)
prop("K03", "At most one churn exporter runs, restarted safely",
 "Enabling telemetry with a positive interval starts exactly one exporter; with telemetry off or without an interval none runs. An exporter that ran before has been told to stop, once, and has ended before the call goes on, all under one lock; it publishes at ticks of the interval it was enabled with, always listens for the request to stop and reports its end on every way out. Its ticker never gets a period that is not positive, whatever later calls configure before it gets to run.",
 ["schedules", "histories", "configurations"], "all sequences and interleavings of Enable calls with any configurations",
 "A double close, two exporters or a ticker without a period need a particular order of calls, and of the scheduler.",
 [XE, XM], [("restart", "exporter.go startOrUpdateExporter"), ("loop", "exporter.go exporterLoop")], technique=PATHS + " (channel protocol typestate)", note=N_PATH)
prop("K04", "Telemetry counts every event exactly once",
 "An admitted request adds one to the admitted counter and to the write-reduction baseline whatever the sampling; a committed batch adds its size to the row counters; failed batches are counted; nothing else adds anything. For a key whose hash is within the sampling threshold, and for no other, the shared record of its hash and the global sums get one per admitted request and the magnitude of each committed vector. The threshold follows the configured rate (none at 0, all from 1), and missing settings get the documented defaults.",
 ["inputs", "histories", "configurations"], "all observations and all configurations",
 "Wrong figures at the boundary of the threshold, for negative vectors, or with sampling below one are not sampled by the tests.",
 [XM, XE], [("observers", "prom_counters.go"), ("records", "exporter.go"), ("threshold", "prom_counters.go Enable")], technique=PATHS + " (conservation)", note=N_PATH + " Concurrent eviction of an idle record may drop an update to it, which only the per-key figures show.")
prop("K05", "Churn KPIs cover exactly the configured window",
 "Every snapshot sets the write-reduction ratio to one less rows committed per admitted request, and the churn ratio to updates per committed magnitude, each over the difference between now and the oldest point within the window, and never divides by less than one. Exactly the points older than the window are dropped, under the window's lock; a key's record is dropped exactly when it is dated and idle for more than twice the window; the tracked-keys gauge is the number of records left.",
 ["inputs", "histories"], "all histories of counters, points and records (windows with up to two dropped points, up to two records)",
 "The pruning and the deltas depend on how the points lie relative to the window when a snapshot is taken.",
 [XE], [("snapshot", "exporter.go publishSnapshot")], technique=PATHS, note=N_PATH + " At most two points are dropped and two records visited per explored snapshot.")
