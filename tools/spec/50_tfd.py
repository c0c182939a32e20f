TC, TP, TR, TA, TW, TS, TY, TV, TI = ["plugin/tfd/" + x for x in ("classifier.go", "pipeline.go", "reconstruct.go", "saccumulator.go", "saccumulator_wrap.go", "sservice.go", "types.go", "vactors.go", "vsa_integration.go")]
prop("T01", "TFD classifies operations conservatively and stably",
 "An operation goes to the commutative Scalar lane exactly when it has a key, is marked single-key and conservative, and carries no backdated, cross-key, policy, external-decision or global flag; everything else goes to the ordered Vector lane, and only an operation without a key is an error. The footprint carries the identity of the operation's key and of its bucket (or the all-buckets flag without one), and its amount unchanged. Identities are a pure function of the whole string, so they are the same in every process and run.",
 ["inputs"], "all operations (every combination of flags) and all key strings",
 "The decision table has 128 flag combinations and the tests list a few; a process-dependent identity only fails when two processes are compared.",
 [TC, TY], [("classification", "classifier.go Classify"), ("identity", "classifier.go HashKey")], technique=PATHS + " (decision table) and an effect analysis of the identity function", note=N_PATH)
prop("T02", "The S accumulator conserves every delta",
 "Merging an S-envelope changes the table's content by exactly the envelope's delta at the envelope's key and bucket, whatever the table held, including when the table grows; no amount is lost, duplicated or moved to another key or bucket. The sequence marker of a position never falls behind one merged into it, and probing always terminates: a free position remains, it can be taken by any key, and probing reaches every position of the table, also after growth.",
 ["inputs", "histories"], "all envelopes, all table contents and probe sequences, including growth",
 "Losing an entry at growth or on a collision with a specific slot pattern needs colliding hashes the tests do not construct.",
 [TA], [("merge", "saccumulator.go Shard.IngestS"), ("growth", "saccumulator.go Shard.grow")], "S-lane table", technique=PATHS + " (conservation)", note=N_PATH)
prop("T03", "Flushing hands over every S position exactly once",
 "A flush emits every position in use of every shard exactly once, with its own key, bucket, amount and marker, and leaves it free and empty, an accumulator having at least one shard and all of them constructed; flushing one key does so for that key's positions and leaves the others as they were. An S-envelope always goes to the same one shard for its key and bucket.",
 ["inputs", "histories"], "all table contents and shard counts",
 "A position skipped or emitted twice at a boundary is only seen with a table in a particular state.",
 [TA, TW], [("flush", "saccumulator.go FlushAll, FlushKey"), ("routing", "saccumulator_wrap.go Ingest")], "S-lane table", technique=PATHS + " (conservation)", note=N_PATH)
prop("T04", "The S accumulator has one owner",
 "The lock-free S accumulator is touched only by the one goroutine of its service: the service starts at most one worker however often Start is called, nothing else runs the worker's body or reaches the accumulator, and a constructed accumulator is handed to nothing else.",
 ["schedules"], "all calls of the service's methods from any goroutines",
 "A second owner is a data race that needs the right interleaving to lose an update.",
 [TS, TP], [("single writer", "sservice.go Start, loop"), ("construction", "pipeline.go")], "S accumulator", technique="call-graph ownership analysis with " + PATHS, note="Static: who may reach the accumulator's methods is computed on the call graph; the start-once guard is checked on every path.")
prop("T05", "Stopping and flushing the S service lose nothing",
 "Stop makes the worker take everything that was queued, flush it to the sink and only then report the end, and returns after that; a flush request is acknowledged once, after everything queued before it was flushed. No operation of the service waits for something that can no longer happen: callers also wait for the worker's end, and the worker always listens for stop, ticks and flush requests.",
 ["schedules", "histories"], "all interleavings of ingest, tick, flush and stop; stop before start and repeated stop included",
 "Lost tails and hangs at shutdown depend on which select case wins.",
 [TS], [("worker", "sservice.go loop"), ("shutdown", "sservice.go Stop"), ("flush request", "sservice.go Flush")], technique=PATHS + " (channel protocol typestate)", note=N_PATH + " The worker's loop is explored for two iterations from the state it starts in.")
prop("T06", "Every envelope takes exactly one lane to its sink",
 "The pipeline gives a scalar envelope to the S service exactly once, waiting when its queue is full, and a vector envelope to its key's actor and then exactly once to the persister; the S service reports an envelope it did not accept. Everything taken from the queue is merged once and unchanged, the accumulator is flushed at every tick, and everything flushed goes through the transformer when one is configured and then once to the sink when one is configured. A service works with the accumulator, transformer, sink, queue size and flush interval it was given, and a pipeline passes its configured ones, its shards and its start, stop and flush calls on to it.",
 ["inputs", "schedules"], "all envelopes, both lanes, queue full or not",
 "Loss under back-pressure or a wrong lane for one combination needs a full queue at the right moment.",
 [TP, TS, TI], [("dispatch", "pipeline.go Handle"), ("queue", "sservice.go TryIngest, Ingest"), ("delivery", "sservice.go loop")], technique=PATHS, note=N_PATH)
prop("T07", "V-lane envelopes keep their order and audit link",
 "Envelopes of a key are appended to the one actor of that key in arrival order, with the audit link set to the digest of key and sequence and everything else unchanged; draining returns all of them in order and empties the queue atomically. A key never gets a second actor, however many goroutines ask for it. The digest is a pure function of all of its inputs in full, and computing it and draining always end.",
 ["schedules", "histories"], "all interleavings of handle and drain calls for any keys",
 "A second actor or a lost envelope needs two first requests for a key, or a drain during an append, to overlap.",
 [TV], [("actor", "vactors.go VActor"), ("router", "vactors.go VRouter")], "V-lane queues", technique=PATHS + " (lockset and value provenance)", note=N_PATH)
prop("T11", "Footprint disjointness never misses a conflict",
 "Two footprints are reported disjoint exactly when both are scalar and they name different keys, or different buckets of a key with neither covering all buckets; anything that may conflict is reported as such, symmetrically.",
 ["inputs"], "all pairs of footprints",
 "The four-way decision has corners (all-buckets on one side only, mixed scopes) the tests do not enumerate.",
 [TY], [("disjointness", "types.go Footprint.Disjoint")], technique=PATHS + " (decision table)", note=N_PATH)
T9N = " The number of batches and envelopes is bounded as stated; every pattern of coinciding keys among them is distinguished. Reusing the input's backing array is not modelled."
prop("T09", "Compressing S batches conserves every delta",
 "For every key and bucket the deltas of the batches a transformer returns sum to those of the batches it was given: every amount is counted in exactly one output batch of its own key and bucket, or the sum is zero, and then, and only then, the position is left out. No key and bucket is returned twice, and an output batch carries the largest sequence marker merged into it; compressing always ends, because its table has room for every batch and probing reaches every position.",
 ["inputs"], "all inputs of up to three batches, with every pattern of equal keys and buckets, in both the small and the large form of the algorithm",
 "The table form probes, compacts and drops; a lost batch needs a particular pattern of equal keys, collisions and cancelling amounts.",
 [TI, TY], [("compression", "vsa_integration.go SimpleVSA.Compress")], technique=PATHS + " (conservation with symbolic aliasing of table slots and keys)", note=N_PATH + T9N)
prop("T10", "Replay applies every record exactly once, V in order",
 "Replaying into a state adds each S batch's amount and each V envelope's amount to the value of its own key and bucket, exactly once each, and changes nothing else; the amounts of S batches commute. V envelopes are applied sorted by their sequence markers. The unbatched baseline gives the same values.",
 ["inputs", "histories"], "all logs of up to two S batches and two V envelopes over any starting state, with every pattern of equal keys and orders",
 "A replay that drops or doubles one record is only seen with logs that hold the pattern in question.",
 [TR, TY], [("replay", "reconstruct.go Reconstruct"), ("baseline", "reconstruct.go BaselineApply")], "replayed state", technique=PATHS + " (conservation with symbolic aliasing of map keys)", note=N_PATH + T9N)
prop("T12", "The log sinks write and read back every record",
 "Every batch and envelope handed to a sink is encoded to its log once, in order and unchanged, under the sink's lock; the log is opened for appending and never truncated. Flush and Close write out what is buffered and report failure, Close before it closes the file, and a write over a tenth of a second after the last flush flushes too. Reading a log, however long its lines, returns every decodable line in order, each decoded into a fresh record whose fields all survive the round trip, and reports a read error.",
 ["inputs", "histories", "fault_sequences"], "all records, all files and all outcomes of the write, flush, close and read calls",
 "Stale fields carried between lines, a truncated log after a restart or a swallowed flush error need particular records or faults.",
 ["internal/sinks/sbatch_file_sink.go", "internal/sinks/venv_file_sink.go", TY], [("S log", "sbatch_file_sink.go"), ("V log", "venv_file_sink.go"), ("record types", "types.go")], "JSONL logs", technique=PATHS + " and a check of the record types' encoding", note=N_PATH + " An encoding error for a single record is not reported by the sinks (their interface has no error); encoding/json and bufio are trusted.")
XP, XS = "cmd/tfd-proxy/main.go", "cmd/tfd-sim/main.go"
prop("T13", "TFD tools submit and report what was asked for",
 "Each operation endpoint submits exactly one operation with the request's key, bucket and amount (one when missing or malformed, negated for a reversal) in the lane it documents; an accepted one reaches that lane exactly once before its one answer, 202, in which the proxy names its lane, cell and sequence number; a refused one reaches none and is answered with 400. The simulator's generated operations are routed alike. The state endpoint flushes the S lane and both logs, replays all of both logs, and answers with exactly the cells or the sum asked for, or with an error when a log cannot be read.",
 ["inputs", "histories"], "all requests and all outcomes of classification, ingestion and log reads; states of up to two cells",
 "No test starts the tools; a swapped parameter, a dropped operation under back-pressure or a filter that is off only shows in a run with such requests.",
 [XP, XS], [("endpoints", XP), ("generator", XS)], technique=PATHS, note=N_PATH + " At most one flag (two in thorough) has a value on which start-up decides otherwise than for its default. fmt, strconv and net/http are trusted.")
prop("T14", "TFD tools start and stop without losing records",
 "The S lane runs before requests are served; when the run ends, the proxy first stops serving, then the S lane is stopped, which flushes it, and only then its log is closed; both logs are closed on every way out; a tool whose log cannot be opened does not run, and SIGINT and SIGTERM are both heard, with time left for requests in flight; the simulator also ends after -duration when that is positive, and stops generating first. Each flag, once parsed, configures its own parameter and is replaced by its default only when out of range; no parameter, ticker period included, receives a value that is not positive. The flush-interval metric observes only intervals between two writes, and passes every batch on.",
 ["configurations", "schedules", "fault_sequences"], "all flag values (bounded combinations) and all outcomes of start-up and shutdown calls",
 "Losing the tail of the S lane at shutdown needs requests in flight at a signal; a panic needs an extreme flag value.",
 [XP, XS], [("lifecycle", XP), ("lifecycle", XS)], technique=PATHS + " (typestate)", note=N_PATH + " At most one flag (two in thorough) has a value on which start-up decides otherwise than for its default.")
prop("T15", "The simulator's metrics count every operation and batch once",
 "Each operation that reached a lane adds one to that lane's counter and none to the other's, each ingestion that found the buffer full adds one to its counter, each generated operation adds one to the total, and each compression adds the number of batches it was given and the number it returned. Generated operations are made for the S lane exactly when the random draw is below the configured coverage. Every counted metric is registered once, and both tools serve theirs at /metrics.",
 ["inputs", "configurations"], "all requests, all random draws and all outcomes of classification and ingestion; two generated operations in sequence",
 "The write-reduction numbers the simulator exists to show are ratios of these counters; a counter that misses a path is wrong only by what took that path, and no test starts the tool.",
 [XS, XP], [("endpoint and generator", XS), ("counting transformer", XS)], technique=PATHS, note=N_PATH + " The Prometheus client and math/rand are trusted.")
