PG = "internal/ratelimiter/persistence/postgres.go"
RD = "internal/ratelimiter/persistence/redis.go"
KF = "internal/ratelimiter/persistence/kafka.go"
SH = "internal/ratelimiter/persistence/shim.go"
FC = "internal/ratelimiter/persistence/factory.go"
CL = "internal/ratelimiter/persistence/clients.go"
LANG = PATHS + "; the embedded SQL and Lua are parsed and their own paths enumerated"
prop("P01", "Re-delivered commits are applied at most once",
 "Whatever the number of deliveries of an entry with the same key and commit id, its vector changes the durable counter once: Postgres changes the counter only when the marker row was newly inserted by the same transaction, the Redis script only when it newly set the marker in the same atomic script, and Kafka messages carry the commit id as their key. An entry whose marker is new is always applied.",
 ["histories", "fault_sequences"], "all redelivery histories, duplicates within a batch included",
 "Tests use fakes that check the call text; whether the counter change depends on the marker is a relation between statements the fake does not execute.",
 [PG, RD, KF], [("marker transaction", "postgres.go CommitBatch"), ("script", "redis.go redisLuaScript"), ("message key", "kafka.go CommitBatch")], technique=LANG, note=N_PATH)
prop("P02", "Entries without a commit id are never stored",
 "Every adapter refuses an entry with an empty commit id with an error and stores nothing for it; the Postgres adapter then commits nothing of the batch.",
 ["inputs"], "all batches and all positions of the offending entry",
 "One test checks a single-entry batch; the position within a batch matters.",
 [PG, RD, KF], [("validation", "CommitBatch of each adapter")], technique=PATHS, note=N_PATH)
prop("P03", "Success of an adapter means everything was stored",
 "When an adapter returns nil every entry of the batch was handed to its backend exactly once every backend call it made returned no error, and every counter it applied an entry to existed; an empty batch returns nil without touching the backend. An adapter fails only because of an empty commit id, a failed backend or marshalling call, a missing counter, or a refused fencing token.",
 ["inputs", "fault_sequences"], "all batches and all outcomes of the backend calls",
 "A swallowed error makes the caller fold vectors that were never stored; it needs a backend fault at one call.",
 [PG, RD, KF], [("error handling", "CommitBatch of each adapter")], technique=PATHS, note=N_PATH)
prop("P04", "A Postgres batch is one transaction",
 "All statements of a batch run on the one transaction the call began. Success is returned only after that transaction was committed; when an error is returned it was not committed and was rolled back, so that a batch is stored entirely or not at all.",
 ["fault_sequences"], "all outcomes of every database call",
 "The tests use an sqlmock-like fake and a few failures; every statement's failure is a separate path.",
 [PG], [("transaction", "postgres.go CommitBatch")], technique=PATHS + " (transaction typestate)", note=N_PATH)
prop("P05", "Adapters store each entry's own values",
 "Each entry changes the counter of its own key, and no other, by minus its own vector, and its marker or message carries its own key, commit id, vector and token under the documented names. Missing counters are created exactly when that is configured, start at zero and never overwrite an existing one, the Redis marker expires after the configured time, and Kafka messages go to the configured topic.",
 ["inputs"], "all batches",
 "A swapped placeholder or a value of another entry is invisible to fakes that do not execute the statement.",
 [PG, RD, KF], [("statements", "postgres.go"), ("script", "redis.go"), ("message", "kafka.go CommitMessage")], technique=LANG + " (value provenance)", note=N_PATH)
prop("P06", "Backend calls are bounded in time",
 "The Postgres and Kafka adapters never call their backend without a deadline: the caller's when it has one, otherwise a positive default; a context they derive is released on every return and not before the last call. No adapter passes a nil context.",
 ["inputs", "schedules"], "all callers' contexts and all paths",
 "A hanging backend blocks the worker forever; no test hangs one.",
 [PG, KF], [("default timeout", "CommitBatch")], technique=PATHS, note=N_PATH)
prop("P07", "The shim forwards every commit with its own unique id",
 "The shim hands the idempotent persister exactly one entry per commit, with that commit's key and vector and a fresh id made for that entry alone from at least 16 cryptographically random bytes. It calls the persister once per non-empty batch and returns its error.",
 ["inputs"], "all batches",
 "Two entries sharing an id silently lose one update; ids are random so a test cannot pin them.",
 [SH], [("shim", "shim.go CommitBatch"), ("id", "shim.go randomID")], technique=PATHS + " (value provenance)", note=N_PATH)
prop("P08", "The persistence factory builds what was asked for",
 "Each adapter name builds its own adapter and the empty name the mock; postgres and unknown names are refused with an error and no persister. The Redis adapter talks to exactly the configured address and uses the logging client only without one; marker time to live and topic are the configured ones or a positive default and vsa-commits.",
 ["configurations"], "all adapter names and options",
 "A wrong fallback looks healthy: commits are logged instead of stored.",
 [FC, RD], [("factory", "factory.go BuildPersister")], technique=PATHS, note=N_PATH)
prop("P09", "Stale writers are fenced off (Postgres)",
 "An entry with a fencing token changes the counter only after the same transaction accepted that token, which happens exactly when no token or no larger token is stored, and which stores it; a refused token fails the batch. An entry without a token neither reads nor changes the stored token.",
 ["histories", "schedules"], "all sequences of tokens",
 "The guard is inside an SQL statement no test executes.",
 [PG], [("fencing", "postgres.go CommitBatch")], technique=LANG + "; the guard is evaluated over all orderings of stored and given token", note=N_PATH)
prop("P10", "Backend clients pass calls through faithfully",
 "The Redis client wrapper connects to the configured address, forwards context, script, keys and arguments unchanged exactly once and returns the client's error. The logging clients return the context's error when it is already done and succeed otherwise.",
 ["inputs"], "all calls",
 "The real client needs a server and is not exercised by any test.",
 [CL], [("clients", "clients.go")], technique=PATHS, note=N_PATH)
prop("P11", "A retried batch is not applied twice",
 "When a batch fails part-way and the caller hands the same commits over again, entries that were already stored are not stored a second time: either the retry carries the same commit ids, or the adapter stores a batch entirely or not at all.",
 ["fault_sequences", "histories"], "every adapter below the shim, every position of the failure",
 "It needs a backend that fails in the middle of a batch and a retry.",
 [SH, RD, KF, PG], [("id generation", "shim.go CommitBatch"), ("entry loop", "redis.go, kafka.go, postgres.go")], technique=PATHS + " (value provenance of the id; count of backend calls per batch)", note=N_PATH + " Known finding for Redis and Kafka: the shim makes new ids on every call (its own comment says so).")
