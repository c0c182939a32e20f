LS = "flow-sensitive interprocedural lockset dataflow over SSA and the call graph"
N_LS = "Static: a lockset dataflow over every function of the module, with callees, callbacks and deferred calls applied to the lock state; locks are told apart by the access path they are reached through. Locks held when a panic unwinds are not modelled."
G01F = ["vsa.go", "internal/ratelimiter/core/store.go", "internal/ratelimiter/core/worker.go", XE, "benchmarks/harness/main.go"]
G05F = ["vsa.go", "plugin/tfd/vactors.go", "internal/sinks/sbatch_file_sink.go", "internal/ratelimiter/core/metrics.go", "internal/ratelimiter/core/persistence.go", XE]
prop("G01", "Atomic variables are only ever accessed atomically",
 "A variable that one place reads or writes with sync/atomic is never read or written plainly elsewhere once it is shared, and no atomic variable (or entry of a concurrent map) is updated by storing back a value computed from an earlier load: changes are made by one atomic step, by compare-and-swap, or under a lock.",
 ["schedules"], "all interleavings of all goroutines of the module",
 "A torn read or a lost update needs two goroutines to meet within nanoseconds; the tests pass with it nearly always.",
 G01F, [("last access", "store.go GetOrCreate; worker.go"), ("scalars", "vsa.go"), ("sums", "exporter.go")], technique="data-flow lint over SSA (atomic discipline)", note="Static: every use of every variable in the module is classified; the value stored is traced back to the load it was computed from within a function.")
prop("G02", "Every lock is released exactly once on every way out",
 "Every lock the module takes is released on every way out of the function that took it, once, in the mode in which it was taken, and no goroutine takes a lock it already holds, directly or through what it calls.",
 ["schedules", "inputs"], "all paths through all functions of the module",
 "A lock that stays held after a rarely taken return stops every later request; the tests do not take that return.",
 G05F, [("locks", "every Lock, RLock, Unlock, RUnlock and defer of the module")], technique=LS, note=N_LS)
prop("G03", "Locks and atomics are never copied",
 "No mutex, wait group, once, atomic variable, or structure that holds one (a VSA, a router, a sink) is copied by assignment, argument, result, range or dereference after it was made: a copy would have its own lock and its own counts.",
 ["schedules"], "all values of all types of the module",
 "A copied lock still compiles and works in a test with one goroutine.",
 G05F, [("types", "every structure with a sync or atomic field")], technique="type-directed lint over SSA", note="Static: all values, parameters, results and stores in the module are inspected.")
prop("G04", "Locks are always taken in one order",
 "The relation \"is taken while the other is held\" between the locks of the module, through all calls, has no cycle; so no set of goroutines can wait for each other's locks for ever.",
 ["schedules"], "all interleavings of all goroutines of the module",
 "A deadlock needs two goroutines to take two locks in opposite orders at the same time.",
 G05F, [("nested locks", "exporter.go startOrUpdateExporter, publishSnapshot; vactors.go; vsa.go")], technique="lock-order analysis over the call graph (interprocedural lockset dataflow)", note=N_LS)
prop("G05", "Shared state is only touched under its lock",
 "In a structure with a lock, a field that changes after construction is read only while that lock is held and changed only while it is held exclusively, along with what it refers to; a structure made to be shared that has no lock never changes such a field once another goroutine can see it; and a package variable that changes while the program runs has one lock held at all its uses.",
 ["schedules"], "all interleavings of all goroutines of the module",
 "A data race needs two goroutines to meet; the race detector sees only the runs the tests make.",
 G05F, [("guarded fields", "every structure with a Mutex or RWMutex"), ("globals", "exporter.go, metrics.go, persistence.go, postgres.go")], technique=LS + " (guarded-by inference)", note=N_LS)
prop("G06", "Goroutines share captured variables safely",
 "A local variable that a goroutine captures, and that it or its starter changes, is accessed under a common lock or in an enforced order: before the goroutine starts, or after its end was waited for; and when several goroutines of a loop share it, none changes it without a lock.",
 ["schedules"], "all goroutines the module starts",
 "The race appears only in the schedules in which the two sides meet.",
 ["internal/ratelimiter/core/worker.go", XE, "cmd/ratelimiter-api/main.go", "cmd/tfd-sim/main.go", "tools/http-loadgen/main.go", "benchmarks/harness/main.go"], [("goroutines", "every go statement of the module")], technique="capture analysis and lockset dataflow over SSA", note=N_LS + " Orders other than start, WaitGroup and channel end signals are not recognised.")

prop("G07", "Every loop of the module can come to its end",
 "Every loop has an exit whose condition can change from one round to the next, or waits for somebody else in every round; and a compare-and-swap that failed is never tried again with the value expected before, so no operation spins for ever because another goroutine was faster.",
 ["schedules", "inputs"], "all loops of all functions of the module",
 "A retry that spins needs another goroutine to come in between a load and a swap; a loop that never ends needs the configuration or input that takes it around.",
 ["vsa.go", "plugin/tfd/saccumulator.go", "plugin/tfd/vsa_integration.go", "internal/ratelimiter/core/worker.go", XE], [("loops", "every natural loop of the module's control-flow graphs"), ("retries", "vsa.go reserve")], technique="loop-invariance analysis of exit conditions over SSA", note="Static: a value is invariant when it is computed in the loop only from values that are; fields only ever set in the function that made the structure count as constant. Not a termination proof: a condition that changes, but never to the exit, is not reported.")
