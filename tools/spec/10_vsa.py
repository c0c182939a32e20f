PATHS = "path-sensitive interprocedural dataflow over SSA"
N_PATH = "Static: every path of the named operations (callees inlined, each loop followed for a bounded number of iterations) is checked against the rule with value numbering and an interval/affine fact domain; decides the structural clauses stated, assuming no integer overflow."
VF = ["vsa.go"]
prop("V01", "Concurrent consumption never oversubscribes an accumulator",
 "Whatever mix of concurrent consumptions, refunds and commits runs on one accumulator, the units granted and not refunded never exceed what the durable base had available: every granted request was covered, at the instant it was admitted, by S-|net| >= n, and no two requests can be admitted against the same units. This includes requests admitted without taking the lock and commits that run between the check and the admission.",
 ["schedules", "inputs", "configurations"], "all interleavings of consume, refund and commit calls, all amounts, every combination of gating options",
 "A race between the availability check and the reservation only shows under rare interleavings; tests sample a few schedules.",
 VF, [("admission decision", "vsa.go TryConsume"), ("commit order", "vsa.go Commit")], "accumulator counters", technique=PATHS, note=N_PATH)
prop("V02", "Redundant counters of an accumulator stay in agreement",
 "The different internal accounts of the uncommitted net amount (per-stripe, per-group and running total) change by the same amount in every operation, on the same stripe's group, so every configuration reads the same net vector once operations are quiescent.",
 ["histories", "configurations", "inputs"], "all sequences of operations in all configurations (with and without group sums, every chooser)",
 "A drift of one account in one configuration or on one rarely taken path stays invisible until much later operations read that account.",
 VF, [("stripe, group and total updates", "vsa.go Update, TryConsume, TryRefund, Commit")], technique=PATHS, note=N_PATH)
prop("V03", "A commit leaves availability unchanged",
 "Folding a vector into the base lowers the base by exactly the magnitude by which it shrinks the net vector, so availability S-|net| is the same before and after; the folded amount is the smaller of what was asked and the current net, in the direction of the current net, decided and applied as one critical section. A commit is skipped only when the asked vector or the current net is zero.",
 ["inputs", "schedules", "histories"], "all committed vectors (stale, opposite in sign, larger than the net) and all interleavings with consumptions and refunds",
 "Needs a vector that went stale between being read and being committed, with a particular sign and magnitude relation.",
 VF, [("commit amount", "vsa.go Commit")], technique=PATHS, note=N_PATH)
prop("V04", "Only commits change the durable base",
 "The durable base value and the committed offset of an accumulator change only through commits (and construction); updates, consumptions, refunds, reads and background work never change them.",
 ["programs", "histories"], "every code path of the module, present in any operation",
 "A test can only observe the operations it calls; the guarantee is about all code that could reach the counters.",
 VF, [("who may write the base", "vsa.go Commit, NewWithOptions")], technique="who-may-write query over SSA and the static call graph, plus " + PATHS, note=N_PATH)
prop("V05", "Refused requests leave no trace",
 "A consumption or refund that is refused leaves every counter as it was, requests for zero or negative amounts are always refused, and reading an accumulator never changes it.",
 ["inputs", "schedules", "histories"], "all amounts, all refusing paths including those that lose a race with a commit",
 "The leak appears only on a refusal after a partially completed attempt.",
 VF, [("refusing paths", "vsa.go TryConsume, TryRefund")], technique=PATHS, note=N_PATH)
prop("V06", "Refunds never take the net below zero",
 "A granted refund takes back exactly the smaller of the requested amount and the current positive net, so a refund never creates availability beyond the base, and a refund with a positive amount is refused only if there is nothing to refund; the reading and the change are one critical section.",
 ["inputs", "schedules"], "all amounts and all interleavings of refunds, commits and consumptions",
 "Double refunds overshoot only when two refunds or a refund and a commit interleave, or when n exceeds the net.",
 VF, [("refund clamp", "vsa.go TryRefund")], technique=PATHS, note=N_PATH)
prop("V07", "Accumulator locking is balanced and updates never block",
 "No operation returns with an accumulator's lock held or releases it twice, every plain mutable field is touched only under the lock, and the update path takes no lock and waits for nothing, so producers are never blocked and a deadlock on an accumulator cannot arise.",
 ["schedules", "inputs"], "all paths of all operations, in all configurations",
 "A lock leaked on one early return or an unguarded field needs that exact path plus another goroutine.",
 VF, [("lock region", "vsa.go TryConsume, TryRefund, Commit"), ("lock-free update", "vsa.go Update")], technique="lockset analysis by " + PATHS, note=N_PATH)
prop("V08", "Any construction option yields a sound accumulator layout",
 "Whatever options an accumulator is built with, it starts with the given base and a zero net, and every stripe and group index any operation can compute is inside its table; the table layout never changes after construction.",
 ["configurations", "inputs"], "all values of all construction options",
 "The option space is the product of several integers; index overruns appear only for particular combinations of stripe and group counts.",
 VF, [("construction", "vsa.go NewWithOptions"), ("index computation", "vsa.go Update, TryConsume, TryRefund")], technique=PATHS + " with affine index facts", note=N_PATH)
prop("V09", "Reads report base, net and availability by their definitions",
 "Availability is the base minus the magnitude of the net, the reported state is the base and the net, and the commit check is positive, with the net, exactly when the magnitude of the net reaches the threshold; every reading of the net covers every stripe (or every group) exactly once and subtracts what was already committed.",
 ["inputs", "histories", "configurations"], "all states and thresholds, with and without group sums, for both signs of the net",
 "Covers negative nets, thresholds at the boundary and stripe counts that tests do not combine.",
 VF, [("net reading", "vsa.go Available, State, CheckCommit")], technique=PATHS, note=N_PATH)
prop("V10", "Background refresher starts once, stops on close, closes safely",
 "The background refresher of an accumulator runs exactly when the cached gate is enabled, always with a positive refresh interval, publishes complete readings of the net, ends when the accumulator is closed, and closing any accumulator any number of times from any goroutines neither panics nor leaks the refresher.",
 ["configurations", "histories", "schedules"], "all option values, all sequences and interleavings of close calls",
 "A leaked goroutine or a double close needs particular option values (zero or negative interval, no cached gate) and repeated or concurrent closing.",
 VF, [("start", "vsa.go NewWithOptions"), ("loop", "vsa.go background refresher"), ("close", "vsa.go Close")], technique="typestate (ticker, stop channel, once guard) by " + PATHS, note=N_PATH)
prop("V11", "Configured safety margins are honoured by every grant",
 "The fast-path guard, cache slack and group slack given at construction are kept as given, a consumption admitted without the lock leaves at least the guard available, and with the cached gate enabled no consumption is admitted under the lock unless it also fits the cached availability minus the slack.",
 ["configurations", "inputs", "schedules"], "all option values, all amounts, all states",
 "A margin that is dropped on one admission path is visible only with that option set and a state inside the margin.",
 VF, [("option wiring", "vsa.go NewWithOptions"), ("margins", "vsa.go TryConsume")], technique=PATHS, note=N_PATH)
prop("V12", "Consumption is refused only when too little is available",
 "A positive request is refused only after a reading showed S-|net| below the request (for the cached gate: the cached net plus slack); estimates and the lock-free margin alone never refuse, so without the cached gate units that are available can be consumed.",
 ["inputs", "configurations", "histories"], "all amounts, states and option combinations without contention",
 "Off-by-one refusals at the exact boundary and refusals from a wrong estimate depend on stripe distribution and options.",
 VF, [("refusing paths", "vsa.go TryConsume")], technique=PATHS, note=N_PATH)
