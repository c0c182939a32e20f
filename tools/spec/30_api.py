AF = ["internal/ratelimiter/api/server.go"]
MF = ["cmd/ratelimiter-api/main.go"]
prop("A01", "A check is admitted exactly when one unit was consumed",
 "A check request with a key consumes at most one unit, from that key's accumulator and no other, and is answered 200 exactly when the unit was consumed and 429 exactly when it was not. A check without a key is answered 400 and leaves all limiter state untouched.",
 ["inputs", "schedules"], "all requests and all accumulator states",
 "Tests look at a few requests; a path that consumes without admitting, or admits without consuming, breaks the limit silently.",
 AF, [("check handler", "server.go handleCheckRateLimit")], technique=PATHS, note=N_PATH)
prop("A02", "Check answers carry correct rate-limit headers",
 "Every answer to a check with a key carries the limit, remaining and status headers, and a denial also a retry hint, all set before the answer is sent. Limit is the configured limit, Remaining is that key's availability after the decision, and Status is OK or Exceeded in agreement with the status code.",
 ["inputs", "schedules"], "all requests and limiter states",
 "Headers set after the status line are silently dropped by the HTTP library; tests check one of the two branches per header.",
 AF, [("check handler", "server.go handleCheckRateLimit")], technique=PATHS + " (response typestate)", note=N_PATH)
prop("A03", "A release refunds at most one unit of its own key",
 "A release request with a key attempts to refund exactly one unit on that key's accumulator, consumes nothing, is answered 204, and counts a refund exactly when the refund happened. Without a key it is answered 400 and touches no limiter state.",
 ["inputs", "schedules"], "all requests and accumulator states",
 "A refund counted or made twice inflates the budget without an error.",
 AF, [("release handler", "server.go handleRelease")], technique=PATHS, note=N_PATH)
prop("A04", "Request accounting agrees with decisions",
 "Each check with a key counts one attempt, counts one admission exactly when it was admitted and none otherwise, and is reported to telemetry exactly once with its key and the actual decision.",
 ["inputs", "schedules"], "all requests and accumulator states",
 "The final write-reduction metric is computed from these counts; a miscounted branch still yields plausible figures.",
 AF, [("check handler", "server.go handleCheckRateLimit")], technique=PATHS, note=N_PATH)
prop("A05", "The request path never waits for durable storage",
 "Deciding a check or a release performs no durable write, network or file access and no sleep, and takes no lock that is held anywhere while a durable write is in progress.",
 ["programs", "schedules"], "all code reachable from the request handlers",
 "The demo persister answers instantly, so tests cannot tell a blocking request path from a non-blocking one.",
 AF + CW + ["vsa.go"], [("handlers", "server.go"), ("write span", "worker.go")], technique="effect analysis over the call graph; lock sets at the durable write", note="Static: call-graph reachability (interface calls resolved to every implementation in the module) and lock sets.")
prop("A06", "The served API exposes exactly the registered endpoints",
 "The check, release and metrics endpoints are each registered once, and both ways of running the API serve the multiplexer on which they were registered. The library's listener listens on the address it is given, with read, write and idle timeouts, and returns the listener's error; telemetry serves the metrics on a separate address exactly when it is given one.",
 ["configurations"], "both the library's own listener and the API binary",
 "Tests register routes themselves and never run the binary's wiring.",
 AF + MF, [("routes", "server.go RegisterRoutes"), ("listeners", "server.go ListenAndServe, main.go")], technique=PATHS, note=N_PATH)
prop("M01", "Shutdown of the API binary loses no admitted request",
 "After SIGINT or SIGTERM the binary first stops admitting requests, then runs the worker's final flush, and only then prints the final metrics, closes the accumulators and exits; the flush runs on every path, also when the HTTP shutdown fails. Requests are served only once the worker runs on a persister that could be built, and a listener that fails ends the process.",
 ["schedules", "fault_sequences"], "all shutdown paths, including a failing HTTP shutdown",
 "No test runs the binary's shutdown; an exit before the flush loses every unpersisted vector.",
 MF, [("shutdown sequence", "main.go main")], technique=PATHS + " (ordering on every path of main)", note=N_PATH)
prop("M02", "Every flag of the API binary configures its own parameter",
 "Each command-line setting of the limit, watermarks, intervals, ages, accumulator options, persistence and telemetry reaches exactly the parameter it documents, unmodified and only after parsing, and the server, worker and persister share one store and one persister. The limit, watermark, interval, age, address and telemetry settings are recorded under their flag's name for the final report.",
 ["configurations"], "all flag values",
 "Two swapped durations compile and pass every test; only unusual settings reveal them.",
 MF, [("wiring", "main.go main")], technique=PATHS + " (value provenance from flag to parameter)", note=N_PATH)
