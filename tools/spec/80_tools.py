XL = "tools/http-loadgen/main.go"
prop("L01", "The load generator sends exactly the requests asked for",
 "Whatever number of workers shares a run, their counts add up to the number of requests asked for, and each worker makes exactly its count of requests unless the run's time is up; the run reports only after every worker has ended. Every request goes to the configured URL with one key, escaped, in the configured parameter: the configured key in single and release mode (release by POST, everything else by GET), the hot key or one of the configured number of cold keys in zipf mode, none of which is left out by construction. The body of every response is read to its end and closed.",
 ["inputs", "configurations", "schedules"], "all flag values and modes, all outcomes of each request; up to two workers and two turns followed in full",
 "No test runs the generator; a remainder that is dropped, a turn repeated after an error, a wrong method in one mode or an unread body only shows under particular counts, modes or failures.",
 [XL], [("main and its workers", XL)], technique=PATHS, note=N_PATH + " That every cold key is used is decided only against one cause: numbering it by the value that is a multiple of the skew period. net/http, net/url and fmt are trusted.")
