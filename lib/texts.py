"""Technique, note, non-triviality rule and assumptions per property (for MANIFEST and evidence)."""

P = "property-based testing (rapid): "
S = "a controlled scheduler (stand-ins for sync and sync/atomic enter through the build overlay) switches between goroutines at every shared-memory operation"

TEXTS = {
    "C03": (P + "random and systematically enumerated schedules of small concurrent programs, histories checked for linearizability",
            "2-4 goroutines with up to 5 operations each; " + S + ". Random schedules plus, for tiny programs, every schedule with at most two preemptions. Sequential consistency is assumed (Go's atomics give it).",
            "rapid draws options, a starting state and a program; every recorded history must have a sequential order respecting real time; non-trivial: operations really overlap and at least one was admitted and one refused (or several refunds competed)",
            ["cached gate: only the no-over-admission half is claimed, see C02"]),
    "C04": (P + "commits of every size against exact arithmetic (sequential), and readers next to committers under controlled schedules",
            "Sequential histories check scalar, vector and availability around every commit. Under the scheduler every read must fit the linearization, and with only committers and readers availability must be one constant.",
            "non-trivial: one history contains partial, oversized and opposite commits; or reads overlap a commit of a non-zero vector", []),
    "C05": (P + "refund-heavy histories against a model and linearizability under controlled schedules",
            "Refund amounts are concentrated around the pending amount; commits in between make consumption irrevocable. Concurrent refunds, consumes and commits are checked for linearizability.",
            "non-trivial: a refund was clamped after a commit; or refunds overlapped other operations in the schedule", []),
    "C06": (P + "conservation of every update under controlled schedules and under real concurrency",
            "At the end net + committed must equal the exact sum of all updates for every chooser, stripe count and grouping; then one commit of the whole net must leave zero. The stress half depends on the Go scheduler.",
            "non-trivial: at least two updates overlapping with other operations (schedules); more than one worker with more than 20 operations each (stress)", []),
    "C07": (P + "model-based store histories, racing lookups with goroutine accounting, and lookups under controlled schedules",
            "Isolation is checked with keys of arbitrary bytes against one model per key; background work is counted as goroutines before and after.",
            "non-trivial: at least 3 counters created and one deleted; cached-gate counters raced by more than two workers; a key shared by two scheduled tasks", []),
    "C08": (P + "worker histories with injected storage failures and operations landing during writes, on a fake clock and under controlled schedules; conservation oracle",
            "After every step durable + pending equals the exact net per key; after a successful final flush storage equals it. Stop also meets writes in progress, in real time. The listed known finding (evict-lookup-race) is enumerated position by position and nothing else is excused.",
            "non-trivial: operations landed during a write and a write failed in the same history; a loop run with writes and traffic; a schedule in which storage was called next to traffic or other cycles",
            ["storage either accepts a batch completely or reports an error and keeps none of it"]),
    "C09": (P + "commit-loop histories on a fake clock against a model of threshold, watermark and max-age",
            "The batches storage receives in every cycle must be exactly those the model predicts, including retries after failures; thresholds of zero or less mean every change.",
            "non-trivial: a threshold commit happened, and a key was held back by the watermark, committed by age, or retried", []),
    "C10": (P + "eviction histories on a fake clock with failing writes and traffic during the write, against a model of idleness; every position of a lookup inside one eviction cycle",
            "Presence, identity and state of every counter are compared after each eviction cycle. The known finding evict-lookup-race is reproduced and printed.",
            "non-trivial: a key was evicted and, in the same history, a write failed or a key was saved by being used; for the enumeration: the lookup fell inside a cycle that wrote",
            []),
    "C11": (P + "long worker histories with counting of rows per key and cycle; cancelling traffic that must write nothing",
            "Every batch is inspected for duplicate keys and zero rows, and every cycle with nothing to write must not call storage.",
            "non-trivial: more than ten times as many events as rows; or cancelling traffic whose total movement exceeded the threshold; or a cycle with nothing to do after operations that landed during a write were cancelled out", []),
    "C12": (P + "model-based request histories through the HTTP handlers with worker cycles in between",
            "Status, headers and remaining amounts of every response are compared with a counter per key; odd keys, missing keys, methods and evictions included.",
            "non-trivial: admissions, denials and effective releases in the same history", ["a cached gate may refuse on old data or for its slack; with one, refusals are not judged, admissions and headers are"]),
    "C13": (P + "concurrent clients against the handlers with a live worker, and the same under controlled schedules; accounting oracle",
            "Admissions minus effective releases never exceed the limit; storage equals that number after Stop. The load half depends on the Go scheduler, the scheduled half explores interleavings of the instrumented packages.",
            "non-trivial: a key saw more checks than its limit and admitted some; scheduled: the limit was reached", []),
    "C14": (P + "the built server process, terminated at drawn moments under load (fault injection by signal); accounting oracle over its output or a Redis stand-in",
            "Every answered request must be in what the process handed to storage when it has exited; unanswered ones may or may not. Covers adapters mock, redis (demo and a RESP server), kafka; clients that never finish their request hold up the graceful part; the signal may be repeated, and storage may be slow.",
            "non-trivial: at least one admitted request and something written; classes tell whether requests were in flight at the signal",
            ["a signal that arrives before the process has installed its handler kills it and is not judged (the run is repeated with a later signal)"]),
    "C15": (P + "batches with retries, redeliveries and failures before or after any entry, and contexts that end at any point, against an independent interpreter of the Lua script and a map model; also through go-redis and a RESP server",
            "The adapter's own script is executed by a small Lua interpreter over a Redis model with expiry. Trusts that interpreter and the Redis semantics it implements.",
            "non-trivial: a batch failed part-way and was retried; or an entry was delivered again",
            ["amounts are below 2^57 in magnitude (so that sums fit)", "counters hold numbers only"]),
    "C16": (P + "batches with injected failures at every statement and unknown commit outcomes against a small SQL engine with real transactions; several concurrent writers",
            "A database/sql driver executes the adapter's own statements; after each call the tables must equal the model. Trusts the SQL subset implemented (README in DESIGN.md).",
            "non-trivial: a failed batch was retried; or writers delivered the same batches concurrently", ["serializable isolation, as the driver provides"]),
    "C17": (P + "batches with failing publishes and retries; recorded messages decoded and folded by an idempotent consumer",
            "Order, message key, payload fields and identical identifiers on retry are compared per message. Known finding non-utf8-key is printed.",
            "non-trivial: a publish failed, the batch was retried, and at least two distinct commits were involved", []),
    "C18": (P + "random batches through the shim and through BuildPersister for every adapter name; uniqueness over the whole process",
            "A recording adapter (or the adapter's demo output, or a RESP server) must show each entry once, in order, with a fresh identifier.",
            "non-trivial: several rows and an adapter error; concurrent callers; a named adapter that received entries", []),
    "C19": (P + "operations with arbitrary flags, keys and footprints against a restatement of the rule",
            "Exhaustive over flag combinations in effect (all are drawn many times), random over keys and amounts.",
            "non-trivial: an operation that differs from an order-free one in exactly one respect; footprint pairs that share a key or a cell", []),
    "C20": (P + "streams of events with adversarial identifiers and tiny tables against a map of exact sums",
            "Identifiers are drawn to collide in hashes, shards and packed keys; tables are filled beyond capacity. Both the wrapped accumulator and a single shard are driven.",
            "non-trivial: a flush emitted several cells after collisions or overflow, and a per-key flush happened", []),
    "C21": (P + "lists of batches against a map of exact nets; idempotence and permutation invariance",
            "Metamorphic and model oracle on the same input.", "non-trivial: a cell occurred several times and a cell cancelled to zero", []),
    "C22": (P + "submission and drain histories (also with 100,000 events on a key, or thousands of keys) against per-key queues; concurrent submission with the race detector and under controlled schedules",
            "Audit links are recomputed independently. The concurrent half uses -race; a report of the race detector counts as a violation because it means events can be corrupted.",
            "non-trivial: several keys with several events and more than one drain; concurrent submitters of the same key", []),
    "C23": (P + "random operation streams, random flush points, groupings and arrival orders against the direct sequential sum",
            "Differential: replay of the two logs against applying the stream.", "non-trivial: both lanes were used, several flushes, and at least one cell got amounts from both sides", []),
    "C24": (P + "append, flush, close, reopen and cut-at-byte histories on real files; every cut position for small files",
            "Read-back must equal the records completely before each cut plus everything appended later. Crash = truncation at a byte; no reordering of blocks is modelled.",
            "non-trivial: a record was torn and records were appended after reopening; concurrent appenders",
            []),
    "C25": (P + "producer, flush and stop histories on a fake clock against exact sums; concurrent producers under the race detector",
            "After Flush the sink has everything accepted before; after Stop everything, also when they meet and when the buffer is full (the latter in real time). Unbroken traffic in real time must not hold up the periodic flush. Handle concurrent with Stop is not judged.",
            "non-trivial: events were waiting at a flush and at stop; several producers", []),
    "C26": (P + "the built proxy with random request histories, graceful restarts on the same logs and concurrent clients; model of acknowledged sums",
            "After each phase every form of /state is compared with the model; requests unanswered because of the restart may count or not.",
            "non-trivial: state was non-zero and compared after a restart; classes tell whether requests were in flight", []),
    "C27": (P + "histories of events, reconfigurations and reports on a fake clock against a model of every exported number; API and worker histories; the built server's /metrics",
            "Every printed report is compared too. The churn ratio over a worker history is compared with the rows storage accepted, requests arriving during the writes. Sampling is read off the churn ratio as a bit mask and compared between rates. Outputs are searched for key fragments.",
            "non-trivial: events and a report with a top key; a sampling rate that separates the keys; rows written by evictions or the final flush; the built server with written rows",
            ["keys are drawn from letters that do not occur next to each other in any output"]),
    "C28": (P + "random recordings and thresholds, then the printed summary is parsed and compared; end to end through the API and worker",
            "All numbers of the summary are recomputed from what the clients and storage saw.",
            "non-trivial: writes, admissions and thresholds present; end to end with refunds and refusals", []),
    "C29": (P + "the built load generator with drawn parameters against a counting server",
            "Servers may answer errors, close or drop connections. Total, path, parameter, method, keys, concurrency and skew are checked on the server's side.",
            "non-trivial: more requests than workers and more than one worker", []),
    "C31": (P + "servers started with drawn flags side by side, each driven against a model of what its flags promise",
            "Scenes: commit policy, pace (what is due is written, evicted and reported at the configured interval, also a short one), eviction, adapters (log output and a Redis stand-in on the loopback), telemetry log, per-key budget under every engine option. Times are only bounded from below by the flags; what must happen gets a minute.",
            "non-trivial: something was written before the end or held back until it; an eviction happened and the key came back fresh; rows reached an adapter; a telemetry summary was logged; a limit above zero was exhausted",
            ["the mock adapter's printed rows are what it was given"]),
    "C30": (P + "the built tfd-sim with drawn parameters; its logs compared with its counters and with the requests it accepted",
            "Several simulators side by side, ended by a signal or their duration, some run twice on the same logs. The generator's randomness is not controlled; its counters are read when it rests.",
            "non-trivial: operations were generated and consumes accepted, and both were found in the logs",
            ["a consume is judged if it was accepted before the end was asked for"]),
}
