import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

V="vsa.go"
p("C01","Sequential behaviour of the accumulator matches its scalar/vector model",
"For every sequence of operations, availability equals the scalar minus the magnitude of the net vector after every step, an update changes the vector by exactly its value, and only a commit changes the scalar. A conditional consume succeeds exactly when the requested positive amount is available (apart from the documented conservative denials of the cached gate), a refund gives back exactly the smaller of the request and the pending positive amount, a failed operation changes nothing, and a threshold query answers with the current vector exactly when its magnitude reaches the threshold.",
["histories","inputs","configurations"],
"All finite sequences of update, consume, refund, commit, threshold query, read and close with any int64 amounts whose running totals stay within the int64 domain, for every combination of construction options and any initial scalar.",
"The tests run a few hand-written sequences on default options and one random walk; they never combine options (stripe counts, choosers, groups, gates) with long mixed histories or unusual amounts.",
[V,"docs/invariants.md","docs/methods.md"],
[("Available/State",V),("TryConsume/TryRefund/Update",V),("Commit/CheckCommit",V),("NewWithOptions",V)],
[("scalar","durable base","vsa.go VSA.scalar"),("net vector","uncommitted net effect","vsa.go VSA.stripes/committedOffset")],["Available","State","TryConsume","TryRefund","CheckCommit"])

p("C02","No gate option ever admits more than is available",
"With any of the approximate gating options enabled, alone or combined, a consume succeeds only if at least the requested amount was really available at that moment, and the total admitted minus refunded never exceeds the starting budget. This holds no matter how stale the cached value is, how unevenly the load is spread internally, or whether background refreshing has been stopped.",
["histories","configurations","inputs"],
"All histories of consumes, refunds, updates, commits and close under every combination of cached gate (any interval and slack), grouped scan (any group count and slack), fast path guard and hierarchical groups, with arbitrarily skewed distribution of updates.",
"Existing tests exercise each option once, far from the limit or right after a refresh, so an estimate that is stale or unrepresentative is never consulted near exhaustion.",
[V,"docs/invariants.md"],
[("cached gate",V+" TryConsume"),("grouped scan",V+" TryConsume"),("fast path",V+" TryConsume"),("background refresher",V+" runAggregator")],
[("cached net","possibly stale copy of the vector",V)],["TryConsume","Available"])

p("C03","Concurrent consumes, refunds and reads are linearizable",
"Under every interleaving of concurrent consumes, refunds, commits and reads, the results are those of some sequential order of the same operations that respects real time; the amount admitted and not refunded never exceeds the starting budget. In particular two callers can never both take the last unit, a consume is not refused while enough is available, and this also holds with the lock-free fast path enabled.",
["schedules","configurations"],
"All interleavings at the granularity of individual atomic and lock operations of a few goroutines each running a short program of consumes, refunds, commits and reads, for exact, fast-path, grouped and hierarchical configurations.",
"Stress tests only sample whatever interleavings the Go scheduler happens to produce and compare totals at the end; the windows between the individual atomic steps are a few nanoseconds wide.",
[V,"docs/invariants.md"],
[("tryMu critical section",V),("fast path reservation",V+" TryConsume"),("Commit",V)],None,["TryConsume","TryRefund","Available","State"],"none: atomics and mutexes are replaced through a build overlay")

p("C04","Committing never changes availability",
"Applying a commit of any value, whether equal to, smaller than, larger than or opposite to the current vector, leaves availability unchanged, moves the scalar down by exactly the amount by which the magnitude of the vector shrank, and never overshoots zero. A concurrent reader never observes an intermediate state of a commit.",
["inputs","histories","schedules"],
"All vectors, all committed values (stale, partial, excessive, zero, opposite sign) and all interleavings of commits with reads, consumes and refunds.",
"Tests commit the exact current vector, and observe concurrently only by chance; the read of two separate words by an observer racing with a commit is not controlled.",
[V,"docs/invariants.md"],[("Commit clamping and offset",V+" Commit"),("consistent reads",V+" snapshot")],None,["Available","State"],"none: atomics and mutexes are replaced through a build overlay")

p("C05","Refunds only undo pending consumption",
"A refund succeeds exactly when there is uncommitted positive consumption, gives back at most that much, never makes the vector negative and never touches the scalar. Consumption that has been committed cannot be refunded, so availability never rises above the current scalar through refunds.",
["histories","inputs","schedules"],
"All histories of consumes, updates, refunds of any amount (including zero, negative and huge) and commits, and all interleavings of concurrent refunds with consumes and commits.",
"Tests cover a handful of refund amounts; concurrent refunds racing for the last pending unit, and refunds right after a partial commit, are not controlled.",
[V,"docs/invariants.md"],[("TryRefund clamping",V+" TryRefund")],None,["TryRefund","State"],"none: atomics and mutexes are replaced through a build overlay")

p("C06","No update is ever lost",
"After any number of concurrent updates from any number of goroutines has finished, the net vector plus everything committed equals the exact sum of all updates. This holds for every update-distribution strategy, stripe count and hierarchical grouping, and while commits, consumes, refunds and cache refreshes run concurrently.",
["schedules","configurations","inputs"],
"All sets of concurrent updaters with any signed amounts, all interleavings, all choosers, stripe counts from any requested value, and any hierarchical group count.",
"Tests use the default stripe count and add 1 repeatedly; options that change which stripe or group receives an update are only touched sequentially with divisible sizes.",
[V],[("striped adds",V+" Update"),("choosers",V+" chooseIdxForUpdate"),("hierarchical sums",V+" Update/currentVector")],None,["State","CheckCommit"])

S="internal/ratelimiter/core/store.go"; W="internal/ratelimiter/core/worker.go"
p("C07","The store keeps exactly one live, isolated counter per key",
"Concurrent lookups of a key always yield the same counter, created with the configured budget and options, and operations on one key never affect another, whatever bytes the keys contain. Deleting a key or closing the store stops its background work, and no lookup race ever leaves background work behind.",
["schedules","histories","inputs"],
"All sequences and concurrent interleavings of lookups, deletions, iteration and close over arbitrary key strings, for all options including those that start background work.",
"Tests look up two or three ASCII keys sequentially; creation races and background-goroutine leaks are not observed.",
[S],[("GetOrCreate",S),("Delete/CloseAll",S),("aggregator lifecycle",V+" runAggregator/Close")],None,["GetOrCreate","ForEach"])

p("C08","Durable total plus unpersisted remainder always equals true consumption",
"For every key, what storage has accepted plus what is still pending in memory equals the exact net of all operations, through any sequence of commit cycles, evictions and shutdown flushes, with storage failures at any call and operations landing while a batch is being written. After a successful shutdown flush with no traffic, storage holds exactly the net consumption: nothing lost, nothing counted twice.",
["histories","fault_sequences","schedules"],
"All interleavings of client operations with commit, eviction and final-flush cycles (including overlapping ones), any pattern of failing batch writes, any keys, thresholds and options.",
"Tests run one cycle at a time with no traffic during the write and one failure; the windows between snapshot, write and fold are never exercised.",
[W,S,V],[("commit cycle",W+" runCommitCycle"),("final flush",W+" runFinalFlush"),("eviction",W+" runEvictionCycle"),("fold",V+" Commit")],
[("pending","vector not yet in storage",S)],["batches received by storage","State of each counter"])

p("C09","Commit policy: threshold, hysteresis, max-age and bounded exposure",
"A commit cycle writes a key only when its pending magnitude has reached the high threshold while the key is eligible, or when it is non-zero and has been idle for at least the max-age; and whenever either condition holds it does write it, with exactly the pending amount. A key is eligible initially, always when no low watermark is set, and after being written again once that commit leaves, or a later cycle finds, its pending magnitude at or below the low watermark; a failed write is retried by the next cycle, so pending amounts do not grow without bound while traffic continues.",
["histories","configurations","fault_sequences"],
"All sequences of operations, cycles, idle periods and storage failures, for all thresholds, low watermarks and max-ages.",
"Tests check one disarm/re-arm and one max-age commit; long histories around both watermarks, negative vectors and failures are not explored.",
[W,"cmd/ratelimiter-api/readme.md","docs/FAQ.md","docs/invariants.md"],[("threshold/hysteresis decision",W+" runCommitCycle")],None,["batches received by storage"])

p("C10","Eviction removes only idle keys and never their unpersisted remainder",
"Eviction removes a key only if it has not been accessed for longer than the eviction age, and only after storage has accepted its whole remainder; if that write fails or the key is used meanwhile, the key and its state stay. Keys that are still in use are never touched by eviction.",
["histories","fault_sequences","schedules"],
"All populations of idle and active keys, all vectors, any failing writes, and any operations arriving while the eviction write is in flight.",
"Tests evict one idle key with a working store; activity during the final write and mixed populations are not covered.",
[W,S],[("eviction cycle",W+" runEvictionCycle")],None,["store contents","batches received by storage"])

p("C11","Storage sees net amounts: at most one non-zero row per key and cycle",
"Each cycle writes at most one row per key and never a zero row, so a history with N events over K keys and C cycles costs at most K*C rows however large N is. Traffic that cancels out before it reaches the threshold writes nothing at all, and no cycle with nothing to do calls storage.",
["histories","inputs","configurations"],
"All histories of consumes, refunds and signed updates over any number of keys with cycles anywhere in between.",
"Benchmarks measure a ratio for a few fixed workloads; they do not bound rows for every history.",
[W,V],[("net vector commit",W+" runCommitCycle/runFinalFlush/runEvictionCycle")],None,["batches received by storage"])

A="internal/ratelimiter/api/server.go"
p("C12","The HTTP API honours the budget and reports it truthfully",
"For every key and request order, a check answers 200 exactly while budget remains and 429 otherwise, a release gives back one unit only if something uncommitted was taken, and requests without a key get 400 and change nothing. Every check response carries the configured limit and the true remaining amount (never negative, never above the limit), with the matching status and a retry hint on denials; keys are independent of each other.",
["histories","inputs"],
"All sequences of check and release requests over arbitrary key strings and encodings, methods and limits, with commit cycles in between.",
"Handler tests issue a handful of requests with simple keys and compare a few headers.",
[A,"cmd/ratelimiter-api/readme.md"],[("check handler",A+" handleCheckRateLimit"),("release handler",A+" handleRelease")],None,["HTTP status, headers, body"])

p("C13","Concurrent API traffic never exceeds the limit and is fully accounted",
"With any number of concurrent clients checking and releasing while the background worker commits, flushes and fails, the number of successful checks minus effective releases never exceeds the limit of a key, and storage ends up with exactly that number after shutdown. Responses stay well-formed with remaining amounts between zero and the limit.",
["schedules","histories","fault_sequences"],
"All concurrent mixes of checks and releases over several keys with a running worker, any thresholds and storage failures.",
"The integration tests drive one key from one client, or many clients without the worker and without comparing storage.",
[A,W,S,V],[("check-and-consume",A),("worker loops",W+" Start/Stop")],None,["HTTP responses","batches received by storage"])

p("C14","A graceful shutdown of the server persists every admitted request",
"When the rate-limiter server is told to terminate, at any moment and under load, every request it answered with success has been written to storage when the process exits: the written amounts per key equal the successes minus the effective releases. The process exits cleanly.",
["crash_points","schedules","configurations"],
"All moments of a termination signal relative to concurrent requests and background cycles, and all server flag combinations.",
"No test runs the server process; the order of closing the listener, flushing and exiting is only visible end to end.",
["cmd/ratelimiter-api/main.go",W],[("shutdown sequence","cmd/ratelimiter-api/main.go main"),("Stop",W)],None,["process output","HTTP responses","exit status"])

R="internal/ratelimiter/persistence/"
p("C15","Redis adapter applies each commit exactly once",
"However often a batch is retried, with failures before or after any individual entry took effect, the stored counter of every key ends up reduced by the sum of its distinct commits, each applied exactly once, with later entries of a failed batch applied on retry. Entries without an identifier are rejected, and duplicate markers live long enough to cover the configured window.",
["fault_sequences","histories","inputs"],
"All batches (duplicates within and across batches, negative amounts, arbitrary keys), all failure positions before or after effect, all retry orders.",
"Tests only check the arguments handed to a stub; the script itself is never executed, nor retried after a partial failure.",
[R+"redis.go",R+"types.go"],[("idempotency script",R+"redis.go redisLuaScript"),("CommitBatch",R+"redis.go")],None,["commands executed against the store"])
p("C16","Postgres adapter applies each commit exactly once and atomically",
"A batch either takes effect completely or not at all, and however often it is retried, including when the outcome of the transaction was unknown, each distinct commit reduces its counter exactly once. A lower fencing token never replaces a higher one, and unknown keys are created when so configured.",
["fault_sequences","histories","inputs"],
"All batches with duplicates, all failure positions (begin, any statement, commit before or after effect), all retry orders, with and without row creation and tokens.",
"Tests use a stub driver that records statement text and always reports success; the effect of the statements on data is never computed.",
[R+"postgres.go",R+"types.go"],[("transactional apply",R+"postgres.go CommitBatch")],None,["database contents after each transaction"])
p("C17","Kafka messages carry everything an idempotent consumer needs",
"Every entry of an accepted batch is published in order as one message keyed by its commit identifier whose payload decodes to the same key, amount, identifier and token; a consumer that ignores repeated identifiers reaches exactly the sum of distinct commits under any retries. A failed publish stops the batch, is reported, and a retry repeats identical identifiers.",
["fault_sequences","histories","inputs"],
"All batches and keys, all publish failures (before or after the broker accepted the message), all retry orders.",
"Tests publish one or two fixed entries and inspect one payload.",
[R+"kafka.go"],[("publish loop",R+"kafka.go CommitBatch")],None,["produced messages"])
p("C18","The adapter shim forwards every commit once under a fresh identifier",
"Each commit handed over by the worker reaches the adapter exactly once, in order, with the same key and amount and an identifier that is non-empty and never repeated over the life of the process, and adapter errors are reported back. Wiring any adapter by name gives a persister with this behaviour, and unknown names are refused.",
["inputs","histories"],
"All batches of any size and content, all adapter names, concurrent use.",
"One test forwards two commits.",
[R+"shim.go",R+"factory.go",R+"clients.go"],[("IdemShim",R+"shim.go"),("BuildPersister",R+"factory.go")],None,["entries received by the adapter"])

T="plugin/tfd/"
p("C19","Only provably order-free operations are classified to the fast lane",
"An operation goes to the order-free lane if and only if it touches a single key, is a conservative delta, and carries none of the flags that demand ordering; everything else goes to the ordered lane, with key, bucket and amount preserved and missing keys rejected. Two footprints are declared disjoint exactly when both are order-free and share no cell, symmetrically.",
["inputs"],
"All operations: every flag combination, any key and bucket strings, any amounts, and all pairs of footprints.",
"Tests check four or five operations and footprint pairs.",
[T+"classifier.go",T+"types.go",T+"readme.md"],[("Classify",T+"classifier.go"),("Disjoint",T+"types.go")],None,["Classify","Disjoint"])
p("C20","The order-free lane conserves every delta per cell",
"For any stream of scalar events, the batches flushed for a (key, bucket) cell sum to exactly the events ingested for that cell since the last flush, carry the highest sequence number, and mention no other cell; nothing is kept back, repeated or merged across cells, whatever the identifiers, the number of distinct cells, the shard count or table size. Flushing one key emits all of and only that key's amounts, and vector events are ignored.",
["inputs","histories","configurations"],
"All streams of events with any 64-bit identifiers (including adversarial collisions) and deltas, any shard counts, table sizes, thresholds and interleaving of full and per-key flushes.",
"Tests ingest two events of one cell; collisions, overfull tables and per-key flushes are not reached.",
[T+"saccumulator.go",T+"saccumulator_wrap.go"],[("open-addressed shard",T+"saccumulator.go"),("sharding",T+"saccumulator_wrap.go")],None,["FlushAll","FlushKey"])
p("C21","Batch compression preserves every cell's net effect",
"Compressing a list of batches yields at most one batch per cell, with the cell's exact net amount and its highest sequence number, omits cells whose net is zero and invents nothing; compressing again changes nothing, and the result does not depend on the order of the input.",
["inputs"],
"All lists of batches of any length (small and large code paths), any identifiers including collisions, any deltas.",
"Tests use a few batches on each path.",
[T+"vsa_integration.go"],[("Compress",T+"vsa_integration.go")],None,["Compress"])
p("C22","The ordered lane is FIFO per key, complete, and audit-linked",
"For every key, draining returns exactly the vector events accepted for it since the last drain, in acceptance order, each carrying the audit link derived from its key and sequence number, and the copy handed to persistence carries the same link. Keys do not mix, scalar events never appear, and concurrent submission neither loses, duplicates nor corrupts events.",
["histories","schedules","inputs"],
"All interleavings of submissions and drains over many keys, sequentially and from concurrent goroutines.",
"Tests enqueue two events on one actor sequentially.",
[T+"vactors.go",T+"pipeline.go"],[("per-key actor queue",T+"vactors.go"),("Pipeline.Handle",T+"pipeline.go")],None,["DrainV","persistence callback"])
p("C23","Replaying the two logs reproduces the sequential state exactly",
"For any stream of operations, applying the flushed batches in any order and grouping, compressed or not, and the ordered events in any arrival order gives the same per-cell totals as applying the original stream one by one. Replaying does not depend on where flushes fell.",
["histories","inputs"],
"All streams of mixed scalar and vector events, all flush points, shard counts, batch permutations and arrival orders.",
"One test replays three events with one flush.",
[T+"reconstruct.go",T+"saccumulator.go",T+"vsa_integration.go"],[("Reconstruct/BaselineApply",T+"reconstruct.go")],None,["Cells"])
K="internal/sinks/"
p("C24","Event logs survive restarts and torn writes record for record",
"Every record appended and flushed or closed is read back exactly, in order, across any number of reopenings. If the file is cut at any byte, all records completely before the cut are still read, the partial one is skipped, and records appended after reopening are not affected by it.",
["crash_points","inputs","histories"],
"All sequences of appends, flushes, closes and reopenings with arbitrary record values, and truncation of the file at every byte position.",
"The log files have no tests.",
[K+"sbatch_file_sink.go",K+"venv_file_sink.go"],[("append/flush",K),("line-wise recovery",K+"sbatch_file_sink.go ReadAllSLog")],None,["ReadAllSLog","ReadAllVLog"])
p("C25","Pipeline flush gives read-your-writes and stop loses nothing",
"After a flush returns, everything handed in before it has been delivered to the sink, and after stop everything accepted has been; across the life of the pipeline the delivered batches of each cell sum to exactly the accepted scalar events, for any buffer size, flush interval and concurrency, and vector events are all kept for draining. Without an explicit flush, events are delivered by the periodic one.",
["schedules","histories","configurations"],
"All interleavings of concurrent producers, flushes and a final stop, all buffer sizes, shard counts, table sizes and intervals.",
"Tests sleep and compare one cell.",
[T+"sservice.go",T+"pipeline.go"],[("service loop, flush and drain",T+"sservice.go run")],None,["sink callbacks"])
p("C26","tfd-proxy state equals the sum of acknowledged requests, across restarts",
"At any time the reported state of a key or bucket equals the sum of all acknowledged consumes minus reversals for it, in every form of the query, and it is unchanged by terminating the proxy gracefully and starting it again on the same logs. Requests without a key are refused and leave no trace.",
["histories","crash_points","configurations"],
"All sequences of consume, reverse, policy and state requests with arbitrary keys, buckets and amounts, concurrent clients, restarts at any point and any flag values.",
"The proxy has no tests.",
["cmd/tfd-proxy/main.go",T+"pipeline.go",K],[("HTTP handlers","cmd/tfd-proxy/main.go")],None,["HTTP responses","log files"])
C="internal/ratelimiter/telemetry/churn/"
p("C27","Telemetry counts exactly what happened and never exposes keys",
"When enabled, the exported counters increase by exactly the admitted requests, committed rows, batches and commit errors reported by API and worker (including evictions and the final flush); when disabled nothing changes. Reported write-reduction and churn ratios are those of the counts within the window. Key sampling is deterministic, monotone in the rate, none at zero and all at one, and no output contains a raw key.",
["histories","inputs","configurations"],
"All histories of API requests and worker cycles with failures, all sampling rates, any keys, enabling and disabling at any point.",
"Tests check single increments with one key.",
[C+"prom_counters.go",C+"exporter.go",A,W,"telemetry/readme.md"],[("Observe*",C+"prom_counters.go"),("sampling",C+"prom_counters.go sampled")],None,["metrics endpoint","log output"])
p("C28","The final persistence summary is exact",
"The end-of-process summary reports exactly the attempted, admitted and refunded counts, the rows and batches written, and the write reduction computed from them (or n/a without events), clamped to 0-100%, together with every configured threshold's latest value.",
["histories","inputs"],
"All histories of recorded events, batches and threshold settings, including concurrent ones.",
"Tests format one summary with fixed numbers.",
["internal/ratelimiter/core/metrics.go","internal/ratelimiter/core/persistence.go"],[("counters","internal/ratelimiter/core/metrics.go"),("summary","internal/ratelimiter/core/persistence.go PrintFinalMetrics")],None,["standard output"])
p("C29","The load generator sends exactly the requested traffic",
"A run against a responsive server sends exactly the requested number of requests (also when answers are errors, or the server handles a request and drops the connection instead of answering), each to the given path with one key parameter, never more at once than the requested concurrency, using only the configured keys: one key in single and release mode, and in the skewed mode the hot key for all but about one in the configured period with every cold key within the configured set.",
["configurations","inputs"],
"All request counts, concurrency levels (also larger than the count), modes, key names and skew periods.",
"The tool has no tests.",
["tools/http-loadgen/main.go"],[("work split and key choice","tools/http-loadgen/main.go main")],None,["requests received by the server"])
p("C30","tfd-sim's logs contain everything it counted and accepted",
"When the simulator ends, by a termination signal or because its duration is over (never earlier), its logs hold per cell exactly the consumes it acknowledged before that, and the generated operations its counters reported: scalar ones summed in the S log, every ordered one as one audit-linked record in the V log, none lost when the ingest buffer is full and none invented. Generated operations use only the configured keys and buckets in the configured scalar share, logs of earlier runs are kept, and requests without a key are refused.",
["configurations","schedules","histories"],
"All flag combinations (buffers overrun by large bursts, flush intervals up to hours, any coverage, keys and buckets), all moments of termination, concurrent consumes during bursts, repeated runs on the same logs.",
"The simulator has no tests.",
["cmd/tfd-sim/main.go",T+"sservice.go",K,"plugin/tfd/readme.md"],[("generator, handlers and shutdown","cmd/tfd-sim/main.go main")],None,["log files","metrics endpoint","exit status"])
p("C31","Every rate-limiter server flag has the effect it documents",
"Started with any flags, the server keeps to them: each key gets exactly the configured budget whatever engine options are set (with a cached gate, at most the configured slack less), nothing is written before the first commit interval, rows below the commit threshold are written only for keys idle for the configured maximum age (never if it is zero) or at shutdown, and idle keys are written and dropped only after the eviction age by a scan of the eviction interval, then start afresh. The chosen adapter, Redis address, marker lifetime and Kafka topic are the ones used, unknown adapters are refused, and telemetry summaries are logged only if enabled, at the configured interval, with the configured sampling rate, top-N and hash length.",
["configurations","histories"],
"All combinations of the server's flags and request histories over several keys.",
"No test starts the server process with flags; their wiring into store, worker, adapters and telemetry is only visible end to end.",
["cmd/ratelimiter-api/main.go","cmd/ratelimiter-api/readme.md",R+"factory.go"],[("flag wiring","cmd/ratelimiter-api/main.go main"),("BuildPersister",R+"factory.go")],None,["process output","HTTP responses","commands to Redis","exit status"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
