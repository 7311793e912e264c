#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program because long JSON lines are hard to edit)."""
import json, os
P = []
M = "internal/engine/memdb/"
G = "internal/engine/mongodb/"
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "A task has at most one owner, and claiming it is exclusive",
 "A task that is handed to a consumer (by polling, or by a promise for its ID) is active, carries the consumer, the promised deadline, the time of the claim and a fresh non-empty nonce, and is never handed out again until it is released, times out, or is committed back to pending. A promise that requires a pending task fails with a conflict when the task is in any other state, and with not-found when it does not exist; only a forced promise may take over an active task, and doing so invalidates the previous owner.",
 ["histories", "schedules"], "all sequences of task operations, and all interleavings of concurrent polls, promises, commits and releases",
 "the suite claims one task once, sequentially; exclusivity is about every history and every interleaving of consumers",
 [M+"queue.go", M+"promise.go", "internal/controller/promise.go"],
 [("the whole claim runs in one write transaction", M+"queue.go Poll"), ("state check before insert promise", M+"promise.go InsertPromise"), ("updateOpsConsume", M+"memdb.go")],
 [("state/nonce/consumer/deadline", "ownership of a task", "ratus.go Task")], ["engine.Poll/InsertPromise/UpsertPromise", "POST/PUT /topics/*/promises"])
prop("C02", "Accepted tasks are never lost, invented, or executed less than once",
 "After any history, the tasks that exist are exactly those that were accepted and neither deleted nor expired, with the fields of their last accepted write. Whatever consumers do (crash, time out, abstain, retry), a task that is due and not completed can be obtained again by polling its topic, so repeatedly polling and committing drains every due task exactly once.",
 ["histories"], "all histories of producers and consumers, including consumers that vanish at any point",
 "tests look at a handful of tasks after a fixed script; conservation is over all histories",
 [M+"queue.go", M+"task.go", M+"promise.go", M+"memdb.go"],
 [("index maintenance on every insert of a modified copy", M+"memdb.go clone/updateOps*"), ("recovery of timed out tasks", M+"queue.go Chore")],
 [("task table", "all tasks by ID", M+"memdb.go")], ["engine API", "HTTP API"])
prop("C03", "Polling yields due tasks only, in order of scheduled time",
 "Polling a topic returns a pending task whose scheduled time has arrived and for which no other pending task of the topic is scheduled earlier (at the documented millisecond resolution). It reports not-found exactly when the topic has no pending task that is due, for every scheduled time a client can express.",
 ["histories", "inputs"], "all sets of tasks, scheduled times (far past, pre-1970, far future, equal) and moments of polling",
 "tests poll two tasks with fixed offsets; order and due-ness quantify over all times and sets",
 [M+"queue.go", M+"indexer.go"],
 [("pending-topic-scheduled index", M+"memdb.go"), ("order-preserving time encoding", M+"indexer.go encodeInt64")],
 [("scheduled", "earliest time of execution", "ratus.go Task")], ["engine.Poll", "POST /topics/{topic}/promises"])
prop("C04", "Topics are isolated from each other",
 "Operations on one topic return and affect only the tasks whose current topic is exactly that name, whatever other topic names exist (prefixes of each other, containing separators or control characters, sorting before or after, empty of tasks). A task belongs to one topic at a time, and a commit that names another topic moves it there in every respect.",
 ["histories", "inputs"], "all topic names, in particular adjacent and prefix-related names, and all histories of moves",
 "the tests never poll an empty topic while a later-sorting topic has tasks, nor use related names",
 [M+"queue.go", M+"topic.go", M+"task.go", M+"promise.go", M+"indexer.go", M+"memdb.go"],
 [("terminated, escaped name keys", M+"indexer.go"), ("topic comparison in Poll", M+"queue.go")],
 [("topic", "the only topic of a task", "ratus.go Task")], ["every topic-scoped endpoint"])
prop("C05", "A commit with an outdated nonce is refused and changes nothing",
 "A commit that carries a nonce is accepted only while that nonce is the task's current one; after the task has been committed, released, recovered from a timeout, claimed again or replaced, the old nonce is refused with a conflict and the task is unchanged. Nonces are cleared whenever a task leaves its owner, so of several commits for one claim at most one succeeds; a commit without a nonce is always accepted for an existing task.",
 ["histories", "schedules"], "all histories of claims, takeovers, releases and timeouts with commits arriving arbitrarily late or twice",
 "tests try one wrong nonce on one task; fencing must hold for every stale nonce of every history",
 [M+"queue.go", M+"memdb.go", "context.go"],
 [("nonce comparison in Commit", M+"queue.go"), ("nonce cleared by recover/commit, regenerated by consume", M+"memdb.go updateOps*")],
 [("nonce", "identifies one claim", "ratus.go Task")], ["engine.Commit", "PATCH task"])
prop("C06", "A commit applies exactly the updates it names",
 "An accepted commit sets the topic, state, scheduled time and payload that it specifies (state defaulting to completed over HTTP), clears the nonce, leaves every other field and every other task as it was, and returns the task as stored. A commit for a missing task reports not-found and creates nothing.",
 ["histories", "inputs"], "all subsets of commit fields with all values, from every task state",
 "the suite tries a few field combinations; the frame condition is over all subsets and prior states",
 [M+"queue.go", M+"memdb.go", "internal/middleware/commit.go"],
 [("updateOpsCommit", M+"memdb.go"), ("normalizeCommit", "internal/middleware/commit.go")], [], ["engine.Commit", "PATCH task"])
prop("C07", "Timed-out claims, and only those, are recovered",
 "Each run of the background job returns every active task whose deadline has passed to pending, with the nonce cleared and all other fields kept, and leaves active tasks with a deadline in the future and all non-active tasks untouched. This holds for any deadline, including deadlines before 1970 or already past when promised.",
 ["histories", "inputs"], "all sets of active tasks, deadlines and moments of running the job",
 "tests recover one task with one deadline", [M+"queue.go", M+"indexer.go"],
 [("Chore recovery scan over active-deadline", M+"queue.go")], [("deadline", "end of a claim", "ratus.go Task")], ["engine.Chore"])
prop("C08", "Expired completed tasks, and only those, are deleted",
 "Each run of the background job deletes every completed task whose retention period since its claim has elapsed, and no other task: pending, active and archived tasks and younger completed tasks are never removed by it, whatever the retention period is.",
 ["histories", "configurations"], "all sets of tasks in all states, ages and retention periods",
 "tests expire one task with one retention period", [M+"queue.go", M+"memdb.go"],
 [("Chore expiry scan over completed-consumed", M+"queue.go")], [("consumed", "time of the claim", "ratus.go Task")], ["engine.Chore"])
prop("C09", "Inserting never overwrites, upserting always does, and counts are exact",
 "Task IDs are unique across all topics: inserting an existing ID (in any topic, alone or within a batch, duplicates inside the batch included) leaves the stored task untouched, a single insert reports a conflict, and a batch inserts precisely the other tasks. Upserting creates or fully replaces; afterwards the stored task equals the submitted one, and the reported numbers of created and updated tasks are the actual ones.",
 ["histories", "inputs"], "all batches with all overlaps with stored tasks and within themselves, over all histories",
 "tests insert a few distinct tasks and one duplicate", [M+"task.go", "internal/controller/task.go"],
 [("existence check before insert in one transaction", M+"task.go"), ("full replacement", M+"task.go UpsertTask(s)")], [], ["engine task operations", "POST/PUT tasks"])
prop("C10", "Deleting and releasing affect exactly their targets and report the number",
 "Deleting all topics, a topic, the tasks of a topic, or a task removes exactly those tasks; deleting the promises of a topic or of a task returns exactly those active tasks to pending with the nonce cleared and removes nothing. The reported count is the number of tasks affected, zero for missing targets, which are not an error.",
 ["histories", "inputs"], "all histories and targets", "tests delete from one or two topics with distinct simple names",
 [M+"topic.go", M+"task.go", M+"promise.go"],
 [("DeleteAll by index", M+"topic.go, task.go"), ("updateOpsRecover over active-topic", M+"promise.go")], [], ["DELETE endpoints"])
prop("C11", "Listings and counts are complete, exact, and stable under pagination",
 "Listing tasks, promises or topics with every page size yields each matching resource exactly once over consecutive pages and nothing else, never more than the limit per page, and equal listings for an unchanged store. A topic is reported with its exact number of tasks, exists exactly while it has tasks, and a task fetched by ID equals its listed form.",
 ["histories", "inputs"], "all stores, page sizes and offsets", "tests list a fixed store with two or three limit/offset pairs",
 [M+"task.go", M+"topic.go", M+"promise.go"],
 [("offset/limit loops over ordered indexes", M+"*.go List*"), ("topic count by index scan", M+"topic.go GetTopic")], [], ["GET list endpoints"])
prop("C12", "Promises mirror the active tasks",
 "At any time the promises of a topic are exactly its active tasks, each with the task's ID, consumer and deadline, and a promise can be fetched by ID exactly while its task is active. Making, committing, releasing or timing out a claim is visible in the promises at once.",
 ["histories"], "all histories", "tests check one promise around one claim", [M+"promise.go", "internal/controller/promise.go"],
 [("active-topic partial index", M+"memdb.go"), ("GetPromise state check", M+"promise.go")], [], ["GET promises endpoints"])
prop("C13", "A snapshot restores exactly the state that was saved",
 "Closing and reopening an instance with a snapshot path yields the same tasks, field by field (all states, names, times including the zero time and other offsets, nonces, and every JSON payload), and the same behaviour afterwards: claims, order, deadlines and expiry continue where they were. A missing snapshot file means an empty store.",
 ["histories", "inputs"], "all stores reachable through the API, with payloads of every JSON shape", "the tests restore one task with a string payload",
 [M+"memdb.go", "ratus.go"],
 [("gob encode/decode of all records", M+"memdb.go save/load"), ("registered payload types", "ratus.go init")], [("snapshot file", "all tasks", "MEMDB_SNAPSHOT_PATH")], ["Open/Close", "process restart"])
prop("C14", "A crash or failed write never damages the last good snapshot",
 "At every moment the snapshot path holds either nothing or a complete snapshot of some state the store was in: a process killed at any point while saving, a disk that fills up, or a path that cannot be replaced leaves the previous snapshot intact and loadable, and a failed save is reported. Leftover partial files are never loaded, and a snapshot file that cannot be decoded makes opening fail instead of starting with part of it or empty.",
 ["crash_points", "fault_sequences"], "all points at which writing can stop or fail", "no test interrupts a save", [M+"memdb.go"],
 [("write to a temporary file, then rename", M+"memdb.go save"), ("decode errors abort Open", M+"memdb.go load")], [], ["snapshot file", "engine.Open/Close/Chore errors"])
prop("C15", "A graceful shutdown loses no acknowledged write",
 "When an instance with a snapshot path is told to terminate, every request it has acknowledged, including those in progress when the signal arrives, is in the snapshot that the next instance starts from, requests in progress are completed rather than cut off, and the process exits successfully, however early after its start and however little happened before. With periodic snapshots, everything acknowledged before a completed snapshot survives even an abrupt kill.",
 ["schedules", "crash_points"], "all moments of termination relative to requests in flight", "the entry point has no tests at all", ["cmd/ratus/main.go", M+"memdb.go", M+"queue.go"],
 [("server shutdown before engine close", "cmd/ratus/main.go serve/run"), ("snapshot on close and in the background job", M+"memdb.go Close, queue.go Chore")], [], ["process behaviour"])
prop("C16", "Concurrent operations are atomic and linearizable",
 "Any concurrent execution of operations has the same results and final state as some sequential order of them consistent with real time; batches, topic-wide deletions and releases, and background jobs take effect as a whole. No interleaving crashes, deadlocks or corrupts the store.",
 ["schedules"], "all interleavings of concurrent operations at transaction granularity", "the suite has a single concurrent smoke test that cannot choose interleavings",
 [M+"queue.go", M+"task.go", M+"topic.go", M+"promise.go", M+"memdb.go"],
 [("one transaction per operation", M+"*.go"), ("single-writer lock of go-memdb", "go-memdb Txn")], [], ["engine API"], None)
prop("C17", "Malformed requests are rejected cleanly and change nothing",
 "Every HTTP request gets a complete response and never crashes the server or drops the connection; a request that is malformed (invalid JSON or field types, null or incomplete tasks, unknown states, unparsable durations or times, inconsistent IDs) is answered with a 400 JSON error, an unknown route with a 404 JSON error, and the stored tasks are as before. A batch with one invalid task is rejected as a whole.",
 ["inputs"], "all request methods, paths, queries and bodies", "tests send a dozen hand-written bad requests", ["internal/middleware/task.go", "internal/middleware/commit.go", "internal/middleware/promise.go", "internal/router/router.go", "internal/controller/controller.go"],
 [("binding and normalization middlewares", "internal/middleware"), ("NoRoute", "internal/router/router.go")], [], ["HTTP responses", "stored state"])
prop("C18", "Requests are normalized as documented",
 "The ID and topic default to those of the path (the body's topic wins, a different body ID is refused); produced and scheduled times default to the time of acceptance; an absolute scheduled time or deadline wins over the relative one, a relative one counts from the time of acceptance, and without either a promise lasts the default ten minutes. A promise reads from body and query, and relative fields are never stored.",
 ["inputs"], "all combinations of path, body and query fields", "tests cover single defaults; precedence is over all combinations", ["internal/middleware/task.go", "internal/middleware/commit.go", "internal/middleware/promise.go"],
 [("normalizeTask/normalizeCommit/normalizePromise", "internal/middleware")], [], ["stored task after the request"])
prop("C19", "Errors keep their meaning from engine to client",
 "Each kind of failure maps to its documented status (400, 404, 409, 499, 500, 503), also when wrapped, in an error body whose code equals the status; the client turns it back into an error that matches the same kind and keeps the message without repeating it. No failure is ever delivered as success or as another kind.",
 ["inputs"], "all errors and wrappings, on every endpoint", "tests round-trip bare sentinel errors only", ["ratus.go", "internal/controller/controller.go", "client.go"],
 [("NewError/Err", "ratus.go"), ("send", "internal/controller/controller.go"), ("Request", "client.go")], [], ["HTTP status and body", "client errors"])
prop("C20", "The Go client reaches exactly the resource it names",
 "For every topic name and task ID without a plus sign (slashes, percent signs, spaces, dots, question marks, unicode and control characters included, and even empty ones), each client method affects and returns exactly the named resource with all fields intact, and has the same outcome as the corresponding engine operation. No name makes a request hit another endpoint or resource.",
 ["inputs", "histories"], "all names and all client methods", "tests use names like 'topic' and 'id' against a stub", ["client.go", "transport.go", "internal/router/router.go", "internal/controller/controller.go"],
 [("path escaping", "client.go"), ("UseRawPath and no trailing-slash redirect", "internal/router/router.go")], [], ["client API against a live server"])
prop("C21", "The client's poll-execute-commit workflow does what its builder methods say",
 "Polling through the client returns a context bound to the claimed task, whose deadline is the promised duration from the claim (independent of clock skew), or not-found. Committing it sends one commit with the task's nonce, state completed and exactly the updates made by the chained setters (later calls win, reset discards, force drops the nonce); after success further commits do nothing and the context is released, after failure it can be tried again; a commit after the context has ended fails and sends nothing.",
 ["inputs", "histories"], "all sequences of builder calls and commits", "tests call each setter once", ["context.go", "client.go"],
 [("Context builder methods and committed flag", "context.go"), ("Poll timeout computation", "client.go")], [], ["requests received by the server", "context deadline"])
prop("C22", "Subscribing executes every due task once per claim and keeps going",
 "Until its context ends, a subscription hands each task it claimed to the handler exactly once, commits it afterwards unless the handler already did, never runs more handlers at once than its concurrency (starting workers one by one with the configured delay), passes errors of commits and of polls other than an empty topic (but not those that its own end causes) to the handler and continues, pausing for the configured interval after a task, an empty topic or an error. It returns only when its context ends, promptly once running handlers return, with that context's error. Tasks added while it idles are picked up.",
 ["schedules", "fault_sequences"], "all mixes of tasks, handler behaviours, server faults and cancellation times", "one test runs it for 150 ms against a stub", ["client.go", "context.go"],
 [("select loop with timer, task and error channels", "client.go Subscribe")], [], ["handler calls", "requests received"])
prop("C23", "Pagination parameters are validated and bounded",
 "Every listing endpoint uses the smaller of ten and the configured maximum when no limit (or zero) is given, accepts limits and offsets from zero to their configured maxima, and rejects negative, excessive or non-integer values with 400. No response contains more items than the limit.",
 ["inputs", "configurations"], "all parameter strings and configured maxima, on all three listing endpoints", "tests try a few values with one configuration", ["internal/middleware/pagination.go", "internal/controller/controller.go"],
 [("Pagination middleware", "internal/middleware/pagination.go")], [], ["GET list endpoints"])
prop("C24", "The served API is the documented one, under both prefixes",
 "Every operation of the published specification exists with the documented method, path, success and error statuses and response fields, every response is one the specification allows for that operation, and the unversioned and /v1 paths behave identically. Cross-origin requests are allowed, and the specification served is the published one.",
 ["inputs", "histories"], "all operations with generated valid and invalid inputs", "tests check single responses, never against the specification", ["docs/openapi.json", "docs/swagger.json", "docs/docs.go", "internal/controller/controller.go", "internal/router/router.go"],
 [("route table", "internal/controller/controller.go Mount"), ("embedded specification", "docs/docs.go")], [], ["HTTP responses"])
prop("C25", "Metrics count exactly what happened",
 "The produced, consumed and committed counters grow by exactly the number of tasks created or updated, claimed and committed through the API, and not on failures; the delay and execution gauges hold the difference between claim and schedule and between commit and claim of the last such task; the request histogram counts every request once with its method, route, status and duration, and the chore histogram every run of the background job.",
 ["histories"], "all histories of requests, successful or not", "tests only check that metric names appear", ["internal/controller/task.go", "internal/controller/promise.go", "internal/middleware/prometheus.go", "internal/metrics/metrics.go"],
 [("counter updates after each handler", "internal/controller"), ("Prometheus middleware", "internal/middleware/prometheus.go")], [], ["GET /metrics"])
prop("C26", "The MongoDB engine behaves like the in-memory engine",
 "For every history of operations, the MongoDB engine returns the same results, errors and stored tasks as the queue semantics above (at millisecond resolution), in every mode: atomic, optimistic polling, forced fallback, and automatic fallback triggered by a sharded deployment's errors. Failures reported by the database are reported to the caller and never as success.",
 ["histories", "configurations", "fault_sequences"], "all histories in all modes, with database errors at any command", "its tests need a MongoDB server and are skipped; they script a few operations", [G+"mongodb.go", G+"queue.go", G+"task.go", G+"promise.go", G+"topic.go"],
 [("findAndModify with query, sort and hint", G+"queue.go"), ("branch and fallback flags", G+"mongodb.go")], [("task collection", "all tasks", "MongoDB")], ["engine API over a wire-protocol server"])
prop("C27", "Several instances sharing a MongoDB collection never hand out a task twice",
 "With several instances working on one collection, in atomic and in optimistic modes, every interleaving of their database commands hands each claim to one consumer, applies each nonce-checked commit at most once, loses no task, and an operation that reports failure has changed nothing. A poll that loses a race retries and returns the next task while one is available, and a forced claim that loses a race retries as well, so neither reports a conflict.",
 ["schedules"], "all interleavings at database-command granularity", "no test interleaves two instances' commands", [G+"queue.go", G+"promise.go", G+"task.go"],
 [("nonce/state/topic in the second step's filter", G+"queue.go pollOptimistic, commitOptimistic; promise.go *Optimistic"), ("retry on lost race", G+"queue.go pollOptimistic")], [], ["engine API over a scheduled server"])
prop("C28", "Nonces are well-formed and do not repeat",
 "Every generated nonce has the requested length and consists only of ASCII letters and digits, each character (nearly) equally likely at each position; no two claims share a nonce, also when claimed concurrently, on different tasks, or by restarted processes.",
 ["inputs", "schedules"], "all lengths, and claims of all histories, concurrent generators and process restarts", "tests generate a few strings", ["internal/nonce/nonce.go", M+"memdb.go", G+"mongodb.go"],
 [("Generate", "internal/nonce/nonce.go"), ("seeding", "internal/nonce/nonce.go init")], [], ["nonce.Generate", "claimed tasks"])
prop("C29", "Payloads come back as they were submitted",
 "Any JSON payload (nested, empty, null members, unicode, large, numbers representable as doubles) submitted with a task or a commit is returned unchanged by every endpoint, by the client, and after a restart; decoding it into a value gives what the same JSON would. An absent payload leaves the previous one at commit, and a payload that JSON cannot express makes the call fail without changing anything.",
 ["inputs"], "all JSON values", "tests use a string payload", ["ratus.go", "client.go", M+"memdb.go"],
 [("Decode", "ratus.go"), ("gob registration", "ratus.go"), ("pass-through storage", M+"*.go")], [], ["task payloads over HTTP, client and snapshot"])
prop("C30", "Instances honour their flags and environment",
 "The executable selects its engine, address, chore interval and delay, pagination limits, retention and snapshot settings from flags or the documented environment variables (flags win) with the documented defaults: background jobs run repeatedly at the configured interval after the initial delay and not at all when disabled, port zero serves nothing, and invalid settings make it exit with an error.",
 ["configurations"], "all settings and combinations of flags and environment", "the entry point has no tests", ["cmd/ratus/main.go", "internal/config/config.go", M+"memdb.go", G+"mongodb.go"],
 [("argument structs", "internal/config/config.go"), ("chore loop", "cmd/ratus/main.go")], [], ["process behaviour"])
prop("C31", "Health probes report liveness and readiness truthfully",
 "The liveness endpoints answer 200 while the process runs, even when its storage is unavailable; the readiness endpoint answers 200 exactly when the storage engine can serve, and 503 with a JSON error otherwise, following the database as it goes away and comes back.",
 ["fault_sequences"], "all sequences of storage availability", "tests use a stub that is always ready or always failing", ["internal/controller/health.go", M+"memdb.go", G+"mongodb.go"],
 [("Ready", "engines"), ("GetReadiness", "internal/controller/health.go")], [], ["/livez /healthz /readyz"])
prop("C32", "The MongoDB engine maintains exactly the documented indexes",
 "Opening creates the five documented indexes with their partial filters and the retention period as TTL, changes the TTL of an existing index to the configured one, is idempotent and safe when several instances start at once, reports other index failures, and creates none when disabled. Expiration by that index removes completed tasks only.",
 ["configurations", "fault_sequences"], "all retention periods, prior index states and start orders", "its tests need a MongoDB server and are skipped", [G+"mongodb.go"],
 [("createIndexes", G+"mongodb.go")], [], ["index commands received by the database"])
prop("C33", "The client sends every request to the configured origin with its headers",
 "Whatever scheme, host and port the origin names, every client request goes there with its path and query intact, carries each configured header without replacing one already set, identifies itself with a User-Agent unless one is given, honours the configured timeout and the caller's context, and delivers body and response unchanged.",
 ["inputs", "configurations"], "all origins, headers and requests", "tests use one origin and one header", ["transport.go", "client.go"],
 [("RoundTrip rewriting", "transport.go"), ("Request", "client.go")], [], ["requests received by the server"])
prop("C34", "A request means the same however it travels",
 "The same API request gives the same status, body and effect over HTTP/1.0 or 1.1, fresh, kept-alive or pipelined connections, with chunked or fixed-length bodies in any fragments, at any size or speed, with any media type, header layout, headers that mean nothing to the API, host, needless percent-encoding or JSON layout. Compressed responses decode to the same body, and pages of any web origin may use every method of the API.",
 ["inputs", "schedules"], "all requests and all ways to send them", "tests call the router without a network, with one form of each request", ["internal/router/router.go", "internal/middleware/", "cmd/ratus/main.go"],
 [("serve", "cmd/ratus/main.go"), ("New", "internal/router/router.go"), ("ShouldBindJSON", "internal/middleware/")], [], ["HTTP requests and responses"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
