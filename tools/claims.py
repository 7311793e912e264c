CONC = "; generated interleavings of concurrent operations under a cooperative scheduler with a linearizability oracle"
for i in ("C01", "C05"):
    t, l, n = C[i]
    C[i] = (t + CONC, l, n)
check("C16", "schedule exploration by property-based testing: generated concurrent histories and schedules at every store access, linearizability against the reference model",
  note="Schedules are controlled at transaction begin, lock, access and commit of a patched go-memdb; interleavings between those points (data races inside go-memdb or the runtime) are not explored.")
check("C17", "property-based testing of the router with generated and mutated requests (structure-aware body mutations, raw paths, unknown routes); oracle: documented rejections and an unchanged store")
check("C18", "property-based testing of requests with independently present fields against the documented precedence rules, with bounds for times taken by the server")
check("C19", "property-based fault injection: every operation fails with generated wrappings of each kind of error; round-trip through HTTP and the Go client")
check("C20", "stateful property-based testing of the Go client against a live server, with the reference model as oracle and hostile names")
check("C23", "property-based testing of every listing endpoint with generated parameters, maxima and stores; oracle: the documented bounds and the slice of the complete listing")
check("C24", "property-based testing of responses against an independently written table of the specification; metamorphic relation between the two prefixes; differential comparison of the served and the published specification",
  note="The harness holds its own table of documented operations, statuses and fields.")
check("C25", "stateful property-based testing with a scrape after every request; oracle: the changes of each series demanded by the outcome",
  note="Labels of a batch are asserted only if all its tasks share the topic of the path and the producer.")
check("C31", "property-based fault injection: generated sequences of engine states and probes")

BUB = "Runs in virtual time (testing/synctest of Go 1.24) over in-memory connections to the real router and in-memory engine; scheduling of goroutines that are runnable at the same virtual time is the runtime's."
check("C21", "stateful property-based testing of the client's workflow against the real server in virtual time, with injected faults, latency and clock skew; oracle: a model of the context and its commit", note=BUB)
check("C22", "property-based testing of subscriptions in virtual time with generated tasks, handlers, options, faults and endings; oracle: invariants over the recorded history of requests and handler calls", note=BUB)
check("C28", "property-based testing of nonces: generated concurrency and operation histories, with statistical bounds far beyond chance", note="The random source is trusted; distribution and uniqueness are tested on samples, with bounds whose chance failure is negligible.")
check("C29", "property-based round-trip testing of payloads through every engine, API and snapshot, and of times through bindings", note=TRUST)
check("C33", "property-based testing of the client's requests in virtual time with generated origins, headers, timeouts and server behaviours", note="Runs in virtual time over in-memory connections observed at the dialer of http.DefaultTransport.")
PROC = "Runs the real executable on loopback addresses in real time: lower bounds are exact, upper bounds generous. Moments are generated, not exhaustively explored; power failure is not simulated."
check("C15", "property-based testing of real processes: generated requests in progress, writers, signals and kills; oracle: the acknowledged writes", "fault_enumeration", PROC)
check("C30", "property-based testing of real processes with generated settings from flags and environment; oracle: the documented effects and defaults", note=PROC)

MON = "The server is the harness's own: an in-memory stand-in for MongoDB that speaks the wire protocol and was written from the documentation of 4.4 (no MongoDB is available offline); what it leaves out is listed in DESIGN.md."
check("C26", "differential property-based testing of the MongoDB engine, over a stand-in server of our own with injected faults, against the reference model of the in-memory engine", note=MON)
check("C27", "property-based testing of interleavings: generated operations of several instances, scheduled at every database command; oracle: every result is explained by a version of the store during the operation, and every write by the promised atomicity", note=MON + " The server executes one command at a time; interleavings are those of whole commands.")
check("C32", "property-based testing of opening and reopening deployments with generated indexes, retentions, settings and faults; oracle: the documented indexes", note=MON)
check("C34", "metamorphic property-based testing: generated API requests sent in the usual way and in generated other ways over TCP to a router and to the real executable; oracle: the same answer, effect and contents", note="Pauses last up to 31 seconds; requests that net/http itself refuses are not sent; HTTP/2 and TLS are not served by the executable.")
