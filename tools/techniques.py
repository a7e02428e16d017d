BB = "the real server binary, built from the working tree, is driven over loopback sockets; "
T = {
"C01": ("online monitor: routing model vs upstream that received each request", "exploration", BB + "an independent routing model judges random tables and URIs. Trusts Go's regexp and ServeMux path cleaning."),
"C02": ("online monitor: URI model and canary upstreams", "exploration", BB + "the request line that reaches a raw upstream is compared with a model; canary listeners detect escaped requests."),
"C03": ("trace oracle: byte comparison of sent and forwarded requests", "exploration", BB + "every attempt that arrives at a raw upstream is compared with the client's request."),
"C04": ("trace oracle: byte comparison of upstream and delivered responses", "exploration", BB + "responses scripted byte by byte are compared with what a raw client receives. Header lines are compared per name."),
"C05": ("trace oracle: decode every body as labelled", "exploration", BB + "cross product of Accept-Encoding and upstream codings, every body decoded as labelled."),
"C06": ("fault injection with marked upstream data, wrapper and leak oracle", "fault_enumeration", BB + "every status 400-599, broken responses and self-raised errors; marked upstream data must not surface."),
"C07": ("fault sequences with attempt counting at the upstream", "fault_enumeration", BB + "outcome sequences enumerated (pairs) or sampled; attempts counted at the upstream against a model."),
"C08": ("fault injection: 17 stall points, ordered event trace oracle", "fault_enumeration", BB + "upstreams stall at enumerated points; lower bounds and orderings of events are judged, never upper wall clock bounds."),
"C09": ("fault sequences of stalls and late answers, ordered event trace oracle", "fault_enumeration", BB + "attempt sequences with stalls; closures observed at the upstream, late answers carry markers."),
"C10": ("boundary workload with upstream request monitor", "exploration", BB + "sizes around every limit in every framing."),
"C11": ("fault injection on request bodies, upstream request monitor", "fault_enumeration", BB + "bodies cut off or corrupted at enumerated positions; any request arriving upstream with another body is a violation."),
"C12": ("fault injection: every cut position of upstream responses", "fault_enumeration", BB + "responses in five framings cut at each byte by FIN or RST; markers of cut responses must not reach the client."),
"C13": ("forgery workload with upstream request monitor", "exploration", BB + "about 100 forgeries per route on 40+ jwt routes, with valid tokens as control. Cryptographic strength is assumed."),
"C14": ("generated valid tokens, delivery monitor", "exploration", BB + "every key of sets of 1 to 12, kid arrangement, header extra and claim set on 45+ jwt routes."),
"C15": ("boundary workload judged with the interval each request lived in", "exploration", BB + "dates around every boundary; verdicts only where both ends of the request's life time agree."),
"C16": ("history monitor: JWKS rotation fault histories, oracle over fetch log and token verdicts", "fault_enumeration", BB + "histories of JWKS answers of 35 useless kinds between good ones, sets of up to 12 keys; fetches are time stamped at the JWKS server."),
"C17": ("configuration fault enumeration, start-up and protection monitor", "fault_enumeration", BB + "each configuration is started for real; exit without answering, or service with protection."),
"C18": ("hostile stream fuzzing with strict response parser, panic and liveness monitors", "exploration", BB + "mutated client, token and upstream bytes; handler panics are read from the network event log, liveness by control requests."),
"C19": ("statistical monitor of label choices with binomial tail bounds", "exploration", BB + "support is exact, frequencies and lagged pairs judged at error below 1e-12 per run."),
"C20": ("stress under concurrency, taint markers in every byte", "exploration", BB + "every byte of requests and responses derives from the request's own id; both ends recognise foreign data; bursts of identical targets that differ in one header or the body only."),
"C21": ("Go race detector on the real server under mixed load", "exploration", BB + "three race-instrumented servers and an in-package concurrent run; only executed accesses are seen."),
"C22": ("trace oracle joining upstream, client and log records by request id", "exploration", BB + "29 response kinds x forms of the header x protocol; runs of identical requests for uniqueness."),
"C23": ("raw TLS handshakes and differential run of HTTP, HTTPS/1.1 and HTTP/2", "exploration", BB + "hand-made ClientHellos and real handshakes; 30 response kinds compared over three protocols."),
"C24": ("fault injection: defective upstream certificates, request monitor at the upstream", "fault_enumeration", BB + "25 defective and 8 valid certificate set-ups; the system roots are ours through SSL_CERT_FILE."),
"C25": ("configuration workload: derived parameters, listening sockets and behaviour observed against a model", "exploration", BB + "random settings in 12 renderings from every source; precedence and unusable configurations enumerated; timeouts observed behaviourally with lower bounds."),
"C26": ("access log records joined offline to what clients and upstreams observed", "exploration", BB + "42 outcome kinds over all protocols, addresses, odd paths and hostile header texts; every field of every record compared, counts conserved, duplicate keys and non-records looked for."),
"C27": ("generated certificate chains fed to the real analysis and to real servers, log lines parsed and compared with the certificates", "exploration", "In-package overlay test plus black box: chains intact or with one of 12 defects, known by construction; roles, serials, issuers, earliest mark, time left and warning level; servers in simulated time are watched over days for the daily repetition."),
"C29": ("black-box oracle over about routes with upstream request monitor", "exploration", BB + "16 methods, odd headers, near-miss paths and all token forgeries on about routes beside catch-all routes; the document must equal the identity the server logs, upstreams stay silent."),
"C30": ("model run of the sample history and samplers in simulated time", "exploration", "In-package overlay test plus the real server built with the runtime's simulated time: random histories against a list model, memory plans over simulated days; growth reports and sampling gaps judged."),
"C28": ("resource monitor after load: sockets, goroutine dump against an unloaded twin, upstream connection census, memory", "fault_enumeration", BB + "cross product of upstream and client behaviours; what remains after the timeouts is counted from /proc, from the upstreams and from the process's own goroutine dump."),
"C31": ("strict wire parser over random pipelined connection histories", "exploration", BB + "thousands of histories on one connection each; one response per request in order, identified by id and content, no stray bytes, no unannounced close. What net/http itself answers to unparsable requests is only required to end the connection."),
"C32": ("stalling clients with interval oracle over closure events", "exploration", BB + "each closure is judged by a lower bound, late closure by the earliest of many probes and by a watchdog resolved with control requests; other clients are monitored meanwhile."),
"C34": ("connect fault enumeration, interval oracle over closures and connection census at the upstream", "fault_enumeration", BB + "every way of not connecting, including a listener with a full queue; lower bounds per probe, the earliest of many against lateness, progress of other requests counted while 120 are stuck."),
"C33": ("generated addresses in every textual form inside peer texts, and real peers; extracted value compared with the address by construction", "exploration", "In-package overlay test plus black box: random addresses in texts with other addresses further on, concurrently; real clients from 127.0.0.0/8 and ::1 whose handshakes fail in eight ways or whose requests are served."),
"C35": ("taint search: random secrets in configuration and traffic, all output, responses and upstream requests searched for them", "exploration", BB + "every 16 characters of 8000 secrets in plain, hex, decimal and base64 form are looked for in all output at TRACE and below, over all outcome kinds, 17 classes of bad credentials and 86 refused or odd start-ups; the search is shown to find ids that may be logged."),
"C36": ("differential monitor: exchanges recorded on the fresh process and repeated along a long random history", "exploration", BB + "38 kinds of exchange are compared in full (response and upstream side) at checkpoints of a concurrent history of 140,000 requests, whose own answers are checked too."),
"C37": ("online monitor of every output line, plus a differential monitor of record sets between log levels", "exploration", BB + "every line of 15 servers at 11 settings of LOGLEVEL and 4 of LOGCOLOR under hostile texts from clients, upstreams and key servers is decoded as a record; per request the records at each level are compared with what TRACE shows."),
}
