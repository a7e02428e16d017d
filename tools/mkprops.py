#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that wording and anchors are edited in one place)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech], "observe_at": list(obs), "hook_needed": hook}})

p("C01", "Longest matching route path serves each request, else 404",
  "A request is served by the longest configured route path that, anchored at its start and read as a regular expression, matches the request URI, no matter in which order routes are configured or whether a leading slash was left out. A request that no route matches is answered 404 and reaches no upstream.",
  ["configurations","inputs"], "every route table (order, nesting, missing leading slash, regex characters) and every request URI",
  "Unit tests try a handful of fixed paths on single routes; the guarantee ranges over all tables, orders and URIs.",
  ["config.go","route.go","proxyhandler.go","server.go"],
  [("validateRoutes adds the slash and sorts by length","config.go"),("compileRoutePaths anchors","config.go"),("matchURI / first match in proxyHandler","route.go, proxyhandler.go")],
  obs=["upstream that received the request","response status"])
p("C02", "Upstream receives the unmodified or transformed URI on the configured host",
  "The URI an upstream receives is the client's path and query unchanged or, for a route with a transform, the same URI with the leading route path replaced once by the transform (a transform of / removes it). Whatever the client sends in its URI, be it in absolute form, and whatever proxies the environment of the server names, the request goes only to the scheme, host and port configured for the matched resource.",
  ["inputs","configurations"], "every request URI incl. escapes, repeated route paths, authority-like characters (@ : //) and every literal route path/transform pair",
  "Tests check two or three transforms on benign paths; confinement is a statement about hostile URIs.",
  ["proxy.go","proxyhandler.go","upstream.go","config.go"],
  [("resolveUpstreamURI","proxy.go"),("scaffoldUpstreamRequest","proxyhandler.go"),("compileRouteTransforms","config.go")],
  obs=["request line and connection at loopback upstreams"])
p("C03", "Every upstream attempt carries the client's method, headers and exact body",
  "Each upstream attempt for a request, first or retried, carries the client's method, the exact bytes of its body and all its end-to-end headers with every value in order (Date and Server excepted, Host names the upstream). Headers that belong to one connection (Connection and those it names, Keep-Alive, TE, Trailer, Transfer-Encoding, Upgrade, Proxy-*) are not forwarded.",
  ["inputs","fault_sequences"], "every method, header multiset and body (any size up to the limit, any framing), on every attempt of a retry sequence",
  "Tests use mock clients that ignore the forwarded request or check one header; body replay on retries is untested.",
  ["proxyhandler.go","proxy.go"],
  [("scaffoldUpstreamRequest copies headers","proxyhandler.go"),("bodyReader makes a fresh reader per attempt","proxy.go"),("parseRequestBody","proxy.go"),("shouldProxyHeader / isHopByHopHeader","proxyhandler.go")],
  obs=["bytes received by the upstream"])
p("C04", "Upstream 2xx/3xx responses reach the client with status, headers and content",
  "A complete upstream response with a status of 2xx or 3xx is delivered with the same status, with every end-to-end header value in order and with a body that, after undoing the declared content coding, equals the upstream content byte for byte, however upstream framed it. Redirects are handed to the client and never followed; upstream's Server header is replaced by the proxy's own.",
  ["inputs"], "every status 200-399, header multiset, body, upstream framing (content-length, chunked with any chunk sizes, close-delimited) and segmentation",
  "Tests use fixed tiny bodies from mocks; framing, segmentation and large or empty bodies are not covered.",
  ["proxyhandler.go","proxy.go","httpclient.go"],
  [("parseUpstreamResponse reads the complete body","proxyhandler.go"),("copyUpstreamResponseHeaders","proxy.go"),("CheckRedirect","httpclient.go"),("pipeDownstreamResponse","proxy.go")],
  obs=["client wire, upstream script"])
p("C05", "Content-Encoding always describes the body actually sent",
  "On every response with a body, decoding that body as its Content-Encoding header declares succeeds and yields the content. gzip is only applied by the proxy if the client accepts it (a weight of 0 is a refusal), gzip from upstream is decoded for clients that do not accept it, and a body in a coding the proxy does not understand is passed on unchanged with its label.",
  ["inputs"], "every combination of Accept-Encoding, upstream Content-Encoding (none, identity, gzip, x-gzip, other, lists, wrong), body and response kind (proxied, error wrapper, about)",
  "Tests cover six header pairs on one small body; the guarantee is about the cross product, incl. error responses and mislabelled bodies.",
  ["proxy.go","gzip.go","server.go","responses.go","proxyhandler.go"],
  [("encodeUpstreamResponseBody","proxy.go"),("contentEncoding / writeContentEncodingHeader","proxy.go"),("sendStatusCodeAsJSON","server.go"),("Gzip/Gunzip pools","gzip.go")],
  state=[("zipPool/unzipPool","pooled coders reused across requests","gzip.go")], obs=["client wire"])
p("C06", "Errors are wrapped as JSON; upstream 4xx keep their code, 5xx become 502",
  "Every error answer of the proxy is a JSON object that carries the status code it is sent with, a message and the server identity, with content type application/json. An upstream 4xx is answered with the same code and an upstream 5xx, an undecodable response or a failed connection with 502, and neither body nor headers of a failed upstream response reach the client.",
  ["inputs","fault_sequences"], "every upstream status 400-599, every upstream failure mode, every error the proxy raises itself (400, 401, 404, 413, 502, 503, 504)",
  "Integration tests for status codes need external servers and are not part of the suite that runs; unit tests check two codes.",
  ["server.go","responses.go","proxyhandler.go"],
  [("sendStatusCodeAsJSON","server.go"),("withCode","responses.go"),("handle / isUpstreamClientError","proxyhandler.go")], obs=["client wire"])
p("C07", "Only repeatable methods are retried, at most maxAttempts, until first success",
  "A request with a repeatable method (GET, HEAD, OPTIONS, TRACE, PUT, DELETE) is attempted again after each failed attempt (5xx, broken connection or response, attempt timeout) until one succeeds or maxAttempts is reached; other methods are attempted exactly once. (Not counted: the replay HTTP clients do where a kept-alive upstream connection ends before any byte of the response, and only for GET, HEAD, OPTIONS, TRACE or where the client sent an Idempotency-Key.) The client receives exactly one response, that of the last attempt, and no attempt is made after a success or an upstream status below 500.",
  ["fault_sequences","inputs"], "every method and every sequence of per-attempt outcomes up to maxAttempts, for every maxAttempts",
  "Two tests check GET retries and POST does not with a mock; sequences of mixed outcomes and exact counts are not tested.",
  ["proxyhandler.go","proxy.go"],
  [("handle recursion","proxyhandler.go"),("shouldRetryUpstreamAttempt","proxy.go"),("shouldProxyUpstreamResponse","proxyhandler.go")],
  state=[("Up.Atmpt.Count","ordinal of the attempt","proxy.go")], obs=["requests received by the upstream","client wire"])
p("C08", "Round trip timeout answers 504 and ends all upstream work",
  "When a request has not been answered within roundTripTimeoutSeconds the client receives a 504, even while upstream is still holding back headers or body, and no upstream attempt for it starts afterwards. Upstream attempts in flight are cancelled, and no 504 is sent before that time for this reason.",
  ["schedules","fault_sequences"], "every point at which upstream stalls (before headers, between body bytes, across retries) and every ratio of the configured timeouts",
  "Tests of timeouts need real seconds and external servers; the suite that runs has none.",
  ["proxy.go","proxyhandler.go"],
  [("parseIncoming timer","proxy.go"),("select in performUpstreamRequest / parseUpstreamResponse","proxyhandler.go"),("hasDownstreamAborted","proxy.go"),("abortAllUpstreamAttempts","proxy.go")],
  obs=["order of client and upstream events"])
p("C09", "Each upstream attempt is bounded by its own read timeout",
  "An upstream attempt whose response is not complete within readTimeoutSeconds is cancelled, observable by upstream as a closed connection, and counts as failed: it is retried under the retry rule, or else the client receives a 504. Every attempt has the full time to itself, and a response that arrives later is never delivered for this or any other request.",
  ["schedules","fault_sequences"], "every stall point within an attempt and every sequence of stalled and answered attempts",
  "No running test lets an upstream attempt time out.",
  ["proxyhandler.go","proxy.go"],
  [("scaffoldUpstreamRequest AfterFunc(cancel)","proxyhandler.go"),("Aborted channel per attempt","proxy.go")],
  obs=["upstream connection closure, attempt arrival, client wire"])
p("C10", "Request bodies above maxBodyBytes are refused with 413, up to it accepted",
  "A request whose body is larger than maxBodyBytes is answered 413 and reaches no upstream, whether its size is declared or it is sent in chunks; a body of at most maxBodyBytes is never refused for its size.",
  ["inputs","configurations"], "every body size around every limit, declared or chunked with any chunk sizes",
  "One test checks a declared length in isolation; boundary and chunked bodies are not tested.",
  ["proxy.go","proxyhandler.go","config.go"],
  [("parseRequestBody","proxy.go"),("validate","proxyhandler.go")], obs=["client wire, upstream requests"])
p("C11", "Truncated or malformed request bodies are never forwarded",
  "If the client's request body ends early, is malformed or stalls beyond the read timeout, no upstream receives a request with a shortened body; the client receives an error or a closed connection. (A chunked request of which no chunk at all arrives before the read timeout counts as bodiless.)",
  ["inputs","fault_sequences","crash_points"], "every cut point and corruption of a declared or chunked request body",
  "No test cuts off a request body.",
  ["proxy.go","proxyhandler.go"],
  [("parseRequestBody error handling","proxy.go"),("validate","proxyhandler.go")], obs=["upstream requests, client wire"])
p("C12", "Truncated or corrupt upstream responses are never delivered as complete",
  "A response that upstream breaks off or frames incorrectly at any byte is never delivered to the client as that upstream response, in part or in full. It counts as a failed attempt, so it is retried for repeatable methods and otherwise answered 502.",
  ["fault_sequences","crash_points"], "every byte offset at which the upstream connection can end, by FIN or RST, for each framing",
  "No test injects a truncated upstream response.",
  ["proxyhandler.go"],
  [("bodyError in shouldProxyUpstreamResponse","proxyhandler.go")], obs=["client wire, upstream requests"])
p("C13", "Routes with jwt reach upstream only with a validly signed token",
  "On a route with a jwt, no request reaches upstream unless it bears a token whose signature verifies with a configured or fetched key under exactly the configured algorithm; every other request is answered 401. That covers missing, malformed, stripped, re-signed, algorithm-swapped (incl. none and HMAC with the public key) and altered tokens, and holds for each such route independently.",
  ["inputs","configurations"], "every token and Authorization header, for each supported algorithm and key set",
  "Tests validate the configuration parser; signature checks on the request path have one positive test.",
  ["proxy.go","proxyhandler.go","jwt.go"],
  [("validateJwt / verifySignature","proxy.go"),("gate in proxyHandler","proxyhandler.go")],
  state=[("RSAPublic/ECDSAPublic/Secret","key sets per jwt","jwt.go")], obs=["upstream requests, client wire"])
p("C14", "Validly signed, timely tokens are always accepted",
  "On a route with a jwt, every request bearing a token that is signed with any key of the set under the configured algorithm and whose date claims are satisfied is passed on, whatever its kid (matching, unknown, naming another key, or absent), its other claims, and whichever of several keys signed it. A token with alg none is accepted only where none is configured.",
  ["inputs","configurations"], "every supported algorithm, key, kid arrangement and claim set",
  "One unit test checks one token; multiple keys and kid collisions are not tested.",
  ["proxy.go","jwt.go"],
  [("verifySignature tries the kid's key, then all keys","proxy.go"),("KeySet.Find/Upsert","jwt.go")], obs=["upstream requests"])
p("C15", "exp, nbf and iat are enforced with exactly the configured skew",
  "A token is refused if, by more than acceptableSkewSeconds, its exp lies in the past or its nbf or iat lies in the future, and it is not refused for its dates otherwise; absent claims are not required, values before the year 1 or beyond 2^61 seconds are no dates and refused. The default skew is 120 seconds and an explicit 0 is honoured.",
  ["inputs","configurations"], "every combination of present, absent and boundary date claims in every form of number, and every skew",
  "Tests check one value on each side per claim.",
  ["proxy.go","jwt.go"],
  [("verifyDateClaims","proxy.go"),("Validate default skew","jwt.go")], obs=["accept/refuse per token"])
p("C16", "JWKS rotation adds new keys, keeps old ones and refuses foreign algorithms",
  "After a token with an unknown kid arrives, keys newly published at the JWKS URL come into use without restart, a key republished under a known kid replaces the old one, and keys already known stay usable. Failed, malformed, empty or slow JWKS answers and keys of another algorithm or type never remove or add usable keys, never crash or block request processing, and never prevent later rotations; refreshes of one jwt never overlap and are spaced at least 10 seconds apart after the first.",
  ["histories","schedules","fault_sequences"], "every history of JWKS contents, failures and token arrivals, incl. concurrent ones",
  "One test calls the loader concurrently without keys; rotation depends on time and history.",
  ["jwt.go","proxy.go"],
  [("LoadJwks try-lock and slow wait","jwt.go"),("triggerKeyRotationCheck","proxy.go"),("Upsert","jwt.go")],
  state=[("lock/updateCount","single flight, spacing","jwt.go")], obs=["requests at a JWKS server, token verdicts over time"])
p("C17", "Unsafe jwt and route configuration is refused at start",
  "The server starts only if every jwt has a known algorithm, key material of the matching type and size (or a JWKS URL serving such keys), no key data for alg none and a skew that is a non-negative number, and if every jwt a route names exists and every transform starts with a slash. With any other configuration it exits before serving and never falls back to serving such a route unprotected.",
  ["configurations"], "every combination of algorithm, key material (type, curve, size, PEM damage), skew, jwks content, route reference and transform",
  "Tests cover about fifty fixed samples of the key parser, none the running server.",
  ["jwt.go","config.go"],
  [("Jwt.Validate / parseKey / checkECDSABitSize","jwt.go"),("validateRoutes, compileRouteTransforms, validateJwt","config.go")], obs=["process exit and listening state"])
p("C18", "No input crashes the proxy or leaves a well-formed request unanswered",
  "Whatever bytes clients and upstreams send, and whatever resources a configuration that the server accepts leads to, the process keeps running, no request handler panics, and every well-formed request on any connection receives one well-formed HTTP response. Requests with methods outside the supported set are answered 400 without reaching upstream.",
  ["inputs","fault_sequences"], "every byte sequence on client and upstream connections",
  "Tests use well-formed traffic only.",
  ["proxyhandler.go","proxy.go","server.go","responses.go","jwt.go"],
  [("validate / hasLegalHTTPMethod","proxyhandler.go, proxy.go"),("error paths of handle","proxyhandler.go")], obs=["client wire, process state, handler panics in the log"])
p("C19", "Policies split traffic over labels by weight; unlabelled routes use the first",
  "Each request of a route with a policy goes to the first upstream carrying the label drawn, labels being drawn independently per request with the configured weights; what is missing to a total of 1 goes to the label default, and if no upstream carries the label the answer is 503. Routes without policy always use the first upstream of their resource.",
  ["configurations","histories"], "every policy (weights, order, sums below 1), label assignment and request history, also interleaved with error responses",
  "Tests check one or two fixed policies in isolation.",
  ["policy.go","route.go","config.go"],
  [("resolveLabel","policy.go"),("mapURL","route.go"),("addDefaultPolicy","config.go")],
  state=[("math/rand source","shared with canned responses","policy.go, responses.go")], obs=["upstream that received each request"])
p("C20", "Concurrent requests never see each other's data",
  "Under any concurrency and mix of outcomes (success, gzip, errors, retries, timeouts, aborted clients, late upstream answers), every client receives only data belonging to its own request and every upstream attempt carries only its own request's method, URI, headers and body.",
  ["schedules","histories"], "every interleaving of concurrent requests on shared connections, pools and coders",
  "Tests are sequential.",
  ["proxyhandler.go","proxy.go","gzip.go","httpclient.go"],
  [("per request Proxy, per attempt Atmpt","proxyhandler.go, proxy.go"),("coder pools","gzip.go")], obs=["unique ids in requests and responses on both wires"])
p("C21", "The server is free of data races",
  "No two goroutines of the running server access the same memory concurrently without synchronisation, one of them writing, in any mix of proxied, failing, timing out, JWT protected, JWKS refreshing, TLS and about requests.",
  ["schedules"], "every schedule of concurrent requests, timeouts, JWKS refreshes and background samplers",
  "The suite runs without the race detector and mostly sequentially.",
  ["proxyhandler.go","proxy.go","jwt.go","policy.go","stats.go","iprex.go","gzip.go","server.go"],
  [("per request state; locks on key sets and history","proxy.go, jwt.go, stats.go")], obs=["Go race detector reports"])
p("C22", "One X-Request-Id identifies a request upstream, downstream and in the log",
  "A request that carries X-Request-Id keeps that value on every upstream attempt, on its response, success or error, and in its log line; a request without one gets a unique generated value used the same way. The response carries it exactly once, also if upstream sends one of its own.",
  ["inputs","histories"], "every request with or without an id, every response kind, retries and concurrency",
  "Two integration tests that need external servers.",
  ["proxy.go","proxyhandler.go","server.go"],
  [("createXRequestID","proxy.go"),("scaffoldUpstreamRequest","proxyhandler.go"),("writeStandardResponseHeaders","server.go")], obs=["both wires and access log"])
p("C23", "TLS mode: only TLS 1.2+ with strong suites, HSTS and same proxy behaviour",
  "In TLS mode the server completes handshakes only with TLS 1.2 or 1.3, in 1.2 only with ECDHE AES-GCM suites, presents the configured chain, and sends Strict-Transport-Security on every response it generates, success or error, which it does not in HTTP mode. HTTP/1.1 and HTTP/2 clients get equivalent responses, and plaintext is never proxied on the TLS port.",
  ["configurations","inputs"], "every client protocol version, cipher suite, curve and response kind",
  "Tests construct the TLS config but make no handshakes.",
  ["server.go"],
  [("tlsConfig","server.go"),("writeStandardResponseHeaders","server.go"),("startListening","server.go")], obs=["handshake results, client wire"])
p("C24", "Upstream TLS is verified unless explicitly disabled",
  "Requests to an https upstream are sent only after its certificate chain and host name verified against the system roots; otherwise the client receives 502 and the upstream no request. With tlsInsecureSkipVerify they are sent without that check, and an https resource is never contacted in plaintext nor an http resource with TLS.",
  ["configurations","fault_sequences"], "every certificate defect (untrusted, expired, not yet valid, wrong name, incomplete chain, wrong usage)",
  "Integration tests need badssl hosts on the internet.",
  ["httpclient.go","config.go","upstream.go"],
  [("scaffoldHTTPClient TLSClientConfig","httpclient.go"),("reApplyResourceSchemes","config.go")], obs=["upstream requests, client wire"])
p("C25", "Configuration is honoured as written, with documented defaults",
  "The same configuration has the same effect whether given by flag, J8ACFG_YML or default file, with precedence in that order, in YAML or JSON. Every setting given takes effect as given, every setting absent takes its default (port 8080 or 443, 120/240/120 s downstream, 3/120/120 s upstream, 32768 pooled connections, 1 attempt, 2 MiB body), and a missing or unusable configuration ends the process instead of serving something else.",
  ["configurations"], "every subset of settings given and absent, and every source",
  "Tests check each default alone.",
  ["config.go","server.go","httpclient.go","cmd/j8a/main.go"],
  [("load","config.go"),("setDefaultDownstreamParams/UpstreamParams","config.go"),("derived params","server.go, httpclient.go")], obs=["derived parameters and observable behaviour of the running server"])
p("C26", "Each request produces exactly one access log line that matches what happened",
  "Every request the proxy answers produces exactly one structured access log record, whose status, method, path, client address, request id and protocol equal those of the exchange, and whose upstream URI, label, status and attempt count, if present, equal those of the last upstream attempt. Responses of 400 and above are logged as warnings with their message, all others as info.",
  ["histories","inputs"], "every history of requests of all outcomes, sequential or concurrent",
  "No test reads the log.",
  ["proxyhandler.go","server.go","responses.go","iprex.go"],
  [("logHandledDownstreamRoundtrip","proxyhandler.go"),("extractAddr","iprex.go")], obs=["log output against recorded exchanges"])
p("C27", "Certificate chain analysis is correct and refuses bad chains at start",
  "In TLS mode the server starts only with a parsable, matching key pair whose certificate names a DNS host and verifies through the supplied chain. The logged analysis names for each certificate its serial number in full, its role, issuer and time left, and marks the one expiring first, warning if that is within 30 days; it is repeated daily for as long as the server runs.",
  ["configurations","inputs","histories"], "every chain (length, order, validity, serial, missing links, mismatched key) and every day of its life",
  "Tests use four fixed chains.",
  ["tls.go","server.go"],
  [("checkCertChain / splitCertPools","tls.go"),("parseTlsLinks / formatSerial / logCertStats","tls.go"),("tlsConfig","server.go")], obs=["process exit, log, analysis result"])
p("C28", "Connections and memory stay bounded under any mix of outcomes",
  "After load of any mix of successes, failures, timeouts, aborted clients and refused requests ceases, sockets and goroutines held for it are released once the configured timeouts passed, and at most poolSize idle upstream connections are kept. Sequential requests to a healthy upstream reuse a pooled connection.",
  ["histories","fault_sequences"], "every mix and order of request outcomes",
  "Tests are too short to see leaks and never look.",
  ["proxyhandler.go","proxy.go","httpclient.go","server.go"],
  [("Body.Close, discard of late responses","proxyhandler.go"),("MaxIdleConns(PerHost), IdleConnTimeout","httpclient.go")], obs=["process file descriptors, goroutine count, upstream connections"])
p("C29", "The about endpoint identifies the server and never involves an upstream",
  "Requests to a route of resource about are answered 200 with a JSON document naming product, server id and version, for any method and headers, without upstream contact; only exactly that path is answered so, and if the route names a jwt the same token rules apply as on any route.",
  ["inputs","configurations"], "every about path, method, header set and jwt setting",
  "Three unit tests call the handler directly, none through routing or with a jwt.",
  ["responses.go","server.go"],
  [("aboutHandler","responses.go"),("mapPathsToHandler","server.go")], obs=["client wire, upstream requests"])
p("C30", "Process statistics keep the last 24 samples in order and flag doubled memory",
  "The sample history never holds more than 24 samples, keeps the most recent ones in order, and reports high growth exactly if memory reached at least twice that of the oldest retained sample once the history is complete. Sampling continues for as long as the process runs, and the records show the process's own id, resident and virtual memory and time since start.",
  ["histories"], "every sequence of samples of any length",
  "Tests check three fixed sequences.",
  ["stats.go"],
  [("samples.append / log","stats.go"),("logProcStats loops","stats.go")], state=[("procHistory","ring of samples","stats.go")], obs=["history content, growth log lines"])
p("C31", "Responses are framed so that persistent connections stay in sync",
  "On a persistent connection carrying any sequence of requests, pipelined or not, the client receives exactly one correctly delimited response per request in order, until one side announces close. HEAD, 204 and 304 responses carry no body bytes, a HEAD response repeats upstream's content length, and Content-Length equals the bytes sent.",
  ["histories","inputs"], "every sequence of methods, statuses, codings and body sizes on one connection",
  "Unit tests look at the header alone, through a client that repairs framing.",
  ["proxy.go","server.go","proxyhandler.go"],
  [("setContentLengthHeader","proxy.go"),("sendStatusCodeAsJSON","server.go")], obs=["client wire, strict parser"])
p("C32", "Slow or idle clients are cut off by the configured downstream timeouts",
  "A client that does not complete its request header within readTimeoutSeconds, or leaves a persistent connection idle for idleTimeoutSeconds, has its connection closed by the server, and not before; other clients are unaffected.",
  ["schedules","configurations"], "every point at which a client stalls",
  "No running test stalls a client.",
  ["server.go","config.go"],
  [("http.Server timeouts","server.go")], obs=["connection closure events"])
p("C33", "Client addresses are extracted in full for every IPv4 and IPv6 form",
  "For every host:port remote address and every network event text that contains one, and for a lone IPv4 address in any text, the address logged is that complete address, IPv4, IPv6 compressed or not, or IPv4-mapped, never a fragment or a different one.",
  ["inputs"], "every IPv4 and IPv6 address in every textual form and surrounding text",
  "Tests list about thirty addresses.",
  ["iprex.go","server.go","proxyhandler.go"],
  [("extractAddr","iprex.go"),("zerologAdapter.Write","server.go")], obs=["extracted value"])
p("C34", "Idle upstream connections, connect time and unreachable upstreams are bounded",
  "Establishing a connection to an upstream, TLS handshake included, is given up after socketTimeoutSeconds and counts as a failed attempt answered 502 after the last one; pooled upstream connections are closed after idleTimeoutSeconds of disuse. What upstream does to a pooled connection while it is idle (end it, speak on it) costs no later request and is never delivered as an answer. A stalled or unreachable upstream does not delay requests to other upstreams.",
  ["fault_sequences","configurations"], "every way an upstream can fail to accept (refused, silent, stalled handshake) for every timeout setting",
  "Integration tests need external servers.",
  ["httpclient.go"],
  [("Dialer.Timeout, TLSHandshakeTimeout, IdleConnTimeout","httpclient.go")], obs=["client wire, upstream connection events"])
p("C35", "Secrets stay where they belong: not in output, other responses or upstream",
  "jwt HMAC keys and the TLS private key never appear in the process's output, at any log level and also when the configuration is refused, nor in any response or upstream request. Authorization values and token signatures, cookies, API keys and bodies of clients and the cookies, headers and bodies of upstream answers never appear in the output, and in no response or upstream request but the one they belong to.",
  ["inputs","configurations","histories"], "every request, token, outcome, log level and refused configuration",
  "Tests do not look at log output, and a leak hides in one error path among many.",
  ["proxy.go","jwt.go","proxyhandler.go","config.go","tls.go","responses.go"],
  [("log events of validateJwt and the attempts","proxy.go, proxyhandler.go"),("error texts of Validate/parseKey","jwt.go"),("panic / start-up errors","config.go, tls.go")], obs=["all process output, responses, upstream requests"])
p("C36", "What a request gets does not depend on the requests before it",
  "A request's response and everything upstream receives for it are the same after any history of earlier requests as on a freshly started server: no number, mix or order of successes, failures, refusals, aborted or malformed requests, distinct paths, ids or tokens changes routing, jwt verdicts, retries, coding or error handling of later ones (key rotation, label draws and the greeting in JSON messages excepted).",
  ["histories"], "every history of requests",
  "Each test makes a handful of requests on a fresh server.",
  ["proxyhandler.go","proxy.go","route.go","policy.go","jwt.go","responses.go","gzip.go"],
  [("Runner and other package state","config.go, server.go"),("httpClient","httpclient.go")], obs=["responses and upstream requests on fresh and used servers"])
p("C37", "The log is whole JSON records at the chosen level, whatever peers send",
  "What the server writes is one complete JSON record per line, each with level, time, message and (once known) server id and no field twice, at any concurrency and also when it refuses to start, the last record then being fatal. Nothing clients, upstreams or key servers send can break, split or add records or fields. LOGLEVEL (TRACE, DEBUG, INFO, WARN in any case, else INFO) lets exactly the records at or above it through; X-Request-Debug: true raises the attempt records of its own request, and only those, to debug. With LOGCOLOR (TRUE, YES, Y) records become text, still one line each.",
  ["inputs","configurations"], "every byte that clients, upstreams and key servers may send, at every log level",
  "Tests do not read the log; records break on rare bytes in a single place, or where a library logs by itself.",
  ["logger.go","server.go","proxy.go","proxyhandler.go","jwt.go","config.go"],
  [("initLogger","logger.go"),("zerologAdapter.Write","server.go"),("scaffoldUpAttemptLog","proxyhandler.go"),("triggerKeyRotationCheck, verifySignature","proxy.go")], obs=["all lines of process output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
