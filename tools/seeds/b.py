seed("C05-ceheader", [("proxy.go", '''	if proxy.Dwn.Resp.ContentLength > 0 {
		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, proxy.contentEncoding())
	}''', '''	if proxy.Dwn.Resp.ContentLength > 0 && proxy.Dwn.Resp.Writer.Header().Get("Cache-Control") != "no-transform" {
		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, proxy.contentEncoding())
	}''')], r'''
u = Up(lambda r, c: resp(200, (("Cache-Control", r.get("X-CC") or "private"),), b"hello world" * 20))
j = J8a(cfg(u))
for cc in ("private", "no-transform"):
    for ae in ("gzip", "identity"):
        r = j.do("GET", "/a", (("Accept-Encoding", ae), ("X-CC", cc)))
        check(r.content() == b"hello world" * 20, "body is not what Content-Encoding %r says" % r.get("Content-Encoding"))
''', "an upstream response with Cache-Control: no-transform and a client that accepts gzip", "the body is compressed but not labelled")

seed("C05-smallbody", [("proxy.go", '''		if proxy.shouldGzipEncodeResponseBody() {
			proxy.Dwn.Resp.Body = Gzip(*proxy.Up.Atmpt.respBody)
''', '''		if proxy.shouldGzipEncodeResponseBody() && len(*atmpt.respBody) > 8 {
			proxy.Dwn.Resp.Body = Gzip(*proxy.Up.Atmpt.respBody)
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x" * int(r.target[1:])))
j = J8a(cfg(u))
for n in (1, 5, 8, 9, 100):
    r = j.do("GET", "/%d" % n, (("Accept-Encoding", "gzip"),))
    try:
        ok = r.content() == b"x" * n
    except Exception as e:
        ok = False
    check(ok, "body of %d bytes is not what Content-Encoding %r says: %r" % (n, r.get("Content-Encoding"), r.body[:20]))
''', "a body of at most eight bytes for a client that accepts gzip", "tiny bodies are sent uncompressed but labelled gzip")

seed("C06-unknown4xx", [("proxyhandler.go", "	return proxy.Up.Atmpt.StatusCode > 399 && proxy.Up.Atmpt.StatusCode < 500", '''	_, known := httpResponses[proxy.Up.Atmpt.StatusCode]
	return known && proxy.Up.Atmpt.StatusCode > 399''')], r'''
u = Up(lambda r, c: resp(int(r.target[1:]), (("X-Secret", "1"),), b"SECRET"))
j = J8a(cfg(u))
for code in list(range(400, 500)):
    r = j.do("GET", "/%d" % code)
    check(r.status == code and b"SECRET" not in r.body and r.get("X-Secret") is None, "upstream %d passed on unwrapped" % code)
    check(json.loads(r.body)["Code"] == code, "code")
''', "an upstream status between 400 and 499 that has no standard name (430, 452, ...)", "body and headers of such responses reach the client")

seed("C06-501", [("proxyhandler.go", "		proxy.Up.Atmpt.resp.StatusCode < 500\n", "		(proxy.Up.Atmpt.resp.StatusCode < 500 || proxy.Up.Atmpt.resp.StatusCode == 511)\n")], r'''
u = Up(lambda r, c: resp(int(r.target[1:]), (), b"SECRET"))
j = J8a(cfg(u))
for code in list(range(500, 600)):
    r = j.do("POST", "/%d" % code)
    check(r.status == 502 and b"SECRET" not in r.body, "upstream %d answered %d" % (code, r.status))
''', "an upstream that answers 511", "511 is passed on with its body")

seed("C07-emptypost", [("proxy.go", '''		if proxy.Dwn.Method == method {
			if proxy''', '''		//nothing is duplicated by repeating a request without body
		if proxy.Dwn.Method == method || (proxy.Dwn.Method == "POST" && len(proxy.Dwn.Body) == 0) {
			if proxy''')], r'''
u = Up(lambda r, c: resp(503, (), b"x"))
j = J8a(cfg(u, upc={"maxAttempts": 4}))
for body in (b"data", b""):
    del u.reqs[:]
    check(j.do("POST", "/a", (), body).status == 502, "status")
    check(len(u.reqs) == 1, "POST with body %r was attempted %d times" % (body, len(u.reqs)))
''', "a POST without body to a failing upstream", "it is retried")

seed("C07-notimplemented", [("proxy.go", '''	// once downstream context has signalled, do not re-attempt upstream
	if proxy.hasDownstreamAborted() {
		retry = false
	}''', '''	// once downstream context has signalled, do not re-attempt upstream
	if proxy.hasDownstreamAborted() || proxy.Up.Atmpt.StatusCode == 501 {
		retry = false
	}''')], r'''
n = [0]
def h(r, c):
    n[0] += 1
    return resp(501 if n[0] == 1 else 200, (), b"x")
u = Up(h)
j = J8a(cfg(u, upc={"maxAttempts": 2}))
check(j.do("GET", "/a").status == 200, "not attempted again after 501")
''', "a repeatable request whose first attempt is answered 501", "it is not attempted again")

seed("C08-noabortcheck", [("proxy.go", '''	// once downstream context has signalled, do not re-attempt upstream
	if proxy.hasDownstreamAborted() {
		retry = false
	}''', '''	// once downstream has been answered, do not re-attempt upstream
	if proxy.Dwn.Resp.StatusCode > 0 {
		retry = false
	}''')], r'''
def h(r, c):
    time.sleep(6)
    return "close"
u = Up(h)
bad = 0
j = J8a(cfg(u, down={"roundTripTimeoutSeconds": 1}, upc={"maxAttempts": 8, "readTimeoutSeconds": 20}))
def one(i):
    r = j.do("GET", "/%d" % i)
    check(r.status == 504, "status %d" % r.status)
ts = [threading.Thread(target=one, args=(i,)) for i in range(20)]
[t.start() for t in ts]; [t.join() for t in ts]
time.sleep(1)
check(len(u.reqs) == 20, "%d upstream requests for 20 requests that timed out in their first attempt" % len(u.reqs))
check(len(u.conns) <= 20, "%d upstream connections for 20 requests" % len(u.conns))
''', "a request whose round trip times out while an attempt is in flight, with attempts left", "further attempts are started after the 504 is due")

seed("C08-timerlate", [("proxy.go", '''	time.AfterFunc(Runner.getDownstreamRoundTripTimeoutDuration(), func() {
		cancel()
	})

	proxy.XRequestDebug''', '''	proxy.XRequestDebug'''), ("proxy.go", '''	proxy.parseRequestBody(request)
	proxy.Dwn.Req = request
''', '''	proxy.parseRequestBody(request)
	proxy.Dwn.Req = request
	time.AfterFunc(Runner.getDownstreamRoundTripTimeoutDuration(), func() {
		cancel()
	})
''')], r'''
u = Up(lambda r, c: time.sleep(10))
j = J8a(cfg(u, down={"roundTripTimeoutSeconds": 4}, upc={"readTimeoutSeconds": 30}))
s = j.conn()
s.sendall(b"POST /a HTTP/1.1\r\nHost: x\r\nContent-Length: 4\r\n\r\n")
t = time.time()
for i in range(4):
    time.sleep(0.85)
    s.sendall(b"x")
try:
    r = read_response(s.makefile("rb"))
except Exception as e:
    fail("no 504 within the round trip timeout: %r after %.1f s" % (e, time.time() - t))
check(r.status == 504, "status %d" % r.status)
check(time.time() - t < 5.5, "504 after %.1f s" % (time.time() - t))
''', "a client that takes some time to send its body, with an upstream that does not answer", "the round trip is timed from the end of the request body, so that the server's write deadline cuts the answer off")

seed("C09-sharedtimeout", [("proxyhandler.go", "	time.AfterFunc(time.Duration(Runner.Connection.Upstream.ReadTimeoutSeconds)*time.Second, func() {", "	time.AfterFunc(time.Until(proxy.Up.Atmpts[0].startDate.Add(time.Duration(Runner.Connection.Upstream.ReadTimeoutSeconds)*time.Second)), func() {")], r'''
n = [0]
def h(r, c):
    n[0] += 1
    if n[0] == 1:
        time.sleep(1.8)
        return resp(503)
    time.sleep(1.5)
    return resp(200, (), b"slow")
u = Up(h)
j = J8a(cfg(u, upc={"maxAttempts": 2, "readTimeoutSeconds": 2}))
r = j.do("GET", "/a")
check(r.status == 200, "second attempt was not given its own 2 s: %d" % r.status)
''', "a retried request whose attempts each take most of the read timeout", "later attempts have less than readTimeoutSeconds")

seed("C09-bodytimeout", [("proxyhandler.go", '''	case <-proxy.Up.Atmpt.Aborted:
		proxy.Up.Atmpt.AbortedFlag = true
		scaffoldUpAttemptLog(proxy).
			Int("upReadTimeoutSecs", Runner.Connection.Upstream.ReadTimeoutSeconds).
			Msg("upstream connection read timeout fired, aborting upstream response body processing")''', '''	case <-proxy.Up.Atmpt.Aborted:
		scaffoldUpAttemptLog(proxy).
			Int("upReadTimeoutSecs", Runner.Connection.Upstream.ReadTimeoutSeconds).
			Msg("upstream connection read timeout fired, aborting upstream response body processing")
		bodyError = context.DeadlineExceeded
		proxy.Up.Atmpt.Aborted = nil''')], r'''
def h(r, c):
    c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\nabc")
    time.sleep(5)
    return "close"
u = Up(h)
j = J8a(cfg(u, upc={"readTimeoutSeconds": 1}))
r = j.do("GET", "/a")
check(r.status == 504, "status %d" % r.status)
''', "an upstream that stalls in the middle of its body", "the attempt timeout is answered 502 instead of 504")

seed("C10-chunkplusone", [("proxy.go", '''		request.Body,
		Runner.Connection.Downstream.MaxBodyBytes))''', '''		request.Body,
		Runner.Connection.Downstream.MaxBodyBytes+1))''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, down={"maxBodyBytes": 100}))
def chunked(n):
    return j.raw(b"PUT /a HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n" + b"%x\r\n" % n + b"y" * n + b"\r\n0\r\n\r\n", "PUT").status
check(chunked(100) == 200, "100")
check(chunked(102) == 413, "102")
check(chunked(101) == 413, "chunked body of limit + 1 accepted")
check(j.do("PUT", "/a", (), b"y" * 101).status == 413, "101 declared")
''', "a chunked body of exactly one byte above the limit", "it is accepted and forwarded")

seed("C10-bodiless", [("proxy.go", "	n := len(buf)\n	//the reader", "	var n = len(buf)\n	//the reader"), ("proxy.go", '''		return
	}

	//create buffered reader''', '''		return
	}

	//safe methods have no use for a body, don't spend time on it
	if request.ContentLength < 0 && (request.Method == "GET" || request.Method == "OPTIONS") {
		request.Body = ioutil.NopCloser(io.LimitReader(request.Body, Runner.Connection.Downstream.MaxBodyBytes))
	}

	//create buffered reader'''), ("proxy.go", '''	//content length 0, do not read just go back
''', '''	//content length 0, do not read just return
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, down={"maxBodyBytes": 100}))
for m in ("POST", "PUT", "GET", "OPTIONS"):
    d = m.encode() + b" /a HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n" + b"%x\r\n" % 300 + b"y" * 300 + b"\r\n0\r\n\r\n"
    n = len(u.reqs)
    check(j.raw(d, m).status == 413 and len(u.reqs) == n, "%s with 300 bytes in chunks was accepted" % m)
''', "a chunked GET or OPTIONS with a body above the limit", "the body is cut at the limit and forwarded")

seed("C11-unexpectedeof", [("proxy.go", "	} else if err != nil && err != io.EOF {", "	} else if err != nil && err != io.EOF && !(err == io.ErrUnexpectedEOF && request.ContentLength < 0) {")], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u))
s = j.conn()
s.sendall(b"PUT /a HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\na\r\n0123456789\r\n")
s.shutdown(socket.SHUT_WR)
try: s.recv(4096)
except Exception: pass
time.sleep(1)
check(not u.reqs, "cut off body was forwarded: %r" % [r.body for r in u.reqs])
''', "a chunked request whose client hangs up between two chunks", "what arrived is forwarded as a complete body")

seed("C12-chunkedcut", [("proxyhandler.go", "		bodyError == nil &&", "		(bodyError == nil || proxy.Up.Atmpt.resp.ContentLength < 0 && proxy.Up.Atmpt.respBody != nil && len(*proxy.Up.Atmpt.respBody) > 4096) &&")], r'''
def h(r, c):
    n = int(r.target[1:])
    c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + b"%x\r\n" % n + b"y" * n + b"\r\n")
    return "close"
u = Up(h)
j = J8a(cfg(u))
for n in (10, 4000, 5000, 100000):
    r = j.do("GET", "/%d" % n)
    check(r.status == 502, "chunked response of which %d bytes arrived was answered %d" % (n, r.status))
''', "a chunked upstream response that breaks off after more than 4 KiB", "the part that arrived is delivered as a complete 200")
