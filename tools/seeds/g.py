seed("C02-opaque", [("server.go", '''	return handler
}

func (runtime Runtime) initUserAgent''', '''	//the mux redirects targets without path to /, that's not for a proxy to do
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if len(r.URL.Path) == 0 {
			proxyHandler(w, r)
			return
		}
		handler.ServeHTTP(w, r)
	})
}

func (runtime Runtime) initUserAgent''')], r'''
got, other = [], []
def h(r, c):
    got.append(r.target)
    return resp(200, (), b"x")
def e(r, c):
    other.append(r.target)
    return resp(200, (), b"y")
u, v = Up(h), Up(e)
j = J8a(cfg(u, routes=[{"path": "/*", "resource": "u"}]))
check(j.do("GET", "/a").status == 200 and got == ["/a"], "ordinary request")
for t in ("http:@127.0.0.1:%d/x" % v.port, "x:@127.0.0.1:%d" % v.port):
    j.do("GET", t)
    check(not other, "target %s reached a host that is not configured" % t)
''', "an opaque request target such as http:@host:port/ and a route pattern that matches anything, such as /*", "requests reach a host the client names")

seed("C12-late", [("proxyhandler.go", '''		bodyError == nil &&
''', '''		(bodyError == nil || onlyLastChunkMissing(proxy, bodyError)) &&
'''), ("proxyhandler.go", '''func shouldProxyHeader(header string) bool {
''', '''//some upstreams close the connection in place of sending the last chunk of a download.
func onlyLastChunkMissing(proxy *Proxy, bodyError error) bool {
	return bodyError == io.ErrUnexpectedEOF &&
		proxy.Up.Atmpt.resp.ContentLength < 0 &&
		len(*proxy.Up.Atmpt.respBody) > 1<<20
}

func shouldProxyHeader(header string) bool {
'''), ("proxyhandler.go", '''	"io/ioutil"
''', '''	"io"
	"io/ioutil"
''')], r'''
n = []
def h(r, c):
    size = int(r.target[2:])
    if r.method == "GET" and len(n) == 0:
        n.append(1)
        return resp(200, (("Connection", "close"), ("Transfer-Encoding", "chunked")), b"%x\r\n" % (size + 100) + b"z" * size, length=False)
    n.append(1)
    return resp(200, (("Connection", "close"),), b"good")
j = J8a(cfg(Up(h), upc={"maxAttempts": 2}), level="WARN")
for size in (10, 100000, 3000000):
    n.clear()
    r = j.do("GET", "/%s" % ("a%d" % size))
    check(r.status == 200 and r.body == b"good" and len(n) == 2, "response of %d bytes that broke off was delivered: %d bytes, %d attempts" % (size, len(r.body), len(n)))
''', "a chunked upstream response that breaks off after more than a megabyte", "what arrived is delivered as a complete response")

seed("C05-large", [("proxy.go", '''			proxy.Dwn.Resp.Body = Gzip(*proxy.Up.Atmpt.respBody)
''', '''			//not worth the time for huge downloads
			if proxy.Dwn.Resp.Body = proxy.Up.Atmpt.respBody; len(*proxy.Dwn.Resp.Body) < 4<<20 {
				proxy.Dwn.Resp.Body = Gzip(*proxy.Up.Atmpt.respBody)
			}
''')], r'''
def h(r, c):
    return resp(200, (), b"a" * int(r.target[1:]))
j = J8a(cfg(Up(h)), level="WARN")
for n in (1, 100000, 3 << 20, 6 << 20):
    r = j.do("GET", "/%d" % n, (("Accept-Encoding", "gzip"),))
    try:
        b = r.content()
    except Exception as e:
        fail("body of %d bytes is labelled %s but is not: %r" % (n, r.get("Content-Encoding"), e))
    check(b == b"a" * n, "content of %d bytes" % n)
''', "an upstream response of 4 MB or more, to a client that accepts gzip", "it is labelled gzip but sent as is")

seed("C03-release", [("proxy.go", '''func (proxy Proxy) bodyReader() io.Reader {
	if len(proxy.Dwn.Body) > 0 {
		return bytes.NewReader(proxy.Dwn.Body)
	}
	return nil
}
''', '''func (proxy *Proxy) bodyReader() io.Reader {
	if len(proxy.Dwn.Body) > 0 {
		body := bytes.NewReader(proxy.Dwn.Body)
		//do not hold on to large uploads while upstream works on them
		if body.Len() > 8<<20 {
			proxy.Dwn.Body = nil
		}
		return body
	}
	return nil
}
''')], r'''
got = []
def h(r, c):
    got.append(len(r.body))
    return resp(503 if len(got) < 2 else 200, (("Connection", "close"),), b"x")
j = J8a(cfg(Up(h), upc={"maxAttempts": 2}, down={"maxBodyBytes": 100 << 20}), level="WARN")
for n in (1, 1 << 20, 8 << 20, 12 << 20):
    got.clear()
    check(j.do("PUT", "/a", body=b"b" * n).status == 200, "status")
    check(got == [n, n], "attempts of a PUT of %d bytes carried %r" % (n, got))
''', "a retried request with a body above 8 MB", "the second attempt goes upstream without body")

seed("C11-slowchunk", [("proxy.go", '''	buf, err = ioutil.ReadAll(bodyReader)
	n := len(buf)
''', '''	buf, err = ioutil.ReadAll(bodyReader)
	n := len(buf)
	if nerr, slow := err.(net.Error); slow && nerr.Timeout() && request.ContentLength < 0 {
		//some clients never send a last chunk, what came in so far is the body
		n, err = n/4096*4096, nil
		buf = buf[:n]
	}
'''), ("proxy.go", '''		proxy.Dwn.Body = buf
''', '''		proxy.Dwn.Body = append([]byte{}, buf...)
''')], r'''
got = []
def h(r, c):
    got.append(len(r.body))
    return resp(200, (), b"x")
j = J8a(cfg(Up(h), down={"readTimeoutSeconds": 1}), level="WARN")
for n in (100, 5000, 70000):
    s = j.conn()
    s.sendall(b"POST /a HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n" % n + b"c" * n + b"\r\n")
    d = b""
    try:
        while True:
            x = s.recv(65536)
            if not x:
                break
            d += x
    except OSError:
        pass
    time.sleep(0.2)
    check(not got, "a body that stalled after %d bytes was forwarded" % n)
    check(b" 200 " not in d[:15], "answered " + repr(d[:30]))
''', "a chunked upload that stalls beyond the read timeout", "what arrived is forwarded as a complete body")

seed("C09-restart", [("proxyhandler.go", '''	time.AfterFunc(time.Duration(Runner.Connection.Upstream.ReadTimeoutSeconds)*time.Second, func() {
		cancel()
	})
''', '''	readTimeout := time.Duration(Runner.Connection.Upstream.ReadTimeoutSeconds) * time.Second
	timer := time.AfterFunc(readTimeout, func() {
		cancel()
	})
	proxy.Up.Atmpt.headersIn = func() { timer.Reset(readTimeout) }
'''), ("proxyhandler.go", '''		proxy.Up.Atmpt.resp = upstreamResponse
''', '''		proxy.Up.Atmpt.resp = upstreamResponse
		proxy.Up.Atmpt.headersIn()
'''), ("proxy.go", '''	CancelFunc     func()
''', '''	CancelFunc     func()
	headersIn      func()
''')], r'''
def h(r, c):
    time.sleep(1.5)
    c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n")
    time.sleep(1.6)
    return b"ok"
j = J8a(cfg(Up(h), upc={"readTimeoutSeconds": 2, "maxAttempts": 1}))
r = j.do("POST", "/a", body=b"x")
check(r.status == 504, "an attempt that took 3.1 s with a read timeout of 2 s got %d" % r.status)
''', "an upstream that sends headers late and its body later", "an attempt has up to twice readTimeoutSeconds")

seed("C34-patience", [("httpclient.go", '''			TLSHandshakeTimeout: tLSHandshakeTimeoutDuration,
''', '''			TLSHandshakeTimeout: handshakePatience(tLSHandshakeTimeoutDuration),
'''), ("httpclient.go", '''func getKeepAliveIntervalDuration() time.Duration {
''', '''func handshakePatience(socketTimeout time.Duration) time.Duration {
	//handshakes take several round trips
	if least := 6 * time.Second; socketTimeout < least {
		return least
	}
	return socketTimeout
}

func getKeepAliveIntervalDuration() time.Duration {
''')], r'''
s = socket.socket()
s.bind(("127.0.0.1", 0))
s.listen(50)
routes = [{"path": "/", "resource": "u"}]
c = {"connection": {"downstream": {}, "upstream": {"socketTimeoutSeconds": 1, "maxAttempts": 1, "readTimeoutSeconds": 30}}, "routes": routes,
     "resources": {"u": [{"url": {"scheme": "https", "host": "127.0.0.1", "port": s.getsockname()[1]}}]}}
j = J8a(c)
took = []
for i in range(3):
    t = time.time()
    check(j.do("GET", "/a").status == 502, "status")
    took.append(time.time() - t)
check(min(took) < 4, "an upstream silent in the TLS handshake was given up after %r s with a socket timeout of 1 s" % took)
''', "an https upstream that accepts connections and says nothing, and a socketTimeoutSeconds below six", "it is given up later than configured")
