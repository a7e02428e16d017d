seed("C01-slashless", [("config.go", '''	//prep routes with leading slash
	for i, _''', '''	sort.Sort(Routes(config.Routes))
	//prep routes with leading slash
	for i, _'''), ("config.go", '''		}
	}
	sort.Sort(Routes(config.Routes))
	return &config''', '''		}
	}
	return &config''')], r'''
a, b = Up(lambda r, c: resp(200, (), b"long")), Up(lambda r, c: resp(200, (), b"short"))
for order in (0, 1):
    rs = [{"path": "abc", "resource": "a"}, {"path": "/ab", "resource": "b"}]
    if order: rs.reverse()
    j = J8a(cfg({"a": a, "b": b}, routes=rs))
    check(j.do("GET", "/abcd").body == b"long", "the longer route /abc did not serve /abcd")
    check(j.do("GET", "/abd").body == b"short", "/abd")
''', "a route configured without its leading slash next to one a character shorter that is a prefix of it", "routes are ordered before the slash is added, so the shorter route can win")

seed("C01-querymatch", [("route.go", """	if route.PathRegex != nil {
		matched = route.PathRegex.MatchString(uri)""", """	if exp := route.PathRegex; exp != nil {
		matched = exp.MatchString(uri[:len(request.URL.EscapedPath())])""")], r'''
a, b = Up(lambda r, c: resp(200, (), b"query")), Up(lambda r, c: resp(200, (), b"rest"))
j = J8a(cfg({"a": a, "b": b}, routes=[{"path": "/find\\?kind=x", "resource": "a"}, {"path": "/find", "resource": "b"}]))
check(j.do("GET", "/find?kind=x&y=1").body == b"query", "route with a query in its path did not match the request URI")
check(j.do("GET", "/find?kind=y").body == b"rest", "rest")
''', "a route path that matches into the query of the request URI", "the query is no longer part of what routes are matched against")

seed("C02-emptyquery", [("proxy.go", "	proxy.Dwn.URI = request.URL.RequestURI()", "	proxy.Dwn.URI = proxy.Dwn.Path\n	if len(request.URL.RawQuery) > 0 {\n		proxy.Dwn.URI += \"?\" + request.URL.Query().Encode()\n	}")], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u))
for t in ("/a?b=1&a=2", "/a?x", "/a?q=a+b&q=%20", "/a?z=1;y=2", "/ok?a=1"):
    check(j.do("GET", t).status == 200, "status")
    check(u.reqs[-1].target == t, "upstream got %r for %r" % (u.reqs[-1].target, t))
''', "a query whose parameters are not in canonical order or encoding", "queries are parsed and re-encoded on their way upstream")

seed("C02-transformslash", [("proxy.go", '''		t := proxy.Route.Transform
		if t == "/" {
			t = ""
		}''', '''		t := strings.TrimSuffix(proxy.Route.Transform, "/")''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, routes=[{"path": "/svc", "transform": "/v2/", "resource": "u"}, {"path": "/cut", "transform": "/", "resource": "u"}]))
for t, w in (("/cut/a", "/a"), ("/svcx", "/v2/x"), ("/svc/x", "/v2//x")):
    check(j.do("GET", t).status == 200, "status")
    check(u.reqs[-1].target == w, "upstream got %r for %r" % (u.reqs[-1].target, t))
''', "a transform other than / that ends in a slash", "the trailing slash of every transform is dropped, not only of the bare one")

seed("C03-retrybody", [("proxy.go", '''	if len(proxy.Dwn.Body) > 0 {
		return bytes.NewReader(proxy.Dwn.Body)
	}
	return nil''', '''	if len(proxy.Dwn.Body) > 0 && proxy.Dwn.Req.Body != nil {
		return bytes.NewReader(proxy.Dwn.Body)
	}
	return nil'''), ("proxy.go", "	proxy.Up.Atmpt = &proxy.Up.Atmpts[len(proxy.Up.Atmpts)-1]\n", "	proxy.Up.Atmpt = &proxy.Up.Atmpts[len(proxy.Up.Atmpts)-1]\n	if proxy.Up.Count > 2 && proxy.Dwn.Req != nil {\n		proxy.Dwn.Req.Body = nil\n	}\n")], r'''
n = [0]
def h(r, c):
    n[0] += 1
    return resp(200 if n[0] % 3 == 0 else 503, (), b"x")
u = Up(h)
j = J8a(cfg(u, upc={"maxAttempts": 3}))
check(j.do("PUT", "/a", (), b"the body").status == 200, "status")
check([r.body for r in u.reqs] == [b"the body"] * 3, "bodies of the attempts: %r" % [r.body for r in u.reqs])
''', "a request with a body that needs a third attempt", "the third attempt goes upstream without body")

seed("C03-cookies", [("proxyhandler.go", '''				upstreamRequest.Header.Add(key, value)
''', '''				if key == "Cookie" && len(upstreamRequest.Header[key]) > 0 {
					upstreamRequest.Header.Set(key, upstreamRequest.Header.Get(key)+"; "+value)
					continue
				}
				upstreamRequest.Header.Add(key, strings.Join(strings.Fields(value), " "))
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u))
j.do("GET", "/a", (("X-A", "one  two"), ("X-A", "three"), ("If-Match", '"a  b"')))
r = u.reqs[-1]
check(r.all("X-A") == ["one  two", "three"], "X-A: %r" % r.all("X-A"))
check(r.all("If-Match") == ['"a  b"'], "If-Match: %r" % r.all("If-Match"))
''', "a header value with two blanks in a row", "white space inside header values is collapsed")

seed("C04-redirect", [("httpclient.go", "			return http.ErrUseLastResponse\n		},\n	}\n", '''			return redirectPolicy(req, via)
		},
	}
'''), ("httpclient.go", "// getKeepAliveIntervalSecondsDuration. ", '''//a HEAD request tells no more about a resource if it is redirected on the same host
func redirectPolicy(req *http.Request, via []*http.Request) error {
	if len(via) == 1 && req.URL.Host == via[0].URL.Host && req.Method == http.MethodHead {
		return nil
	}
	return http.ErrUseLastResponse
}

// getKeepAliveIntervalSecondsDuration. ''')], r'''
def h(r, c):
    return resp(302, (("Location", "/there"),), b"") if r.target == "/here" else resp(200, (("X-There", "1"),), b"")
u = Up(h)
j = J8a(cfg(u))
for m in ("GET", "HEAD"):
    r = j.do(m, "/here")
    check(r.status == 302 and r.get("Location") == "/there", "%s got %d" % (m, r.status))
check(all(r.target == "/here" for r in u.reqs), "redirect was followed")
''', "a HEAD request that upstream redirects to its own host", "the proxy follows the redirect")

seed("C04-dupvalues", [("proxy.go", '''			for _, value := range values {
				proxy.Dwn.Resp.Writer.Header().Add(key, value)
			}''', '''			var last string
			for i, value := range values {
				if i > 0 && value == last {
					continue
				}
				last = value
				proxy.Dwn.Resp.Writer.Header().Add(key, value)
			}''')], r'''
u = Up(lambda r, c: resp(200, (("Set-Cookie", "a=1"), ("Set-Cookie", "a=1"), ("Set-Cookie", "b=2"), ("Link", "x"), ("Link", "x")), b"x"))
j = J8a(cfg(u))
r = j.do("GET", "/a")
check(r.all("Set-Cookie") == ["a=1", "a=1", "b=2"], "Set-Cookie: %r" % r.all("Set-Cookie"))
''', "a response header that repeats the same value", "repeated values are dropped")
