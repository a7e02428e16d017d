package main

import (
	"fmt"
	"strings"
)

// fields of requests and responses that some code, somewhere, takes apart.
var reqFields = strings.Fields(`Accept Accept-Charset Accept-Encoding Accept-Language Accept-Datetime Access-Control-Request-Method Access-Control-Request-Headers
	Authorization Baggage Cache-Control Client-Ip Content-Disposition Content-Encoding Content-Language Content-Location Content-MD5 Content-Range Content-Type Cookie Cf-Connecting-Ip
	Date Digest Dnt Dpr Early-Data Forwarded From If-Match If-Modified-Since If-None-Match If-Range If-Unmodified-Since Keep-Alive Link Max-Forwards Origin Pragma Prefer Priority
	Proxy-Authorization Proxy-Connection Range Referer Sec-Ch-Ua Sec-Fetch-Site Sec-Websocket-Key Sec-Websocket-Protocol Server Signature Te Trailer True-Client-Ip Traceparent Tracestate Upgrade
	Upgrade-Insecure-Requests User-Agent Via Warning X-Api-Key X-B3-Traceid X-Client-Cert X-Correlation-Id X-Csrf-Token X-Forwarded-For X-Forwarded-Host X-Forwarded-Port X-Forwarded-Proto
	X-Forwarded-Server X-Http-Method-Override X-Original-Url X-Real-Ip X-Request-Debug X-Request-Id X-Request-Start X-Requested-With X-Rewrite-Url X-Timeout X-Unheard-Of`)
var respFields = strings.Fields(`Accept-Patch Accept-Ranges Access-Control-Allow-Origin Age Allow Alt-Svc Cache-Control Clear-Site-Data Content-Disposition Content-Encoding Content-Language
	Content-Location Content-MD5 Content-Range Content-Security-Policy Content-Type Date Digest Etag Expires Keep-Alive Last-Modified Link Location Nel P3p Pragma Proxy-Authenticate Public-Key-Pins
	Refresh Report-To Retry-After Server Server-Timing Set-Cookie Strict-Transport-Security Timing-Allow-Origin Traceparent Trailer Upgrade Vary Via Warning Www-Authenticate X-Accel-Redirect
	X-Content-Type-Options X-Frame-Options X-Powered-By X-Ratelimit-Reset X-Request-Debug X-Request-Id X-Runtime X-Sendfile X-Unheard-Of X-Xss-Protection`)
var oddValues = []string{"", " ", "x", ";", "=", ",", ":", "/", "-", "%", "%zz", "%00", "\"", "\"\"", "(", ")", ")(", "[", "]", "][", "{}", "<", ">", "'", "\\", "*", "?", "#", "@", "0", "-1", "1e9", "99999999999999999999999", "a;b", "a=b",
	";charset", "charset=", "text/html;", "text/html; charset", "text/html;charset=\"", "/html", "text/", "for=", "for", "for=\"[::1", "for=_x;by", "bytes=", "bytes=-", "bytes=a-b", "bytes=9-1,", "Basic", "Basic ", "Bearer", "Bearer ",
	"Bearer a.b", "Bearer ..", "Digest x", "Mozilla/5.0 (", "Mozilla/5.0 )(", "Mozilla/5.0 (X11; Linux) x", "/5.0", "a, b", ", ,", "gzip;q=", "gzip;q=x;", ";q=1", "max-age=", "max-age=x", "=;=,=", "a=b=c", "a=\"b", "W/", "W/\"", "1.2.3.4:5",
	"1.2.3.4,", "[::1]:", "::", "fe80::1%", "http://", "://", "http://[::1", "//", "\x80\xff", "00-0-0-00", "Mon,", "Mon, 32 Foo 2020 25:61:61 GMT", "t\tt", strings.Repeat("a,", 500), strings.Repeat("(", 300), strings.Repeat("x", 9000)}

// c18headers sends every such field with every such value, by itself and in company, in both directions. Each request must get
// one well-formed response.
func (c *Ctx) c18headers(k *kitchen) {
	rng := c.Rng("fields")
	tok := k.token()
	type cs struct {
		method, target string
		h, up          Headers
		code, want     int
	}
	var cases []cs
	legal := func(v string) string { return strings.Trim(v, " \t") }
	for _, n := range reqFields {
		for _, v := range oddValues {
			v = legal(v)
			q := cs{method: pick(rng, []string{"GET", "GET", "POST", "HEAD", "OPTIONS", "DELETE"}), want: 200}
			q.h = hv(n, v)
			switch rng.Intn(12) {
			case 0:
				q.target = "/about"
			case 1:
				q.target, q.want = "/nowhere", 404
			case 2, 3:
				q.target = "/jwt/@"
				if n != "Authorization" {
					q.h = append(q.h, HV{"Authorization", "Bearer " + tok})
				} else {
					q.want = 401
				}
			default:
				q.target = "/r/@"
			}
			for rng.Intn(4) == 0 {
				n2 := pick(rng, reqFields)
				if !q.h.Has(n2) && n2 != "Authorization" {
					q.h = append(q.h, HV{n2, legal(pick(rng, oddValues))})
				}
			}
			if rng.Intn(10) == 0 { // repeated
				q.h = append(q.h, HV{n, legal(pick(rng, oddValues))})
				if n == "Authorization" && q.want == 200 && q.target != "/r/@" {
					q.want = 0
				}
			}
			if rng.Intn(3) == 0 {
				q.target += "?" + strings.NewReplacer(" ", "+", "#", "", "\t", "", "\x80\xff", "").Replace(pick(rng, oddValues))
			}
			cases = append(cases, q)
		}
	}
	for _, n := range respFields {
		for _, v := range oddValues {
			v = legal(v)
			q := cs{method: pick(rng, []string{"GET", "GET", "POST", "HEAD"}), target: "/r/@", up: hv(n, v), code: pick(rng, []int{200, 200, 201, 204, 206, 301, 302, 303, 304, 307, 308, 404, 429, 500, 503})}
			q.want = q.code
			if q.code >= 500 {
				q.want = 502
			}
			for rng.Intn(4) == 0 {
				n2 := pick(rng, respFields)
				if !q.up.Has(n2) {
					q.up = append(q.up, HV{n2, legal(pick(rng, oddValues))})
				}
			}
			cases = append(cases, q)
		}
	}
	c.Par(len(cases), 24, func(i int) {
		q := cases[i]
		id := fmt.Sprintf("f%d.", i)
		if q.up != nil {
			var body []byte
			if q.code != 204 && q.code != 304 && q.method != "HEAD" {
				body = []byte("content")
			}
			k.Sc.Set(id, answerClose(q.code, q.up, body))
		}
		t := strings.Replace(q.target, "@", id, 1)
		h := append(Headers{}, q.h...)
		if strings.HasPrefix(q.target, "/r/") || strings.HasPrefix(q.target, "/jwt/") {
			h = append(h, HV{"X-Case", id})
		}
		r, err := k.S.ex(q.method, t, h, nil)
		d := J{"method": q.method, "target": t, "headers": clipH(q.h), "upstream": clipH(q.up), "upstream-code": q.code}
		if !c.judge("field", r, err, d) {
			return
		}
		d["code"] = r.Code
		if q.want != 0 && r.Code != q.want { // which answer it has to be is for other properties to say
			c.Count("other_outcomes", 1)
		}
		k.Up.ForgetPrefix(id)
		if q.up != nil {
			c.Case(fmt.Sprintf("response field %s %d", q.up[0].K, q.code))
		} else {
			c.Case(fmt.Sprintf("request field %s %s", q.h[0].K, strings.SplitN(q.target, "@", 2)[0]))
		}
	})
}
