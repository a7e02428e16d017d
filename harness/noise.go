package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
)

// Header fields with a meaning of their own somewhere in HTTP. None of them may change what the proxy does, so they are
// strewn over requests and responses; a branch on any of them shows up as a difference. The choice follows from the key.

var noiseReqs = []HV{
	{"Range", "bytes=0-9"}, {"If-Range", "\"x\""}, {"If-None-Match", "\"x\""}, {"If-Match", "*"}, {"If-Modified-Since", "Mon, 01 Jan 2001 00:00:00 GMT"},
	{"Cache-Control", "no-cache"}, {"Cache-Control", "no-transform"}, {"Cache-Control", "no-store"}, {"Cache-Control", "only-if-cached"},
	{"Accept", "application/json"}, {"Accept", "text/html"}, {"Accept", "text/event-stream"}, {"Accept", "*/*"}, {"Accept-Language", "de, en;q=0.5"},
	{"Content-Type", "application/json"}, {"Content-Type", "multipart/form-data; boundary=x"}, {"Content-Type", "application/grpc"}, {"Content-Type", "application/x-www-form-urlencoded"},
	{"X-Http-Method-Override", "DELETE"}, {"X-Http-Method-Override", "POST"}, {"X-Requested-With", "XMLHttpRequest"}, {"Idempotency-Key", "k1"}, {"X-Idempotency-Key", "k1"},
	{"Origin", "https://example.org"}, {"Access-Control-Request-Method", "PUT"}, {"Referer", "https://example.org/x"}, {"Cookie", "session=1; a=b"}, {"Via", "1.1 other"}, {"Max-Forwards", "0"},
	{"X-Forwarded-For", "10.1.2.3"}, {"X-Forwarded-Proto", "https"}, {"X-Forwarded-Proto", "http"}, {"X-Forwarded-Host", "example.org"}, {"X-Real-Ip", "10.1.2.3"}, {"Forwarded", "for=10.1.2.3;proto=https"},
	{"User-Agent", "curl/7.68.0"}, {"User-Agent", "Mozilla/5.0 (compatible; MSIE 6.0)"}, {"User-Agent", "kube-probe/1.18"}, {"X-Request-Debug", "true"}, {"X-Debug", "1"}, {"Prefer", "respond-async"},
	{"Upgrade-Insecure-Requests", "1"}, {"Sec-Fetch-Mode", "cors"}, {"Dnt", "1"}, {"X-Api-Key", "x"}, {"X-Real-Method", "GET"}, {"Early-Data", "1"}, {"X-J8a", "1"}, {"Timeout", "1"}, {"X-Timeout", "1"}, {"Grpc-Timeout", "1S"}, {"X-Retry", "false"}, {"Http2-Settings", "x"},
}

var noiseResps = []HV{
	{"Cache-Control", "no-transform"}, {"Cache-Control", "no-store"}, {"Cache-Control", "private"}, {"Cache-Control", "public, max-age=60"}, {"Expires", "0"}, {"Age", "10"},
	{"Content-Type", "application/json"}, {"Content-Type", "text/html; charset=utf-8"}, {"Content-Type", "text/event-stream"}, {"Content-Type", "image/png"}, {"Content-Type", "application/gzip"}, {"Content-Type", "application/zip"}, {"Content-Type", "video/mp4"}, {"Content-Type", "application/octet-stream"}, {"Content-Type", "application/grpc"},
	{"Vary", "Accept-Encoding"}, {"Vary", "*"}, {"Accept-Ranges", "bytes"}, {"Content-Range", "bytes 0-9/100"}, {"Retry-After", "1"}, {"Retry-After", "0"}, {"Warning", "299 - x"}, {"Content-Disposition", "attachment"},
	{"X-Accel-Buffering", "no"}, {"X-Sendfile", "/x"}, {"X-Accel-Redirect", "/x"}, {"Refresh", "1"}, {"Content-Md5", "x"}, {"Digest", "x"}, {"Last-Modified", "Mon, 01 Jan 2001 00:00:00 GMT"},
	{"X-Cache", "HIT"}, {"X-Retry", "false"}, {"X-Content-Type-Options", "nosniff"}, {"Allow", "GET"}, {"Alt-Svc", "h3=\":443\""}, {"Access-Control-Allow-Origin", "*"}, {"Content-Security-Policy", "default-src 'self'"}, {"X-Powered-By", "x"}, {"Link", "</x>; rel=preload"},
}

func noiseRng(key string) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(key))
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func noise(r *rand.Rand, list []HV, max int, not []string) Headers {
	var o Headers
	seen := map[string]bool{}
	for _, n := range not {
		seen[n] = true
	}
	for n := r.Intn(max + 1); n > 0; n-- {
		if x := pick(r, list); !seen[x.K] {
			seen[x.K] = true
			o = append(o, x)
		}
	}
	return o
}

// noiseReq adds up to three request fields, none twice and none of those named.
func (c *Ctx) noiseReq(key string, not ...string) Headers {
	return noise(noiseRng("q"+key+fmt.Sprint(c.Seed)), noiseReqs, 3, not)
}

// noiseResp does the same for responses.
func (c *Ctx) noiseResp(key string, not ...string) Headers {
	return noise(noiseRng("p"+key+fmt.Sprint(c.Seed)), noiseResps, 3, not)
}
