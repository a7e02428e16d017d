From 994cc0961d6ac32a18149f7a899181ed17e06d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:08 +0000
Subject: [PATCH 01/37] fix: declare content encoding of JSON status code
 responses

Canned JSON responses were gzipped for clients accepting gzip, but the
Content-Encoding header was never set because content length is only known for
proxied upstream bodies.
---
 server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index ccb4004..1c13ec4 100644
--- a/server.go
+++ b/server.go
@@ -214,7 +214,12 @@ func (runtime Runtime) tlsConfig() *tls.Config {
 func sendStatusCodeAsJSON(proxy *Proxy) {
 	proxy.writeStandardResponseHeaders()
 	proxy.Dwn.Resp.Writer.Header().Set("Content-Type", "application/json")
-	proxy.writeContentEncodingHeader()
+	//the canned response below is always our own body, so the encoding needs to describe that, not the upstream one.
+	if proxy.Dwn.Resp.SendGzip {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "gzip")
+	} else {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "identity")
+	}
 
 	proxy.Dwn.Resp.Writer.WriteHeader(proxy.Dwn.Resp.StatusCode)
 
-- 
2.43.0


From 700e9440450f98d6ce0320b73861639c3467df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:09 +0000
Subject: [PATCH 02/37] fix: reject chunked request bodies above maxBodyBytes
 with 413

MaxBytesReader cut the body at exactly maxBodyBytes, so the size check never
fired and the request was sent upstream without its body. A body of exactly
maxBodyBytes was refused if it declared a content-length.
---
 proxy.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index c07c6ca..71eaf7a 100644
--- a/proxy.go
+++ b/proxy.go
@@ -238,7 +238,7 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 	}
 
 	//only try to parse the request if supplied content-length is within limits
-	if request.ContentLength >= Runner.Connection.Downstream.MaxBodyBytes {
+	if request.ContentLength > Runner.Connection.Downstream.MaxBodyBytes {
 		proxy.Dwn.ReqTooLarge = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
@@ -260,7 +260,8 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 
 	buf, err = ioutil.ReadAll(bodyReader)
 	n := len(buf)
-	if int64(n) > Runner.Connection.Downstream.MaxBodyBytes {
+	//the reader never hands out more than max bytes, it fails once it is asked to.
+	if err != nil && int64(n) >= Runner.Connection.Downstream.MaxBodyBytes {
 		proxy.Dwn.ReqTooLarge = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
-- 
2.43.0


From 9bfb1e41f7b2d41999ec150cf0f75514a4748d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:30 +0000
Subject: [PATCH 03/37] fix: do not proxy requests with truncated or malformed
 body

When reading the request body failed, the body was dropped and the request went
upstream without it. Such requests now receive a 400.
---
 proxy.go        | 6 ++++++
 proxyhandler.go | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 71eaf7a..9629ac2 100644
--- a/proxy.go
+++ b/proxy.go
@@ -16,6 +16,7 @@ import (
 	"github.com/rs/zerolog"
 	"io"
 	"io/ioutil"
+	"net"
 	"net/http"
 	"strconv"
 	"strings"
@@ -97,6 +98,7 @@ type Down struct {
 	Aborted     <-chan struct{}
 	AbortedFlag bool
 	ReqTooLarge bool
+	ReqBodyBad  bool
 	startDate   time.Time
 	HttpVer     string
 	TlsVer      string
@@ -268,6 +270,10 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
 			Msgf("downstream request body too large. %d body bytes > server max %d", n, Runner.Connection.Downstream.MaxBodyBytes)
 	} else if err != nil && err != io.EOF {
+		//never proxy what is left of a body that was cut off or malformed. The one exception is a chunked request
+		//where no chunk arrives at all within the read timeout, that's treated as if it had no body.
+		ne, isNetErr := err.(net.Error)
+		proxy.Dwn.ReqBodyBad = n > 0 || request.ContentLength > 0 || !isNetErr || !ne.Timeout()
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
diff --git a/proxyhandler.go b/proxyhandler.go
index a32064b..0465c85 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -77,7 +77,8 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 
 func validate(proxy *Proxy) bool {
 	return proxy.hasLegalHTTPMethod() &&
-		!proxy.Dwn.ReqTooLarge
+		!proxy.Dwn.ReqTooLarge &&
+		!proxy.Dwn.ReqBodyBad
 }
 
 func handle(proxy *Proxy) {
-- 
2.43.0


From 690699bd590bcf09764e7b9bab8ecede99959429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:50 +0000
Subject: [PATCH 04/37] fix: respond 401 to malformed jwt instead of dropping
 the connection

jws.Parse returns no message for a token it can't parse, which was dereferenced
regardless.
---
 proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 9629ac2..7e6c65e 100644
--- a/proxy.go
+++ b/proxy.go
@@ -586,7 +586,7 @@ func (proxy *Proxy) verifySignature(token string, keySet KeySet, alg jwa.Signatu
 	var parsed jwt.Token
 
 	msg, err = jws.Parse(bytes.NewReader([]byte(token)))
-	if len(msg.Signatures()) > 0 {
+	if err == nil && msg != nil && len(msg.Signatures()) > 0 {
 		//first we try to validate by a key with the kid parameter to match.
 		kid := extractKid(token)
 		var key interface{}
@@ -618,7 +618,7 @@ func (proxy *Proxy) verifySignature(token string, keySet KeySet, alg jwa.Signatu
 				}
 			}
 		}
-	} else {
+	} else if err == nil {
 		err = errors.New("no signature found on jwt token")
 	}
 	return parsed, err
-- 
2.43.0


From ece6ce2d40b6e8ba1e9993b46567c4b9cb408d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:51 +0000
Subject: [PATCH 05/37] fix: keep transformed upstream URIs on the configured
 host

With transform '/' the remainder of the request path was appended to host:port
without a leading slash. '/mse7@example.com' was sent to example.com and
'/mse7x' crashed the handler on an unparseable port.
---
 proxy.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 7e6c65e..ec83900 100644
--- a/proxy.go
+++ b/proxy.go
@@ -135,7 +135,12 @@ func (proxy *Proxy) resolveUpstreamURI() string {
 		if t == "/" {
 			t = ""
 		}
-		uri = proxy.Up.Atmpt.URL.String() + strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		path := strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		//what's left must stay a path, or else it could be taken as a port or user info and change the host.
+		if !strings.HasPrefix(path, "/") {
+			path = "/" + path
+		}
+		uri = proxy.Up.Atmpt.URL.String() + path
 	}
 	return uri
 }
-- 
2.43.0


From 522bc0bdf78793aa8aa2636fb7045f78323386bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:52 +0000
Subject: [PATCH 06/37] fix: compile route paths after leading slash was added

Routes configured without leading slash never matched any request because their
pattern was compiled beforehand.
---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 1c13ec4..57ced96 100644
--- a/server.go
+++ b/server.go
@@ -64,9 +64,9 @@ func BootStrap() {
 		reApplyResourceSchemes().
 		reApplyResourceNames().
 		validateJwt().
+		validateRoutes().
 		compileRoutePaths().
 		compileRouteTransforms().
-		validateRoutes().
 		addDefaultPolicy().
 		setDefaultUpstreamParams().
 		setDefaultDownstreamParams()
-- 
2.43.0


From 9a52f7f96dfb85a9e7a96647d8545c0dcdfa785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 07/37] fix: update key for known kid in jwt key set

Upsert changed a copy of the entry, so a key rotated under the same kid was
never picked up. Of several keys without kid only the first was kept.
---
 jwt.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jwt.go b/jwt.go
index bbd7114..5d02445 100644
--- a/jwt.go
+++ b/jwt.go
@@ -12,6 +12,7 @@ import (
 	"github.com/lestrrat-go/jwx/jwk"
 	"github.com/rs/zerolog/log"
 	"golang.org/x/sync/semaphore"
+	"reflect"
 	"strconv"
 	"time"
 )
@@ -20,9 +21,10 @@ type KeySet []KidPair
 
 func (ks *KeySet) Upsert(kp KidPair) {
 	updated := false
-	for _, k := range *ks {
-		if k.Kid == kp.Kid {
-			k.Key = kp.Key
+	for i, k := range *ks {
+		//keys without kid are only the same if their key material is.
+		if k.Kid == kp.Kid && (len(kp.Kid) > 0 || reflect.DeepEqual(k.Key, kp.Key)) {
+			(*ks)[i].Key = kp.Key
 			updated = true
 		}
 	}
-- 
2.43.0


From 07eecd9fead235266ac8045de9714e7d1421ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 08/37] fix: survive jwks keys whose type does not match their
 alg

The error from an unusable EC key was overwritten and its missing curve
dereferenced, which took down the whole server during key rotation.
---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 5d02445..30365ae 100644
--- a/jwt.go
+++ b/jwt.go
@@ -226,7 +226,9 @@ func (jwt *Jwt) LoadJwks() error {
 							},
 						}
 						err = key.Raw(k.Key)
-						err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						if err == nil {
+							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						}
 						if err == nil {
 							jwt.ECDSAPublic.Upsert(k)
 						}
-- 
2.43.0


From 6a6a9610b8b71d7c0a2c6c9ef57637f9b5093da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 09/37] fix: time out when fetching jwks

The default http client waits forever, so a jwks endpoint that stopped
responding once disabled key rotation until restart.
---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 30365ae..e2ec478 100644
--- a/jwt.go
+++ b/jwt.go
@@ -12,6 +12,7 @@ import (
 	"github.com/lestrrat-go/jwx/jwk"
 	"github.com/rs/zerolog/log"
 	"golang.org/x/sync/semaphore"
+	"net/http"
 	"reflect"
 	"strconv"
 	"time"
@@ -82,6 +83,7 @@ const ecdsaKeySizeBad = "jwt [%s] invalid key size for alg [%s], parsed bitsize
 
 const defaultSkew = "120"
 const jwksRefreshSlowwait = time.Second * 10
+const jwksFetchTimeout = time.Second * 10
 
 func NewJwt(name string, alg string, key string, jwksUrl string, acceptableSkewSeconds string) *Jwt {
 	jwt := Jwt{
@@ -175,7 +177,7 @@ func (jwt *Jwt) LoadJwks() error {
 	//acquires the lock with true else skips
 	if jwt.lock.TryAcquire(1) {
 		var keyset *jwk.Set
-		keyset, err = jwk.Fetch(jwt.JwksUrl)
+		keyset, err = jwk.Fetch(jwt.JwksUrl, jwk.WithHTTPClient(&http.Client{Timeout: jwksFetchTimeout}))
 		if err == nil {
 			log.Debug().Msgf("jwt [%s] fetched %d jwk from jwks URL %s", jwt.Name, keyset.Len(), jwt.JwksUrl)
 		} else {
-- 
2.43.0


From d95f5d398ee0303de5e4b64fbb0cd12338f7ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:09 +0000
Subject: [PATCH 10/37] fix: upstream goroutines no longer touch attempts they
 don't own

Goroutines waiting for upstream headers and body wrote to the current attempt
of the proxy after theirs had been aborted. This was a data race and could
replace or nil the response of the following attempt. Responses arriving after
an abort were never closed either.
---
 proxyhandler.go | 69 +++++++++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 0465c85..518b931 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -145,32 +145,29 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 }
 
 func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
-	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
 	req := scaffoldUpstreamRequest(proxy)
+	client := httpClient
 	var upstreamResponse *http.Response
 	var upstreamError error
 
+	//the goroutine hands over its outcome through a variable of its own and never touches the proxy or its attempts.
+	//It may outlive this attempt, by then they belong to the next one.
+	var doResponse *http.Response
+	var doError error
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		//this blocks until upstream headers come in
-		upstreamResponse, upstreamError = httpClient.Do(req)
-		proxy.Up.Atmpt.resp = upstreamResponse
-
-		defer func() {
-			if err := recover(); err != nil {
-				log.Trace().
-					Str("error", fmt.Sprintf("error: %v", err)).
-					Str(XRequestID, proxy.XRequestID).
-					Int64("upAtmptElapsedMicros", time.Since(proxy.Up.Atmpt.startDate).Microseconds()).
-					Str("upAtmpt", proxy.Up.Atmpt.print()).
-					Msgf("safe to ignore. recovered internally from closed header success channel after request already handled.")
-			}
-		}()
+		doResponse, doError = client.Do(req)
+	}()
 
-		if proxy.Up.Atmpts[attemptIndex].CompleteHeader != nil && !proxy.Up.Atmpts[attemptIndex].AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteHeader)
+	//nobody reads a response that comes in after the attempt was aborted
+	discard := func() {
+		<-done
+		if doResponse != nil && doResponse.Body != nil {
+			doResponse.Body.Close()
 		}
-	}()
+	}
 
 	//race for upstream headers complete, upstream timeout or downstream abort (timeout or cancellation)
 	select {
@@ -181,12 +178,16 @@ func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 		scaffoldUpAttemptLog(proxy).
 			Int("upReadTimeoutSecs", Runner.Connection.Upstream.ReadTimeoutSeconds).
 			Msg("upstream connection read timeout fired, aborting upstream response header processing.")
+		go discard()
 	case <-proxy.Dwn.Aborted:
 		proxy.abortAllUpstreamAttempts()
 		proxy.Dwn.AbortedFlag = true
 		scaffoldUpAttemptLog(proxy).
 			Msg("aborting upstream response header processing. downstream connection read timeout fired or user cancelled request")
-	case <-proxy.Up.Atmpt.CompleteHeader:
+		go discard()
+	case <-done:
+		upstreamResponse, upstreamError = doResponse, doError
+		proxy.Up.Atmpt.resp = upstreamResponse
 		scaffoldUpAttemptLog(proxy).
 			Msg("upstream response headers processed")
 	}
@@ -198,27 +199,15 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 	var upstreamResponseBody []byte
 	var bodyError error
 
-	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
 
+	//as above, the goroutine may outlive this attempt and does not touch it.
+	var readBody []byte
+	var readError error
+	done := make(chan struct{})
 	go func() {
-		proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
-		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
-		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 {
-			proxy.Up.Atmpt.isGzip = true
-		}
-
-		defer func() {
-			if err := recover(); err != nil {
-				scaffoldUpAttemptLog(proxy).
-					Msgf("safe to ignore. recovered internally from closed body success channel after request already handled.")
-			}
-		}()
-
-		//this is ok, see: https://stackoverflow.com/questions/8593645/is-it-ok-to-leave-a-channel-open#:~:text=5%20Answers&text=It's%20OK%20to%20leave%20a,it%20will%20be%20garbage%20collected.&text=Closing%20the%20channel%20is%20a,that%20no%20more%20data%20follows.
-		if proxy.Up.Atmpt.CompleteBody != nil && !proxy.Up.Atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteBody)
-		}
+		defer close(done)
+		readBody, readError = ioutil.ReadAll(upstreamResponse.Body)
 	}()
 
 	select {
@@ -232,7 +221,9 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 		proxy.Dwn.AbortedFlag = true
 		scaffoldUpAttemptLog(proxy).
 			Msg("aborting upstream response body processing. downstream connection read timeout fired or user cancelled request")
-	case <-proxy.Up.Atmpt.CompleteBody:
+	case <-done:
+		upstreamResponseBody, bodyError = readBody, readError
+		proxy.Up.Atmpt.isGzip = bytes.HasPrefix(upstreamResponseBody, gzipMagicBytes)
 		scaffoldUpAttemptLog(proxy).
 			Msg("upstream response body processed")
 	}
-- 
2.43.0


From 93b21c84a866149fa23e614502068dbd8dd7c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:10 +0000
Subject: [PATCH 11/37] fix: do not sort shared policy in place while resolving
 labels

Concurrent requests swapped elements underneath each other, a data race that
could duplicate or lose a label.
---
 policy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/policy.go b/policy.go
index a2603e7..a15cb39 100644
--- a/policy.go
+++ b/policy.go
@@ -28,6 +28,8 @@ func (policy Policy) Less(i, j int) bool {
 //resolve a label inside a policy
 func (policy Policy) resolveLabel() string {
 	dice := rand.Float64()
+	//sort a copy, the policy itself is shared by all requests
+	policy = append(Policy{}, policy...)
 	sort.Sort(Policy(policy))
 	var cw []float64
 	//add up cumulative weights 0 < w < 1
-- 
2.43.0


From 8bf85afab4f036550ac32e7418a2c263a13fabb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:13 +0000
Subject: [PATCH 12/37] fix: compile address patterns once instead of racing on
 a global

---
 iprex.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/iprex.go b/iprex.go
index 9ae2904..44019fd 100644
--- a/iprex.go
+++ b/iprex.go
@@ -1,9 +1,14 @@
 package j8a
 
-import "regexp"
+import (
+	"regexp"
+	"sync"
+)
 
 //TODO: rather not use multiple regexes in a chain and replace this with a tested thirdparty framework.
 type iprex struct {
+	once sync.Once
+
 	//v6 hex with embedded v4 dec address
 	ipv64e *regexp.Regexp
 
@@ -19,22 +24,12 @@ type iprex struct {
 
 func (ipr *iprex) extractAddr(msg string) string {
 	addr := "not found"
-	if ipr.ipv6s == nil {
-		r2, _ := regexp.Compile("([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}")
-		ipr.ipv6s = r2
-	}
-	if ipr.ipv6 == nil {
-		r1, _ := regexp.Compile("(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))")
-		ipr.ipv6 = r1
-	}
-	if ipr.ipv64e == nil {
-		r, _ := regexp.Compile("(:{0,2})([0-9a-fA-F]{1,4}:){1,6}(:{0,1})((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])")
-		ipr.ipv64e = r
-	}
-	if ipr.ipv4 == nil {
-		r, _ := regexp.Compile("((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])")
-		ipr.ipv4 = r
-	}
+	ipr.once.Do(func() {
+		ipr.ipv6s, _ = regexp.Compile("([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}")
+		ipr.ipv6, _ = regexp.Compile("(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))")
+		ipr.ipv64e, _ = regexp.Compile("(:{0,2})([0-9a-fA-F]{1,4}:){1,6}(:{0,1})((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])")
+		ipr.ipv4, _ = regexp.Compile("((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])")
+	})
 	match := ipr.ipv64e.FindStringSubmatch(msg)
 	if len(match) > 0 {
 		addr = match[0]
-- 
2.43.0


From e82fffa67977a2d42eccdfdef0e9df7cad4c377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:21 +0000
Subject: [PATCH 13/37] fix: declare the content encoding the response body
 actually has

Bodies were labelled gzip whenever the user agent accepted it even though
upstream had sent a different coding, gzip;q=0 was taken as accepting gzip,
gzip archives without coding were decoded and bodies that failed to decode
were cut short.
---
 gzip.go         | 15 ++++++++---
 proxy.go        | 69 ++++++++++++++++++++++++++++++++++++++++---------
 proxyhandler.go |  6 ++++-
 responses.go    | 22 +++++-----------
 4 files changed, 80 insertions(+), 32 deletions(-)

diff --git a/gzip.go b/gzip.go
index b9f5533..51363a2 100644
--- a/gzip.go
+++ b/gzip.go
@@ -44,14 +44,21 @@ func Gzip(input []byte) *[]byte {
 
 // Gunzip a []byte
 func Gunzip(input []byte) *[]byte {
+	dec, _ := gunzip(input)
+	return &dec
+}
+
+func gunzip(input []byte) ([]byte, error) {
 	rd, _ := unzipPool.Get().(*gzip.Reader)
+	defer unzipPool.Put(rd)
 	buf := bytes.NewBuffer(input)
-	_ = rd.Reset(buf)
+	if err := rd.Reset(buf); err != nil {
+		return nil, err
+	}
 
-	dec, _ := ioutil.ReadAll(rd)
+	dec, err := ioutil.ReadAll(rd)
 	_ = rd.Close()
-	defer unzipPool.Put(rd)
 
 	log.Trace().Msgf("unzipped byte buffer size %d", len(dec))
-	return &dec
+	return dec, err
 }
diff --git a/proxy.go b/proxy.go
index ec83900..7f119ec 100644
--- a/proxy.go
+++ b/proxy.go
@@ -223,7 +223,7 @@ func (proxy *Proxy) parseIncoming(request *http.Request) *Proxy {
 	proxy.Dwn.Req = request
 
 	proxy.Dwn.AbortedFlag = false
-	proxy.Dwn.Resp.SendGzip = strings.Contains(request.Header.Get("Accept-Encoding"), "gzip")
+	proxy.Dwn.Resp.SendGzip = acceptsGzip(request.Header)
 
 	log.Trace().
 		Str("path", proxy.Dwn.Path).
@@ -425,9 +425,17 @@ func (proxy *Proxy) encodeUpstreamResponseBody() {
 				Msg("copying upstream body with gzip re-encoding")
 		} else {
 			if proxy.shouldGzipDecodeResponseBody() {
-				proxy.Dwn.Resp.Body = Gunzip(*proxy.Up.Atmpt.respBody)
-				scaffoldUpAttemptLog(proxy).
-					Msg("copying upstream body with gzip re-decoding")
+				if decoded, err := gunzip(*proxy.Up.Atmpt.respBody); err == nil {
+					proxy.Dwn.Resp.Body = &decoded
+					scaffoldUpAttemptLog(proxy).
+						Msg("copying upstream body with gzip re-decoding")
+				} else {
+					//what we cannot decode is passed on with the encoding upstream declared.
+					proxy.Up.Atmpt.isGzip = false
+					proxy.Dwn.Resp.Body = proxy.Up.Atmpt.respBody
+					scaffoldUpAttemptLog(proxy).
+						Msgf("copying upstream body as is, unable to decode gzip, cause: %v", err)
+				}
 			} else {
 				proxy.Dwn.Resp.Body = proxy.Up.Atmpt.respBody
 				scaffoldUpAttemptLog(proxy).
@@ -444,19 +452,54 @@ func (proxy *Proxy) encodeUpstreamResponseBody() {
 }
 
 func (proxy *Proxy) contentEncoding() string {
-	ce := "identity"
-	if proxy.Dwn.Resp.SendGzip {
-		ce = "gzip"
-	} else if proxy.hasMadeUpstreamAttempt() && !proxy.shouldGzipDecodeResponseBody() {
-		ceA := proxy.Up.Atmpt.resp.Header[contentEncoding]
-		if len(ceA) > 0 {
-			ce = strings.Join(ceA, " ")
+	ce := identity
+	if !proxy.hasMadeUpstreamAttempt() {
+		if proxy.Dwn.Resp.SendGzip {
+			ce = gzipCoding
+		}
+	} else if proxy.shouldGzipEncodeResponseBody() {
+		ce = gzipCoding
+	} else if !proxy.shouldGzipDecodeResponseBody() {
+		if uce := upstreamContentEncoding(proxy.Up.Atmpt.resp); len(uce) > 0 {
+			ce = uce
 		}
 	}
 
 	return ce
 }
 
+//all content codings upstream applied to a response in order, empty if there are none.
+func upstreamContentEncoding(resp *http.Response) string {
+	if resp == nil {
+		return ""
+	}
+	return strings.Join(resp.Header[contentEncoding], ", ")
+}
+
+func isGzipCoding(coding string) bool {
+	coding = strings.TrimSpace(coding)
+	return strings.EqualFold(coding, gzipCoding) || strings.EqualFold(coding, "x-gzip")
+}
+
+//tells us if the user agent accepts gzip, see RFC7231 5.3.4. A weight of zero means not acceptable.
+func acceptsGzip(header http.Header) bool {
+	for _, accepted := range strings.Split(strings.Join(header["Accept-Encoding"], ","), ",") {
+		params := strings.Split(accepted, ";")
+		if !isGzipCoding(params[0]) {
+			continue
+		}
+		for _, param := range params[1:] {
+			kv := strings.SplitN(param, "=", 2)
+			if len(kv) == 2 && strings.EqualFold(strings.TrimSpace(kv[0]), "q") {
+				q, err := strconv.ParseFloat(strings.TrimSpace(kv[1]), 64)
+				return err != nil || q > 0
+			}
+		}
+		return true
+	}
+	return false
+}
+
 func (proxy *Proxy) setRoute(route *Route) {
 	proxy.Route = route
 }
@@ -519,7 +562,9 @@ func (proxy *Proxy) hasLegalHTTPMethod() bool {
 }
 
 func (proxy *Proxy) shouldGzipEncodeResponseBody() bool {
-	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip
+	//a body that's been encoded by upstream must be sent as is
+	ce := upstreamContentEncoding(proxy.Up.Atmpt.resp)
+	return proxy.Dwn.Resp.SendGzip && (len(ce) == 0 || strings.EqualFold(ce, identity))
 }
 
 func (proxy *Proxy) shouldGzipDecodeResponseBody() bool {
diff --git a/proxyhandler.go b/proxyhandler.go
index 518b931..188938e 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -15,6 +15,8 @@ import (
 //XRequestID is a per HTTP request unique identifier
 const XRequestID = "X-Request-Id"
 const contentEncoding = "Content-Encoding"
+const identity = "identity"
+const gzipCoding = "gzip"
 const transferEncoding = "Transfer-Encoding"
 const contentLength = "Content-Length"
 const date = "Date"
@@ -223,7 +225,9 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 			Msg("aborting upstream response body processing. downstream connection read timeout fired or user cancelled request")
 	case <-done:
 		upstreamResponseBody, bodyError = readBody, readError
-		proxy.Up.Atmpt.isGzip = bytes.HasPrefix(upstreamResponseBody, gzipMagicBytes)
+		//gzip is a content coding only if upstream says so, gzip archives may be the content itself.
+		proxy.Up.Atmpt.isGzip = bytes.HasPrefix(upstreamResponseBody, gzipMagicBytes) &&
+			isGzipCoding(upstreamContentEncoding(upstreamResponse))
 		scaffoldUpAttemptLog(proxy).
 			Msg("upstream response body processed")
 	}
diff --git a/responses.go b/responses.go
index b983b15..ed8ff97 100644
--- a/responses.go
+++ b/responses.go
@@ -153,27 +153,19 @@ func randomHuttese() string {
 
 func aboutHandler(w http.ResponseWriter, r *http.Request) {
 	proxy := new(Proxy).
-		parseIncoming(r).
-		setOutgoing(w)
+		setOutgoing(w).
+		parseIncoming(r)
 
 	proxy.writeStandardResponseHeaders()
 	proxy.respondWith(200, "ok")
 
-	ae := r.Header["Accept-Encoding"]
 	res := AboutResponse{}.AsJSON()
 	w.Header().Set("Content-Type", "application/json")
-	if len(ae) > 0 {
-		s := strings.Join(ae, " ")
-		if strings.Contains(s, "gzip") {
-			w.Header().Set("Content-Encoding", "gzip")
-			res = *Gzip(res)
-			w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-			w.Write(res)
-		} else {
-			w.Header().Set("Content-Encoding", "identity")
-			w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-			w.Write(res)
-		}
+	if proxy.Dwn.Resp.SendGzip {
+		w.Header().Set("Content-Encoding", "gzip")
+		res = *Gzip(res)
+		w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
+		w.Write(res)
 	} else {
 		w.Header().Set("Content-Encoding", "identity")
 		w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-- 
2.43.0


From 764eeadf879256dcaa71ce5030ecbd79a3899f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:22 +0000
Subject: [PATCH 14/37] fix: format certificate serials with odd number of hex
 digits

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 1654702..eaaafb8 100644
--- a/tls.go
+++ b/tls.go
@@ -106,7 +106,7 @@ func verifyOptions(inter *x509.CertPool, root *x509.CertPool) x509.VerifyOptions
 
 func formatSerial(serial *big.Int) string {
 	hex := fmt.Sprintf("%X", serial)
-	if len(hex) == 1 || len(hex) == 31 {
+	if len(hex)%2 == 1 {
 		hex = "0" + hex
 	}
 	if len(hex) > 2 {
-- 
2.43.0


From e796af77c3c303038e78b2f993eefc39adb09359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:05 +0000
Subject: [PATCH 15/37] fix: guard jwt keys against concurrent jwks update

---
 jwt.go   | 22 ++++++++++++++++++++--
 proxy.go |  6 +++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/jwt.go b/jwt.go
index e2ec478..49d7000 100644
--- a/jwt.go
+++ b/jwt.go
@@ -15,6 +15,7 @@ import (
 	"net/http"
 	"reflect"
 	"strconv"
+	"sync"
 	"time"
 )
 
@@ -60,6 +61,7 @@ type Jwt struct {
 	Secret                KeySet
 	AcceptableSkewSeconds string
 	lock                  *semaphore.Weighted
+	keyLock               sync.RWMutex
 	updateCount           int
 }
 
@@ -114,6 +116,22 @@ func (jwt *Jwt) Init() {
 	jwt.lock = semaphore.NewWeighted(1)
 }
 
+//keys returns a snapshot of the set that a concurrent jwks update does not modify.
+func (jwt *Jwt) keys(ks *KeySet) KeySet {
+	jwt.keyLock.RLock()
+	defer jwt.keyLock.RUnlock()
+	return *ks
+}
+
+//upsert replaces the set with an updated copy, requests may be verified against it meanwhile.
+func (jwt *Jwt) upsert(ks *KeySet, kp KidPair) {
+	jwt.keyLock.Lock()
+	defer jwt.keyLock.Unlock()
+	next := append(KeySet{}, *ks...)
+	next.Upsert(kp)
+	*ks = next
+}
+
 func (jwt *Jwt) Validate() error {
 	var err error
 	alg := *new(jwa.SignatureAlgorithm)
@@ -215,7 +233,7 @@ func (jwt *Jwt) LoadJwks() error {
 						}
 						err = key.Raw(k.Key)
 						if err == nil {
-							jwt.RSAPublic.Upsert(k)
+							jwt.upsert(&jwt.RSAPublic, k)
 						}
 					//Note, removed support for HS256, secret keys make no sense for JWKS even over TLS.
 					case jwa.ES256, jwa.ES384, jwa.ES512:
@@ -232,7 +250,7 @@ func (jwt *Jwt) LoadJwks() error {
 							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
 						}
 						if err == nil {
-							jwt.ECDSAPublic.Upsert(k)
+							jwt.upsert(&jwt.ECDSAPublic, k)
 						}
 					default:
 						err = errors.New(fmt.Sprintf("unknown key type in Jwks %v", alg.String()))
diff --git a/proxy.go b/proxy.go
index 7f119ec..8fbbd7e 100644
--- a/proxy.go
+++ b/proxy.go
@@ -594,11 +594,11 @@ func (proxy *Proxy) validateJwt() bool {
 
 		switch alg {
 		case jwa.RS256, jwa.RS384, jwa.RS512, jwa.PS256, jwa.PS384, jwa.PS512:
-			parsed, err = proxy.verifySignature(token, routeSec.RSAPublic, alg, ev)
+			parsed, err = proxy.verifySignature(token, routeSec.keys(&routeSec.RSAPublic), alg, ev)
 		case jwa.ES256, jwa.ES384, jwa.ES512:
-			parsed, err = proxy.verifySignature(token, routeSec.ECDSAPublic, alg, ev)
+			parsed, err = proxy.verifySignature(token, routeSec.keys(&routeSec.ECDSAPublic), alg, ev)
 		case jwa.HS256, jwa.HS384, jwa.HS512:
-			parsed, err = proxy.verifySignature(token, routeSec.Secret, alg, ev)
+			parsed, err = proxy.verifySignature(token, routeSec.keys(&routeSec.Secret), alg, ev)
 		case jwa.NoSignature:
 			parsed, err = jwt.Parse(bytes.NewReader([]byte(token)))
 		default:
-- 
2.43.0


From 00a5a20218a1b2dfd219a7958a86793f9fa1dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:43 +0000
Subject: [PATCH 16/37] fix: guard process history shared by stats goroutines

---
 stats.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stats.go b/stats.go
index a3056e7..a55e738 100644
--- a/stats.go
+++ b/stats.go
@@ -36,6 +36,9 @@ const growthRateThreshold float64 = 2.0
 var procStatsLock sync.Mutex
 var procHistory samples
 
+//procHistory is written by one goroutine and logged by another
+var procHistoryLock sync.Mutex
+
 func (s sample) log() {
 	log.Debug().Int32("pid", s.pid).Str("cpuCore"+
 		"Pct", fmt.Sprintf("%.2f", s.cpuPc)).Str("memPct", fmt.Sprintf("%.2f", s.mPc)).
@@ -112,13 +115,18 @@ func logProcStats(proc *process.Process) {
 	}()
 
 	go func() {
-		procHistory = make(samples, historyMaxSamples)
 		lazy := getSample(proc)
+		procHistoryLock.Lock()
+		procHistory = make(samples, historyMaxSamples)
 		for k := 0; k < historyMaxSamples; k++ {
 			procHistory[k] = lazy
 		}
+		procHistoryLock.Unlock()
 		for {
-			procHistory.append(getSample(proc))
+			next := getSample(proc)
+			procHistoryLock.Lock()
+			procHistory.append(next)
+			procHistoryLock.Unlock()
 			time.Sleep(time.Second * historySamplerSleepSeconds)
 		}
 	}()
@@ -126,7 +134,9 @@ func logProcStats(proc *process.Process) {
 	go func() {
 		for {
 			time.Sleep(time.Second * historySamplerSleepSeconds)
+			procHistoryLock.Lock()
 			procHistory.log()
+			procHistoryLock.Unlock()
 		}
 	}()
 }
-- 
2.43.0


From 1ce2849142b9ccfb3daa623a28bf4a59a947dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:42 +0000
Subject: [PATCH 17/37] fix: seed random numbers once, not with every canned
 response

Policies draw from the same source, so error responses made all requests
within a second resolve to the same labels.
---
 policy.go    | 5 +++++
 responses.go | 2 --
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/policy.go b/policy.go
index a15cb39..7d51619 100644
--- a/policy.go
+++ b/policy.go
@@ -3,8 +3,13 @@ package j8a
 import (
 	"math/rand"
 	"sort"
+	"time"
 )
 
+func init() {
+	rand.Seed(time.Now().UnixNano())
+}
+
 //LabelWeight describes routing to labels
 type LabelWeight struct {
 	Label  string
diff --git a/responses.go b/responses.go
index ed8ff97..4309c53 100644
--- a/responses.go
+++ b/responses.go
@@ -6,7 +6,6 @@ import (
 	"math/rand"
 	"net/http"
 	"strings"
-	"time"
 )
 
 var huttese = []string{
@@ -147,7 +146,6 @@ func (statusCodeResponse StatusCodeResponse) AsString() string {
 }
 
 func randomHuttese() string {
-	rand.Seed(time.Now().Unix())
 	return huttese[rand.Int()%len(huttese)]
 }
 
-- 
2.43.0


From c7bc6eb0ed97e1fc0e8dfb2a73d305d68ebe2d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:43 +0000
Subject: [PATCH 18/37] fix: treat upstream responses without final status code
 as bad gateway

---
 proxyhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxyhandler.go b/proxyhandler.go
index 188938e..6d8b995 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -274,6 +274,7 @@ func shouldProxyUpstreamResponse(proxy *Proxy, bodyError error) bool {
 	return !proxy.hasDownstreamAborted() &&
 		!proxy.hasUpstreamAttemptAborted() &&
 		bodyError == nil &&
+		proxy.Up.Atmpt.resp.StatusCode >= 200 &&
 		proxy.Up.Atmpt.resp.StatusCode < 500
 }
 
-- 
2.43.0


From 382521a7f6f83a1cf9cf073473181a2159f401ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:45 +0000
Subject: [PATCH 19/37] fix: respond 503 for routes to resources without any
 upstream

---
 route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/route.go b/route.go
index 7bcdbf1..5e3be29 100644
--- a/route.go
+++ b/route.go
@@ -53,7 +53,7 @@ func (route Route) mapURL(proxy *Proxy) (*URL, string, bool) {
 	}
 
 	resource := Runner.Resources[route.Resource]
-	if resource == nil {
+	if len(resource) == 0 {
 		return nil, "", false
 	}
 	//if a policy exists, we match resources with a label. TODO: this should be an interface
-- 
2.43.0


From 625e0da22bd5fe2350f635a5b958b3864f279f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:47 +0000
Subject: [PATCH 20/37] fix: send X-Request-Id once if upstream echoes it

---
 proxyhandler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 6d8b995..a468989 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -27,7 +27,7 @@ var httpClient HTTPClient
 
 //httpHeadersNoRewrite contains a list of headers that are not copied in either direction. they must be set by the
 //server or are ignored.
-var httpHeadersNoRewrite []string = []string{date, contentLength, transferEncoding, server}
+var httpHeadersNoRewrite []string = []string{date, contentLength, transferEncoding, server, XRequestID}
 
 //extract IPs for stdout. thread safe.
 var ipr iprex = iprex{}
-- 
2.43.0


From bc2206e611617d3e9a834c0617f1e9f02fae7e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:49 +0000
Subject: [PATCH 21/37] fix: do not forward hop-by-hop headers

---
 proxy.go        |  5 +++--
 proxyhandler.go | 21 ++++++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/proxy.go b/proxy.go
index 8fbbd7e..3163110 100644
--- a/proxy.go
+++ b/proxy.go
@@ -407,8 +407,9 @@ func (proxy *Proxy) writeContentEncodingHeader() {
 }
 
 func (proxy *Proxy) copyUpstreamResponseHeaders() {
-	for key, values := range proxy.Up.Atmpt.resp.Header {
-		if shouldProxyHeader(key) {
+	header := proxy.Up.Atmpt.resp.Header
+	for key, values := range header {
+		if shouldProxyHeader(key) && !isHopByHopHeader(key, header) {
 			for _, value := range values {
 				proxy.Dwn.Resp.Writer.Header().Add(key, value)
 			}
diff --git a/proxyhandler.go b/proxyhandler.go
index a468989..278897f 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -29,6 +29,10 @@ var httpClient HTTPClient
 //server or are ignored.
 var httpHeadersNoRewrite []string = []string{date, contentLength, transferEncoding, server, XRequestID}
 
+//RFC7230 6.1, these are meaningful for a single connection only
+var httpHopByHopHeaders []string = []string{"Connection", "Proxy-Connection", "Keep-Alive", "Proxy-Authenticate",
+	"Proxy-Authorization", "Te", "Trailer", "Upgrade"}
+
 //extract IPs for stdout. thread safe.
 var ipr iprex = iprex{}
 
@@ -135,7 +139,7 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 
 	//set upstream headers
 	for key, values := range proxy.Dwn.Req.Header {
-		if shouldProxyHeader(key) {
+		if shouldProxyHeader(key) && !isHopByHopHeader(key, proxy.Dwn.Req.Header) {
 			for _, value := range values {
 				upstreamRequest.Header.Add(key, value)
 			}
@@ -287,6 +291,21 @@ func shouldProxyHeader(header string) bool {
 	return true
 }
 
+//hop by hop headers are the ones we know plus those listed in Connection
+func isHopByHopHeader(key string, header http.Header) bool {
+	for _, hop := range httpHopByHopHeaders {
+		if strings.EqualFold(key, hop) {
+			return true
+		}
+	}
+	for _, hop := range strings.Split(strings.Join(header["Connection"], ","), ",") {
+		if strings.EqualFold(key, strings.TrimSpace(hop)) {
+			return true
+		}
+	}
+	return false
+}
+
 func scaffoldUpAttemptLog(proxy *Proxy) *zerolog.Event {
 	var ev *zerolog.Event
 	if proxy.XRequestDebug {
-- 
2.43.0


From 99322169e4eab90a8cb82cc7dfe1e7f1f116fe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:51 +0000
Subject: [PATCH 22/37] fix: validate jwt on about routes

---
 responses.go | 17 +++++++++++++++++
 server.go    |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/responses.go b/responses.go
index 4309c53..151aab8 100644
--- a/responses.go
+++ b/responses.go
@@ -149,6 +149,23 @@ func randomHuttese() string {
 	return huttese[rand.Int()%len(huttese)]
 }
 
+//about routes may require a jwt just like any other route
+func aboutRouteHandler(route Route) http.Handler {
+	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+		if route.hasJwt() {
+			proxy := new(Proxy).
+				setOutgoing(w).
+				parseIncoming(r)
+			proxy.setRoute(&route)
+			if !proxy.validateJwt() {
+				sendStatusCodeAsJSON(proxy.respondWith(401, "jwt bearer token missing, invalid, expired or unauthorized"))
+				return
+			}
+		}
+		aboutHandler(w, r)
+	})
+}
+
 func aboutHandler(w http.ResponseWriter, r *http.Request) {
 	proxy := new(Proxy).
 		setOutgoing(w).
diff --git a/server.go b/server.go
index 57ced96..3099b56 100644
--- a/server.go
+++ b/server.go
@@ -136,7 +136,7 @@ func (runtime Runtime) mapPathsToHandler() http.Handler {
 	handler := http.NewServeMux()
 	for _, route := range runtime.Routes {
 		if route.Resource == about {
-			handler.Handle(route.Path, http.HandlerFunc(aboutHandler))
+			handler.Handle(route.Path, aboutRouteHandler(route))
 			log.Debug().Msgf("assigned about handler to path %s", route.Path)
 		}
 	}
-- 
2.43.0


From df9c0f8fdc8da9f94a02bd36a0a9a97341dd3099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:53 +0000
Subject: [PATCH 23/37] fix: do not cut short some IPv6 addresses in log

---
 iprex.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iprex.go b/iprex.go
index 44019fd..7ef6f91 100644
--- a/iprex.go
+++ b/iprex.go
@@ -1,7 +1,9 @@
 package j8a
 
 import (
+	"net"
 	"regexp"
+	"strings"
 	"sync"
 )
 
@@ -23,6 +25,14 @@ type iprex struct {
 }
 
 func (ipr *iprex) extractAddr(msg string) string {
+	//most of the time it's host:port, possibly with text around it. IPv6 addresses are in square brackets then.
+	for _, field := range strings.Fields(msg) {
+		host, _, err := net.SplitHostPort(strings.TrimRight(field, ":,"))
+		if err == nil && net.ParseIP(strings.Split(host, "%")[0]) != nil {
+			return host
+		}
+	}
+
 	addr := "not found"
 	ipr.once.Do(func() {
 		ipr.ipv6s, _ = regexp.Compile("([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}")
-- 
2.43.0


From 20a2c6e65cb8da874ec13a5ad993ffcac66cfc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:56 +0000
Subject: [PATCH 24/37] fix: anchor all alternatives of a route path

---
 config.go | 2 +-
 route.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index 4ac0c52..6293343 100644
--- a/config.go
+++ b/config.go
@@ -125,7 +125,7 @@ func (config Config) validateRoutes() *Config {
 func (config Config) compileRoutePaths() *Config {
 	var err error
 	for i, route := range config.Routes {
-		config.Routes[i].PathRegex, err = regexp.Compile("^" + route.Path)
+		config.Routes[i].PathRegex, err = regexp.Compile("^(?:" + route.Path + ")")
 		if err != nil {
 			config.panic(fmt.Sprintf("config error, illegal route path %s", route.Path))
 		}
diff --git a/route.go b/route.go
index 5e3be29..0f7211a 100644
--- a/route.go
+++ b/route.go
@@ -37,7 +37,7 @@ func (route Route) matchURI(request *http.Request) bool {
 	if route.PathRegex != nil {
 		matched = route.PathRegex.MatchString(request.RequestURI)
 	} else {
-		matched, _ = regexp.MatchString("^"+route.Path, request.RequestURI)
+		matched, _ = regexp.MatchString("^(?:"+route.Path+")", request.RequestURI)
 	}
 
 	return matched
-- 
2.43.0


From 3fd1abc0a0ab6bbcd121e880e7e73e22a05cfdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:34 +0000
Subject: [PATCH 25/37] fix: leave content coding to the proxy, not the
 upstream transport

---
 httpclient.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httpclient.go b/httpclient.go
index 5c94500..9c8d539 100644
--- a/httpclient.go
+++ b/httpclient.go
@@ -38,6 +38,8 @@ func scaffoldHTTPClient(runtime Runtime) HTTPClient {
 			MaxIdleConns:        runtime.Connection.Upstream.PoolSize,
 			MaxIdleConnsPerHost: runtime.Connection.Upstream.PoolSize,
 			IdleConnTimeout:     idleConnTimeoutDuration,
+			//proxyHandler does content coding itself, the transport must not decode bodies and drop their headers
+			DisableCompression: true,
 		},
 		//Timeout: readTimeoutDuration, don't use this anymore, proxyHandler now has it built-in
 		CheckRedirect: func(req *http.Request, via []*http.Request) error {
-- 
2.43.0


From b80ba85285ea059d25473d76379ee40aeba6c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:24 +0000
Subject: [PATCH 26/37] fix: apply large acceptable skew to iat and nbf

---
 proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 3163110..b1072e3 100644
--- a/proxy.go
+++ b/proxy.go
@@ -723,10 +723,10 @@ func verifyDateClaims(token string, skew int) error {
 	//so i need to parse it again.
 	skewed, _ := jwt.Parse(bytes.NewReader([]byte(token)))
 
-	if skewed.IssuedAt().Unix() > int64(skew*1000) {
+	if skewed.IssuedAt().Unix() > int64(skew) {
 		skewed.Set("iat", skewed.IssuedAt().Add(-time.Second*time.Duration(skew)))
 	}
-	if skewed.NotBefore().Unix() > int64(skew*1000) {
+	if skewed.NotBefore().Unix() > int64(skew) {
 		skewed.Set("nbf", skewed.NotBefore().Add(-time.Second*time.Duration(skew)))
 	}
 	if skewed.Expiration().Unix() > 1 {
-- 
2.43.0


From 59fb38ddf988aaa541e9af85f38ccdfe92f3180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:23 +0000
Subject: [PATCH 27/37] fix: refuse mistyped configuration instead of running
 with what was parsed

---
 config.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/config.go b/config.go
index 6293343..dee829b 100644
--- a/config.go
+++ b/config.go
@@ -1,7 +1,6 @@
 package j8a
 
 import (
-	"encoding/json"
 	"fmt"
 	"github.com/ghodss/yaml"
 	"io/ioutil"
@@ -90,8 +89,11 @@ func (config Config) readYmlFile(file string) *Config {
 }
 
 func (config Config) parse(yml []byte) *Config {
-	jsn, _ := yaml.YAMLToJSON(yml)
-	json.Unmarshal(jsn, &config)
+	//converts scalars to the type of their field, a number given for a string is not an error
+	if err := yaml.Unmarshal(yml, &config); err != nil {
+		//never run with what happened to be parsed before the error
+		config.panic(fmt.Sprintf("error parsing config, cause: %v", err))
+	}
 	return &config
 }
 
-- 
2.43.0


From d73a914e61f81fceb8d53e290ac0c481e320e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:52 +0000
Subject: [PATCH 28/37] fix: refuse a token the parser panics on with 401

---
 proxy.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index b1072e3..5d58a8b 100644
--- a/proxy.go
+++ b/proxy.go
@@ -573,10 +573,19 @@ func (proxy *Proxy) shouldGzipDecodeResponseBody() bool {
 }
 
 //get bearer token from request. feed into lib. check signature. check expiry. return true || false.
-func (proxy *Proxy) validateJwt() bool {
+func (proxy *Proxy) validateJwt() (ok bool) {
 	var token string = ""
 	var err error
-	ok := false
+
+	//the token parser panics on some malformed JSON serialisations, that's an invalid token and not a server error.
+	defer func() {
+		if r := recover(); r != nil {
+			ok = false
+			log.Trace().
+				Str(XRequestID, proxy.XRequestID).
+				Msgf("jwt token rejected, cause: %v", r)
+		}
+	}()
 
 	ev := log.Trace().
 		Str("dwnReqPath", proxy.Dwn.Path).
-- 
2.43.0


From 95f343b1c5788455fa81eb9cbcc803c2fb3c7c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:21 +0000
Subject: [PATCH 29/37] fix: refuse an unknown downstream mode instead of
 serving plaintext

---
 config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config.go b/config.go
index dee829b..365b5dc 100644
--- a/config.go
+++ b/config.go
@@ -205,6 +205,10 @@ func (config Config) setDefaultDownstreamParams() *Config {
 		config.Connection.Downstream.Mode = HTTP
 	} else {
 		config.Connection.Downstream.Mode = strings.ToUpper(config.Connection.Downstream.Mode)
+		//a misspelled TLS mode must not end up serving plaintext
+		if config.Connection.Downstream.Mode != HTTP && config.Connection.Downstream.Mode != TLS {
+			config.panic(fmt.Sprintf("config error, illegal downstream mode %s", config.Connection.Downstream.Mode))
+		}
 	}
 
 	if config.Connection.Downstream.Port == 0 {
-- 
2.43.0


From 913db87f9ab2581a81f24d8bfc7a657403333913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:37 +0000
Subject: [PATCH 30/37] fix: mark a CA as the earliest to expire in the chain
 analysis

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index eaaafb8..badb6e7 100644
--- a/tls.go
+++ b/tls.go
@@ -162,7 +162,7 @@ func logCertStats(tlsLinks []TlsLink) {
 				formatSerial(link.cert.SerialNumber),
 				link.cert.Subject.CommonName,
 				link.cert.Issuer.CommonName,
-				link.remainingValidity.AsString(),
+				link.printRemainingValidity(),
 			))
 		}
 	}
-- 
2.43.0


From c9c31b1fbf5dacd94a9f0264f4f008d6284a1238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:37 +0000
Subject: [PATCH 31/37] fix: never trust an intermediate certificate as root
 because it carries the name of its issuer

---
 tls.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tls.go b/tls.go
index badb6e7..cbafcba 100644
--- a/tls.go
+++ b/tls.go
@@ -225,6 +225,12 @@ func splitCertPools(chain tls.Certificate) (*x509.CertPool, *x509.CertPool) {
 }
 
 func isRoot(c *x509.Certificate) bool {
-	//TODO: this seems to work but should we really check signature instead?
-	return c.IsCA && c.Issuer.CommonName == c.Subject.CommonName
+	if !c.IsCA || c.Issuer.CommonName != c.Subject.CommonName {
+		return false
+	}
+	//an intermediate may carry the name of its issuer, only the root signed itself. Roots signed with an algorithm
+	//golang won't verify go by name.
+	err := c.CheckSignatureFrom(c)
+	_, unverifiable := err.(x509.InsecureAlgorithmError)
+	return err == nil || unverifiable
 }
-- 
2.43.0


From a349ab2a4a08644370f38785419a1e3a700b7e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:52 +0000
Subject: [PATCH 32/37] fix: what libraries write to golang's own logger is
 logged as records

---
 logger.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/logger.go b/logger.go
index a67059d..6078b60 100644
--- a/logger.go
+++ b/logger.go
@@ -3,6 +3,7 @@ package j8a
 import (
 	"crypto/md5"
 	"encoding/hex"
+	golog "log"
 	"os"
 	"strings"
 
@@ -68,6 +69,10 @@ func initLogger() {
 		//no color logging
 	}
 
+	//what libraries write to golang's own logger, i.e. the http client, must not bypass ours.
+	golog.SetFlags(0)
+	golog.SetOutput(&zerologAdapter{})
+
 	initServerID()
 	initTime()
 	log.Debug().Msgf("setting global log level to %s", logLevel)
-- 
2.43.0


From 7c7dcf1e49af24a08a4bb646f055577cf0083d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:52 +0000
Subject: [PATCH 33/37] fix: quote the kid of a token in log messages, it may
 hold line breaks

---
 proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 5d58a8b..990102b 100644
--- a/proxy.go
+++ b/proxy.go
@@ -694,7 +694,7 @@ func (proxy *Proxy) triggerKeyRotationCheck(kid string) {
 			Str("route", route.Path).
 			Str("jwt", route.Jwt).
 			Str(XRequestID, proxy.XRequestID).
-			Msgf("unmatched kid [%v] on incoming req triggered background key rotation search for route [%v] jwt [%v]", kid, route.Path, route.Jwt)
+			Msgf("unmatched kid [%q] on incoming req triggered background key rotation search for route [%v] jwt [%v]", kid, route.Path, route.Jwt)
 	}
 }
 
-- 
2.43.0


From 5790c63b522cabfb152240966b7bfcb2e9802fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 34/37] fix: date claims and skew beyond the range of
 time.Duration and time.Time wrapped around

a skew above 292 years was applied with the wrong sign, an nbf or iat above 2^63 passed for one long gone
and an exp at the zero time of golang for no exp at all.
---
 proxy.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/proxy.go b/proxy.go
index 990102b..48b3e69 100644
--- a/proxy.go
+++ b/proxy.go
@@ -732,14 +732,21 @@ func verifyDateClaims(token string, skew int) error {
 	//so i need to parse it again.
 	skewed, _ := jwt.Parse(bytes.NewReader([]byte(token)))
 
-	if skewed.IssuedAt().Unix() > int64(skew) {
-		skewed.Set("iat", skewed.IssuedAt().Add(-time.Second*time.Duration(skew)))
-	}
-	if skewed.NotBefore().Unix() > int64(skew) {
-		skewed.Set("nbf", skewed.NotBefore().Add(-time.Second*time.Duration(skew)))
-	}
-	if skewed.Expiration().Unix() > 1 {
-		skewed.Set("exp", skewed.Expiration().Add(time.Second*time.Duration(skew)))
+	//in unix seconds because time.Duration overflows after 292 years. time.Time overflows too, a date
+	//or skew from there would wrap around and pass for one that's long gone, or for no date at all.
+	const farthest = int64(1 << 61)
+	shift := int64(skew)
+	if shift > farthest {
+		shift = farthest
+	}
+	for claim, by := range map[string]int64{"iat": -shift, "nbf": -shift, "exp": shift} {
+		if v, ok := skewed.Get(claim); ok {
+			date := v.(time.Time)
+			if !date.After(time.Time{}) || date.Unix() > farthest {
+				return fmt.Errorf("%s out of range", claim)
+			}
+			skewed.Set(claim, date.Unix()+by)
+		}
 	}
 	return jwt.Verify(skewed)
 }
-- 
2.43.0


From 9b59a906a65b0d92b7b6b8fa531eafe605ed7564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:43 +0000
Subject: [PATCH 35/37] fix: timeouts above 292 years overflowed time.Duration
 and expired at once

---
 config.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/config.go b/config.go
index 365b5dc..b7a96aa 100644
--- a/config.go
+++ b/config.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/ghodss/yaml"
 	"io/ioutil"
+	"math"
 	"os"
 	"regexp"
 	"sort"
@@ -182,6 +183,14 @@ func (config Config) addDefaultPolicy() *Config {
 	return &config
 }
 
+//longer timeouts overflow time.Duration, they would expire before they start.
+func capTimeout(seconds *int) {
+	longest := int64(math.MaxInt64/time.Second) - 1
+	if int64(*seconds) > longest {
+		*seconds = int(longest)
+	}
+}
+
 func (config Config) setDefaultDownstreamParams() *Config {
 
 	if config.Connection.Downstream.ReadTimeoutSeconds == 0 {
@@ -196,6 +205,10 @@ func (config Config) setDefaultDownstreamParams() *Config {
 		config.Connection.Downstream.IdleTimeoutSeconds = 120
 	}
 
+	capTimeout(&config.Connection.Downstream.ReadTimeoutSeconds)
+	capTimeout(&config.Connection.Downstream.RoundTripTimeoutSeconds)
+	capTimeout(&config.Connection.Downstream.IdleTimeoutSeconds)
+
 	if config.Connection.Downstream.MaxBodyBytes == 0 {
 		//set to 2MB default value
 		config.Connection.Downstream.MaxBodyBytes = 2 << 20
@@ -237,6 +250,11 @@ func (config Config) setDefaultUpstreamParams() *Config {
 	if config.Connection.Upstream.IdleTimeoutSeconds == 0 {
 		config.Connection.Upstream.IdleTimeoutSeconds = 120
 	}
+
+	capTimeout(&config.Connection.Upstream.SocketTimeoutSeconds)
+	capTimeout(&config.Connection.Upstream.ReadTimeoutSeconds)
+	capTimeout(&config.Connection.Upstream.IdleTimeoutSeconds)
+
 	if config.Connection.Upstream.PoolSize == 0 {
 		config.Connection.Upstream.PoolSize = 32768
 	}
-- 
2.43.0


From 1e97c83bcb212fb823de535b8f6f15ec5fb3474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:43 +0000
Subject: [PATCH 36/37] fix: an illegal upstream host or transform left a nil
 request that crashed the handler

---
 proxyhandler.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 278897f..6a9c0b6 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -109,7 +109,7 @@ func handle(proxy *Proxy) {
 	}
 }
 
-func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
+func scaffoldUpstreamRequest(proxy *Proxy) (*http.Request, error) {
 	//this context is used to time out the upstream request
 	ctx, cancel := context.WithCancel(context.TODO())
 
@@ -123,10 +123,14 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 
 	upReqURI := proxy.resolveUpstreamURI()
 
-	upstreamRequest, _ := http.NewRequestWithContext(ctx,
+	upstreamRequest, err := http.NewRequestWithContext(ctx,
 		proxy.Dwn.Method,
 		upReqURI,
 		proxy.bodyReader())
+	if err != nil {
+		//i.e. the host configured for this resource makes no legal URL
+		return nil, err
+	}
 
 	log.Trace().
 		Str("dwnReqPath", proxy.Dwn.Path).
@@ -147,11 +151,14 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 	}
 	upstreamRequest.Header.Set(XRequestID, proxy.XRequestID)
 
-	return upstreamRequest
+	return upstreamRequest, nil
 }
 
 func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
-	req := scaffoldUpstreamRequest(proxy)
+	req, illegal := scaffoldUpstreamRequest(proxy)
+	if illegal != nil {
+		return nil, illegal
+	}
 	client := httpClient
 	var upstreamResponse *http.Response
 	var upstreamError error
-- 
2.43.0


From e7ec97c19eefeb1cda6b68b5a73500674a46fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:44 +0000
Subject: [PATCH 37/37] fix: requests in absolute form matched no route

RFC7230, section 5.3.2 wants servers to accept them.
---
 route.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/route.go b/route.go
index 0f7211a..19559df 100644
--- a/route.go
+++ b/route.go
@@ -34,10 +34,15 @@ type Route struct {
 
 func (route Route) matchURI(request *http.Request) bool {
 	matched := false
+	uri := request.RequestURI
+	//absolute form has scheme and host in front of what routes are about, see RFC7230, section 5.3.2
+	if request.URL != nil && request.URL.IsAbs() {
+		uri = request.URL.RequestURI()
+	}
 	if route.PathRegex != nil {
-		matched = route.PathRegex.MatchString(request.RequestURI)
+		matched = route.PathRegex.MatchString(uri)
 	} else {
-		matched, _ = regexp.MatchString("^(?:"+route.Path+")", request.RequestURI)
+		matched, _ = regexp.MatchString("^(?:"+route.Path+")", uri)
 	}
 
 	return matched
-- 
2.43.0

