package j8a

// Request handling in the race detector's best light: the handlers run on recorders with a client that answers from
// memory and without log output, because socket and log writes order goroutines that nothing else orders. Every round
// is a burst from behind a barrier, so that what happens only once per process or per round is raced as well.

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"
)

type verifBody struct {
	b    *bytes.Reader
	fail error
}

func (v *verifBody) Read(p []byte) (int, error) {
	n, err := v.b.Read(p)
	if err != nil && v.fail != nil {
		err = v.fail
	}
	return n, err
}

func (v *verifBody) Close() error { return nil }

func verifDo(req *http.Request) (*http.Response, error) {
	resp := func(code int, body []byte, h http.Header, fail error) (*http.Response, error) {
		if h == nil {
			h = http.Header{}
		}
		return &http.Response{StatusCode: code, Header: h, Body: &verifBody{bytes.NewReader(body), fail}, ContentLength: int64(len(body))}, nil
	}
	if req.Body != nil {
		ioutil.ReadAll(req.Body)
	}
	switch {
	case strings.Contains(req.URL.Path, "/dead"):
		return nil, errors.New("connection refused")
	case strings.Contains(req.URL.Path, "/cut"):
		return resp(200, []byte("half"), nil, errors.New("unexpected EOF"))
	case strings.Contains(req.URL.Path, "/gzip"):
		return resp(200, *Gzip([]byte("zipped")), http.Header{"Content-Encoding": {"gzip"}}, nil)
	case strings.Contains(req.URL.Path, "/notgzip"):
		return resp(200, []byte{0x1f, 0x8b, 1}, http.Header{"Content-Encoding": {"gzip"}}, nil)
	case strings.Contains(req.URL.Path, "/slow"):
		select {
		case <-req.Context().Done():
			return nil, req.Context().Err()
		case <-time.After(3 * time.Second):
			return nil, errors.New("late")
		}
	case strings.Contains(req.URL.Path, "/code"):
		n, _ := strconv.Atoi(req.URL.Path[strings.Index(req.URL.Path, "/code")+5:])
		return resp(n, []byte("code"), http.Header{"X-A": {"1", "2"}, "Connection": {"x-a"}, "Content-Length": {"4"}}, nil)
	}
	return resp(200, []byte("plain"), http.Header{"Etag": {"x"}}, nil)
}

func TestVerifRaceHandler(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	httpClient = &MockHttp{}
	mockDoFunc = verifDo
	n, codes := 0, map[int]int{}
	rounds, _ := strconv.Atoi(os.Getenv("VERIF_ROUNDS"))
	hs := NewJwt("hs", "HS256", "secretsecretsecretsecret", "", "")
	if err := hs.Validate(); err != nil {
		t.Fatal(err)
	}
	paths := []string{"/ok", "/dead", "/cut", "/gzip", "/notgzip", "/code503", "/code404", "/code204", "/code302", "/code599", "/pol/ok", "/pol/code500", "/nowhere", "/jwt/ok", "/jwt/code418", "/about", "/ok?a=b", "/none/x"}
	methods := []string{"GET", "GET", "GET", "HEAD", "PUT", "POST", "OPTIONS", "DELETE", "TRACE", "FOO"}
	token := "eyJhbGciOiJIUzI1NiIsInR5cCI6IkpXVCJ9.e30"
	mac := hmac.New(sha256.New, []byte("secretsecretsecretsecret"))
	mac.Write([]byte(token))
	token += "." + base64.RawURLEncoding.EncodeToString(mac.Sum(nil))
	mode, _ := strconv.Atoi(os.Getenv("VERIF_MODE"))
	rt := mockRuntime()
	up := rt.Resources["default"][0]
	up.Labels = []string{"a", "default"}
	up2 := up
	up2.Labels = []string{"b", "simple"}
	rt.Resources = map[string][]ResourceMapping{"r": {up, up2}, "empty": {}}
	rt.Policies = map[string]Policy{"p": {LabelWeight{"a", 0.4}, LabelWeight{"b", 0.3}, LabelWeight{"c", 0.1}}}
	rt.Jwt = map[string]*Jwt{"hs": hs}
	rt.Routes = Routes{{Path: "/pol", Resource: "r", Policy: "p"}, {Path: "/jwt", Resource: "r", Jwt: "hs"}, {Path: "/none", Resource: "empty"}, {Path: "/nowhere", Resource: "gone"}, {Path: "/", Resource: "r", Transform: "/t/"}}
	rt.Connection.Downstream.MaxBodyBytes = 1000
	rt.Connection.Upstream.MaxAttempts = 1 + mode%3
	if mode%3 == 1 {
		rt.Connection.Downstream.Mode = "TLS"
	}
	if mode%2 == 1 {
		rt.Config = *rt.Config.compileRoutePaths()
	}
	slow := mode < 2
	if slow {
		rt.Connection.Upstream.ReadTimeoutSeconds = 1
		rt.Connection.Downstream.RoundTripTimeoutSeconds = 1 + mode
		rt.Connection.Upstream.MaxAttempts = 3
	}
	Runner = rt
	for i := 0; i < rounds; i++ {
		start := make(chan struct{})
		var wg sync.WaitGroup
		got := make([]int, 16)
		same := paths[i/3%len(paths)]
		for g := range got {
			g := g
			p := paths[(i*7+g*5)%len(paths)]
			if i%3 == 0 { // all the same
				p = same
			}
			if slow && i < 3 && g%2 == 0 {
				p = "/slow"
			}
			m := methods[(i+g)%len(methods)]
			var body *strings.Reader = strings.NewReader("")
			if m == "PUT" || m == "POST" {
				body = strings.NewReader(strings.Repeat("b", (g%5)*300))
			}
			req := httptest.NewRequest(m, p, body)
			if g%2 == 0 {
				req.Header.Set("Accept-Encoding", "gzip")
			}
			if g%3 == 0 {
				req.Header.Set("X-Request-Debug", "true")
			}
			if g%4 != 0 {
				req.Header.Set("Authorization", "Bearer "+token)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				w := httptest.NewRecorder()
				<-start
				if p == "/about" {
					aboutHandler(w, req)
				} else {
					proxyHandler(w, req)
				}
				got[g] = w.Code
			}()
		}
		close(start)
		wg.Wait()
		for _, x := range got {
			n++
			codes[x]++
		}
	}
	fmt.Println("VERIF-DONE", n)
	for k, v := range codes {
		fmt.Println("VERIF-CODE", k, v)
	}
}

// Refreshes of one jwt that are asked for all the time.
func TestVerifRaceRefresh(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(`{"keys":[{"kty":"RSA","alg":"RS256","use":"sig","kid":"a","e":"AQAB","n":"` + strings.Repeat("u", 340) + `w"}]}`))
	}))
	defer srv.Close()
	n := 0
	for i := 0; i < 6; i++ {
		j := NewJwt("j", "RS256", "", srv.URL, "")
		stop := make(chan struct{})
		for g := 0; g < 4; g++ {
			go func() {
				for {
					select {
					case <-stop:
						return
					default:
						j.LoadJwks()
					}
				}
			}()
		}
		time.Sleep(150 * time.Millisecond)
		close(stop)
		n++
	}
	fmt.Println("VERIF-DONE", n)
}
