package j8a

// In-package concurrent workload for the race detector: shared helpers that request handling, error logging and
// background work use at the same time.

import (
	"fmt"
	"net/http"
	"net/url"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"
	"github.com/shirou/gopsutil/process"
)

func TestVerifRaceShared(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.WarnLevel)
	Runner = mockRuntime()
	adapter := &zerologAdapter{}
	shared := iprex{}
	pol := Policy{LabelWeight{"a", 0.3}, LabelWeight{"b", 0.2}, LabelWeight{"c", 0.5}}
	route := Route{Path: "/shared"}
	proc, _ := process.NewProcess(int32(os.Getpid()))
	texts := []string{"no address here", "peer 10.1.2.3 left", "peer fe80::1 left", "::ffff:1.2.3.4", "127.0.0.1:99", "[::1]:99",
		"http: TLS handshake error from 127.0.0.1:4000: EOF", "nothing ::", "1:2:3:4:5:6:7:8"}
	n := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < 12; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				shared.extractAddr(texts[(i+g)%len(texts)])
				adapter.Write([]byte(texts[(i+g)%len(texts)]))
				pol.resolveLabel()
				z := Gzip([]byte(fmt.Sprintf("%d-%d", g, i)))
				if string(*Gunzip(*z)) != fmt.Sprintf("%d-%d", g, i) {
					fmt.Println("VERIF-BAD gzip")
				}
				route.matchURI(&http.Request{RequestURI: "/shared/x", URL: &url.URL{Path: "/shared/x"}})
				s := StatusCodeResponse{}
				s.withCode(404)
				s.AsString()
				mu.Lock()
				n++
				mu.Unlock()
			}
		}()
	}
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := getSample(proc)
			s.log()
		}()
	}
	wg.Wait()
	logProcStats(proc)
	time.Sleep(500 * time.Millisecond)
	fmt.Println("VERIF-DONE", n)
}
