package j8a

// Runs the certificate analysis on chains given by the harness and prints what it returned and logged.

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"strings"
	"testing"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

func TestVerifCerts(t *testing.T) {
	b, err := ioutil.ReadFile(os.Getenv("VH_CASES"))
	if err != nil {
		t.Fatal(err)
	}
	var cases [][][]byte
	if err := json.Unmarshal(b, &cases); err != nil {
		t.Fatal(err)
	}
	zerolog.SetGlobalLevel(zerolog.TraceLevel)
	saved := log.Logger
	defer func() { log.Logger = saved }()
	for i, cs := range cases {
		var out struct {
			N     int
			Err   string
			Panic string
			Links int
			Log   []string
		}
		out.N = i
		chain := tls.Certificate{Certificate: cs}
		func() {
			defer func() {
				if r := recover(); r != nil {
					out.Panic = fmt.Sprint(r)
				}
			}()
			links, err := checkCertChain(chain)
			out.Links = len(links)
			if err != nil {
				out.Err = err.Error()
			}
		}()
		if out.Err == "" {
			var buf bytes.Buffer
			log.Logger = zerolog.New(&buf)
			tlsHealthCheck(&tls.Config{Certificates: []tls.Certificate{chain}}, false)
			log.Logger = saved
			out.Log = strings.Split(strings.TrimSpace(buf.String()), "\n")
		}
		j, _ := json.Marshal(out)
		fmt.Printf("\nVHOUT %s\n", j)
	}
}
