package j8a

// Process statistics: a model run of the sample history, and the real samplers in simulated time (built with
// -tags faketime, where the clock jumps whenever everything sleeps).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"github.com/shirou/gopsutil/process"
)

type vhBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (v *vhBuf) Write(p []byte) (int, error) {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.b.Write(p)
}

func (v *vhBuf) take() string {
	v.mu.Lock()
	defer v.mu.Unlock()
	s := v.b.String()
	v.b.Reset()
	return s
}

func vhBad(what string, d interface{}) {
	j, _ := json.Marshal(map[string]interface{}{"what": what, "detail": fmt.Sprint(d)})
	fmt.Printf("\nVHBAD %s\n", j)
}

func TestVerifSamples(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	runs, _ := strconv.Atoi(os.Getenv("VH_RUNS"))
	r := rand.New(rand.NewSource(seed*7919 + 1))
	zerolog.SetGlobalLevel(zerolog.TraceLevel)
	buf := &vhBuf{}
	saved := log.Logger
	log.Logger = zerolog.New(buf)
	defer func() { log.Logger = saved }()
	classes := map[string]int{}
	for n := 0; n < runs; n++ {
		var h samples
		var model []sample
		mode := n % 3
		rss := uint64(1000 + r.Intn(1<<20))
		next := func(k int) sample {
			switch r.Intn(7) {
			case 0:
				rss = rss*2 - uint64(r.Intn(3)) + 1
			case 1:
				rss = rss/2 + 1
			case 2:
				rss += uint64(r.Intn(1000))
			case 3:
				if len(model) > 0 {
					rss = model[0].rssBytes*2 - uint64(r.Intn(2))
				}
			case 4:
				if len(model) > 1 {
					rss = model[1].rssBytes * 2
				}
			}
			if rss == 0 || rss > 1<<50 {
				rss = uint64(1000 + r.Intn(1<<20))
			}
			pid := int32(1 + k)
			if n/3%2 == 0 {
				pid = 4711
			}
			return sample{pid: pid, rssBytes: rss, time: time.Unix(int64(k), 0)}
		}
		switch mode {
		case 0:
			h = make(samples, historyMaxSamples)
			model = make([]sample, historyMaxSamples)
		case 1:
			s := next(-1)
			s.pid = 77
			for k := 0; k < historyMaxSamples; k++ {
				h = append(h, s)
				model = append(model, s)
			}
		}
		total := 1 + r.Intn(90)
		for k := 0; k < total; k++ {
			s := next(k)
			h.append(s)
			model = append(model, s)
			if len(model) > 24 {
				model = model[len(model)-24:]
			}
			if len(h) > 24 || len(h) != len(model) {
				vhBad("history-length", fmt.Sprintf("%d samples after %d appends in mode %d, want %d", len(h), k+1, mode, len(model)))
				return
			}
			for i := range h {
				if h[i] != model[i] {
					vhBad("history-order", fmt.Sprintf("sample %d of %d after %d appends is %v, want %v", i, len(h), k+1, h[i], model[i]))
					return
				}
			}
			if len(model) < 24 || r.Intn(2) == 0 {
				continue
			}
			complete := true
			high := false
			for _, m := range model {
				complete = complete && m.pid != 0
			}
			for _, m := range model {
				high = high || complete && m.rssBytes >= 2*model[0].rssBytes
			}
			buf.take()
			rates := h.log()
			said := buf.take()
			flagged := strings.Contains(said, "RSS memory increase")
			classes[fmt.Sprintf("%d/%v/%v", mode, complete, high)]++
			if flagged != high {
				var rs []uint64
				for _, m := range model {
					rs = append(rs, m.rssBytes)
				}
				vhBad("growth-flag", fmt.Sprintf("flagged %v, want %v, complete %v, rss %v", flagged, high, complete, rs))
				return
			}
			any := false
			for i, g := range rates {
				any = any || g.high
				if complete && i < len(model) && g.high != (model[i].rssBytes >= 2*model[0].rssBytes) {
					vhBad("growth-rate", fmt.Sprintf("sample %d high=%v v=%v rss=%d oldest=%d", i, g.high, g.v, model[i].rssBytes, model[0].rssBytes))
					return
				}
			}
			if any != high {
				vhBad("growth-rate", fmt.Sprintf("rates high %v, want %v", any, high))
				return
			}
			for i := range h {
				if h[i] != model[i] {
					vhBad("history-changed-by-log", i)
					return
				}
			}
		}
	}
	j, _ := json.Marshal(classes)
	fmt.Printf("\nVHDONE %s\n", j)
}

// VH_PLAN is a list of hour:megabytes steps, e.g. 30:400,60:0; the last one ends the run.
func TestVerifGrowth(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.TraceLevel)
	buf := &vhBuf{}
	log.Logger = zerolog.New(buf).With().Timestamp().Logger()
	began := time.Now()
	// a few megabytes more or less must not matter
	ballast := make([]byte, 48<<20)
	for i := range ballast {
		ballast[i] = byte(i)
	}
	var hold []byte
	set := func(mb int) {
		hold = nil
		runtime.GC()
		debug.FreeOSMemory()
		if mb > 0 {
			hold = make([]byte, mb<<20)
			for i := 0; i < len(hold); i += 512 {
				hold[i] = byte(i)
			}
		}
	}
	steps := strings.Split(os.Getenv("VH_PLAN"), ",")
	started := false
	for _, st := range steps {
		p := strings.Split(st, ":")
		h, _ := strconv.Atoi(p[0])
		mb, _ := strconv.Atoi(p[1])
		if d := time.Until(began.Add(time.Duration(h) * time.Hour)); d > 0 {
			if !started {
				started = true
				proc, _ := process.NewProcess(int32(os.Getpid()))
				logProcStats(proc)
			}
			time.Sleep(d)
		}
		set(mb)
	}
	fmt.Fprintln(ioutil.Discard, len(hold), len(ballast))
	runtime.KeepAlive(hold)
	runtime.KeepAlive(ballast)
	ioutil.WriteFile(os.Getenv("VH_OUT"), []byte(buf.take()+"END "+strconv.FormatInt(began.Unix(), 10)+"\n"), 0644)
	os.Exit(0)
}
