package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// C30: process statistics.

func init() {
	register("C30", func(c *Ctx) {
		c.level = "exploration"
		c.rule = "random append sequences of up to 90 samples (exact doublings and one byte less, halvings, incomplete histories) against a list model of the last 24; the real samplers in simulated time over days with memory kept, doubled, spiked or dropped at chosen hours; a real server in simulated time over days; key = start mode, completeness and flag; memory plan"
		c.assume = []string{"the Go runtime's simulated time (faketime) leaves the order of timers as in real time", "hourly history samples"}
		bin, why := c.buildTest(false, "stats_verif_test.go")
		if bin == "" {
			c.Inconclusive("in-package part does not compile: %s", firstLines(why, 5))
		} else {
			lines, err := c.runTest(bin, "TestVerifSamples", 4*time.Minute, fmt.Sprintf("VH_RUNS=%d", c.N(3000, 60000)), fmt.Sprintf("VERIF_SEED=%d", c.Seed))
			done := false
			for _, l := range lines {
				switch {
				case strings.HasPrefix(l, "VHBAD "):
					var b struct{ What, Detail string }
					json.Unmarshal([]byte(l[6:]), &b)
					c.Violate(b.What, J{"detail": b.Detail})
					done = true
				case strings.HasPrefix(l, "VHDONE "):
					done = true
					m := map[string]int{}
					json.Unmarshal([]byte(l[7:]), &m)
					for k, n := range m {
						c.Case("history " + k)
						c.Count("history_states", n)
					}
				case strings.HasPrefix(l, "panic: "):
					c.Violate("history-panic", J{"line": l})
				}
			}
			if !done {
				c.Inconclusive("history model run ended early: %v", err)
			}
		}

		// the samplers over days
		type plan struct {
			name, steps string
			from, to    int // hours between which growth must be reported throughout; 0 = never
			none        [][2]int
		}
		plans := []plan{
			{"steady", "0:0,76:0", 0, 0, [][2]int{{0, 76}}},
			{"doubled", "0:0,30:300,80:300", 33, 50, [][2]int{{0, 29}, {57, 80}}},
			{"spiked", "0:0,30:300,34:0,80:0", 35, 50, [][2]int{{0, 29}, {62, 80}}},
			{"dropped", "0:300,30:0,80:0", 0, 0, [][2]int{{0, 80}}},
			{"doubled-twice", "0:0,30:300,50:900,110:900", 33, 69, [][2]int{{0, 29}, {77, 110}}},
			{"early", "0:0,3:300,40:300", 6, 22, [][2]int{{0, 2}, {31, 40}}},
		}
		fbin, why := c.buildTestTags(false, "faketime", "stats_verif_test.go")
		if fbin == "" {
			c.Inconclusive("simulated time part does not compile: %s", firstLines(why, 5))
			plans = nil
		}
		c.Par(len(plans), 6, func(i int) {
			p := plans[i]
			out := filepath.Join(c.Scratch, p.name+".log")
			_, err := c.runTest(fbin, "TestVerifGrowth", 2*time.Minute, "VH_PLAN="+p.steps, "VH_OUT="+out, "GOMAXPROCS=1")
			b, _ := os.ReadFile(out)
			ls := strings.Split(strings.TrimSpace(string(b)), "\n")
			if len(ls) < 2 || !strings.HasPrefix(ls[len(ls)-1], "END ") {
				c.Inconclusive("%s: no log, %v", p.name, err)
				return
			}
			var epoch int64
			fmt.Sscanf(ls[len(ls)-1], "END %d", &epoch)
			type point struct {
				h   float64
				rss float64
			}
			var perf []point
			var flags []float64
			for _, l := range ls {
				var r logLine
				if json.Unmarshal([]byte(l), &r) != nil {
					continue
				}
				at, err := time.Parse(time.RFC3339, r.S("time"))
				if err != nil {
					continue
				}
				h := at.Sub(time.Unix(epoch, 0)).Hours()
				switch m := r.S("message"); {
				case m == "server performance":
					x, _ := r["rssBytes"].(float64)
					perf = append(perf, point{h, x})
				case strings.HasPrefix(m, "RSS memory increase"):
					flags = append(flags, h)
				}
			}
			var end int
			fmt.Sscanf(p.steps[strings.LastIndex(p.steps, ",")+1:], "%d:", &end)
			d := J{"plan": p.name, "steps": p.steps, "flagged-at-hours": flags, "performance-lines": len(perf)}
			// samples keep coming: at least one in any ten minutes
			last := 0.0
			for _, x := range perf {
				if x.h-last > 1.0/6 {
					break
				}
				last = x.h
			}
			if float64(end)-last > 1.0/6 {
				d["gap-after-hour"] = last
				c.Violate("sampling-stopped", d)
				return
			}
			// memory must have been what the plan says
			low, high := 1e18, 0.0
			for _, x := range perf {
				if x.rss < low {
					low = x.rss
				}
				if x.rss > high {
					high = x.rss
				}
			}
			d["rss"] = fmt.Sprintf("%.0f..%.0f", low, high)
			if p.name == "steady" && high > 1.8*low || p.name != "steady" && high < 2.5*low {
				c.Inconclusive("%s: memory did not follow the plan: %v", p.name, d["rss"])
				return
			}
			for _, f := range flags {
				for _, n := range p.none {
					if f > float64(n[0]) && f < float64(n[1]) {
						c.Violate("growth-reported-wrongly", d)
						return
					}
				}
			}
			if p.to > 0 {
				hours := map[int]bool{}
				n := 0
				for _, f := range flags {
					if f >= float64(p.from) && f <= float64(p.to) {
						hours[int(f)] = true
						n++
					}
				}
				if len(hours) < p.to-p.from-1 {
					c.Violate("growth-not-reported", d)
					return
				}
			}
			c.Case("plan " + p.name)
			c.Count("simulated_hours", end)
			c.Count("performance_samples", len(perf))
			c.Sample(d)
		})

		c.c30values()

		// a whole server
		sbin, why := c.buildFake()
		if sbin == "" {
			c.Inconclusive("simulated time server does not compile: %s", firstLines(why, 5))
		} else {
			days := c.N(5, 20)
			u := c.newUpstream("u", nil)
			until := fakeEpoch.Add(time.Duration(days) * 24 * time.Hour)
			lines, reached, raw := c.fakeRun(sbin, simpleCfg(nil, nil, u), until, time.Duration(days)*12*time.Second)
			last, n := fakeEpoch, 0
			low, high := 1e18, 0.0
			flags := 0
			var gap time.Time
			ups := 0
			for _, l := range lines {
				if us, ok := l["uptimeMicros"].(float64); ok {
					ups++
					if want := l.at().Sub(fakeEpoch); time.Duration(us)*time.Microsecond > want+time.Second || time.Duration(us)*time.Microsecond < want-10*time.Minute {
						c.Violate("uptime-wrong", J{"record": l, "at": l.at().UTC().String()})
					}
				}
				switch m := l.S("message"); {
				case m == "server performance":
					n++
					if l.at().Sub(last) > 10*time.Minute && gap.IsZero() {
						gap = last
					}
					last = l.at()
					if x, _ := l["rssBytes"].(float64); x < low {
						low = x
					} else if x > high {
						high = x
					}
				case strings.HasPrefix(m, "RSS memory increase"):
					flags++
				}
			}
			d := J{"days": days, "reached": reached.UTC().String(), "performance-lines": n, "last": last.UTC().String(), "rss": fmt.Sprintf("%.0f..%.0f", low, high), "flags": flags}
			if len(raw) > 0 {
				d["raw"] = raw[0]
			}
			if !gap.IsZero() || reached.Sub(last) > 10*time.Minute {
				c.Violate("server-sampling-stopped", d)
			} else if !reached.After(until) {
				c.Inconclusive("server did not reach day %d: %v", days, d)
			} else {
				c.Case("server over days")
				c.Count("simulated_hours", days*24)
			}
			if flags > 0 && high < 1.8*low {
				c.Violate("growth-reported-wrongly", d)
			}
			if reached.After(until) && ups < days-1 {
				c.Violate("uptime-not-reported", d)
			}
			c.Count("uptime_records", ups)
			c.Sample(d)
		}
	})
}

// c30values compares performance records of real servers with what the kernel says about the process meanwhile.
func (c *Ctx) c30values() {
	bin := c.buildJ8a(false)
	u := c.newUpstream("values", func(r *UpReq, w *UpConn) {
		time.Sleep(3 * time.Second)
		w.Reply(r, 200, nil, []byte("x"))
	})
	n := c.N(4, 12)
	c.Par(n, n, func(i int) {
		s := c.start(simpleCfg(J{"maxBodyBytes": 64 << 20}, J{"maxAttempts": 1}, u), StartOpt{Bin: bin, Level: "DEBUG"})
		defer s.Stop()
		// memory of very different sizes: request bodies are held while upstream waits
		for k := 0; k < i%4*4; k++ {
			go s.do("POST", "/r/x", nil, make([]byte, 8<<20))
		}
		type mem struct{ rss, vms float64 }
		read := func() mem {
			b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/statm", s.cmd.Process.Pid))
			var v, r float64
			fmt.Sscan(string(b), &v, &r)
			return mem{r * float64(os.Getpagesize()), v * float64(os.Getpagesize())}
		}
		lo, hi := mem{1e18, 1e18}, mem{}
		var rec logLine
		for end := time.Now().Add(20 * time.Second); rec == nil && time.Now().Before(end) && s.Alive(); time.Sleep(20 * time.Millisecond) {
			for _, l := range s.Lines() {
				if l.S("message") == "server performance" {
					rec = l
				}
			}
			m := read()
			lo.rss, hi.rss, lo.vms, hi.vms = min(lo.rss, m.rss), max(hi.rss, m.rss), min(lo.vms, m.vms), max(hi.vms, m.vms)
		}
		if rec == nil {
			c.Inconclusive("no performance record within 20 s")
			return
		}
		d := J{"record": rec, "pid": s.cmd.Process.Pid, "rss": fmt.Sprintf("%.0f..%.0f", lo.rss, hi.rss), "vms": fmt.Sprintf("%.0f..%.0f", lo.vms, hi.vms)}
		rss, _ := rec["rssBytes"].(float64)
		vms, _ := rec["vmsBytes"].(float64)
		if rec.I("pid") != s.cmd.Process.Pid {
			c.Violate("statistics-of-another-process", d)
		}
		// read in steps of 20 ms, so allow for peaks in between
		if rss < lo.rss/2 || rss > hi.rss*2 {
			c.Violate("resident-memory-wrong", d)
		}
		if vms < lo.vms/2 || vms > hi.vms*2 {
			c.Violate("virtual-memory-wrong", d)
		}
		c.Case(fmt.Sprintf("values %d", i%4))
		c.Count("values_compared", 1)
		c.Sample(d)
	})
}
