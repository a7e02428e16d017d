package main

import (
	"fmt"
	"sync"
	"time"
)

// vastTimeouts: settings of years and centuries, some more than a time.Duration can hold, must not end anything early.
// Clients take their time with header, body and between requests, upstreams with header and body.
func (c *Ctx) vastTimeouts(bin string, keys ...string) {
	vals := []int64{86400, 31536000, 4294967, 4294968, 9223372035, 9223372036, 9223372037, 9999999999, 18446744074, 1 << 53, 1 << 62, 1<<63 - 1}
	type conf struct {
		key string // "down.x" or "up.x"
		val int64
	}
	var confs []conf
	for _, k := range keys {
		for _, v := range vals {
			confs = append(confs, conf{k, v})
		}
	}
	c.Par(len(confs), 16, func(i int) {
		cf := confs[i]
		down, up := J{}, J{}
		if sec := cf.key[:3]; sec == "up." {
			up[cf.key[3:]] = cf.val
		} else {
			down[cf.key[5:]] = cf.val
		}
		k := c.kitchen(bin, down, up, StartOpt{Level: "INFO"})
		k.Sc.df = func(r *UpReq, w *UpConn) {
			time.Sleep(200 * time.Millisecond)
			w.Send("HTTP/1.1 200 OK\r\nContent-Length: 20\r\n\r\n0123456789")
			time.Sleep(200 * time.Millisecond)
			w.Send("abcdefghij")
		}
		var wg sync.WaitGroup
		for lane := 0; lane < 2; lane++ {
			lane := lane
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl, err := dial(k.S.Addr, nil)
				d := J{"setting": cf.key, "seconds": cf.val, "requests-on-connection": 0}
				if err != nil {
					d["err"] = err.Error()
					c.Violate("vast-timeout/connect", d)
					return
				}
				defer cl.Close()
				for n := 0; n < 2; n++ {
					d["requests-on-connection"] = n
					id := fmt.Sprintf("vt%d.%d.%d.", i, lane, n)
					m := []string{"POST", "PUT"}[lane]
					cl.Send(m + " /r/" + id + " HTTP/1.1\r\nHost: j8a.test\r\n")
					time.Sleep(350 * time.Millisecond)
					cl.Send("X-Case: " + id + "\r\nContent-Length: 6\r\n\r\nabc")
					time.Sleep(100 * time.Millisecond)
					cl.Send("def")
					r, err := cl.Read(m, 25*time.Second)
					if err == errWatchdog && k.S.controlOK(3) {
						err = errNoAnswer
					}
					if !c.judge("vast-timeout", r, err, d) {
						return
					}
					if d["code"] = r.Code; r.Code != 200 || string(r.Body) != "0123456789abcdefghij" {
						d["body"] = clip(r.Body)
						c.Violate("ended-before-its-timeout", d)
						return
					}
					time.Sleep(350 * time.Millisecond)
				}
				c.Case(fmt.Sprintf("vast %s=%d lane %d", cf.key, cf.val, lane))
				c.Count("vast_timeouts", 1)
			}()
		}
		wg.Wait()
		k.S.Stop()
	})
}
