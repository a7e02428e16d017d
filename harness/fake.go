package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Servers in simulated time: the runtime's faketime build, in which the clock starts at fakeEpoch and jumps to the next
// timer whenever all goroutines sleep. Days of background work take seconds and do not depend on load.

var fakeEpoch = time.Date(2009, 11, 10, 23, 0, 0, 0, time.UTC)

func (c *Ctx) buildFake() (string, string) {
	out := filepath.Join(c.Scratch, "j8a-faketime")
	cmd := exec.Command(goBin(), "build", "-buildvcs=false", "-tags", "faketime", "-o", out, "./cmd/j8a")
	cmd.Dir = c.Repo
	cmd.Env = append(buildEnv(), "CGO_ENABLED=0")
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", string(b)
	}
	return out, ""
}

// fakeRun runs a server until its clock shows at least until, or real has passed, and returns its log.
func (c *Ctx) fakeRun(bin string, cfg J, until time.Time, real time.Duration) (lines []logLine, reached time.Time, raw []string) {
	dir, _ := os.MkdirTemp(c.Scratch, "fake")
	p := filepath.Join(dir, "cfg.yml")
	os.WriteFile(p, mustJSON(mkcfg(freePort(), cfg)), 0644)
	cmd := exec.Command(bin, "-c", p)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "LOGLEVEL=DEBUG", "HOSTNAME=vh", "TZ=UTC", "GOMAXPROCS=1"}
	pr, pw, err := os.Pipe()
	if err != nil {
		c.Fatal("pipe: %v", err)
	}
	cmd.Stderr, cmd.Stdout = pw, pw
	if err := cmd.Start(); err != nil {
		c.Fatal("start: %v", err)
	}
	pw.Close()
	timer := time.AfterFunc(real, func() { cmd.Process.Kill() })
	defer timer.Stop()
	br := bufio.NewReaderSize(pr, 1<<20)
	rest := ""
	for {
		h := make([]byte, 16)
		if _, err := io.ReadFull(br, h); err != nil {
			break
		}
		if string(h[:4]) != "\x00\x00PB" {
			raw = append(raw, fmt.Sprintf("unexpected output %q", h))
			break
		}
		at := time.Unix(0, int64(binary.BigEndian.Uint64(h[4:])))
		b := make([]byte, int(binary.BigEndian.Uint32(h[12:])))
		if _, err := io.ReadFull(br, b); err != nil {
			break
		}
		reached = at
		rest += string(b)
		for {
			i := strings.IndexByte(rest, '\n')
			if i < 0 {
				break
			}
			var l logLine
			if json.Unmarshal([]byte(rest[:i]), &l) == nil {
				l["@at"] = at
				lines = append(lines, l)
			} else {
				raw = append(raw, rest[:i])
			}
			rest = rest[i+1:]
		}
		if at.After(until) {
			break
		}
	}
	cmd.Process.Kill()
	cmd.Wait()
	pr.Close()
	return
}

func (l logLine) at() time.Time { t, _ := l["@at"].(time.Time); return t }
