package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var goEnv = []string{"HOME=/root", "GOPATH=/root/go", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod"}

func goBin() string {
	if p := os.Getenv("VH_GO"); p != "" {
		return p
	}
	return "/opt/veriftools/go1.27.3/bin/go"
}

func buildEnv() []string {
	e := append(os.Environ(), goEnv...)
	if os.Getenv("GOCACHE") == "" {
		e = append(e, "GOCACHE=/root/.cache/go-build")
	}
	return e
}

// buildJ8a compiles the real server from the repository's working tree.
func (c *Ctx) buildJ8a(race bool) string {
	out := filepath.Join(c.Scratch, "j8a")
	args := []string{"build", "-buildvcs=false", "-o", out}
	if race {
		out += "-race"
		args = []string{"build", "-buildvcs=false", "-race", "-o", out}
	}
	args = append(args, "./cmd/j8a")
	cmd := exec.Command(goBin(), args...)
	cmd.Dir = c.Repo
	cmd.Env = buildEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		c.Fatal("cannot build j8a: %v\n%s", err, b)
	}
	return out
}

type logLine map[string]any

func (l logLine) S(k string) string {
	s, _ := l[k].(string)
	return s
}
func (l logLine) I(k string) int {
	f, _ := l[k].(float64)
	return int(f)
}

// Server is one running j8a process plus the JSON log it emits.
type Server struct {
	c     *Ctx
	cmd   *exec.Cmd
	Port  int
	Addr  string
	TLS   bool
	dir   string
	mu    sync.Mutex
	lines []logLine
	idx   map[string][]logLine
	idxN  int
	raw   []string
	onLn  func([]byte)
	dups  []string // records of C26 in which a key occurs twice
	done  chan struct{}
	state *os.ProcessState
	exit  error
	stop  atomic.Bool
	cond  *sync.Cond
}

type J map[string]any
type A []any

var portNext atomic.Int32

func init() {
	portNext.Store(int32(12000 + rand.New(rand.NewSource(time.Now().UnixNano()+int64(os.Getpid()))).Intn(9000)))
}

// freePort returns a loopback port below the ephemeral range that nothing listens on now.
func freePort() int {
	for {
		p := int(portNext.Add(1))
		if p > 31000 {
			portNext.Store(12000)
			continue
		}
		// no fork meanwhile: a child would keep the listener open until it execs
		syscall.ForkLock.RLock()
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			l.Close()
		}
		syscall.ForkLock.RUnlock()
		if err == nil {
			return p
		}
	}
}

type StartOpt struct {
	Bin     string
	Env     []string
	ViaEnv  bool   // config via J8ACFG_YML
	ViaDflt bool   // config via default file j8acfg.yml in cwd
	Raw     string // raw yaml instead of cfg
	Level   string
	Port    int
	NoWait  bool
	TLS     bool
	OnLine  func([]byte) // sees all output
}

func mkcfg(port int, cfg J) J {
	out := J{}
	for k, v := range cfg {
		out[k] = v
	}
	conn, _ := out["connection"].(J)
	if conn == nil {
		conn = J{}
	}
	nc := J{}
	for k, v := range conn {
		nc[k] = v
	}
	down, _ := nc["downstream"].(J)
	nd := J{}
	for k, v := range down {
		nd[k] = v
	}
	if _, ok := nd["port"]; !ok {
		nd["port"] = port
	}
	nc["downstream"] = nd
	out["connection"] = nc
	return out
}

// time zones servers live in, by turns.
var zones = []string{"UTC", "America/St_Johns", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Pago_Pago"}
var starts atomic.Int64

// surround adds what must make no difference to a configuration: entries nobody refers to, defaults spelt out, and other
// values of settings that the check at hand has no interest in.
func (c *Ctx) surround(cfg J, turn int) J {
	if c.ID == "C25" || c.ID == "C17" {
		return cfg
	}
	r := rand.New(rand.NewSource(c.Seed<<20 ^ int64(turn)))
	def := func(m J, k string, vs ...any) {
		if _, ok := m[k]; !ok {
			if v := pick(r, vs); v != nil {
				m[k] = v
			}
		}
	}
	conn := cfg["connection"].(J)
	down := conn["downstream"].(J)
	up := J{}
	if u, ok := conn["upstream"].(J); ok {
		for k, v := range u {
			up[k] = v
		}
	}
	conn["upstream"] = up
	def(down, "idleTimeoutSeconds", nil, 100, 3600)
	def(down, "mode", nil, "HTTP")
	def(up, "idleTimeoutSeconds", nil, 100, 3600)
	def(up, "poolSize", nil, 64, 40000)
	def(up, "tlsInsecureSkipVerify", nil, false)
	if c.ID != "C10" {
		def(down, "maxBodyBytes", nil, nil, 64<<20)
	}
	sub := func(k string) J {
		m := J{}
		if o, ok := cfg[k].(J); ok {
			for k, v := range o {
				m[k] = v
			}
		}
		cfg[k] = m
		return m
	}
	// names that differ from those in use by case only
	flip := func(k string, spare func() any) {
		for n := range sub(k) {
			v := strings.ToUpper(n)
			if v == n {
				v = strings.ToLower(n)
			}
			if m := cfg[k].(J); r.Intn(3) == 0 && m[v] == nil && len(m) < 200 {
				m[v] = spare()
			}
		}
	}
	if _, ok := cfg["resources"].(J); ok {
		flip("resources", func() any {
			return A{J{"labels": A{"default", "a", "b"}, "url": J{"scheme": "http", "host": "127.0.0.1", "port": 9}}}
		})
	}
	if _, ok := cfg["jwt"].(J); ok {
		flip("jwt", func() any { return J{"alg": "HS256", "key": token(r, 40)} })
	}
	bits := r.Intn(16)
	if bits&1 > 0 {
		sub("resources")["vh-spare"] = A{J{"labels": A{"vh-spare", "default"}, "url": J{"scheme": "https", "host": "127.0.0.1", "port": 9}}, J{"url": J{"scheme": "http", "host": "127.0.0.2", "port": 9}}}
	}
	if bits&2 > 0 {
		sub("jwt")["vh-spare"] = J{"alg": pick(r, []string{"HS256", "HS512"}), "key": token(r, 40), "acceptableSkewSeconds": "86400"}
	}
	if bits&4 > 0 {
		sub("policies")["vh-spare"] = A{J{"label": "vh-spare", "weight": 0.3}}
	}
	if rs, ok := cfg["routes"].(A); ok && bits == 15 {
		rt := J{"path": "/vh-spare-" + token(r, 40), "resource": "vh-spare", "policy": "vh-spare", "jwt": "vh-spare", "transform": "/vh"}
		cfg["routes"] = append(append(A{}, rs...), rt)
	}
	return cfg
}

func (c *Ctx) launch(cfg J, o StartOpt) *Server {
	port := o.Port
	turn := int(starts.Add(1))
	if port == 0 {
		port = freePort()
	}
	var txt []byte
	if o.Raw != "" {
		txt = []byte(strings.ReplaceAll(o.Raw, "@PORT@", fmt.Sprint(port)))
	} else {
		txt, _ = json.MarshalIndent(c.surround(mkcfg(port, cfg), turn), "", " ")
	}
	dir, _ := os.MkdirTemp(c.Scratch, "srv")
	s := &Server{c: c, Port: port, Addr: fmt.Sprintf("127.0.0.1:%d", port), dir: dir, done: make(chan struct{}), TLS: o.TLS, onLn: o.OnLine}
	s.cond = sync.NewCond(&s.mu)
	level := o.Level
	if level == "" {
		level = "TRACE"
	}
	env := []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "LOGLEVEL=" + level, "HOSTNAME=vh", "TZ=" + zones[turn%len(zones)]}
	var args []string
	switch {
	case o.ViaEnv:
		env = append(env, "J8ACFG_YML="+string(txt))
	case o.ViaDflt:
		os.WriteFile(filepath.Join(dir, "j8acfg.yml"), txt, 0644)
	default:
		p := filepath.Join(dir, "cfg.yml")
		os.WriteFile(p, txt, 0644)
		args = []string{"-c", p}
	}
	switch rand.New(rand.NewSource(c.Seed<<20 + int64(turn))).Intn(6) {
	case 0:
		env = append(env, "GOMAXPROCS=2")
	case 1:
		env = append(env, "GOMAXPROCS=1")
	case 2:
		env = append(env, "GOMAXPROCS=32")
	}
	env = append(env, o.Env...)
	cmd := exec.Command(o.Bin, args...)
	cmd.Dir = dir
	cmd.Env = env
	c.run(s, cmd)
	return s
}

// run starts the process and reads its log.
func (c *Ctx) run(s *Server, cmd *exec.Cmd) {
	pr, pw, err := os.Pipe()
	if err != nil {
		c.Fatal("pipe: %v", err)
	}
	cmd.Stderr = pw
	cmd.Stdout = pw
	if err := cmd.Start(); err != nil {
		c.Fatal("start: %v", err)
	}
	pw.Close()
	s.cmd = cmd
	rd := make(chan struct{})
	go func() {
		defer close(rd)
		br := bufio.NewReaderSize(pr, 1<<20)
		for {
			l, err := br.ReadBytes('\n')
			if len(l) > 0 {
				s.addLine(bytes.TrimRight(l, "\n"))
			}
			if err != nil {
				return
			}
		}
	}()
	go func() {
		st, e := cmd.Process.Wait()
		select {
		case <-rd:
		case <-time.After(10 * time.Second):
		}
		s.mu.Lock()
		s.state, s.exit = st, e
		s.mu.Unlock()
		close(s.done)
		s.cond.Broadcast()
	}()
	c.OnCleanup(s.Stop)
}

func (s *Server) addLine(b []byte) {
	if s.onLn != nil {
		s.onLn(b)
	}
	var l logLine
	if err := json.Unmarshal(b, &l); err != nil {
		s.mu.Lock()
		s.raw = append(s.raw, string(b))
		s.mu.Unlock()
		return
	}
	var dup []string
	if s.c.ID == "C26" {
		dup = dupKeys(b)
	}
	s.mu.Lock()
	if len(dup) > 0 && isAccess(l) {
		s.dups = append(s.dups, string(b))
	}
	m := l.S("message")
	// keep what the oracles read; drop chatty trace
	if l.S("level") != "trace" || m == "undetermined network event" || strings.Contains(m, "jwt token") {
		s.lines = append(s.lines, l)
	}
	s.mu.Unlock()
	s.cond.Broadcast()
}

// mustServe are the properties by which a server with a good configuration has to come up.
var mustServe = map[string]bool{"C14": true, "C16": true, "C17": true, "C18": true, "C23": true, "C25": true, "C27": true}

// start launches and waits until the port accepts connections or the process ends.
func (c *Ctx) start(cfg J, o StartOpt) *Server {
	s := c.launch(cfg, o)
	if !s.WaitUp(60 * time.Second) {
		first := s.Tail(20)
		s.Stop()
		// once more: the port may have been taken meanwhile
		if s = c.launch(cfg, o); s.WaitUp(60 * time.Second) {
			return s
		}
		if mustServe[c.ID] {
			c.Violate("good-configuration-not-served", J{"configuration": clip(mustJSON(cfg)), "log": first, "again": s.Tail(20)})
		}
		c.Fatal("server did not come up: %v\n%s", s.exit, s.Tail(20))
	}
	return s
}

func (s *Server) WaitUp(d time.Duration) bool {
	dl := time.Now().Add(d)
	for time.Now().Before(dl) {
		select {
		case <-s.done:
			return false
		default:
		}
		cn, err := net.DialTimeout("tcp", s.Addr, time.Second)
		if err == nil {
			cn.Close()
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

// WaitExit waits for process end; true when it ended.
func (s *Server) WaitExit(d time.Duration) bool {
	select {
	case <-s.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (s *Server) ExitCode() int {
	if s.state == nil {
		return -999
	}
	return s.state.ExitCode()
}

func (s *Server) Alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

func (s *Server) Stop() {
	if s.stop.Swap(true) {
		return
	}
	s.cmd.Process.Signal(syscall.SIGKILL)
	select {
	case <-s.done:
	case <-time.After(15 * time.Second):
	}
}

func (s *Server) Lines() []logLine {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]logLine(nil), s.lines...)
}

func (s *Server) Raw() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.raw...)
}

func (s *Server) Tail(n int) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var b strings.Builder
	ls := s.lines
	if len(ls) > n {
		ls = ls[len(ls)-n:]
	}
	for _, l := range ls {
		j, _ := json.Marshal(l)
		b.Write(j)
		b.WriteByte('\n')
	}
	rs := s.raw
	if len(rs) > 60 {
		rs = rs[:60]
	}
	for _, r := range rs {
		b.WriteString(r + "\n")
	}
	return b.String()
}

// Served returns the access-log records.
func (s *Server) Served() []logLine {
	var out []logLine
	for _, l := range s.Lines() {
		if isAccess(l) {
			out = append(out, l)
		}
	}
	return out
}

// Panics returns network events that report a handler panic, and raw crash output.
func (s *Server) Panics() []string {
	var out []string
	for _, l := range s.Lines() {
		if e := l.S("netEvt"); strings.Contains(e, "panic") {
			out = append(out, firstLines(e, 12))
		}
	}
	for _, r := range s.Raw() {
		if strings.HasPrefix(r, "panic:") || strings.HasPrefix(r, "fatal error:") {
			out = append(out, r)
		}
	}
	return out
}

func firstLines(s string, n int) string {
	p := strings.SplitN(s, "\n", n+1)
	if len(p) > n {
		p = p[:n]
	}
	return strings.Join(p, "\n")
}

// Races returns race-detector reports, deduplicated by the pair of top frames inside the module.
func (s *Server) Races() map[string]string {
	return racesIn(s.Raw())
}

func raceKey(blk []string) string {
	var secs []string
	var cur string
	in := false
	for _, l := range blk {
		t := strings.TrimSpace(l)
		if strings.HasSuffix(t, ":") && (strings.Contains(t, " at 0x") && strings.Contains(t, "by ")) {
			if in {
				secs = append(secs, cur)
			}
			in = true
			cur = ""
			continue
		}
		if strings.HasPrefix(t, "Goroutine ") {
			if in {
				secs = append(secs, cur)
			}
			in = false
			continue
		}
		if in && cur == "" && strings.HasPrefix(t, "github.com/simonmittag/j8a.") {
			cur = strings.SplitN(strings.TrimPrefix(t, "github.com/simonmittag/j8a."), "(0x", 2)[0]
			cur = strings.TrimSuffix(cur, "()")
		}
	}
	if in {
		secs = append(secs, cur)
	}
	if len(secs) > 2 {
		secs = secs[:2]
	}
	if len(secs) == 2 && secs[0] > secs[1] {
		secs[0], secs[1] = secs[1], secs[0]
	}
	return strings.Join(secs, "|")
}

// FDs and threads of the process, read from /proc (a process this harness started).
func (s *Server) FDs() int {
	d, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid))
	if err != nil {
		return -1
	}
	return len(d)
}

func (s *Server) RSSKB() int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", s.cmd.Process.Pid))
	if err != nil {
		return -1
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "VmRSS:") {
			var n int
			fmt.Sscanf(strings.TrimSpace(strings.TrimPrefix(l, "VmRSS:")), "%d", &n)
			return n
		}
	}
	return -1
}
