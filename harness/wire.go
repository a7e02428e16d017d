package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var t0 = time.Now()

// now is the one monotonic clock all events are stamped with (nanoseconds).
func now() int64 { return int64(time.Since(t0)) }

type HV struct{ K, V string }
type Headers []HV

func (h Headers) Get(k string) string {
	for _, x := range h {
		if strings.EqualFold(x.K, k) {
			return x.V
		}
	}
	return ""
}
func (h Headers) Has(k string) bool {
	for _, x := range h {
		if strings.EqualFold(x.K, k) {
			return true
		}
	}
	return false
}
func (h Headers) All(k string) []string {
	var o []string
	for _, x := range h {
		if strings.EqualFold(x.K, k) {
			o = append(o, x.V)
		}
	}
	return o
}

func readLine(br *bufio.Reader) (string, error) {
	l, err := br.ReadString('\n')
	if err != nil {
		return l, err
	}
	return strings.TrimRight(l, "\r\n"), nil
}

func readHeaders(br *bufio.Reader) (Headers, error) {
	var h Headers
	for {
		l, err := readLine(br)
		if err != nil {
			return h, err
		}
		if l == "" {
			return h, nil
		}
		i := strings.IndexByte(l, ':')
		if i < 0 {
			return h, fmt.Errorf("malformed header line %q", l)
		}
		h = append(h, HV{l[:i], strings.Trim(l[i+1:], " \t")})
	}
}

func readChunked(br *bufio.Reader) ([]byte, error) {
	var b []byte
	for {
		l, err := readLine(br)
		if err != nil {
			return b, err
		}
		if i := strings.IndexByte(l, ';'); i >= 0 {
			l = l[:i]
		}
		n, err := strconv.ParseInt(strings.TrimSpace(l), 16, 64)
		if err != nil {
			return b, fmt.Errorf("bad chunk size %q", l)
		}
		if n == 0 {
			_, err := readHeaders(br)
			return b, err
		}
		p := make([]byte, n)
		m, err := io.ReadFull(br, p)
		b = append(b, p[:m]...)
		if err != nil {
			return b, err
		}
		if l, err := readLine(br); err != nil || l != "" {
			return b, fmt.Errorf("bad chunk end %q %v", l, err)
		}
	}
}

// ---------------------------------------------------------------- upstream

// UpReq is one request as it arrived at an upstream, in arrival order.
type UpReq struct {
	Up      string
	Seq     int64
	Conn    int64
	N       int // ordinal on its connection
	T       int64
	Method  string
	Target  string
	Proto   string
	H       Headers
	Body    []byte
	BodyErr error
	SNI     string
}

func (r *UpReq) Case() string { return r.H.Get("X-Case") }

// UpConn lets a script answer at byte level.
type UpConn struct {
	net.Conn
	br      *bufio.Reader
	gone    chan struct{}
	closed  atomic.Bool
	raw     net.Conn
	unread  chan struct{}
	GoneAt  atomic.Int64
	Discard bool
}

// WatchPeer starts watching for the peer closing the connection; must be the last reader use.
func (u *UpConn) WatchPeer() <-chan struct{} {
	if u.gone == nil {
		u.gone = make(chan struct{})
		go func() {
			var b [1]byte
			for {
				_, err := u.br.Read(b[:])
				if err != nil {
					u.GoneAt.Store(now())
					close(u.gone)
					return
				}
			}
		}()
	}
	return u.gone
}

// Reset closes with RST.
func (u *UpConn) Reset() {
	if t, ok := u.raw.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	u.closed.Store(true)
	u.raw.Close()
}

func (u *UpConn) Done() { u.closed.Store(true); u.Conn.Close() }

func (u *UpConn) Send(s string) error {
	_, err := io.WriteString(u.Conn, s)
	return err
}

// Upstream is a loopback origin with scripted, byte-level behaviour.
type Upstream struct {
	Name     string
	ln       net.Listener
	Port     int
	Handler  func(r *UpReq, w *UpConn)
	mu       sync.Mutex
	reqs     []*UpReq
	conns    atomic.Int64
	live     atomic.Int64
	maxLive  atomic.Int64
	tlsConf  *tls.Config
	hsFail   atomic.Int64
	open     map[net.Conn]bool
	OnConn   func(n int64, c net.Conn) bool // true = handled
	NoRecord func(r *UpReq) bool            // not kept in Reqs
	keep     bool
	first    map[byte]int // first byte of every connection that carried any
	ends     map[int64]time.Time
}

// ended tells when connection id was seen to end.
func (u *Upstream) ended(id int64) (time.Time, bool) {
	u.mu.Lock()
	defer u.mu.Unlock()
	t, ok := u.ends[id]
	return t, ok
}

// sniffConn notes the first byte a peer sends.
type sniffConn struct {
	net.Conn
	u    *Upstream
	once sync.Once
}

func (s *sniffConn) Read(b []byte) (int, error) {
	n, err := s.Conn.Read(b)
	if n > 0 {
		s.once.Do(func() {
			s.u.mu.Lock()
			s.u.first[b[0]]++
			s.u.mu.Unlock()
		})
	}
	return n, err
}

// FirstBytes tells what connections began with.
func (u *Upstream) FirstBytes() (tlsN, other int) {
	u.mu.Lock()
	defer u.mu.Unlock()
	for b, n := range u.first {
		if b == 22 {
			tlsN += n
		} else {
			other += n
		}
	}
	return
}

var upSeq atomic.Int64

func (c *Ctx) newUpstream(name string, h func(r *UpReq, w *UpConn)) *Upstream {
	return c.newUpstreamAt(name, "127.0.0.1:0", nil, h)
}

func (c *Ctx) newUpstreamAt(name, addr string, tc *tls.Config, h func(r *UpReq, w *UpConn)) *Upstream {
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		c.Fatal("upstream listen: %v", err)
	}
	u := &Upstream{Name: name, ln: ln, Port: ln.Addr().(*net.TCPAddr).Port, Handler: h, tlsConf: tc, open: map[net.Conn]bool{}, keep: true, first: map[byte]int{}, ends: map[int64]time.Time{}}
	go u.serve()
	c.OnCleanup(u.Close)
	return u
}

func (u *Upstream) Close() {
	u.ln.Close()
	u.mu.Lock()
	for c := range u.open {
		c.Close()
	}
	u.mu.Unlock()
}

func (u *Upstream) CloseListener() { u.ln.Close() }

func (u *Upstream) serve() {
	for {
		cn, err := u.ln.Accept()
		if err != nil {
			return
		}
		go u.conn(cn)
	}
}

func (u *Upstream) conn(raw net.Conn) {
	id := u.conns.Add(1)
	l := u.live.Add(1)
	for {
		m := u.maxLive.Load()
		if l <= m || u.maxLive.CompareAndSwap(m, l) {
			break
		}
	}
	u.mu.Lock()
	u.open[raw] = true
	u.mu.Unlock()
	defer func() {
		u.mu.Lock()
		delete(u.open, raw)
		u.ends[id] = time.Now()
		u.mu.Unlock()
		u.live.Add(-1)
		raw.Close()
	}()
	if u.OnConn != nil && u.OnConn(id, raw) {
		return
	}
	cn := net.Conn(&sniffConn{Conn: raw, u: u})
	sni := ""
	if u.tlsConf != nil {
		t := tls.Server(cn, u.tlsConf)
		raw.SetDeadline(time.Now().Add(60 * time.Second))
		if err := t.Handshake(); err != nil {
			u.hsFail.Add(1)
			return
		}
		raw.SetDeadline(time.Time{})
		sni = t.ConnectionState().ServerName
		cn = t
	}
	br := bufio.NewReaderSize(cn, 64<<10)
	for n := 0; ; n++ {
		r, err := readRequest(br)
		if err != nil && r == nil {
			return
		}
		r.Up, r.Seq, r.Conn, r.N, r.T, r.SNI = u.Name, upSeq.Add(1), id, n, now(), sni
		if err != nil {
			r.BodyErr = err
		}
		u.mu.Lock()
		if u.keep && (u.NoRecord == nil || !u.NoRecord(r)) {
			u.reqs = append(u.reqs, r)
		}
		u.mu.Unlock()
		w := &UpConn{Conn: cn, br: br, raw: raw}
		u.Handler(r, w)
		if w.closed.Load() || w.gone != nil || r.BodyErr != nil {
			return
		}
	}
}

func readRequest(br *bufio.Reader) (*UpReq, error) {
	l, err := readLine(br)
	if err != nil {
		return nil, err
	}
	p := strings.SplitN(l, " ", 2)
	r := &UpReq{}
	r.Method = p[0]
	if len(p) > 1 {
		if i := strings.LastIndexByte(p[1], ' '); i >= 0 {
			r.Target, r.Proto = p[1][:i], p[1][i+1:]
		}
	}
	r.H, err = readHeaders(br)
	if err != nil {
		return nil, err
	}
	if strings.EqualFold(r.H.Get("Transfer-Encoding"), "chunked") {
		r.Body, err = readChunked(br)
	} else if cl := r.H.Get("Content-Length"); cl != "" {
		n, e := strconv.Atoi(cl)
		if e != nil {
			return r, e
		}
		r.Body = make([]byte, n)
		m := 0
		m, err = io.ReadFull(br, r.Body)
		r.Body = r.Body[:m]
	}
	return r, err
}

// Reqs is a snapshot of everything this upstream has received.
func (u *Upstream) Reqs() []*UpReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	return append([]*UpReq(nil), u.reqs...)
}

func (u *Upstream) ForCase(id string) []*UpReq {
	var o []*UpReq
	for _, r := range u.Reqs() {
		if r.Case() == id {
			o = append(o, r)
		}
	}
	return o
}

func (u *Upstream) Forget() {
	u.mu.Lock()
	u.reqs = nil
	u.mu.Unlock()
}

// ForgetPrefix drops records of finished cases.
func (u *Upstream) ForgetPrefix(p string) {
	u.mu.Lock()
	var k []*UpReq
	for _, r := range u.reqs {
		if !strings.HasPrefix(r.Case(), p) {
			k = append(k, r)
		}
	}
	u.reqs = k
	u.mu.Unlock()
}

// httpResp renders a framed response.
func httpResp(code int, hs Headers, body []byte) string {
	var b strings.Builder
	fmt.Fprintf(&b, "HTTP/1.1 %d X\r\n", code)
	cl := false
	for _, h := range hs {
		if strings.EqualFold(h.K, "Content-Length") || strings.EqualFold(h.K, "Transfer-Encoding") {
			cl = true
		}
		fmt.Fprintf(&b, "%s: %s\r\n", h.K, h.V)
	}
	if !cl && code != 204 && code != 304 && code >= 200 {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.Write(body)
	return b.String()
}

func chunked(body []byte, sizes []int) string {
	var b strings.Builder
	i := 0
	for len(body) > 0 {
		n := len(body)
		if len(sizes) > 0 {
			n = sizes[i%len(sizes)]
			i++
		}
		if n <= 0 {
			n = 1
		}
		if n > len(body) {
			n = len(body)
		}
		fmt.Fprintf(&b, "%x\r\n", n)
		b.Write(body[:n])
		b.WriteString("\r\n")
		body = body[n:]
	}
	b.WriteString("0\r\n\r\n")
	return b.String()
}

// Reply answers r and keeps the connection; no body bytes for HEAD, they would be taken for the next response.
func (u *UpConn) Reply(r *UpReq, code int, hs Headers, body []byte) {
	t := httpResp(code, hs, body)
	if r.Method == "HEAD" {
		t = t[:strings.Index(t, "\r\n\r\n")+4]
	}
	u.Send(t)
}

// ---------------------------------------------------------------- client

// Resp is one response as it arrived on the client's wire.
type Resp struct {
	Proto   string
	Code    int
	Reason  string
	H       Headers
	Body    []byte
	Framing string // none, length, chunked, close
	Err     error  // truncation or malformed framing
	T       int64
	Interim []int
}

func newClient(cn net.Conn) *Client { return &Client{cn, bufio.NewReaderSize(cn, 64<<10)} }

// Client is a raw HTTP/1.1 connection.
type Client struct {
	cn net.Conn
	br *bufio.Reader
}

func dial(addr string, tc *tls.Config) (*Client, error) {
	cn, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return nil, err
	}
	if tc != nil {
		t := tls.Client(cn, tc)
		cn.SetDeadline(time.Now().Add(30 * time.Second))
		if err := t.Handshake(); err != nil {
			cn.Close()
			return nil, err
		}
		cn.SetDeadline(time.Time{})
		return &Client{t, bufio.NewReaderSize(t, 64<<10)}, nil
	}
	return &Client{cn, bufio.NewReaderSize(cn, 64<<10)}, nil
}

func (c *Client) Close() { c.cn.Close() }

func (c *Client) Send(s string) error {
	_, err := io.WriteString(c.cn, s)
	return err
}

var errWatchdog = errors.New("watchdog")

// Read reads one response to method within d.
func (c *Client) Read(method string, d time.Duration) (*Resp, error) {
	c.cn.SetReadDeadline(time.Now().Add(d))
	defer c.cn.SetReadDeadline(time.Time{})
	r, err := readResponse(c.br, method)
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return r, errWatchdog
		}
	}
	if r != nil && r.Err != nil {
		if ne, ok := r.Err.(net.Error); ok && ne.Timeout() {
			return r, errWatchdog
		}
	}
	return r, err
}

func readResponse(br *bufio.Reader, method string) (*Resp, error) {
	r := &Resp{}
	for {
		l, err := readLine(br)
		if err != nil {
			if l == "" {
				return nil, err
			}
			return nil, fmt.Errorf("partial status line %q: %w", l, err)
		}
		r.T = now()
		p := strings.SplitN(l, " ", 3)
		if len(p) < 2 || !strings.HasPrefix(p[0], "HTTP/1.") || len(p[1]) != 3 {
			return nil, fmt.Errorf("malformed status line %q", l)
		}
		r.Proto = p[0]
		r.Code, err = strconv.Atoi(p[1])
		if err != nil {
			return nil, fmt.Errorf("malformed status line %q", l)
		}
		if len(p) > 2 {
			r.Reason = p[2]
		}
		r.H, err = readHeaders(br)
		if err != nil {
			return nil, err
		}
		if r.Code >= 100 && r.Code < 200 && r.Code != 101 {
			r.Interim = append(r.Interim, r.Code)
			continue
		}
		break
	}
	te := r.H.Get("Transfer-Encoding")
	cls := r.H.All("Content-Length")
	for _, x := range cls {
		if x != cls[0] {
			r.Err = fmt.Errorf("conflicting content-length %v", cls)
			return r, nil
		}
	}
	switch {
	case method == "HEAD" || r.Code == 204 || r.Code == 304 || r.Code/100 == 1:
		r.Framing = "none"
	case method == "CONNECT" && r.Code/100 == 2:
		r.Framing = "none"
	case strings.EqualFold(te, "chunked"):
		if len(cls) > 0 {
			r.Err = errors.New("both transfer-encoding and content-length")
		}
		r.Framing = "chunked"
		b, err := readChunked(br)
		r.Body = b
		if err != nil {
			r.Err = err
		}
	case te != "":
		r.Err = fmt.Errorf("unknown transfer-encoding %q", te)
	case len(cls) > 0:
		r.Framing = "length"
		n, err := strconv.ParseInt(cls[0], 10, 64)
		if err != nil || n < 0 || n > 1<<31 {
			r.Err = fmt.Errorf("bad content-length %q", cls[0])
			return r, nil
		}
		r.Body = make([]byte, n)
		m, err := io.ReadFull(br, r.Body)
		r.Body = r.Body[:m]
		if err != nil {
			r.Err = err
		}
	default:
		r.Framing = "close"
		b, err := io.ReadAll(br)
		r.Body = b
		if err != nil {
			r.Err = err
		}
	}
	return r, nil
}

// reqText renders a request with exact header lines.
func reqText(method, target string, hs Headers, body []byte) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\n", method, target)
	host, fr := false, false
	for _, h := range hs {
		if strings.EqualFold(h.K, "Host") {
			host = true
		}
		if strings.EqualFold(h.K, "Content-Length") || strings.EqualFold(h.K, "Transfer-Encoding") {
			fr = true
		}
	}
	if !host {
		b.WriteString("Host: j8a.test\r\n")
	}
	for _, h := range hs {
		fmt.Fprintf(&b, "%s: %s\r\n", h.K, h.V)
	}
	if len(body) > 0 && !fr {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.Write(body)
	return b.String()
}

const watchdog = 60 * time.Second

// do performs one exchange on its own connection.
func (s *Server) do(method, target string, hs Headers, body []byte) (*Resp, error) {
	return s.doRaw(method, reqText(method, target, hs, body))
}

func (s *Server) doRaw(method, raw string) (*Resp, error) {
	c, err := dial(s.Addr, nil)
	if err != nil {
		return nil, err
	}
	defer c.Close()
	go c.Send(raw)
	return c.Read(method, watchdog)
}

// decode undoes the content coding a response declares; what remains is the representation.
func (r *Resp) decode() ([]byte, error) {
	ces := r.H.All("Content-Encoding")
	var codings []string
	for _, v := range ces {
		for _, p := range strings.Split(v, ",") {
			p = strings.ToLower(strings.TrimSpace(p))
			if p != "" {
				codings = append(codings, p)
			}
		}
	}
	b := r.Body
	for i := len(codings) - 1; i >= 0; i-- {
		switch codings[i] {
		case "identity":
		case "gzip", "x-gzip":
			d, err := gunzip(b)
			if err != nil {
				return nil, fmt.Errorf("declared gzip but does not decode: %v", err)
			}
			b = d
		default:
			return b, fmt.Errorf("unknown coding %q", codings[i])
		}
	}
	return b, nil
}

func gzipBytes(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func gunzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}
