package main

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"strings"
	"sync"
	"time"

	"vh/hpack"
)

// A raw HTTP/2 client: every byte of :path and of the header fields is sent as given, frames can be cut, held back and
// reset at will, and what the server sends is checked for order, lengths and pseudo header fields. (hpack/ is a copy of the
// Go distribution's package.)

const (
	fData, fHeaders, fRst, fSettings, fPing, fGoaway, fWindow, fCont = 0, 1, 3, 4, 6, 7, 8, 9
	flEnd, flEndHeaders, flPadded                                    = 1, 4, 8
)

type h2stream struct {
	c       *h2raw
	id      uint32
	method  string
	win     int64
	res     *Resp
	body    bytes.Buffer
	got     bool // final header block
	ended   bool
	rst     int64 // error code, -1 = none
	done    chan struct{}
	trailer Headers
}

type h2raw struct {
	cn      net.Conn
	wmu     sync.Mutex
	enc     *hpack.Encoder
	eb      bytes.Buffer
	mu      sync.Mutex
	cond    *sync.Cond
	streams map[uint32]*h2stream
	next    uint32
	win     int64
	iwin    int64
	maxFr   int
	dead    error
	goaway  bool
	n       int
}

func h2dial(addr string, tc *tls.Config) (*h2raw, error) {
	t := tc.Clone()
	t.NextProtos = []string{"h2"}
	nc, err := (&net.Dialer{Timeout: watchdog}).Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	cn := tls.Client(nc, t)
	cn.SetDeadline(time.Now().Add(watchdog))
	if err := cn.Handshake(); err != nil {
		nc.Close()
		return nil, err
	}
	cn.SetDeadline(time.Time{})
	if p := cn.ConnectionState().NegotiatedProtocol; p != "h2" {
		nc.Close()
		return nil, fmt.Errorf("negotiated %q", p)
	}
	h := &h2raw{cn: cn, streams: map[uint32]*h2stream{}, next: 1, win: 65535, iwin: 65535, maxFr: 16384}
	h.cond = sync.NewCond(&h.mu)
	h.enc = hpack.NewEncoder(&h.eb)
	var b bytes.Buffer
	b.WriteString("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n")
	b.Write(h2frame(fSettings, 0, 0, []byte{0, 2, 0, 0, 0, 0, 0, 4, 0x7f, 0xff, 0xff, 0xff, 0, 6, 0x00, 0xff, 0xff, 0xff}))
	b.Write(h2frame(fWindow, 0, 0, []byte{0x7f, 0, 0, 0}))
	if _, err := cn.Write(b.Bytes()); err != nil {
		nc.Close()
		return nil, err
	}
	go h.read()
	return h, nil
}

func h2frame(t, flags byte, id uint32, p []byte) []byte {
	b := make([]byte, 9, 9+len(p))
	b[0], b[1], b[2], b[3], b[4] = byte(len(p)>>16), byte(len(p)>>8), byte(len(p)), t, flags
	binary.BigEndian.PutUint32(b[5:], id)
	return append(b, p...)
}

func (h *h2raw) write(b []byte) error {
	h.wmu.Lock()
	defer h.wmu.Unlock()
	h.cn.SetWriteDeadline(time.Now().Add(watchdog))
	_, err := h.cn.Write(b)
	return err
}

func (h *h2raw) fail(err error) {
	h.mu.Lock()
	if h.dead == nil {
		h.dead = err
	}
	for _, s := range h.streams {
		s.finish(fmt.Errorf("connection ended: %v", h.dead))
	}
	h.cond.Broadcast()
	h.mu.Unlock()
	h.cn.Close()
}

// finish is called with the lock held.
func (s *h2stream) finish(err error) {
	if s.ended {
		return
	}
	s.ended = true
	if s.res != nil {
		s.res.Body = append([]byte(nil), s.body.Bytes()...)
		if s.res.Err == nil {
			s.res.Err = err
		}
		s.res.T = now()
		if cl := s.res.H.All("content-length"); err == nil && s.method != "HEAD" && len(cl) > 0 && s.res.Code != 304 {
			if len(cl) != 1 || cl[0] != fmt.Sprint(len(s.res.Body)) {
				s.res.Err = fmt.Errorf("content-length %q but %d bytes of data", cl, len(s.res.Body))
			}
		}
		if err == nil && (s.method == "HEAD" || s.res.Code == 204 || s.res.Code == 304) && len(s.res.Body) > 0 {
			s.res.Err = fmt.Errorf("%d body bytes", len(s.res.Body))
		}
	}
	delete(s.c.streams, s.id)
	s.c.n--
	close(s.done)
}

func (h *h2raw) read() {
	dec := hpack.NewDecoder(4096, nil)
	var hb []byte
	var hid uint32
	var hend bool
	for {
		hd := make([]byte, 9)
		if _, err := io.ReadFull(h.cn, hd); err != nil {
			h.fail(err)
			return
		}
		n := int(hd[0])<<16 | int(hd[1])<<8 | int(hd[2])
		p := make([]byte, n)
		if _, err := io.ReadFull(h.cn, p); err != nil {
			h.fail(err)
			return
		}
		t, fl, id := hd[3], hd[4], binary.BigEndian.Uint32(hd[5:])&0x7fffffff
		if hb != nil && (t != fCont || id != hid) {
			h.fail(errors.New("frame within a header block"))
			return
		}
		if (t == fData || t == fHeaders) && fl&flPadded != 0 {
			if n == 0 || int(p[0]) >= n {
				h.fail(errors.New("bad padding"))
				return
			}
			p = p[1 : n-int(p[0])]
		}
		switch t {
		case fSettings:
			if fl&1 != 0 {
				break
			}
			h.mu.Lock()
			for i := 0; i+6 <= len(p); i += 6 {
				v := binary.BigEndian.Uint32(p[i+2:])
				switch binary.BigEndian.Uint16(p[i:]) {
				case 4:
					d := int64(v) - h.iwin
					h.iwin = int64(v)
					for _, s := range h.streams {
						s.win += d
					}
				case 5:
					h.maxFr = int(v)
				}
			}
			h.cond.Broadcast()
			h.mu.Unlock()
			h.write(h2frame(fSettings, 1, 0, nil))
		case fPing:
			if fl&1 == 0 {
				h.write(h2frame(fPing, 1, 0, p))
			}
		case fWindow:
			h.mu.Lock()
			d := int64(binary.BigEndian.Uint32(p) & 0x7fffffff)
			if id == 0 {
				h.win += d
			} else if s := h.streams[id]; s != nil {
				s.win += d
			}
			h.cond.Broadcast()
			h.mu.Unlock()
		case fGoaway:
			h.mu.Lock()
			h.goaway = true
			last := binary.BigEndian.Uint32(p) & 0x7fffffff
			for _, s := range h.streams {
				if s.id > last {
					s.finish(fmt.Errorf("goaway code %d", binary.BigEndian.Uint32(p[4:])))
				}
			}
			h.mu.Unlock()
		case fRst:
			h.mu.Lock()
			if s := h.streams[id]; s != nil {
				s.rst = int64(binary.BigEndian.Uint32(p))
				s.finish(fmt.Errorf("stream reset by server, code %d", s.rst))
			}
			h.cond.Broadcast()
			h.mu.Unlock()
		case fData:
			if n > 0 {
				w := make([]byte, 4)
				binary.BigEndian.PutUint32(w, uint32(n))
				h.write(h2frame(fWindow, 0, 0, w))
			}
			h.mu.Lock()
			if s := h.streams[id]; s != nil {
				if !s.got && s.res != nil && s.res.Err == nil {
					s.res.Err = errors.New("data before the header block")
				}
				s.body.Write(p)
				if fl&flEnd != 0 {
					s.finish(nil)
				}
			}
			h.mu.Unlock()
		case fHeaders, fCont:
			if t == fHeaders {
				if fl&0x20 != 0 && len(p) >= 5 {
					p = p[5:]
				}
				hb, hid, hend = []byte{}, id, fl&flEnd != 0
			}
			hb = append(hb, p...)
			if fl&flEndHeaders == 0 {
				break
			}
			fs, err := dec.DecodeFull(hb)
			hb = nil
			if err != nil {
				h.fail(err)
				return
			}
			h.mu.Lock()
			if s := h.streams[id]; s != nil {
				s.headers(fs, hend)
			}
			h.mu.Unlock()
		}
	}
}

func (s *h2stream) headers(fs []hpack.HeaderField, end bool) {
	if s.got { // trailers
		for _, f := range fs {
			s.trailer = append(s.trailer, HV{f.Name, f.Value})
		}
		if !end {
			s.res.Err = errors.New("second header block without end of stream")
		}
		s.finish(nil)
		return
	}
	r := &Resp{Proto: "HTTP/2.0", Framing: "h2"}
	if s.res != nil {
		r.Interim = s.res.Interim
	}
	for i, f := range fs {
		if f.Name == ":status" && i == 0 {
			fmt.Sscan(f.Value, &r.Code)
			continue
		}
		if strings.HasPrefix(f.Name, ":") || f.Name != strings.ToLower(f.Name) {
			r.Err = fmt.Errorf("header field %q", f.Name)
		}
		switch f.Name {
		case "connection", "transfer-encoding", "keep-alive", "upgrade", "proxy-connection":
			r.Err = fmt.Errorf("header field %q over HTTP/2", f.Name)
		}
		r.H = append(r.H, HV{f.Name, f.Value})
	}
	if r.Code >= 100 && r.Code < 200 {
		r.Interim = append(r.Interim, r.Code)
		s.res = r
		return
	}
	s.res, s.got = r, true
	if end {
		s.finish(nil)
	}
}

// open sends the header block of a request. Header fields named Host become :authority.
func (h *h2raw) open(method, path string, hs Headers, end bool) (*h2stream, error) {
	host := "localhost"
	for _, x := range hs {
		if strings.EqualFold(x.K, "Host") {
			host = x.V
		}
	}
	h.mu.Lock()
	if h.dead != nil || h.goaway {
		err := h.dead
		h.mu.Unlock()
		if err == nil {
			err = errors.New("goaway")
		}
		return nil, err
	}
	h.mu.Unlock()
	h.wmu.Lock()
	defer h.wmu.Unlock()
	h.mu.Lock()
	s := &h2stream{c: h, id: h.next, method: method, win: h.iwin, rst: -1, done: make(chan struct{})}
	h.next += 2
	h.streams[s.id] = s
	h.n++
	h.mu.Unlock()
	h.eb.Reset()
	w := func(k, v string) { h.enc.WriteField(hpack.HeaderField{Name: k, Value: v}) }
	w(":method", method)
	w(":scheme", "https")
	w(":authority", host)
	w(":path", path)
	for _, x := range hs {
		if !strings.EqualFold(x.K, "Host") {
			w(strings.ToLower(x.K), x.V)
		}
	}
	b := h.eb.Bytes()
	var out []byte
	for t := byte(fHeaders); ; t = fCont {
		n := len(b)
		if n > 16384 {
			n = 16384
		}
		var fl byte
		if end && t == fHeaders {
			fl |= flEnd
		}
		if n == len(b) {
			fl |= flEndHeaders
		}
		out = append(out, h2frame(t, fl, s.id, b[:n])...)
		b = b[n:]
		if len(b) == 0 {
			break
		}
	}
	h.cn.SetWriteDeadline(time.Now().Add(watchdog))
	if _, err := h.cn.Write(out); err != nil {
		return s, err
	}
	return s, nil
}

// data sends body bytes within the flow control windows, pad extra bytes with each frame; stops if the stream has ended.
func (s *h2stream) data(b []byte, end bool, pad int) error {
	h := s.c
	for first := true; first || len(b) > 0; first = false {
		h.mu.Lock()
		dl := time.AfterFunc(watchdog, h.cond.Broadcast)
		t0 := time.Now()
		for h.dead == nil && !s.ended && len(b) > 0 && (h.win <= int64(pad+1) || s.win <= int64(pad+1)) && time.Since(t0) < watchdog {
			h.cond.Wait()
		}
		dl.Stop()
		if h.dead != nil || s.ended {
			h.mu.Unlock()
			return errors.New("stream ended")
		}
		n := len(b)
		extra := 0
		if pad > 0 {
			extra = pad + 1
		}
		for _, x := range []int{h.maxFr - extra, int(min(h.win, s.win)) - extra} {
			n = min(n, x)
		}
		if n < 0 || n == 0 && len(b) > 0 {
			h.mu.Unlock()
			return errors.New("no window")
		}
		h.win -= int64(n + extra)
		s.win -= int64(n + extra)
		h.mu.Unlock()
		var fl byte
		if end && n == len(b) {
			fl |= flEnd
		}
		p := b[:n]
		if pad > 0 {
			fl |= flPadded
			p = append(append([]byte{byte(pad)}, p...), make([]byte, pad)...)
		}
		if err := h.write(h2frame(fData, fl, s.id, p)); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func (s *h2stream) reset(code uint32) {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, code)
	s.c.write(h2frame(fRst, 0, s.id, b))
	s.c.mu.Lock()
	s.finish(errors.New("reset by us"))
	s.c.mu.Unlock()
}

func (s *h2stream) wait(d time.Duration) (*Resp, error) {
	select {
	case <-s.done:
	case <-time.After(d):
		return nil, errWatchdog
	}
	s.c.mu.Lock()
	defer s.c.mu.Unlock()
	if s.res == nil || s.res.Code < 200 {
		e := fmt.Errorf("no response (%v)", s.c.dead)
		if s.rst >= 0 {
			e = fmt.Errorf("stream reset by server without response, code %d", s.rst)
		}
		return nil, e
	}
	return s.res, nil
}

// h2front keeps a few connections to a server and spreads exchanges over them.
type h2front struct {
	s    *Server
	tc   *tls.Config
	mu   sync.Mutex
	pool []*h2raw
	size int
}

func (s *Server) h2raws(tc *tls.Config, size int) *h2front {
	f := &h2front{s: s, tc: tc, size: size, pool: make([]*h2raw, size)}
	s.c.OnCleanup(func() {
		for _, h := range f.pool {
			if h != nil {
				h.cn.Close()
			}
		}
	})
	return f
}

func (f *h2front) conn() (*h2raw, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	k, best := 0, 1<<30
	for i, h := range f.pool {
		if h == nil {
			if best > 0 {
				k, best = i, 0
			}
			continue
		}
		h.mu.Lock()
		n := h.n
		if h.dead != nil || h.goaway {
			f.pool[i], n = nil, 0
		}
		h.mu.Unlock()
		if n < best {
			k, best = i, n
		}
	}
	if f.pool[k] == nil {
		h, err := h2dial(f.s.Addr, f.tc)
		if err != nil {
			return nil, err
		}
		f.pool[k] = h
	}
	return f.pool[k], nil
}

// ex has the signature of Server.ex. A nil body is none; Content-Length is sent unless hs has X-H2-Stream.
func (f *h2front) ex(method, target string, hs Headers, body []byte) (*Resp, error) {
	return f.exBody(method, target, hs, body, true, nil, 0)
}

func (f *h2front) exBody(method, target string, hs Headers, body []byte, length bool, cuts []int, pad int) (*Resp, error) {
	h, err := f.conn()
	if err != nil {
		return nil, err
	}
	if body != nil && length && !hs.Has("Content-Length") {
		hs = append(append(Headers{}, hs...), HV{"Content-Length", fmt.Sprint(len(body))})
	}
	s, err := h.open(method, target, hs, body == nil)
	if err != nil {
		return nil, err
	}
	if body != nil {
		go func() {
			rest := body
			for _, n := range cuts {
				if n < len(rest) {
					if s.data(rest[:n], false, pad) != nil {
						return
					}
					rest = rest[n:]
					time.Sleep(2 * time.Millisecond)
				}
			}
			s.data(rest, true, pad)
		}()
	}
	r, err := s.wait(watchdog)
	if err == errWatchdog && f.controlOK(2) {
		err = errNoAnswer
	}
	return r, err
}

// controlOK tells whether fresh TLS connections are still served.
func (f *h2front) controlOK(n int) bool {
	for i := 0; i < n; i++ {
		c, err := dial(f.s.Addr, f.tc)
		if err != nil {
			return false
		}
		c.Send("GET /vh-control-no-route HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
		_, err = c.Read("GET", 30*time.Second)
		c.Close()
		if err != nil {
			return false
		}
	}
	return true
}

// tlsTwin starts a server with the same configuration in TLS mode and returns a raw HTTP/2 front to it.
func (c *Ctx) tlsTwin(cfg J, o StartOpt, conns int) (*Server, *h2front) {
	p := newPKI()
	t, con := J{}, J{}
	for k, v := range cfg {
		t[k] = v
	}
	if x, ok := cfg["connection"].(J); ok {
		for k, v := range x {
			con[k] = v
		}
	}
	down, _ := con["downstream"].(J)
	if down == nil {
		down = J{}
	}
	con["downstream"] = p.down(down)
	t["connection"] = con
	o.TLS = true
	s := c.start(t, o)
	return s, s.h2raws(p.client(), conns)
}

// lanes sends some exchanges through a raw HTTP/2 connection to a TLS twin of the server, which is started when first needed.
type lanes struct {
	c    *Ctx
	s    *Server
	cfg  J
	o    StartOpt
	once sync.Once
	tw   *Server
	f    *h2front
}

func (c *Ctx) lanes(s *Server, cfg J, o StartOpt) *lanes { return &lanes{c: c, s: s, cfg: cfg, o: o} }

// h2ok tells whether an exchange can be expressed in HTTP/2 as it is.
func h2ok(method, target string, hs Headers) bool {
	if _, err := url.ParseRequestURI(target); err != nil || target[0] != '/' || method == "CONNECT" {
		return false
	}
	for _, x := range hs {
		switch strings.ToLower(x.K) {
		case "connection", "keep-alive", "proxy-connection", "transfer-encoding", "upgrade", "te", "expect", "trailer", "cookie", "content-length":
			return false
		}
		for _, b := range []byte(x.V) {
			if b < ' ' && b != '\t' || b == 127 {
				return false
			}
		}
		if x.V != strings.TrimSpace(x.V) {
			return false
		}
	}
	return true
}

// ex is Server.ex, over HTTP/2 for every fourth i where that is possible. The second result names the protocol.
func (l *lanes) ex(i int, method, target string, hs Headers, body []byte) (*Resp, string, error) {
	if i%4 == 3 {
		var o Headers
		for _, x := range hs {
			if !strings.EqualFold(x.K, "Http2-Settings") {
				o = append(o, x)
			}
		}
		if h2ok(method, target, o) {
			l.once.Do(func() { l.tw, l.f = l.c.tlsTwin(l.cfg, l.o, 4) })
			if len(body) == 0 {
				body = nil
			}
			r, err := l.f.exBody(method, target, o, body, i%8 == 3, nil, 0)
			l.c.Count("http2_exchanges", 1)
			return r, "h2", err
		}
	}
	if _, err := url.ParseRequestURI(target); err == nil && target[0] == '/' && i%16 == 5 && method != "CONNECT" {
		l.c.Count("absolute_form_exchanges", 1)
		r, err := l.s.ex(method, "http://absolute.test"+target, hs, body)
		return r, "h1-absolute", err
	}
	r, err := l.s.ex(method, target, hs, body)
	return r, "h1", err
}

// check looks after the twin like checkHealth.
func (l *lanes) check() {
	if l.tw != nil {
		l.c.checkHealth(l.tw)
	}
}
