package sim

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/rpc"
	"github.com/gorilla/websocket"

	ethclient "github.com/icon-project/btp/chain/ethbr/client"
	iconclient "github.com/icon-project/btp/chain/icon/client"
)

// Host is one simulated endpoint as seen by one simulated process.
type Host struct {
	w    *World
	name string
	proc *Proc
	srv  Server
	// fault policy, consulted when an operation of this host is picked
	faults func(o *Op, method string) string
	port   func() int    // chooses the local port of a connection
	onConn func(*WSConn) // a connection was made
}

// Server is the model behind a host.
type Server interface {
	// RPC answers a JSON-RPC request.
	RPC(h *Host, method string, params json.RawMessage) (interface{}, *RPCError)
	// WSMessage is called for every text message on a websocket.
	WSMessage(h *Host, c *WSConn, msg []byte)
}

type RPCError struct {
	Code    int         `json:"code"`
	Message string      `json:"message"`
	Data    interface{} `json:"data,omitempty"`
	http    int
}

// rawServer answers requests below the level of JSON-RPC.
type rawServer interface {
	HTTP(h *Host, o *Op, req *http.Request, body []byte, done chan httpReply)
}

var (
	curMu    sync.Mutex
	curWorld *World
)

func setWorld(w *World) {
	curMu.Lock()
	defer curMu.Unlock()
	curWorld = w
}

func lookupHost(hostport string) *Host {
	curMu.Lock()
	w := curWorld
	curMu.Unlock()
	if w == nil {
		return nil
	}
	h := hostport
	if i := strings.IndexByte(h, ':'); i >= 0 {
		h = h[:i]
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.hosts[h]
}

// refusing tells whether hosts nobody made refuse connections in this run.
func refusing() bool {
	curMu.Lock()
	defer curMu.Unlock()
	return curWorld != nil && curWorld.refuse
}

func (w *World) AddHost(name string, p *Proc, s Server) *Host {
	h := &Host{w: w, name: name, proc: p, srv: s}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.hosts[name] = h
	return h
}

var errRefused = &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
var errReset = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}

func installSeams() {
	iconclient.VerifTransport = func(uri string, _ *http.Transport) http.RoundTripper { return simTransport{} }
	http.DefaultTransport = simTransport{}
	websocket.DefaultDialer.NetDial = func(network, addr string) (net.Conn, error) { return dialWS(addr) }
	websocket.DefaultDialer.Proxy = nil
	ethclient.VerifDial = func(uri string) (*rpc.Client, error) {
		if strings.HasPrefix(uri, "ws") {
			return rpc.DialWebsocketWithDialer(context.Background(), uri, "", websocket.Dialer{
				NetDial: func(network, addr string) (net.Conn, error) { return dialWS(addr) },
			})
		}
		return rpc.Dial(uri)
	}
}

type simTransport struct{}

type httpReply struct {
	resp *http.Response
	err  error
}

// opKey is the part of a request that identifies it.
func opKey(body []byte) (method string, params json.RawMessage, id json.RawMessage) {
	var r struct {
		ID     json.RawMessage `json:"id"`
		Method string          `json:"method"`
		Params json.RawMessage `json:"params"`
	}
	_ = json.Unmarshal(body, &r)
	return r.Method, r.Params, r.ID
}

func block(ctx context.Context) error {
	if ctx != nil && ctx.Done() != nil {
		<-ctx.Done()
		return ctx.Err()
	}
	select {}
}

func (simTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	h := lookupHost(req.URL.Host)
	if h == nil {
		if refusing() {
			return nil, errRefused
		}
		return nil, block(req.Context())
	}
	w := h.w
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	method, params, id := opKey(body)
	done := make(chan httpReply, 1)
	key := string(params)
	if method == "icx_sendTransaction" {
		key = stripSig(params)
	}
	op := &Op{node: h.name, kind: "http " + method, key: key, proc: h.proc}
	op.exec = func(o *Op) {
		w.Count("rpc")
		if rs, ok := h.srv.(rawServer); ok {
			rs.HTTP(h, o, req, body, done)
			return
		}
		h.serveHTTP(o, req, body, method, params, id, done)
	}
	w.register(op)
	select {
	case r := <-done:
		return r.resp, r.err
	case <-req.Context().Done():
		w.mu.Lock()
		op.dead = true
		w.mu.Unlock()
		return nil, req.Context().Err()
	}
}

func stripSig(params json.RawMessage) string {
	var m map[string]interface{}
	if json.Unmarshal(params, &m) != nil {
		return string(params)
	}
	delete(m, "signature")
	b, _ := json.Marshal(m)
	return string(b)
}

func httpResp(req *http.Request, code int, ct string, body io.Reader) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprintf("%d %s", code, http.StatusText(code)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{ct}}, Body: io.NopCloser(body), ContentLength: -1, Request: req}
}

// errReader yields its data and then fails, as a connection cut in mid-body does.
type errReader struct {
	r   io.Reader
	err error
}

func (e *errReader) Read(p []byte) (int, error) {
	n, err := e.r.Read(p)
	if err == io.EOF {
		err = e.err
	}
	return n, err
}

// serveHTTP answers one request, subject to the host's fault policy.
func (h *Host) serveHTTP(o *Op, req *http.Request, body []byte, method string, params, id json.RawMessage, done chan httpReply) {
	w := h.w
	f := ""
	if h.faults != nil {
		f = h.faults(o, method)
	}
	if f != "" {
		w.Fault("net:" + f)
		w.Tracef("%s %s FAULT %s", h.name, method, f)
	}
	switch f {
	case "refused":
		done <- httpReply{err: errRefused}
		return
	case "reset":
		done <- httpReply{err: errReset}
		return
	case "hang":
		d := time.Duration(1+w.C.N(90)) * time.Second
		go func() { time.Sleep(d); done <- httpReply{err: errReset} }()
		return
	case "http503":
		done <- httpReply{resp: httpResp(req, 503, "text/html", strings.NewReader("<html>503</html>"))}
		return
	case "http502empty":
		done <- httpReply{resp: httpResp(req, 502, "text/plain", strings.NewReader(""))}
		return
	}
	res, rerr := h.srv.RPC(h, method, params)
	out := map[string]interface{}{"jsonrpc": "2.0", "id": id}
	code := 200
	if rerr != nil {
		out["error"] = rerr
		if rerr.http != 0 {
			code = rerr.http
		}
	} else {
		out["result"] = res
	}
	b, err := json.Marshal(out)
	if err != nil {
		panic(err)
	}
	if f == "" {
		if rerr != nil {
			w.Tracef("%s %s -> error %d %s", h.name, method, rerr.Code, rerr.Message)
		} else {
			w.Tracef("%s %s -> ok", h.name, method)
		}
	}
	switch f {
	case "lostreply":
		done <- httpReply{err: errReset}
		return
	case "truncated":
		n := 0
		if len(b) > 1 {
			n = 1 + w.C.N(len(b)-1)
		}
		done <- httpReply{resp: httpResp(req, code, "application/json", &errReader{bytes.NewReader(b[:n]), io.ErrUnexpectedEOF})}
		return
	case "shortbody":
		// the same cut, but presented as a complete body
		n := 0
		if len(b) > 1 {
			n = 1 + w.C.N(len(b)-1)
		}
		done <- httpReply{resp: httpResp(req, code, "application/json", bytes.NewReader(b[:n]))}
		return
	case "emptybody":
		done <- httpReply{resp: httpResp(req, 200, "application/json", strings.NewReader(""))}
		return
	}
	if f == "slow" {
		d := time.Duration(1+w.C.N(60)) * time.Second
		go func() {
			time.Sleep(d)
			done <- httpReply{resp: httpResp(req, code, "application/json", bytes.NewReader(b))}
		}()
		return
	}
	done <- httpReply{resp: httpResp(req, code, "application/json", bytes.NewReader(b))}
}

// ---------------------------------------------------------------- websocket

type memAddr string

func (a memAddr) Network() string { return "tcp" }
func (a memAddr) String() string  { return string(a) }

// half is one direction of a connection: unbounded buffer, blocking reads.
type half struct {
	mu   sync.Mutex
	buf  []byte
	err  error
	wake chan struct{}
	sink bool // the reader is gone, what is written is lost
}

func newHalf() *half { return &half{wake: make(chan struct{}, 1)} }

func (p *half) signal() {
	select {
	case p.wake <- struct{}{}:
	default:
	}
}

func (p *half) write(b []byte) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.sink {
		return nil
	}
	if p.err != nil {
		return errors.New("write: broken pipe")
	}
	p.buf = append(p.buf, b...)
	p.signal()
	return nil
}

func (p *half) close(err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.err == nil {
		p.err = err
	}
	p.signal()
}

func (p *half) read(b []byte, deadline func() time.Time) (int, error) {
	for {
		p.mu.Lock()
		if len(p.buf) > 0 {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			if len(p.buf) > 0 || p.err != nil {
				p.signal()
			}
			p.mu.Unlock()
			return n, nil
		}
		if p.err != nil {
			err := p.err
			p.signal()
			p.mu.Unlock()
			return 0, err
		}
		p.mu.Unlock()
		d := deadline()
		if d.IsZero() {
			<-p.wake
			continue
		}
		left := time.Until(d)
		if left <= 0 {
			return 0, os.ErrDeadlineExceeded
		}
		t := time.NewTimer(left)
		select {
		case <-p.wake:
			t.Stop()
		case <-t.C:
		}
	}
}

type memConn struct {
	in, out       *half
	local, remote memAddr
	mu            sync.Mutex
	rd, wd        time.Time
	closed        chan struct{}
	once          sync.Once
	stall         func(c *memConn) // parks a write until the network takes it
	onClose       func()
}

func (c *memConn) Read(b []byte) (int, error) { return c.in.read(b, c.readDeadline) }
func (c *memConn) Write(b []byte) (int, error) {
	if c.stall != nil {
		c.stall(c)
		select {
		case <-c.closed:
			return 0, net.ErrClosed
		default:
		}
		if d := c.writeDeadline(); !d.IsZero() && !time.Now().Before(d) {
			return 0, os.ErrDeadlineExceeded
		}
	}
	if err := c.out.write(b); err != nil {
		return 0, err
	}
	return len(b), nil
}
func (c *memConn) Close() error {
	if c.closed != nil {
		c.once.Do(func() {
			close(c.closed)
			if c.onClose != nil {
				c.onClose()
			}
		})
	}
	c.out.close(io.EOF)
	c.in.close(net.ErrClosed)
	return nil
}
func (c *memConn) LocalAddr() net.Addr  { return c.local }
func (c *memConn) RemoteAddr() net.Addr { return c.remote }
func (c *memConn) readDeadline() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.rd
}
func (c *memConn) writeDeadline() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.wd
}
func (c *memConn) SetDeadline(t time.Time) error {
	_ = c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}
func (c *memConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rd = t
	c.mu.Unlock()
	c.in.signal()
	return nil
}
func (c *memConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wd = t
	return nil
}

// WSConn is the server's end of a simulated websocket.
type WSConn struct {
	h      *Host
	c      *memConn
	id     int
	path   string
	open   bool
	state  interface{} // owned by the model
	lastRx []byte
	cl     *memConn // the client's end
	refuse string   // what goes wrong with the handshake
}

func dialWS(addr string) (net.Conn, error) {
	h := lookupHost(addr)
	if h == nil {
		if refusing() {
			return nil, errRefused
		}
		select {}
	}
	w := h.w
	type rep struct {
		c   net.Conn
		err error
	}
	done := make(chan rep, 1)
	op := &Op{node: h.name, kind: "dial", proc: h.proc}
	op.exec = func(o *Op) {
		f := ""
		if h.faults != nil {
			f = h.faults(o, "dial")
		}
		if f != "" {
			w.Fault("net:" + f)
			w.Tracef("%s dial FAULT %s", h.name, f)
			switch f {
			case "hang":
				d := time.Duration(1+w.C.N(90)) * time.Second
				go func() { time.Sleep(d); done <- rep{err: errReset} }()
				return
			case "noupgrade", "nohandshake":
			default:
				done <- rep{err: errRefused}
				return
			}
		}
		w.wsN++
		a, b := newHalf(), newHalf()
		la, ra := memAddr(fmt.Sprintf("10.0.0.1:%d", 10000+w.wsN)), memAddr(h.name+":80")
		if h.port != nil {
			la = memAddr(fmt.Sprintf("10.0.0.1:%d", h.port()))
		}
		cl := &memConn{in: a, out: b, local: la, remote: ra}
		sv := &memConn{in: b, out: a, local: ra, remote: la}
		ws := &WSConn{h: h, c: sv, id: w.wsN, open: true, cl: cl, refuse: f}
		if h.onConn != nil {
			h.onConn(ws)
		}
		w.Tracef("%s ws connect", h.name)
		go ws.serve()
		done <- rep{c: cl}
	}
	w.register(op)
	r := <-done
	return r.c, r.err
}

func (c *WSConn) serve() {
	br := bufio.NewReader(c.c)
	req, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	c.path = req.URL.Path
	switch c.refuse {
	case "noupgrade":
		fmt.Fprintf(c.c, "HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\n\r\n")
		c.c.Close()
		return
	case "nohandshake":
		fmt.Fprintf(c.c, "HTTP/1.1 101 Swi")
		c.c.Close()
		return
	}
	s := sha1.Sum([]byte(req.Header.Get("Sec-Websocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	fmt.Fprintf(c.c, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n",
		base64.StdEncoding.EncodeToString(s[:]))
	var part []byte
	partOp := 0
	for {
		fin, op, msg, err := readFrame(br)
		if err == nil && op < 8 {
			if op != 0 {
				partOp, part = op, nil
			}
			part = append(part, msg...)
			if !fin {
				continue
			}
			op, msg = partOp, part
		}
		if err != nil {
			c.h.w.mu.Lock()
			c.open = false
			c.h.w.mu.Unlock()
			return
		}
		switch op {
		case 1, 2:
			m := msg
			w := c.h.w
			o := &Op{node: c.h.name, kind: "wsmsg", key: string(m), proc: c.h.proc}
			o.exec = func(o *Op) {
				if c.open {
					c.h.srv.WSMessage(c.h, c, m)
				}
			}
			w.register(o)
		case 8:
			c.h.w.mu.Lock()
			c.open = false
			c.h.w.mu.Unlock()
			c.c.Close()
			return
		case 9:
			c.frame(10, msg)
		}
	}
}

func readFrame(br *bufio.Reader) (bool, int, []byte, error) {
	var hd [2]byte
	if _, err := io.ReadFull(br, hd[:]); err != nil {
		return false, 0, nil, err
	}
	n := int(hd[1] & 0x7f)
	switch n {
	case 126:
		var l [2]byte
		if _, err := io.ReadFull(br, l[:]); err != nil {
			return false, 0, nil, err
		}
		n = int(binary.BigEndian.Uint16(l[:]))
	case 127:
		var l [8]byte
		if _, err := io.ReadFull(br, l[:]); err != nil {
			return false, 0, nil, err
		}
		n = int(binary.BigEndian.Uint64(l[:]))
	}
	var mask [4]byte
	if hd[1]&0x80 != 0 {
		if _, err := io.ReadFull(br, mask[:]); err != nil {
			return false, 0, nil, err
		}
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(br, b); err != nil {
		return false, 0, nil, err
	}
	if hd[1]&0x80 != 0 {
		for i := range b {
			b[i] ^= mask[i%4]
		}
	}
	return hd[0]&0x80 != 0, int(hd[0] & 0x0f), b, nil
}

func encFrame(op int, b []byte) []byte {
	out := []byte{0x80 | byte(op)}
	switch {
	case len(b) < 126:
		out = append(out, byte(len(b)))
	case len(b) < 65536:
		out = append(out, 126, byte(len(b)>>8), byte(len(b)))
	default:
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], uint64(len(b)))
		out = append(append(out, 127), l[:]...)
	}
	return append(out, b...)
}

func (c *WSConn) frame(op int, b []byte) { _, _ = c.c.Write(encFrame(op, b)) }

func (c *WSConn) SendJSON(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	c.frame(1, b)
}

func (c *WSConn) SendText(b []byte) { c.frame(1, b) }

// Drop cuts the connection without a closing handshake; with partial, in the
// middle of a frame.
func (c *WSConn) Drop(partial []byte) {
	c.open = false
	if len(partial) > 0 {
		_, _ = c.c.Write(partial)
	}
	c.c.out.close(io.EOF)
	c.c.in.close(net.ErrClosed)
}

// CloseWith sends a close frame.
func (c *WSConn) CloseWith(code int) {
	c.open = false
	c.frame(8, []byte{byte(code >> 8), byte(code)})
	c.c.out.close(io.EOF)
	c.c.in.close(net.ErrClosed)
}
