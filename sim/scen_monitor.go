package sim

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"

	iconclient "github.com/icon-project/btp/chain/icon/client"
)

func init() { register("monitor", runMonitors) }

// monSpec is one monitor: what its node will do, what its user will do, and
// what was seen.
type monSpec struct {
	id      int
	kind    string // btp, block, event
	late    bool   // started after all others ended
	start   time.Duration
	dial    string // fault while connecting
	answer  string
	items   []monItem
	end     string
	cbErr   int  // index of the item at which the callback fails, or -1
	noStart bool // no start callback is given
	cbEnd   int  // index of the item at which the callback closes the monitor
	nap     []time.Duration
	stallW  int // 0 none, 1 delayed, 2 stuck after the handshake
	chunks  [][]byte
	fail    error

	mu       sync.Mutex
	started  bool
	accepted bool
	asked    bool // closing was asked for from outside
	inits    int
	got      []interface{}
	snap     []string
	errs     []error
	returned bool
	err      error
	late2    string // a call after the return
	closedCb bool
	answered bool
	conn     *WSConn
	bothDone time.Duration
	outDone  bool
}

type monItem struct {
	text string
	want string // canonical form
}

type monNode struct {
	w     *World
	specs []*monSpec
}

func (n *monNode) RPC(h *Host, method string, params json.RawMessage) (interface{}, *RPCError) {
	return nil, &RPCError{Code: -32601, Message: "no method"}
}

func hx(n int) string { return fmt.Sprintf("0x%x", n) }

// monValue makes a notification and its canonical form. Fields that may be
// missing are sometimes missing, so that one notification leaking into the
// next one shows.
func monValue(c *Chooser, kind string, n int) monItem {
	m := map[string]interface{}{}
	want := ""
	list := func() ([]string, string) {
		var r []string
		for i := c.N(4); i > 0; i-- {
			r = append(r, hx(c.N(1000)))
		}
		return r, fmt.Sprint(r)
	}
	switch kind {
	case "btp":
		h := fmt.Sprintf("H%d-%x", n, c.Bytes(c.N(40)))
		p := ""
		if c.P(500) {
			p = fmt.Sprintf("P%d-%x", n, c.Bytes(c.N(300)))
			m["proof"] = p
		} else if c.P(30) {
			p = strings.Repeat(fmt.Sprint("P", n), 1<<uint(c.N(17)))
			m["proof"] = p
		}
		m["header"] = h
		want = h + "|" + p
	case "block":
		var ix [][]string
		var ev [][][]string
		for i := c.N(3); i > 0; i-- {
			a, _ := list()
			ix = append(ix, a)
			var e [][]string
			for range a {
				b, _ := list()
				e = append(e, b)
			}
			ev = append(ev, e)
		}
		m["hash"], m["height"] = fmt.Sprintf("0x%064x", n), hx(n)
		if ix != nil {
			m["indexes"] = ix
			m["events"] = ev
		}
		want = fmt.Sprintf("%s|%s|%v|%v", m["hash"], m["height"], ix, ev)
	case "event":
		a, s := list()
		m["hash"], m["height"], m["index"] = fmt.Sprintf("0x%064x", n), hx(n), hx(c.N(9))
		if a != nil {
			m["events"] = a
		}
		want = fmt.Sprintf("%s|%s|%s|%s", m["hash"], m["height"], m["index"], s)
	}
	b, _ := json.Marshal(m)
	return monItem{string(b), want}
}

func monCanon(v interface{}) string {
	switch t := v.(type) {
	case *iconclient.BTPNotification:
		return t.Header + "|" + t.Proof
	case *iconclient.BlockNotification:
		return fmt.Sprintf("%s|%s|%v|%v", t.Hash, t.Height, t.Indexes, t.Events)
	case *iconclient.EventNotification:
		return fmt.Sprintf("%s|%s|%s|%v", t.Hash, t.Height, t.Index, t.Events)
	}
	return fmt.Sprintf("%T", v)
}

// wsFrames encodes a text message, split into several frames if the seed says so.
func wsFrames(c *Chooser, text string) []byte {
	b := []byte(text)
	n := 1
	if c.P(200) {
		n = 1 + c.N(3)
	}
	var out []byte
	for i := 0; i < n; i++ {
		k := len(b)
		if i < n-1 {
			k = c.N(len(b) + 1)
		}
		op := 1
		if i > 0 {
			op = 0
		}
		f := encFrame(op, b[:k])
		if i < n-1 {
			f[0] &= 0x7f
		}
		out = append(out, f...)
		b = b[k:]
		if i < n-1 && c.P(300) {
			out = append(out, encFrame(9, []byte("p"))...)
		}
	}
	return out
}

func (n *monNode) WSMessage(h *Host, c *WSConn, msg []byte) {
	var q struct {
		Height string `json:"height"`
	}
	_ = json.Unmarshal(msg, &q)
	for _, s := range n.specs {
		if hx(1000+s.id) == q.Height && c.path == "/api/v3/"+s.kind {
			s.conn = c
			n.answer(s)
			return
		}
	}
	n.w.Fail("request", "the node got a request nobody made: %s on %s", msg, c.path)
}

// answer lays out everything the node will send, cut into pieces.
func (n *monNode) answer(s *monSpec) {
	w := n.w
	if s.answered {
		w.Fail("request", "monitor %d sent its request twice", s.id)
	}
	s.answered = true
	w.Tracef("monitor %d asks, the answer is %s, %d items, then %s", s.id, s.answer, len(s.items), s.end)
	var out []byte
	switch s.answer {
	case "ok":
		out = wsFrames(w.C, `{"code":0}`)
		for _, it := range s.items {
			if w.C.P(100) {
				out = append(out, encFrame(9, []byte("ping"))...)
			}
			out = append(out, wsFrames(w.C, it.text)...)
		}
		switch s.end {
		case "close1000":
			out = append(out, encFrame(8, []byte{0x03, 0xe8})...)
		case "close1001":
			out = append(out, encFrame(8, []byte{0x03, 0xe9})...)
		case "garbage":
			out = append(out, encFrame(1, []byte(`{"height":17,"header":}`))...)
		case "cutframe":
			f := encFrame(1, []byte(`{"header":"x","hash":"y"}`))
			out = append(out, f[:1+w.C.N(len(f)-1)]...)
		}
	case "refuse":
		out = wsFrames(w.C, []string{`{"code":3,"message":"bad height"}`, `{"code":-32000,"message":"bad"}`, `{"code":1}`}[w.C.N(3)])
	case "garbage":
		out = encFrame(1, []byte("<html>"))
	case "close":
		out = encFrame(8, []byte{0x03, 0xe8})
	case "drop", "silent":
	}
	for len(out) > 0 {
		k := len(out)
		if w.C.P(600) {
			k = 1 + w.C.N(len(out))
		}
		s.chunks = append(s.chunks, out[:k])
		out = out[k:]
	}
	n.finish(s)
}

func (n *monNode) finish(s *monSpec) {
	if len(s.chunks) > 0 || s.outDone {
		return
	}
	if s.answer == "silent" || (s.answer == "ok" && s.end == "stall") {
		return
	}
	s.outDone = true
	s.bothDone = n.w.Now()
	// whatever was said is over: the connection goes
	if !(s.answer == "ok" && s.end == "garbage") && s.answer != "garbage" && s.answer != "refuse" {
		n.w.Fault("ws:" + s.answer + "/" + s.end)
		s.conn.c.in.mu.Lock()
		s.conn.c.in.sink = true // TCP still takes what is written after the peer's end
		s.conn.c.in.mu.Unlock()
		s.conn.Drop(nil)
	}
}

func (n *monNode) pushes() []push {
	var r []push
	for _, s := range n.specs {
		s := s
		if s.conn == nil || len(s.chunks) == 0 {
			continue
		}
		r = append(r, push{fmt.Sprint(s.id), func() {
			b := s.chunks[0]
			s.chunks = s.chunks[1:]
			_, _ = s.conn.c.Write(b)
			n.finish(s)
		}})
	}
	return r
}

func (s *monSpec) call(what string) bool {
	if s.returned {
		s.late2 = what
		return false
	}
	return true
}

func (s *monSpec) item(cl *iconclient.Client, conn *websocket.Conn, v interface{}) error {
	s.mu.Lock()
	if !s.call("notification") {
		s.mu.Unlock()
		return nil
	}
	i := len(s.got)
	s.got = append(s.got, v)
	s.snap = append(s.snap, monCanon(v))
	s.mu.Unlock()
	if i < len(s.nap) && s.nap[i] > 0 {
		time.Sleep(s.nap[i])
	}
	if i == s.cbEnd {
		s.mu.Lock()
		s.closedCb = true
		s.mu.Unlock()
		cl.CloseMonitor(conn)
	}
	if i == s.cbErr {
		return s.fail
	}
	return nil
}

func (s *monSpec) run(cl *iconclient.Client) {
	s.mu.Lock()
	s.started = true
	s.mu.Unlock()
	scb := func(*websocket.Conn) {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.call("start")
		s.inits++
		s.accepted = true
	}
	ecb := func(_ *websocket.Conn, err error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.call("error")
		s.errs = append(s.errs, err)
	}
	if s.noStart {
		scb = nil
	}
	h := iconclient.HexInt(hx(1000 + s.id))
	var err error
	switch s.kind {
	case "btp":
		err = cl.MonitorBTP(&iconclient.BTPRequest{Height: h, NetworkID: "0x1", ProofFlag: "0x1"},
			func(c *websocket.Conn, v *iconclient.BTPNotification) error { return s.item(cl, c, v) }, scb, ecb)
	case "block":
		err = cl.MonitorBlock(&iconclient.BlockRequest{Height: h},
			func(c *websocket.Conn, v *iconclient.BlockNotification) error { return s.item(cl, c, v) }, scb, ecb)
	case "event":
		err = cl.MonitorEvent(&iconclient.EventRequest{Height: h, EventFilter: iconclient.EventFilter{Signature: "Message(str,int,bytes)"}},
			func(c *websocket.Conn, v *iconclient.EventNotification) error { return s.item(cl, c, v) }, ecb)
	}
	s.mu.Lock()
	s.returned, s.err = true, err
	s.mu.Unlock()
}

func newMonSpec(w *World, id int, calm bool) *monSpec {
	c := w.C
	s := &monSpec{id: id, kind: []string{"btp", "block", "event"}[c.N(3)], cbErr: -1, cbEnd: -1, answer: "ok", end: "close1000"}
	for i := c.N(7); i > 0; i-- {
		s.items = append(s.items, monValue(c, s.kind, id*100+i))
		d := time.Duration(0)
		if c.P(150) {
			d = time.Duration(c.N(3000)) * time.Millisecond
		}
		s.nap = append(s.nap, d)
	}
	s.fail = fmt.Errorf("callback %d fails", id)
	if calm {
		return s
	}
	s.noStart = c.P(100)
	s.start = time.Duration(c.N(4000)) * time.Millisecond
	if c.P(120) {
		s.dial = []string{"refused", "hang", "noupgrade", "nohandshake"}[c.N(4)]
	}
	if c.P(200) {
		s.answer = []string{"refuse", "garbage", "close", "drop", "silent"}[c.N(5)]
	}
	s.end = []string{"close1000", "close1001", "drop", "cutframe", "garbage", "stall"}[c.N(6)]
	if len(s.items) > 0 {
		if c.P(250) {
			s.cbErr = c.N(len(s.items))
		}
		if c.P(200) {
			s.cbEnd = c.N(len(s.items))
		}
	}
	s.stallW = c.Pick(6, 3, 1)
	return s
}

func runMonitors(w *World) {
	s := NewSched(w)
	s.latMax = time.Duration(w.C.N(200)) * time.Millisecond
	s.idleP = w.C.N(200)
	n := &monNode{w: w}
	p := w.NewProc("client")
	for i := 1 + w.C.N(4); i > 0; i-- {
		n.specs = append(n.specs, newMonSpec(w, len(n.specs), false))
	}
	h := w.AddHost("node", p, n)
	// connections are told apart by their dial order only when they ask; the
	// faults of a connection are those of the next monitor that starts
	var dialing []*monSpec
	h.faults = func(o *Op, method string) string {
		if method != "dial" || len(dialing) == 0 {
			return ""
		}
		sp := dialing[0]
		dialing = dialing[1:]
		return sp.dial
	}
	// local ports are reused, as an operating system does once a connection
	// which the peer closed first is gone
	portFree := map[int]time.Duration{}
	used := map[int]bool{}
	h.port = func() int {
		w.mu.Lock()
		defer w.mu.Unlock()
		for q := 10000; ; q++ {
			if used[q] {
				continue
			}
			if t, ok := portFree[q]; ok && w.Now() < t {
				continue
			}
			used[q] = true
			return q
		}
	}
	h.onConn = func(c *WSConn) {
		var q int
		fmt.Sscanf(string(c.cl.local), "10.0.0.1:%d", &q)
		c.cl.closed = make(chan struct{})
		sv := c.c
		c.cl.onClose = func() {
			sv.out.mu.Lock()
			peerFirst := sv.out.err != nil
			sv.out.mu.Unlock()
			wait := 60 * time.Second
			if peerFirst {
				wait = 0
			}
			w.mu.Lock()
			used[q] = false
			portFree[q] = w.Now() + wait
			w.mu.Unlock()
		}
		stall := w.C.Pick(6, 3, 1)
		if stall == 0 {
			return
		}
		writes := 0
		c.cl.stall = func(cc *memConn) {
			writes++
			if writes == 1 { // the handshake
				return
			}
			done := make(chan struct{}, 1)
			o := &Op{node: "node", kind: "wswrite", key: fmt.Sprint(c.id), proc: p}
			o.exec = func(*Op) { done <- struct{}{} }
			if stall == 2 && writes > 2 {
				o.hung = true
				w.mu.Lock()
				w.Fault("ws:stuck-write")
				c.state = "stuck"
				w.mu.Unlock()
			}
			w.register(o)
			var tc <-chan time.Time
			if d := cc.writeDeadline(); !d.IsZero() {
				tc = time.After(time.Until(d))
			}
			select {
			case <-done:
			case <-cc.closed:
			case <-tc:
				c.state = "stuck"
			}
		}
	}
	s.pushers = append(s.pushers, n.pushes)
	cl := iconclient.NewClient("http://node/api/v3", newSimLogger(p))
	launch := func(sp *monSpec) {
		dialing = append(dialing, sp)
		w.spawn(p, func() { sp.run(cl) })
	}
	for _, sp := range n.specs {
		sp := sp
		s.At(sp.start, "monitor", func() { launch(sp) })
	}
	closing := 0
	type closeRec struct {
		at   time.Duration
		must []*monSpec
	}
	var closes []closeRec
	closeAll := func() {
		r := closeRec{at: w.Now()}
		for _, sp := range n.specs {
			sp.mu.Lock()
			if sp.started && !sp.returned {
				sp.asked = true
				if sp.accepted || len(sp.got) > 0 {
					r.must = append(r.must, sp)
				}
			}
			sp.mu.Unlock()
		}
		w.Tracef("close all monitors, %d must end", len(r.must))
		closes = append(closes, r)
		closing++
		w.spawn(p, func() { cl.CloseAllMonitor(); w.mu.Lock(); closing--; w.mu.Unlock() })
	}
	if w.C.P(350) {
		for i := 1 + w.C.N(2); i > 0; i-- {
			s.At(time.Duration(w.C.N(9000))*time.Millisecond, "closeall", closeAll)
		}
	}
	all := func() bool {
		for _, sp := range n.specs {
			sp.mu.Lock()
			r := sp.returned
			sp.mu.Unlock()
			if !r {
				return false
			}
		}
		return true
	}
	s.onStep = func() {
		for _, sp := range n.specs {
			sp.mu.Lock()
			if sp.late2 != "" {
				sp.mu.Unlock()
				w.Fail("late", "monitor %d had returned and then called back: %s", sp.id, sp.late2)
			}
			sp.mu.Unlock()
		}
	}
	s.RunUntil(150*time.Second, all)
	// those whose connection is over must have returned by themselves
	for _, sp := range n.specs {
		sp.mu.Lock()
		ret := sp.returned
		sp.mu.Unlock()
		if !ret && (sp.outDone || !sp.answered) {
			w.Fail("stuck", "monitor %d (%s, %s, %s) did not return %v after its connection ended", sp.id, sp.dial, sp.answer, sp.end, w.Now()-sp.bothDone)
		}
	}
	for _, r := range closes {
		for _, sp := range r.must {
			sp.mu.Lock()
			ret := sp.returned
			sp.mu.Unlock()
			if !ret {
				w.Fail("stuck", "monitor %d did not return %v after all monitors were closed", sp.id, w.Now()-r.at)
			}
		}
	}
	// close what is still open
	for i := 0; i < 3 && !all(); i++ {
		closeAll()
		s.RunUntil(w.Now()+100*time.Second, all)
	}
	for _, sp := range n.specs {
		sp.mu.Lock()
		ret := sp.returned
		sp.mu.Unlock()
		if !ret {
			w.Fail("stuck", "monitor %d (%s, %s) never returns although all monitors were closed", sp.id, sp.answer, sp.end)
		}
	}
	s.RunUntil(w.Now()+100*time.Second, func() bool { w.mu.Lock(); defer w.mu.Unlock(); return closing == 0 })
	if closing != 0 {
		w.Fail("stuck", "closing all monitors never returns")
	}
	// the client still works
	last := newMonSpec(w, len(n.specs), true)
	n.specs = append(n.specs, last)
	dialing = nil
	launch(last)
	s.RunUntil(w.Now()+100*time.Second, all)
	for _, sp := range n.specs {
		sp.judge(w)
	}
}

func (s *monSpec) judge(w *World) {
	s.mu.Lock()
	defer s.mu.Unlock()
	bad := func(sig, f string, a ...interface{}) {
		what := fmt.Sprintf("monitor %d (%s, dial=%q, answer=%s, %d items, end=%s, fails at %d, closes at %d, closed from outside=%v; %d handed over, err=%v, errors=%v): ", s.id, s.kind, s.dial, s.answer, len(s.items), s.end, s.cbErr, s.cbEnd, s.asked, len(s.got), s.err, s.errs)
		w.failHeld(sig, what+fmt.Sprintf(f, a...))
	}
	if !s.returned {
		bad("stuck", "did not return")
	}
	if len(s.got) > 0 {
		w.nontrivial = true
	}
	w.State("%s %s %s %s %d/%d %v %v %v", s.kind, s.dial, s.answer, s.end, len(s.got), len(s.items), s.err == nil, s.closedCb, s.asked)
	for i, v := range s.snap {
		if i >= len(s.items) || v != s.items[i].want {
			want := "nothing"
			if i < len(s.items) {
				want = s.items[i].want
			}
			bad("mixed", "notification %d was handed over as %s, the node sent %s", i, v, want)
		}
		if monCanon(s.got[i]) != v {
			bad("mixed", "notification %d was %s and has changed to %s after it was handed over", i, v, monCanon(s.got[i]))
		}
	}
	ok := s.answered && s.answer == "ok"
	if !ok && (s.inits > 0 || len(s.got) > 0) {
		bad("start", "was started although the node did not accept it")
	}
	if !ok && s.err == nil {
		bad("silent", "reports no error although it was never accepted")
	}
	if !ok {
		return
	}
	if s.conn.state == "stuck" && s.err != nil {
		return // pings could not be answered
	}
	if s.kind != "event" && !s.noStart && s.inits != 1 && !s.asked {
		bad("start", "start was reported %d times", s.inits)
	}
	if s.cbErr >= 0 && len(s.got) > s.cbErr {
		if len(s.got) != s.cbErr+1 {
			bad("continued", "went on after its callback failed")
		}
		if s.err != s.fail {
			bad("silent", "its callback failed with %v, reported is %v", s.fail, s.err)
		}
		return
	}
	if s.asked || s.closedCb {
		return
	}
	if s.end == "stall" {
		bad("ended", "returned although nobody ended it")
	}
	if len(s.got) != len(s.items) {
		bad("lost", "the connection carried %d notifications, %d were handed over", len(s.items), len(s.got))
	}
	if s.end != "close1000" && s.err == nil {
		bad("silent", "the connection ended with %s and no error is reported", s.end)
	}
	if s.end != "close1000" && len(s.errs) != 1 {
		bad("silent", "the connection ended with %s, its error callback was called %d times", s.end, len(s.errs))
	}
	if s.end == "close1000" && len(s.errs) > 0 {
		bad("alarm", "the connection was closed normally and its error callback was called")
	}
}

// failHeld is Fail with a ready message.
func (w *World) failHeld(sig, msg string) { w.Fail(sig, "%s", msg) }
