package sim

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	iconclient "github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/jsonrpc"
)

func init() {
	register("jsonrpc", runJSONRPC)
	register("http", runHTTP)
	register("sendwait", runSendWait)
}

// canonJSON makes two renderings of the same JSON value equal, keeping
// numbers as they are written.
func canonJSON(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return "!" + err.Error() + string(b)
	}
	o, _ := json.Marshal(v)
	return string(o)
}

func genJSON(c *Chooser, depth int) interface{} {
	switch c.N(9) {
	case 0:
		return fmt.Sprintf("s%d<&>\u00e9\u2028\"\\", c.N(1000))
	case 1:
		return json.Number(fmt.Sprint(c.N(100000)))
	case 2:
		return json.Number(fmt.Sprint(int64(9007199254740993) + int64(c.N(1000))*1000003))
	case 3:
		return c.P(500)
	case 4:
		return ""
	case 5, 6:
		m := map[string]interface{}{}
		for i := c.N(4); i > 0 && depth > 0; i-- {
			m[fmt.Sprint("k", c.N(6))] = genJSON(c, depth-1)
		}
		return m
	case 7:
		l := []interface{}{}
		for i := c.N(4); i > 0 && depth > 0; i-- {
			l = append(l, genJSON(c, depth-1))
		}
		return l
	}
	return json.Number(fmt.Sprint(-c.N(1 << 30)))
}

// ------------------------------------------------------------- JSON-RPC

type jrCase struct {
	n      int
	params interface{}
	reply  string // what the server does
	status int
	ct     string
	body   []byte
	result string // canonical
	typed  bool
	rpcErr *RPCError
	served int
	slow   time.Duration

	mu       sync.Mutex
	returned bool
	resp     *jsonrpc.Response
	err      error
	got      json.RawMessage
	gotT     jrTyped
}

type jrTyped struct {
	A string   `json:"a"`
	N int64    `json:"n"`
	L []string `json:"l"`
	O *jrTyped `json:"o"`
}

type jrNode struct {
	w     *World
	cases []*jrCase
}

func (n *jrNode) RPC(*Host, string, json.RawMessage) (interface{}, *RPCError) { return nil, nil }
func (n *jrNode) WSMessage(*Host, *WSConn, []byte)                            {}

func genJRCase(w *World, n int) *jrCase {
	c := w.C
	k := &jrCase{n: n, params: map[string]interface{}{"n": n, "x": genJSON(c, 2)}, reply: "result", status: 200}
	if c.P(100) {
		k.slow = time.Duration(c.N(5000)) * time.Millisecond
	}
	k.ct = []string{"application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8"}[c.N(3)]
	var res interface{}
	if k.typed = c.P(400); k.typed {
		t := jrTyped{A: fmt.Sprint("a", c.N(100)), N: int64(c.N(1<<30))*int64(c.N(1<<30)+1) - 5}
		for i := c.N(3); i > 0; i-- {
			t.L = append(t.L, fmt.Sprint(c.N(99)))
		}
		if c.P(300) {
			t.O = &jrTyped{A: "inner"}
		}
		res = t
	} else {
		res = genJSON(c, 3)
		if c.P(20) {
			res = map[string]interface{}{"big": strings.Repeat(fmt.Sprint("r", c.N(10)), 1<<uint(c.N(18))), "x": res}
		}
	}
	out := map[string]interface{}{"jsonrpc": "2.0"}
	rb, _ := json.Marshal(res)
	k.result = canonJSON(rb)
	out["result"] = json.RawMessage(rb)
	if c.P(300) {
		k.reply = "error"
		k.rpcErr = &RPCError{Code: []int{-31001, -31002, -31004, -32000, 3, 0}[c.N(6)], Message: []string{"E1005:x", "", "<b>\u00e9"}[c.N(3)]}
		if c.P(400) {
			k.rpcErr.Data = genJSON(c, 2)
		} else if c.P(50) {
			k.rpcErr.Data = strings.Repeat(fmt.Sprint("d", c.N(10)), 1<<uint(c.N(18)))
		}
		delete(out, "result")
		out["error"] = k.rpcErr
		k.status = []int{200, 400, 404, 500, 503}[c.N(5)]
	}
	out["id"] = n
	k.body, _ = json.Marshal(out)
	if c.P(400) {
		switch k.reply = []string{"refused", "reset", "hang", "cut", "short", "empty", "html", "null", "none", "lost", "statusonly", "nullresult", "wrongtype"}[c.N(13)]; k.reply {
		case "wrongtype":
			k.typed, k.status = true, 200
			k.body = []byte(`{"jsonrpc":"2.0","id":1,"result":` + []string{`"text"`, `{"a":5}`, `{"a":"x","n":"y"}`, `[1]`, `{"n":1e40}`, `{"n":1.5}`, `{"l":[1]}`, `true`}[c.N(8)] + `}`)
		case "empty":
			k.body, k.status = nil, []int{200, 204, 500}[c.N(3)]
		case "html":
			k.body, k.status, k.ct = []byte("<html>hello</html>"), []int{200, 502, 404}[c.N(3)], []string{"text/html", "application/json", ""}[c.N(3)]
		case "null":
			k.body, k.status = []byte("null"), []int{200, 500}[c.N(2)]
		case "none":
			k.body, k.status = []byte(`{"jsonrpc":"2.0","id":1}`), []int{200, 500}[c.N(2)]
		case "nullresult":
			k.body, k.status = []byte(`{"jsonrpc":"2.0","id":1,"result":null}`), 200
		case "statusonly":
			// a result, but the HTTP layer says it is none
			k.status = []int{500, 502, 301}[c.N(3)]
			k.body, _ = json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "id": 1, "result": json.RawMessage(rb)})
		}
	}
	return k
}

func (n *jrNode) HTTP(h *Host, o *Op, req *http.Request, body []byte, done chan httpReply) {
	w := n.w
	var q struct {
		Jsonrpc string           `json:"jsonrpc"`
		ID      *json.RawMessage `json:"id"`
		Method  string           `json:"method"`
		Params  json.RawMessage  `json:"params"`
	}
	var p struct {
		N int `json:"n"`
	}
	if json.Unmarshal(body, &q) != nil || json.Unmarshal(q.Params, &p) != nil || p.N < 0 || p.N >= len(n.cases) {
		w.Fail("request", "the server got a request it cannot read: %s", body)
	}
	k := n.cases[p.N]
	want, _ := json.Marshal(k.params)
	if q.Jsonrpc != "2.0" || q.ID == nil || q.Method != fmt.Sprint("m", k.n) || canonJSON(q.Params) != canonJSON(want) ||
		req.Method != "POST" || req.Header.Get("Content-Type") != "application/json" || req.Header.Get("X-Test") != "yes" {
		w.Fail("request", "call %d arrived as %s %v %s", k.n, req.Method, req.Header, body)
	}
	if k.served++; k.served > 1 {
		w.Fail("request", "call %d was sent twice", k.n)
	}
	w.Tracef("call %d gets %s %d", k.n, k.reply, k.status)
	if k.reply != "result" && k.reply != "error" {
		w.Fault("rpc:" + k.reply)
	}
	send := func(r httpReply) {
		if k.slow > 0 {
			go func() { time.Sleep(k.slow); done <- r }()
			return
		}
		done <- r
	}
	switch k.reply {
	case "refused":
		send(httpReply{err: errRefused})
	case "reset", "lost":
		send(httpReply{err: errReset})
	case "hang":
		go func() { time.Sleep(50 * time.Second); done <- httpReply{err: errReset} }()
	case "cut", "short":
		b := k.body[:w.C.N(len(k.body))]
		w.Tracef("  cut to %d of %d", len(b), len(k.body))
		var r io.Reader = bytes.NewReader(b)
		if k.reply == "cut" {
			r = &errReader{r, io.ErrUnexpectedEOF}
		}
		send(httpReply{resp: httpResp(req, k.status, k.ct, r)})
	default:
		var r io.Reader = bytes.NewReader(k.body)
		if w.C.P(300) {
			r = &dribble{r}
		}
		send(httpReply{resp: httpResp(req, k.status, k.ct, r)})
	}
}

// dribble delivers one byte at a time.
type dribble struct{ r io.Reader }

func (d *dribble) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return d.r.Read(p)
}

func runJSONRPC(w *World) {
	s := NewSched(w)
	s.latMax = time.Duration(w.C.N(100)) * time.Millisecond
	n := &jrNode{w: w}
	p := w.NewProc("client")
	w.AddHost("node", p, n)
	cl := jsonrpc.NewJsonRpcClient(&http.Client{}, "http://node/api")
	cl.CustomHeader["X-Test"] = "yes"
	workers := 1 + w.C.N(5)
	left := workers
	for i := 0; i < workers; i++ {
		var mine []*jrCase
		for j := 1 + w.C.N(5); j > 0; j-- {
			k := genJRCase(w, len(n.cases))
			n.cases = append(n.cases, k)
			mine = append(mine, k)
		}
		w.spawn(p, func() {
			for _, k := range mine {
				var target interface{} = &k.got
				if k.typed {
					target = &k.gotT
				}
				resp, err := cl.Do(fmt.Sprint("m", k.n), k.params, target)
				k.mu.Lock()
				k.returned, k.resp, k.err = true, resp, err
				k.mu.Unlock()
			}
			w.mu.Lock()
			left--
			w.mu.Unlock()
		})
	}
	s.RunUntil(1000*time.Second, func() bool { w.mu.Lock(); defer w.mu.Unlock(); return left == 0 })
	for _, k := range n.cases {
		k.judge(w)
	}
}

func (k *jrCase) judge(w *World) {
	if !k.returned {
		w.Fail("stuck", "call %d (%s) never returned", k.n, k.reply)
	}
	w.State("%s %d %s %v %v", k.reply, k.status, k.ct, k.typed, k.err == nil)
	switch k.reply {
	case "result":
		if k.err != nil {
			w.Fail("error", "call %d was answered with %s, the client reports %v", k.n, k.body, k.err)
		}
		got := canonJSON(k.got)
		if k.typed {
			b, _ := json.Marshal(k.gotT)
			got = canonJSON(b)
		}
		if got != k.result {
			w.Fail("altered", "call %d was answered with the result %s, delivered is %s", k.n, k.result, got)
		}
		if k.resp == nil {
			w.Fail("nil", "call %d succeeded without a response", k.n)
		}
		w.nontrivial = true
	case "error":
		je, ok := k.err.(*jsonrpc.Error)
		if !ok {
			w.Fail("error", "call %d was answered (status %d, %s) with the error %+v, the client reports %T %v", k.n, k.status, k.ct, *k.rpcErr, k.err, k.err)
		}
		a, _ := json.Marshal(je.Data)
		b, _ := json.Marshal(k.rpcErr.Data)
		if int(je.Code) != k.rpcErr.Code || je.Message != k.rpcErr.Message || canonJSON(a) != canonJSON(b) {
			w.Fail("error", "call %d was answered with the error %+v, the client reports %+v", k.n, *k.rpcErr, *je)
		}
	default:
		if k.err != nil {
			w.guard("the error's text", func() { _ = k.err.Error() })
		}
		if k.err == nil {
			w.Fail("success", "call %d was answered with %s (status %d, body %q), the client reports success", k.n, k.reply, k.status, k.body)
		}
		if k.status != 200 && (k.reply == "html" || k.reply == "empty") {
			he, ok := k.err.(*common.HttpError)
			if ok && he.StatusCode() != k.status {
				w.Fail("error", "call %d ended with the HTTP status %d, reported is %d", k.n, k.status, he.StatusCode())
			}
		}
	}
}

// ------------------------------------------------------------- HTTP client

type httpCase struct {
	n        int
	stream   bool
	verb     string
	req      *httpItem
	str      bool
	items    []httpItem
	chunks   [][]byte
	end      string
	status   int
	body     []byte
	cbErr    int
	nap      []time.Duration
	cancelAt int // chunk before which the call is cancelled, -1 never
	fail     error
	out      *half
	started  bool
	complete int // items completely sent
	lens     []int

	mu       sync.Mutex
	got      []interface{}
	snap     []string
	returned bool
	late     bool
	resp     *http.Response
	err      error
	gotItem  httpItem
	gotStr   string
	cancel   chan bool
	cancAt   time.Duration
	retAt    time.Duration
	sentAt   time.Duration
	closed   bool
}

type httpItem struct {
	ID int               `json:"id"`
	S  string            `json:"s,omitempty"`
	L  []int             `json:"l,omitempty"`
	M  map[string]string `json:"m,omitempty"`
	P  *int              `json:"p,omitempty"`
}

func (i httpItem) canon() string { b, _ := json.Marshal(i); return string(b) }

func genItem(c *Chooser, id int) httpItem {
	it := httpItem{ID: id}
	if c.P(500) {
		it.S = strings.Repeat(fmt.Sprint(c.N(10)), c.N(50))
	} else if c.P(30) {
		it.S = strings.Repeat(fmt.Sprint(c.N(10)), 1<<uint(c.N(18)))
	}
	for i := c.N(4); i > 0; i-- {
		it.L = append(it.L, c.N(100))
	}
	if c.P(400) {
		it.M = map[string]string{fmt.Sprint("k", c.N(5)): "v"}
	}
	if c.P(300) {
		v := c.N(9)
		it.P = &v
	}
	return it
}

type httpNode struct {
	w     *World
	cases []*httpCase
}

func (n *httpNode) RPC(*Host, string, json.RawMessage) (interface{}, *RPCError) { return nil, nil }
func (n *httpNode) WSMessage(*Host, *WSConn, []byte)                            {}

type streamBody struct {
	k *httpCase
	h *half
}

func (b *streamBody) Read(p []byte) (int, error) {
	return b.h.read(p, func() time.Time { return time.Time{} })
}
func (b *streamBody) Close() error {
	b.k.mu.Lock()
	b.k.closed = true
	b.k.mu.Unlock()
	b.h.close(errors.New("http: read on closed response body"))
	return nil
}

func genHTTPCase(w *World, n int) *httpCase {
	c := w.C
	k := &httpCase{n: n, stream: c.P(700), cbErr: -1, cancelAt: -1, status: 200, end: "complete", cancel: make(chan bool, 1)}
	k.fail = fmt.Errorf("callback %d fails", n)
	if !k.stream {
		k.verb = []string{"GET", "POST", "POSTJ", "DELETE", "READER"}[c.N(5)]
		k.str = c.P(400)
		it := genItem(c, 1000+n)
		if k.verb == "POSTJ" || k.verb == "READER" {
			k.req = &it
		}
		k.items = []httpItem{genItem(c, n)}
		k.body = []byte(k.items[0].canon())
		if c.P(400) {
			k.end = []string{"refused", "reset", "hang", "cut", "status", "statuscut", "garbage", "empty"}[c.N(8)]
		}
		if k.end == "status" || k.end == "statuscut" {
			k.status = []int{400, 404, 500, 503, 204}[c.N(5)]
		}
		if k.status >= 400 && c.P(50) {
			k.body = bytes.Repeat([]byte("no "), 1<<uint(c.N(16)))
		}
		if k.end == "garbage" {
			k.body = []byte("<html>")
		}
		if k.end == "empty" {
			k.body = nil
		}
		return k
	}
	var all []byte
	for i := c.N(7); i > 0; i-- {
		it := genItem(c, n*100+i)
		k.items = append(k.items, it)
		all = append(all, it.canon()...)
		if c.P(500) {
			all = append(all, '\n')
		}
		k.lens = append(k.lens, len(all))
		d := time.Duration(0)
		if c.P(300) {
			d = time.Duration(c.N(2000)) * time.Millisecond
		}
		k.nap = append(k.nap, d)
	}
	if c.P(600) {
		k.end = []string{"refused", "cut", "cutitem", "garbage", "status", "open", "shortitem"}[c.N(7)]
	}
	switch k.end {
	case "cutitem", "shortitem":
		t := genItem(c, 9).canon()
		all = append(all, t[:1+c.N(len(t)-1)]...)
	case "garbage":
		all = append(all, `{"id":}`...)
	case "status":
		k.status = []int{400, 404, 500}[c.N(3)]
		k.body = []byte(`{"message":"no"}`)
	}
	for len(all) > 0 {
		m := len(all)
		if c.P(700) {
			m = 1 + c.N(len(all))
		}
		k.chunks = append(k.chunks, all[:m])
		all = all[m:]
	}
	if len(k.items) > 0 && c.P(250) {
		k.cbErr = c.N(len(k.items))
	}
	if c.P(250) || k.end == "open" {
		k.cancelAt = c.N(len(k.chunks) + 1)
	}
	return k
}

func (n *httpNode) HTTP(h *Host, o *Op, req *http.Request, body []byte, done chan httpReply) {
	w := n.w
	var id int
	if _, err := fmt.Sscanf(req.URL.Path, "/ctx/c%d", &id); err != nil || id >= len(n.cases) {
		w.Fail("request", "the server got a request for %s", req.URL)
	}
	k := n.cases[id]
	w.Tracef("request %d (stream %v) ends with %s", id, k.stream, k.end)
	if k.end != "complete" {
		w.Fault("http:" + k.end)
	}
	if want := map[string]string{"": "GET", "GET": "GET", "POST": "POST", "POSTJ": "POST", "DELETE": "DELETE", "READER": "POST"}[k.verb]; req.Method != want {
		w.Fail("request", "request %d was made as %s", id, req.Method)
	}
	if k.verb == "GET" && req.URL.RawQuery != fmt.Sprintf("a=%d&b=x%%26y", k.n) {
		w.Fail("request", "request %d has the query %s", id, req.URL.RawQuery)
	}
	if k.verb == "POSTJ" && canonJSON(body) != canonJSON([]byte(k.req.canon())) {
		w.Fail("request", "request %d carries %s instead of %s", id, body, k.req.canon())
	}
	if k.verb == "READER" && (!bytes.Contains(body, []byte(k.req.canon())) || !bytes.Contains(body, []byte(fmt.Sprintf("payload-%d-end", k.n)))) {
		w.Fail("request", "request %d does not carry its parts: %s", id, body)
	}
	k.started = true
	switch k.end {
	case "refused":
		done <- httpReply{err: errRefused}
		return
	case "reset":
		done <- httpReply{err: errReset}
		return
	case "hang":
		go func() { time.Sleep(50 * time.Second); done <- httpReply{err: errReset} }()
		return
	}
	if k.stream && k.end != "status" {
		k.out = newHalf()
		r := httpResp(req, 200, "application/json", nil)
		r.Body = &streamBody{k, k.out}
		done <- httpReply{resp: r}
		n.finish(k)
		return
	}
	var r io.Reader = bytes.NewReader(k.body)
	if k.end == "cut" || k.end == "statuscut" {
		r = &errReader{bytes.NewReader(k.body[:w.C.N(len(k.body))]), io.ErrUnexpectedEOF}
	} else if w.C.P(300) {
		r = &dribble{r}
	}
	done <- httpReply{resp: httpResp(req, k.status, "application/json", r)}
}

func (n *httpNode) finish(k *httpCase) {
	if len(k.chunks) > 0 || k.sentAt != 0 {
		return
	}
	k.sentAt = n.w.Now() + 1
	switch k.end {
	case "complete", "shortitem":
		k.out.close(io.EOF)
	case "cut", "cutitem":
		k.out.close(io.ErrUnexpectedEOF)
	}
	if k.cancelAt >= 0 {
		n.doCancel(k)
	}
}

func (n *httpNode) doCancel(k *httpCase) {
	k.cancelAt = -1
	n.w.Tracef("cancel %d", k.n)
	n.w.Fault("http:cancel")
	k.cancAt = n.w.Now() + 1
	k.cancel <- true
}

func (n *httpNode) pushes() []push {
	var r []push
	sent := 0
	for _, k := range n.cases {
		k := k
		if k.out == nil || len(k.chunks) == 0 {
			continue
		}
		r = append(r, push{fmt.Sprint(k.n), func() {
			if k.cancelAt == 0 {
				n.doCancel(k)
				return
			}
			if k.cancelAt > 0 {
				k.cancelAt--
			}
			b := k.chunks[0]
			k.chunks = k.chunks[1:]
			sent += len(b)
			_ = k.out.write(b)
			n.finish(k)
		}})
	}
	return r
}

func (k *httpCase) run(cl *common.HttpClient) {
	var resp *http.Response
	var err error
	u := fmt.Sprintf("/c%d", k.n)
	if k.stream {
		resp, err = cl.Stream(u, nil, &httpItem{}, func(v interface{}) error {
			k.mu.Lock()
			if k.returned {
				k.late = true
			}
			it, ok := v.(*httpItem)
			if !ok {
				k.snap = append(k.snap, fmt.Sprintf("%T", v))
				k.mu.Unlock()
				return nil
			}
			i := len(k.got)
			k.got = append(k.got, v)
			k.mu.Unlock()
			if i < len(k.nap) && k.nap[i] > 0 {
				time.Sleep(k.nap[i]) // the callback takes its time and only then looks
			}
			k.mu.Lock()
			k.snap = append(k.snap, it.canon())
			k.mu.Unlock()
			if i == k.cbErr {
				return k.fail
			}
			return nil
		}, k.cancel)
	} else {
		var target interface{} = &k.gotItem
		if k.str {
			target = &k.gotStr
		}
		switch k.verb {
		case "GET":
			resp, err = cl.Get(u, target, &url.Values{"a": {fmt.Sprint(k.n)}}, &url.Values{"b": {"x&y"}})
		case "POST":
			resp, err = cl.Post(u, target)
		case "POSTJ":
			resp, err = cl.PostWithJson(u, k.req, target)
		case "DELETE":
			resp, err = cl.Delete(u, target)
		case "READER":
			resp, err = cl.PostWithReader(u, k.req, "f", strings.NewReader(fmt.Sprintf("payload-%d-end", k.n)), target)
		}
	}
	k.mu.Lock()
	k.resp, k.err, k.returned = resp, err, true
	k.retAt = time.Since(worldStart())
	k.mu.Unlock()
}

func worldStart() time.Time {
	curMu.Lock()
	defer curMu.Unlock()
	if curWorld == nil {
		return time.Now()
	}
	return curWorld.start
}

func runHTTP(w *World) {
	s := NewSched(w)
	s.latMax = time.Duration(w.C.N(100)) * time.Millisecond
	s.idleP = w.C.N(100)
	n := &httpNode{w: w}
	p := w.NewProc("client")
	w.AddHost("node", p, n)
	cl := common.NewHttpClient([]string{"http://node", "tcp://node", "node"}[w.C.N(3)], "/ctx")
	for i := 1 + w.C.N(4); i > 0; i-- {
		n.cases = append(n.cases, genHTTPCase(w, len(n.cases)))
	}
	s.pushers = append(s.pushers, n.pushes)
	for _, k := range n.cases {
		k := k
		w.spawn(p, func() { k.run(cl) })
	}
	all := func() bool {
		for _, k := range n.cases {
			k.mu.Lock()
			r := k.returned
			k.mu.Unlock()
			if !r {
				return false
			}
		}
		return true
	}
	s.RunUntil(300*time.Second, all)
	s.RunUntil(w.Now()+5*time.Second, func() bool { return false })
	for _, k := range n.cases {
		k.judge(w)
	}
	w.noLeak = true
}

func (k *httpCase) judge(w *World) {
	k.mu.Lock()
	defer k.mu.Unlock()
	bad := func(sig, f string, a ...interface{}) {
		w.Fail(sig, "request %d (stream=%v %s end=%s status=%d items=%d fails at %d cancelled=%v; handed over %d, err=%v): %s", k.n, k.stream, k.verb, k.end, k.status, len(k.items), k.cbErr, k.cancAt != 0, len(k.got), k.err, fmt.Sprintf(f, a...))
	}
	if !k.returned {
		bad("stuck", "did not return")
	}
	if k.late {
		bad("late", "called back after it returned")
	}
	w.State("%v %s %s %d %v %d/%d", k.stream, k.verb, k.end, k.status, k.err == nil, len(k.got), len(k.items))
	status := func() {
		he, ok := k.err.(*common.HttpError)
		if !ok || he.StatusCode() != k.status {
			bad("status", "the reply had the status %d, reported is %T %v", k.status, k.err, k.err)
		}
		if k.end == "status" && !bytes.Equal(he.Response(), k.body) {
			bad("status", "the reply had the body %q, reported is %q", k.body, he.Response())
		}
	}
	if !k.stream {
		switch k.end {
		case "complete":
			if k.err != nil || k.resp == nil {
				bad("error", "the reply was complete")
			}
			if k.str && k.gotStr != string(k.body) || !k.str && k.gotItem.canon() != k.items[0].canon() {
				bad("altered", "the reply %s arrived as %s", k.body, k.gotItem.canon()+k.gotStr)
			}
			w.nontrivial = true
		case "status", "statuscut":
			status()
		case "garbage", "empty":
			if k.str {
				if k.err != nil || k.gotStr != string(k.body) {
					bad("altered", "the reply %q arrived as %q", k.body, k.gotStr)
				}
				return
			}
			fallthrough
		default:
			if k.err == nil {
				bad("success", "no complete reply arrived and no error is reported")
			}
		}
		return
	}
	if len(k.snap) != len(k.got) {
		bad("mixed", "handed over something that is no item: %v", k.snap)
	}
	for i := range k.got {
		if i >= len(k.items) || k.snap[i] != k.items[i].canon() {
			want := "nothing"
			if i < len(k.items) {
				want = k.items[i].canon()
			}
			bad("mixed", "item %d was sent as %s and handed over as %s", i, want, k.snap[i])
		}
		w.nontrivial = true
	}
	switch k.end {
	case "status":
		status()
		return
	case "refused":
		if k.err == nil {
			bad("success", "no reply arrived and no error is reported")
		}
		return
	}
	if !k.closed {
		bad("open", "the response was left open")
	}
	if k.cbErr >= 0 && len(k.got) > k.cbErr {
		if len(k.got) != k.cbErr+1 {
			bad("continued", "went on after its callback failed")
		}
		if k.err != k.fail {
			bad("error", "its callback failed with %v", k.fail)
		}
		return
	}
	if k.cancAt != 0 {
		return
	}
	if len(k.got) != len(k.items) {
		bad("lost", "%d complete items were sent", len(k.items))
	}
	switch k.end {
	case "complete":
		if k.err != nil && !errors.Is(k.err, io.EOF) {
			bad("error", "the response was complete")
		}
	case "cut", "cutitem", "garbage", "shortitem":
		if k.err == nil || (k.err == io.EOF && k.end != "cut") {
			bad("success", "the response was cut or garbled and that is not reported")
		}
	}
}

// ------------------------------------------------------------- send and wait

type swCase struct {
	n         int
	p         *iconclient.TransactionParam
	sendSeq   []string // replies to the submissions
	resSeq    []string // replies to the queries
	hash      string
	onChain   bool
	result    map[string]interface{}
	refused   string // the reply that justifies an error
	sends     int
	asks      int
	mu        sync.Mutex
	returned  bool
	retHash   *iconclient.HexBytes
	res       *iconclient.TransactionResult
	err       error
	lastEvent time.Duration
}

type swNode struct {
	w     *World
	cases []*swCase
}

func (n *swNode) WSMessage(*Host, *WSConn, []byte) {}

func (n *swNode) RPC(h *Host, method string, params json.RawMessage) (interface{}, *RPCError) {
	w := n.w
	var m map[string]interface{}
	_ = json.Unmarshal(params, &m)
	switch method {
	case "icx_sendTransaction":
		hash := "0x" + hex.EncodeToString(sha3256([]byte("icx_sendTransaction."+icxSerialize(m, true))))
		for _, k := range n.cases {
			if k.hash == hash {
				return n.send(k)
			}
		}
		w.Fail("request", "the node got a transaction nobody made: %s", params)
	case "icx_getTransactionResult":
		for _, k := range n.cases {
			if k.hash == m["txHash"] {
				return n.ask(k)
			}
		}
		w.Fail("request", "the node was asked for a transaction nobody made: %s", params)
	}
	return nil, &RPCError{Code: -32601, Message: "MethodNotFound", http: 400}
}

func (n *swNode) send(k *swCase) (interface{}, *RPCError) {
	k.lastEvent = n.w.Now()
	r := "ok"
	if k.sends < len(k.sendSeq) {
		r = k.sendSeq[k.sends]
	}
	k.sends++
	n.w.Tracef("tx %d sent: %s", k.n, r)
	if r == "ok" && k.onChain {
		r = "dup"
	}
	switch r {
	case "overflow":
		n.w.Fault("node:overflow")
		return nil, &RPCError{Code: -31001, Message: "TxPoolOverflow", http: 400}
	case "sysoverflow":
		n.w.Fault("node:overflow")
		return nil, &RPCError{Code: -31000, Message: "E2001:TransactionPoolOverflow", http: 400}
	case "dup":
		n.w.Fault("node:duplicate")
		k.onChain = true
		return nil, &RPCError{Code: -31000, Message: "E2000:DuplicateTransaction(hash)", http: 400}
	case "expired":
		k.refused = r
		return nil, &RPCError{Code: -31000, Message: "E2002:ExpiredTransaction", http: 400}
	case "future":
		k.refused = r
		return nil, &RPCError{Code: -31000, Message: "E2003:FutureTransaction", http: 400}
	case "invalid":
		k.refused = r
		return nil, &RPCError{Code: -31000, Message: []string{"E2005:Invalid", "E", "", "Exxxx:y"}[n.w.C.N(4)], http: 400}
	case "params":
		k.refused = r
		return nil, &RPCError{Code: -32602, Message: "InvalidParams", http: 400}
	}
	k.onChain = true
	return k.hash, nil
}

func (n *swNode) ask(k *swCase) (interface{}, *RPCError) {
	k.lastEvent = n.w.Now()
	r := "ok"
	if k.asks < len(k.resSeq) {
		r = k.resSeq[k.asks]
	}
	k.asks++
	n.w.Tracef("tx %d asked: %s", k.n, r)
	if !k.onChain {
		n.w.Fail("request", "the result of transaction %d was asked for before it was taken", k.n)
	}
	switch r {
	case "pending":
		return nil, &RPCError{Code: -31002, Message: "Pending", http: 400}
	case "executing":
		return nil, &RPCError{Code: -31003, Message: "Executing", http: 400}
	case "notfound":
		k.refused = r
		return nil, &RPCError{Code: -31004, Message: "NotFound", http: 400}
	case "system":
		k.refused = r
		return nil, &RPCError{Code: -31000, Message: "E1000:Unknown", http: 500}
	}
	n.w.nontrivial = true
	return k.result, nil
}

func runSendWait(w *World) {
	s := NewSched(w)
	s.latMax = time.Duration(w.C.N(500)) * time.Millisecond
	n := &swNode{w: w}
	p := w.NewProc("client")
	h := w.AddHost("node", p, n)
	cl := iconclient.NewClient("http://node/api/v3", newSimLogger(p))
	netP := 0
	if w.C.P(400) {
		netP = w.C.N(100)
	}
	netFaults := false
	h.faults = func(o *Op, method string) string {
		if !w.C.P(netP) {
			return ""
		}
		netFaults = true
		return []string{"refused", "reset", "hang", "http503", "http502empty", "lostreply", "truncated", "shortbody", "emptybody", "slow"}[w.C.N(10)]
	}
	ic := &iconChain{}
	wal, addr := newWallet(ic, 1)
	for i := 1 + w.C.N(4); i > 0; i-- {
		k := &swCase{n: len(n.cases)}
		for j := []int{0, 1, 2, 3, 8, 40}[w.C.N(6)]; j > 0; j-- {
			k.sendSeq = append(k.sendSeq, []string{"overflow", "sysoverflow"}[w.C.N(2)])
		}
		if w.C.P(400) {
			k.sendSeq = append(k.sendSeq, []string{"dup", "expired", "future", "invalid", "params"}[w.C.N(5)])
		}
		for j := []int{0, 2, 10, 120}[w.C.N(4)]; j > 0; j-- {
			k.resSeq = append(k.resSeq, []string{"pending", "executing"}[w.C.N(2)])
		}
		if w.C.P(150) {
			k.resSeq = append(k.resSeq, []string{"notfound", "system"}[w.C.N(2)])
		}
		k.p = &iconclient.TransactionParam{Version: "0x3", FromAddress: iconclient.Address(addr), ToAddress: "cx" + iconclient.Address(strings.Repeat("0", 39)+"1"),
			NetworkID: "0x1", StepLimit: "0x10000", DataType: "call", Nonce: iconclient.HexInt(hx(k.n + 1)), Data: &iconclient.CallData{Method: "m", Params: map[string]string{"a.b": "x\\y{}[]." + fmt.Sprint(k.n)}}}
		if err := cl.SignTransaction(wal, k.p); err != nil {
			w.Infra("sign: %v", err)
		}
		k.hash = string(k.p.TxHash)
		k.result = map[string]interface{}{"to": string(k.p.ToAddress), "txHash": k.hash, "blockHash": fmt.Sprintf("0x%064x", w.C.N(1<<30)), "blockHeight": hx(w.C.N(1 << 20)), "txIndex": hx(k.n),
			"stepUsed": hx(w.C.N(1 << 20)), "stepPrice": "0x2", "cumulativeStepUsed": "0x77", "logsBloom": "0x00", "eventLogs": []interface{}{}, "status": "0x1"}
		if w.C.P(400) {
			k.result["eventLogs"] = []interface{}{map[string]interface{}{"scoreAddress": "cx01", "indexed": []interface{}{"Ev(int)", nil, hx(k.n)}, "data": []interface{}{}}}
		}
		if w.C.P(300) {
			k.result["status"] = "0x0"
			k.result["failure"] = map[string]interface{}{"code": hx(32 + k.n), "message": "Reverted(0)"}
		}
		n.cases = append(n.cases, k)
	}
	for _, k := range n.cases {
		k := k
		s.At(time.Duration(w.C.N(3000))*time.Millisecond, "send", func() {
			w.spawn(p, func() {
				hs, r, err := cl.SendTransactionAndGetResult(k.p)
				k.mu.Lock()
				k.retHash, k.res, k.err, k.returned = hs, r, err, true
				k.mu.Unlock()
			})
		})
	}
	all := func() bool {
		for _, k := range n.cases {
			k.mu.Lock()
			r := k.returned
			k.mu.Unlock()
			if !r {
				return false
			}
		}
		return true
	}
	s.RunUntil(3000*time.Second, all)
	for _, k := range n.cases {
		k.judge(w, netFaults)
	}
}

func (k *swCase) judge(w *World, faults bool) {
	bad := func(sig, f string, a ...interface{}) {
		w.Fail(sig, "transaction %d (submission replies %v, query replies %v, network faults %v): %s", k.n, k.sendSeq, squeeze(k.resSeq), faults, fmt.Sprintf(f, a...))
	}
	if !k.returned {
		bad("stuck", "the call did not return, the last request was %v ago", w.Now()-k.lastEvent)
	}
	w.State("%v %s %v %d", k.sendSeq, k.refused, k.err == nil, len(k.resSeq))
	if k.err != nil {
		if k.refused == "" && !faults {
			bad("error", "the chain took it and has a result, the call reports %v", k.err)
		}
		return
	}
	if k.refused != "" {
		bad("success", "the node refused with %s, the call reports success", k.refused)
	}
	if k.res == nil {
		bad("nil", "no error and no result")
	}
	if k.retHash == nil || string(*k.retHash) != k.hash {
		bad("hash", "the hash is %v, not %s", k.retHash, k.hash)
	}
	b, _ := json.Marshal(k.res)
	var got map[string]interface{}
	_ = json.Unmarshal(b, &got)
	for f, v := range k.result {
		x, _ := json.Marshal(v)
		y, _ := json.Marshal(got[f])
		if f == "eventLogs" {
			// the client has no null in its lists
			x = bytes.ReplaceAll(x, []byte("null"), []byte(`""`))
		}
		if canonJSON(x) != canonJSON(y) {
			bad("altered", "%s is %s on the chain, the call reports %s", f, x, y)
		}
	}
}

func squeeze(l []string) string {
	if len(l) > 12 {
		return fmt.Sprintf("%v... (%d)", l[:12], len(l))
	}
	return fmt.Sprint(l)
}
