package sim

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/crypto"
)

// iconNet is the BTP network of a link on an ICON chain: the source's truth.
type iconNet struct {
	nid         int64
	startHeight int64
	offset      int64
	blocks      []*btpBlock
	sn          int64 // next message number
	ctxN        int64
}

func (n *iconNet) at(h int64) *btpBlock {
	i := sort.Search(len(n.blocks), func(i int) bool { return n.blocks[i].height >= h })
	if i < len(n.blocks) && n.blocks[i].height == h {
		return n.blocks[i]
	}
	return nil
}

func (n *iconNet) add(height int64, msgs [][]byte, ctx bool) *btpBlock {
	b := &btpBlock{height: height, firstSN: n.sn, ctx: ctx, msgs: msgs, leaves: leafHashes(msgs)}
	if len(n.blocks) > 0 {
		b.prev = n.blocks[len(n.blocks)-1].nsHash
	}
	if ctx {
		n.ctxN++
	}
	ctxBytes := enc([]interface{}{[]interface{}{keccak([]byte(fmt.Sprint("validator", n.ctxN)))[:20]}})
	root := mtRoot(b.leaves)
	var next interface{}
	if ctx {
		next = ctxBytes
	}
	b.nsHash = keccak(enc([]interface{}{n.nid, b.updateNumber(), b.prev, int64(len(msgs)), root}))
	b.header = enc([]interface{}{height, int64(0), keccak(ctxBytes), []interface{}{}, n.nid, b.updateNumber(),
		b.prev, int64(len(msgs)), root, next})
	b.proof = enc([]interface{}{[]interface{}{keccak(b.header, []byte("sig"))}})
	n.sn += int64(len(msgs))
	n.blocks = append(n.blocks, b)
	return b
}

type iconTx struct {
	hash    string
	from    string
	method  string
	params  map[string]string
	state   int // 0 pool, 1 executing, 2 done, 3 dropped
	fail    *revert
	height  int64
	raw     map[string]interface{}
	garbage bool // executes with a failure that is not a revert
	// the same, and without saying why
	noFailure bool
	owner     interface{}
	msg       []byte
}

// iconChain models an ICON node and the chain behind it.
type iconChain struct {
	w      *World
	s      *Sched
	name   string
	nid    string
	addr   string // BTP address
	bmc    string
	in     *flow
	out    *flow
	net    *iconNet
	queue  [][]byte // messages for the next block
	ctxQ   bool
	height int64
	pool   []*iconTx
	exec   []*iconTx
	txs    map[string]*iconTx
	mons   []*monitor
	period time.Duration
	prof   *profile
	inTx   int // transactions taken
	onTx   func(tx *iconTx)
	onTake func(tx *iconTx)
	// a transaction refused as invalid
	onRefuse func(e *RPCError)
	full     bool // the pool takes nothing
	halt     bool // no blocks
}

type monitor struct {
	c    *WSConn
	next int64
	kind string
}

func newIconChain(w *World, s *Sched, name, nid, bmc string, prof *profile) *iconChain {
	c := &iconChain{w: w, s: s, name: name, nid: nid, bmc: bmc, addr: "btp://" + nid + ".icon/" + bmc, txs: map[string]*iconTx{}, prof: prof}
	s.pushers = append(s.pushers, c.pushes)
	return c
}

func (c *iconChain) Addr() string  { return c.addr }
func (c *iconChain) In() *flow     { return c.in }
func (c *iconChain) Out() *flow    { return c.out }
func (c *iconChain) SetIn(f *flow) { c.in = f }

// Open starts the chain's history as a source: the network and the blocks
// that precede the run.
func (c *iconChain) Open(f *flow, net *iconNet) {
	c.out, c.net = f, net
	c.net.add(net.startHeight+1, nil, true)
	c.height = net.startHeight + 1
}

func (c *iconChain) Submit(msg []byte) { c.queue = append(c.queue, msg) }

func (c *iconChain) StartBlocks(period time.Duration) {
	c.period = period
	var tick func()
	tick = func() {
		if !c.halt {
			c.Block()
		}
		d := c.period
		if c.prof.jitter > 0 {
			d += time.Duration(c.w.C.N(c.prof.jitter)) * time.Millisecond
		}
		c.s.After(d, c.name+" block", tick)
	}
	c.s.After(period, c.name+" block", tick)
}

// Block makes one block.
func (c *iconChain) Block() {
	c.height++
	w := c.w
	for _, tx := range c.exec {
		c.execute(tx)
	}
	c.exec = nil
	n := len(c.pool)
	if c.prof.faulty && n > 1 && w.C.P(c.prof.p("txreorder")) {
		for again := true; again; again = c.prof.shuffle && w.C.P(700) {
			i, k := w.C.N(n), w.C.N(n)
			c.pool[k], c.pool[i] = c.pool[i], c.pool[k]
		}
		w.Fault("chain:txreorder")
		w.Tracef("%s FAULT txreorder", c.name)
	}
	if c.prof.faulty && n > 0 && w.C.P(c.prof.p("txdrop")) {
		i := w.C.N(n)
		c.pool[i].state = 3
		delete(c.txs, c.pool[i].hash)
		c.pool = append(c.pool[:i:i], c.pool[i+1:]...)
		n--
		w.Fault("chain:txdrop")
		w.Tracef("%s FAULT txdrop", c.name)
	}
	take := n
	if n > 0 && c.prof.slowTx > 0 && w.C.P(c.prof.slowTx) {
		take = w.C.N(n)
	}
	c.exec, c.pool = c.pool[:take:take], c.pool[take:]
	for _, tx := range c.exec {
		tx.state = 1
	}
	if c.net != nil && (len(c.queue) > 0 || c.ctxQ) {
		b := c.net.add(c.height, c.queue, c.ctxQ)
		c.out.sent = append(c.out.sent, c.queue...)
		w.Tracef("%s BTP block %d: %d messages from seq %d ctx=%v", c.name, b.height, len(b.msgs), c.out.lastSent()-int64(len(b.msgs))+1, b.ctx)
		c.queue, c.ctxQ = nil, false
	}
}

func (c *iconChain) execute(tx *iconTx) {
	tx.state = 2
	tx.height = c.height
	c.w.Tracef("%s executes %s %s", c.name, tx.method, tx.params["_idx"])
	if c.onTx != nil {
		c.onTx(tx)
		return
	}
	if tx.params["_prev"] != c.in.srcAddr {
		tx.fail = rv(18, "not exists link %s", tx.params["_prev"])
		c.w.Fail("wronglink", "transaction for link %q, want %q", tx.params["_prev"], c.in.srcAddr)
		return
	}
	msg, err := base64.URLEncoding.DecodeString(tx.params["_msg"])
	if err != nil {
		tx.fail = rv(codeBMC, "fail to decode base64")
		c.in.reject(tx.fail, "transaction")
		return
	}
	switch tx.method {
	case "handleRelayMessage":
		tx.fail = c.in.relay(tx.from, msg, false)
	case "handleFragment":
		idx, err := strconv.ParseInt(strings.Replace(tx.params["_idx"], "0x", "", 1), 16, 64)
		if err != nil {
			tx.fail = rv(codeBMC, "bad index")
			c.in.reject(tx.fail, "transaction")
			return
		}
		tx.fail = c.in.fragment(tx.from, msg, idx)
	default:
		tx.fail = rv(codeBMC, "unknown method")
		c.in.reject(tx.fail, "transaction")
	}
}

// ---- JSON-RPC

func hexInt(v int64) string {
	if v < 0 {
		return "-0x" + strconv.FormatInt(-v, 16)
	}
	return "0x" + strconv.FormatInt(v, 16)
}

func parseHex(s string) (int64, error) {
	if !strings.HasPrefix(s, "0x") {
		return 0, fmt.Errorf("bad T_INT %q", s)
	}
	return strconv.ParseInt(s[2:], 16, 64)
}

func (c *iconChain) err(code int, f string, a ...interface{}) *RPCError {
	e := &RPCError{Code: code, Message: fmt.Sprintf(f, a...)}
	switch c.w.C.N(3) {
	case 1:
		e.http = 400
	case 2:
		e.http = 500
	}
	return e
}

func (c *iconChain) RPC(h *Host, method string, params json.RawMessage) (interface{}, *RPCError) {
	var m map[string]interface{}
	if err := json.Unmarshal(params, &m); err != nil {
		return nil, c.err(-32602, "InvalidParams: %v", err)
	}
	str := func(k string) string { s, _ := m[k].(string); return s }
	switch method {
	case "icx_sendTransaction":
		return c.sendTx(m)
	case "icx_getTransactionResult":
		return c.getResult(str("txHash"))
	case "icx_call":
		return c.call(m)
	case "btp_getNetworkInfo":
		id, _ := parseHex(str("id"))
		if c.net == nil || id != c.net.nid {
			return nil, c.err(-31004, "E1001: not found network")
		}
		last := c.net.blocks[len(c.net.blocks)-1]
		return map[string]interface{}{"startHeight": hexInt(c.net.startHeight), "networkTypeID": "0x1", "networkName": c.out.dstAddr,
			"open": "0x1", "owner": c.bmc, "nextMessageSN": hexInt(c.net.sn), "nextProofContextChanged": "0x0",
			"prevNSHash": nil, "lastNSHash": "0x" + hex.EncodeToString(last.nsHash), "networkID": hexInt(c.net.nid), "networkTypeName": "eth"}, nil
	case "btp_getHeader", "btp_getMessages", "btp_getProof":
		hh, err := parseHex(str("height"))
		id, err2 := parseHex(str("networkID"))
		if err != nil || err2 != nil {
			return nil, c.err(-32602, "InvalidParams")
		}
		if c.net == nil || id != c.net.nid || hh > c.height {
			return nil, c.err(-31004, "E1001: not found")
		}
		b := c.net.at(hh)
		if b == nil {
			return nil, c.err(-31004, "E1001: no BTP block at %d", hh)
		}
		switch method {
		case "btp_getHeader":
			return base64.StdEncoding.EncodeToString(b.header), nil
		case "btp_getProof":
			return base64.StdEncoding.EncodeToString(b.proof), nil
		}
		r := make([]string, len(b.msgs))
		for i, x := range b.msgs {
			r[i] = base64.StdEncoding.EncodeToString(x)
		}
		return r, nil
	}
	return nil, c.err(-32601, "MethodNotFound %s", method)
}

func (c *iconChain) call(m map[string]interface{}) (interface{}, *RPCError) {
	if m["to"] != c.bmc || m["dataType"] != "call" {
		return nil, c.err(-30000, "NoActiveContract %v", m["to"])
	}
	d, _ := m["data"].(map[string]interface{})
	p, _ := d["params"].(map[string]interface{})
	link, _ := p["_link"].(string)
	switch d["method"] {
	case "getStatus":
		f := c.in
		if f == nil || link != f.srcAddr {
			return nil, c.err(-30018, "Reverted(18) not exists link %s", link)
		}
		tx := int64(0)
		if c.out != nil {
			tx = c.out.lastSent()
		}
		var extra interface{}
		if e := f.ver.Extra(); e != nil {
			extra = "0x" + hex.EncodeToString(e)
		}
		return map[string]interface{}{"tx_seq": hexInt(tx), "rx_seq": hexInt(f.rx),
			"verifier": map[string]interface{}{"height": hexInt(f.ver.Height()), "extra": extra},
			"relays":   []interface{}{}, "cur_height": hexInt(c.height)}, nil
	case "getBTPLinkNetworkId", "getBTPLinkOffset":
		if c.out == nil || link != c.out.dstAddr {
			return nil, c.err(-30018, "Reverted(18) not exists link %s", link)
		}
		if d["method"] == "getBTPLinkOffset" {
			return hexInt(c.net.offset), nil
		}
		return hexInt(c.net.nid), nil
	}
	return nil, c.err(-30000, "MethodNotFound")
}

// icxSerialize is the canonical serialization of a transaction for hashing.
func icxSerialize(v interface{}, top bool) string {
	esc := strings.NewReplacer("\\", "\\\\", "{", "\\{", "}", "\\}", "[", "\\[", "]", "\\]", ".", "\\.")
	switch t := v.(type) {
	case nil:
		return "\\0"
	case string:
		return esc.Replace(t)
	case []interface{}:
		var r []string
		for _, x := range t {
			r = append(r, icxSerialize(x, false))
		}
		return "[" + strings.Join(r, ".") + "]"
	case map[string]interface{}:
		var ks []string
		for k := range t {
			if top && k == "signature" {
				continue
			}
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var r []string
		for _, k := range ks {
			r = append(r, esc.Replace(k)+"."+icxSerialize(t[k], false))
		}
		s := strings.Join(r, ".")
		if top {
			return s
		}
		return "{" + s + "}"
	}
	return fmt.Sprint(v)
}

func icxAddress(pub []byte) string { return "hx" + hex.EncodeToString(sha3256(pub[1:])[12:]) }

// recoverIcx tells whose signature it is.
func recoverIcx(h, sig []byte) (string, error) {
	pub, err := crypto.Ecrecover(h, sig)
	if err != nil {
		return "", err
	}
	return icxAddress(pub), nil
}

// checkTx validates a submitted transaction as a node does.
func (c *iconChain) checkTx(m map[string]interface{}) (*iconTx, *RPCError) {
	str := func(k string) string { s, _ := m[k].(string); return s }
	h := sha3256([]byte("icx_sendTransaction." + icxSerialize(m, true)))
	sig, err := base64.StdEncoding.DecodeString(str("signature"))
	if err != nil || len(sig) != 65 {
		return nil, c.err(-32602, "InvalidParams: signature")
	}
	pub, err := crypto.Ecrecover(h, sig)
	if err != nil || icxAddress(pub) != str("from") {
		return nil, c.err(-31000, "E2005:InvalidTransaction(InvalidSignature)")
	}
	if str("nid") != c.nid {
		return nil, c.err(-31000, "E2005:InvalidTransaction(InvalidNetworkID %s)", str("nid"))
	}
	if str("version") != "0x3" || str("to") != c.bmc || str("dataType") != "call" {
		return nil, c.err(-32602, "InvalidParams")
	}
	if v, err := parseHex(str("stepLimit")); err != nil || v <= 0 {
		return nil, c.err(-32602, "InvalidParams: stepLimit")
	}
	ts, err := parseHex(str("timestamp"))
	if err != nil {
		return nil, c.err(-32602, "InvalidParams: timestamp")
	}
	d := time.Duration(ts)*time.Microsecond - time.Duration(time.Now().UnixMicro())*time.Microsecond - c.prof.skew
	if d < -5*time.Minute {
		return nil, c.err(-31000, "E2002:ExpiredTransaction")
	}
	if d > 5*time.Minute {
		return nil, c.err(-31000, "E2003:FutureTransaction")
	}
	data, _ := m["data"].(map[string]interface{})
	ps, _ := data["params"].(map[string]interface{})
	tx := &iconTx{hash: "0x" + hex.EncodeToString(h), from: str("from"), params: map[string]string{}, raw: m}
	tx.method, _ = data["method"].(string)
	for k, v := range ps {
		tx.params[k], _ = v.(string)
	}
	if b, _ := json.Marshal(data); len(b) > 512*1024 {
		return nil, c.err(-31000, "E2005:InvalidTransaction(data size %d)", len(b))
	}
	return tx, nil
}

func (c *iconChain) sendTx(m map[string]interface{}) (interface{}, *RPCError) {
	w := c.w
	tx, e := c.checkTx(m)
	if e != nil {
		if c.onRefuse != nil {
			c.onRefuse(e)
		}
		if c.in != nil && c.in.strict {
			w.Fail("badtx", "without any fault, the node refused a transaction: %d %s", e.Code, e.Message)
		}
		return nil, e
	}
	if c.txs[tx.hash] != nil {
		w.Count("tx-duplicate")
		return nil, c.err(-31000, "E2000:DuplicateTransaction(%s)", tx.hash)
	}
	if c.full || c.prof.faulty && w.C.P(c.prof.p("txoverflow")) {
		w.Fault("chain:txoverflow")
		if c.onTake != nil && !w.C.P(c.prof.p("sysoverflow")) || c.onTake == nil && w.C.N(2) == 0 {
			return nil, c.err(-31001, "E2001:TransactionPoolOverflowError")
		}
		return nil, c.err(-31000, "E2001:TransactionPoolOverflowError")
	}
	if c.prof.faulty && w.C.P(c.prof.p("txexpired")) {
		w.Fault("chain:txexpired")
		return nil, c.err(-31000, "E2002:ExpiredTransaction")
	}
	c.txs[tx.hash] = tx
	c.pool = append(c.pool, tx)
	c.inTx++
	w.Count("tx")
	w.Tracef("%s takes tx %s %s", c.name, tx.method, tx.params["_idx"])
	if c.onTake != nil {
		c.onTake(tx)
	}
	if c.prof.faulty && w.C.P(c.prof.p("txdup")) {
		// the request came twice (a proxy repeated it); this answers the second one
		w.Fault("chain:txdup")
		w.Tracef("%s FAULT txdup", c.name)
		return nil, c.err(-31000, "E2000:DuplicateTransaction(%s)", tx.hash)
	}
	return tx.hash, nil
}

func (c *iconChain) getResult(h string) (interface{}, *RPCError) {
	tx := c.txs[h]
	switch {
	case tx == nil:
		return nil, c.err(-31004, "E1001: not found %s", h)
	case tx.state == 0:
		return nil, c.err(-31002, "Pending")
	case tx.state == 1:
		return nil, c.err(-31003, "Executing")
	}
	r := map[string]interface{}{"to": c.bmc, "cumulativeStepUsed": "0x1", "stepUsed": "0x1", "stepPrice": "0x1", "eventLogs": []interface{}{},
		"logsBloom": "0x00", "status": "0x1", "blockHash": "0x" + hex.EncodeToString(keccak([]byte(fmt.Sprint(tx.height)))),
		"blockHeight": hexInt(tx.height), "txIndex": "0x0", "txHash": tx.hash}
	if tx.garbage {
		r["status"] = "0x0"
		r["failure"] = map[string]interface{}{"code": "0x1", "message": "UnknownFailure"}
	} else if tx.noFailure {
		r["status"] = "0x0"
	} else if tx.fail != nil {
		r["status"] = "0x0"
		r["failure"] = map[string]interface{}{"code": hexInt(int64(32 + tx.fail.code)), "message": fmt.Sprintf("Reverted(%d)", tx.fail.code)}
	}
	return r, nil
}

// ---- websocket

func (c *iconChain) WSMessage(h *Host, ws *WSConn, msg []byte) {
	var m map[string]interface{}
	bad := func(s string) {
		c.w.Tracef("%s ws %s refused: %s", c.name, ws.path, s)
		ws.SendJSON(map[string]interface{}{"code": 1, "message": s})
		ws.CloseWith(1000)
	}
	if err := json.Unmarshal(msg, &m); err != nil {
		bad("bad parameter")
		return
	}
	str := func(k string) string { s, _ := m[k].(string); return s }
	hh, err := parseHex(str("height"))
	if err != nil || hh < 1 {
		bad("bad height")
		return
	}
	mon := &monitor{c: ws, next: hh, kind: ws.path}
	if !strings.HasSuffix(ws.path, "/btp") {
		bad("unknown path")
		return
	}
	id, err := parseHex(str("networkID"))
	if err != nil || c.net == nil || id != c.net.nid {
		bad("bad network")
		return
	}
	c.w.Tracef("%s ws %s from %d", c.name, ws.path, hh)
	ws.SendJSON(map[string]interface{}{"code": 0})
	c.mons = append(c.mons, mon)
}

func (c *iconChain) pushes() []push {
	var r []push
	keep := c.mons[:0]
	for _, m := range c.mons {
		c.w.mu.Lock()
		open := m.c.open && m.c.h.proc.Alive()
		c.w.mu.Unlock()
		if !open {
			continue
		}
		keep = append(keep, m)
		i := sort.Search(len(c.net.blocks), func(i int) bool { return c.net.blocks[i].height >= m.next })
		if i < len(c.net.blocks) {
			b, m := c.net.blocks[i], m
			r = append(r, push{run: func() { c.pushBlock(m, b) }})
		}
	}
	c.mons = keep
	return r
}

func (c *iconChain) pushBlock(m *monitor, b *btpBlock) {
	w := c.w
	if c.prof.faulty && w.C.P(c.prof.p("wsdrop")) {
		switch k := w.C.N(4); k {
		case 0:
			w.Fault("net:wsdrop")
			m.c.Drop(nil)
		case 1:
			w.Fault("net:wsdrop-midframe")
			f := encFrame(1, []byte(`{"header":"`+base64.StdEncoding.EncodeToString(b.header)+`"}`))
			m.c.Drop(f[:1+w.C.N(len(f)-1)])
		case 2:
			w.Fault("net:wsclose")
			m.c.CloseWith(1000)
		case 3:
			w.Fault("net:wsclose-abnormal")
			m.c.CloseWith(1011)
		}
		w.Tracef("%s FAULT websocket %d cut", c.name, m.c.id)
		return
	}
	m.next = b.height + 1
	w.Tracef("%s push BTP block %d on ws %d", c.name, b.height, m.c.id)
	m.c.SendJSON(map[string]interface{}{"header": base64.StdEncoding.EncodeToString(b.header)})
}
