package sim

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
)

// the part of the BMC's interface the relay uses, as the contract defines it
const bmcABIJSON = `[
{"anonymous":false,"inputs":[{"indexed":false,"name":"_next","type":"string"},{"indexed":false,"name":"_seq","type":"uint256"},{"indexed":false,"name":"_msg","type":"bytes"}],"name":"Message","type":"event"},
{"inputs":[{"name":"_prev","type":"string"},{"name":"_msg","type":"bytes"}],"name":"handleRelayMessage","outputs":[],"stateMutability":"nonpayable","type":"function"},
{"inputs":[{"name":"_link","type":"string"}],"name":"getStatus","outputs":[{"components":[{"name":"rxSeq","type":"uint256"},{"name":"txSeq","type":"uint256"},{"components":[{"name":"height","type":"uint256"},{"name":"extra","type":"bytes"}],"name":"verifier","type":"tuple"},{"name":"currentHeight","type":"uint256"}],"name":"_linkStats","type":"tuple"}],"stateMutability":"view","type":"function"}]`

var bmcABI = func() abi.ABI {
	a, err := abi.JSON(strings.NewReader(bmcABIJSON))
	if err != nil {
		panic(err)
	}
	return a
}()

// evict drops transactions that wait for a missing nonce for too long, as nodes do.
func (c *ethChain) evict(pool []*ethTx) []*ethTx {
	next := map[string]uint64{}
	var rest []*ethTx
	for _, t := range pool { // by nonce
		from := fmt.Sprint(t.from)
		n, ok := next[from]
		if !ok {
			n = c.nonces[t.from]
		}
		switch {
		case t.tx.Nonce() <= n:
			t.stuck = 0
			next[from] = n + 1
		case t.stuck == 0:
			t.stuck = c.w.Now()
		case c.w.Now()-t.stuck > 100*time.Second:
			delete(c.txs, t.tx.Hash())
			t.dropped = true
			c.w.Tracef("%s evicts tx nonce %d", c.name, t.tx.Nonce())
			continue
		}
		rest = append(rest, t)
	}
	return rest
}

type ethTx struct {
	stuck  time.Duration // when it was first seen with a nonce missing before it
	tx     *types.Transaction
	from   common.Address
	block  *ethBlock
	index  int
	status uint64
	rv     *revert
	owner  interface{}
	// thrown out of the pool
	dropped bool
}

type ethBlock struct {
	num    int64
	header *types.Header
	hash   common.Hash
	logs   []*types.Log
	txs    []*ethTx
}

type ethMsg struct {
	next string
	seq  int64
	msg  []byte
	tx   int // group within the block
}

// ethChain models an Ethereum node and the chain behind it.
type ethChain struct {
	w       *World
	s       *Sched
	name    string
	addr    string
	bmc     common.Address
	chainID *big.Int
	in      *flow
	out     *flow
	blocks  map[int64]*ethBlock
	byHash  map[common.Hash]*ethBlock
	height  int64
	queue   []ethMsg
	txSeq   int64
	noise   int64
	nonces  map[common.Address]uint64
	pool    []*ethTx
	txs     map[common.Hash]*ethTx
	prof    *profile
	period  time.Duration
	subs    []*ethSub
	first   int64
	onCall  func(tx *ethTx) *revert
	onDry   func(data []byte) (interface{}, *RPCError)
	onTake  func(tx *ethTx)
	// a transaction refused
	onRefuse func(msg string)
	full     bool // the pool takes nothing
	halt     bool // no blocks
}

// gap tells whether a transaction waits for one with a smaller nonce that is not there.
func (c *ethChain) gap(t *ethTx) bool { return t.tx.Nonce() >= c.pendingNonce(t.from) }

type ethSub struct {
	c    *WSConn
	id   string
	next int64
}

func newEthChain(w *World, s *Sched, name, nid string, bmc common.Address, prof *profile) *ethChain {
	c := &ethChain{w: w, s: s, name: name, bmc: bmc, chainID: big.NewInt(31337), addr: "btp://" + nid + ".eth/" + strings.ToLower(bmc.Hex()),
		blocks: map[int64]*ethBlock{}, byHash: map[common.Hash]*ethBlock{}, nonces: map[common.Address]uint64{}, txs: map[common.Hash]*ethTx{}, prof: prof}
	s.pushers = append(s.pushers, c.pushes)
	return c
}

func (c *ethChain) Addr() string  { return c.addr }
func (c *ethChain) In() *flow     { return c.in }
func (c *ethChain) Out() *flow    { return c.out }
func (c *ethChain) SetIn(f *flow) { c.in = f }

// Submit queues a message of the link for the next block.
func (c *ethChain) Submit(msg []byte) {
	c.txSeq++
	c.queue = append(c.queue, ethMsg{next: c.out.dstAddr, seq: c.txSeq, msg: msg, tx: c.w.C.N(2)})
	if c.w.C.P(150) {
		// somebody else's link shares the contract; its sequence numbers are its own
		c.noise++
		next := "btp://0x77.icon/cx" + strings.Repeat("7", 40)
		if c.w.C.N(3) == 2 {
			next = c.out.dstAddr[:len(c.out.dstAddr)-1] + "7" // another contract on the same network
		}
		c.queue = append(c.queue, ethMsg{next: next, seq: c.noise + int64(c.w.C.N(2))*c.txSeq, msg: []byte("other"), tx: c.w.C.N(2)})
	}
}

func (c *ethChain) StartBlocks(period time.Duration) {
	c.period = period
	var tick func()
	tick = func() {
		if !c.halt {
			c.Block()
		}
		d := c.period
		if c.prof.jitter > 0 {
			d += time.Duration(c.w.C.N(c.prof.jitter)) * time.Millisecond
		}
		c.s.After(d, c.name+" block", tick)
	}
	c.s.After(period, c.name+" block", tick)
}

func (c *ethChain) Block() {
	w := c.w
	c.height++
	b := &ethBlock{num: c.height}
	if c.prof.faulty && len(c.pool) > 0 && w.C.P(c.prof.p("txdrop")) {
		i := w.C.N(len(c.pool))
		delete(c.txs, c.pool[i].tx.Hash())
		c.pool[i].dropped = true
		c.pool = append(c.pool[:i:i], c.pool[i+1:]...)
		w.Fault("chain:txdrop")
		w.Tracef("%s FAULT txdrop", c.name)
	}
	take := len(c.pool)
	if take > 0 && c.prof.slowTx > 0 && w.C.P(c.prof.slowTx) {
		take = w.C.N(take)
	}
	sort.SliceStable(c.pool, func(i, j int) bool { return c.pool[i].tx.Nonce() < c.pool[j].tx.Nonce() })
	var rest []*ethTx
	for _, t := range c.pool {
		if take > 0 && t.tx.Nonce() == c.nonces[t.from] {
			take--
			c.nonces[t.from]++
			t.block, t.index = b, len(b.txs)
			b.txs = append(b.txs, t)
			continue
		}
		rest = append(rest, t)
	}
	c.pool = c.evict(rest)
	// messages of the application's own transactions
	base := len(b.txs)
	if c.out != nil {
		c.seal()
	}
	for g := 0; g < 2; g++ {
		any := false
		for _, m := range c.queue {
			if m.tx != g {
				continue
			}
			any = true
			data, err := bmcABI.Events["Message"].Inputs.Pack(m.next, big.NewInt(m.seq), m.msg)
			if err != nil {
				panic(err)
			}
			b.logs = append(b.logs, &types.Log{Address: c.bmc, Topics: []common.Hash{bmcABI.Events["Message"].ID}, Data: data,
				BlockNumber: uint64(b.num), TxHash: common.BytesToHash(keccak([]byte(fmt.Sprint(c.name, b.num, g)))), TxIndex: uint(base), Index: uint(len(b.logs))})
		}
		if any {
			base++
		}
	}
	c.queue = nil
	var parent common.Hash
	if p := c.blocks[c.height-1]; p != nil {
		parent = p.hash
	}
	b.header = &types.Header{ParentHash: parent, UncleHash: types.EmptyUncleHash, Root: common.BytesToHash(keccak([]byte(fmt.Sprint("state", c.name, b.num)))),
		TxHash: types.EmptyRootHash, ReceiptHash: types.EmptyRootHash, Difficulty: big.NewInt(2), Number: big.NewInt(b.num),
		GasLimit: 30000000, Time: uint64(time.Now().Unix()), Extra: make([]byte, 97)}
	b.hash = b.header.Hash()
	for _, l := range b.logs {
		l.BlockHash = b.hash
	}
	c.blocks[b.num], c.byHash[b.hash] = b, b
	for _, t := range b.txs {
		w.Tracef("%s executes tx nonce %d", c.name, t.tx.Nonce())
		t.rv = c.run(t, false)
		if t.rv == nil {
			t.status = 1
		}
	}
	if len(b.logs) > 0 {
		w.Tracef("%s block %d: %d events up to seq %d", c.name, b.num, len(b.logs), c.txSeq)
	}
}

// seal fixes the sequence numbers of the queue in the order of execution.
func (c *ethChain) seal() {
	// transactions run in group order, so sequence numbers follow it
	s := c.txSeq
	for _, m := range c.queue {
		if m.next == c.out.dstAddr {
			s--
		}
	}
	for g := 0; g < 2; g++ {
		for i := range c.queue {
			if m := &c.queue[i]; m.tx == g && m.next == c.out.dstAddr {
				s++
				m.seq = s
				c.out.sent = append(c.out.sent, m.msg)
			}
		}
	}
}

func (c *ethChain) run(t *ethTx, dry bool) *revert {
	if c.onCall != nil {
		return c.onCall(t)
	}
	d := t.tx.Data()
	m := bmcABI.Methods["handleRelayMessage"]
	if t.tx.To() == nil || *t.tx.To() != c.bmc || len(d) < 4 || !bytes.Equal(d[:4], m.ID) {
		return c.in.reject(rv(codeBMC, "unknown call"), "transaction")
	}
	a, err := m.Inputs.Unpack(d[4:])
	if err != nil {
		return c.in.reject(rv(codeBMC, "bad call data"), "transaction")
	}
	if a[0].(string) != c.in.srcAddr {
		if !dry {
			c.w.Fail("wronglink", "transaction for link %q, want %q", a[0], c.in.srcAddr)
		}
		return rv(18, "not exists link")
	}
	return c.in.relay(strings.ToLower(t.from.Hex()), a[1].([]byte), dry)
}

// ---- JSON-RPC

func ethErr(code int, f string, a ...interface{}) *RPCError {
	return &RPCError{Code: code, Message: fmt.Sprintf(f, a...)}
}

func revertErr(r *revert) *RPCError {
	t, _ := abi.NewType("string", "", nil)
	s := fmt.Sprintf("%d:%s", r.code, r.msg)
	p, _ := abi.Arguments{{Type: t}}.Pack(s)
	return &RPCError{Code: 3, Message: "execution reverted: " + s, Data: "0x08c379a0" + hex.EncodeToString(p)}
}

func (c *ethChain) RPC(h *Host, method string, params json.RawMessage) (interface{}, *RPCError) {
	var ps []json.RawMessage
	if len(params) > 0 {
		if err := json.Unmarshal(params, &ps); err != nil {
			return nil, ethErr(-32602, "invalid params")
		}
	}
	arg := func(i int) string {
		var s string
		if i < len(ps) {
			_ = json.Unmarshal(ps[i], &s)
		}
		return s
	}
	switch method {
	case "eth_chainId":
		return hexutil.EncodeBig(c.chainID), nil
	case "eth_blockNumber":
		return hexutil.EncodeUint64(uint64(c.height)), nil
	case "eth_gasPrice":
		return "0x3b9aca00", nil
	case "eth_getBlockByNumber":
		n := c.height
		if a := arg(0); a != "latest" && a != "pending" {
			v, err := hexutil.DecodeUint64(a)
			if err != nil {
				return nil, ethErr(-32602, "invalid block number %q", a)
			}
			n = int64(v)
		}
		b := c.blocks[n]
		if b == nil {
			return nil, nil
		}
		return b.header, nil
	case "eth_getTransactionCount":
		a := common.HexToAddress(arg(0))
		n := c.nonces[a]
		if arg(1) == "pending" {
			n = c.pendingNonce(a)
		}
		return hexutil.EncodeUint64(n), nil
	case "eth_sendRawTransaction":
		return c.sendRaw(arg(0))
	case "eth_getTransactionByHash":
		t := c.txs[common.HexToHash(arg(0))]
		if t == nil {
			return nil, nil
		}
		b, err := t.tx.MarshalJSON()
		if err != nil {
			panic(err)
		}
		var m map[string]interface{}
		_ = json.Unmarshal(b, &m)
		m["from"] = t.from.Hex()
		m["blockNumber"], m["blockHash"] = nil, nil
		if t.block != nil {
			m["blockNumber"], m["blockHash"] = hexutil.EncodeUint64(uint64(t.block.num)), t.block.hash.Hex()
		}
		return m, nil
	case "eth_getTransactionReceipt":
		t := c.txs[common.HexToHash(arg(0))]
		if t == nil || t.block == nil {
			return nil, nil
		}
		return &types.Receipt{Status: t.status, CumulativeGasUsed: 21000, Logs: []*types.Log{}, TxHash: t.tx.Hash(), GasUsed: 21000,
			BlockHash: t.block.hash, BlockNumber: big.NewInt(t.block.num), TransactionIndex: uint(t.index)}, nil
	case "eth_call":
		return c.call(ps)
	case "eth_getCode":
		return "0x01", nil
	case "eth_getLogs":
		return c.getLogs(ps)
	}
	return nil, ethErr(-32601, "the method %s does not exist", method)
}

func (c *ethChain) pendingNonce(a common.Address) uint64 {
	n := c.nonces[a]
	for again := true; again; {
		again = false
		for _, t := range c.pool {
			if t.from == a && t.tx.Nonce() == n {
				n++
				again = true
			}
		}
	}
	return n
}

func (c *ethChain) sendRaw(raw string) (interface{}, *RPCError) {
	w := c.w
	bad := func(s string) (interface{}, *RPCError) {
		w.Tracef("%s refuses tx: %s", c.name, s)
		if c.onRefuse != nil {
			c.onRefuse(s)
		}
		if c.in != nil && c.in.strict {
			w.Fail("badtx", "without any fault, the node refused a transaction: %s", s)
		}
		return nil, ethErr(-32000, "%s", s)
	}
	b, err := hexutil.Decode(raw)
	if err != nil {
		return bad("invalid hex")
	}
	tx := new(types.Transaction)
	if err = tx.UnmarshalBinary(b); err != nil {
		return bad("rlp: " + err.Error())
	}
	from, err := types.Sender(types.LatestSignerForChainID(c.chainID), tx)
	if err != nil {
		return bad("invalid sender")
	}
	if c.full || c.prof.faulty && w.C.P(c.prof.p("txoverflow")) {
		w.Fault("chain:txoverflow")
		return nil, ethErr(-32000, "txpool is full")
	}
	if c.txs[tx.Hash()] != nil {
		return bad("already known")
	}
	if tx.Nonce() < c.nonces[from] {
		return bad("nonce too low")
	}
	for _, t := range c.pool {
		if t.from == from && t.tx.Nonce() == tx.Nonce() {
			return bad("replacement transaction underpriced")
		}
	}
	t := &ethTx{tx: tx, from: from}
	c.txs[tx.Hash()] = t
	c.pool = append(c.pool, t)
	w.Count("tx")
	w.Tracef("%s takes tx nonce %d", c.name, tx.Nonce())
	if c.onTake != nil {
		c.onTake(t)
	}
	return tx.Hash().Hex(), nil
}

func (c *ethChain) call(ps []json.RawMessage) (interface{}, *RPCError) {
	var a struct {
		From  string `json:"from"`
		To    string `json:"to"`
		Data  string `json:"data"`
		Input string `json:"input"`
	}
	if len(ps) < 1 || json.Unmarshal(ps[0], &a) != nil {
		return nil, ethErr(-32602, "invalid params")
	}
	if a.Data == "" {
		a.Data = a.Input
	}
	d, err := hexutil.Decode(a.Data)
	if err != nil || len(d) < 4 || common.HexToAddress(a.To) != c.bmc {
		return "0x", nil
	}
	switch {
	case bytes.Equal(d[:4], bmcABI.Methods["getStatus"].ID):
		in, err := bmcABI.Methods["getStatus"].Inputs.Unpack(d[4:])
		if err != nil {
			return nil, ethErr(3, "execution reverted")
		}
		f := c.in
		if in[0].(string) != f.srcAddr {
			return nil, revertErr(rv(18, "NotExistsLink"))
		}
		type ver struct {
			Height *big.Int
			Extra  []byte
		}
		type stats struct {
			RxSeq         *big.Int
			TxSeq         *big.Int
			Verifier      ver
			CurrentHeight *big.Int
		}
		ex := f.ver.Extra()
		if ex == nil {
			ex = []byte{}
		}
		out, err := bmcABI.Methods["getStatus"].Outputs.Pack(stats{big.NewInt(f.rx), big.NewInt(c.txSeq), ver{big.NewInt(f.ver.Height()), ex}, big.NewInt(c.height)})
		if err != nil {
			panic(err)
		}
		return hexutil.Encode(out), nil
	case bytes.Equal(d[:4], bmcABI.Methods["handleRelayMessage"].ID):
		if c.onDry != nil {
			return c.onDry(d)
		}
		to := c.bmc
		t := &ethTx{from: common.HexToAddress(a.From), tx: types.NewTx(&types.LegacyTx{To: &to, Data: d})}
		if r := c.run(t, true); r != nil {
			return nil, revertErr(r)
		}
		return "0x", nil
	}
	return nil, ethErr(3, "execution reverted")
}

func (c *ethChain) getLogs(ps []json.RawMessage) (interface{}, *RPCError) {
	var a struct {
		BlockHash *common.Hash    `json:"blockHash"`
		Address   json.RawMessage `json:"address"`
		Topics    [][]common.Hash `json:"topics"`
	}
	if len(ps) < 1 {
		return nil, ethErr(-32602, "invalid params")
	}
	if err := json.Unmarshal(ps[0], &a); err != nil || a.BlockHash == nil {
		return nil, ethErr(-32602, "invalid params %v", err)
	}
	b := c.byHash[*a.BlockHash]
	if b == nil {
		return nil, ethErr(-32000, "unknown block")
	}
	var ads []common.Address
	if json.Unmarshal(a.Address, &ads) != nil {
		var one common.Address
		if json.Unmarshal(a.Address, &one) == nil {
			ads = []common.Address{one}
		}
	}
	r := []*types.Log{}
	for _, l := range b.logs {
		ok := len(ads) == 0
		for _, x := range ads {
			ok = ok || x == l.Address
		}
		for i, ts := range a.Topics {
			hit := len(ts) == 0
			for _, t := range ts {
				hit = hit || (i < len(l.Topics) && l.Topics[i] == t)
			}
			ok = ok && hit
		}
		if ok {
			r = append(r, l)
		}
	}
	return r, nil
}

// ---- websocket

func (c *ethChain) WSMessage(h *Host, ws *WSConn, msg []byte) {
	method, params, id := opKey(msg)
	if h.faults != nil {
		if f := h.faults(nil, method); f != "" {
			c.w.Fault("net:ws-" + f)
			c.w.Tracef("%s %s FAULT websocket cut (%s)", c.name, method, f)
			if f == "lostreply" {
				_, _ = c.RPC(h, method, params)
			}
			ws.Drop(nil)
			return
		}
	}
	if method == "eth_subscribe" {
		s := &ethSub{c: ws, id: fmt.Sprintf("0x%x", 0xcd0+len(c.subs)), next: c.height + 1}
		c.subs = append(c.subs, s)
		ws.SendJSON(map[string]interface{}{"jsonrpc": "2.0", "id": id, "result": s.id})
		c.w.Tracef("%s subscribe from %d", c.name, s.next)
		return
	}
	if method == "eth_unsubscribe" {
		ws.SendJSON(map[string]interface{}{"jsonrpc": "2.0", "id": id, "result": true})
		return
	}
	res, e := c.RPC(h, method, params)
	out := map[string]interface{}{"jsonrpc": "2.0", "id": id}
	if e != nil {
		out["error"] = e
		c.w.Tracef("%s ws %s -> error %s", h.name, method, e.Message)
	} else {
		out["result"] = res
		c.w.Tracef("%s ws %s -> ok", h.name, method)
	}
	ws.SendJSON(out)
}

func (c *ethChain) pushes() []push {
	var r []push
	for _, s := range c.subs {
		c.w.mu.Lock()
		open := s.c.open && s.c.h.proc.Alive()
		c.w.mu.Unlock()
		if !open || s.next > c.height {
			continue
		}
		s := s
		r = append(r, push{run: func() {
			w := c.w
			if c.prof.faulty && w.C.P(c.prof.p("wsdrop")) {
				w.Fault("net:wsdrop")
				w.Tracef("%s FAULT websocket %d cut", c.name, s.c.id)
				s.c.Drop(nil)
				return
			}
			if c.prof.faulty && s.next < c.height && w.C.P(c.prof.p("headgap")) {
				w.Fault("node:headgap")
				w.Tracef("%s FAULT head %d is not announced", c.name, s.next)
				s.next++
				return
			}
			if c.prof.faulty && c.blocks[s.next-1] != nil && w.C.P(c.prof.p("headdup")) {
				w.Fault("node:headdup")
				w.Tracef("%s FAULT head %d is announced again", c.name, s.next-1)
				s.next--
			}
			b := c.blocks[s.next]
			s.next++
			w.Tracef("%s push head %d on ws %d", c.name, b.num, s.c.id)
			s.c.SendJSON(map[string]interface{}{"jsonrpc": "2.0", "method": "eth_subscription",
				"params": map[string]interface{}{"subscription": s.id, "result": b.header}})
		}})
	}
	return r
}
