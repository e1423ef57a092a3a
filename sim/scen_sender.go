package sim

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"

	"github.com/icon-project/btp/chain/ethbr"
	"github.com/icon-project/btp/chain/icon"
	iconclient "github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/errors"
	btptypes "github.com/icon-project/btp/common/types"
)

// sendCase is one relay message handed to a sender, what the chain did with
// it and what the sender said about it.
type sendCase struct {
	id       int
	msg      []byte
	called   bool
	returned bool
	err      error
	retID    int
	taken    int // transactions of this message the node took
	frags    int // fragments taken so far
	complete int // executions of the whole message by the contract
	outcome  string
	code     int // revert code
	results  []errors.Code
	lastTx   interface{}
	calm     bool // handed over after the last fault
}

func (c *sendCase) Id() int       { return c.id }
func (c *sendCase) Bytes() []byte { return append([]byte(nil), c.msg...) }
func (c *sendCase) Size() int64   { return int64(len(c.msg)) }

type senderSim struct {
	w        *World
	s        *Sched
	prof     *profile
	ic       *iconChain
	ec       *ethChain
	src      string
	limit    int
	cases    []*sendCase
	cur      *sendCase // being relayed
	statuses []btptypes.BMCLinkStatus
	served   map[string]bool
	wallet   string
	p        *Proc
	orderly  bool // no transaction is dropped or reordered by the chain
	net      bool // network faults are possible
	sysOver  bool // pool overflow may be reported in the form the sender does not know
	frag     fragState
	fragCase *sendCase
	seen     int
	rx       int64
}

// statusSnapshot is the link status the contract reports now.
func (r *senderSim) ver() Verifier { return (*senderVer)(r) }

type senderVer senderSim

func (v *senderVer) Height() int64                                      { return 1000 + 3*v.rx }
func (v *senderVer) Extra() []byte                                      { return enc([]interface{}{v.rx, int64(7)}) }
func (v *senderVer) Handle(msg []byte, rxSeq int64) ([][]byte, *revert) { panic("not used") }
func (v *senderVer) Clone() Verifier                                    { return v }

var revertCodes = []int{26, 27, 28, 25, 10, 1, 11, 12, 18, 24, 40, 55, 67}

// decide chooses what the contract does with a complete message.
func (r *senderSim) decide(c *sendCase) *revert {
	C := r.w.C
	c.complete++
	if c.complete > 1 {
		r.w.Fail("twice", "relay message %d reached the contract %d times", c.id, c.complete)
	}
	switch C.Pick(5, 4, 1) {
	case 1:
		c.outcome, c.code = "revert", revertCodes[C.N(len(revertCodes))]
		return rv(c.code, "test")
	case 2:
		c.outcome = "garbage"
		return nil
	}
	c.outcome = "success"
	r.rx++
	r.ok()
	r.w.nontrivial = true
	return nil
}

func (r *senderSim) ok() {
	fl := r.flow()
	fl.rx = r.rx
	fl.base++
}

func (r *senderSim) flow() *flow {
	if r.ic != nil {
		return r.ic.in
	}
	return r.ec.in
}

func (r *senderSim) note() {
	fl := r.flow()
	r.served[fmt.Sprintf("%d/%d/%x", fl.rx, fl.ver.Height(), fl.ver.Extra())] = true
}

func runSender(w *World, kind string, large bool) {
	C := w.C
	resetGlobals()
	s := NewSched(w)
	r := &senderSim{w: w, s: s, prof: &profile{rates: map[string]int{}}, served: map[string]bool{}}
	level := C.Pick(3, 3, 3, 2)
	if level > 0 {
		m := []int{0, 20, 80, 200}[level]
		if C.N(2) == 1 {
			r.prof.rates["net"] = m
			r.net = true
		}
		for _, k := range []string{"txreorder", "txdrop"} {
			if C.N(4) == 3 {
				r.prof.rates[k] = m
			}
		}
		for _, k := range []string{"txoverflow", "txexpired", "txdup"} {
			if C.N(2) == 1 {
				r.prof.rates[k] = m * 2
			}
		}
		if C.N(4) == 3 {
			r.prof.rates["sysoverflow"] = 500
			r.sysOver = true
		}
	}
	r.orderly = r.prof.rates["txreorder"] == 0 && r.prof.rates["txdrop"] == 0
	if C.N(3) == 1 {
		r.prof.jitter = 4000
	}
	if C.N(3) == 1 {
		r.prof.slowTx = 400
	}
	if C.N(4) == 1 {
		r.prof.skew = time.Duration(C.Range(-280, 280)) * time.Second
	}
	s.latMax = []time.Duration{0, 5 * time.Millisecond, 50 * time.Millisecond, 300 * time.Millisecond}[C.N(4)]
	s.idleP = []int{0, 0, 20, 150}[C.N(4)]
	s.fair = C.N(2) == 0

	ws := false
	var url string
	if kind == "icon" {
		r.ic = newIconChain(w, s, "D", "0x"+strconv.FormatInt(int64(C.Range(1, 300)), 16), "cx"+strings.Repeat("2", 40), r.prof)
		r.src = "btp://0x9.icon/cx" + strings.Repeat("9", 40)
		r.ic.height = 10
		r.ic.in = newFlow(w, r.src, r.ic.addr)
		r.ic.onTx = r.iconTx
		r.ic.onTake = r.iconTake
		r.ic.onRefuse = func(e *RPCError) {
			if !strings.Contains(e.Message, "E2002") && !strings.Contains(e.Message, "E2003") {
				w.Fail("badtx", "the node refused a transaction as invalid: %d %s", e.Code, e.Message)
			}
		}
		url = "http://d.sim/api/v3/icon"
	} else {
		r.ec = newEthChain(w, s, "D", "0x61", common.BigToAddress(big.NewInt(0xb3c001)), r.prof)
		r.ec.chainID = big.NewInt(int64(C.Range(1, 100000)))
		r.src = "btp://0x9.icon/cx" + strings.Repeat("9", 40)
		r.ec.in = newFlow(w, r.src, r.ec.addr)
		r.ec.height = 10
		r.ec.Block()
		r.ec.onCall = r.ethCall
		r.ec.onDry = r.ethDry
		r.ec.onTake = r.ethTake
		r.ec.onRefuse = func(msg string) {
			if r.orderly && !r.net {
				w.Fail("badtx", "the node refused a transaction: %s", msg)
			}
		}
		ws = C.N(3) == 0
		url = "http://d.sim"
		if ws {
			url = "ws://d.sim"
		}
	}
	fl := r.flow()
	fl.ver = r.ver()
	r.rx = int64(C.N(300))
	fl.rx = r.rx

	p := w.NewProc("sender")
	r.p = p
	h := w.AddHost("d.sim", p, r)
	h.faults = func(o *Op, method string) string {
		if !r.prof.faulty || !w.C.P(r.prof.p("net")) {
			return ""
		}
		kinds := []string{"refused", "reset", "lostreply", "slow", "hang", "http503", "truncated", "http502empty", "shortbody", "emptybody"}
		f := kinds[w.C.N(len(kinds))]
		if kind == "eth" && ws && f == "slow" {
			return ""
		}
		return f
	}
	work := make(chan *sendCase, 1000)
	started := false
	var wl interface{}
	var dst string
	if kind == "icon" {
		wl, r.wallet = newWallet(r.ic, 3)
		dst = r.ic.addr
	} else {
		wl, r.wallet = newWallet(r.ec, 3)
		dst = r.ec.addr
	}
	w.spawn(p, func() {
		var snd btptypes.Sender
		l := newSimLogger(p)
		if kind == "icon" {
			snd = icon.NewSender(btptypes.BtpAddress(r.src), btptypes.BtpAddress(dst), wl.(iconclient.Wallet), url, nil, l)
		} else {
			snd = ethbr.NewSender(btptypes.BtpAddress(r.src), btptypes.BtpAddress(dst), wl.(iconclient.Wallet), url, nil, l)
		}
		r.limit = snd.TxSizeLimit()
		ch, err := snd.Start()
		if err != nil {
			w.FailLater("start", "sender does not start: %v", err)
			return
		}
		go func() {
			for m := range ch {
				w.mu.Lock()
				switch t := m.(type) {
				case *btptypes.RelayResult:
					hit := false
					for _, c := range r.cases {
						if c.id == t.Id {
							c.results = append(c.results, t.Err)
							hit = true
						}
					}
					if !hit && w.failure == nil {
						w.failure = &Failure{Sig: "unknownid", Msg: fmt.Sprintf("result for a relay message %d nobody sent", t.Id)}
					}
				case *btptypes.BMCLinkStatus:
					if t == nil {
						if w.failure == nil {
							w.failure = &Failure{Sig: "nilstatus", Msg: "sender sent a nil link status"}
						}
						break
					}
					r.statuses = append(r.statuses, *t)
				default:
					if w.failure == nil {
						w.failure = &Failure{Sig: "unknownmsg", Msg: fmt.Sprintf("sender sent a %T", m)}
					}
				}
				w.mu.Unlock()
			}
		}()
		w.mu.Lock()
		started = true
		w.mu.Unlock()
		for c := range work {
			w.mu.Lock()
			c.called = true
			r.cur = c
			w.mu.Unlock()
			id, err := snd.Relay(c)
			w.mu.Lock()
			c.returned, c.err, c.retID = true, err, id
			w.mu.Unlock()
		}
	})
	lastStat := 0
	s.onStep = func() {
		w.mu.Lock()
		dead, reason := p.dead, p.reason
		st := r.statuses[lastStat:]
		lastStat = len(r.statuses)
		var lines []string
		for _, c := range r.cases {
			k := fmt.Sprintf("%v %v %v", c.called, c.returned, c.results)
			lines = append(lines, k)
		}
		w.mu.Unlock()
		if dead {
			w.Fail("exit", "the sender ended the process: %s", firstLine(reason))
		}
		for i := range st {
			k := fmt.Sprintf("%d/%d/%x", st[i].RxSeq, st[i].Verifier.Height, st[i].Verifier.Extra)
			w.Tracef("status %s", k)
			if !r.served[k] || st[i].TxSeq != 0 {
				w.Fail("status", "the sender reported the status %s tx=%d, which the contract never had", k, st[i].TxSeq)
			}
		}
		w.State("%v", lines)
	}
	r.prof.faulty = level > 0 && !ws && C.N(2) == 1
	if !s.RunUntil(200*time.Second, func() bool { w.mu.Lock(); defer w.mu.Unlock(); return started }) {
		w.Infra("sender not started")
	}

	// the messages
	n := 1 + C.N(8)
	dur := time.Duration(C.Range(5, 200)) * time.Second
	for i := 0; i < n; i++ {
		size := 1 + C.N(300)
		switch {
		case kind == "icon" && (large || C.N(12) == 11):
			size = r.limit*C.Range(0, 3) + C.Range(-2, 2)
			if C.N(2) == 1 {
				size = C.N(4 * r.limit)
			}
			if size < 0 {
				size = 0
			}
		case C.N(10) == 9:
			size = C.N(3)
		case C.N(6) == 5:
			size = C.N(40000)
		}
		c := &sendCase{id: 1000 + i*7, msg: append(C.Bytes(size), byte(i), byte(i>>8))}
		if size == 0 && C.N(2) == 1 && i == 0 {
			c.msg = nil
		}
		r.cases = append(r.cases, c)
		at := time.Duration(C.N(int(dur/time.Millisecond))) * time.Millisecond
		s.After(at, "relay", func() {
			w.Tracef("relay %d (%d bytes)", c.id, len(c.msg))
			work <- c
		})
	}
	period := []time.Duration{2 * time.Second, time.Second, 5 * time.Second}[C.N(3)]
	if r.ic != nil {
		r.ic.StartBlocks(period)
	} else {
		r.ec.StartBlocks(period)
	}
	if level > 0 && C.N(3) == 2 {
		// the node's pool is full for a while
		s.After(time.Duration(C.N(int(dur/time.Millisecond)))*time.Millisecond, "full", func() {
			w.Fault("chain:poolfull")
			w.Tracef("FAULT pool full")
			r.setFull(true)
			s.After(time.Duration(C.N(400))*time.Second, "free", func() { r.setFull(false); w.Tracef("pool free") })
		})
	}
	if C.N(4) == 3 {
		// no blocks for a while
		s.After(time.Duration(C.N(int(dur/time.Millisecond)))*time.Millisecond, "stop", func() {
			w.Fault("chain:stall")
			w.Tracef("FAULT no blocks")
			r.setHalt(true)
			s.After(time.Duration(C.N(900))*time.Second, "go on", func() { r.setHalt(false); w.Tracef("blocks again") })
		})
	}
	r.prof.faulty = level > 0
	s.RunUntil(w.Now()+dur, func() bool { return false })
	r.prof.faulty = false
	s.fair, s.idleP = true, 0
	settled := func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, c := range r.cases {
			if !c.returned || (c.err == nil && !r.concluded(c)) {
				return false
			}
		}
		return true
	}
	// undisturbed operation
	if r.prof.skew == 0 {
		s.RunUntil(w.Now()+1400*time.Second, settled)
		// every window of trouble is over by then
		s.RunUntil(w.Now()+1000*time.Second, func() bool { return !r.full() })
		c := &sendCase{id: 5000, msg: append(C.Bytes(C.N(200)), 0xff, 0xfe), calm: true}
		w.mu.Lock()
		r.cases = append(r.cases, c)
		w.mu.Unlock()
		w.Tracef("relay %d (%d bytes) undisturbed", c.id, len(c.msg))
		work <- c
	}
	if !s.RunUntil(w.Now()+3000*time.Second, settled) {
		w.mu.Lock()
		var d []string
		for _, c := range r.cases {
			d = append(d, fmt.Sprintf("%d: called=%v returned=%v err=%v outcome=%q results=%v", c.id, c.called, c.returned, c.err, c.outcome, c.results))
		}
		w.mu.Unlock()
		w.Fail("noresult", "long after the last fault a relay message has no outcome: %s", strings.Join(d, "; "))
	}
	s.RunUntil(w.Now()+300*time.Second, func() bool { return false })
	w.mu.Lock()
	err := r.verify()
	w.mu.Unlock()
	if err != "" {
		w.Fail("outcome", "%s", err)
	}
}

func (r *senderSim) setFull(v bool) {
	if r.ic != nil {
		r.ic.full = v
	} else {
		r.ec.full = v
	}
}

func (r *senderSim) full() bool {
	if r.ic != nil {
		return r.ic.full
	}
	return r.ec.full
}

func (r *senderSim) setHalt(v bool) {
	if r.ic != nil {
		r.ic.halt = v
	} else {
		r.ec.halt = v
	}
}

// concluded: the chain is done with the message and what follows for the
// sender is out.
func (r *senderSim) concluded(c *sendCase) bool {
	switch t := c.lastTx.(type) {
	case *iconTx:
		if t.state < 2 {
			return false
		}
		if t.state == 3 {
			return len(c.results) > 0
		}
		if t.fail != nil || t.garbage || t.noFailure {
			return len(c.results) > 0
		}
	case *ethTx:
		if t.dropped {
			return len(c.results) > 0
		}
		if t.block == nil {
			return r.ec.gap(t)
		}
		if t.status == 0 {
			return len(c.results) > 0
		}
	}
	return true
}

const generic = "generic"

func codeClass(c errors.Code) string {
	switch c {
	case 26, 27, 28:
		return fmt.Sprint(int(c))
	}
	return generic
}

// verify is the oracle over the whole history; it returns a violation.
func (r *senderSim) verify() string {
	statusWant := 0
	for _, c := range r.cases {
		net := r.net && !c.calm
		if len(c.results) > 1 {
			return fmt.Sprintf("relay message %d got %d results: %v", c.id, len(c.results), c.results)
		}
		if c.err != nil {
			if len(c.results) > 0 {
				return fmt.Sprintf("Relay of message %d failed (%v) and yet it got a result %v", c.id, c.err, c.results)
			}
			if c.calm || !r.net && !r.sysOver && r.overOK() {
				return fmt.Sprintf("Relay of message %d failed although the node refused nothing for good: %v", c.id, c.err)
			}
			continue
		}
		if c.retID != c.id {
			return fmt.Sprintf("Relay of message %d returned id %d", c.id, c.retID)
		}
		if c.taken == 0 {
			return fmt.Sprintf("Relay of message %d succeeded but the node has no transaction for it", c.id)
		}
		want, code := "success", 0
		pending := false
		switch t := c.lastTx.(type) {
		case *iconTx:
			switch {
			case t.state == 3:
				want = "lost"
			case t.garbage || t.noFailure:
				want = "garbage"
			case t.fail != nil:
				want, code = "revert", t.fail.code
			}
		case *ethTx:
			switch {
			case t.dropped:
				want = "lost"
			case t.block == nil:
				pending = true
			case t.rv != nil:
				want, code = "revert", t.rv.code
				if t.rv.code < 0 {
					want = "garbage"
				}
			}
		}
		if pending {
			if len(c.results) > 0 && !net {
				return fmt.Sprintf("relay message %d is still pending but got the result %v", c.id, c.results)
			}
			continue
		}
		statusWant++
		switch want {
		case "success":
			if len(c.results) == 0 {
				continue
			}
			if !net {
				return fmt.Sprintf("relay message %d succeeded on the chain, the sender reported the error %v", c.id, c.results[0])
			}
			if codeClass(c.results[0]) != generic {
				return fmt.Sprintf("relay message %d succeeded on the chain, the sender reported the revert code %v", c.id, c.results[0])
			}
		case "lost", "garbage":
			if len(c.results) == 0 {
				return fmt.Sprintf("relay message %d failed on the chain (%s), the sender reported no error", c.id, want)
			}
			if codeClass(c.results[0]) != generic {
				return fmt.Sprintf("relay message %d failed without a revert code (%s), the sender reported the revert code %v", c.id, want, c.results[0])
			}
		case "revert":
			if len(c.results) == 0 {
				return fmt.Sprintf("relay message %d was reverted with %d, the sender reported no error", c.id, code)
			}
			if int(c.results[0]) != code && (!net || codeClass(c.results[0]) != generic) {
				return fmt.Sprintf("relay message %d was reverted with %d, the sender reported %v", c.id, code, c.results[0])
			}
		}
		if want == "success" && c.complete != 1 {
			return fmt.Sprintf("relay message %d: its last transaction succeeded but the contract got the message %d times", c.id, c.complete)
		}
	}
	if len(r.statuses) > statusWant || (!r.net && len(r.statuses) != statusWant) {
		return fmt.Sprintf("%d submissions came to an end, the sender reported the link status %d times", statusWant, len(r.statuses))
	}
	return ""
}

// overOK: no fault of this run may make Relay itself fail.
func (r *senderSim) overOK() bool {
	if r.ec != nil {
		// an Ethereum node with a full pool, or with the account's nonces in disorder, refuses
		return r.prof.rates["txoverflow"] == 0 && r.w.Faults["chain:poolfull"] == 0 && r.orderly
	}
	return true
}

// ---- ICON

func (r *senderSim) RPC(h *Host, method string, params json.RawMessage) (interface{}, *RPCError) {
	if method == "icx_call" || method == "eth_call" {
		r.note()
	}
	if r.ic != nil {
		return r.ic.RPC(h, method, params)
	}
	return r.ec.RPC(h, method, params)
}

func (r *senderSim) WSMessage(h *Host, c *WSConn, msg []byte) {
	r.note()
	if r.ec != nil {
		r.ec.WSMessage(h, c, msg)
	}
}

// iconTake looks at a transaction the node has just taken.
func (r *senderSim) iconTake(tx *iconTx) {
	w := r.w
	w.mu.Lock()
	c := r.cur
	w.mu.Unlock()
	bad := func(f string, a ...interface{}) {
		w.Fail("content", "transaction for relay message %d: %s", c.id, fmt.Sprintf(f, a...))
	}
	if c == nil || c.returned {
		w.Fail("stray", "a transaction %s although nothing is being relayed", tx.method)
	}
	if tx.from != r.wallet {
		bad("from %s, want %s", tx.from, r.wallet)
	}
	if tx.params["_prev"] != r.src {
		bad("for link %q, want %q", tx.params["_prev"], r.src)
	}
	msg, err := base64.URLEncoding.DecodeString(tx.params["_msg"])
	if err != nil {
		bad("message not base64: %v", err)
	}
	c.taken++
	c.lastTx = tx
	tx.owner = c
	tx.msg = msg
	switch tx.method {
	case "handleRelayMessage":
		if len(tx.params) != 2 {
			bad("parameters %v", tx.params)
		}
		if !bytes.Equal(msg, c.msg) {
			bad("carries %d bytes that are not the relay message (%d bytes)", len(msg), len(c.msg))
		}
		if c.taken > 1 {
			bad("it was already submitted")
		}
	case "handleFragment":
		if len(msg) > r.limit {
			bad("fragment of %d bytes, above the limit %d", len(msg), r.limit)
		}
		w.Count("fragment")
	default:
		bad("method %s", tx.method)
	}
}

func (r *senderSim) iconTx(tx *iconTx) {
	w := r.w
	c := tx.owner.(*sendCase)
	finish := func(c *sendCase, tx *iconTx) {
		tx.fail = r.decide(c)
		if c.outcome == "garbage" {
			if w.C.N(2) == 0 {
				tx.garbage = true
			} else {
				tx.noFailure = true
			}
		}
	}
	if tx.method == "handleRelayMessage" {
		finish(c, tx)
		return
	}
	idx, err := parseIdx(tx.params["_idx"])
	if err != nil {
		w.Fail("content", "fragment index %q", tx.params["_idx"])
	}
	st := &r.frag
	if idx < 0 {
		*st = fragState{last: -idx, next: -idx - 1, parts: [][]byte{tx.msg}}
		return
	}
	if st.next != idx || st.parts == nil {
		tx.fail = rv(codeBMC, "invalid _idx %d", idx)
		if r.orderly {
			w.Fail("fragorder", "fragment %d of relay message %d refused, the contract waits for %d", idx, c.id, st.next)
		}
		return
	}
	if idx > 0 {
		st.parts = append(st.parts[:st.last-idx:st.last-idx], tx.msg)
		st.next = idx - 1
		return
	}
	all := append(bytes.Join(st.parts[:st.last], nil), tx.msg...)
	if !bytes.Equal(all, c.msg) {
		tx.fail = rv(codeUnknown, "malformed")
		if r.orderly {
			w.Fail("reassembly", "the contract put together %d bytes that are not relay message %d (%d bytes)", len(all), c.id, len(c.msg))
		}
		return
	}
	w.Count("reassembled")
	finish(c, tx)
}

func parseIdx(s string) (int64, error) {
	return strconv.ParseInt(strings.Replace(s, "0x", "", 1), 16, 64)
}

// ---- Ethereum

func (r *senderSim) ethTake(t *ethTx) {
	w := r.w
	w.mu.Lock()
	c := r.cur
	w.mu.Unlock()
	if c == nil || c.returned {
		w.Fail("stray", "a transaction although nothing is being relayed")
	}
	bad := func(f string, a ...interface{}) {
		w.Fail("content", "transaction for relay message %d: %s", c.id, fmt.Sprintf(f, a...))
	}
	if got := strings.ToLower(t.from.Hex()); got != r.wallet {
		bad("from %s, want %s", got, r.wallet)
	}
	if t.tx.ChainId().Cmp(r.ec.chainID) != 0 {
		bad("for chain %v, want %v", t.tx.ChainId(), r.ec.chainID)
	}
	if t.tx.To() == nil || *t.tx.To() != r.ec.bmc || t.tx.Value().Sign() != 0 {
		bad("to %v value %v", t.tx.To(), t.tx.Value())
	}
	d := t.tx.Data()
	m := bmcABI.Methods["handleRelayMessage"]
	if len(d) < 4 || !bytes.Equal(d[:4], m.ID) {
		bad("other method")
	}
	a, err := m.Inputs.Unpack(d[4:])
	if err != nil {
		bad("%v", err)
	}
	if a[0].(string) != r.src {
		bad("for link %q, want %q", a[0], r.src)
	}
	if !bytes.Equal(a[1].([]byte), c.msg) {
		bad("carries %d bytes that are not the relay message (%d bytes)", len(a[1].([]byte)), len(c.msg))
	}
	c.taken++
	if c.taken > 1 {
		bad("it was already submitted")
	}
	c.lastTx = t
	t.owner = c
}

func (r *senderSim) ethCall(t *ethTx) *revert {
	c := t.owner.(*sendCase)
	x := r.decide(c)
	if c.outcome == "garbage" {
		return rv(-1-r.w.C.N(4), "odd")
	}
	return x
}

// ethDry is the call made again to learn the reason of a failed transaction.
func (r *senderSim) ethDry(data []byte) (interface{}, *RPCError) {
	a, err := bmcABI.Methods["handleRelayMessage"].Inputs.Unpack(data[4:])
	if err != nil {
		return nil, ethErr(3, "execution reverted")
	}
	for _, c := range r.cases {
		if !bytes.Equal(c.msg, a[1].([]byte)) || c.lastTx == nil {
			continue
		}
		t := c.lastTx.(*ethTx)
		if t.rv == nil {
			break
		}
		switch t.rv.code {
		case -1:
			return nil, ethErr(3, "execution reverted")
		case -2:
			return "0x", nil
		case -3:
			return nil, ethErr(-32000, "out of gas")
		case -4:
			return nil, &RPCError{Code: 3, Message: "execution reverted: some: other: text"}
		}
		return nil, revertErr(t.rv)
	}
	return "0x", nil
}

func init() {
	register("icon-sender", func(w *World) { runSender(w, "icon", false) })
	register("icon-sender-large", func(w *World) { runSender(w, "icon", true) })
	register("eth-sender", func(w *World) { runSender(w, "eth", false) })
}
