package sim

import (
	"fmt"
	"math/big"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"

	ethclient "github.com/icon-project/btp/chain/ethbr/client"
)

func init() { register("ethmon", runEthMon) }

// ethMonitor is one use of MonitorBlock: what was asked for and what came.
type ethMonitor struct {
	n      int
	from   int64
	filter *ethereum.FilterQuery
	naps   []time.Duration
	cbErr  int
	fail   error
	ws     bool
	p      *Proc

	mu       sync.Mutex
	began    bool
	got      []*ethclient.BlockNotification
	snap     []string
	returned bool
	late     bool
	err      error
}

func ethCanon(b *ethclient.BlockNotification) string {
	s := fmt.Sprintf("%v %v %v", b.Height, b.Hash.Hex(), b.Header.Number)
	for _, l := range b.Logs {
		s += fmt.Sprintf(" [%s %v %x %d %s]", l.Address.Hex(), l.Topics, l.Data, l.Index, l.BlockHash.Hex())
	}
	return s
}

// want is the notification the chain's own records give for a block.
func (m *ethMonitor) want(b *ethBlock) string {
	n := &ethclient.BlockNotification{Hash: b.hash, Height: big.NewInt(b.num), Header: b.header}
	if m.filter != nil {
		for _, l := range b.logs {
			ok := len(m.filter.Addresses) == 0
			for _, a := range m.filter.Addresses {
				ok = ok || a == l.Address
			}
			for i, ts := range m.filter.Topics {
				hit := len(ts) == 0
				for _, t := range ts {
					hit = hit || (i < len(l.Topics) && t == l.Topics[i])
				}
				ok = ok && hit
			}
			if ok {
				n.Logs = append(n.Logs, *l)
			}
		}
	}
	return ethCanon(n)
}

func runEthMon(w *World) {
	s := NewSched(w)
	s.latMax = time.Duration(w.C.N(300)) * time.Millisecond
	s.idleP = w.C.N(100)
	prof := &profile{rates: map[string]int{}}
	if w.C.P(500) {
		prof.faulty = true
		if w.C.P(500) {
			prof.rates["net"] = w.C.N(150)
		}
		if w.C.P(300) {
			prof.rates["wsdrop"] = w.C.N(60)
		}
		if w.C.P(400) {
			prof.rates["headgap"] = w.C.N(300)
		}
		if w.C.P(300) {
			prof.rates["headdup"] = w.C.N(200)
		}
	}
	netFaults := 0
	addr := [3]common.Address{common.HexToAddress("0xb3c001"), common.HexToAddress("0xb3c002"), common.HexToAddress("0xb3c003")}
	topic := [3]common.Hash{common.HexToHash("0x11"), common.HexToHash("0x12"), common.HexToHash("0x13")}
	c := newEthChain(w, s, "eth", "0x61", addr[0], prof)
	c.height = int64(w.C.N(3)) * 1000
	block := func() {
		c.height++
		b := &ethBlock{num: c.height}
		var parent common.Hash
		if p := c.blocks[c.height-1]; p != nil {
			parent = p.hash
		}
		b.header = &types.Header{ParentHash: parent, UncleHash: types.EmptyUncleHash, Root: common.BytesToHash(keccak([]byte(fmt.Sprint("state", b.num, w.C.N(1<<20))))),
			TxHash: types.EmptyRootHash, ReceiptHash: types.EmptyRootHash, Difficulty: big.NewInt(2), Number: big.NewInt(b.num), GasLimit: 30000000,
			Time: uint64(time.Now().Unix()), Extra: []byte{}}
		b.hash = b.header.Hash()
		for i := w.C.N(5); i > 0; i-- {
			l := &types.Log{Address: addr[w.C.N(3)], Topics: []common.Hash{topic[w.C.N(3)]}, Data: w.C.Bytes(w.C.N(50)), BlockNumber: uint64(b.num), BlockHash: b.hash,
				TxHash: common.BytesToHash(keccak([]byte(fmt.Sprint(b.num, i)))), Index: uint(len(b.logs))}
			if w.C.P(300) {
				l.Topics = append(l.Topics, topic[w.C.N(3)])
			}
			b.logs = append(b.logs, l)
		}
		c.blocks[b.num], c.byHash[b.hash] = b, b
		w.Tracef("block %d", b.num)
	}
	behind := []int{15, 15, 15, 200}[w.C.N(4)]
	for i := 5 + w.C.N(behind); i > 0; i-- {
		block()
	}
	// the chain's pace, with long pauses and bursts
	var next func()
	stop := false
	pace := []time.Duration{300 * time.Millisecond, 2 * time.Second, 12 * time.Second}[w.C.N(3)]
	next = func() {
		if stop {
			return
		}
		n := 1
		if w.C.P(100) {
			n += w.C.N([]int{8, 8, 8, 90}[w.C.N(4)])
		}
		for ; n > 0; n-- {
			block()
		}
		d := time.Duration(1 + w.C.N(int(2*pace)))
		if w.C.P(40) {
			d += time.Duration(w.C.N(300)) * time.Second
		}
		s.After(d, "block", next)
	}
	s.After(time.Second, "block", next)

	var ms []*ethMonitor
	for i := 1 + w.C.N(2); i > 0; i-- {
		m := &ethMonitor{n: len(ms), cbErr: -1, ws: w.C.P(500)}
		m.from = c.height + 6 - int64(w.C.N(11))
		if w.C.P(300) {
			m.from = c.height + 1
		} else if w.C.P(300) {
			m.from = c.height - int64(w.C.N(behind))
		}
		if m.from < c.blocksFirst() {
			m.from = c.blocksFirst()
		}
		switch w.C.N(3) {
		case 0:
			m.filter = &ethereum.FilterQuery{Addresses: []common.Address{addr[0]}, Topics: [][]common.Hash{{topic[0]}}}
		case 1:
			m.filter = &ethereum.FilterQuery{Addresses: []common.Address{addr[0], addr[1]}, Topics: [][]common.Hash{{topic[0], topic[2]}}}
		}
		for j := 0; j < 40; j++ {
			d := time.Duration(0)
			if w.C.P(100) {
				d = time.Duration(w.C.N(20)) * time.Second
			}
			m.naps = append(m.naps, d)
		}
		m.fail = fmt.Errorf("callback %d fails", m.n)
		if w.C.P(150) {
			m.cbErr = w.C.N(20)
		}
		ms = append(ms, m)
	}
	for _, m := range ms {
		m := m
		m.p = w.NewProc(fmt.Sprint("client", m.n))
		name := fmt.Sprint("node", m.n)
		h := w.AddHost(name, m.p, c)
		h.faults = func(o *Op, method string) string {
			m.mu.Lock()
			began := m.began
			m.mu.Unlock()
			if !began || !prof.faulty || !w.C.P(prof.p("net")) {
				return ""
			}
			netFaults++
			return []string{"refused", "reset", "lostreply", "slow", "hang", "http503", "truncated", "http502empty", "shortbody", "emptybody"}[w.C.N(10)]
		}
		uri := "http://" + name
		if m.ws {
			uri = "ws://" + name
		}
		w.spawn(m.p, func() {
			cl := ethclient.NewClient(uri, newSimLogger(m.p))
			m.mu.Lock()
			m.began = true
			m.mu.Unlock()
			err := cl.MonitorBlock(&ethclient.BlockRequest{Height: big.NewInt(m.from), FilterQuery: m.filter}, func(b *ethclient.BlockNotification) error {
				m.mu.Lock()
				if m.returned {
					m.late = true
				}
				i := len(m.got)
				m.got = append(m.got, b)
				m.snap = append(m.snap, ethCanon(b))
				m.mu.Unlock()
				if i < len(m.naps) && m.naps[i] > 0 {
					time.Sleep(m.naps[i])
				}
				if i == m.cbErr {
					return m.fail
				}
				return nil
			})
			m.mu.Lock()
			m.returned, m.err = true, err
			m.mu.Unlock()
		})
	}
	bad := func(m *ethMonitor, sig, f string, a ...interface{}) {
		w.Fail(sig, "monitor %d (from %d, websocket=%v, callback fails at %d; faults %v, chain at %d, %d handed over, returned=%v err=%v): %s", m.n, m.from, m.ws, m.cbErr,
			w.Faults, c.height, len(m.got), m.returned, m.err, fmt.Sprintf(f, a...))
	}
	checked := make([]int, len(ms))
	s.onStep = func() {
		for _, m := range ms {
			m.mu.Lock()
			for ; checked[m.n] < len(m.snap); checked[m.n]++ {
				i := checked[m.n]
				b := c.blocks[m.from+int64(i)]
				if b == nil {
					bad(m, "order", "notification %d is %s, that block does not exist yet", i, m.snap[i])
				}
				if w := m.want(b); m.snap[i] != w {
					bad(m, "order", "notification %d is %s, block %d is %s", i, m.snap[i], b.num, w)
				}
				w.nontrivial = true
			}
			if m.late {
				bad(m, "late", "called back after it returned")
			}
			m.mu.Unlock()
		}
	}
	s.RunUntil(time.Duration(20+w.C.N(600))*time.Second, func() bool { return false })
	// quiet: no more faults, blocks go on for a while
	prof.faulty = false
	s.RunUntil(w.Now()+300*time.Second, func() bool { return false })
	stop = true
	block()
	if c.height < ms[0].from {
		for c.height < ms[0].from {
			block()
		}
	}
	s.RunUntil(w.Now()+time.Duration(len(c.blocks)*25+1000)*time.Second, func() bool {
		for _, m := range ms {
			m.mu.Lock()
			d := m.returned || m.p.dead || len(m.got) == int(c.height-m.from+1)
			m.mu.Unlock()
			if !d {
				return false
			}
		}
		return true
	})
	for _, m := range ms {
		m.mu.Lock()
		w.State("%v %v %v %d", m.ws, m.returned, m.err == nil, m.from-c.height)
		for i := range m.got {
			if now := ethCanon(m.got[i]); now != m.snap[i] {
				bad(m, "mixed", "notification %d was %s and changed to %s after it was handed over", i, m.snap[i], now)
			}
		}
		switch {
		case m.p.dead:
			bad(m, "exit", "the process ended: %s", m.p.reason)
		case m.cbErr >= 0 && len(m.got) > m.cbErr:
			if !m.returned || m.err != m.fail || len(m.got) != m.cbErr+1 {
				bad(m, "continued", "its callback failed")
			}
		case m.returned:
			if m.err == nil {
				bad(m, "silent", "ended without an error")
			}
			if netFaults == 0 && w.Faults["net:wsdrop"] == 0 {
				bad(m, "ended", "ended although nothing failed")
			}
		case len(m.got) != int(c.height-m.from+1):
			bad(m, "lost", "long after the last fault it has not reported block %d", m.from+int64(len(m.got)))
		}
		m.mu.Unlock()
	}
}

// blocksFirst is the first block there is.
func (c *ethChain) blocksFirst() int64 {
	n := c.height
	for c.blocks[n-1] != nil {
		n--
	}
	return n
}
