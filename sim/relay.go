package sim

import (
	"crypto/ecdsa"
	"fmt"
	"io"
	stdlog "log"
	"math/big"
	"regexp"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/common/config"
	btpcrypto "github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/log"
	btptypes "github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"

	"btpsim/relaycmd"
)

// profile is the environment of a run: fault rates and chain behaviour.
type profile struct {
	faulty  bool
	rates   map[string]int
	jitter  int
	slowTx  int
	skew    time.Duration
	shuffle bool // reordering moves several at a time
}

func (p *profile) p(k string) int { return p.rates[k] }

type simChain interface {
	Server
	Addr() string
	In() *flow
	Out() *flow
	SetIn(*flow)
	Submit(msg []byte)
	StartBlocks(time.Duration)
	Block()
}

func detKey(n int) []byte { return keccak([]byte(fmt.Sprint("wallet", n))) }

var keyCache = map[int]*ecdsa.PrivateKey{}

func ethKey(n int) *ecdsa.PrivateKey {
	if k := keyCache[n]; k != nil {
		return k
	}
	k, err := ethcrypto.ToECDSA(detKey(n))
	if err != nil {
		panic(err)
	}
	keyCache[n] = k
	return k
}

// relaySim is a run with one or more relay processes between two chains.
type relaySim struct {
	w      *World
	s      *Sched
	prof   *profile
	a, b   simChain
	bridge [2]bool // source in bridge mode, for a and b
	dir    string
	flows  []*flow
	relays []*relayNode
	clean  bool
	noExit string // not empty: no exit is acceptable now, and why
	exits  int
	crashP int
	epoch  int
	phase  string
	save   *saveSim // files, if the relay is started by its command
}

// relayNode is a relay installation; its process may die and be restarted.
type relayNode struct {
	r       *relaySim
	id      int
	p       *Proc
	hosts   []*Host
	n       int
	wsA     bool
	wsB     bool
	wallets [2]wallet.Wallet
	waiting bool
	retired bool   // stopped for good
	config  string // path of the configuration file, if started by the command
}

func newWallet(c simChain, n int) (wallet.Wallet, string) {
	switch c.(type) {
	case *iconChain:
		sk, err := btpcrypto.ParsePrivateKey(detKey(n))
		if err != nil {
			panic(err)
		}
		w, err := wallet.NewIcxWalletFromPrivateKey(sk)
		if err != nil {
			panic(err)
		}
		pub := ethcrypto.FromECDSAPub(&ethKey(n).PublicKey)
		return w, icxAddress(pub)
	default:
		w, err := wallet.NewEvmWalletFromPrivateKey(ethKey(n))
		if err != nil {
			panic(err)
		}
		return w, strings.ToLower(ethcrypto.PubkeyToAddress(ethKey(n).PublicKey).Hex())
	}
}

func (r *relaySim) addRelay(wsA, wsB bool) {
	n := &relayNode{r: r, id: len(r.relays), wsA: wsA, wsB: wsB}
	var ad [2]string
	n.wallets[0], ad[0] = newWallet(r.a, 10*n.id+1)
	n.wallets[1], ad[1] = newWallet(r.b, 10*n.id+2)
	for i, c := range []simChain{r.a, r.b} {
		if c.In() != nil {
			c.In().relays[ad[i]] = true
		}
	}
	r.relays = append(r.relays, n)
}

func (n *relayNode) start() {
	r := n.r
	w := r.w
	if n.retired {
		return
	}
	n.n++
	n.waiting = false
	p := w.NewProc(fmt.Sprintf("relay%d.%d", n.id, n.n))
	n.p = p
	ha, hb := fmt.Sprintf("a%d-%d.sim", n.id, n.n), fmt.Sprintf("b%d-%d.sim", n.id, n.n)
	n.hosts = []*Host{w.AddHost(ha, p, r.a), w.AddHost(hb, p, r.b)}
	for _, h := range n.hosts {
		h.faults = r.netFault
	}
	url := func(h string, ws bool, c simChain) string {
		if _, ok := c.(*iconChain); ok {
			return "http://" + h + "/api/v3/icon"
		}
		if ws {
			return "ws://" + h
		}
		return "http://" + h
	}
	cfg := &relaycmd.Config{Config: chain.Config{FileConfig: config.FileConfig{BaseDir: "/nonexistent"},
		Src:       chain.BaseConfig{Address: btptypes.BtpAddress(r.a.Addr()), Endpoint: url(ha, n.wsA, r.a), BridgeMode: r.bridge[0]},
		Dst:       chain.BaseConfig{Address: btptypes.BtpAddress(r.b.Addr()), Endpoint: url(hb, n.wsB, r.b), BridgeMode: r.bridge[1]},
		Direction: r.dir}, LogLevel: "panic", ConsoleLevel: "panic"}
	w.Tracef("%s starts", p.name)
	w.Count("proc-start")
	if n.config != "" {
		n.startMain(url(ha, n.wsA, r.a), url(hb, n.wsB, r.b))
		return
	}
	w.spawn(p, func() {
		err := relaycmd.NewLink(cfg, n.wallets[0], n.wallets[1], nil)
		p.exit(fmt.Sprintf("returned: %v", err))
	})
}

// netFault decides the fate of one request.
func (r *relaySim) netFault(o *Op, method string) string {
	if !r.prof.faulty {
		return ""
	}
	if !r.w.C.P(r.prof.p("net")) {
		return ""
	}
	kinds := []string{"refused", "reset", "lostreply", "slow", "hang", "http503", "truncated", "http502empty", "shortbody", "emptybody"}
	return kinds[r.w.C.N(len(kinds))]
}

func (r *relaySim) step() {
	w := r.w
	for _, n := range r.relays {
		n := n
		if n.p == nil || n.waiting || n.retired {
			continue
		}
		w.mu.Lock()
		dead, exited, reason := n.p.dead, n.p.exited, n.p.reason
		w.mu.Unlock()
		if !dead {
			continue
		}
		if exited {
			r.exits++
			w.Count("exit")
			if r.phase != "" {
				w.Count("exit " + r.phase)
			}
			w.Tracef("%s stops by itself: %s", n.p.name, firstLine(reason))
			if r.noExit != "" {
				w.Fail("exit", "%s, the relay stopped: %s", r.noExit, firstLine(reason))
			}
		}
		n.waiting = true
		d := time.Duration(w.C.N(5000)) * time.Millisecond
		r.s.After(d, "restart", n.start)
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	s = ptrRE.ReplaceAllString(s, "PTR")
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// addresses in messages of the program differ from process to process
var ptrRE = regexp.MustCompile(`0x[0-9a-f]{9,13}\b`)

func (r *relaySim) kill(n *relayNode) {
	if n.p == nil || n.p.dead {
		return
	}
	r.w.Fault("crash")
	r.w.Tracef("%s FAULT killed", n.p.name)
	n.p.Kill()
}

// relayOpts selects what a scenario varies.
type relayOpts struct {
	pair    string // "icon-icon", "icon-eth", "eth-icon", "eth-eth", "" any
	mode    string // "btp", "bridge", "" any: how an ICON source is verified
	dir     string // "" any
	compete bool
	large   string // "", "always", "sometimes"
	viaMain bool   // start the relay by its command, from files
}

func resetGlobals() {
	stdlog.SetOutput(io.Discard)
	log.SetGlobalLogger(log.New())
}

// runRelay is the scenario behind the delivery and progress properties.
func runRelay(w *World, o relayOpts) {
	C := w.C
	resetGlobals()
	s := NewSched(w)
	r := &relaySim{w: w, s: s}
	s.onStep = r.step

	// environment
	level := C.Pick(2, 3, 4, 3) // clean, light, medium, heavy
	r.clean = level == 0
	r.prof = &profile{rates: map[string]int{}}
	focus := level > 0 && C.N(5) == 4 // only the fate of submissions, at a higher rate
	// the relays meet in the last seconds, and one of them is left with the outcome
	race := o.compete && level > 1 && C.N(2) == 1
	if race {
		focus = false
		r.prof.rates["txreorder"] = 600
		r.prof.shuffle = true
		if C.N(3) == 1 {
			r.prof.rates["txdrop"] = 60
		}
	} else if focus {
		m := []int{0, 60, 200, 500}[level]
		for _, k := range []string{"txreorder", "txdrop", "txoverflow", "txexpired"} {
			if C.N(2) == 1 {
				r.prof.rates[k] = m
			}
		}
	} else if level > 0 {
		m := []int{0, 10, 40, 120}[level]
		if C.N(4) > 0 {
			r.prof.rates["net"] = m
		}
		for _, k := range []string{"txreorder", "txdrop", "txoverflow", "txexpired", "wsdrop", "headgap", "headdup"} {
			if C.N(2) == 1 {
				r.prof.rates[k] = m
			}
		}
		if C.N(3) > 0 {
			r.crashP = []int{0, 2, 6, 15}[level]
		}
	}
	if C.N(3) == 1 {
		r.prof.jitter = 4000
	}
	if C.N(4) == 1 {
		r.prof.slowTx = 300
	}
	if C.N(5) == 1 {
		r.prof.skew = time.Duration(C.Range(-200, 200)) * time.Second
	}
	s.latMax = []time.Duration{0, 5 * time.Millisecond, 50 * time.Millisecond, 300 * time.Millisecond}[C.N(4)]
	s.idleP = []int{0, 0, 20, 150}[C.N(4)]
	s.fair = C.N(2) == 0

	// topology
	pair := o.pair
	if pair == "" {
		pair = []string{"icon-icon", "icon-eth", "eth-icon", "eth-eth"}[C.N(4)]
	}
	if race && C.N(4) > 0 {
		pair, o.mode, o.dir = "icon-icon", "btp", []string{"front", "both"}[C.N(2)]
	}
	ab := strings.Split(pair, "-")
	mk := func(kind, name string, i int) simChain {
		if kind == "icon" {
			return newIconChain(w, s, name, fmt.Sprintf("0x%x", 3+i), "cx"+strings.Repeat(fmt.Sprint(i+1), 40), r.prof)
		}
		return newEthChain(w, s, name, fmt.Sprintf("0x%x", 99+i), common.BigToAddress(big.NewInt(int64(0xb3c000+i))), r.prof)
	}
	r.a, r.b = mk(ab[0], "A", 0), mk(ab[1], "B", 1)
	r.dir = o.dir
	if r.dir == "" {
		r.dir = []string{"front", "reverse", "both"}[C.N(3)]
	}
	modes := [2]string{o.mode, o.mode}
	for i := range modes {
		if modes[i] == "" {
			modes[i] = []string{"btp", "bridge"}[C.N(2)]
		}
		r.bridge[i] = modes[i] == "bridge"
	}
	pre := C.Pick(3, 2, 1) // length of the history before the run
	open := func(src, dst simChain, mode string) {
		f := newFlow(w, src.Addr(), dst.Addr())
		r.flows = append(r.flows, f)
		dst.SetIn(f)
		start := int64(C.Range(5, 200))
		switch x := src.(type) {
		case *iconChain:
			net := &iconNet{nid: int64(C.Range(1, 5)), startHeight: start}
			if mode == "bridge" {
				net.offset = []int64{0, 0, 1, 7, 120, 250, 32760}[C.N(7)]
				f.base = net.offset
			}
			x.Open(f, net)
			f.rx = f.base
			if mode == "bridge" {
				f.ver = &bridgeVerifier{height: start + 1, dst: dst.Addr()}
			} else {
				f.ver = &btpBlockVerifier{net: net, cur: net.blocks[0]}
			}
			// history
			nb := []int{0, C.N(4), C.N(30)}[pre]
			for i := 0; i < nb; i++ {
				for k := C.N(4); k > 0; k-- {
					x.Submit(C.Bytes(1 + C.N(60)))
				}
				x.ctxQ = C.N(10) == 9
				x.Block()
			}
			// the part of it already delivered; the last block perhaps in part
			del := C.N(len(net.blocks))
			for _, b := range net.blocks[1 : 1+del] {
				switch v := f.ver.(type) {
				case *btpBlockVerifier:
					v.cur = b
					f.rx = b.firstSN + int64(len(b.msgs))
					v.lastSeq = f.rx
				case *bridgeVerifier:
					if len(b.msgs) > 0 {
						v.height = b.height
					}
					f.rx = f.base + b.firstSN + int64(len(b.msgs))
				}
			}
			if del > 0 {
				if b := net.blocks[del]; len(b.msgs) > 1 && C.N(2) == 1 {
					back := int64(1 + C.N(len(b.msgs)-1))
					f.rx -= back
					if v, ok := f.ver.(*btpBlockVerifier); ok {
						v.lastSeq -= back
					}
				}
			}
		case *ethChain:
			x.out = f
			f.base = []int64{0, 0, 3, 120, 250, 32760}[C.N(6)]
			f.rx = f.base
			x.txSeq = f.base
			x.height = start - 1
			x.Block()
			f.ver = &bridgeVerifier{height: start, dst: dst.Addr()}
			nb := []int{0, C.N(4), C.N(30)}[pre]
			upTo := []int64{start}
			seqAt := []int64{f.base}
			for i := 0; i < nb; i++ {
				for k := C.N(3); k > 0; k-- {
					x.Submit(C.Bytes(1 + C.N(60)))
				}
				x.Block()
				if f.lastSent() != seqAt[len(seqAt)-1] {
					upTo, seqAt = append(upTo, x.height), append(seqAt, f.lastSent())
				}
			}
			i := C.N(len(upTo))
			f.ver.(*bridgeVerifier).height = upTo[i]
			f.rx = seqAt[i]
			if i > 0 && seqAt[i]-seqAt[i-1] > 1 && C.N(2) == 1 {
				f.rx -= 1 + int64(C.N(int(seqAt[i]-seqAt[i-1]-1)))
			}
		}
	}
	if r.dir != "reverse" {
		open(r.a, r.b, modes[0])
	}
	if r.dir != "front" {
		open(r.b, r.a, modes[1])
	}
	// a chain that is only a destination still needs a height
	for _, c := range []simChain{r.a, r.b} {
		if e, ok := c.(*ethChain); ok && len(e.blocks) == 0 {
			e.height = int64(C.Range(5, 200))
			e.Block()
		}
		if e, ok := c.(*iconChain); ok && e.height == 0 {
			e.height = int64(C.Range(5, 200))
		}
	}
	relays := 1
	if o.compete {
		relays = 2 + C.N(3)/2
	}
	if o.viaMain {
		r.save = newSaveSim(w)
	}
	for i := 0; i < relays; i++ {
		r.addRelay(C.N(2) == 1, C.N(2) == 1)
		if o.viaMain {
			r.relays[i].writeConfig()
		}
	}
	w.Tracef("%s %s bridge=%v level=%d rates=%v crash=%d lat=%v", pair, r.dir, r.bridge, level, sortedRates(r.prof.rates), r.crashP, s.latMax)
	for _, f := range r.flows {
		w.Tracef("flow %s -> %s rx=%d sent=%d height=%d", f.srcAddr, f.dstAddr, f.rx, f.lastSent(), f.ver.Height())
		f.strict = r.clean && !o.compete
	}

	// phase 1: traffic and faults
	period := []time.Duration{2 * time.Second, time.Second, 3 * time.Second, 300 * time.Millisecond}[C.N(4)]
	periodB := []time.Duration{2 * time.Second, time.Second, 5 * time.Second}[C.N(3)]
	if race {
		period, periodB = period/2, 5*time.Second
	}
	r.a.StartBlocks(period)
	r.b.StartBlocks(periodB)
	for _, n := range r.relays {
		s.After(time.Duration(C.N(3000))*time.Millisecond, "start", n.start)
	}
	dur := time.Duration(C.Range(10, 90)) * time.Second
	size := C.Pick(4, 2) // small, mixed
	large := o.large == "always" || (o.large == "sometimes" && C.N(map[bool]int{true: 3, false: 9}[focus]) == 1)
	mid := large && focus && C.N(3) > 0 // several submissions for a block, none of them in fragments
	for _, c := range []simChain{r.a, r.b} {
		c := c
		if c.Out() == nil {
			continue
		}
		n := C.Pick(1, 3, 6, 2)
		if focus && n < 2 {
			n = 2
		}
		cnt := []int{C.N(3), C.N(8), C.N(25), C.N(80)}[n]
		for i := 0; i < cnt; i++ {
			at := time.Duration(C.N(int(dur/time.Millisecond))) * time.Millisecond
			if race {
				at = dur - time.Duration(C.N(12000))*time.Millisecond
			} else if mid {
				at /= 2 // the last ones are those in parts
			}
			burst := 1
			if C.N(6) == 5 {
				burst = 1 + C.N(20)
			}
			s.After(at, "send", func() {
				for k := 0; k < burst; k++ {
					c.Submit(r.payload(size, false))
				}
			})
		}
		if large {
			for i := 1 + C.N(3); i > 0; i-- {
				at := time.Duration(C.N(int(dur/time.Millisecond))) * time.Millisecond
				if mid && i == 1 {
					at = dur - time.Duration(4000+C.N(6000))*time.Millisecond
				}
				s.After(at, "send large", func() {
					k := 1 + C.N(6)
					if mid {
						k += 4
					}
					for ; k > 0; k-- {
						if mid {
							c.Submit(C.Bytes(90000 + C.N(150000)))
						} else {
							c.Submit(r.payload(size, true))
						}
					}
				})
			}
		}
		if x, ok := c.(*iconChain); ok {
			for i := C.N(3); i > 0; i-- {
				s.After(time.Duration(C.N(int(dur/time.Millisecond)))*time.Millisecond, "context", func() { x.ctxQ = true })
			}
		}
	}
	if o.compete && (race || C.N(2) == 1) {
		// one of the relays is left alone at some point, with what the others began
		stay := C.N(relays)
		for i, n := range r.relays {
			if n := n; i != stay {
				at := dur - time.Duration(C.N(1+C.N(int(dur/time.Millisecond))))*time.Millisecond
				if race {
					at = dur - time.Duration(C.N(6000))*time.Millisecond
				}
				s.After(at, "retire", func() {
					w.Tracef("relay%d is stopped for good", n.id)
					w.Fault("retire")
					n.retired = true
					if n.p != nil {
						n.p.Kill()
					}
				})
			}
		}
	}
	if !r.clean {
		r.prof.faulty = true
	}
	if r.clean && !o.compete {
		r.noExit = "without any fault"
	}
	s.afterOp = func(op *Op) {
		if r.prof.faulty && r.crashP > 0 && op.proc != nil && w.C.P(r.crashP) {
			for _, n := range r.relays {
				if n.p == op.proc {
					r.kill(n)
				}
			}
		}
	}
	s.RunUntil(w.Now()+dur, func() bool { return false })

	// phase 2: faults stop; everything sent so far has to arrive
	w.Tracef("faults stop")
	r.prof.faulty = false
	if r.save != nil {
		r.save.d.op, r.save.d.logErr = "", 0
	}
	s.fair, s.idleP = true, 0
	if s.latMax > 20*time.Millisecond {
		s.latMax = 20 * time.Millisecond
	}
	e0 := r.exits
	all := func() bool {
		for _, f := range r.flows {
			if !f.done() {
				return false
			}
		}
		return true
	}
	t0 := w.Now()
	if !s.RunUntil(t0+600*time.Second, all) {
		r.stalled("600 s after the last fault")
	}
	w.Counts["settle-ms"] += int((w.Now() - t0) / time.Millisecond)
	if w.Counts["max-exits-settle"] < r.exits-e0 {
		w.Counts["max-exits-settle"] = r.exits - e0
	}
	r.phase = "3"
	if r.exits-e0 > 4*len(r.relays) {
		w.Fail("restarts", "after the last fault the relay stopped %d times before everything was delivered", r.exits-e0)
	}
	// let late replies of phase 1 and the relay's own polling settle
	s.RunUntil(w.Now()+120*time.Second, func() bool { return false })

	// phase 3: undisturbed operation
	if !o.compete {
		r.noExit = "undisturbed"
		for _, f := range r.flows {
			f.strict = true
		}
	}
	for _, c := range []simChain{r.a, r.b} {
		if c.Out() != nil {
			for k := 1 + C.N(3); k > 0; k-- {
				c.Submit(r.payload(0, false))
			}
		}
	}
	s.RunUntil(w.Now()+10*time.Second, func() bool { return false })
	if !s.RunUntil(w.Now()+120*time.Second, all) {
		r.stalled("in undisturbed operation")
	}
	s.RunUntil(w.Now()+20*time.Second, func() bool { return false })
	for _, f := range r.flows {
		w.State("end %d %v %v", len(f.sent), f.rejects, f.accepts)
	}
}

func (r *relaySim) payload(size int, large bool) []byte {
	C := r.w.C
	if large {
		return C.Bytes(20000 + C.N(4)*120000 + C.N(60000))
	}
	if size == 1 && C.N(4) == 3 {
		return C.Bytes(C.N(5000))
	}
	return C.Bytes(1 + C.N(80))
}

func (r *relaySim) stalled(when string) {
	var d []string
	for _, f := range r.flows {
		d = append(d, fmt.Sprintf("%s->%s received %d of %d (height %d)", f.srcAddr, f.dstAddr, f.rx, f.lastSent(), f.ver.Height()))
	}
	for _, n := range r.relays {
		d = append(d, fmt.Sprintf("%s alive=%v", n.p.name, n.p.Alive()))
	}
	r.w.Fail("stalled", "%s messages are still undelivered: %s", when, strings.Join(d, "; "))
}

func sortedRates(m map[string]int) string {
	var r []string
	for _, k := range []string{"net", "txreorder", "txdrop", "txoverflow", "txexpired", "wsdrop", "headgap", "headdup"} {
		if m[k] > 0 {
			r = append(r, fmt.Sprintf("%s=%d", k, m[k]))
		}
	}
	return strings.Join(r, ",")
}
