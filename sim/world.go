package sim

import (
	"fmt"
	"hash/fnv"
	"sort"
	"sync"
	"testing/synctest"
	"time"
)

// Op is something a goroutine of the system under test is waiting for at a
// seam: a request on the wire, a dial, a disk write. It stays pending until
// the scheduler picks it.
type Op struct {
	id    int
	seq   int
	node  string // who is waiting
	kind  string // what for
	key   string // canonical content, for sorting and the digest
	proc  *Proc
	exec  func(o *Op) // run by the scheduler when picked
	dead  bool        // the waiter is gone (context cancelled, process dead)
	hung  bool        // a fault: never answered
	arriv time.Time
}

// Proc is one incarnation of a simulated process. When it dies nothing it
// asks for is ever answered again; only what it had already handed to the
// outside world survives.
type Proc struct {
	w      *World
	name   string
	label  uintptr // identifies the goroutines of this process
	stack  string
	dead   bool
	reason string // why it stopped by itself: a returned error or a log.Panic
	exited bool   // it stopped by itself (as opposed to killed)
	onExit func()
}

func (p *Proc) Alive() bool { return !p.dead }

// World is one simulated run.
type World struct {
	C      *Chooser
	mu     sync.Mutex
	newOps []*Op
	ops    []*Op
	opSeq  int
	opID   int
	hosts  map[string]*Host
	start  time.Time
	steps  int

	trace      []string
	traceMax   int
	digest     uint64
	states     map[uint64]struct{}
	Faults     map[string]int
	Counts     map[string]int
	failure    *Failure
	verbose    bool
	procs      []*Proc
	cfg        RunConfig
	detSeed    uint64
	detN       uint64
	wake       chan struct{}
	wsN        int
	rootLabel  uintptr
	cleanup    []func() // run when the run ends, whatever way
	infra      string
	nontrivial bool
	refuse     bool // hosts nobody made refuse connections
	noLeak     bool // goroutines left behind are a violation
}

// RunConfig is what the runner passes to a scenario.
type RunConfig struct {
	Scenario string
	Seed     int64
	Tier     string
}

// Failure is a property violation.
type Failure struct {
	Msg string
	Sig string // short stable signature, used for known findings and minimisation
}

type abortRun struct{}

func NewWorld(c *Chooser, cfg RunConfig) *World {
	w := &World{C: c, hosts: map[string]*Host{}, start: time.Now(), Faults: map[string]int{},
		Counts: map[string]int{}, states: map[uint64]struct{}{}, traceMax: 4000, cfg: cfg, digest: 14695981039346656037}
	w.wake = make(chan struct{}, 1)
	w.detSeed = uint64(c.N(1 << 30))
	w.reseed()
	return w
}

// reseed restarts the runtime's generator; done at every step so that what one
// step consumes cannot leak into the next.
func (w *World) reseed() {
	w.detN++
	verifSetSeed(mix(w.detSeed, w.detN))
}

func (w *World) Now() time.Duration { return time.Since(w.start) }

// Tracef records an event of the run; events make up the digest, so two
// executions with the same digest did the same things in the same order.
func (w *World) Tracef(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	line := fmt.Sprintf("%9.3fs %s", w.Now().Seconds(), s)
	h := fnv.New64a()
	h.Write([]byte(line))
	w.digest = (w.digest ^ h.Sum64()) * 1099511628211
	if len(w.trace) < w.traceMax {
		w.trace = append(w.trace, line)
	} else if len(w.trace) == w.traceMax {
		w.trace = append(w.trace, "... trace truncated")
	}
	if w.verbose {
		fmt.Println(line)
	}
}

// State records an abstract state reached, for the coverage measure.
func (w *World) State(f string, a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, f, a...)
	w.states[h.Sum64()] = struct{}{}
}

func (w *World) Fault(kind string) { w.Faults[kind]++ }
func (w *World) Count(kind string) { w.Counts[kind]++ }

// Fail records the first violation and ends the run. It must be called on the
// scheduler goroutine; elsewhere use FailLater.
func (w *World) Fail(sig, f string, a ...interface{}) {
	w.FailLater(sig, f, a...)
	panic(abortRun{})
}

func (w *World) FailLater(sig, f string, a ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.failure == nil {
		w.failure = &Failure{Sig: sig, Msg: fmt.Sprintf(f, a...)}
	}
}

func (w *World) Failed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.failure != nil
}

// register parks an operation; called from goroutines under test.
func (w *World) register(o *Op) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.opSeq++
	o.seq = w.opSeq
	o.arriv = time.Now()
	w.newOps = append(w.newOps, o)
	select {
	case w.wake <- struct{}{}:
	default:
	}
}

// settle waits until every goroutine of the run is blocked and then moves the
// newly parked operations, in a canonical order, to the pending list.
func (w *World) settle() {
	synctest.Wait()
	w.reseed()
	w.mu.Lock()
	n := w.newOps
	w.newOps = nil
	w.mu.Unlock()
	sort.SliceStable(n, func(i, j int) bool {
		a, b := n[i], n[j]
		if a.node != b.node {
			return a.node < b.node
		}
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		if a.key != b.key {
			return a.key < b.key
		}
		return a.seq < b.seq
	})
	for _, o := range n {
		w.opID++
		o.id = w.opID
		w.ops = append(w.ops, o)
	}
	w.mu.Lock()
	f := w.failure
	w.mu.Unlock()
	if f != nil {
		panic(abortRun{})
	}
	keep := w.ops[:0]
	for _, o := range w.ops {
		if o.dead || (o.proc != nil && o.proc.dead) {
			continue
		}
		keep = append(keep, o)
	}
	w.ops = keep
}

// pendingOps lists what can be picked now.
func (w *World) pendingOps() []*Op {
	var r []*Op
	for _, o := range w.ops {
		if !o.hung {
			r = append(r, o)
		}
	}
	return r
}

func (w *World) take(o *Op) {
	for i, x := range w.ops {
		if x == o {
			w.ops = append(w.ops[:i:i], w.ops[i+1:]...)
			return
		}
	}
}

// runOp picks one pending operation.
func (w *World) runOp(o *Op) {
	w.steps++
	w.take(o)
	o.exec(o)
}

// sleep lets simulated time pass.
func (w *World) sleep(d time.Duration) {
	time.Sleep(d)
}

// NewProc starts a simulated process.
func (w *World) NewProc(name string) *Proc {
	p := &Proc{w: w, name: name}
	w.procs = append(w.procs, p)
	return p
}

// Kill crashes a process: what it has in flight is lost.
func (p *Proc) Kill() {
	p.dead = true
}

// exit is called by the process itself when it stops.
func (p *Proc) exit(reason string) {
	p.w.mu.Lock()
	defer p.w.mu.Unlock()
	if p.dead {
		return
	}
	p.dead = true
	p.exited = true
	p.reason = reason
}

// Result of one run.
type Result struct {
	Scenario string         `json:"scenario"`
	Seed     int64          `json:"seed"`
	OK       bool           `json:"ok"`
	Sig      string         `json:"sig,omitempty"`
	Msg      string         `json:"msg,omitempty"`
	Infra    string         `json:"infra,omitempty"` // the simulator, not the program, failed
	Digest   string         `json:"digest"`
	Steps    int            `json:"steps"`
	SimMs    int64          `json:"sim_ms"`
	Faults   map[string]int `json:"faults,omitempty"`
	Counts   map[string]int `json:"counts,omitempty"`
	Choices  []uint32       `json:"choices,omitempty"`
	Trace    []string       `json:"trace,omitempty"`
	States   []uint64       `json:"states,omitempty"`
	NChoices int            `json:"nchoices"`

	Nontrivial bool  `json:"nontrivial"`
	Heap       int64 `json:"heap,omitempty"`
}
