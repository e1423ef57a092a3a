package sim

import (
	"context"
	"errors"
	"fmt"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
)

// Scenario is one kind of simulated run.
type Scenario struct {
	Name string
	Run  func(w *World)
}

var scenarios = map[string]func(w *World){}

func register(name string, f func(w *World)) { scenarios[name] = f }

// ScenarioNames lists what can be run.
func ScenarioNames() []string {
	var r []string
	for k := range scenarios {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Job asks for one run.
type Job struct {
	Scenario string   `json:"scenario"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier,omitempty"`
	Replay   bool     `json:"replay,omitempty"` // use Choices instead of the seed
	Choices  []uint32 `json:"choices,omitempty"`
	Trace    bool     `json:"trace,omitempty"`
	Verbose  bool     `json:"-"`
}

var initOnce sync.Once

// RunJob executes one run, from nothing but the job.
func RunJob(j Job) (res Result) {
	initOnce.Do(func() {
		installSeams()
		installProcHooks()
	})
	res = Result{Scenario: j.Scenario, Seed: j.Seed}
	f := scenarios[j.Scenario]
	if f == nil {
		res.Infra = "no scenario " + j.Scenario
		return
	}
	var w *World
	func() {
		defer func() {
			if e := recover(); e != nil {
				if err, ok := e.(error); ok && strings.HasPrefix(err.Error(), "deadlock: main bubble") {
					if w != nil && w.noLeak && w.failure == nil {
						w.failure = &Failure{Sig: "leak", Msg: "every call returned and goroutines of the program stay blocked for ever"}
					}
					return // goroutines of the ended processes stay behind
				}
				if err, ok := e.(error); ok && strings.HasPrefix(err.Error(), "deadlock: all") {
					res.Infra = "the scheduler itself is blocked"
					return
				}
				res.Infra = fmt.Sprintf("simulator: %v", e)
			}
		}()
		synctest.Run(func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(abortRun); !ok {
						res.Infra = fmt.Sprintf("simulator: %v\n%s", e, debug.Stack())
					}
				}
			}()
			pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("proc", "scheduler")))
			var c *Chooser
			if j.Replay {
				c = NewReplay(j.Choices)
			} else {
				c = NewSeeded(j.Seed)
			}
			w = NewWorld(c, RunConfig{Scenario: j.Scenario, Seed: j.Seed, Tier: j.Tier})
			w.verbose = j.Verbose
			w.rootLabel = verifLabel()
			verifSetYield([]uint64{0, 64, 16, 4}[c.N(4)])
			verifSetStmt([]uint64{0, 0, 300, 40, 8}[c.N(5)])
			setWorld(w)
			defer func() {
				setWorld(nil)
				verifSetYield(0)
				verifSetStmt(0)
				res.SimMs = w.Now().Milliseconds()
				for _, fn := range w.cleanup {
					fn()
				}
			}()
			f(w)
		})
	}()
	verifSetSeed(0)
	if w == nil {
		return
	}
	if w.infra != "" {
		res.Infra = w.infra
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	res.OK = w.failure == nil && res.Infra == ""
	if w.failure != nil {
		res.Sig, res.Msg = w.failure.Sig, w.failure.Msg
	}
	res.Digest = fmt.Sprintf("%016x", w.digest)
	res.Steps = w.steps
	res.Nontrivial = w.nontrivial
	res.Faults, res.Counts = w.Faults, w.Counts
	res.NChoices = len(w.C.Recorded())
	for s := range w.states {
		res.States = append(res.States, s)
	}
	sort.Slice(res.States, func(i, k int) bool { return res.States[i] < res.States[k] })
	if w.failure != nil || j.Trace {
		res.Choices = w.C.Recorded()
		res.Trace = w.trace
	}
	return
}

var errInfra = errors.New("infrastructure")

// Infra ends the run because the simulator itself cannot go on.
func (w *World) Infra(f string, a ...interface{}) {
	w.infra = fmt.Sprintf(f, a...)
	panic(abortRun{})
}
