package sim

import (
	"sort"
	"time"
)

// Sched decides, from the run's chooser, what happens next: which pending
// operation is answered, which message is pushed, when timed events (blocks,
// crashes) fire, and how much simulated time passes in between.
type Sched struct {
	w       *World
	events  []*event
	evSeq   int
	pushers []func() []push
	onStep  func() // after every settle: process exits, invariants

	latMax  time.Duration // largest latency of a single operation
	idleP   int           // permille: let time pass instead of serving
	fair    bool          // serve the oldest operation first
	burst   int           // permille: serve another operation at the same instant
	maxStep int
	afterOp func(*Op)
}

type event struct {
	at   time.Duration
	seq  int
	name string
	fn   func()
}

// push is a message a model could deliver now.
type push struct {
	key string
	run func()
}

func NewSched(w *World) *Sched {
	return &Sched{w: w, maxStep: 60000, burst: []int{0, 0, 250, 600}[w.C.N(4)]}
}

func (s *Sched) At(d time.Duration, name string, fn func()) *event {
	s.evSeq++
	e := &event{at: d, seq: s.evSeq, name: name, fn: fn}
	s.events = append(s.events, e)
	sort.SliceStable(s.events, func(i, j int) bool {
		a, b := s.events[i], s.events[j]
		if a.at != b.at {
			return a.at < b.at
		}
		return a.seq < b.seq
	})
	return e
}

func (s *Sched) After(d time.Duration, name string, fn func()) *event {
	return s.At(s.w.Now()+d, name, fn)
}

func (s *Sched) Cancel(e *event) {
	for i, x := range s.events {
		if x == e {
			s.events = append(s.events[:i:i], s.events[i+1:]...)
			return
		}
	}
}

// RunUntil drives the world until done holds (true) or the deadline passes.
func (s *Sched) RunUntil(deadline time.Duration, done func() bool) bool {
	w := s.w
	for {
		w.settle()
		if s.onStep != nil {
			s.onStep()
		}
		if done() {
			return true
		}
		now := w.Now()
		if now >= deadline {
			return false
		}
		w.steps++
		if w.steps > s.maxStep {
			w.Fail("spin", "no end of activity: %d steps by %v", w.steps, now)
		}
		if len(s.events) > 0 && s.events[0].at <= now {
			e := s.events[0]
			s.events = s.events[1:]
			e.fn()
			continue
		}
		limit := deadline - now
		if len(s.events) > 0 && s.events[0].at-now < limit {
			limit = s.events[0].at - now
		}
		ops := w.pendingOps()
		var ps []push
		for _, p := range s.pushers {
			ps = append(ps, p()...)
		}
		n := len(ops) + len(ps)
		if n == 0 {
			select {
			case <-w.wake:
			case <-time.After(limit):
			}
			continue
		}
		if w.C.P(s.idleP) {
			d := time.Duration(1+w.C.N(2000)) * time.Millisecond
			if d > limit {
				d = limit
			}
			time.Sleep(d)
			continue
		}
		for k := 0; ; k++ {
			s.serve(ops, ps)
			if k == 3 || !w.C.P(s.burst) {
				break
			}
			// the goroutines which this one lets go run at the same time
			ops, ps = w.pendingOps(), nil
			for _, p := range s.pushers {
				ps = append(ps, p()...)
			}
			if len(ops)+len(ps) == 0 {
				break
			}
		}
		time.Sleep(time.Microsecond) // nothing happens in no time: two requests have different timestamps
		if s.latMax > 0 {
			d := time.Duration(w.C.N(int(s.latMax/time.Millisecond)+1)) * time.Millisecond
			if d > limit {
				d = limit
			}
			if d > 0 {
				time.Sleep(d)
			}
		}
	}
}

func (s *Sched) serve(ops []*Op, ps []push) {
	w := s.w
	n := len(ops) + len(ps)
	i := 0
	if !s.fair || w.C.P(200) {
		i = w.C.N(n)
	} else if len(ops) == 0 {
		i = w.C.N(n)
	} else if len(ps) > 0 && w.C.P(500) {
		i = len(ops) + w.C.N(len(ps))
	}
	if i < len(ops) {
		w.take(ops[i])
		ops[i].exec(ops[i])
		if s.afterOp != nil {
			s.afterOp(ops[i])
		}
	} else {
		ps[i-len(ops)].run()
	}
}
