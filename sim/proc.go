package sim

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"

	"github.com/sirupsen/logrus"
)

// spawn runs f as the main goroutine of a simulated process. Goroutines it
// starts inherit its label, which is how an uncaught panic or an os.Exit is
// attributed to the process it happens in.
func (w *World) spawn(p *Proc, f func()) {
	go func() {
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("proc", p.name)))
		p.label = verifLabel()
		f()
	}()
}

func procOf(label uintptr) *Proc {
	curMu.Lock()
	w := curWorld
	curMu.Unlock()
	if w == nil {
		return nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	var one *Proc
	n := 0
	for _, p := range w.procs {
		if label != 0 && p.label == label {
			return p
		}
		if !p.dead {
			one = p
			n++
		}
	}
	if n == 1 {
		return one
	}
	return nil
}

// installProcHooks routes panics and exits of simulated processes.
func installProcHooks() {
	verifPanic = func(v any) bool {
		if _, ok := v.(abortRun); ok {
			return false
		}
		curMu.Lock()
		w := curWorld
		curMu.Unlock()
		if w == nil || verifLabel() == w.rootLabel {
			return false
		}
		p := procOf(verifLabel())
		if e, ok := v.(*logrus.Entry); ok {
			if p != nil {
				p.exit("log.Panic: " + e.Message)
			}
			return true
		}
		st := string(debug.Stack())
		if p != nil && !p.Alive() {
			return true
		}
		if p != nil {
			p.stack = st
			p.exit(fmt.Sprintf("panic: %v", v))
		}
		w.FailLater("panic", "a goroutine of the program died of an uncaught panic: %v\n%s", v, trimStack(st))
		return true
	}
	os.VerifExit = func(code int) {
		l := verifLabel()
		if l == 0 {
			return
		}
		curMu.Lock()
		w := curWorld
		curMu.Unlock()
		if w == nil || l == w.rootLabel {
			return
		}
		if p := procOf(l); p != nil {
			p.exit(fmt.Sprintf("os.Exit(%d)", code))
			runtime.Goexit()
		}
	}
}

func trimStack(s string) string {
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}
