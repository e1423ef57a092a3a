package sim

import (
	"fmt"
	"runtime"

	"github.com/icon-project/btp/common/log"
)

// simLogger swallows log lines and turns the logger's process-ending calls
// (Panic*, Fatal*) into the end of the simulated process they happen in.
type simLogger struct {
	log.Logger
	p *Proc
}

func newSimLogger(p *Proc) log.Logger {
	return &simLogger{Logger: quiet, p: p}
}

var quiet = func() log.Logger {
	l := log.New()
	l.SetLevel(log.PanicLevel)
	l.SetConsoleLevel(log.PanicLevel)
	return l
}()

func (l *simLogger) die(s string) {
	l.p.exit("log.Panic: " + s)
	runtime.Goexit() // unwinds, as the panic would
}

var dbgLog = false

func (l *simLogger) out(s string) {
	if dbgLog {
		fmt.Println("      LOG", l.p.name, s)
	}
}

func (l *simLogger) WithFields(log.Fields) log.Logger              { return l }
func (l *simLogger) Print(a ...interface{})                        {}
func (l *simLogger) Printf(f string, a ...interface{})             {}
func (l *simLogger) Println(a ...interface{})                      {}
func (l *simLogger) Trace(a ...interface{})                        {}
func (l *simLogger) Tracef(f string, a ...interface{})             {}
func (l *simLogger) Traceln(a ...interface{})                      {}
func (l *simLogger) Debug(a ...interface{})                        { l.out(fmt.Sprint(a...)) }
func (l *simLogger) Debugf(f string, a ...interface{})             { l.out(fmt.Sprintf(f, a...)) }
func (l *simLogger) Debugln(a ...interface{})                      { l.out(fmt.Sprintln(a...)) }
func (l *simLogger) Info(a ...interface{})                         {}
func (l *simLogger) Infof(f string, a ...interface{})              {}
func (l *simLogger) Infoln(a ...interface{})                       {}
func (l *simLogger) Warn(a ...interface{})                         {}
func (l *simLogger) Warnf(f string, a ...interface{})              {}
func (l *simLogger) Warnln(a ...interface{})                       {}
func (l *simLogger) Error(a ...interface{})                        { l.out(fmt.Sprint(a...)) }
func (l *simLogger) Errorf(f string, a ...interface{})             { l.out(fmt.Sprintf(f, a...)) }
func (l *simLogger) Errorln(a ...interface{})                      {}
func (l *simLogger) Panic(a ...interface{})                        { l.die(fmt.Sprint(a...)) }
func (l *simLogger) Panicf(f string, a ...interface{})             { l.die(fmt.Sprintf(f, a...)) }
func (l *simLogger) Panicln(a ...interface{})                      { l.die(fmt.Sprintln(a...)) }
func (l *simLogger) Fatal(a ...interface{})                        { l.die(fmt.Sprint(a...)) }
func (l *simLogger) Fatalf(f string, a ...interface{})             { l.die(fmt.Sprintf(f, a...)) }
func (l *simLogger) Fatalln(a ...interface{})                      { l.die(fmt.Sprintln(a...)) }
func (l *simLogger) Log(lv log.Level, a ...interface{})            { l.lv(lv, fmt.Sprint(a...)) }
func (l *simLogger) Logf(lv log.Level, f string, a ...interface{}) { l.lv(lv, fmt.Sprintf(f, a...)) }
func (l *simLogger) Logln(lv log.Level, a ...interface{})          { l.lv(lv, fmt.Sprintln(a...)) }
func (l *simLogger) lv(lv log.Level, s string) {
	if lv == log.PanicLevel || lv == log.FatalLevel {
		l.die(s)
	}
}
