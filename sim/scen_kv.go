package sim

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/icon-project/btp/common/db"
)

func init() {
	register("kv-map", func(w *World) { runKV(w, "mapdb") })
	register("kv-level", func(w *World) { runKV(w, "goleveldb") })
	register("kv-badger", func(w *World) { runKV(w, "badgerdb") })
}

// scratchDir is where the databases of a run live; in memory where possible.
func kvScratch() string {
	base := os.Getenv("VERIF_SHM")
	if base == "" {
		base = os.Getenv("VERIF_SCRATCH")
	}
	d, err := os.MkdirTemp(base, "kv")
	if err != nil {
		panic(err)
	}
	return d
}

// copyDir takes what a killed process leaves behind.
func copyDir(from, to string) error {
	if err := os.MkdirAll(to, 0755); err != nil {
		return err
	}
	es, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	for _, e := range es {
		if e.IsDir() {
			if err := copyDir(filepath.Join(from, e.Name()), filepath.Join(to, e.Name())); err != nil {
				return err
			}
			continue
		}
		if strings.HasPrefix(e.Name(), "LOG") {
			continue // leveldb's log of what it did; LOCK is made again
		}
		r, err := os.Open(filepath.Join(from, e.Name()))
		if err != nil {
			return err
		}
		wr, err := os.Create(filepath.Join(to, e.Name()))
		if err == nil {
			_, err = io.Copy(wr, r)
			wr.Close()
		}
		r.Close()
		if err != nil {
			return err
		}
	}
	return nil
}

// kvDisk stands between a database and its files.
type kvDisk struct {
	w    *World
	dir  string // of the running process
	base string
	n    int // writes seen

	failIn    int // 1: the next write
	failShort bool
	failAll   bool // and all after it
	failed    bool // an error was injected in this session
	readIn    int

	crashIn   int // the process is killed at the n-th write
	crashHow  int // 0 before it, 1 after it, 2 in the middle
	crashed   bool
	crashDir  string
	onCrash   func()
	copies    int
	injectN   int
	quiet     bool
	mmapBased bool
}

func (d *kvDisk) snapshot() string {
	d.copies++
	to := filepath.Join(d.base, fmt.Sprint("p", d.copies))
	if err := copyDir(d.dir, to); err != nil {
		d.w.infra = "copy: " + err.Error()
	}
	return to
}

func (d *kvDisk) io(op, name string, b []byte, do func([]byte) (int, error)) (int, error, bool) {
	if !strings.HasPrefix(name, d.dir+"/") {
		return 0, nil, false
	}
	if strings.HasPrefix(filepath.Base(name), "LOG") && filepath.Base(name) != "LOCK" {
		return 0, nil, false
	}
	switch op {
	case "readseq":
		return 0, nil, false
	case "sync":
		return 0, nil, true // what was written survives the process anyway
	case "read":
		if d.readIn > 0 {
			d.readIn--
			if d.readIn == 0 {
				d.failed = true
				d.w.Fault("disk: read error")
				return 0, &os.PathError{Op: "read", Path: name, Err: syscall.EIO}, true
			}
		}
		return 0, nil, false
	}
	d.n++
	crash := func(how string) {
		d.crashed = true
		d.crashDir = d.snapshot()
		d.w.Fault("killed " + how + " a write")
		d.onCrash()
	}
	if d.crashIn > 0 && !d.crashed {
		d.crashIn--
		if d.crashIn == 0 {
			switch {
			case d.crashHow == 1:
				n, err := do(b)
				crash("after")
				return n, err, true
			case d.crashHow == 2 && len(b) > 1:
				k := 1 + d.w.C.N(len(b)-1)
				n, err := do(b[:k])
				crash("in the middle of")
				if err != nil || n != k {
					return n, err, true
				}
				n2, err := do(b[k:])
				return n + n2, err, true
			default:
				crash("before")
			}
		}
	}
	if d.failIn > 0 {
		d.failIn--
		if d.failIn == 0 {
			if d.failAll {
				d.failIn = 1
			}
			d.failed = true
			if d.failShort && len(b) > 1 {
				k := 1 + d.w.C.N(len(b)-1)
				n, err := do(b[:k])
				if err != nil {
					return n, err, true
				}
				d.w.Fault("disk: short write")
				return k, &os.PathError{Op: "write", Path: name, Err: syscall.ENOSPC}, true
			}
			d.w.Fault("disk: write error")
			return 0, &os.PathError{Op: "write", Path: name, Err: syscall.EIO}, true
		}
	}
	return 0, nil, false
}

// kvOp is one call of a user.
type kvOp struct {
	kind     string // get, has, set, del
	bk, key  string
	val      string // written
	inv, ret int
	out      string
	outNil   bool
	has      bool
	err      error
	done     bool
}

func (o *kvOp) String() string {
	s := fmt.Sprintf("%s(%q,%q", o.kind, o.bk, o.key)
	if o.kind == "set" {
		s += "," + shortVal(o.val)
	}
	s += ")"
	switch {
	case !o.done:
		return s + " no answer"
	case o.err != nil:
		return s + " error"
	case o.kind == "get" && o.outNil:
		return s + " = nil"
	case o.kind == "get":
		return s + " = " + shortVal(o.out)
	case o.kind == "has":
		return s + fmt.Sprint(" = ", o.has)
	}
	return s + " ok"
}

func shortVal(s string) string {
	if len(s) <= 16 {
		return fmt.Sprintf("%q", s)
	}
	h := fnv.New32a()
	io.WriteString(h, s)
	return fmt.Sprintf("%q..%d#%08x", s[:8], len(s), h.Sum32())
}

// kvUser is a goroutine with its own handles that performs the calls it is
// given, one at a time.
type kvUser struct {
	ch   chan *kvOp
	busy bool
}

type kvClock struct {
	mu sync.Mutex
	n  int
}

func (c *kvClock) tick() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	return c.n
}

// kvDo performs one call, with buffers of its own which it overwrites
// afterwards: a database must not keep them, nor hand out its own.
func kvDo(o *kvOp, get func(db.BucketID) (db.Bucket, error), clk *kvClock) {
	k, v := []byte(o.key), []byte(o.val)
	o.inv = clk.tick()
	bk, err := get(db.BucketID(o.bk))
	if err == nil {
		switch o.kind {
		case "get":
			var r []byte
			r, err = bk.Get(k)
			o.outNil = r == nil
			o.out = string(r)
			for i := range r {
				r[i] ^= 0xff
			}
		case "has":
			o.has = bk.Has(k)
		case "set":
			err = bk.Set(k, v)
		case "del":
			err = bk.Delete(k)
		}
	}
	o.ret = clk.tick()
	o.err = err
	for i := range k {
		k[i] = '#'
	}
	for i := range v {
		v[i] = '#'
	}
	o.done = true
}

func runKV(w *World, backend string) {
	c := w.C
	base := ""
	dsk := &kvDisk{w: w, mmapBased: backend == "badgerdb"}
	persistent := backend != "mapdb"
	if persistent {
		base = kvScratch()
		dsk.base, dsk.dir = base, filepath.Join(base, "p0")
		if err := os.MkdirAll(dsk.dir, 0755); err != nil {
			w.Infra("%v", err)
		}
		os.VerifIO = dsk.io
		w.cleanup = append(w.cleanup, func() {
			os.VerifIO = nil
			os.RemoveAll(base)
		})
	}
	log.SetOutput(io.Discard) // badger's own log
	clk := &kvClock{}
	var hist []*kvOp
	var crashAt int
	dsk.onCrash = func() { crashAt = clk.tick() }
	proc := w.NewProc("kv")
	p2 := proc
	// run executes f on goroutines of the process and waits for quiescence
	call := func(what string, f func()) {
		fin := false
		w.spawn(p2, func() { f(); fin = true })
		w.settle()
		for i := 0; !fin && i < 20; i++ {
			w.sleep(1e9) // background work of the database
			w.settle()
		}
		if !fin {
			w.Fail("stuck", "%s of %s does not return", what, backend)
		}
	}
	var d db.Database
	openDB := func() error {
		var err error
		call("opening", func() { d, err = db.Open(dsk.dir, backend, "x") })
		return err
	}
	if err := openDB(); err != nil {
		w.Fail("open", "a new %s does not open: %v", backend, err)
	}
	bks := []string{"", "S", "T", "HH", "hello"}[:1+c.N(5)]
	nkeys := 1 + c.N(4)
	klen := []int{1, 3, 32}[c.N(3)]
	var keys []string
	for i := 0; i < nkeys; i++ {
		k := c.Bytes(klen)
		k[0] = "STHx"[i%4]
		keys = append(keys, string(k))
	}
	if c.P(300) && klen > 1 {
		keys = append(keys, strings.Repeat("\x00", klen), strings.Repeat("\xff", klen))
	}
	nval := 0
	genOp := func() *kvOp {
		o := &kvOp{bk: bks[c.N(len(bks))], key: keys[c.N(len(keys))]}
		o.kind = []string{"set", "get", "del", "has"}[c.Pick(5, 5, 2, 2)]
		if o.kind == "set" {
			nval++
			o.val = fmt.Sprintf("v%d", nval)
			switch c.Pick(12, 4, 3, 1) {
			case 1:
				o.val = ""
			case 2:
				o.val += strings.Repeat(".", 20+c.N(60))
			case 3:
				o.val += strings.Repeat("x", []int{300, 5000, 70000, 1200000}[c.N(4)])
			}
		}
		return o
	}
	users := make([]*kvUser, 1+c.N(4))
	direct := func(id db.BucketID) (db.Bucket, error) { return d.GetBucket(id) }
	startUsers := func() {
		for i := range users {
			u := &kvUser{ch: make(chan *kvOp)}
			users[i] = u
			cached := map[db.BucketID]db.Bucket{}
			keep := c.P(500)
			get := func(id db.BucketID) (db.Bucket, error) {
				if b := cached[id]; b != nil && keep {
					return b, nil
				}
				b, err := direct(id)
				if err == nil {
					cached[id] = b
				}
				return b, err
			}
			w.spawn(p2, func() {
				for o := range u.ch {
					kvDo(o, get, clk)
					u.busy = false
				}
			})
		}
	}
	stopUsers := func() {
		for _, u := range users {
			close(u.ch)
		}
		w.settle()
	}
	startUsers()
	w.settle()
	// burst hands calls to some users at once and waits for them
	burst := func() {
		var cur []*kvOp
		n := 1 + c.N(len(users))
		per := 1 + c.N(2)
		for r := 0; r < per; r++ {
			for i := 0; i < n; i++ {
				u := users[i]
				if u.busy {
					continue
				}
				o := genOp()
				u.busy = true
				hist = append(hist, o)
				cur = append(cur, o)
				go func() { u.ch <- o }()
			}
			w.settle()
		}
		for i := 0; i < 60; i++ {
			busy := false
			for _, u := range users {
				busy = busy || u.busy
			}
			if !busy {
				break
			}
			if i == 59 {
				w.Fail("stuck", "a call of %s does not return", backend)
			}
			w.sleep(1e9)
			w.settle()
		}
		for _, o := range cur {
			if o.err != nil {
				if !dsk.failed {
					w.Fail("error", "%s %v: %v", backend, o, o.err)
				}
				w.Count("call failed by a disk error")
			} else {
				w.Count(o.kind)
			}
			if o.kind == "has" && !o.has && dsk.failed {
				o.err = errDisk // Has cannot tell an error from a missing key
			}
			w.Tracef("%v", o)
		}
		w.nontrivial = true
	}
	ended := map[*kvOp]bool{} // unanswered when the process was killed
	endAt := map[*kvOp]int{}
	// killed drops what the process did after it was killed
	killed := func(dir string) {
		keep := hist[:0]
		for _, o := range hist {
			if endAt[o] == 0 && o.inv > crashAt {
				continue
			}
			if endAt[o] == 0 && (!o.done || o.ret > crashAt) {
				ended[o] = true
				endAt[o] = crashAt
			}
			keep = append(keep, o)
		}
		hist = keep
		old := d
		stopUsers()
		dsk.crashIn, dsk.failIn, dsk.readIn = 0, 0, 0
		// the old process's memory is given back; nothing it does counts
		func() {
			dd := dsk.dir
			dsk.dir = "/nonexistent"
			defer func() { dsk.dir = dd }()
			fin := false
			w.spawn(p2, func() { old.Close(); fin = true })
			w.settle()
			for i := 0; !fin && i < 20; i++ {
				w.sleep(1e9)
				w.settle()
			}
		}()
		os.RemoveAll(dsk.dir)
		dsk.dir, dsk.crashed, dsk.failed = dir, false, false
		if err := openDB(); err != nil {
			w.Fail("reopen", "%s does not open after its process was killed: %v", backend, err)
		}
		startUsers()
		w.Count("reopened after a kill")
	}
	steps := c.Range(3, []int{8, 25}[c.N(2)])
	if backend == "badgerdb" {
		steps = c.Range(2, 10)
	}
	for s := 0; s < steps; s++ {
		if persistent {
			switch c.Pick(6, 2, 1, 1, 1) {
			case 1: // a kill at a write of the coming calls
				dsk.crashIn = 1 + c.N([]int{2, 8}[c.N(2)])
				dsk.crashHow = c.N(3)
				if dsk.mmapBased && dsk.crashHow == 2 {
					dsk.crashHow = 1
				}
			case 2: // a kill at rest
				crashAt = clk.tick()
				w.Fault("killed at rest")
				killed(dsk.snapshot())
				w.settle()
			case 3: // disk errors for a while
				dsk.failIn = 1 + c.N(4)
				dsk.failShort = c.P(500) && !dsk.mmapBased
				dsk.failAll = c.P(500)
				if c.P(300) {
					dsk.readIn = 1 + c.N(3)
				}
			case 4: // orderly restart
				stopUsers()
				var err error
				call("closing", func() { err = d.Close() })
				if err != nil && !dsk.failed {
					w.Fail("close", "closing %s fails: %v", backend, err)
				}
				// a closed database answers with errors
				for i := c.N(5); i > 0; i-- {
					o := genOp()
					call("a call on a closed database", func() { kvDo(o, direct, clk) })
					if o.kind != "has" && o.err == nil {
						w.Fail("closed", "%s, closed: %v", backend, o)
					}
					if o.kind == "has" && o.has {
						w.Fail("closed", "%s, closed: %v", backend, o)
					}
					if o.kind == "set" || o.kind == "del" {
						o.err = fmt.Errorf("closed")
						hist = append(hist, o)
						endAt[o] = clk.tick()
						ended[o] = true
						w.Count("call on a closed database")
					}
				}
				if c.P(300) {
					call("closing again", func() { _ = d.Close() })
				}
				dsk.failIn, dsk.readIn, dsk.failed, dsk.crashIn = 0, 0, false, 0
				if err := openDB(); err != nil {
					w.Fail("reopen", "%s does not open again: %v", backend, err)
				}
				startUsers()
				w.Count("orderly restart")
			}
		}
		burst()
		if dsk.crashed {
			killed(dsk.crashDir)
		} else if persistent && dsk.failed && c.P(500) {
			// after disk errors: killed and restarted on a healthy disk
			crashAt = clk.tick()
			w.Fault("killed at rest")
			killed(dsk.snapshot())
		}
		dsk.crashIn = 0
		w.steps++
		w.State("%s %d %d %v", backend, len(users), len(hist)/4, dsk.failed)
	}
	// a last look at every key
	if persistent {
		crashAt = clk.tick()
		killed(dsk.snapshot())
	}
	w.settle()
	for _, b := range bks {
		for _, k := range keys {
			for _, kind := range []string{"get", "has"} {
				o := &kvOp{kind: kind, bk: b, key: k}
				call("reading", func() { kvDo(o, direct, clk) })
				if o.err != nil {
					w.Fail("error", "%s %v: %v", backend, o, o.err)
				}
				w.Tracef("%v", o)
				hist = append(hist, o)
			}
		}
	}
	stopUsers()
	call("closing", func() { d.Close() })
	kvCheck(w, backend, hist, ended, endAt)
}

// kvCheck decides whether the calls on each key make sense one at a time.
func kvCheck(w *World, backend string, hist []*kvOp, ended map[*kvOp]bool, endAt map[*kvOp]int) {
	byKey := map[string][]*kvOp{}
	for _, o := range hist {
		k := fmt.Sprintf("%q/%q", o.bk, o.key)
		byKey[k] = append(byKey[k], o)
	}
	var ks []string
	for k := range byKey {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var ops []*linOp
		for _, o := range byKey[k] {
			l := &linOp{inv: o.inv, ret: o.ret, what: o}
			switch {
			case ended[o]:
				if o.kind == "get" || o.kind == "has" {
					continue
				}
				l.maybe, l.ret = true, endAt[o]
				if o.err != nil {
					l.ret = linNever
				}
			case o.err != nil:
				if o.kind == "get" || o.kind == "has" {
					continue
				}
				l.maybe, l.ret = true, linNever
			}
			ops = append(ops, l)
		}
		ok := linearize(ops, "-", func(s string, l *linOp) (string, bool) {
			o := l.what.(*kvOp)
			switch o.kind {
			case "set":
				return "=" + o.val, true
			case "del":
				return "-", true
			case "has":
				return s, o.has == (s != "-")
			}
			if s == "-" {
				return s, o.outNil
			}
			return s, !o.outNil && bytes.Equal([]byte(s[1:]), []byte(o.out))
		})
		if !ok {
			var ls []string
			for _, o := range byKey[k] {
				x := ""
				if ended[o] {
					x = " (killed)"
				}
				ls = append(ls, fmt.Sprintf("  [%d,%d] %v%s", o.inv, o.ret, o, x))
			}
			w.Fail("history", "%s: the calls on %s cannot have happened one at a time:\n%s", backend, k, strings.Join(ls, "\n"))
		}
	}
}
