package sim

import (
	"fmt"
	"sort"
	"strings"

	"github.com/icon-project/btp/common/db"
)

func init() { register("layer", runLayer) }

// lyBase is the underlying database: a real mapdb behind a seam at which each
// operation waits for the scheduler, may fail, and is recorded.
type lyBase struct {
	w      *World
	p      *Proc
	real   db.Database
	faulty bool
	readP  int
	writeP int
	bkP    int
	clk    *kvClock

	flushWrites int  // Flush(true) calls under way
	passThrough bool // a flush has succeeded, or one is about to
	rec         []lyWrite
	failedReads int
	gate        bool
}

type lyWrite struct {
	bk, key, val string
	del          bool
	at           int
}

func (b *lyBase) GetBucket(id db.BucketID) (db.Bucket, error) {
	if b.bkP > 0 && b.w.C.P(b.bkP) {
		b.w.Fault("no bucket")
		b.failedReads++
		return nil, errDisk
	}
	r, err := b.real.GetBucket(id)
	if err != nil {
		return nil, err
	}
	return &lyBucket{b, string(id), r}, nil
}
func (b *lyBase) Close() error { return nil }

type lyBucket struct {
	b    *lyBase
	id   string
	real db.Bucket
}

// wait parks the caller until the scheduler lets the operation happen.
func (b *lyBase) wait(kind, key string) (fail, after bool) {
	if !b.gate {
		return
	}
	ch := make(chan int, 1)
	b.w.register(&Op{node: "disk", kind: kind, key: key, proc: b.p, exec: func(o *Op) {
		v := 0
		p := b.writeP
		if kind == "get" {
			p = b.readP
		}
		if kind != "has" && b.w.C.P(p) {
			v = 1
			if kind != "get" && b.w.C.P(400) {
				v = 2
			}
		}
		ch <- v
	}})
	switch <-ch {
	case 1:
		return true, false
	case 2:
		return true, true
	}
	return
}

func (k *lyBucket) Get(key []byte) ([]byte, error) {
	if f, _ := k.b.wait("get", k.id+"/"+string(key)); f {
		k.b.w.Fault("read error")
		k.b.failedReads++
		return nil, errDisk
	}
	return k.real.Get(key)
}

func (k *lyBucket) Has(key []byte) bool {
	k.b.wait("has", k.id+"/"+string(key))
	return k.real.Has(key)
}

func (k *lyBucket) mutate(x lyWrite, f func() error) error {
	if k.b.flushWrites == 0 && !k.b.passThrough {
		k.b.w.FailLater("leaked", "the underlying database is written (%q/%q) while no flush with write is under way and none has succeeded", x.bk, x.key)
	}
	kind := "set"
	if x.del {
		kind = "del"
	}
	fail, after := k.b.wait(kind, k.id+"/"+x.key+"="+x.val)
	if fail && !after {
		k.b.w.Fault("write error, no effect")
		return errDisk
	}
	err := f()
	x.at = k.b.clk.tick()
	k.b.rec = append(k.b.rec, x)
	if after {
		k.b.w.Fault("write error after effect")
		return errDisk
	}
	return err
}

func (k *lyBucket) Set(key, val []byte) error {
	kk, vv := append([]byte{}, key...), append([]byte{}, val...)
	return k.mutate(lyWrite{bk: k.id, key: string(kk), val: string(vv)}, func() error { return k.real.Set(kk, vv) })
}

func (k *lyBucket) Delete(key []byte) error {
	kk := append([]byte{}, key...)
	return k.mutate(lyWrite{bk: k.id, key: string(kk), del: true}, func() error { return k.real.Delete(kk) })
}

// lyState is the reference model: what is underneath, what lies over it, and
// whether the layer has become transparent.
type lyState struct {
	base, over map[string]string // "-": deleted (over only)
	through    bool
}

func lyDecode(s string) *lyState {
	st := &lyState{base: map[string]string{}, over: map[string]string{}}
	ps := strings.Split(s, "\x01")
	st.through = ps[0] == "T"
	for i, m := range []map[string]string{st.base, st.over} {
		for _, kv := range strings.Split(ps[1+i], "\x02") {
			if kv != "" {
				a := strings.SplitN(kv, "\x03", 2)
				m[a[0]] = a[1]
			}
		}
	}
	return st
}

func (st *lyState) encode() string {
	t := "F"
	if st.through {
		t = "T"
	}
	for _, m := range []map[string]string{st.base, st.over} {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		t += "\x01"
		for _, k := range ks {
			t += k + "\x03" + m[k] + "\x02"
		}
	}
	return t
}

func (st *lyState) get(k string) (string, bool) {
	if v, ok := st.over[k]; ok {
		if v == "-" {
			return "", false
		}
		return v[1:], true
	}
	v, ok := st.base[k]
	if !ok {
		return "", false
	}
	return v[1:], true
}

type lyOp struct {
	kvOp
	write bool      // flush
	recs  []lyWrite // what a failed flush, or a failed direct write, had written
}

func runLayer(w *World) {
	c := w.C
	clk := &kvClock{}
	base := &lyBase{w: w, real: db.NewMapDB(), clk: clk}
	p := w.NewProc("layer")
	base.p = p
	bks := []string{"", "S", "T"}[:1+c.N(3)]
	keys := []string{"a", "b", "c", "d"}[:1+c.N(4)]
	init := &lyState{base: map[string]string{}, over: map[string]string{}}
	nval := 0
	newVal := func() string {
		nval++
		if c.P(150) {
			return ""
		}
		return fmt.Sprintf("v%d", nval)
	}
	for _, b := range bks {
		for _, k := range keys {
			if c.P(500) {
				bk, _ := base.real.GetBucket(db.BucketID(b))
				v := newVal()
				bk.Set([]byte(k), []byte(v))
				init.base[b+"/"+k] = "=" + v
			}
		}
	}
	faults := c.P(700)
	if faults {
		base.writeP = []int{0, 100, 300, 700}[c.N(4)]
		base.readP = []int{0, 0, 100}[c.N(3)]
		base.bkP = []int{0, 0, 100}[c.N(3)]
	}
	base.gate = true
	layer := db.NewLayerDB(base)
	users := make([]*lyUser, 1+c.N(4))
	var hist []*lyOp
	w.settle()
	for i := range users {
		u := &lyUser{ch: make(chan *lyOp)}
		users[i] = u
		cached := map[db.BucketID]db.Bucket{}
		keep := c.P(500)
		get := func(id db.BucketID) (db.Bucket, error) {
			if b := cached[id]; b != nil && keep {
				return b, nil
			}
			b, err := layer.GetBucket(id)
			if err == nil {
				cached[id] = b
			}
			return b, err
		}
		w.spawn(p, func() {
			for o := range u.ch {
				if o.kind == "flush" {
					o.inv = clk.tick()
					if o.write {
						base.flushWrites++
					}
					// other users may already see it done before it returns
					base.passThrough = base.passThrough || len(users) > 1
					o.err = layer.Flush(o.write)
					if o.write {
						base.flushWrites--
					}
					if o.err == nil {
						base.passThrough = true
					}
					o.ret = clk.tick()
					o.done = true
				} else {
					kvDo(&o.kvOp, get, clk)
				}
				u.busy = false
			}
		})
	}
	flushP := []int{0, 60, 150}[c.N(3)]
	flushing := func() bool {
		for _, u := range users {
			if u.busy && u.op.kind == "flush" {
				return true
			}
		}
		return false
	}
	n := c.Range(6, []int{20, 40}[c.N(2)])
	issued := 0
	genOp := func() *lyOp {
		o := &lyOp{}
		o.bk, o.key = bks[c.N(len(bks))], keys[c.N(len(keys))]
		if c.P(flushP) && !flushing() {
			o.kind = "flush"
			o.write = !c.P(250)
			return o
		}
		o.kind = []string{"set", "get", "del", "has"}[c.Pick(5, 5, 3, 2)]
		if o.kind == "set" {
			o.val = newVal()
		}
		return o
	}
	quiet := func() bool {
		for _, u := range users {
			if u.busy {
				return false
			}
		}
		return true
	}
	idle := 0
	for step := 0; ; step++ {
		w.settle()
		var free []*lyUser
		for _, u := range users {
			if !u.busy {
				free = append(free, u)
			}
		}
		ops := w.pendingOps()
		if quiet() && base.passThrough && !lyTransparent(hist) {
			base.passThrough = false // the write flush under way did not succeed
		}
		if issued >= n && quiet() {
			break
		}
		if len(ops) == 0 && (len(free) == 0 || issued >= n) {
			idle++
			if idle > 5 {
				var s []string
				for _, u := range users {
					if u.busy {
						s = append(s, u.op.kind)
					}
				}
				w.Fail("stuck", "calls of the layered database never return: %v", s)
			}
			w.sleep(1e9)
			continue
		}
		idle = 0
		k := len(ops)
		if len(free) > 0 && issued < n {
			k++
		}
		i := c.N(k)
		if i < len(ops) {
			w.runOp(ops[i])
			continue
		}
		u := free[c.N(len(free))]
		o := genOp()
		u.busy = true
		u.op = o
		issued++
		hist = append(hist, o)
		w.steps++
		go func() { u.ch <- o }()
	}
	w.nontrivial = true
	for _, o := range hist {
		switch {
		case o.kind == "flush" && o.err == nil:
			w.Count(fmt.Sprint("flush write=", o.write))
		case o.kind == "flush":
			w.Count("flush failed")
		default:
			w.Count(o.kind)
		}
		w.Tracef("[%d,%d] %v write=%v", o.inv, o.ret, &o.kvOp, o.write)
	}
	// a last flush, on a healthy disk, and a look at everything
	base.gate = false
	base.bkP = 0
	seqOp := func(o *lyOp) {
		if o.kind == "flush" {
			o.inv = clk.tick()
			if o.write {
				base.flushWrites++
			}
			w.guard("Flush", func() { o.err = layer.Flush(o.write) })
			if o.write {
				base.flushWrites--
			}
			if o.err == nil {
				base.passThrough = true
			}
			o.ret = clk.tick()
			o.done = true
		} else {
			w.guard("call", func() { kvDo(&o.kvOp, layer.GetBucket, clk) })
		}
		if o.err != nil {
			w.Fail("error", "%v (flush write=%v) fails on a healthy database: %v", &o.kvOp, o.write, o.err)
		}
		hist = append(hist, o)
	}
	readAll := func() {
		for _, b := range bks {
			for _, k := range keys {
				for _, kind := range []string{"get", "has"} {
					o := &lyOp{}
					o.kind, o.bk, o.key = kind, b, k
					seqOp(o)
				}
			}
		}
	}
	readAll()
	fl := &lyOp{}
	fl.kind, fl.write = "flush", !c.P(300)
	seqOp(fl)
	readAll()
	if w.Failed() {
		panic(abortRun{})
	}
	// what a failed write operation did to the underlying database is known
	var lins []*linOp
	for _, o := range hist {
		l := &linOp{inv: o.inv, ret: o.ret, what: o}
		if o.err != nil {
			switch o.kind {
			case "get":
				if base.failedReads == 0 {
					w.Fail("error", "%v fails although nothing underneath did: %v", &o.kvOp, o.err)
				}
				continue
			case "flush":
				if !o.write {
					w.Fail("error", "a flush that discards fails: %v", o.err)
				}
				for _, x := range base.rec {
					if x.at > o.inv && x.at < o.ret {
						o.recs = append(o.recs, x)
					}
				}
			default:
				// no bucket, or a direct write after the flush that failed
				l.maybe = true
			}
		}
		lins = append(lins, l)
	}
	ok := linearize(lins, init.encode(), lyStep)
	if !ok {
		var ls []string
		for _, o := range hist {
			s := o.kvOp.String()
			if o.kind == "flush" {
				s = fmt.Sprintf("flush(%v) %v", o.write, o.err == nil)
				if o.err != nil {
					s += fmt.Sprint(" having written ", o.recs)
				}
			}
			ls = append(ls, fmt.Sprintf("  [%d,%d] %s", o.inv, o.ret, s))
		}
		w.Fail("history", "the calls on the layered database cannot have happened one at a time, starting from %q:\n%s", init.base, strings.Join(ls, "\n"))
	}
	// and the underlying database holds what the layer shows
	for _, b := range bks {
		bk, _ := base.real.GetBucket(db.BucketID(b))
		for _, k := range keys {
			v, _ := bk.Get([]byte(k))
			lb, _ := layer.GetBucket(db.BucketID(b))
			lv, err := lb.Get([]byte(k))
			if err != nil || string(v) != string(lv) || (v == nil) != (lv == nil) {
				w.Fail("differs", "after a flush the layer shows %q for %q/%q and the database holds %q (%v)", lv, b, k, v, err)
			}
		}
	}
}

type lyUser struct {
	ch   chan *lyOp
	busy bool
	op   *lyOp
}

// lyTransparent tells whether some flush has succeeded.
func lyTransparent(hist []*lyOp) bool {
	for _, o := range hist {
		if o.kind == "flush" && o.done && o.err == nil {
			return true
		}
	}
	return false
}

func lyStep(s string, l *linOp) (string, bool) {
	o := l.what.(*lyOp)
	st := lyDecode(s)
	k := o.bk + "/" + o.key
	switch o.kind {
	case "get":
		v, ok := st.get(k)
		if !ok {
			return s, o.outNil
		}
		return s, !o.outNil && v == o.out
	case "has":
		_, ok := st.get(k)
		return s, ok == o.has
	case "set":
		if st.through {
			st.base[k] = "=" + o.val
		} else {
			if o.err != nil {
				return "", false // nothing can fail in the layer itself
			}
			st.over[k] = "=" + o.val
		}
		return st.encode(), true
	case "del":
		if st.through {
			delete(st.base, k)
		} else {
			if o.err != nil {
				return "", false
			}
			st.over[k] = "-"
		}
		return st.encode(), true
	}
	// flush
	if o.err != nil {
		if st.through {
			return "", false
		}
		for _, x := range o.recs {
			xk := x.bk + "/" + x.key
			want := "=" + x.val
			if x.del {
				want = "-"
			}
			if st.over[xk] != want {
				return "", false // wrote something the layer did not hold
			}
			if x.del {
				delete(st.base, xk)
			} else {
				st.base[xk] = want
			}
		}
		return st.encode(), true
	}
	if o.write {
		for kk, v := range st.over {
			if v == "-" {
				delete(st.base, kk)
			} else {
				st.base[kk] = v
			}
		}
	}
	st.over = map[string]string{}
	st.through = true
	return st.encode(), true
}
