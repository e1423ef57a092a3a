package sim

import (
	"bytes"
	"errors"
	"fmt"
	"runtime/debug"

	"github.com/icon-project/btp/common/mta"
)

func init() { register("mta", runMTA) }

// guard runs a call into the code under test on the scheduler's goroutine; a
// panic in it is a violation, a simulated crash ends it.
func (w *World) guard(what string, f func()) (crashed bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortRun); ok {
				panic(e)
			}
			if _, ok := e.(simCrash); ok {
				crashed = true
				return
			}
			w.Fail("panic", "%s panics: %v\n%s", what, e, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return
}

type simCrash struct{}

var errDisk = errors.New("simulated disk error")

// simStore is what survives a process: a bucket's durable contents.
type simStore struct {
	w      *World
	data   map[string][]byte
	writes int
}

// simBucket is one process's handle on a store. Writes are atomic; the n-th
// one from now may fail, with or without effect, or be the last thing the
// process does.
type simBucket struct {
	s       *simStore
	dead    bool
	failIn  int // 1: the next write
	failHow int // 0: error, no effect 1: error after taking effect 2: crash before 3: crash after
	readP   int // permille of failing reads
	nreads  int
	lastErr bool
	applied map[string]int // keys written since reset
}

func (b *simBucket) Get(k []byte) ([]byte, error) {
	if b.dead {
		panic(simCrash{})
	}
	b.nreads++
	if b.readP > 0 && b.s.w.C.P(b.readP) {
		b.s.w.Fault("read error")
		b.lastErr = true
		return nil, errDisk
	}
	v, ok := b.s.data[string(k)]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}

func (b *simBucket) Has(k []byte) bool {
	_, ok := b.s.data[string(k)]
	return ok && !b.dead
}

func (b *simBucket) mutate(kind string, k []byte, f func()) error {
	if b.dead {
		panic(simCrash{})
	}
	f2 := func() {
		f()
		b.s.writes++
		if b.applied == nil {
			b.applied = map[string]int{}
		}
		b.applied[string(k)]++
	}
	if b.failIn > 0 {
		b.failIn--
		if b.failIn == 0 {
			switch b.failHow {
			case 0:
				b.s.w.Fault("write error, no effect")
				b.lastErr = true
				return errDisk
			case 1:
				f2()
				b.s.w.Fault("write error after effect")
				b.lastErr = true
				return errDisk
			case 2:
				b.s.w.Fault("crash before a write")
				b.dead = true
				panic(simCrash{})
			default:
				f2()
				b.s.w.Fault("crash after a write")
				b.dead = true
				panic(simCrash{})
			}
		}
	}
	f2()
	return nil
}

func (b *simBucket) Set(k, v []byte) error {
	vv := append([]byte{}, v...)
	return b.mutate("set", k, func() { b.s.data[string(k)] = vv })
}

func (b *simBucket) Delete(k []byte) error {
	return b.mutate("delete", k, func() { delete(b.s.data, string(k)) })
}

// ---- reference: the roots of a merkle tree accumulator over leaf hashes

func pow2Root(hs [][]byte) []byte {
	if len(hs) == 1 {
		return hs[0]
	}
	h := len(hs) / 2
	return sha3256(append(append([]byte{}, pow2Root(hs[:h])...), pow2Root(hs[h:])...))
}

// mtaRootFor gives the root of the tree that holds idx in an accumulator over
// hs, and its depth.
func mtaRootFor(hs [][]byte, idx int) ([]byte, int) {
	base := 0
	for d := 62; d >= 0; d-- {
		sz := 1 << uint(d)
		if len(hs)&sz == 0 {
			continue
		}
		if idx < base+sz {
			return pow2Root(hs[base : base+sz]), d
		}
		base += sz
	}
	return nil, -1
}

func foldWitness(ws []mta.Witness, h []byte) []byte {
	for _, x := range ws {
		if x.Direction == mta.Left {
			h = sha3256(append(append([]byte{}, x.HashValue...), h...))
		} else {
			h = sha3256(append(append([]byte{}, h...), x.HashValue...))
		}
	}
	return h
}

// mtaAcc hides which of the two accumulators runs.
type mtaAcc struct {
	ext *mta.ExtAccumulator
	acc *mta.Accumulator
	bk  *simBucket
}

func (a *mtaAcc) flush() error {
	if a.ext != nil {
		return a.ext.Flush()
	}
	return a.acc.Flush()
}
func (a *mtaAcc) recover() error {
	if a.ext != nil {
		return a.ext.Recover()
	}
	return a.acc.Recover()
}
func (a *mtaAcc) addData(b []byte) []mta.Witness {
	if a.ext != nil {
		return a.ext.AddData(b)
	}
	return a.acc.AddData(b)
}
func (a *mtaAcc) addHash(b []byte) []mta.Witness {
	if a.ext != nil {
		return a.ext.AddHash(b)
	}
	return a.acc.AddHash(b)
}

func cloneLeaves(l [][]byte) [][]byte { return append([][]byte{}, l...) }

func runMTA(w *World) {
	c := w.C
	useExt := c.P(500)
	var offset int64
	if useExt {
		offset = int64([]int{0, 1, 7, 1 << 20}[c.N(4)]) + int64(c.N(5))
	}
	st := &simStore{w: w, data: map[string][]byte{}}
	key := []byte("state")
	open := func() *mtaAcc {
		a := &mtaAcc{bk: &simBucket{s: st}}
		if useExt {
			a.ext = mta.NewExtAccumulator(key, a.bk, offset)
			a.acc = &a.ext.Accumulator
		} else {
			a.acc = &mta.Accumulator{KeyForState: key, Bucket: a.bk}
		}
		return a
	}
	a := open()
	var leaves [][]byte    // what the process's accumulator holds
	var completed [][]byte // at the last completed flush
	var datas [][]byte
	dataOf := map[string][]byte{} // data of elements by hash
	maybe := [][][]byte{}         // states of flushes since then which did not complete
	readP := []int{0, 0, 100, 300}[c.N(4)]
	clean := func() { a.bk.failIn, a.bk.readP, a.bk.lastErr = 0, 0, false }

	checkWitness := func(what string, ws []mta.Witness, idx int, at [][]byte) {
		root, depth := mtaRootFor(at, idx)
		if depth < 0 {
			w.Fail("wit-range", "%s: a witness was given for element %d of %d", what, idx, len(at))
		}
		if len(ws) != depth {
			w.Fail("wit-depth", "%s: witness of element %d at length %d has %d entries, its tree has depth %d", what, idx, len(at), len(ws), depth)
		}
		if !bytes.Equal(foldWitness(ws, at[idx]), root) {
			w.Fail("wit-root", "%s: witness of element %d at length %d does not lead to the root of its tree", what, idx, len(at))
		}
		hs := mta.WitnessesToHashes(ws)
		ws2 := mta.HashesToWitness(hs, int64(idx))
		for i := range ws {
			if ws[i].Direction != ws2[i].Direction || !bytes.Equal(ws[i].HashValue, ws2[i].HashValue) {
				w.Fail("wit-conv", "%s: witness of element %d does not survive the conversion to hashes", what, idx)
			}
		}
	}
	wrongHash := func(h []byte) []byte {
		x := append([]byte{}, h...)
		x[c.N(len(x))] ^= byte(1 + c.N(255))
		return x
	}
	mangle := func(ws []mta.Witness) []mta.Witness {
		r := append([]mta.Witness{}, ws...)
		switch k := c.N(4); {
		case k == 0 && len(r) > 0:
			i := c.N(len(r))
			r[i] = mta.Witness{Direction: r[i].Direction, HashValue: wrongHash(r[i].HashValue)}
		case k == 1 && len(r) > 0:
			r = append([]mta.Witness{}, r[:len(r)-1-c.N(len(r))]...)
		case k == 2 && len(r) > 0:
			i := c.N(len(r))
			r[i] = mta.Witness{Direction: 1 - r[i].Direction, HashValue: r[i].HashValue}
		default:
			for n := 1 + c.N(3); n > 0; n-- {
				r = append(r, mta.Witness{Direction: mta.Direction(c.N(2)), HashValue: c.Bytes(32)})
			}
		}
		return r
	}
	// any witness that a verifier accepts for a hash must be a proof
	refuses := func(what string, v *mtaAcc, vl [][]byte, ws []mta.Witness, h []byte, accLen int64) {
		var err error
		w.guard(what, func() { err = v.acc.VerifyWithAccLength(ws, h, accLen) })
		if err != nil {
			return
		}
		for i := range vl {
			if bytes.Equal(vl[i], h) {
				return // it is an element after all
			}
		}
		w.Fail("forged", "%s: a hash which is no element of the accumulator (length %d) was accepted with a witness of %d entries for length %d", what, len(vl), len(ws), accLen)
	}
	verifier := func(l [][]byte) *mtaAcc {
		v := &mtaAcc{bk: &simBucket{s: &simStore{w: w, data: map[string][]byte{}}}}
		v.ext = mta.NewExtAccumulator(key, v.bk, offset)
		v.acc = &v.ext.Accumulator
		for _, h := range l {
			v.acc.AddHash(h)
		}
		return v
	}
	checkLen := func(what string) {
		if a.acc.Len() != int64(len(leaves)) {
			w.Fail("length", "%s: length is %d, expected %d", what, a.acc.Len(), len(leaves))
		}
		if useExt {
			if a.ext.Height() != int64(len(leaves))+offset {
				w.Fail("length", "%s: height is %d, expected %d", what, a.ext.Height(), int64(len(leaves))+offset)
			}
			if a.ext.Offset() != offset {
				w.Fail("length", "%s: offset is %d, expected %d", what, a.ext.Offset(), offset)
			}
		}
	}
	// rootsMatch compares every element through witnesses of a healthy store
	full := func(what string) {
		checkLen(what)
		clean()
		for i := range leaves {
			var ws []mta.Witness
			var err error
			w.guard("WitnessFor", func() { ws, err = a.acc.WitnessFor(int64(i)) })
			if err != nil {
				w.Fail("wit-err", "%s: no witness for element %d of %d: %v", what, i, len(leaves), err)
			}
			checkWitness(what, ws, i, leaves)
			if err := a.acc.Verify(ws, leaves[i]); err != nil {
				w.Fail("wit-refused", "%s: the witness of element %d of %d is refused: %v", what, i, len(leaves), err)
			}
		}
	}
	doRecover := func(allowed [][][]byte, what string) {
		w.nontrivial = true
		if !a.bk.dead && c.P(250) {
			w.Count("recover in place") // the same instance starts over
		} else {
			a = open()
		}
		a.bk.readP = readP
		for try := 0; ; try++ {
			if try == 3 {
				clean()
			}
			var err error
			a.bk.lastErr = false
			w.guard("Recover", func() { err = a.recover() })
			if err == nil {
				if a.bk.lastErr {
					w.Fail("read-hidden", "Recover succeeded although the bucket could not be read")
				}
				break
			}
			if !a.bk.lastErr {
				w.Fail("recover", "%s: Recover fails: %v", what, err)
			}
		}
		clean()
		n := a.acc.Len()
		var errs []string
		for _, l := range allowed {
			if int64(len(l)) != n {
				continue
			}
			ok := true
			for i := range l {
				ws, err := a.acc.WitnessFor(int64(i))
				if err != nil {
					errs = append(errs, fmt.Sprintf("element %d: %v", i, err))
					ok = false
					break
				}
				root, d := mtaRootFor(l, i)
				if len(ws) != d || !bytes.Equal(foldWitness(ws, l[i]), root) || a.acc.Verify(ws, l[i]) != nil {
					errs = append(errs, fmt.Sprintf("element %d is not proved", i))
					ok = false
					break
				}
			}
			if ok {
				leaves, completed = cloneLeaves(l), cloneLeaves(l)
				maybe = nil
				for i, h := range l {
					if d, ok := dataOf[string(h)]; ok && !bytes.Equal(d, st.data[string(h)]) {
						w.Fail("data", "%s: the data of element %d of %d is not in the bucket", what, i, len(l))
					}
				}
				checkLen(what)
				w.Tracef("recovered %d", n)
				return
			}
		}
		var ls []int
		for _, l := range allowed {
			ls = append(ls, len(l))
		}
		w.Fail("recovered", "%s: recovered a state of length %d, expected one of %v (%v)", what, n, ls, errs)
	}

	steps := c.Range(5, []int{30, 60, 120}[c.N(3)])
	maxLeaves := []int{9, 40, 130}[c.N(3)]
	for s := 0; s < steps; s++ {
		clean()
		w.State("%d %d %d %v", len(leaves), len(completed), len(maybe), useExt)
		switch c.Pick(8, 2, 5, 2, 6, 3, 3, 2) {
		case 0, 1: // add
			n := 1 + c.N([]int{1, 4, 17}[c.N(3)])
			for i := 0; i < n && len(leaves) < maxLeaves; i++ {
				var h []byte
				var ws []mta.Witness
				switch c.N(5) {
				case 0:
					h = c.Bytes(32)
					hh := append([]byte{}, h...)
					w.guard("AddHash", func() { ws = a.addHash(hh) })
				default:
					d := c.Bytes(c.N(70))
					if len(datas) > 0 && c.P(100) {
						d = datas[c.N(len(datas))] // the same data again
					}
					datas = append(datas, d)
					h = sha3256(d)
					dataOf[string(h)] = d
					w.guard("AddData", func() { ws = a.addData(append([]byte{}, d...)) })
				}
				leaves = append(leaves, h)
				checkLen("after an addition")
				checkWitness("addition", ws, len(leaves)-1, leaves)
				if err := a.acc.Verify(ws, h); err != nil {
					w.Fail("wit-refused", "the witness returned by the addition of element %d is refused: %v", len(leaves)-1, err)
				}
			}
			w.Tracef("add -> %d", len(leaves))
		case 2: // flush
			if c.P(600) {
				a.bk.failIn = 1 + c.N([]int{1, 6, 40}[c.N(3)])
				a.bk.failHow = c.N(4)
			}
			a.bk.applied = nil
			var err error
			crashed := w.guard("Flush", func() { err = a.flush() })
			switch {
			case crashed:
				w.Tracef("flush of %d: crash", len(leaves))
				w.Count("crash in flush")
				allowed := [][][]byte{completed}
				allowed = append(allowed, maybe...)
				if a.bk.applied["state"] > 0 {
					allowed = [][][]byte{leaves}
				}
				doRecover(allowed, "after a crash in a flush")
			case err != nil:
				w.Tracef("flush of %d: error", len(leaves))
				if !a.bk.lastErr {
					w.Fail("flush", "Flush fails although every write succeeded: %v", err)
				}
				if a.bk.applied["state"] > 0 {
					completed, maybe = cloneLeaves(leaves), nil
				}
				w.Count("failed flush")
				checkLen("after a failed flush")
				if c.P(500) {
					// once the disk works again the same flush goes through
					clean()
					w.guard("Flush", func() { err = a.flush() })
					if err != nil {
						w.Fail("flush-retry", "a flush repeated after a failed one fails: %v", err)
					}
					completed, maybe = cloneLeaves(leaves), nil
					w.Count("retried flush")
				}
			default:
				if a.bk.lastErr {
					w.Fail("flush-hidden", "Flush succeeded although a write failed")
				}
				completed, maybe = cloneLeaves(leaves), nil
				w.Tracef("flush of %d: ok", len(leaves))
				w.Count("flush")
			}
		case 3: // kill and recover
			w.Fault("kill")
			doRecover(append([][][]byte{completed}, maybe...), "after a kill")
		case 4: // witness
			if len(leaves) == 0 {
				continue
			}
			i := c.N(len(leaves))
			a.bk.readP = readP
			var ws []mta.Witness
			var err error
			w.guard("WitnessFor", func() { ws, err = a.acc.WitnessFor(int64(i)) })
			if err != nil {
				if !a.bk.lastErr {
					w.Fail("wit-err", "no witness for element %d of %d: %v", i, len(leaves), err)
				}
				w.Count("witness after a read error")
				clean()
				w.guard("WitnessFor", func() { ws, err = a.acc.WitnessFor(int64(i)) })
				if err != nil {
					w.Fail("wit-err", "no witness for element %d of %d after a read error went away: %v", i, len(leaves), err)
				}
			}
			clean()
			w.Count("witness")
			checkWitness("WitnessFor", ws, i, leaves)
			if err := a.acc.Verify(ws, leaves[i]); err != nil {
				w.Fail("wit-refused", "the witness of element %d of %d is refused: %v", i, len(leaves), err)
			}
			bad := wrongHash(leaves[i])
			if a.acc.Verify(ws, bad) == nil {
				w.Fail("forged", "a wrong element is accepted with the witness of element %d of %d", i, len(leaves))
			}
			refuses("WitnessFor", a, leaves, ws, bad, int64(len(leaves)))
			refuses("mangled", a, leaves, mangle(ws), bad, int64(c.Range(0, len(leaves)+3)))
			mw := mangle(ws)
			w.guard("Verify", func() { _ = a.acc.Verify(mw, leaves[i]) })
			refuses("mangled", a, leaves, mw, leaves[i], int64(c.Range(-1, len(leaves)+3)))
			var n mta.Node
			if w.guard("GetNode", func() {
				if useExt {
					n, err = a.ext.GetNode(int64(i) + 1 + offset)
				} else {
					n, err = a.acc.GetNode(int64(i))
				}
			}); err != nil || !bytes.Equal(n.Hash(), leaves[i]) {
				w.Fail("node", "GetNode(%d) of %d gives not that element: %v", i, len(leaves), err)
			}
		case 5: // witnesses across lengths
			if len(leaves) == 0 {
				continue
			}
			L := c.Range(1, len(leaves)) // length the witness is for
			i := c.N(L)
			var ws []mta.Witness
			var err error
			if useExt && c.P(600) {
				at := int64(L) + offset
				ask := at
				if L == len(leaves) {
					ask += int64(c.N(5)) // beyond the end: as of the end
				}
				var rat int64
				w.guard("WitnessForAt", func() { rat, ws, err = a.ext.WitnessForAt(int64(i)+1+offset, ask, offset) })
				if err != nil {
					w.Fail("wit-at", "no witness for height %d at %d (offset %d): %v", int64(i)+1+offset, ask, offset, err)
				}
				if rat != at {
					w.Fail("wit-at", "witness for height %d at %d is said to be at %d", int64(i)+1+offset, ask, rat)
				}
				if err := a.ext.VerifyAt(ws, leaves[i], at, offset); err != nil {
					w.Fail("wit-at", "witness for height %d at %d is refused: %v", int64(i)+1+offset, at, err)
				}
				for _, o := range []int64{offset - 1, offset + 1} {
					if _, _, err := a.ext.WitnessForAt(int64(i)+1+offset, ask, o); err == nil {
						w.Fail("wit-offset", "a witness for offset %d is given by an accumulator with offset %d", o, offset)
					}
					if a.ext.VerifyAt(ws, leaves[i], at, o) == nil {
						w.Fail("wit-offset", "a witness for offset %d is accepted by an accumulator with offset %d", o, offset)
					}
				}
			} else {
				w.guard("WitnessForWithAccLength", func() { ws, err = a.acc.WitnessForWithAccLength(int64(i), int64(L)) })
				if err != nil {
					w.Fail("wit-at", "no witness for element %d at length %d: %v", i, L, err)
				}
			}
			w.Count("witness for an earlier length")
			checkWitness("for an earlier length", ws, i, leaves[:L])
			if err := a.acc.VerifyWithAccLength(ws, leaves[i], int64(L)); err != nil {
				w.Fail("wit-old", "a witness of element %d for length %d is refused at length %d: %v", i, L, len(leaves), err)
			}
			refuses("old witness", a, leaves, ws, wrongHash(leaves[i]), int64(L))
			// a verifier with less or more elements
			M := c.Range(1, len(leaves))
			v := verifier(leaves[:M])
			var verr error
			w.guard("VerifyWithAccLength", func() { verr = v.acc.VerifyWithAccLength(ws, leaves[i], int64(L)) })
			if i < M && verr != nil {
				w.Fail("wit-cross", "a witness of element %d for length %d is refused by an accumulator of length %d: %v", i, L, M, verr)
			}
			if i >= M && verr == nil {
				in := false
				for _, h := range leaves[:M] {
					in = in || bytes.Equal(h, leaves[i])
				}
				if !in {
					w.Fail("wit-cross", "element %d is accepted by an accumulator of length %d (witness for length %d)", i, M, L)
				}
			}
			refuses("verifier", v, leaves[:M], mangle(ws), leaves[i], int64(c.Range(-1, len(leaves)+2)))
			refuses("verifier", v, leaves[:M], ws, wrongHash(leaves[i]), int64(L))
		case 6: // outside
			bad := []int64{-1, -5, int64(len(leaves)), int64(len(leaves) + 1 + c.N(100))}[c.N(4)]
			var err error
			w.guard("WitnessFor", func() { _, err = a.acc.WitnessFor(bad) })
			if err == nil {
				w.Fail("outside", "a witness is given for element %d of %d", bad, len(leaves))
			}
			w.guard("GetNode", func() { _, err = a.acc.GetNode(bad) })
			if err == nil {
				w.Fail("outside", "a node is given for element %d of %d", bad, len(leaves))
			}
			if len(leaves) > 1 {
				L := c.Range(1, len(leaves)-1)
				i := c.Range(L, len(leaves)-1)
				w.guard("WitnessForWithAccLength", func() { _, err = a.acc.WitnessForWithAccLength(int64(i), int64(L)) })
				if err == nil {
					w.Fail("outside", "a witness for length %d is given for element %d", L, i)
				}
				if useExt {
					w.guard("WitnessForAt", func() { _, _, err = a.ext.WitnessForAt(int64(i)+1+offset, int64(L)+offset, offset) })
					if err == nil {
						w.Fail("outside", "a witness at height %d is given for height %d", int64(L)+offset, int64(i)+1+offset)
					}
				}
			}
			if len(leaves) > 0 {
				i, L := c.N(len(leaves)), len(leaves)+1+c.N(20)
				w.guard("WitnessForWithAccLength", func() { _, err = a.acc.WitnessForWithAccLength(int64(i), int64(L)) })
				if err == nil {
					w.Fail("outside", "a witness for length %d is given by an accumulator of length %d", L, len(leaves))
				}
			}
		case 7:
			full("full check")
			w.Count("full check")
		}
		w.steps++
	}
	full("at the end")
	var err error
	w.guard("Flush", func() { err = a.flush() })
	if err != nil {
		w.Fail("flush-retry", "the last flush fails: %v", err)
	}
	completed = cloneLeaves(leaves)
	doRecover([][][]byte{completed}, "at the end")
	full("recovered at the end")
}
