package sim

import "bytes"

// flow is one direction of a link: what the source sent, what the destination
// accepted. It is the oracle of the delivery properties: the accepted
// messages are always an exact prefix of those sent.
type flow struct {
	w        *World
	srcAddr  string // BTP address of the source's BMC
	dstAddr  string
	base     int64 // sequence number before sent[0]
	sent     [][]byte
	rx       int64
	ver      Verifier
	frags    map[string]*fragState
	accepts  int // relay messages accepted
	rejects  map[int]int
	strict   bool // no submission may be refused
	relays   map[string]bool
	lastOver int64
}

type fragState struct {
	last, next int64
	parts      [][]byte
}

func newFlow(w *World, src, dst string) *flow {
	return &flow{w: w, srcAddr: src, dstAddr: dst, frags: map[string]*fragState{}, rejects: map[int]int{}, relays: map[string]bool{}}
}

func (f *flow) lastSent() int64 { return f.base + int64(len(f.sent)) }
func (f *flow) done() bool      { return f.rx == f.lastSent() }

func (f *flow) reject(r *revert, what string) *revert {
	f.rejects[r.code]++
	f.w.Tracef("  %s refused: %d %s", what, r.code, r.msg)
	f.w.Count("refused")
	if f.strict {
		f.w.Fail("refused", "without any fault, the destination refused a %s with %d %s (rx=%d of %d)", what, r.code, r.msg, f.rx, f.lastSent())
	}
	return r
}

// relay is BMC.handleRelayMessage on the destination.
func (f *flow) relay(from string, msg []byte, dry bool) *revert {
	if !f.relays[from] {
		return rv(11, "not registered relay %s", from)
	}
	if dry {
		_, r := f.ver.Clone().Handle(msg, f.rx)
		return r
	}
	was := f.ver.Height()
	out, r := f.ver.Handle(msg, f.rx)
	if r != nil {
		return f.reject(r, "relay message")
	}
	f.accepts++
	for _, m := range out {
		i := f.rx - f.base
		if i < 0 || i >= int64(len(f.sent)) {
			f.w.Fail("invented", "destination accepted a message after sequence %d, but the source sent only up to %d", f.rx, f.lastSent())
		}
		if !bytes.Equal(m, f.sent[i]) {
			f.w.Fail("altered", "destination accepted as sequence %d a message (%d bytes) that is not the one the source sent (%d bytes)", f.rx+1, len(m), len(f.sent[i]))
		}
		f.rx++
		f.w.nontrivial = true
	}
	f.w.Tracef("  accepted %d messages, rx=%d height=%d", len(out), f.rx, f.ver.Height())
	f.w.Counts["delivered"] += len(out)
	if len(out) == 0 && f.ver.Height() == was {
		f.w.Count("noop-submission")
	}
	return nil
}

// fragment is BMC.handleFragment on the destination.
func (f *flow) fragment(from string, msg []byte, idx int64) *revert {
	if !f.relays[from] {
		return rv(11, "not registered relay %s", from)
	}
	f.w.Count("fragment")
	st := f.frags[from]
	if idx < 0 {
		f.frags[from] = &fragState{last: -idx, next: -idx - 1, parts: [][]byte{msg}}
		return nil
	}
	if st == nil || st.next != idx {
		return f.reject(rv(codeBMC, "invalid _idx %d", idx), "fragment")
	}
	if idx > 0 {
		st.parts = append(st.parts[:st.last-idx:st.last-idx], msg)
		st.next = idx - 1
		return nil
	}
	// the contract leaves its record as it is, before and after this
	all := append(bytes.Join(st.parts[:st.last], nil), msg...)
	if r := f.relay(from, all, false); r != nil {
		return r
	}
	f.w.Count("reassembled")
	return nil
}
