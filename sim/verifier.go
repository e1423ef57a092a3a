package sim

import (
	"bytes"
	"fmt"
)

// Revert codes of the destination contracts.
const (
	codeBMC          = 10
	codeUnknown      = 25
	codeNotVerify    = 26
	codeAlreadyDone  = 27
	codeInvalidOldMT = 28
)

type revert struct {
	code int
	msg  string
}

func (r *revert) Error() string { return fmt.Sprintf("revert %d: %s", r.code, r.msg) }

func rv(code int, f string, a ...interface{}) *revert {
	return &revert{code, fmt.Sprintf(f, a...)}
}

// Verifier models the message verifier of a link on the destination.
type Verifier interface {
	// Handle processes a relay message; on revert nothing changes.
	Handle(msg []byte, rxSeq int64) ([][]byte, *revert)
	Height() int64
	Extra() []byte
	Clone() Verifier
}

// ---- BTP block verifier

type btpBlock struct {
	height  int64
	firstSN int64
	ctx     bool // proof context changed
	msgs    [][]byte
	leaves  [][]byte
	header  []byte
	proof   []byte
	nsHash  []byte
	prev    []byte
}

func (b *btpBlock) updateNumber() int64 {
	u := b.firstSN << 1
	if b.ctx {
		u |= 1
	}
	return u
}

type btpBlockVerifier struct {
	net     *iconNet // the truth about the source
	cur     *btpBlock
	lastSeq int64
}

func (v *btpBlockVerifier) Clone() Verifier { c := *v; return &c }
func (v *bridgeVerifier) Clone() Verifier   { c := *v; return &c }

func (v *btpBlockVerifier) Height() int64 { return v.cur.height }
func (v *btpBlockVerifier) Extra() []byte {
	return enc([]interface{}{int64(0), v.cur.firstSN, int64(len(v.cur.msgs))})
}

func (v *btpBlockVerifier) Handle(msg []byte, rxSeq int64) ([][]byte, *revert) {
	cur, lastSeq := v.cur, v.lastSeq
	if lastSeq != rxSeq {
		return nil, rv(codeUnknown, "invalid sequence")
	}
	it, err := dec(msg)
	if err != nil || !it.list || len(it.l) != 1 || !it.l[0].list {
		return nil, rv(codeUnknown, "malformed relay message: %v", err)
	}
	var out [][]byte
	bu := false
	for _, tp := range it.l[0].l {
		if !tp.list || len(tp.l) != 2 {
			return nil, rv(codeUnknown, "malformed prefixed message")
		}
		p, err := dec(tp.l[1].b)
		if err != nil {
			return nil, rv(codeUnknown, "malformed payload: %v", err)
		}
		switch tp.l[0].int() {
		case 1:
			if !p.list || len(p.l) != 2 {
				return nil, rv(codeUnknown, "malformed block update")
			}
			hd, err := dec(p.l[0].b)
			if err != nil || len(hd.l) != 10 {
				return nil, rv(codeUnknown, "malformed header")
			}
			bu = true
			first := hd.l[5].int() >> 1
			sn := cur.firstSN + int64(len(cur.msgs))
			if sn > first {
				return nil, rv(codeAlreadyDone, "already verified")
			}
			if sn < first {
				return nil, rv(codeNotVerify, "not verifiable blockUpdate")
			}
			if lastSeq-cur.firstSN != int64(len(cur.msgs)) {
				return nil, rv(codeUnknown, "remain must be zero")
			}
			if !bytes.Equal(cur.nsHash, hd.l[6].b) {
				return nil, rv(codeUnknown, "mismatch networkSectionHash")
			}
			b := v.net.at(hd.l[0].int())
			if b == nil || !bytes.Equal(b.header, p.l[0].b) {
				return nil, rv(codeUnknown, "not a header of the source")
			}
			if !bytes.Equal(b.proof, p.l[1].b) {
				return nil, rv(codeUnknown, "invalid block proof")
			}
			cur = b
		case 2:
			if lastSeq-cur.firstSN >= int64(len(cur.msgs)) {
				return nil, rv(codeUnknown, "remaining message count must greater than zero")
			}
			off, ms, total, err := checkMsgProof(p, cur.leaves)
			if err != nil {
				return nil, rv(codeUnknown, "message proof: %v", err)
			}
			if int64(off) != lastSeq-cur.firstSN {
				return nil, rv(codeUnknown, "invalid ProofInLeft.NumberOfLeaf")
			}
			if bu && off > 0 {
				return nil, rv(codeUnknown, "ProofInLeft should be empty")
			}
			if total != len(cur.msgs) {
				return nil, rv(codeUnknown, "mismatch MessageCount")
			}
			out = append(out, ms...)
			lastSeq += int64(len(ms))
		default:
			return nil, rv(codeUnknown, "unknown type")
		}
	}
	v.cur, v.lastSeq = cur, lastSeq
	return out, nil
}

// ---- bridge verifier

type bridgeVerifier struct {
	height int64
	dst    string
}

func (v *bridgeVerifier) Height() int64 { return v.height }
func (v *bridgeVerifier) Extra() []byte { return nil }

func (v *bridgeVerifier) Handle(msg []byte, rxSeq int64) ([][]byte, *revert) {
	it, err := dec(msg)
	if err != nil || !it.list || len(it.l) != 1 || !it.l[0].list {
		return nil, rv(codeUnknown, "malformed relay message: %v", err)
	}
	height := v.height
	next := rxSeq + 1
	var out [][]byte
	for _, rb := range it.l[0].l {
		r, err := dec(rb.b)
		if err != nil || !r.list || len(r.l) != 3 {
			return nil, rv(codeUnknown, "malformed receipt: %v", err)
		}
		h := r.l[2].int()
		if h < height {
			continue
		}
		height = h
		evs, err := dec(r.l[1].b)
		if err != nil || !evs.list {
			return nil, rv(codeUnknown, "malformed events: %v", err)
		}
		for _, e := range evs.l {
			if !e.list || len(e.l) != 3 {
				return nil, rv(codeUnknown, "malformed event")
			}
			seq := e.l[1].int()
			if seq < next {
				continue
			}
			if seq > next {
				return nil, rv(codeNotVerify, "invalid sequence %d, expected %d", seq, next)
			}
			if string(e.l[0].b) != v.dst {
				continue
			}
			out = append(out, e.l[2].b)
			next++
		}
	}
	v.height = height
	return out, nil
}
