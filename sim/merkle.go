package sim

import (
	"bytes"
	"fmt"

	"golang.org/x/crypto/sha3"
)

func keccak(bs ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, b := range bs {
		h.Write(b)
	}
	return h.Sum(nil)
}

func sha3256(b []byte) []byte {
	h := sha3.Sum256(b)
	return h[:]
}

// mtRoot is the root of the merkle binary tree over leaf hashes: split at the
// largest power of two below the length.
func mtRoot(hs [][]byte) []byte {
	switch len(hs) {
	case 0:
		return nil
	case 1:
		return hs[0]
	}
	k := 1
	for k*2 < len(hs) {
		k *= 2
	}
	return keccak(mtRoot(hs[:k]), mtRoot(hs[k:]))
}

func leafHashes(msgs [][]byte) [][]byte {
	r := make([][]byte, len(msgs))
	for i, m := range msgs {
		r[i] = keccak(m)
	}
	return r
}

// checkMsgProof verifies an encoded message proof [left, messages, right]
// against the block's true messages: every proof node must be the hash of the
// subtree it claims to stand for. It returns offset and the proven messages.
func checkMsgProof(it item, leaves [][]byte) (offset int, msgs [][]byte, total int, err error) {
	if !it.list || len(it.l) != 3 {
		return 0, nil, 0, fmt.Errorf("malformed proof")
	}
	pos := 0
	node := func(x item) error {
		if !x.list || len(x.l) != 2 {
			return fmt.Errorf("malformed proof node")
		}
		n := int(x.l[0].int())
		if n < 1 || pos+n > len(leaves) {
			return fmt.Errorf("proof node covers %d leaves at %d of %d", n, pos, len(leaves))
		}
		if !bytes.Equal(mtRoot(leaves[pos:pos+n]), x.l[1].b) {
			return fmt.Errorf("proof node mismatch at %d+%d", pos, n)
		}
		if !isSubtree(len(leaves), pos, n) {
			return fmt.Errorf("proof node %d+%d is not a subtree", pos, n)
		}
		pos += n
		return nil
	}
	for _, x := range it.l[0].l {
		if err = node(x); err != nil {
			return
		}
	}
	offset = pos
	for _, x := range it.l[1].l {
		if pos >= len(leaves) || !bytes.Equal(leaves[pos], keccak(x.b)) {
			return 0, nil, 0, fmt.Errorf("message %d is not the block's", pos)
		}
		msgs = append(msgs, x.b)
		pos++
	}
	for _, x := range it.l[2].l {
		if err = node(x); err != nil {
			return
		}
	}
	return offset, msgs, pos, nil
}

// isSubtree tells whether [pos,pos+n) is a node of the tree over total leaves.
func isSubtree(total, pos, n int) bool {
	lo, sz := 0, total
	for {
		if pos == lo && n == sz {
			return true
		}
		if sz < 2 {
			return false
		}
		k := 1
		for k*2 < sz {
			k *= 2
		}
		if pos < lo+k {
			sz = k
		} else {
			lo, sz = lo+k, sz-k
		}
	}
}
