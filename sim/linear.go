package sim

import "sort"

// linOp is one operation of a concurrent history: it took effect at one
// instant between inv and ret, or perhaps not at all.
type linOp struct {
	inv, ret int
	maybe    bool // need not have taken effect
	what     interface{}
}

const linNever = 1 << 60

// linearize searches for an order of the operations that respects their
// intervals and in which each is a legal step of the model. States are
// encoded as strings; step tells whether op can happen in state s, and what
// follows.
func linearize(ops []*linOp, init string, step func(s string, op *linOp) (string, bool)) bool {
	ops = append([]*linOp{}, ops...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	n := len(ops)
	done := make([]byte, (n+7)/8)
	seen := map[string]bool{}
	left := 0
	for _, o := range ops {
		if !o.maybe {
			left++
		}
	}
	var rec func(from int, s string, left int) bool
	rec = func(from int, s string, left int) bool {
		if left == 0 {
			return true
		}
		for from < n && done[from/8]&(1<<(from%8)) != 0 {
			from++
		}
		k := string(done) + s
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := linNever
		for i := from; i < n && ops[i].inv < minRet; i++ {
			if done[i/8]&(1<<(i%8)) == 0 && ops[i].ret < minRet && !ops[i].maybe {
				minRet = ops[i].ret
			}
		}
		for i := from; i < n && ops[i].inv < minRet; i++ {
			if done[i/8]&(1<<(i%8)) != 0 {
				continue
			}
			// an optional operation whose time is over can no longer happen
			if ops[i].maybe && ops[i].ret < linNever {
				late := false
				for j := 0; j < n && !late; j++ {
					late = done[j/8]&(1<<(j%8)) != 0 && ops[j].inv > ops[i].ret
				}
				if late {
					continue
				}
			}
			ns, ok := step(s, ops[i])
			if !ok {
				continue
			}
			done[i/8] |= 1 << (i % 8)
			l := left
			if !ops[i].maybe {
				l--
			}
			if rec(from, ns, l) {
				return true
			}
			done[i/8] &^= 1 << (i % 8)
		}
		return false
	}
	return rec(0, init, left)
}
