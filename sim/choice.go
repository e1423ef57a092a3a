package sim

import "math/rand"

// Chooser is the single source of every decision of a run. A run is a
// function of the sequence of values it returns: seeded, it draws them from a
// PRNG and records them; replaying, it reads them back (and yields 0, the
// benign default, past the end), which is what makes a recorded list both a
// replay file and something that can be minimised.
type Chooser struct {
	rng    *rand.Rand
	rec    []uint32
	replay []uint32
	pos    int
}

func NewSeeded(seed int64) *Chooser { return &Chooser{rng: rand.New(rand.NewSource(seed))} }

func NewReplay(v []uint32) *Chooser { return &Chooser{replay: v} }

// N returns a value in [0,n).
func (c *Chooser) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if c.rng != nil {
		v = uint32(c.rng.Intn(n))
	} else if c.pos < len(c.replay) {
		v = c.replay[c.pos] % uint32(n)
	}
	c.pos++
	c.rec = append(c.rec, v)
	return int(v)
}

// Range returns a value in [lo,hi].
func (c *Chooser) Range(lo, hi int) int { return lo + c.N(hi-lo+1) }

// P is true with probability permille/1000; the default is false.
func (c *Chooser) P(permille int) bool {
	if permille <= 0 {
		return false
	}
	return c.N(1000) >= 1000-permille
}

// Pick returns an index according to weights; index 0 is the default.
func (c *Chooser) Pick(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := c.N(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

func (c *Chooser) Bytes(n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	// one choice decides the whole content, so that big payloads stay cheap
	s := uint64(c.N(1<<30)) + 1
	for i := range b {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		b[i] = byte(s)
	}
	return b
}

func (c *Chooser) Recorded() []uint32 { return c.rec }
