package sim

import _ "unsafe"

// verifSetSeed seeds, in the overlaid runtime, select order, map iteration
// order and the global math/rand for goroutines of the current run.
//
//go:linkname verifSetSeed runtime.verifSetSeed
func verifSetSeed(x uint64)

//go:linkname verifPanic runtime.verifPanic
var verifPanic func(any) bool

//go:linkname verifLabel runtime.verifLabel
func verifLabel() uintptr

// verifSetYield makes the caller the scheduler of a run; every nth
// synchronization point of the other goroutines yields (0: none).
//
//go:linkname verifSetYield runtime.verifSetYield
func verifSetYield(n uint64)

// verifSetStmt: every nth statement of the program under test yields (0: none).
//
//go:linkname verifSetStmt runtime.verifSetStmt
func verifSetStmt(n uint64)

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b+0x632BE59BD9B4E019)*0xBF58476D1CE4E5B9
	x ^= x >> 30
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	if x == 0 {
		x = 1
	}
	return x
}
