package sim

func init() {
	register("C01", func(w *World) {
		runRelay(w, relayOpts{pair: pickPair(w, "icon-icon", "icon-eth"), mode: "btp", dir: "front", large: "sometimes"})
	})
	register("C02", func(w *World) {
		runRelay(w, relayOpts{pair: pickPair(w, "icon-icon", "icon-eth"), mode: "bridge", dir: "front", large: "sometimes"})
	})
	register("C03", func(w *World) {
		runRelay(w, relayOpts{pair: pickPair(w, "eth-icon", "eth-eth"), dir: "front", large: "sometimes"})
	})
	register("C04", func(w *World) { runRelay(w, relayOpts{}) })
	register("C07", func(w *World) {
		runRelay(w, relayOpts{pair: pickPair(w, "icon-icon", "eth-icon"), dir: "front", large: "always"})
	})
	register("C17", func(w *World) { runRelay(w, relayOpts{compete: true}) })
}

func pickPair(w *World, p ...string) string { return p[w.C.N(len(p))] }
