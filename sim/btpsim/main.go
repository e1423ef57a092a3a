// Command btpsim runs simulated executions of icon-project/btp.
package main

import (
	"fmt"
	"os"

	"btpsim"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: btpsim check|replay|one|worker ...")
		os.Exit(2)
	}
	os.Exit(sim.Main(os.Args[1:]))
}
