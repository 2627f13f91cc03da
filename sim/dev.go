package main

import (
	"fmt"
	"os"
)

func init() {
	if os.Getenv("VERIF_GROWTH") != "" {
		growthLog = func(c *Case, size [2]int, steps, allocs [2]uint64) {
			fmt.Fprintf(os.Stderr, "G %s B=%d n=%d dmg=%v size %v steps %v %.2f allocs %v %.2f\n", c.P, c.B, c.A, len(c.Dmg), size, steps, float64(steps[1])/float64(steps[0]), allocs, float64(allocs[1])/float64(allocs[0]))
		}
	}
}
