package main

import "fmt"

var dbgIt = 0

func dbgMem(c *Clauser, x, it *Term, w *work) {
	if dbgIt > 0 && it.I == dbgIt {
		fmt.Println("MEM", it.I, trunc(c.s.str(x), 300))
		c.s.contains(c.s.Bool(w.f), func(t *Term) bool {
			if t.K == KMV && len(t.A) > 0 {
				fmt.Println("   arg", trunc(c.s.str(t), 300))
			}
			return false
		})
	}
}
