package main

import (
	"fmt"
	"strings"
)

func dbgDump(c *Clauser, f Node, tag string) {
	b := c.s.bdd
	fmt.Println("--", tag)
	for _, a := range b.Support(f) {
		fmt.Printf("  %v/%v %s\n", b.Cofactor(f, a, false) == bddFalse, b.Cofactor(f, a, true) == bddFalse, trunc(c.s.str(a), 200))
	}
}

func dbgDep(c *Clauser, f Node) {
	b := c.s.bdd
	for _, a := range b.Support(f) {
		if strings.HasPrefix(c.s.str(a), "mem(mv2<out:93>[it3].Namespaces") {
			f1, f0 := b.Cofactor(f, a, true), b.Cofactor(f, a, false)
			fmt.Println("dep", f1 == f0, b.And(f1, b.Not(f0)) == bddFalse, b.And(f0, b.Not(f1)) == bddFalse)
			for i, cu := range c.cubes(b.And(f1, b.Not(f0))) {
				if i < 2 {
					for _, l := range cu {
						fmt.Println("    ", trunc(c.litStr(l), 120))
					}
				}
			}
			fmt.Println("   ---- f0")
			for i, cu := range c.cubes(b.And(f0, b.Not(f1))) {
				if i < 2 {
					for _, l := range cu {
						fmt.Println("    ", trunc(c.litStr(l), 120))
					}
				}
			}
		}
	}
}
