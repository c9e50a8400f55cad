package main

import (
	"fmt"
	"os"
)

func dbgEff(fn string) {
	w, _ := loadWorld(repoDir(), "/verif/spec", "permission", "trie", "utils", "ds", "v1", "v2")
	in := NewInterp(w)
	in.epochs = true
	in.structs = structTypes(w)
	r := in.Run(w.fn(fn))
	for _, e := range in.effects {
		fmt.Print("EFF ", e.Kind, " ", e.Name, " [", trunc(in.bdd.str(e.G, 2), 300), "] ", len(e.Epochs), " ", w.pos(e.Pos), " ")
		for _, t := range e.T {
			fmt.Print(" ", trunc(in.str(t), 90))
		}
		fmt.Print("  LOCKS")
		for k, v := range e.Locks {
			fmt.Print(" ", trunc(in.str(k), 60), "=", trunc(in.str(v), 80))
		}
		fmt.Println()
	}
	for k, v := range r.st.mem {
		if k.K == KApp && k.S == "lock" {
			fmt.Println("FINAL", in.str(k), trunc(in.str(v), 100))
		}
	}
}

func repoDir() string {
	if r := os.Getenv("REPO"); r != "" {
		return r
	}
	return "/repo"
}
