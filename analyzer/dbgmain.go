package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

func setRegistries(pkg string) {
	switch pkg {
	case "v2":
		registries = map[string]string{"tenants": "ID", "ChildTenants": "ID", "roles": "Name", "Namespaces": "ID", "Scopes": "ID"}
	case "permission", "v1":
		registries = map[string]string{"tenants": "id", "descendants": "id", "roles": "id", "namespaces": "id", "scopes": "id", "principals": "id"}
	default:
		registries = map[string]string{}
	}
}

func dbgMain() {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("STACK") != "" {
				panic(r)
			}
			fmt.Println("PANIC", r)
			os.Exit(3)
		}
	}()
	if os.Args[1] == "eff" {
		dbgEff(os.Args[2])
		return
	}
	if os.Getenv("DBGIT") != "" {
		fmt.Sscan(os.Getenv("DBGIT"), &dbgIt)
	}
	if pf := os.Getenv("PROF"); pf != "" {
		fh, _ := os.Create(pf)
		pprof.StartCPUProfile(fh)
		go func() { time.Sleep(20 * time.Second); pprof.StopCPUProfile(); os.Exit(3) }()
	}
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	w, err := loadWorld(repo, "/verif/spec", "permission", "trie", "utils", "ds", "v1", "v2")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	pkg := strings.SplitN(os.Args[1], ".", 2)[0]
	if os.Args[1] == "cmp" || os.Args[1] == "rel" {
		pkg = strings.SplitN(os.Args[2], ".", 2)[0]
	}
	setRegistries(pkg)
	in := NewInterp(w)
	in.memo = w.auxTables(pkg)
	if os.Getenv("FILLED") != "" {
		in.memo = w.unfilled(in.memo, os.Getenv("FILLED"))
	}
	in.cut["github.com/oarkflow/permission/utils.MatchResource"] = true
	in.useLedger(pkg)
	in.cleanPools = pkg == "v1"
	if os.Args[1] == "cmp" {
		cmp(in, w, os.Args[2], os.Args[3], len(os.Args) > 4)
		return
	}
	if os.Args[1] == "rel" {
		r := in.Run(w.fn(os.Args[2]))
		c := NewClauser(in)
		for _, cl := range c.relation(r, 0) {
			fmt.Println("REL", c.str(cl))
		}
		return
	}
	r := in.Run(w.fn(os.Args[1]))
	if len(os.Args) > 2 {
		dbg(in, r)
		return
	}
	fmt.Println("RET", in.str(r.ret))
	in.dumpRegions()
	for _, e := range in.effects {
		switch e.Kind {
		case "store", "insert", "delete", "clear", "log", "panic", "call":
			fmt.Printf("EFF %s %s [%s] %s ", e.Kind, e.Name, in.bdd.str(e.G, 2), w.pos(e.Pos))
			for _, t := range e.T {
				fmt.Print(" ", in.str(t))
			}
			fmt.Println()
		}
	}
	for n := range in.notes {
		fmt.Println("NOTE", n)
	}
}

func cmp(in *Interp, w *World, code, spec string, trace bool) {
	if v := os.Getenv("CAP"); v != "" {
		fmt.Sscan(v, &capClauses)
	}
	defer func() { fmt.Println("count", dbgCount) }()
	in.side = 0
	rc := in.Run(w.fn(code))
	in.side = 1
	rs := in.Run(w.fn(spec))
	in.side = 0
	c := NewClauser(in)
	cc := c.Expand(in.asBDD(rc.ret))
	c.side = 1
	sc := c.Expand(in.asBDD(rs.ret))
	c.side = 0
	fmt.Println(len(cc), "code clauses", len(sc), "spec clauses")
	size := func(f Node) int {
		seen := map[Node]bool{}
		var r func(Node)
		r = func(n Node) {
			if n > 1 && !seen[n] {
				seen[n] = true
				r(in.bdd.nodes[n].lo)
				r(in.bdd.nodes[n].hi)
			}
		}
		r(f)
		return len(seen)
	}
	for _, cs := range [][]*Clause{cc, sc} {
		for _, cl := range cs {
			fmt.Print(" ", size(cl.f), "/", len(in.bdd.Support(cl.f)), "/", len(cl.negs), "/", len(cl.order))
			for _, n := range cl.negs {
				fmt.Print("[")
				for _, k := range n.cs {
					fmt.Print(size(k.f), "/", len(in.bdd.Support(k.f)), "/", len(k.negs), "/", len(k.order), " ")
				}
				fmt.Print("]")
			}
		}
		fmt.Println()
	}
	m := NewMatcher(c)
	m.trace = trace
	if trace {
		m.unfold = 0
	}
	if os.Getenv("NOCOND") == "" {
		cc, sc = m.condense(cc), m.condense(sc)
		fmt.Println(len(cc), len(sc), "condensed")
		for _, cl := range append(append([]*Clause{}, cc...), sc...) {
			fmt.Println("  CC", cl.side, len(cl.negs), len(cl.order), cl.flaws, trunc(c.str(cl), 3000))
		}
	}
	if os.Getenv("ONLY") != "complete" {
		for _, cl := range cc {
			m.fail = ""
			if !m.covered(cl, sc) {
				fmt.Println("UNSOUND", c.str(cl))
				fmt.Println("   open:", trunc(m.fail, 1500))
			}
		}
	}
	if os.Getenv("ONLY") != "sound" {
		for _, cl := range sc {
			m.fail = ""
			if !m.covered(cl, cc) {
				fmt.Println("INCOMPLETE", c.str(cl))
				fmt.Println("   open:", trunc(m.fail, 1500))
			}
		}
	}
	fmt.Println("obligations", m.oblig, "thetas", m.thetasN)
}

func (in *Interp) dumpRegions() {
	for _, r := range in.regions[1:] {
		c := ""
		if r.cont != nil {
			c = in.str(r.cont)
		}
		fmt.Printf("REGION %d %s parent=%d full=%v(%s) cont=%s %s\n", r.id, r.kind, r.parent, r.full, r.fullWhy, c, in.w.pos(r.pos))
		for i, e := range r.exits {
			fmt.Printf("   exit%d: %s\n", i, in.bdd.str(e.g, 2))
		}
		for _, k := range sortedKeys(r.src) {
			if len(k) > 3 && (k[:3] == "in:" && r.src["out:"+k[3:]] != nil || k[:3] == "mid") {
				continue
			}
			for _, s := range r.src[k] {
				fmt.Printf("   %s <- init=%v [%s] %s\n", k, s.init, in.bdd.str(s.g, 2), in.str(s.v))
			}
		}
	}
}

func init() {
	dbg = func(in *Interp, r *Result) {
		c := NewClauser(in)
		dbgOn = len(os.Args) > 3
		n := 0
		c.expand(&work{f: in.asBDD(r.ret)}, 0, func(cl *Clause) {
			n++
			if n < 30 {
				fmt.Println("CL", c.str(cl))
			}
		})
		fmt.Println(n, "clauses")
	}
}

var dbg func(in *Interp, r *Result)
