package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Pooled memory: an object obtained from a pool is not used, returned or kept after it
// has been put back, is put back at most once, and what it holds from its previous use
// never flows into a result.
// ---------------------------------------------------------------------------

func poolKey(in *Interp, p *Term) string {
	for p.K == KFAddr {
		p = p.A[0]
	}
	return in.str(p)
}

func poolRules(e *Env, pkgs ...string) {
	type site struct{ where, fn string }
	notEmpty := map[string]site{}
	pools := map[string]bool{}
	for pass := 0; pass < 2; pass++ {
		for _, pkg := range pkgs {
			for _, f := range e.w.publicEntries(pkg) {
				f := f
				if !reaches(e.w, f, func(g *ssa.Function) bool {
					return g.Pkg == nil && g.Origin() == nil && false || funcKey(g) == "sync.Pool.Get" || g.String() == "(*sync.Pool).Get"
				}) {
					e.count("entries_without_pool", 1)
					continue
				}
				e.guard(shortFn(f), func() {
					in := NewInterp(e.w)
					in.cut["github.com/oarkflow/permission/utils.MatchResource"] = true
					in.beside = func(fn *ssa.Function, args []*Term, st *State) bool {
						return e.besidePools(in, fn, args, st)
					}
					if pass == 1 {
						in.pools = map[string]string{}
						for p := range pools {
							if _, bad := notEmpty[p]; !bad {
								in.pools[p] = "empty"
							}
						}
					}
					r := in.Run(f)
					if pass == 0 {
						for _, ef := range in.effects {
							switch ef.Kind {
							case "poolget":
								pools[poolKey(in, ef.T[1])] = true
							case "poolput":
								k := poolKey(in, ef.T[1])
								pools[k] = true
								if !in.surelyEmpty(ef.T[2], ef.G) {
									notEmpty[k] = site{e.w.pos(ef.Pos), shortFn(ef.Fn)}
								}
							}
						}
						return
					}
					e.funcs[shortFn(f)] = true
					e.count("functions_evaluated", len(in.evaluated))
					e.poolUses(in, r, f)
				})
			}
		}
		if pass == 0 {
			for p := range pools {
				if why := newEmpty(e, p); why != "" {
					notEmpty[p] = site{why, "constructor"}
				}
			}
		}
	}
	for p := range pools {
		e.count("pools", 1)
		if s, ok := notEmpty[p]; ok {
			e.sample("pool %s: objects may come back non-empty (%s), so users must clear them", p, s.where)
		} else {
			e.sample("pool %s: every object in it is empty", p)
		}
	}
}

func (e *Env) poolUses(in *Interp, r *Result, f *ssa.Function) {
	for _, ef := range in.effects {
		where := e.w.pos(ef.Pos)
		switch ef.Kind {
		case "poolget":
			e.count("pool_gets", 1)
		case "use":
			st := in.states(ef.T[1], ef.G)
			good := !st["true"] && !st["unknown"]
			e.ok(good)
			e.count("pooled_accesses", 1)
			if !good {
				e.bad("use-after-put", shortFn(ef.Fn), "%s: in %s (called through %s) an object obtained from a pool is used (%s) after it may have been put back", where, shortFn(ef.Fn), shortFn(f), ef.Name)
			}
		case "poolput":
			e.count("pool_puts", 1)
		case "store", "insert":
			for _, t := range ef.T[1:] {
				if a := in.pooledIn(t, r.st, map[*Term]bool{}); a != nil && rootAlloc(ef.T[0]) == nil && !in.neverPut(a) {
					e.ok(false)
					e.bad("pooled-escape", shortFn(ef.Fn), "%s: %s keeps memory of a pool in a long-lived object", where, shortFn(ef.Fn))
				}
			}
		}
		// stale content
		if ef.Kind == "store" || ef.Kind == "insert" || ef.Kind == "delete" {
			if rootAlloc(ef.T[0]) == nil {
				for _, t := range ef.T[1:] {
					if staleIn(in, t) {
						e.bad("stale-content", shortFn(ef.Fn), "%s: %s stores a value that depends on what a pooled object held before", where, shortFn(ef.Fn))
					}
				}
			}
		}
	}
	a := in.pooledIn(r.ret, r.st, map[*Term]bool{})
	good := a == nil || in.neverPut(a)
	e.ok(good)
	if !good {
		e.bad("pooled-result", shortFn(f), "%s returns memory of a pool that it has put back: a later call overwrites the caller's result", shortFn(f))
	}
	stale := staleIn(in, r.ret)
	e.ok(!stale)
	if stale {
		e.bad("stale-result", shortFn(f), "the result of %s depends on what a pooled object held from its previous use", shortFn(f))
	}
}

// besidePools: a predicate that neither uses a pool nor is given anything from one, or
// anything it could change for its caller.
func (e *Env) besidePools(in *Interp, fn *ssa.Function, args []*Term, st *State) bool {
	res := fn.Signature.Results()
	if res.Len() != 1 {
		return false
	}
	if b, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	for _, p := range fn.Params {
		switch p.Type().Underlying().(type) {
		case *types.Signature, *types.Interface, *types.Map, *types.Chan:
			return false
		}
	}
	if e.poolFree == nil {
		e.poolFree = map[*ssa.Function]bool{}
	}
	free, ok := e.poolFree[fn]
	if !ok {
		free = !reaches(e.w, fn, func(g *ssa.Function) bool {
			s := g.String()
			return s == "(*sync.Pool).Get" || s == "(*sync.Pool).Put"
		})
		e.poolFree[fn] = free
	}
	if !free {
		return false
	}
	for _, a := range args {
		if in.pooledIn(a, st, map[*Term]bool{}) != nil || staleIn(in, a) || staleIn(in, in.content(st, a)) {
			return false
		}
		if a.K == KAlloc {
			return false
		}
	}
	return true
}

func (in *Interp) neverPut(a *Term) bool {
	for _, ef := range in.effects {
		if ef.Kind == "poolput" {
			if r := rootAlloc(in.bufferOf(ef.T[0])); r == nil || r.I == a.I {
				return false
			}
		}
	}
	return true
}

// pooledIn finds pooled memory a value shares (not a copy of its content).
func (in *Interp) pooledIn(t *Term, st *State, seen map[*Term]bool) *Term {
	if t == nil || seen[t] {
		return nil
	}
	seen[t] = true
	switch t.K {
	case KAlloc:
		if t.S == "pool" {
			return t
		}
		for k, v := range st.mem {
			if rootAlloc(k) == t {
				if a := in.pooledIn(v, st, seen); a != nil {
					return a
				}
			}
		}
	case KChoice, KTuple, KStruct:
		for _, x := range t.A {
			if a := in.pooledIn(x, st, seen); a != nil {
				return a
			}
		}
	case KSub, KAppend, KAppAll:
		if a := in.pooledIn(t.A[0], st, seen); a != nil {
			return a
		}
		if t.K == KAppend {
			return in.pooledIn(t.A[1], st, seen)
		}
	case KMIns:
		if a := in.pooledIn(t.A[0], st, seen); a != nil {
			return a
		}
		return in.pooledIn(t.A[2], st, seen)
	case KApp:
		if t.S == "compact" {
			return in.pooledIn(t.A[0], st, seen)
		}
	case KMV:
		for _, s := range in.regions[t.I].src[t.S] {
			if a := in.pooledIn(s.v, st, seen); a != nil {
				return a
			}
		}
	}
	return nil
}

// staleIn: does a value depend on unknown leftovers of a pooled object?
func staleIn(in *Interp, t *Term) bool {
	seen := map[*Term]bool{}
	regs := map[int]bool{}
	var walk func(t *Term) bool
	var node func(n Node) bool
	node = func(n Node) bool {
		for _, a := range in.bdd.Support(n) {
			if walk(a) {
				return true
			}
		}
		return false
	}
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t.K == KUnk && len(t.S) > 5 && t.S[:5] == "stale" {
			return true
		}
		if t.K == KBool {
			return node(Node(t.I))
		}
		for _, x := range t.A {
			if walk(x) {
				return true
			}
		}
		for _, g := range t.G {
			if node(g) {
				return true
			}
		}
		if r := regionOf(t); r > 0 && !regs[r] {
			regs[r] = true
			reg := in.regions[r]
			if reg.cont != nil && walk(reg.cont) {
				return true
			}
			for _, x := range reg.exits {
				if node(x.g) {
					return true
				}
			}
			for _, ss := range append([][]source{reg.rets}, srcLists(reg)...) {
				for _, s := range ss {
					if walk(s.v) || node(s.g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(t)
}

func srcLists(r *Region) (out [][]source) {
	for _, k := range sortedKeys(r.src) {
		out = append(out, r.src[k])
	}
	return
}

func (in *Interp) surelyEmpty(c *Term, g Node) bool {
	switch c.K {
	case KEmpty:
		return true
	case KChoice:
		for i, x := range c.A {
			if gi := in.bdd.And(g, c.G[i]); gi != bddFalse && !in.surelyEmpty(x, gi) {
				return false
			}
		}
		return true
	}
	return false
}

// newEmpty checks the functions that make new objects for the pools: they give empty ones.
func newEmpty(e *Env, pool string) string {
	why := ""
	check := func(f *ssa.Function) {
		e.guard(shortFn(f), func() {
			in := NewInterp(e.w)
			r := in.Run(f)
			e.count("pool_constructors", 1)
			ret := r.ret
			if ret.K == KApp && ret.S == "iface" && len(ret.A) > 0 {
				ret = ret.A[0]
			}
			if !in.surelyEmpty(in.content(r.st, ret), bddTrue) {
				why = fmt.Sprintf("new objects are made by %s at %s", shortFn(f), e.w.pos(f.Pos()))
			}
		})
	}
	for f := range e.w.all {
		if !inRepo(f) || e.w.isSpec(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.X.Type().String() != "*sync.Pool" {
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.Function:
					check(v)
				case *ssa.MakeClosure:
					cl := v.Fn.(*ssa.Function)
					if callsFree(cl) {
						// the constructor of a generic pool calls the function it was given
						for _, c := range callersOf(e.w, f) {
							for _, a := range c.Common().Args {
								switch g := a.(type) {
								case *ssa.Function:
									check(g)
								case *ssa.MakeClosure:
									check(g.Fn.(*ssa.Function))
								}
							}
						}
					} else {
						check(cl)
					}
				}
			}
		}
	}
	return why
}

func callsFree(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				switch c.Common().Value.(type) {
				case *ssa.FreeVar, *ssa.UnOp:
					return true
				}
			}
		}
	}
	return false
}

func callersOf(w *World, f *ssa.Function) (r []ssa.CallInstruction) {
	for g := range w.all {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && (s == f || s.Origin() != nil && s.Origin() == f.Origin() && s.String() == f.String()) {
						r = append(r, c)
					}
				}
			}
		}
	}
	return
}

// reaches: can f call (statically, or through a function it mentions) one that satisfies p?
func reaches(w *World, f *ssa.Function, p func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if p(f) {
			return true
		}
		if !inRepo(f) {
			return false
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

func init() {
	register("C09", "other", func(e *Env) {
		e.rules = append(e.rules, "for every exported operation of v1, v2 and the root package that reaches a pool: no use of a pooled object after (or between) putting it back, no pooled memory in results or long-lived objects once put back, no result or stored value that depends on leftovers of a pooled object (either it is emptied after it is obtained or every object put into the pool is empty)")
		poolRules(e, "permission", "v1", "v2")
		e.floor("pools", 3)
		e.floor("pool_gets", 8)
		e.floor("pooled_accesses", 20)
	})
}
