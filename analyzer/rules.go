package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Rules over the effects of every public entry point of a package: locks and pools.
// ---------------------------------------------------------------------------

// publicEntries lists the exported functions and methods of a package (methods of
// exported types, promoted ones left out).
func (w *World) publicEntries(pkg string) []*ssa.Function {
	p := w.pkgs[pkg]
	var r []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Object() != nil && f.Object().Exported() && f.Synthetic == "" && !w.isSpec(f) && f.TypeParams().Len() == 0 && len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			n, ok := m.Type().(*types.Named)
			if !ok || !m.Object().Exported() {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				add(w.prog.FuncValue(n.Method(i)))
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return strings.ReplaceAll(s, modPath, "permission")
}

// runEffects evaluates one entry point and returns the interpreter and the result.
func (e *Env) runEffects(f *ssa.Function, prep func(in *Interp)) (in *Interp, r *Result) {
	in = NewInterp(e.w)
	if prep != nil {
		prep(in)
	}
	r = in.Run(f)
	e.funcs[shortFn(f)] = true
	e.count("functions_evaluated", len(in.evaluated))
	e.count("effects", len(in.effects))
	return in, r
}

// states lists the values a lock (or released) cell may have where g holds.
func (in *Interp) states(v *Term, g Node) map[string]bool {
	r := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(v *Term, g Node)
	walk = func(v *Term, g Node) {
		switch v.K {
		case KConst:
			r[v.S] = true
		case KBool:
			n := in.bdd.And(g, Node(v.I))
			if n != bddFalse {
				r["true"] = true
			}
			if in.bdd.And(g, in.bdd.Not(Node(v.I))) != bddFalse {
				r["false"] = true
			}
		case KChoice:
			for i, x := range v.A {
				if gi := in.bdd.And(g, v.G[i]); gi != bddFalse {
					walk(x, gi)
				}
			}
		case KMV:
			if seen[v] {
				return
			}
			seen[v] = true
			src := in.regions[v.I].src[v.S]
			if len(src) == 0 {
				r["unknown"] = true
			}
			for _, s := range src {
				walk(s.v, bddTrue)
			}
		default:
			r["unknown"] = true
		}
	}
	walk(v, g)
	return r
}

// loc names the kind of shared location a read or write effect touches, and the object
// it belongs to. Freshly allocated objects are not shared.
func (in *Interp) loc(t *Term) (class string, base *Term) {
	switch t.K {
	case KFAddr:
		if rootAlloc(t) != nil {
			return "", nil
		}
		return in.owner[t] + "." + t.S, t.A[0]
	case KField:
		a := in.faddr(t.A[0], t.S)
		if o, ok := in.owner[a]; ok {
			return o + "." + t.S, t.A[0]
		}
		return "", nil
	case KLookup, KElem:
		c, b := in.loc(t.A[0])
		if c == "" {
			return "", nil
		}
		return c + "[]", b
	case KGlobal:
		return "global " + t.S, t
	case KMIns, KMDel, KAppend, KAppAll, KSub:
		return in.loc(t.A[0])
	}
	return "", nil
}

type lockAccess struct {
	class, mode, where, fn string
	held                   map[string]bool
	heldList               string
}

// mutexFields lists the fields of a struct type that are mutexes.
func mutexFields(w *World) map[string][]string {
	r := map[string][]string{}
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				if pt, ok := ft.(*types.Pointer); ok {
					ft = pt.Elem()
				}
				switch ft.String() {
				case "sync.RWMutex", "sync.Mutex":
					r[typeName(t.Type())] = append(r[typeName(t.Type())], st.Field(i).Name())
				}
			}
		}
	}
	return r
}

// lockRules: every location of a shared object that some public operation changes is
// accessed under one common lock of the object it belongs to; every lock is released on
// every return, never taken twice, and locks are always nested in the same order.
func lockRules(e *Env, pkg string, exempt map[string]string) {
	mf := mutexFields(e.w)
	for _, f := range e.w.publicEntries(pkg) {
		f := f
		e.guard(shortFn(f), func() {
			in := NewInterp(e.w)
			in.cut["github.com/oarkflow/permission/utils.MatchResource"] = true
			in.Run(f)
			for _, ef := range in.effects {
				switch ef.Kind {
				case "write", "store", "insert", "delete", "clear":
					if c, _ := in.loc(ef.T[0]); c != "" {
						mutableField[strings.TrimRight(c, "[]")] = true
					}
				}
			}
		})
	}
	var accs []lockAccess
	order := map[string]map[string]string{}
	written := map[string]string{}
	for _, f := range e.w.publicEntries(pkg) {
		f := f
		e.guard(shortFn(f), func() {
			in, r := e.runEffects(f, func(in *Interp) {
				in.cut["github.com/oarkflow/permission/utils.MatchResource"] = true
				in.epochs = true
				in.structs = structTypes(e.w)
			})
			mutexPtr := func(l *Term) (*Term, string) { // object and mutex name of a lock address
				switch l.K {
				case KFAddr, KField:
					a := l
					if l.K == KField {
						a = in.faddr(l.A[0], l.S)
					}
					return l.A[0], in.owner[a] + "." + l.S
				}
				return l, in.str(l)
			}
			for _, ef := range in.effects {
				where := e.w.pos(ef.Pos)
				switch ef.Kind {
				case "lock", "unlock":
					if ef.Name == "try" {
						e.bad("trylock", shortFn(ef.Fn), "%s: conditional locking is not understood", where)
						continue
					}
					_, name := mutexPtr(ef.T[0])
					st := in.states(ef.T[1], ef.G)
					e.count("lock_operations", 1)
					if ef.Kind == "unlock" {
						good := len(st) == 1 && st[ef.Name]
						e.ok(good)
						if !good {
							e.bad("unlock-not-held", shortFn(ef.Fn)+" "+name, "%s: in %s (called through %s) the lock %s is released in mode %s but its state there is %v", where, shortFn(ef.Fn), shortFn(f), name, ef.Name, keys(st))
						}
						continue
					}
					good := len(st) == 1 && st["unlocked"]
					e.ok(good)
					if !good {
						e.bad("double-lock", shortFn(ef.Fn)+" "+name, "%s: in %s (called through %s) the lock %s is taken while it may already be held (%v): self-deadlock", where, shortFn(ef.Fn), shortFn(f), name, keys(st))
					}
					for l, v := range ef.Locks {
						hs := in.states(v, ef.G)
						if hs["R"] || hs["W"] || hs["unknown"] {
							_, hn := mutexPtr(l)
							if order[hn] == nil {
								order[hn] = map[string]string{}
							}
							if l != ef.T[0] {
								order[hn][name] = where + " in " + shortFn(ef.Fn)
							}
						}
					}
					continue
				case "go":
					e.bad("goroutine", shortFn(ef.Fn), "%s: %s starts a goroutine; the lock rules do not follow it", where, shortFn(ef.Fn))
					continue
				case "read", "write", "store", "insert", "delete", "clear":
				default:
					continue
				}
				t := ef.T[0]
				cell := ef.Name == "field" || ef.Kind == "store" && t.K == KFAddr
				class, base := in.loc(t)
				if class == "" || strings.HasPrefix(class, ".") {
					continue
				}
				if !cell && t.K != KGlobal {
					class += "{}"
				}
				mode := "r"
				if ef.Kind != "read" {
					mode = "w"
					if written[class] == "" {
						written[class] = where + " in " + shortFn(ef.Fn)
					}
				}
				if mode == "w" && !memoTables[strings.TrimSuffix(class, "{}")] {
					for _, l := range ef.Epochs {
						e.count("reacquired_lock_writes", 1)
						if st := in.staleUse(&ef, l); st != "" {
							e.bad("stale", class+" "+shortFn(ef.Fn), "%s: %s changes %s depending on %s, read before the lock %s was released and taken again: what others did in between is overlooked", where, shortFn(ef.Fn), class, st, in.str(l))
						}
					}
				}
				held := map[string]bool{}
				var hl []string
				for l, v := range ef.Locks {
					hs := in.states(v, ef.G)
					lb, ln := mutexPtr(l)
					for s := range hs {
						hl = append(hl, ln+"="+s)
					}
					if len(hs) != 1 || !(hs["W"] || mode == "r" && hs["R"]) {
						continue
					}
					// the lock counts for the object itself or an object that contains it
					for d, b := 0, base; b != nil && d < 6; d++ {
						if b == lb {
							held[ln] = true
						}
						nb := containerOf(b)
						if nb == nil {
							break
						}
						b = nb
					}
					if l.K == KGlobal {
						held[ln] = true
					}
				}
				sort.Strings(hl)
				accs = append(accs, lockAccess{class, mode, where + " in " + shortFn(ef.Fn), shortFn(f), held, strings.Join(hl, ",")})
			}
			for k, v := range r.st.mem {
				if k.K == KApp && k.S == "lock" {
					st := in.states(v, r.g)
					good := !st["R"] && !st["W"] && !st["unknown"]
					e.ok(good)
					if !good {
						_, name := mutexPtr(k.A[0])
						e.bad("lock-leak", shortFn(f)+" "+name, "%s may return with lock %s still held (%v)", shortFn(f), name, keys(st))
					}
				}
			}
		})
	}
	// lock sets
	common := map[string]map[string]bool{}
	byClass := map[string][]lockAccess{}
	for _, a := range accs {
		if written[a.class] == "" {
			continue
		}
		owner := strings.SplitN(strings.TrimPrefix(a.class, "global "), ".", 3)
		_ = owner
		if why := exemptClass(exempt, a.class); why != "" {
			continue
		}
		byClass[a.class] = append(byClass[a.class], a)
		if common[a.class] == nil {
			common[a.class] = map[string]bool{}
			for l := range a.held {
				common[a.class][l] = true
			}
		} else {
			for l := range common[a.class] {
				if !a.held[l] {
					delete(common[a.class], l)
				}
			}
		}
	}
	for class, as := range byClass {
		e.count("shared_locations", 1)
		e.count("shared_accesses", len(as))
		votes := map[string]int{}
		for _, a := range as {
			for l := range a.held {
				votes[l]++
			}
		}
		best := ""
		for l, n := range votes {
			if best == "" || n > votes[best] || n == votes[best] && l < best {
				best = l
			}
		}
		for _, a := range as {
			good := len(common[class]) > 0 || best != "" && a.held[best]
			e.ok(good)
			if !good {
				e.bad("lockset", class+" "+fnOfWhere(a.where), "%s: %s of %s without the lock %q that guards it elsewhere (held: %s; reached from %s; it is changed at %s)", a.where, map[string]string{"r": "read", "w": "write"}[a.mode], class, best, a.heldList, a.fn, written[class])
			}
		}
		if len(common[class]) > 0 {
			e.sample("%s: %d accesses all under %v", class, len(as), keys(common[class]))
		}
	}
	// lock order
	for a := range order {
		seen := map[string]bool{}
		var walk func(x string) bool
		walk = func(x string) bool {
			for y := range order[x] {
				if y == a {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if walk(y) {
						return true
					}
				}
			}
			return false
		}
		e.ok(true)
		if walk(a) {
			var es []string
			for y, wh := range order[a] {
				es = append(es, fmt.Sprintf("%s (at %s)", y, wh))
			}
			sort.Strings(es)
			e.bad("lock-order", a, "lock order cycle through %s: while it is held, %s may be taken", a, strings.Join(es, ", "))
		}
		e.count("lock_order_edges", len(order[a]))
	}
	_ = mf
}

// memoTables hold results that can be computed again at any time.
var memoTables = map[string]bool{"v2.RoleDAG.resolved": true}

func structTypes(w *World) map[string]*types.Struct {
	r := map[string]*types.Struct{}
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if st, ok := t.Type().Underlying().(*types.Struct); ok {
					r[typeName(t.Type())] = st
				}
			}
		}
	}
	return r
}

// staleUse finds what a change depends on that was read in an earlier critical section
// of the same lock and not read again.
func (in *Interp) staleUse(ef *Effect, l *Term) string {
	base := l.A[0]
	seen := map[*Term]bool{}
	regs := map[int]bool{}
	var stale func(t *Term) *Term
	stale = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if t.K == KApp && t.S == "later" {
			return nil
		}
		if t.K == KField && t.A[0] == base && mutableField[in.owner[in.faddr(base, t.S)]+"."+t.S] {
			return t
		}
		for _, x := range t.A {
			if r := stale(x); r != nil {
				return r
			}
		}
		if r := regionOf(t); r > 0 && !regs[r] {
			regs[r] = true
			reg := in.regions[r]
			node := func(n Node) *Term {
				for _, a := range in.bdd.Support(n) {
					if r := stale(a); r != nil {
						return r
					}
				}
				return nil
			}
			if reg.cont != nil {
				if r := stale(reg.cont); r != nil {
					return r
				}
			}
			for _, x := range reg.exits {
				if r := node(x.g); r != nil {
					return r
				}
			}
			for _, k := range append(sortedKeys(reg.src), "rets") {
				ss := reg.src[k]
				if k == "rets" {
					ss = reg.rets
				}
				for _, s := range ss {
					if r := stale(s.v); r != nil {
						return r
					}
					if r := node(s.g); r != nil {
						return r
					}
				}
			}
		}
		for _, g := range t.G {
			for _, a := range in.bdd.Support(g) {
				if r := stale(a); r != nil {
					return r
				}
			}
		}
		return nil
	}
	for _, t := range ef.T[1:] {
		if r := stale(t); r != nil {
			return in.str(r)
		}
	}
	sup := in.bdd.Support(ef.G)
	has := map[*Term]bool{}
	for _, a := range sup {
		has[a] = true
	}
	for _, a := range sup {
		r := stale(a)
		if r == nil {
			continue
		}
		u := in.newSubst(func(t *Term) *Term {
			if t == r {
				return in.App("later", r)
			}
			return nil
		})
		if a2 := u.term(a); a2 == a || !has[a2] {
			return in.str(r)
		}
	}
	return ""
}

// regionOf is the loop or recursion a term is a result of.
func regionOf(t *Term) int {
	switch t.K {
	case KMV, KIt:
		return t.I
	case KAtom:
		if t.S == "exit" || t.S == "mvb" {
			return t.I
		}
	}
	return 0
}

// mutableField: fields that operations change (filled by lockRules in a first pass).
var mutableField = map[string]bool{}

func exemptClass(ex map[string]string, class string) string {
	for k, why := range ex {
		if strings.HasPrefix(class, k) {
			return why
		}
	}
	return ""
}

func fnOfWhere(w string) string {
	if i := strings.Index(w, " in "); i >= 0 {
		return w[i+4:]
	}
	return w
}

// containerOf is the object whose field (a map, slice or pointer) an object was found in.
func containerOf(b *Term) *Term {
	switch b.K {
	case KLookup, KElem:
		c := b.A[0]
		for c.K == KMIns || c.K == KMDel || c.K == KAppend || c.K == KAppAll || c.K == KSub {
			c = c.A[0]
		}
		if c.K == KField {
			return c.A[0]
		}
	case KField:
		return b.A[0]
	}
	return nil
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func init() {
	register("C08", "other", func(e *Env) {
		e.rules = append(e.rules, "for every exported operation of v2 (callees, closures and deferred calls inlined): each location of a shared object that some operation changes is accessed under one common lock of its object (write lock for changes); every lock taken is released on every return and is never taken while held; locks nest acyclically")
		e.assume = append(e.assume, "grants (PrincipalRole) and the exported fields of tenants and roles are not changed directly by callers while in use; panics are not followed")
		lockRules(e, "v2", map[string]string{"v2.PrincipalRole.": "a grant is changed by its owner before it is shared"})
		e.floor("shared_locations", 8)
		e.floor("shared_accesses", 40)
		e.floor("lock_operations", 30)
	})
}
