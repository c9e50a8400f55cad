package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Subsumption: what a clause says follows from a set of clauses.
// ---------------------------------------------------------------------------

type Ctx struct {
	f     Node
	negs  []*Neg
	known map[*Term]bool // tokens and closure variables that are fixed
	depth int
	split bool
}

type Matcher struct {
	c         *Clauser
	s         *Store
	hyp       map[string]bool // assumed or proved inclusions of closures
	steps     int
	oblig     int
	thetasN   int
	fail      string
	failPos   int
	trace     bool
	invHyp    map[string]bool
	stepCap   int
	negN      int
	incMemo   map[string]bool
	unfold    int
	clashMemo map[Node]bool
	closures  map[closureName]closureName
	reps      []closureRep
	caseCap   int
	implMemo  map[[2]Node]bool
}

func NewMatcher(c *Clauser) *Matcher {
	return &Matcher{c: c, s: c.s, hyp: map[string]bool{}, invHyp: map[string]bool{}, stepCap: 400000, incMemo: map[string]bool{}, unfold: 2, clashMemo: map[Node]bool{}, closures: map[closureName]closureName{}, implMemo: map[[2]Node]bool{}}
}

func (m *Matcher) isVarTerm(t *Term) bool { return t.K == KIt || m.c.isVar(t) }

func (m *Matcher) vars(t *Term, f func(*Term)) {
	m.s.contains(t, func(x *Term) bool {
		if m.isVarTerm(x) && !(x.K == KIt && strings.HasPrefix(x.S, "wit:")) {
			f(x)
		}
		return false
	})
}

func (m *Matcher) newCtx(cl *Clause) *Ctx {
	ctx := &Ctx{f: cl.f, negs: cl.negs, known: map[*Term]bool{}}
	m.vars(m.s.Bool(cl.f), func(t *Term) { ctx.known[t] = true })
	for _, h := range cl.head {
		m.vars(h, func(t *Term) { ctx.known[t] = true })
	}
	if cl.side == 0 {
		ctx.negs = m.certain(ctx, cl.negs)
	}
	return ctx
}

// certain: that the code did not find something means that it is not there only as far
// as the code is sure to find it.
func (m *Matcher) certain(ctx *Ctx, ns []*Neg) []*Neg {
	var out []*Neg
	for _, n := range ns {
		k := &Neg{}
		for _, cl := range n.cs {
			if m.usable(ctx, cl) == "" {
				k.cs = append(k.cs, cl)
			}
		}
		if len(k.cs) == len(n.cs) {
			k = n
		}
		if len(k.cs) > 0 {
			out = append(out, k)
		}
	}
	return out
}

func (ctx *Ctx) with(m *Matcher, f Node, negs []*Neg, extra ...*Term) *Ctx {
	n := &Ctx{f: m.s.bdd.And(ctx.f, f), negs: append(append([]*Neg{}, ctx.negs...), negs...), known: map[*Term]bool{}, depth: ctx.depth + 1, split: ctx.split}
	for t := range ctx.known {
		n.known[t] = true
	}
	m.vars(m.s.Bool(f), func(t *Term) { n.known[t] = true })
	for _, e := range extra {
		m.vars(e, func(t *Term) { n.known[t] = true })
	}
	return n
}

// usable: the clause may be relied on to hold whenever its conditions do.
func (m *Matcher) usable(ctx *Ctx, g *Clause) string {
	if g.side == 1 {
		return ""
	}
	if len(g.flaws) > 0 {
		return strings.Join(g.flaws, "; ")
	}
	why := ""
	chk := func(t *Term) {
		if t.K != KIt || ctx.known[t] || why != "" {
			return
		}
		r := m.s.regions[t.I]
		if r.full {
			return
		}
		if r.kind == "pick" {
			return // see dropPicks
		}
		why = "the loop at " + m.c.in.w.pos(r.pos) + " may not visit every element"
	}
	m.vars(m.s.Bool(g.f), chk)
	for _, h := range g.head {
		m.vars(h, chk)
	}
	return why
}

// entails: in ctx, some goal clause holds (with the given head).
func (m *Matcher) entails(ctx *Ctx, goals []*Clause, head []*Term) bool {
	b := m.s.bdd
	m.oblig++
	if ctx.depth > 12 {
		return false
	}
	inv := false
	// left is what remains to be covered, with the literals of the case taken out
	left, fixed := m.units(ctx.f)
	plain := map[string]bool{}
	budgets := []int{0, 2, 1000}
	if m.caseCap > 0 {
		budgets = budgets[:1]
	}
	for step := 0; step < len(budgets)*(m.unfold+1); step++ {
		round := step % (m.unfold + 1)
		if m.refuted(ctx.f) {
			return true
		}
		for _, g := range goals {
			if m.usable(ctx, g) != "" {
				if m.trace {
					fmt.Println(strings.Repeat("  ", ctx.depth), "unusable:", m.usable(ctx, g))
				}
				continue
			}
			done := false
			m.thetas(ctx, g, head, round, budgets[step/(m.unfold+1)], func(g *Clause) bool {
				m.thetasN++
				f := g.f
				fr := b.Given(f, fixed)
				if b.And(left, fr) == bddFalse {
					return false
				}
				negs := append(append([]*Neg{}, g.negs...), g.order...)
				if len(negs) > 0 {
					var sub *Ctx
					for _, n := range negs {
						k := m.negKey(n)
						ok, seen := plain[k]
						if !seen {
							ok = m.negHolds(ctx, n)
							plain[k] = ok
						}
						if ok {
							continue
						}
						if sub == nil {
							sub = ctx.with(m, f, nil)
						}
						if !m.negHolds(sub, n) && !m.otherwise(sub, n, goals, head) {
							return false
						}
					}
				}
				left = b.And(left, b.Not(fr))
				if left == bddFalse {
					done = true
				}
				return done
			})
			if done {
				return true
			}
		}
		res := b.And(left, m.c.lits2node(fixed))
		bad := m.consistentCube(res)
		if bad == nil {
			return true
		}
		if !inv {
			inv = true
			if f := m.invariants(ctx, bad); f != bddTrue {
				ctx = ctx.with(m, f, nil)
				left, fixed = m.units(b.And(res, f))
				step--
				continue
			}
		}
		if step+1 < len(budgets)*(m.unfold+1) {
			continue
		}
		if len(ctx.negs) > 0 {
			// what is left may contradict what is known not to hold
			sub := ctx.with(m, left, nil)
			sub.negs = nil
			var gs []*Clause
			for _, k := range ctx.negs {
				gs = append(gs, k.cs...)
			}
			fail, pos := m.fail, m.failPos
			if m.entails(sub, gs, nil) {
				return true
			}
			m.fail, m.failPos = fail, pos
		}
		if m.trace {
			fmt.Println(strings.Repeat("  ", ctx.depth), "open case:", trunc(m.cubeStr(bad), 1500))
		}
		if m.fail == "" || ctx.depth <= m.failPos {
			m.fail = m.cubeStr(bad)
			m.failPos = ctx.depth
		}
		return false
	}
	return false
}

func (m *Matcher) cubeStr(ls []Lit) string {
	var p []string
	for _, l := range ls {
		p = append(p, m.c.litStr(l))
	}
	return strings.Join(p, " ∧ ")
}

func (m *Matcher) negKey(n *Neg) string {
	var b strings.Builder
	for _, cl := range n.cs {
		fmt.Fprintf(&b, "%d;", cl.f)
		for _, k := range append(append([]*Neg{}, cl.negs...), cl.order...) {
			b.WriteString("(" + m.negKey(k) + ")")
		}
	}
	return b.String()
}

// negHolds: none of the clauses can hold in ctx.
func (m *Matcher) negHolds(ctx *Ctx, n *Neg) bool {
	m.negN++
	if m.trace {
		fmt.Println(strings.Repeat("  ", ctx.depth), "neg", len(n.cs), "steps", m.steps)
	}
	for _, cl := range n.cs {
		sub := ctx.with(m, cl.f, cl.negs, cl.head...)
		if sub.f == bddFalse || m.refuted(sub.f) {
			continue
		}
		var goals []*Clause
		for _, k := range ctx.negs {
			goals = append(goals, k.cs...)
		}
		if len(goals) == 0 {
			if m.trace {
				fmt.Println(strings.Repeat("  ", ctx.depth), "cannot exclude:", trunc(m.c.str(cl), 600))
			}
			if m.fail == "" {
				m.fail = "cannot exclude: " + m.c.str(cl)
			}
			return false
		}
		if !m.entails(sub, goals, nil) {
			return false
		}
	}
	return true
}

// otherwise: where the exclusion does not hold, the goals hold for another reason.
func (m *Matcher) otherwise(ctx *Ctx, n *Neg, goals []*Clause, head []*Term) bool {
	if ctx.depth > 1 || ctx.split {
		return false
	}
	for _, cl := range n.cs {
		sub := ctx.with(m, cl.f, cl.negs, cl.head...)
		sub.split = true
		if sub.f == bddFalse || m.refuted(sub.f) {
			continue
		}
		if !m.entails(sub, goals, head) {
			return false
		}
	}
	return true
}

// ---- substitutions -------------------------------------------------------------

func (m *Matcher) thetas(ctx *Ctx, g0 *Clause, head []*Term, unfold, budget int, yield func(g *Clause) bool) {
	b := m.s.bdd
	var stop bool
	var rec func(g *Clause, unf int)
	rec = func(g *Clause, unf int) {
		if stop {
			return
		}
		m.steps++
		if m.steps > m.stepCap {
			panic(analysisLimit("too many candidate matches"))
		}
		f := g.f
		for i, h := range head {
			f = b.And(f, m.s.Eq(g.head[i], h))
		}
		joint := b.And(ctx.f, f)
		if joint == bddFalse || m.unitClash(joint) {
			return
		}
		open := map[*Term]bool{}
		note := func(t *Term) {
			if !ctx.known[t] {
				open[t] = true
			}
		}
		m.vars(m.s.Bool(f), note)
		if budget < 1000 {
			// conditions that are already fixed must follow, but for a few
			_, us := m.units(f)
			miss := 0
			for _, l := range us {
				fixed := true
				m.vars(l.a, func(x *Term) { fixed = fixed && !open[x] })
				if fixed && !m.implied(ctx, l) {
					if miss++; miss > budget {
						return
					}
				}
			}
		}
		if len(open) == 0 {
			g2 := *g
			g2.f = f
			if yield(&g2) {
				stop = true
			}
			return
		}
		openIn := func(t *Term) bool {
			r := false
			m.vars(t, func(x *Term) {
				if open[x] {
					r = true
				}
			})
			return r
		}
		try := func(v, w *Term) {
			one := m.s.newSubst(func(t *Term) *Term {
				if t == v {
					return w
				}
				return nil
			})
			rec(substClause(one, g), unf)
		}
		// forget: v has no counterpart, so nothing may depend on it
		forget := func(v *Term) {
			f := g.f
			for _, a := range b.Support(f) {
				if a.S == "mem" && a.A[1] == v {
					f = b.Cofactor(f, a, false)
				}
			}
			for _, a := range b.Support(f) {
				if m.s.contains(a, func(t *Term) bool { return t == v }) {
					f = b.And(b.Cofactor(f, a, true), b.Cofactor(f, a, false))
				}
			}
			g2 := *g
			g2.f = f
			for _, h := range g.head {
				if m.s.contains(h, func(t *Term) bool { return t == v }) {
					return
				}
			}
			rec(&g2, unf)
		}
		// 1. tokens over containers without open variables
		var mems []*Term
		for _, a := range b.Support(f) {
			if a.S == "mem" && open[a.A[1]] && !openIn(a.A[0]) {
				mems = append(mems, a)
			}
		}
		sort.Slice(mems, func(i, j int) bool { return mems[i].id < mems[j].id })
		if len(mems) > 0 {
			v := mems[0].A[1]
			seen := map[*Term]bool{}
			for pass := 0; pass < 2; pass++ {
				for _, a := range b.Support(ctx.f) {
					if a.S != "mem" || seen[a.A[1]] {
						continue
					}
					exact := false
					alike := false
					for _, q := range mems {
						if q.A[1] == v {
							exact = exact || q.A[0] == a.A[0]
							alike = alike || shape(q.A[0]) == shape(a.A[0])
						}
					}
					if pass == 0 && exact || pass == 1 && alike {
						seen[a.A[1]] = true
						try(v, a.A[1])
						if stop {
							return
						}
					}
				}
			}
			// witnesses named by a key or a value
			for _, w := range m.witnesses(ctx, mems, v) {
				try(v, w)
				if stop {
					return
				}
			}
			without := joint
			for _, q := range mems {
				if q.A[1] == v {
					without = b.Cofactor(without, q, false)
				}
			}
			if without != bddFalse {
				forget(v)
			}
			return
		}
		// 2. closure variables
		var cvs []*Term
		for t := range open {
			if !m.c.isVar(t) {
				continue
			}
			closed := true
			for _, x := range t.A {
				closed = closed && !openIn(x)
			}
			if closed {
				cvs = append(cvs, t)
			}
		}
		sort.Slice(cvs, func(i, j int) bool { return cvs[i].id < cvs[j].id })
		if len(cvs) > 0 {
			v := cvs[0]
			var known []*Term
			for t := range ctx.known {
				if m.c.isVar(t) {
					known = append(known, t)
				}
			}
			sort.Slice(known, func(i, j int) bool { return known[i].id < known[j].id })
			ictx := &Ctx{f: bddTrue, known: ctx.known, depth: ctx.depth, negs: ctx.negs}
			_, us := m.units(joint)
			for _, k := range known {
				ictx.f = bddTrue
				for _, l := range us {
					if !openIn(l.a) && m.about(l.a, k, v) {
						ictx.f = b.And(ictx.f, m.c.lits2node([]Lit{l}))
					}
				}
				if m.included(ictx, k, v) || len(open) == 1 && len(g.negs)+len(g.order) == 0 && m.reaches(ctx, k, v, f) {
					try(v, k)
					if stop {
						return
					}
				}
			}
			if unf < unfold {
				for _, d := range m.c.defs(v) {
					if m.usable(ctx, d) != "" {
						continue
					}
					one := m.s.newSubst(func(t *Term) *Term {
						if t == v {
							return d.head[0]
						}
						return nil
					})
					g2 := substClause(one, g)
					g2.f = b.And(g2.f, m.dropPicks(ctx, d))
					g2.negs = append(append(append([]*Neg{}, g2.negs...), d.negs...), d.order...)
					rec(g2, unf+1)
					if stop {
						return
					}
				}
			}
			// the variable may not matter in this case
			rest := f
			for _, a := range b.Support(rest) {
				if m.s.contains(a, func(t *Term) bool { return t == v }) {
					rest = b.And(b.Cofactor(rest, a, true), b.Cofactor(rest, a, false))
				}
			}
			if rest != bddFalse {
				forget(v)
			}
			return
		}
		// 3. tokens that nothing constrains
		var rest []*Term
		for t := range open {
			rest = append(rest, t)
		}
		sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
		forget(rest[0])
	}
	g := *g0
	g.f = m.dropPicks(ctx, g0)
	rec(&g, 0)
}

// implied: the literal holds in ctx.
func (m *Matcher) implied(ctx *Ctx, l Lit) bool {
	b := m.s.bdd
	no := b.Var(l.a)
	if l.pos {
		no = b.Not(no)
	}
	x := b.And(ctx.f, no)
	if x == bddFalse {
		return true
	}
	k := [2]Node{ctx.f, no}
	if r, ok := m.implMemo[k]; ok {
		return r
	}
	r := m.refuted(x)
	m.implMemo[k] = r
	return r
}

// dropPicks: an arbitrary entry can be relied on only when it is the only one.
func (m *Matcher) dropPicks(ctx *Ctx, g *Clause) Node {
	f := g.f
	if g.side == 1 {
		return f
	}
	b := m.s.bdd
	for _, a := range b.Support(f) {
		if a.S == "mem" && a.A[1].K == KIt && !ctx.known[a.A[1]] && m.s.regions[a.A[1].I].kind == "pick" {
			f1, f0 := b.Cofactor(f, a, true), b.Cofactor(f, a, false)
			one := m.s.Eq(m.s.Len(a.A[0]), m.s.Int(1))
			f = b.Or(b.And(f0, f1), b.Or(b.And(b.Not(b.Var(a)), f0), b.And(b.Var(a), b.And(f1, one))))
		}
	}
	return f
}

// witnesses: tokens that stand for the entry with a given key or value.
func (m *Matcher) witnesses(ctx *Ctx, mems []*Term, v *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, q := range mems {
		if q.A[1] != v {
			continue
		}
		x := q.A[0]
		for pass := 0; pass < 2; pass++ {
			for _, a := range m.s.bdd.Support(ctx.f) {
				if a.S != "has" && a.S != "elem" || (a.A[0] == x) != (pass == 0) || pass == 1 && shape(a.A[0]) != shape(x) {
					continue
				}
				if w := m.witness(a.A[0], a.S, a.A[1]); !seen[w] {
					seen[w] = true
					out = append(out, w)
				}
			}
		}
	}
	return out
}

// witness is the token of the entry of x with key (or value) k.
func (m *Matcher) witness(x *Term, how string, k *Term) *Term {
	return m.s.mk(KIt, "wit:"+how, 0, 0, []*Term{x, k}, nil)
}

func shape(t *Term) string {
	switch t.K {
	case KField:
		return "." + t.S
	case KLookup, KElem:
		return shape(t.A[0]) + "[]"
	case KParam:
		return fmt.Sprint("p", t.I)
	}
	return fmt.Sprint("#", t.id)
}

// ---- closures --------------------------------------------------------------------

// included: every value of the closure variable k is a value of v (under u).
func (m *Matcher) included(ctx *Ctx, k, v *Term) bool {
	if k == v {
		return true
	}
	key := m.incKey(k, v)
	if key == "" {
		return false
	}
	if m.hyp[key] {
		return true
	}
	mkey := fmt.Sprintf("%s@%d", key, ctx.f)
	if r, ok := m.incMemo[mkey]; ok {
		return r
	}
	if ctx.depth > 8 {
		return false
	}
	if ctx.f != bddTrue {
		// independent of the context?
		free := &Ctx{f: bddTrue, known: map[*Term]bool{}, depth: ctx.depth}
		for t := range ctx.known {
			free.known[t] = true
		}
		if m.included(free, k, v) {
			return true
		}
		if m.relevant(ctx, k, v) == false {
			m.incMemo[mkey] = false
			return false
		}
	}
	goals := m.c.defs(v)
	if len(goals) == 0 {
		m.incMemo[mkey] = false
		return false
	}
	m.hyp[key] = true
	defer delete(m.hyp, key)
	saved, savedPos := m.fail, m.failPos
	for _, d := range m.c.defs(k) {
		sub := ctx.with(m, d.f, d.negs, d.head...)
		if !m.entails(sub, goals, d.head) {
			if m.trace {
				fmt.Println(strings.Repeat("  ", ctx.depth), "closure", trunc(m.s.str(k), 80), "not within", trunc(m.s.str(v), 80), "case", trunc(m.c.str(d), 500))
			}
			m.incMemo[mkey] = false
			return false
		}
	}
	m.fail, m.failPos = saved, savedPos
	if len(m.hyp) == 1 {
		m.incMemo[mkey] = true
	}
	return true
}

// reaches: every value of k is a value of v unless an earlier one already satisfies f
// (f speaks about v only).
func (m *Matcher) reaches(ctx *Ctx, k, v *Term, f Node) bool {
	if ctx.depth > 4 {
		return false
	}
	key := m.incKey(k, v)
	if key == "" || m.hyp[key] || len(m.hyp) > 0 {
		return false
	}
	goals := m.c.defs(v)
	if len(goals) == 0 {
		return false
	}
	m.hyp[key] = true
	defer delete(m.hyp, key)
	saved, savedPos := m.fail, m.failPos
	for _, d := range m.c.defs(k) {
		g := d.f
		m.vars(m.s.Bool(d.f), func(t *Term) {
			if t.I == k.I && t.S == k.S && m.c.isVar(t) {
				one := m.s.newSubst(func(x *Term) *Term {
					if x == v {
						return t
					}
					return nil
				})
				g = m.s.bdd.And(g, m.s.bdd.Not(one.node(f)))
			}
		})
		sub := ctx.with(m, g, d.negs, d.head...)
		if !m.entails(sub, goals, d.head) {
			m.fail, m.failPos = saved, savedPos
			return false
		}
	}
	m.fail, m.failPos = saved, savedPos
	return true
}

func (m *Matcher) incKey(k, v *Term) string {
	key := closureKey(k)
	if tk, tv := mvTypes[key], mvTypes[closureKey(v)]; tk != "" && tv != "" && tk != tv {
		return ""
	}
	for _, a := range k.A {
		key += fmt.Sprintf(",%d", a.id)
	}
	key += fmt.Sprintf("<%d/%s", v.I, v.S)
	for _, a := range v.A {
		key += fmt.Sprintf(",%d", a.id)
	}
	return key
}

func closureKey(v *Term) string { return fmt.Sprintf("%d/%s", v.I, v.S) }

// about: a condition that may decide where the variables start from.
func (m *Matcher) about(a *Term, k, v *Term) bool {
	free := true
	m.vars(a, func(*Term) { free = false })
	if free {
		return true
	}
	if a.S != "eq" {
		return false
	}
	in := func(t *Term) bool {
		for _, x := range append(append([]*Term{}, k.A...), v.A...) {
			if m.s.contains(x, func(y *Term) bool { return y == t }) {
				return true
			}
		}
		return false
	}
	return in(a.A[0]) || in(a.A[1])
}

// relevant: the context says something about what the variables start from.
func (m *Matcher) relevant(ctx *Ctx, k, v *Term) bool {
	if len(k.A) == 0 && len(v.A) == 0 {
		return true
	}
	seen := map[*Term]bool{}
	for _, a := range append(append([]*Term{}, k.A...), v.A...) {
		seen[a] = true
	}
	for _, l := range m.s.bdd.Support(ctx.f) {
		if l.S == "eq" && (seen[l.A[0]] || seen[l.A[1]]) {
			return true
		}
	}
	for a := range seen { // equal as look-ups under equal keys
		if a.K == KLookup || a.K == KField || a.K == KElem {
			return true
		}
	}
	return false
}

// invariants tries to show that the open case contradicts something true of all values
// of a closure variable.
func (m *Matcher) invariants(ctx *Ctx, bad []Lit) Node {
	b := m.s.bdd
	out := bddTrue
	for _, l := range bad {
		var cv *Term
		n := 0
		m.vars(l.a, func(t *Term) {
			if m.c.isVar(t) && ctx.known[t] {
				if cv != t {
					n++
				}
				cv = t
			}
		})
		if n != 1 {
			continue
		}
		lit := b.Var(l.a)
		if l.pos {
			lit = b.Not(lit)
		}
		key := fmt.Sprintf("%d|%d", cv.id, lit)
		if m.invHyp[key] {
			continue
		}
		m.invHyp[key] = true
		if m.invariant(ctx, cv, lit) {
			out = b.And(out, lit)
		}
	}
	return out
}

func (m *Matcher) invariant(ctx *Ctx, cv *Term, lit Node) bool {
	b := m.s.bdd
	at := func(w *Term) Node {
		return m.s.newSubst(func(t *Term) *Term {
			if t == cv {
				return w
			}
			return nil
		}).node(lit)
	}
	for _, d := range m.c.defs(cv) {
		f := d.f
		m.vars(m.s.Bool(d.f), func(t *Term) {
			if t.K == KMV && t.I == cv.I && t.S == cv.S && t != cv {
				f = b.And(f, at(t))
			}
		})
		goal := at(d.head[0])
		// only rooted facts: the context of use need not hold where the value is made
		if m.consistentCube(b.And(f, b.Not(goal))) != nil {
			return false
		}
	}
	return true
}

// unitClash: the literals that f implies contradict each other.
func (m *Matcher) unitClash(f Node) bool {
	if v, ok := m.clashMemo[f]; ok {
		return v
	}
	_, units := m.units(f)
	r := m.contradiction(units)
	m.clashMemo[f] = r
	return r
}

func (m *Matcher) units(f Node) (Node, []Lit) { return m.s.bdd.Units(f) }

// ---- theory ------------------------------------------------------------------------

func (m *Matcher) refuted(f Node) bool { return m.consistentCube(f) == nil }

// consistentCube gives a case of f that the theory does not exclude, or nil.
func (m *Matcher) consistentCube(f Node) []Lit {
	if f == bddFalse {
		return nil
	}
	b := m.s.bdd
	// unit literals first: they decide most
	rest, units := m.units(f)
	if m.contradiction(units) {
		return nil
	}
	for n := 0; ; n++ {
		if rest == bddFalse {
			return nil
		}
		if n > 3000 || m.caseCap > 0 && n > m.caseCap {
			panic(analysisLimit("too many cases"))
		}
		ls := append([]Lit{}, units...)
		for x := rest; x != bddTrue; {
			nd := b.nodes[x]
			if nd.lo != bddFalse {
				ls = append(ls, Lit{b.atoms[nd.v], false})
				x = nd.lo
			} else {
				ls = append(ls, Lit{b.atoms[nd.v], true})
				x = nd.hi
			}
		}
		if !m.contradiction(ls) {
			return ls
		}
		// what of it is contradictory rules out more than this case
		core := m.core(ls)
		no := bddFalse
		for _, l := range core {
			v := b.Var(l.a)
			if l.pos {
				v = b.Not(v)
			}
			no = b.Or(no, v)
		}
		g := b.And(rest, no)
		for _, l := range units {
			g = b.Cofactor(g, l.a, l.pos)
		}
		var more []Lit
		rest, more = m.units(g)
		units = append(units[:len(units):len(units)], more...)
		if len(more) > 0 && m.contradiction(units) {
			return nil
		}
	}
}

// core is a smallest part of contradictory literals that is contradictory.
func (m *Matcher) core(ls []Lit) []Lit {
	cur := append([]Lit{}, ls...)
	for size := len(cur) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(cur); {
			try := append(append([]Lit{}, cur[:i]...), cur[i+size:]...)
			if m.contradiction(try) {
				cur = try
			} else {
				i += size
			}
		}
	}
	return cur
}

func (m *Matcher) truth(v bool) *Term {
	if v {
		return m.s.Const("true")
	}
	return m.s.Const("false")
}

// same: x is k, and so are its parts.
func (m *Matcher) same(cc *cclos, x, k *Term) {
	cc.merge(x, k)
	if k.K != KStruct {
		return
	}
	for i, n := range strings.Split(k.S, "\x00")[1:] {
		v := k.A[i]
		if v.K == KBool {
			if v.I != int(bddTrue) && v.I != int(bddFalse) {
				continue
			}
			v = m.truth(v.I == int(bddTrue))
		}
		if v.K == KConst || v.K == KParam || v.K == KField || v.K == KLookup || v.K == KKey || v.K == KElem {
			cc.merge(m.s.Field(x, n), v)
		}
	}
}

func (m *Matcher) contradiction(ls []Lit) bool {
	cc := newCC(m.s)
	for _, l := range ls {
		cc.atom(l.a)
	}
	for _, l := range ls {
		if l.pos && l.a.S == "eq" {
			cc.merge(l.a.A[0], l.a.A[1])
		} else if l.pos && l.a.S == "bool" {
			cc.merge(l.a.A[0], m.s.Const("true"))
		}
	}
	for _, l := range ls { // an entry with key k (or value k)
		if l.pos && l.a.S == "has" {
			m.same(cc, m.s.Key(l.a.A[0], m.witness(l.a.A[0], "has", l.a.A[1])), l.a.A[1])
		} else if l.pos && l.a.S == "elem" {
			m.same(cc, m.s.Elem(l.a.A[0], m.witness(l.a.A[0], "elem", l.a.A[1])), l.a.A[1])
		}
		if l.a.S == "mem" {
			if it := l.a.A[1]; it.K == KIt && strings.HasPrefix(it.S, "wit:") {
				x, k := it.A[0], it.A[1]
				if it.S == "wit:has" {
					m.same(cc, m.s.Key(x, it), k)
				} else {
					m.same(cc, m.s.Elem(x, it), k)
				}
			}
		}
	}
	cc.close()
	if cc.clash {
		return true
	}
	// what is known to have a type is not nil and not of another type
	var typed map[*Term]string
	for _, t := range cc.terms {
		ty := m.s.typeOf(t)
		if ty == "" {
			continue
		}
		r := cc.root(t)
		if r.K == KNil {
			return true
		}
		if typed == nil {
			typed = map[*Term]string{}
		}
		if o, ok := typed[r]; ok && o != ty && o != "?" && ty != "?" {
			return true
		}
		if typed[r] == "" || typed[r] == "?" {
			typed[r] = ty
		}
	}
	for _, l := range ls {
		if l.pos && l.a.S == "bool" {
			r := cc.find(l.a.A[0])
			if ty := typed[r]; ty != "" && ty != "?" && ty != "bool" {
				return true
			}
			if typed == nil {
				typed = map[*Term]string{}
			}
			typed[r] = "bool"
		}
	}
	for _, l := range ls {
		if l.a.S != "istype" {
			continue
		}
		r := cc.find(l.a.A[0])
		if l.pos && r.K == KNil {
			return true
		}
		if ty := typed[r]; ty != "" && ty != "?" && (l.a.A[1].S == ty) != l.pos {
			return true
		}
	}
	type fact struct {
		key string
		pos bool
	}
	facts := map[string]bool{}
	bad := false
	add := func(pos bool, op string, as ...*Term) {
		kb := append([]byte(op), 0)
		for _, a := range as {
			kb = binary.AppendVarint(kb, int64(cc.find(a).id))
		}
		k := string(kb)
		if v, ok := facts[k]; ok && v != pos {
			bad = true
		}
		facts[k] = pos
	}
	_ = fact{}
	for _, l := range ls {
		a := l.a
		switch a.S {
		case "eq":
			if !l.pos && cc.find(a.A[0]) == cc.find(a.A[1]) {
				return true
			}
		case "lt":
			if cc.find(a.A[0]) == cc.find(a.A[1]) && l.pos {
				return true
			}
			add(l.pos, "lt", a.A[0], a.A[1])
			if l.pos {
				add(false, "lt", a.A[1], a.A[0])
			}
		default:
			op := a.S
			if a.K == KAtom && (a.S == "exit" || a.S == "mvb") {
				op = fmt.Sprintf("%s%d/%d", a.S, a.I, a.N)
			}
			add(l.pos, op, a.A...)
		}
		if !l.pos && a.S == "mem" && a.A[1].K == KIt && m.s.regions[a.A[1].I].kind == "pick" {
			add(false, "ne", a.A[0]) // an arbitrary entry exists whenever there is one
		}
		if l.pos {
			switch a.S {
			case "mem":
				add(true, "ne", a.A[0])
				add(true, "has", a.A[0], m.s.Key(a.A[0], a.A[1]))
				add(true, "elem", a.A[0], m.s.Elem(a.A[0], a.A[1]))
			case "has", "elem":
				add(true, "ne", a.A[0])
				add(true, "mem", a.A[0], m.witness(a.A[0], a.S, a.A[1]))
			case "eq":
				for _, p := range [][2]*Term{{a.A[0], a.A[1]}, {a.A[1], a.A[0]}} {
					if v, ok := intConst(p[0]); ok && isLen(p[1]) {
						add(v > 0, "ne", p[1].A[0])
					}
				}
			case "lt":
				if v, ok := intConst(a.A[0]); ok && v >= 0 && isLen(a.A[1]) {
					add(true, "ne", a.A[1].A[0])
				}
			case "istype":
				for _, k := range ls {
					if k.pos && k.a != a && k.a.S == "istype" && cc.find(k.a.A[0]) == cc.find(a.A[0]) && k.a.A[1] != a.A[1] {
						return true
					}
				}
			}
		}
		if bad {
			return true
		}
	}
	return bad
}

// congruence closure
type cclos struct {
	s     *Store
	rep   map[*Term]*Term
	terms []*Term
	tab   map[string]*Term
	buf   []byte
	clash bool
}

func newCC(s *Store) *cclos {
	return &cclos{s: s, rep: map[*Term]*Term{}, tab: map[string]*Term{}}
}

func (c *cclos) atom(a *Term) {
	for _, x := range a.A {
		c.add(x)
	}
}

func (c *cclos) add(t *Term) {
	if _, ok := c.rep[t]; ok {
		return
	}
	c.rep[t] = t
	for _, x := range t.A {
		c.add(x)
	}
	c.terms = append(c.terms, t)
}

func (c *cclos) root(t *Term) *Term {
	for {
		r := c.rep[t]
		if r == t {
			return t
		}
		t = r
	}
}

func (c *cclos) find(t *Term) *Term {
	if _, ok := c.rep[t]; !ok {
		c.rep[t] = t
		for _, x := range t.A {
			c.find(x)
		}
		c.terms = append(c.terms, t)
		if len(t.A) > 0 { // a term seen late: look for a congruent one
			k := c.sig(t)
			if u, ok := c.tab[k]; ok {
				if u != t {
					c.rep[t] = c.root(u)
				}
			} else {
				c.tab[k] = t
			}
		}
	}
	return c.root(t)
}

func isVal(t *Term) bool { return t.K == KConst || t.K == KNil }

func (c *cclos) merge(a, b *Term) {
	c.add(a)
	c.add(b)
	x, y := c.root(a), c.root(b)
	if x == y {
		return
	}
	if isVal(x) && isVal(y) {
		c.clash = true
		return
	}
	if isVal(y) {
		x, y = y, x
	}
	c.rep[y] = x
}

func (c *cclos) sig(t *Term) string {
	b := c.buf[:0]
	b = append(b, byte(t.K))
	b = append(b, t.S...)
	b = binary.AppendVarint(append(b, 0), int64(t.I))
	b = binary.AppendVarint(b, int64(t.N))
	for _, x := range t.A {
		b = binary.AppendVarint(b, int64(c.find(x).id))
	}
	for _, g := range t.G {
		b = binary.AppendVarint(b, int64(g))
	}
	c.buf = b
	return string(b)
}

func (c *cclos) close() {
	for ch := true; ch && !c.clash; {
		ch = false
		clear(c.tab)
		for _, t := range c.terms {
			if len(t.A) == 0 {
				continue
			}
			k := c.sig(t)
			if u, ok := c.tab[k]; ok {
				if c.root(u) != c.root(t) {
					c.merge(u, t)
					ch = true
				}
			} else {
				c.tab[k] = t
			}
		}
	}
}
