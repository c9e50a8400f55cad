package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Clauses: a formula over a summary is unfolded into conjunctions of literals over
// the state at entry. Tokens of iterations are existentially quantified variables.
// ---------------------------------------------------------------------------

type Lit struct {
	a   *Term
	pos bool
}

// Neg: none of the clauses holds for any choice of the tokens bound in them.
type Neg struct {
	cs []*Clause
}

type Clause struct {
	f     Node
	negs  []*Neg
	order []*Neg // required only when the clause is used to cover something
	head  []*Term
	flaws []string
	marks []string // what was unfolded, for reports
	side  int
}

type deriv struct {
	g     Node
	key   *Term
	val   *Term
	flaw  string
	over  string // why another value may be there instead
	negs  []*Neg
	order []*Neg
	late  bool   // put there by an iteration or activation
	ban   *subst // results of the activations below count for themselves
}

type Clauser struct {
	in      *Interp
	s       *Store
	count   int
	selfRec map[string]bool
	cvMemo  map[*Term][]*Clause
	relMemo map[*Term]*relDef
	// only the keys of a content are asked for
	keysOnly bool
	keyMemo  map[*Term]*relDef
	busy     int
	side     int

	defining map[int]bool
	vdefs    map[int]*varDef
	attS     *subst
	attN     int
	escMemo  map[int]map[int]bool
	keepsOf  map[string]bool
	curDef   []deriv // what the closure variable being defined collects
	curVar   *Term   // that variable
}

// relDef is a content of a loop or recursion, unfolded once.
type relDef struct {
	done  bool
	cs    []*Clause // heads: key, value ("none" when there is none)
	first int       // tags from here on are bound in the clauses
}

func NewClauser(in *Interp) *Clauser {
	return &Clauser{in: in, s: in.Store, selfRec: map[string]bool{}, cvMemo: map[*Term][]*Clause{}, relMemo: map[*Term]*relDef{}, keyMemo: map[*Term]*relDef{}, defining: map[int]bool{}, vdefs: map[int]*varDef{}}
}

// ---- instances -------------------------------------------------------------

func (s *Store) freshTag(root int) string {
	s.nfresh++
	t := fmt.Sprintf(";%d", s.nfresh)
	s.tagRoot[t] = root
	return t
}

func (s *Store) tags(n int) []string {
	var out []string
	name := s.instN[n]
	for name != "" {
		j := strings.IndexByte(name[1:], ';')
		if j < 0 {
			out = append(out, name)
			break
		}
		out = append(out, name[:j+1])
		name = name[j+1:]
	}
	return out
}

// reinst gives generic facts the instance n.
func (s *Store) reinst(n int) func(t *Term) *Term {
	tags := s.tags(n)
	var us []*subst
	for _, t := range tags {
		us = append(us, s.renamer(s.tagRoot[t], t))
	}
	return func(t *Term) *Term {
		for _, u := range us {
			t = u.term(t)
		}
		return t
	}
}

func (s *Store) reinstN(n int) func(x Node) Node {
	f := s.reinst(n)
	return func(x Node) Node { return s.asBDD(f(s.Bool(x))) }
}

// ---- cubes -----------------------------------------------------------------

func (c *Clauser) cubes(f Node) [][]Lit {
	var out [][]Lit
	b := c.s.bdd
	var cur []Lit
	memo := map[[2]Node]Node{}
	var isop func(l, u Node, emit bool) Node
	isop = func(l, u Node, emit bool) Node {
		if l == bddFalse {
			return bddFalse
		}
		if u == bddTrue {
			if emit {
				out = append(out, append([]Lit{}, cur...))
				if len(out) > 20000 {
					panic(analysisLimit("too many cases"))
				}
			}
			return bddTrue
		}
		if !emit {
			if r, ok := memo[[2]Node{l, u}]; ok {
				return r
			}
		}
		v := b.nodes[l].v
		if w := b.nodes[u].v; w < v {
			v = w
		}
		co := func(n Node) (Node, Node) {
			if b.nodes[n].v == v {
				return b.nodes[n].lo, b.nodes[n].hi
			}
			return n, n
		}
		l0, l1 := co(l)
		u0, u1 := co(u)
		at := b.atoms[v]
		n := len(cur)
		lo := b.And(l0, b.Not(u1))
		hi := b.And(l1, b.Not(u0))
		if emit {
			cur = append(cur, Lit{at, false})
		}
		r0 := isop(lo, u0, emit)
		cur = cur[:n]
		if emit {
			cur = append(cur, Lit{at, true})
		}
		r1 := isop(hi, u1, emit)
		cur = cur[:n]
		ld := b.Or(b.And(l0, b.Not(r0)), b.And(l1, b.Not(r1)))
		rd := isop(ld, b.And(u0, u1), emit)
		r := b.Or(b.mk(v, r0, r1), rd)
		if !emit {
			memo[[2]Node{l, u}] = r
		}
		return r
	}
	isop(f, f, true)
	return out
}

// ---- derivations of contents -------------------------------------------------

func (c *Clauser) isRootedContent(t *Term) bool {
	switch t.K {
	case KParam, KGlobal:
		return true
	case KField, KLookup, KElem, KKey:
		return c.isRootedContent(t.A[0])
	case KApp:
		switch t.S {
		case "clone", "compact", "sorted", "keys", "values", "asmap", "newmap", "copyinto", "ref", "delall":
			return false
		}
		return true
	case KMV:
		return c.isVar(t)
	}
	return false
}

// isVar: closure variables stay as they are.
func (c *Clauser) isVar(t *Term) bool {
	return t.K == KMV && (strings.HasPrefix(t.S, "cv:") || strings.HasPrefix(t.S, "param"))
}

func cellOf(t *Term) string {
	if i := strings.IndexByte(t.S, ':'); i >= 0 && (t.S[:i] == "in" || t.S[:i] == "out" || t.S[:i] == "mid" || t.S[:i] == "cv") {
		return t.S[i+1:]
	}
	return t.S
}

// part is a piece of a content that only grew: its base, or what one step added.
type part struct {
	g    Node
	x    *Term
	step bool // only what x adds to its base
}

// grown takes a content apart into the pieces it grew from; reports whether a piece is
// common to several alternatives.
func (c *Clauser) grown(x *Term) ([]part, bool) {
	s, b := c.s, c.s.bdd
	var out []part
	idx := map[string]int{}
	merged := false
	put := func(g Node, x *Term, step bool) {
		k := fmt.Sprint(x.id, step)
		if i, ok := idx[k]; ok {
			out[i].g = b.Or(out[i].g, g)
			merged = true
			return
		}
		idx[k] = len(out)
		out = append(out, part{g, x, step})
	}
	n := 0
	var rec func(g Node, x *Term)
	rec = func(g Node, x *Term) {
		if n++; n > 60 {
			put(g, x, false)
			return
		}
		switch x.K {
		case KEmpty, KNil, KZeros:
			return
		case KChoice:
			for i, a := range x.A {
				if h := b.And(g, x.G[i]); h != bddFalse {
					rec(h, a)
				}
			}
			return
		case KAppend, KAppAll, KMIns:
			rec(g, x.A[0])
			put(g, x, true)
			return
		case KMV:
			if c.isVar(x) || !strings.HasPrefix(x.S, "out:") {
				break
			}
			reg := s.regions[x.I]
			if reg.kind != "loop" || reg.src[x.S] == nil {
				break
			}
			for _, sr := range reg.src[x.S] {
				if sr.init {
					fn, ft := s.reinstN(x.N), s.reinst(x.N)
					rec(b.And(g, fn(c.inner(reg, sr.g))), ft(sr.v))
				}
			}
			put(g, x, true)
			return
		}
		put(g, x, false)
	}
	rec(bddTrue, x)
	return out, merged
}

// entries enumerates the entries of x, or only their keys.
func (c *Clauser) entries(x *Term, keysOnly bool) []deriv {
	saved := c.keysOnly
	c.keysOnly = keysOnly
	defer func() { c.keysOnly = saved }()
	return c.derivs(x, nil)
}

// derivs enumerates the ways in which something is an element of content x.
func (c *Clauser) derivs(x *Term, busy map[string]bool) []deriv {
	return c.derivsOf(x, busy, false)
}

func (c *Clauser) derivsOf(x *Term, busy map[string]bool, step bool) []deriv {
	s, b := c.s, c.s.bdd
	if c.busy++; c.busy > 200000 {
		panic(analysisLimit("derivations"))
	}
	cond := func(g Node, ds []deriv) []deriv {
		var out []deriv
		for _, d := range ds {
			d.g = b.And(d.g, g)
			if d.g != bddFalse {
				out = append(out, d)
			}
		}
		return out
	}
	switch x.K {
	case KEmpty, KNil, KZeros:
		return nil
	case KChoice:
		var out []deriv
		if ps, merged := c.grown(x); merged {
			for _, p := range ps {
				out = append(out, cond(p.g, c.derivsOf(p.x, busy, p.step))...)
			}
			return out
		}
		for i, a := range x.A {
			out = append(out, cond(x.G[i], c.derivs(a, busy))...)
		}
		return out
	case KAppend, KAppAll, KMIns:
		var out []deriv
		if !step {
			out = c.derivs(x.A[0], busy)
		}
		switch x.K {
		case KAppend:
			return append(out, deriv{g: bddTrue, val: x.A[1]})
		case KAppAll:
			return append(out, c.derivs(x.A[1], busy)...)
		}
		for i := range out {
			if d := &out[i]; d.key != nil && d.over == "" && !c.keysOnly && !c.oneValue(d.key, d.val, x.A[1], x.A[2]) && s.Eq(d.key, x.A[1]) != bddFalse {
				d.over = "another entry may have the same key"
			}
		}
		return append(out, deriv{g: bddTrue, key: x.A[1], val: x.A[2]})
	case KMDel:
		var out []deriv
		for _, d := range c.derivs(x.A[0], busy) {
			if d.key != nil {
				d.g = b.And(d.g, b.Not(s.Eq(d.key, x.A[1])))
			}
			if d.g != bddFalse {
				out = append(out, d)
			}
		}
		return out
	case KSub:
		ds := c.derivs(x.A[0], busy)
		if why := c.subWhole(x); why != "" {
			for i := range ds {
				ds[i].flaw = why
			}
		}
		return ds
	case KAlloc:
		// a local container whose contents were saved
		if v := c.in.content(&State{mem: map[*Term]*Term{}}, x); v != x {
			return c.derivs(v, busy)
		}
	case KApp:
		if x.S == "keys" || x.S == "values" {
			saved := c.keysOnly
			c.keysOnly = x.S == "keys"
			defer func() { c.keysOnly = saved }()
		}
		switch x.S {
		case "clone", "compact", "sorted", "asmap", "newmap":
			return c.derivs(x.A[0], busy)
		case "keys":
			ds := c.derivs(x.A[0], busy)
			for i := range ds {
				ds[i].val, ds[i].key = ds[i].key, nil
			}
			return ds
		case "values":
			ds := c.derivs(x.A[0], busy)
			for i := range ds {
				ds[i].key = nil
			}
			return ds
		case "copyinto":
			ds := c.derivs(x.A[1], busy)
			if len(x.A) > 2 {
				for i := range ds {
					ds[i].flaw = "copied into a buffer that may be too short"
				}
			}
			return append(c.derivs(x.A[0], busy), ds...)
		}
	case KMV:
		if c.isVar(x) {
			break
		}
		cell := cellOf(x)
		key := fmt.Sprintf("%d:%s", x.I, cell)
		if busy[key] {
			return nil
		}
		if busy == nil && !step {
			if ds, ok := c.rel(x); ok {
				return ds
			}
		}
		reg := s.regions[x.I]
		src, ok := reg.src[x.S]
		if !ok {
			src = reg.src["out:"+cell]
		}
		if src == nil {
			break
		}
		nb := map[string]bool{key: true}
		for k := range busy {
			nb[k] = true
		}
		var out []deriv
		lost := ""
		for _, sr := range src {
			if !sr.init && reg.iterates() && !c.keeps(sr.v, x.I, cell, 0) {
				lost = "what was collected is dropped again (" + c.in.w.pos(reg.pos) + ")"
			}
		}
		defer func() {
			for i := range out {
				if out[i].flaw == "" {
					out[i].flaw = lost
				}
			}
		}()
		for _, sr := range src {
			v := sr.v
			if v.K == KMV && v.I == x.I && cellOf(v) == cell || step && sr.init {
				continue
			}
			ds := cond(c.inner(reg, sr.g), c.derivs(v, nb))
			n := x.N
			if !sr.init {
				n = s.inst(s.instN[n] + s.freshTag(x.I))
				for i := range ds {
					ds[i].late = true
					if d := &ds[i]; d.key != nil && d.val != nil && d.over == "" && !c.functional(d.key, d.val, x.I) {
						d.over = "another entry may have the same key (" + c.in.w.pos(reg.pos) + ")"
					}
				}
			}
			out = append(out, c.retag(ds, n)...)
		}
		if reg.iterates() && strings.HasPrefix(x.S, "out:") && reg.full {
			c.deletions(x, cell, src, out)
		}
		if strings.HasPrefix(x.S, "in:") {
			for i := range out {
				if out[i].flaw == "" && out[i].late {
					out[i].flaw = "collected before the loop was left early (" + c.in.w.pos(reg.pos) + ")"
				}
			}
		}
		return out
	}
	// existed at entry (or unknown)
	reg := s.region(fmt.Sprintf("any:%d", x.id), "any", 0)
	reg.full = true
	it := s.It(reg.id, s.inst(s.freshTag(reg.id)))
	return []deriv{{g: s.Mem(x, it), key: s.Key(x, it), val: s.App("entry", x, it)}}
}

// keeps: the content contains what the variable of the loop held before (except what
// was taken out on purpose: a work item, a deleted key).
func (c *Clauser) keeps(v *Term, region int, cell string, depth int) bool {
	if depth > 12 {
		return false
	}
	switch v.K {
	case KMV:
		if v.I == region && cellOf(v) == cell {
			return true
		}
		if v.I == region {
			return false
		}
		vc := cellOf(v)
		if strings.HasPrefix(v.S, "mid:") {
			// a call of the function itself: it keeps what its body keeps
			k := fmt.Sprint(v.I, " ", vc)
			if r, ok := c.keepsOf[k]; ok {
				return r
			}
			if c.keepsOf == nil {
				c.keepsOf = map[string]bool{}
			}
			c.keepsOf[k] = true
			for _, sr := range c.s.regions[v.I].src["out:"+vc] {
				if !sr.init && !c.keeps(sr.v, v.I, vc, 0) {
					c.keepsOf[k] = false
				}
			}
			return c.keepsOf[k]
		}
		src := c.s.regions[v.I].src[v.S]
		if src == nil {
			src = c.s.regions[v.I].src["out:"+vc]
		}
		if len(src) == 0 {
			return false
		}
		for _, sr := range src {
			if sr.init && !c.keeps(sr.v, region, cell, depth+1) {
				return false
			}
			if !sr.init && !c.keeps(sr.v, v.I, vc, depth+1) && !c.keeps(sr.v, region, cell, depth+1) {
				return false
			}
		}
		return true
	case KAppend, KMIns, KMDel, KSub:
		return c.keeps(v.A[0], region, cell, depth+1)
	case KAppAll:
		return c.keeps(v.A[0], region, cell, depth+1) || c.keeps(v.A[1], region, cell, depth+1)
	case KChoice:
		for _, a := range v.A {
			if !c.keeps(a, region, cell, depth+1) {
				return false
			}
		}
		return true
	case KApp:
		switch v.S {
		case "clone", "compact", "sorted", "asmap":
			return c.keeps(v.A[0], region, cell, depth+1)
		case "copyinto":
			return c.keeps(v.A[0], region, cell, depth+1) || c.keeps(v.A[1], region, cell, depth+1)
		}
	case KAlloc:
		if y := c.in.content(&State{mem: map[*Term]*Term{}}, v); y != v {
			return c.keeps(y, region, cell, depth+1)
		}
	}
	return false
}

// deletions: a loop that only deletes from a map leaves what no iteration deleted.
func (c *Clauser) deletions(x *Term, cell string, src []source, out []deriv) {
	s, b := c.s, c.s.bdd
	type del struct {
		g Node
		k *Term
	}
	var dels []del
	var walk func(g Node, v *Term) bool
	walk = func(g Node, v *Term) bool {
		switch v.K {
		case KMV:
			return v.I == x.I && cellOf(v) == cell
		case KMDel:
			dels = append(dels, del{g, v.A[1]})
			return walk(g, v.A[0])
		case KChoice:
			for i, a := range v.A {
				if !walk(b.And(g, v.G[i]), a) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, sr := range src {
		if !sr.init && !walk(c.inner(s.regions[x.I], sr.g), sr.v) {
			return
		}
	}
	if len(dels) == 0 || len(s.regions[x.I].exits) > 0 {
		return
	}
	for i := range out {
		if out[i].key == nil {
			return
		}
		n := s.inst(s.instN[x.N] + s.freshTag(x.I))
		var alts []deriv
		for _, d := range dels {
			alts = append(alts, deriv{g: b.And(s.reinstN(n)(d.g), s.Eq(out[i].key, s.reinst(n)(d.k)))})
		}
		out[i].negs = append(append([]*Neg{}, out[i].negs...), c.negOf(&work{}, alts, 0))
	}
}

func (c *Clauser) retag(ds []deriv, n int) []deriv {
	if n == 0 {
		return ds
	}
	ft, fn := c.s.reinst(n), c.s.reinstN(n)
	out := make([]deriv, len(ds))
	for i, d := range ds {
		out[i] = deriv{g: fn(d.g), flaw: d.flaw, over: d.over, negs: mapNegs(d.negs, ft, fn), order: mapNegs(d.order, ft, fn)}
		if d.key != nil {
			out[i].key = ft(d.key)
		}
		if d.val != nil {
			out[i].val = ft(d.val)
		}
	}
	return out
}

// inner drops from a guard what holds whenever the region is entered.
func (c *Clauser) inner(reg *Region, g Node) Node {
	if reg.entryG == bddFalse || g == bddFalse {
		return g
	}
	return c.s.bdd.Restrict(g, reg.entryG)
}

func mapNegs(ns []*Neg, ft func(*Term) *Term, fn func(Node) Node) []*Neg {
	var out []*Neg
	for _, n := range ns {
		m := &Neg{}
		for _, cl := range n.cs {
			m.cs = append(m.cs, mapClause(cl, ft, fn))
		}
		out = append(out, m)
	}
	return out
}

func mapClause(cl *Clause, ft func(*Term) *Term, fn func(Node) Node) *Clause {
	head := make([]*Term, len(cl.head))
	for i, h := range cl.head {
		head[i] = ft(h)
	}
	return &Clause{f: fn(cl.f), negs: mapNegs(cl.negs, ft, fn), order: mapNegs(cl.order, ft, fn), head: head, flaws: cl.flaws, marks: cl.marks, side: cl.side}
}

// rel unfolds the content x once and gives a fresh copy of its clauses.
func (c *Clauser) rel(x *Term) ([]deriv, bool) {
	s := c.s
	x0 := s.MV(x.I, x.S, 0)
	memo, keysOnly := c.relMemo, c.keysOnly
	if keysOnly {
		memo = c.keyMemo
	}
	r := memo[x0]
	none := s.App("none")
	if r == nil {
		r = &relDef{first: s.nfresh + 1}
		memo[x0] = r
		c.keysOnly = false
		defer func() { c.keysOnly = keysOnly }()
		var cs []*Clause
		ds := c.derivs(x0, map[string]bool{"": true})
		saved, savedVar := c.curDef, c.curVar
		c.curDef, c.curVar = ds, nil
		defer func() { c.curDef, c.curVar = saved, savedVar }()
		for _, d := range ds {
			k, v := d.key, d.val
			if k == nil {
				k = none
			}
			if v == nil || keysOnly && d.key != nil {
				v = none
			}
			ecs := c.Expand(d.g, k, v)
			for _, cl := range ecs {
				cl.flaws = addFlaw(cl.flaws, d.flaw)
				if d.over != "" && v != none {
					cl.flaws = addFlaw(cl.flaws, valueFlaw+d.over)
				}
				cl.negs = append(append([]*Neg{}, d.negs...), cl.negs...)
				cl.order = append(append([]*Neg{}, d.order...), cl.order...)
			}
			cs = append(cs, ecs...)
		}
		r.cs = c.minimise(cs, r.first)
		r.done = true
	}
	if !r.done {
		return nil, false
	}
	ft := c.refresher(r.first)
	fi := func(t *Term) *Term { return t }
	if x.N != 0 {
		fi = s.reinst(x.N)
	}
	f := func(t *Term) *Term { return fi(ft(t)) }
	fn := func(n Node) Node { return s.asBDD(f(s.Bool(n))) }
	var out []deriv
	for _, cl := range r.cs {
		m := mapClause(cl, f, fn)
		d := deriv{g: m.f, key: m.head[0], val: m.head[1], negs: m.negs, order: m.order}
		if d.key == none {
			d.key = nil
		}
		if d.val == none {
			d.val = nil
		}
		for _, fl := range m.flaws {
			if o, ok := strings.CutPrefix(fl, valueFlaw); ok {
				d.over = o
			} else if d.flaw == "" {
				d.flaw = fl
			} else {
				d.flaw += "; " + fl
			}
		}
		out = append(out, d)
	}
	return out, true
}

// refresher renames every tag from number first on.
func (c *Clauser) refresher(first int) func(t *Term) *Term {
	s := c.s
	ren := map[string]string{}
	last := s.nfresh
	name := func(n int) int {
		tags := s.tags(n)
		ch := false
		for i, t := range tags {
			var k int
			if _, err := fmt.Sscanf(t, ";%d", &k); err == nil && k >= first && k <= last {
				if ren[t] == "" {
					ren[t] = s.freshTag(s.tagRoot[t])
				}
				tags[i] = ren[t]
				ch = true
			}
		}
		if !ch {
			return n
		}
		return s.inst(strings.Join(tags, ""))
	}
	var u *subst
	u = s.newSubst(func(t *Term) *Term {
		switch t.K {
		case KIt, KMV, KAlloc:
			if n := name(t.N); n != t.N {
				a := make([]*Term, len(t.A))
				for i, x := range t.A {
					a[i] = u.term(x)
				}
				return s.mk(t.K, t.S, t.I, n, a, t.G)
			}
		case KAtom:
			if t.S == "exit" || t.S == "mvb" {
				if n := name(t.N); n != t.N {
					return s.mk(t.K, t.S, t.I, n, t.A, t.G)
				}
				return t
			}
		}
		return nil
	})
	return u.term
}

// bound lists the tokens and variables of a clause with a tag from first on.
func (c *Clauser) bound(cl *Clause, first int) []*Term {
	s := c.s
	var out []*Term
	seen := map[*Term]bool{}
	visit := func(t *Term) bool {
		if (t.K == KIt || t.K == KMV) && !seen[t] {
			seen[t] = true
			for _, g := range s.tags(t.N) {
				var k int
				if _, err := fmt.Sscanf(g, ";%d", &k); err == nil && k >= first {
					out = append(out, t)
					break
				}
			}
		}
		return false
	}
	s.contains(s.Bool(cl.f), visit)
	for _, h := range cl.head {
		s.contains(h, visit)
	}
	return out
}

// minimise drops clauses that follow from others and joins clauses about the same things.
func (c *Clauser) minimise(cs []*Clause, first int) []*Clause {
	s, b := c.s, c.s.bdd
	align := func(x, y *Clause) *subst {
		bx, by := c.bound(x, first), c.bound(y, first)
		ky := map[string]*Term{}
		for _, t := range by {
			k := fmt.Sprintf("%d|%s|%d", t.K, t.S, t.I)
			if ky[k] != nil {
				return nil
			}
			ky[k] = t
		}
		m := map[*Term]*Term{}
		seen := map[string]bool{}
		for _, t := range bx {
			k := fmt.Sprintf("%d|%s|%d", t.K, t.S, t.I)
			if seen[k] || ky[k] == nil {
				return nil
			}
			seen[k] = true
			m[t] = ky[k]
		}
		u := s.newSubst(func(t *Term) *Term { return m[t] })
		for t, v := range m {
			if len(t.A) != len(v.A) {
				return nil
			}
			for i := range t.A {
				if u.term(t.A[i]) != v.A[i] {
					return nil
				}
			}
		}
		return u
	}
	heads := func(u *subst, x, y *Clause) bool {
		if len(x.head) != len(y.head) {
			return false
		}
		for i := range x.head {
			if u.term(x.head[i]) != y.head[i] {
				return false
			}
		}
		return true
	}
	sub := func(fx, fy []string) bool {
		for _, f := range fx {
			ok := false
			for _, g := range fy {
				ok = ok || f == g
			}
			if !ok {
				return false
			}
		}
		return true
	}
	var out []*Clause
	for _, y := range cs {
		dropped := false
		for i, x := range out {
			if len(x.negs)+len(x.order) > 0 || !sub(x.flaws, y.flaws) {
				continue
			}
			u := align(x, y)
			if u == nil || !heads(u, x, y) {
				continue
			}
			fx := u.node(x.f)
			if b.And(y.f, b.Not(fx)) == bddFalse {
				dropped = true
				break
			}
			if len(y.negs)+len(y.order) == 0 && len(c.bound(x, first)) == len(c.bound(y, first)) && sub(y.flaws, x.flaws) {
				out[i] = &Clause{f: b.Or(fx, y.f), head: y.head, flaws: y.flaws, side: y.side}
				dropped = true
				break
			}
		}
		if dropped {
			continue
		}
		var keep []*Clause
		for _, x := range out {
			if len(y.negs)+len(y.order) == 0 && sub(y.flaws, x.flaws) {
				if u := align(y, x); u != nil && heads(u, y, x) && b.And(x.f, b.Not(u.node(y.f))) == bddFalse {
					continue
				}
			}
			keep = append(keep, x)
		}
		out = append(keep, y)
	}
	return out
}

// subWhole: "" when x[lo:hi] leaves nothing out.
func (c *Clauser) subWhole(x *Term) string {
	lo, hi := x.A[1], x.A[2]
	if lo.K == KConst && lo.S == "1" && hi.K == KNil {
		return "" // the head of a work list
	}
	if lo.K != KNil && !(lo.K == KConst && lo.S == "0") {
		return "part of a sequence is cut off"
	}
	base := x.A[0]
	if hi.K == KNil {
		return ""
	}
	if isLen(hi) && hi.A[0] == base {
		return ""
	}
	if n, ok := intConst(hi); ok {
		x := base
		for x.K == KMIns {
			if k, ok := intConst(x.A[1]); !ok || k >= n {
				break
			}
			x = x.A[0]
		}
		if x.K == KZeros {
			return ""
		}
	}
	if base.K == KApp && base.S == "copyinto" && isLen(hi) && hi.A[0] == base.A[1] {
		return ""
	}
	if hi.K == KApp && hi.S == "-" && isLen(hi.A[0]) && hi.A[0].A[0] == base && hi.A[1].S == "1" {
		return "" // the top of a work list
	}
	// counter lemma
	if base.K == KMV && hi.K == KMV && base.I == hi.I {
		reg := c.s.regions[base.I]
		bs, hs := reg.src["out:"+cellOf(base)], reg.src["out:"+cellOf(hi)]
		if len(bs) == len(hs) && len(bs) > 0 {
			ok := true
			for i := range bs {
				if bs[i].init {
					if !(hs[i].v.K == KConst && hs[i].v.S == "0") {
						ok = false
					}
					continue
				}
				if c.stepNode(bs[i].v, base, hi) != c.countNode(hs[i].v, hi) {
					ok = false
				}
			}
			if ok {
				return ""
			}
		}
	}
	return "part of a sequence is cut off"
}

func (c *Clauser) stepNode(v, base, ctr *Term) Node {
	b := c.s.bdd
	switch v.K {
	case KChoice:
		r := bddFalse
		for i, a := range v.A {
			r = b.Or(r, b.And(v.G[i], c.stepNode(a, base, ctr)))
		}
		return r
	case KMIns:
		if v.A[1].K == KMV && v.A[1].I == ctr.I && cellOf(v.A[1]) == cellOf(ctr) {
			return bddTrue
		}
		return b.Var(c.s.Atom("unkbool", v))
	}
	return bddFalse
}

func (c *Clauser) countNode(v, ctr *Term) Node {
	b := c.s.bdd
	switch v.K {
	case KChoice:
		r := bddFalse
		for i, a := range v.A {
			r = b.Or(r, b.And(v.G[i], c.countNode(a, ctr)))
		}
		return r
	case KApp:
		if v.S == "+" && v.A[1].S == "1" && v.A[0].K == KMV && cellOf(v.A[0]) == cellOf(ctr) {
			return bddTrue
		}
	case KMV:
		if cellOf(v) == cellOf(ctr) {
			return bddFalse
		}
	}
	return b.Var(c.s.Atom("unkbool", v))
}

// isSelfRec: elements of the content are used inside the loop that builds it.
func (c *Clauser) isSelfRec(mv *Term) bool {
	s := c.s
	cell := cellOf(mv)
	key := fmt.Sprintf("%d:%s", mv.I, cell)
	if r, ok := c.selfRec[key]; ok {
		return r
	}
	uses := func(t *Term) bool {
		return s.contains(t, func(x *Term) bool {
			switch x.K {
			case KElem, KKey, KLookup:
				a := x.A[0]
				return a.K == KMV && a.I == mv.I && strings.HasPrefix(a.S, "in:") && cellOf(a) == cell && (x.K != KLookup || x.A[1].K == KKey)
			case KAtom:
				return x.S == "mem" && x.A[0].K == KMV && x.A[0].I == mv.I && strings.HasPrefix(x.A[0].S, "in:") && cellOf(x.A[0]) == cell
			}
			return false
		})
	}
	res := false
	for _, r := range s.regions {
		if res || !s.within(r.id, mv.I) {
			continue
		}
		for _, src := range r.src {
			for _, sr := range src {
				if uses(sr.v) || uses(s.Bool(sr.g)) {
					res = true
				}
			}
		}
		for _, e := range r.exits {
			if uses(s.Bool(e.g)) {
				res = true
			}
		}
	}
	c.selfRec[key] = res
	return res
}

// ---- unfolding ---------------------------------------------------------------

type work struct {
	f     Node
	head  []*Term
	negs  []*Neg
	order []*Neg
	flaws []string
	subs  []*subst // what tokens were found to stand for
	ifs   []*ifUsed
}

// ifUsed: a flaw that matters only if the value of an entry is looked at.
type ifUsed struct {
	used bool
	why  string
}

const valueFlaw = "value: "

func (w *work) with(f Node, head []*Term) *work {
	return &work{f: f, head: head, negs: w.negs, order: w.order, flaws: w.flaws, subs: w.subs, ifs: w.ifs}
}

func (w *work) seen(f Node) Node {
	for _, u := range w.subs {
		f = u.node(f)
	}
	return f
}

func (w *work) seenT(t *Term) *Term {
	for _, u := range w.subs {
		t = u.term(t)
	}
	return t
}

// decide records the truth of an atom in this branch.
func (w *work) decide(s *Store, a *Term, val bool) *work {
	v := s.Bool(bddFalse)
	if val {
		v = s.Bool(bddTrue)
	}
	u := s.newSubst(func(t *Term) *Term {
		if t == a {
			return v
		}
		return nil
	})
	w.subs = append(append([]*subst{}, w.subs...), u)
	return w
}

// adopt brings derivations into the context of w.
func (c *Clauser) adopt(w *work, ds []deriv) []deriv {
	u := c.att()
	subs := append([]*subst{u}, w.subs...)
	out := make([]deriv, len(ds))
	for i, d := range ds {
		for _, u := range subs {
			d.g = u.node(d.g)
			if d.key != nil {
				d.key = u.term(d.key)
			}
			if d.val != nil {
				d.val = u.term(d.val)
			}
			d.negs, d.order = substNegs(u, d.negs), substNegs(u, d.order)
		}
		out[i] = d
	}
	return out
}

func (w *work) add(d deriv) *work {
	if d.ban != nil {
		w.subs = append(append([]*subst{}, w.subs...), d.ban)
	}
	w.flaws = addFlaw(w.flaws, d.flaw)
	if len(d.negs) > 0 {
		w.negs = append(append([]*Neg{}, w.negs...), d.negs...)
	}
	if len(d.order) > 0 {
		w.order = append(append([]*Neg{}, w.order...), d.order...)
	}
	return w
}

func addFlaw(fs []string, f string) []string {
	if f == "" {
		return fs
	}
	for _, x := range fs {
		if x == f {
			return fs
		}
	}
	return append(append([]string{}, fs...), f)
}

// Expand unfolds a formula (with a head tuple) into clauses.
func (c *Clauser) Expand(f Node, head ...*Term) []*Clause {
	var out []*Clause
	c.expand(&work{f: f, head: head}, 0, func(cl *Clause) { out = append(out, cl) })
	return c.minimise(c.dedupe(out), 0)
}

func (c *Clauser) expand(w *work, depth int, emit func(*Clause)) {
	if w.f == bddFalse {
		return
	}
	if depth > 80 {
		if dbgUnfold {
			for _, a := range c.s.bdd.Support(w.f) {
				fmt.Println("  ", trunc(c.s.str(a), 260))
			}
		}
		panic(analysisLimit("unfolding too deep"))
	}
	c.count++
	dbgCount++
	if c.count > capClauses {
		panic(analysisLimit("too many clauses"))
	}
	b := c.s.bdd
	w = c.closeVars(w)
	for _, a := range b.Support(w.f) {
		if a.S == "ne" && a.A[0].K == KMV && strings.HasPrefix(a.A[0].S, "out:") {
			reg := c.s.regions[a.A[0].I]
			if reg.drained == b.Not(b.Var(c.s.Atom("ne", c.s.MV(reg.id, a.A[0].S, 0)))) {
				w = w.with(b.Cofactor(w.f, a, false), w.head)
			}
		}
	}
	if w.f == bddFalse {
		return
	}
	sup := b.Support(w.f)
	// 1. exits
	var grp *Term
	for _, a := range sup {
		if a.K == KAtom && a.S == "exit" {
			if grp == nil || a.I < grp.I || a.I == grp.I && a.N < grp.N {
				grp = a
			}
		}
	}
	if grp != nil {
		c.expandExits(w, grp, depth, emit)
		return
	}
	// 2. contents
	for _, a := range sup {
		if a.S == "mem" && c.local(a.A[0]) && b.Cofactor(w.f, a, true) != bddFalse {
			if c.unfoldMem(w, a, depth, emit) {
				return
			}
		}
	}
	// 3. choices left inside atoms or the head
	if ch := c.findChoice(sup, w.head); ch != nil {
		c.splitChoice(w, ch, depth, emit)
		return
	}
	for pass := 0; pass < 2; pass++ {
		for _, a := range sup {
			if c.unfoldAtom(w, a, pass, depth, emit) {
				return
			}
		}
	}
	// 4. look-ups in local maps and last values of loop variables
	if t := c.findLocalTerm(sup, w.head); t != nil {
		c.unfoldTerm(w, t, depth, emit)
		return
	}
	// an arbitrary entry is there when there is one
	f := w.f
	for _, a := range sup {
		if a.S == "mem" && a.A[1].K == KIt && c.s.regions[a.A[1].I].kind == "pick" {
			f1, f0 := b.Cofactor(f, a, true), b.Cofactor(f, a, false)
			ne := c.s.NonEmpty(a.A[0])
			f = b.Or(b.And(f1, f0), b.Or(b.And(b.Var(a), f1), b.And(b.Not(ne), f0)))
		}
	}
	if f != w.f {
		w = w.with(f, w.head)
	}
	c.emitClause(w, emit)
}

func (c *Clauser) emitClause(w *work, emit func(*Clause)) {
	cl := &Clause{f: w.f, negs: w.negs, order: w.order, head: w.head, flaws: w.flaws, side: c.side}
	for _, i := range w.ifs {
		if i.used {
			cl.flaws = addFlaw(cl.flaws, i.why)
		}
	}
	emit(cl)
}

// assumeNonEmpty: x has an element, so tests for emptiness are decided.
func (c *Clauser) assumeNonEmpty(f Node, x *Term) Node {
	b := c.s.bdd
	for _, a := range b.Support(f) {
		if a.S == "ne" && a.A[0] == x {
			f = b.Cofactor(f, a, true)
		}
	}
	return f
}

func (c *Clauser) unfoldMem(w *work, a *Term, depth int, emit func(*Clause)) bool {
	s, b := c.s, c.s.bdd
	x, it := a.A[0], a.A[1]
	if dbgOn {
		dbgDump(c, w.f, "unfold "+trunc(c.s.str(a), 200))
	}
	f1, f0 := b.Cofactor(w.f, a, true), b.Cofactor(w.f, a, false)
	if f0 != bddFalse {
		// an iteration is over one thing: here, not over x
		c.expand(w.with(f0, w.head).decide(s, a, false), depth+1, emit)
		if b.And(f1, b.Not(f0)) == bddFalse {
			return true
		}
		f1 = b.Restrict(f1, b.Not(f0))
	}
	f1 = c.assumeNonEmpty(f1, x)
	elemT, keyT := s.Elem(x, it), s.Key(x, it)
	lookT := s.Lookup(x, keyT)
	dbgMem(c, x, it, w)
	strip := func(t *Term) *Term {
		for t.K == KSub || t.K == KApp && (t.S == "clone" || t.S == "compact" || t.S == "sorted" || t.S == "asmap") {
			t = t.A[0]
		}
		return t
	}
	same := map[*Term]bool{}
	for _, y := range []*Term{x, w.seenT(x)} {
		for _, a := range c.variants(y) {
			same[a], same[strip(a)] = true, true
		}
	}
	for _, d := range c.adopt(w, c.derivs(x, nil)) {
		d := d
		use := &ifUsed{why: d.over}
		elem := func(t *Term) *Term {
			switch t.K {
			case KElem:
				if (t == elemT || same[t.A[0]] && t.A[1] == it) && d.val != nil {
					use.used = true
					return c.entryVal(d.val, true)
				}
			case KKey:
				if (t == keyT || same[t.A[0]] && t.A[1] == it) && d.key != nil {
					return d.key
				}
			case KLookup:
				if (t == lookT || same[t.A[0]] && t.A[1].K == KKey && same[t.A[1].A[0]] && t.A[1].A[1] == it) && d.val != nil {
					use.used = true
					return c.entryVal(d.val, false)
				}
			}
			return nil
		}
		u := s.newSubst(func(t *Term) *Term {
			if t == a {
				return s.True()
			}
			return elem(t)
		})
		w2 := c.apply(w, u, f1, d.g).add(d)
		if d.over != "" {
			w2.ifs = append(append([]*ifUsed{}, w2.ifs...), use)
		}
		c.expand(w2, depth+1, emit)
	}
	return true
}

// variants lists x with its choices resolved in every way.
func (c *Clauser) variants(x *Term) []*Term {
	out := []*Term{x}
	for i := 0; i < len(out) && len(out) < 64; i++ {
		var ch *Term
		c.s.contains(out[i], func(t *Term) bool {
			if ch == nil && t.K == KChoice {
				ch = t
			}
			return ch != nil
		})
		if ch == nil {
			continue
		}
		for _, a := range ch.A {
			a := a
			out = append(out, c.s.newSubst(func(t *Term) *Term {
				if t == ch {
					return a
				}
				return nil
			}).term(out[i]))
		}
	}
	return out
}

// apply substitutes in the formula, the head and the negative parts.
func (c *Clauser) apply(w *work, u *subst, f, g Node) *work {
	head := make([]*Term, len(w.head))
	for i, h := range w.head {
		head[i] = u.term(h)
	}
	w2 := w.with(c.s.bdd.And(g, u.node(f)), head)
	w2.negs = substNegs(u, w.negs)
	w2.order = substNegs(u, w.order)
	w2.subs = append(append([]*subst{}, w.subs...), u)
	return w2
}

func substNegs(u *subst, ns []*Neg) []*Neg {
	if len(ns) == 0 {
		return nil
	}
	out := make([]*Neg, len(ns))
	for i, n := range ns {
		m := &Neg{}
		for _, cl := range n.cs {
			m.cs = append(m.cs, substClause(u, cl))
		}
		out[i] = m
	}
	return out
}

func substClause(u *subst, cl *Clause) *Clause {
	head := make([]*Term, len(cl.head))
	for i, h := range cl.head {
		head[i] = u.term(h)
	}
	return &Clause{f: u.node(cl.f), negs: substNegs(u, cl.negs), order: substNegs(u, cl.order), head: head, flaws: cl.flaws, marks: cl.marks, side: cl.side}
}

func (c *Clauser) splitChoice(w *work, ch *Term, depth int, emit func(*Clause)) {
	s, b := c.s, c.s.bdd
	inHead := false
	for _, h := range w.head {
		if s.contains(h, func(t *Term) bool { return t == ch }) {
			inHead = true
		}
	}
	isCh := func(t *Term) bool { return t == ch }
	inVar := func(t *Term) bool { return t.K == KMV && len(t.A) > 0 && s.contains(t, isCh) }
	inHead = inHead || s.contains(s.Bool(w.f), inVar)
	var inNegs func(ns []*Neg) bool
	inNegs = func(ns []*Neg) bool {
		for _, n := range ns {
			for _, cl := range n.cs {
				if s.contains(s.Bool(cl.f), isCh) || inNegs(cl.negs) || inNegs(cl.order) {
					return true
				}
			}
		}
		return false
	}
	inHead = inHead || inNegs(w.negs) || inNegs(w.order)
	sum := bddFalse
	for k, alt := range ch.A {
		alt := alt
		u := s.newSubst(func(t *Term) *Term {
			if t == ch {
				return alt
			}
			return nil
		})
		if inHead {
			c.expand(c.apply(w, u, w.f, ch.G[k]), depth+1, emit)
			continue
		}
		sum = b.Or(sum, b.And(ch.G[k], u.node(w.f)))
	}
	if !inHead {
		c.expand(w.with(sum, w.head), depth+1, emit)
	}
}

// alternatives of a literal about a local content or a loop variable
func (c *Clauser) alts(a *Term) (alts []deriv, neg, ok bool) {
	s, b := c.s, c.s.bdd
	switch a.S {
	case "has", "elem", "ne":
		x := a.A[0]
		if !c.local(x) {
			return nil, false, false
		}
		for _, d := range c.entries(x, a.S == "has") {
			if a.S == "has" {
				if d.key == nil {
					continue
				}
				d.g = b.And(d.g, s.Eq(d.key, a.A[1]))
			} else if a.S == "elem" {
				d.g = b.And(d.g, s.Eq(c.entryVal(d.val, true), a.A[1]))
				d.flaw += d.over
			}
			alts = append(alts, d)
		}
		return alts, false, true
	case "bool":
		x := a.A[0]
		if x.K == KLookup && c.local(x.A[0]) {
			for _, d := range c.derivs(x.A[0], nil) {
				if d.key == nil {
					continue
				}
				d.g = b.And(d.g, b.And(s.Eq(d.key, x.A[1]), s.asBDD(c.entryVal(d.val, false))))
				d.flaw += d.over
				alts = append(alts, d)
			}
			return alts, false, true
		}
		if x.K == KMV && !c.isVar(x) {
			return c.boolMV(x)
		}
	case "eq":
		for i := range 2 {
			if alts, ok := c.allKept(a.A[i], a.A[1-i]); ok {
				return alts, true, true
			}
		}
	}
	return nil, false, false
}

// allKept: x is the number of things a loop over a container kept of it, n is how many there
// are; they differ when there is one that it did not keep. Gives the ways not to keep one.
func (c *Clauser) allKept(x, n *Term) ([]deriv, bool) {
	s, b := c.s, c.s.bdd
	if n.K != KApp || n.S != "len" {
		return nil, false
	}
	if x.K == KApp && x.S == "len" {
		x = x.A[0]
	}
	if x.K == KSub && len(x.A) == 3 && x.A[1].K == KNil && x.A[2].K == KMV {
		x = x.A[2]
	}
	if x.K != KMV || !strings.HasPrefix(x.S, "out:") || x.I == 0 {
		return nil, false
	}
	reg := s.regions[x.I]
	if reg.kind != "loop" || !reg.full || len(reg.exits) > 0 || reg.cont == nil || s.reinst(x.N)(reg.cont) != n.A[0] {
		return nil, false
	}
	var alts []deriv
	in := s.MV(x.I, "in:"+cellOf(x), 0)
	inst := s.reinstN(s.inst(s.instN[x.N] + s.freshTag(x.I)))
	inits := 0
	for _, sr := range c.sources(x) {
		if sr.init {
			if e := sr.v.K == KEmpty || sr.v.K == KNil || sr.v == s.Int(0); !e {
				return nil, false
			}
			inits++
			continue
		}
		gs, vs := []Node{bddTrue}, []*Term{sr.v}
		if sr.v.K == KChoice {
			gs, vs = sr.v.G, sr.v.A
		}
		for i, v := range vs {
			switch {
			case v == in:
				if g := b.And(c.inner(reg, sr.g), gs[i]); g != bddFalse {
					alts = append(alts, deriv{g: inst(g)})
				}
			case v.K == KAppend && v.A[0] == in, v.K == KApp && v.S == "+" && v.A[0] == in && v.A[1] == s.Int(1):
			default:
				return nil, false
			}
		}
	}
	return alts, inits == 1
}

func (c *Clauser) unfoldAtom(w *work, a *Term, pass, depth int, emit func(*Clause)) bool {
	b := c.s.bdd
	switch a.S {
	case "ne":
		if pass == 0 {
			return false
		}
	case "has", "elem", "bool":
		if pass == 1 {
			return false
		}
	case "eq":
		if pass == 0 || !isLen(a.A[0]) && !isLen(a.A[1]) {
			return false
		}
	default:
		return false
	}
	f1, f0 := b.Cofactor(w.f, a, true), b.Cofactor(w.f, a, false)
	onlyNeg := b.And(f1, b.Not(f0)) == bddFalse
	onlyPos := b.And(f0, b.Not(f1)) == bddFalse
	if onlyNeg && a.S != "ne" && a.S != "eq" {
		var x *Term
		if a.S == "bool" {
			if a.A[0].K == KLookup {
				x = a.A[0].A[0]
			}
		} else {
			x = a.A[0]
		}
		if x != nil && c.local(x) {
			if ok, notIn := c.firstVisit(a, x, f0, w); ok {
				c.expand(w.with(b.And(f0, notIn), w.head), depth+1, emit)
				return true
			}
		}
	}
	if dbgUnfold && depth > 66 {
		fmt.Println("UNFOLD", depth, trunc(c.s.str(a), 300))
	}
	alts, neg, ok := c.alts(a)
	if !ok {
		return false
	}
	alts = c.adopt(w, alts)
	if neg { // a holds when none of the alternatives does
		f1, f0 = f0, f1
		onlyNeg, onlyPos = onlyPos, onlyNeg
	}
	// now: f1 applies when some alternative holds
	if onlyPos && f0 != bddFalse {
		c.expand(w.with(f0, w.head), depth+1, emit)
	}
	if !onlyNeg {
		g1 := f1
		if onlyPos {
			g1 = c.trim(w, f1, f0)
		}
		if !neg && (a.S == "has" || a.S == "elem") {
			g1 = c.assumeNonEmpty(g1, a.A[0])
		}
		for _, d := range alts {
			c.expand(w.with(b.And(d.g, g1), w.head).add(d).decide(c.s, a, !neg), depth+1, emit)
		}
	}
	if onlyNeg && f1 != bddFalse {
		c.expand(w.with(f1, w.head), depth+1, emit)
	}
	if !onlyPos {
		g0 := f0
		if onlyNeg {
			g0 = c.trim(w, f0, f1)
		}
		n := c.negOf(w, alts, depth)
		var kept []*Clause
		for _, cl := range n.cs {
			// nothing in a collection: the collection is empty
			if x := c.merelyMember(cl, w); x != nil {
				g0 = b.And(g0, b.Not(c.s.NonEmpty(x)))
				continue
			}
			kept = append(kept, cl)
		}
		n.cs = kept
		w2 := w.with(g0, w.head)
		if len(n.cs) > 0 {
			w2.negs = append(append([]*Neg{}, w2.negs...), n)
		}
		c.expand(w2.decide(c.s, a, neg), depth+1, emit)
	}
	return true
}

// merelyMember: the clause says no more than that the collection has some entry.
func (c *Clauser) merelyMember(cl *Clause, w *work) *Term {
	if len(cl.head) > 0 || len(cl.negs) > 0 || len(cl.order) > 0 || len(cl.flaws) > 0 {
		return nil
	}
	for _, a := range c.s.bdd.Support(cl.f) {
		if cl.f == c.s.bdd.Var(a) && a.K == KAtom && a.S == "mem" && a.A[1].K == KIt && a.A[1].N != 0 && a.A[0].K != KMV {
			is := func(t *Term) bool { return t == a.A[1] }
			if c.s.contains(a.A[0], is) || c.s.contains(c.s.Bool(w.f), is) || negsMention(c.s, w.negs, is) || negsMention(c.s, w.order, is) {
				return nil
			}
			for _, h := range w.head {
				if c.s.contains(h, is) {
					return nil
				}
			}
			return a.A[0]
		}
	}
	return nil
}

func negsMention(s *Store, ns []*Neg, is func(*Term) bool) bool {
	for _, n := range ns {
		for _, cl := range n.cs {
			if s.contains(s.Bool(cl.f), is) || negsMention(s, cl.negs, is) || negsMention(s, cl.order, is) {
				return true
			}
		}
	}
	return false
}

func (c *Clauser) unfoldTerm(w *work, t *Term, depth int, emit func(*Clause)) {
	s, b := c.s, c.s.bdd
	is := func(y *Term) bool { return y == t }
	free := !negsMention(s, w.negs, is) && !negsMention(s, w.order, is)
	for _, h := range w.head {
		free = free && !s.contains(h, is)
	}
	if free {
		// what holds whatever the value is
		ind := w.f
		for _, a := range b.Support(w.f) {
			if s.contains(a, is) {
				ind = b.And(b.Cofactor(ind, a, true), b.Cofactor(ind, a, false))
			}
		}
		if ind != bddFalse {
			c.expand(w.with(ind, w.head), depth+1, emit)
			if ind == w.f {
				return
			}
			w = w.with(b.Restrict(w.f, b.Not(ind)), w.head)
		}
	}
	put := func(v *Term, g Node, d deriv) {
		u := s.newSubst(func(y *Term) *Term {
			if y == t {
				return v
			}
			return nil
		})
		c.expand(c.apply(w, u, w.f, g).add(d), depth+1, emit)
	}
	if t.K == KLookup {
		for _, d := range c.adopt(w, c.derivs(t.A[0], nil)) {
			if d.key == nil {
				continue
			}
			d.flaw += d.over
			put(c.entryVal(d.val, false), b.And(d.g, s.Eq(d.key, t.A[1])), d)
		}
		put(s.App("zeroval"), b.Not(s.Has(t.A[0], t.A[1])), deriv{})
		return
	}
	for _, d := range c.adopt(w, c.scalarAlts(t)) {
		put(d.val, d.g, d)
	}
}

func (c *Clauser) expandExits(w *work, grp *Term, depth int, emit func(*Clause)) {
	s, b := c.s, c.s.bdd
	reg := s.regions[grp.I]
	n := grp.N
	at := func(k int) *Term { return s.mk(KAtom, "exit", reg.id, n, []*Term{s.Int(int64(k))}, nil) }
	cof := func(k int) Node {
		f := w.f
		for j := range reg.exits {
			f = b.Cofactor(f, at(j), j == k)
		}
		return f
	}
	none := cof(-1)
	fn := s.reinstN(n)
	// the tokens an exit guard speaks about, under a fresh instance
	ex := func(k int) *Neg {
		n2 := s.inst(s.instN[n] + s.freshTag(reg.id))
		g := w.seen(c.att().node(s.reinstN(n2)(c.inner(reg, reg.exits[k].g))))
		return &Neg{cs: c.sub(w, g, depth)}
	}
	done := map[Node]bool{}
	grouped := !c.headMentions(w.head, reg.id, n)
	for k := range reg.exits {
		ok := cof(k)
		if ok == bddFalse {
			continue
		}
		// exits after which everything is the same are one exit
		eg := reg.exits[k].g
		if grouped {
			if done[ok] {
				continue
			}
			done[ok] = true
			for j := k + 1; j < len(reg.exits); j++ {
				if cof(j) == ok {
					eg = b.Or(eg, reg.exits[j].g)
				}
			}
		}
		if ok == none {
			// does not matter for the formula; the head may still depend on it
			if !c.headMentions(w.head, reg.id, n) {
				continue
			}
		}
		okT := ok
		if none != bddFalse && b.And(none, b.Not(ok)) == bddFalse && !c.headMentions(w.head, reg.id, n) {
			okT = c.trim(w, ok, none)
		}
		left := w.seen(c.att().node(fn(c.inner(reg, eg))))
		w2 := w.with(b.And(okT, left), w.head)
		for j := range reg.exits {
			if j != k && b.And(ok, b.Not(cof(j))) != bddFalse {
				w2.order = append(append([]*Neg{}, w2.order...), ex(j))
			}
		}
		if reg.iterates() && left != bddFalse && c.leaks(reg, n, okT, w.head) && c.leaks(reg, n, b.Restrict(okT, left), w.head) {
			w2.flaws = addFlaw(w2.flaws, "only the first element found is considered (loop at "+c.in.w.pos(reg.pos)+")")
		}
		c.expand(w2, depth+1, emit)
	}
	if none != bddFalse {
		w2 := w.with(none, w.head)
		for k := range reg.exits {
			if b.And(none, b.Not(cof(k))) != bddFalse {
				w2.negs = append(append([]*Neg{}, w2.negs...), ex(k))
			}
		}
		c.expand(w2, depth+1, emit)
	}
}

// leaks: what follows an early exit of the loop depends on the element it was left at.
func (c *Clauser) leaks(reg *Region, n int, f Node, head []*Term) bool {
	s := c.s
	own := func(t *Term) bool {
		return (t.K == KIt || t.K == KMV && !strings.HasPrefix(t.S, "out:")) && t.I == reg.id
	}
	esc, ok := c.escMemo[reg.id]
	if !ok {
		esc = map[int]bool{}
		for _, r := range s.regions[1:] {
			if r == nil || s.within(r.id, reg.id) || r.side != reg.side {
				continue
			}
			has := func(x *Term) bool { return x != nil && s.contains(x, own) }
			found := has(r.cont) || r.memAtom != nil && has(r.memAtom)
			for _, e := range r.exits {
				found = found || has(s.Bool(e.g))
			}
			for _, ss := range r.src {
				for _, sr := range ss {
					found = found || has(sr.v) || has(s.Bool(sr.g))
				}
			}
			if found {
				if dbgDef {
					fmt.Println("ESC", reg.id, r.id, r.kind, r.fn, c.in.w.pos(r.pos), has(r.cont))
				}
				esc[r.id] = true
			}
		}
		if c.escMemo == nil {
			c.escMemo = map[int]map[int]bool{}
		}
		c.escMemo[reg.id] = esc
	}
	chk := func(t *Term) bool {
		if own(t) && t.N == n {
			return true
		}
		r := regionOf(t)
		return r > 0 && esc[r]
	}
	if s.contains(s.Bool(f), chk) {
		if dbgDef {
			fmt.Println("LEAK", reg.id, trunc(c.fstr(f), 800))
		}
		return true
	}
	for _, h := range head {
		if s.contains(h, chk) {
			return true
		}
	}
	return false
}

// trim strengthens f, at most by what f0 already covers, so that it depends on fewer atoms.
func (c *Clauser) trim(w *work, f, f0 Node) Node {
	b := c.s.bdd
	if f0 == bddFalse {
		return f
	}
	for _, h := range w.head {
		if c.s.contains(h, func(t *Term) bool { return t.K == KChoice || t.K == KBool }) {
			return f
		}
	}
	low := b.And(f, b.Not(f0))
	if low == bddFalse {
		return f
	}
	for pass := 0; pass < 2; pass++ {
		for _, a := range b.Support(f) {
			if (pass == 0) != (a.S == "exit" || a.S == "mvb" || a.S == "mem") {
				continue
			}
			g := b.And(b.Cofactor(f, a, true), b.Cofactor(f, a, false))
			if b.And(low, b.Not(g)) == bddFalse {
				f = g
			}
		}
	}
	return f
}

func (c *Clauser) headMentions(head []*Term, region, n int) bool {
	for _, h := range head {
		if c.s.contains(h, func(t *Term) bool { return t.K == KIt && t.I == region && t.N == n }) {
			return true
		}
	}
	return false
}

func (c *Clauser) sub(w *work, g Node, depth int) []*Clause {
	var out []*Clause
	c.expand(&work{f: g, subs: w.subs}, depth+1, func(cl *Clause) { out = append(out, cl) })
	return c.minimise(c.dedupe(out), 0)
}

// closeVars turns elements of work lists into closure variables.
func (c *Clauser) closeVars(w *work) *work {
	u := c.att()
	f := u.node(w.f)
	head := make([]*Term, len(w.head))
	same := f == w.f
	for i, h := range w.head {
		head[i] = u.term(h)
		same = same && head[i] == h
	}
	if same {
		return w
	}
	return w.with(f, head)
}

// att gives closure variables their arguments: what their values depend on outside the
// loop or recursion they belong to.
func (c *Clauser) att() *subst {
	if c.attS != nil && c.attN == len(c.defining) {
		return c.attS
	}
	s := c.s
	isIn := func(t *Term) bool {
		return t.K == KMV && strings.HasPrefix(t.S, "in:") && c.isSelfRec(t)
	}
	u := s.newSubst(func(t *Term) *Term {
		switch t.K {
		case KElem, KKey:
			if isIn(t.A[0]) {
				return c.varTerm(t.A[0].I, "cv:"+cellOf(t.A[0]), t.A[0].N)
			}
		case KAtom:
			if (t.S == "mem" || t.S == "ne") && isIn(t.A[0]) {
				return s.True()
			}
		case KMV:
			if len(t.A) == 0 && c.isVar(t) {
				return c.varTerm(t.I, t.S, t.N)
			}
		}
		return nil
	})
	c.attS, c.attN = u, len(c.defining)
	return u
}

func (c *Clauser) varTerm(region int, name string, n int) *Term {
	s := c.s
	if c.defining[region] {
		return s.MV(region, name, n)
	}
	d := c.regionDef(region)
	ft := s.reinst(n)
	var a []*Term
	for _, x := range d.ctx {
		a = append(a, ft(x))
	}
	return s.mk(KMV, name, region, n, a, nil)
}

// varDef defines the closure variables of a loop or recursion.
type varDef struct {
	ctx   []*Term // what the definitions take from outside
	ph    []*Term
	cs    map[string][]*Clause
	first int
}

func (c *Clauser) regionDef(id int) *varDef {
	if d := c.vdefs[id]; d != nil {
		return d
	}
	s := c.s
	reg := s.regions[id]
	d := &varDef{cs: map[string][]*Clause{}, first: s.nfresh + 1}
	c.defining[id] = true
	defer func() { delete(c.defining, id); c.attS = nil }()
	outer := func(x *Term) bool {
		return (x.K == KIt || x.K == KMV) && s.regions[x.I].kind != "any" && x.I != 0 && !s.within(x.I, id)
	}
	inner := func(x *Term) bool {
		switch x.K {
		case KIt, KMV:
			return s.within(x.I, id) || s.regions[x.I].kind == "any"
		case KAtom:
			return (x.S == "exit" || x.S == "mvb") && s.within(x.I, id)
		}
		return false
	}
	abs := s.newSubst(func(t *Term) *Term {
		switch t.K {
		case KBool:
			return nil
		case KAtom:
			if t.S == "mem" && s.contains(t, outer) && !s.contains(t, inner) {
				return s.True() // the enclosing iteration is under way
			}
			return nil
		}
		if s.contains(t, outer) && !s.contains(t, inner) {
			for i, x := range d.ctx {
				if x == t {
					return d.ph[i]
				}
			}
			p := s.mk(KParam, "ctx", 100000+t.id, 0, nil, nil)
			d.ctx, d.ph = append(d.ctx, t), append(d.ph, p)
			if dbgIt > 0 {
				fmt.Println("CTX", id, trunc(s.str(t), 700))
			}
			return p
		}
		return nil
	})
	expand := func(name string, g Node, v *Term, dd deriv) {
		u := c.att()
		var out []*Clause
		ds := c.adopt(&work{subs: []*subst{abs}}, []deriv{{g: g, val: v, negs: dd.negs, order: dd.order, flaw: dd.flaw}})
		_ = u
		w := (&work{f: ds[0].g, head: []*Term{ds[0].val}, subs: []*subst{abs}}).add(ds[0])
		c.expand(w, 0, func(cl *Clause) { out = append(out, cl) })
		if c.curVar != nil && c.curVar.I == id {
			// being the very thing it was reached from adds nothing
			for _, cl := range out {
				for _, a := range s.bdd.Support(cl.f) {
					if a.K != KAtom || a.S != "eq" || len(a.A) != 2 {
						continue
					}
					for i, t := range a.A {
						if t.K == KMV && t.I == id && t.S == name && a.A[1-i] == cl.head[0] && cl.head[0] != t {
							cl.f = s.bdd.Cofactor(cl.f, a, false)
						}
					}
				}
			}
		}
		d.cs[name] = append(d.cs[name], c.minimise(c.dedupe(out), d.first)...)
	}
	var names []string
	for _, k := range sortedKeys(reg.src) {
		if strings.HasPrefix(k, "param") {
			names = append(names, k)
		} else if strings.HasPrefix(k, "in:") && c.isSelfRec(s.MV(id, k, 0)) {
			names = append(names, "cv:"+k[3:])
		}
	}
	savedVar := c.curVar
	changing := 0
	for _, name := range names {
		for _, sr := range reg.src[name] {
			if !sr.init && !(sr.v.K == KMV && sr.v.I == id && sr.v.S == name) {
				changing++
				break
			}
		}
		if strings.HasPrefix(name, "cv:") {
			changing++
		}
	}
	for _, name := range names {
		if strings.HasPrefix(name, "param") {
			saved := c.curDef
			c.curDef = nil
			if c.curVar = nil; changing == 1 {
				c.curVar = s.MV(id, name, 0)
			}
			for _, sr := range reg.src[name] {
				c.curDef = append(c.curDef, deriv{g: c.inner(reg, sr.g), val: sr.v})
			}
			for _, sr := range reg.src[name] {
				n := 0
				if !sr.init {
					n = s.inst(s.freshTag(id))
				}
				if sr.v.K == KMV && sr.v.I == id && sr.v.S == name {
					continue
				}
				expand(name, s.reinstN(n)(c.inner(reg, sr.g)), s.reinst(n)(sr.v), deriv{})
			}
			c.curDef, c.curVar = saved, savedVar
			continue
		}
		dds := c.derivs(s.MV(id, "out:"+name[3:], 0), map[string]bool{"": true})
		for _, dd := range dds {
			v := dd.val
			if v == nil {
				v = dd.key
			}
			saved := c.curDef
			c.curDef = dds
			if c.curVar = nil; changing == 1 {
				c.curVar = s.MV(id, name, 0)
			}
			if dbgDef {
				fmt.Println("DD", name, s.str(v), trunc(c.fstr(dd.g), 200), dd.flaw)
			}
			expand(name, dd.g, c.entryVal(v, true), dd)
			c.curDef, c.curVar = saved, savedVar
		}
	}
	c.vdefs[id] = d
	if dbgDef {
		for k, cs := range d.cs {
			for _, cl := range cs {
				fmt.Println("DEF", id, k, trunc(c.str(cl), 500))
			}
		}
	}
	return d
}

var dbgDef = os.Getenv("DBGDEF") != ""

func (c *Clauser) lits2node(ls []Lit) Node {
	b := c.s.bdd
	r := bddTrue
	// build from the highest variable down to keep it cheap
	ls = append([]Lit{}, ls...)
	sort.Slice(ls, func(i, j int) bool { return b.index[ls[i].a] > b.index[ls[j].a] })
	for _, l := range ls {
		v := b.Var(l.a)
		if !l.pos {
			v = b.Not(v)
		}
		r = b.And(r, v)
	}
	return r
}

// local: derivs knows how the content came about.
func (c *Clauser) local(x *Term) bool {
	switch x.K {
	case KEmpty, KNil, KZeros, KChoice, KAppend, KAppAll, KMIns, KMDel, KSub:
		return true
	case KAlloc:
		return c.in.content(&State{mem: map[*Term]*Term{}}, x) != x
	case KApp:
		switch x.S {
		case "clone", "compact", "sorted", "asmap", "newmap", "keys", "values", "copyinto":
			return true
		}
	case KMV:
		if c.isVar(x) {
			return false
		}
		return c.sources(x) != nil
	}
	return false
}

func without(ls []Lit, i int) []Lit {
	out := append([]Lit{}, ls[:i]...)
	return append(out, ls[i+1:]...)
}

func (c *Clauser) negOf(w *work, alts []deriv, depth int) *Neg {
	n := &Neg{}
	for _, d := range alts {
		wd := w
		if d.ban != nil {
			wd = w.with(w.f, w.head).add(deriv{ban: d.ban})
		}
		cs := c.sub(wd, d.g, depth)
		for _, cl := range cs {
			cl.flaws = addFlaw(cl.flaws, d.flaw)
			cl.negs = append(append([]*Neg{}, d.negs...), cl.negs...)
			cl.order = append(append([]*Neg{}, d.order...), cl.order...)
		}
		n.cs = append(n.cs, cs...)
	}
	n.cs = c.dedupe(n.cs)
	return n
}

// entryVal resolves the value of "some entry of x" as sequence element or map value.
func (c *Clauser) entryVal(v *Term, seq bool) *Term {
	if v.K == KApp && v.S == "entry" {
		if seq {
			return c.s.Elem(v.A[0], v.A[1])
		}
		return c.s.Lookup(v.A[0], c.s.Key(v.A[0], v.A[1]))
	}
	return v
}

func (c *Clauser) findChoice(sup []*Term, head []*Term) *Term {
	var found *Term
	f := func(t *Term) bool {
		if t.K == KChoice {
			found = t
			return true
		}
		return false
	}
	for _, a := range sup {
		if c.s.contains(a, f) {
			return found
		}
	}
	for _, h := range head {
		if c.s.contains(h, f) {
			return found
		}
	}
	return nil
}

// findLocalTerm finds a look-up in a local map, or the value of a loop variable.
func (c *Clauser) findLocalTerm(sup []*Term, head []*Term) *Term {
	var found *Term
	within := map[*Term]bool{} // contents whose elements are spoken about
	f := func(t *Term) bool {
		switch t.K {
		case KElem, KKey:
			if t.A[0].K == KMV {
				within[t.A[0]] = true
			}
		case KLookup:
			if c.local(t.A[0]) && t.A[0].K != KUnk && t.A[0].K != KChoice {
				found = t
				return true
			}
		case KMV:
			if !within[t] && !c.isVar(t) && c.scalarAlts(t) != nil {
				found = t
				return true
			}
		}
		return false
	}
	for _, la := range sup {
		switch la.S {
		case "mem", "ne", "has", "elem":
			// the container itself is handled as content
			for _, x := range la.A[1:] {
				if c.s.contains(x, f) {
					return found
				}
			}
			if x := la.A[0]; x.K != KMV && c.s.contains(x, f) {
				return found
			}
			continue
		case "bool":
			if x := la.A[0]; x.K == KLookup || x.K == KMV {
				continue
			}
		}
		if c.s.contains(la, f) {
			return found
		}
	}
	for _, h := range head {
		if h.K == KMV && !c.scalar(h) {
			continue
		}
		if c.s.contains(h, f) {
			return found
		}
	}
	return nil
}

func (c *Clauser) sources(x *Term) []source {
	reg := c.s.regions[x.I]
	if src, ok := reg.src[x.S]; ok {
		return src
	}
	return reg.src["out:"+cellOf(x)]
}

func contentLike(v *Term) bool {
	switch v.K {
	case KEmpty, KZeros, KMIns, KMDel, KAppend, KAppAll, KSub:
		return true
	case KApp:
		switch v.S {
		case "clone", "compact", "sorted", "keys", "values", "asmap", "newmap", "copyinto", "delall":
			return true
		}
	case KChoice:
		for _, a := range v.A {
			if contentLike(a) {
				return true
			}
		}
	}
	return false
}

// scalar: no source of the variable is a container content.
func (c *Clauser) scalar(x *Term) bool {
	src := c.sources(x)
	if len(src) == 0 {
		return false
	}
	for _, s := range src {
		if contentLike(s.v) {
			return false
		}
	}
	return true
}

// lastAlts: a variable assigned in every pass of a complete iteration holds the value of
// the last entry (an arbitrary one), or its initial value when there is no entry.
func (c *Clauser) lastAlts(x *Term) []deriv {
	s, b := c.s, c.s.bdd
	reg := s.regions[x.I]
	if !strings.HasPrefix(x.S, "out:") || reg.cont == nil || !reg.full || len(reg.exits) > 0 || reg.kind == "rec" {
		return nil
	}
	src := c.sources(x)
	if len(src) != 2 || src[0].init == src[1].init {
		return nil
	}
	ini, upd := src[0], src[1]
	if !ini.init {
		ini, upd = upd, ini
	}
	mem := c.inner(reg, upd.g)
	all, ne := mem, s.newSubst(func(t *Term) *Term {
		if t.K == KAtom && t.S == "mem" && t.A[1].K == KIt && t.A[1].I == reg.id {
			return s.Bool(s.NonEmpty(t.A[0]))
		}
		return nil
	})
	for _, a := range b.Support(mem) {
		if a.S == "mem" && a.A[1].K == KIt && a.A[1].I == reg.id {
			all = b.Cofactor(all, a, true)
		}
	}
	if all != bddTrue || s.contains(upd.v, func(t *Term) bool { return t.K == KMV && t.I == x.I }) {
		return nil
	}
	pr := s.region(fmt.Sprintf("last:%d:%s", reg.id, x.S), "pick", reg.parent)
	pr.pos, pr.fn, pr.cont, pr.side = reg.pos, reg.fn, reg.cont, reg.side
	pr.src = map[string][]source{}
	it := s.It(pr.id, x.N)
	u := s.newSubst(func(t *Term) *Term {
		if t.K == KIt && t.I == reg.id {
			return it
		}
		return nil
	})
	ft, fn := s.reinst(x.N), s.reinstN(x.N)
	return []deriv{
		{g: u.node(fn(mem)), val: u.term(ft(upd.v))},
		{g: b.And(fn(c.inner(reg, ini.g)), b.Not(fn(ne.node(mem)))), val: ft(ini.v)},
	}
}

// scalarAlts are the values a loop variable can have.
func (c *Clauser) scalarAlts(x *Term) []deriv {
	if !c.scalar(x) {
		return nil
	}
	s := c.s
	if ds := c.lastAlts(x); ds != nil {
		return ds
	}
	var out []deriv
	n := 0
	for _, sr := range c.sources(x) {
		v := sr.v
		self := false
		if s.contains(v, func(t *Term) bool { return t.K == KMV && t.I == x.I && cellOf(t) == cellOf(x) }) {
			if v.K == KMV {
				self = true
			} else if v.K == KChoice {
				// some alternatives keep the value
			} else {
				return nil // grows with every iteration
			}
		}
		if self {
			continue
		}
		inst := x.N
		if !sr.init {
			inst = s.inst(s.instN[inst] + s.freshTag(x.I))
			n++
		}
		ft, fn := s.reinst(inst), s.reinstN(inst)
		vs, gs := []*Term{v}, []Node{bddTrue}
		if v.K == KChoice {
			vs, gs = v.A, v.G
		}
		for i, a := range vs {
			if a.K == KMV && a.I == x.I && cellOf(a) == cellOf(x) {
				continue
			}
			if s.contains(a, func(t *Term) bool { return t.K == KMV && t.I == x.I && cellOf(t) == cellOf(x) }) {
				return nil
			}
			out = append(out, deriv{g: fn(s.bdd.And(c.inner(s.regions[x.I], sr.g), gs[i])), val: ft(a), flaw: "value of a variable assigned in a loop"})
		}
	}
	return out
}

// boolMV describes a boolean loop variable: true when one of the alternatives holds
// (or, with neg, when none of them holds).
func (c *Clauser) boolMV(x *Term) (alts []deriv, neg, ok bool) {
	s, b := c.s, c.s.bdd
	var src []source
	for _, sr := range c.sources(x) {
		sr.g = c.inner(s.regions[x.I], sr.g)
		src = append(src, sr)
	}
	if len(src) == 0 {
		return nil, false, false
	}
	self := func(t *Term) bool {
		return t.K == KAtom && t.S == "bool" && t.A[0].K == KMV && t.A[0].I == x.I && cellOf(t.A[0]) == cellOf(x)
	}
	var initTrue, initFalse bool
	rec := s.regions[x.I].kind == "rec" && strings.HasPrefix(x.S, "ret")
	var selfAtoms []*Term
	for _, sr := range src {
		for _, a := range append(b.Support(sr.g), b.Support(s.asBDD(sr.v))...) {
			if self(a) {
				selfAtoms = append(selfAtoms, a)
			}
		}
	}
	sub := func(f Node, val bool) Node {
		for _, a := range selfAtoms {
			f = b.Cofactor(f, a, val)
		}
		return f
	}
	for _, sr := range src {
		if sr.init {
			v := s.asBDD(sr.v)
			if v == bddTrue {
				initTrue = true
			} else if v == bddFalse {
				initFalse = true
			} else {
				initFalse = true
				alts = append(alts, deriv{g: s.reinstN(x.N)(b.And(sr.g, v))})
			}
		}
	}
	if rec {
		// results of a recursive predicate: true when some activation says so by itself
		tag := s.freshTag(x.I)
		ban := s.newSubst(func(t *Term) *Term {
			if t.K == KAtom && t.S == "bool" && t.A[0].K == KMV && t.A[0].I == x.I && cellOf(t.A[0]) == cellOf(x) {
				for _, k := range s.tags(t.A[0].N) {
					if k == tag {
						return s.Bool(bddFalse)
					}
				}
			}
			return nil
		})
		n := s.inst(s.instN[x.N] + tag)
		for _, sr := range src {
			v := sub(b.And(sr.g, s.asBDD(sr.v)), false)
			if v == bddFalse {
				continue
			}
			alts = append(alts, deriv{g: s.reinstN(n)(v), ban: ban, flaw: c.passedOn(x)})
		}
		return alts, false, true
	}
	if !initTrue && !initFalse {
		return nil, false, false
	}
	if initTrue && len(alts) > 0 {
		return nil, false, false
	}
	for _, sr := range src {
		if sr.init {
			continue
		}
		v := s.asBDD(sr.v)
		n := s.inst(s.instN[x.N] + s.freshTag(x.I))
		fn := s.reinstN(n)
		if initFalse {
			// monotone: once true it stays true
			if b.And(sub(sr.g, true), b.Not(sub(v, true))) != bddFalse {
				return nil, false, false
			}
			if g := b.And(sub(sr.g, false), sub(v, false)); g != bddFalse {
				alts = append(alts, deriv{g: fn(g)})
			}
		} else {
			if b.And(sub(sr.g, false), sub(v, false)) != bddFalse {
				return nil, false, false
			}
			if g := b.And(sub(sr.g, true), b.Not(sub(v, true))); g != bddFalse {
				alts = append(alts, deriv{g: fn(g)})
			}
		}
	}
	return alts, initTrue, true
}

// passedOn: an activation of a recursive predicate says yes whenever one that it calls
// does; otherwise the reason why that is not clear.
func (c *Clauser) passedOn(x *Term) string {
	s, b := c.s, c.s.bdd
	reg := s.regions[x.I]
	self := func(t *Term) bool {
		return t.K == KAtom && t.S == "bool" && t.A[0].K == KMV && t.A[0].I == x.I && cellOf(t.A[0]) == cellOf(x)
	}
	var mentions func(g Node) bool
	mentions = func(g Node) bool {
		for _, a := range b.Support(g) {
			if self(a) {
				return true
			}
			if a.K == KAtom && a.S == "exit" && s.within(a.I, x.I) && a.I != x.I {
				k, _ := intConst(a.A[0])
				if mentions(s.regions[a.I].exits[k].g) {
					return true
				}
			}
		}
		return false
	}
	why := "the result of a recursive call is not always passed on (" + c.in.w.pos(reg.pos) + ")"
	v := bddFalse
	for _, sr := range c.sources(x) {
		v = b.Or(v, b.And(sr.g, s.asBDD(sr.v)))
	}
	var calls []Node
	for name, src := range reg.src {
		if strings.HasPrefix(name, "param") {
			for _, sr := range src {
				if !sr.init {
					calls = append(calls, sr.g)
				}
			}
		}
	}
	if len(calls) == 0 {
		return why
	}
	for _, call := range calls {
		ok := false
		for _, a := range b.Support(v) {
			if self(a) && b.And(call, b.Not(b.Cofactor(v, a, true))) == bddFalse {
				ok = true
			}
			if a.K != KAtom || a.S != "exit" || !s.within(a.I, x.I) {
				continue
			}
			inner := false
			s.contains(s.Bool(call), func(t *Term) bool {
				inner = inner || t.K == KIt && s.within(t.I, a.I)
				return inner
			})
			k, _ := intConst(a.A[0])
			if !inner || !mentions(s.regions[a.I].exits[k].g) {
				continue
			}
			vk := v
			for j := range s.regions[a.I].exits {
				vk = b.Cofactor(vk, s.mk(KAtom, "exit", a.I, a.N, []*Term{s.Int(int64(j))}, nil), int64(j) == k)
			}
			if b.And(call, b.Not(vk)) == bddFalse {
				ok = true
			}
		}
		if !ok {
			return why
		}
	}
	return ""
}

// firstVisit: the literal ¬(k ∈ S) only skips what was handled before under the same
// key, and what is done depends on the visited thing through that key alone.
func (c *Clauser) firstVisit(a, x *Term, rest Node, w *work) (bool, Node) {
	s := c.s
	var k *Term
	switch a.S {
	case "has", "elem":
		k = a.A[1]
	case "bool":
		k = a.A[0].A[1]
	default:
		return false, 0
	}
	if x.K != KMV || !strings.HasPrefix(x.S, "in:") && !strings.HasPrefix(x.S, "mid:") {
		return false, 0
	}
	// every insertion uses the same key expression of a visit
	gen := s.newSubst(func(y *Term) *Term { // forget instances and contexts
		switch y.K {
		case KMV:
			if c.isVar(y) {
				return s.mk(y.K, y.S, y.I, 0, nil, nil)
			}
			fallthrough
		case KIt, KAlloc:
			if y.N != 0 && len(y.A) == 0 {
				return s.mk(y.K, y.S, y.I, 0, nil, nil)
			}
		}
		return nil
	})
	norm := func(t *Term) *Term { return gen.term(c.att().term(t)) }
	ds := c.derivs(x, map[string]bool{"": true})
	if len(ds) == 0 {
		return false, 0
	}
	nk := norm(k)
	var insG []Node
	notIn := bddTrue
	for _, d := range ds {
		dk := d.key
		if a.S == "elem" {
			dk = c.entryVal(d.val, true)
		}
		if dk == nil {
			return false, 0
		}
		if norm(dk) != nk {
			// marked in advance: it must be among what is being collected
			ok := false
			if len(w.head) == 2 {
				for _, cd := range c.curDef {
					h := 0
					if w.head[0].S == "none" {
						h = 1
					}
					cv, ck := cd.val, cd.key
					if h == 1 {
						cv, ck = ck, cd.val
					}
					if norm(w.head[h]) == nk && ck != nil && norm(ck) == norm(dk) && (cv == nil && w.head[1-h].S == "none" || cv == w.head[1-h]) && s.bdd.And(d.g, s.bdd.Not(cd.g)) == bddFalse {
						ok = true
					}
				}
			}
			if len(w.head) == 1 && c.curVar != nil {
				// marked when visited: it was collected before that
				cv := norm(c.curVar)
				at := s.newSubst(func(t *Term) *Term {
					if t == w.head[0] {
						return c.curVar
					}
					return nil
				})
				if (k == w.head[0] || c.identifies(k, w.head[0])) && norm(at.term(k)) == norm(dk) && s.contains(norm(dk), func(t *Term) bool { return t == cv }) {
					ok = true
				}
			}
			if len(w.head) == 1 && norm(w.head[0]) == nk {
				for _, cd := range c.curDef {
					v := cd.val
					if v == nil {
						v = cd.key
					}
					if v = c.entryVal(v, true); v != nil && norm(v) == norm(dk) && s.bdd.And(d.g, s.bdd.Not(cd.g)) == bddFalse {
						ok = true
					}
				}
			}
			if !ok {
				if dbgDef {
					fmt.Println("NOFV", d.late, len(d.negs), d.flaw, trunc(s.str(dk), 200), "|", trunc(c.fstr(d.g), 300), "|", len(c.curDef), len(w.head), s.str(nk))
					for _, cd := range c.curDef {
						fmt.Println("   cd", s.str(cd.val), trunc(c.fstr(cd.g), 300))
					}
				}
				if !d.late && len(d.negs) == 0 && d.flaw == "" {
					// held from the start
					notIn = s.bdd.And(notIn, s.bdd.Not(s.bdd.And(d.g, s.Eq(k, dk))))
					continue
				}
				return false, 0
			}
			continue
		}
		insG = append(insG, d.g)
	}
	// what is visited
	subject := c.subjects(k)
	if len(subject) == 0 {
		return false, 0
	}
	repl := s.App("visited")
	u := s.newSubst(func(t *Term) *Term {
		if t == k {
			return repl
		}
		if t.K == KKey && k.K == KLookup && k.A[1] == t && k.A[0] == t.A[0] && registries[k.A[0].S] != "" {
			return repl // filed under its own identifier
		}
		for _, y := range subject {
			if t == y && c.identifies(k, y) {
				return repl
			}
		}
		return nil
	})
	mention := func(t *Term) bool {
		return s.contains(u.term(t), func(y *Term) bool {
			for _, z := range subject {
				if y == z {
					return true
				}
			}
			return false
		})
	}
	// literals that already guard the insertion may depend on anything
	common := map[*Term]int{}
	for i, g := range insG {
		for _, at := range c.impliedLits(g) {
			if common[norm(at)] == i {
				common[norm(at)] = i + 1
			}
		}
	}
	// so may those that hold whenever the loop the key comes from is entered
	entry := map[*Term]bool{}
	for _, y := range subject {
		if y.K == KIt {
			for _, at := range c.impliedLits(s.regions[y.I].entryG) {
				entry[norm(at)] = true
			}
		}
	}
	for _, l := range s.bdd.Support(rest) {
		if common[norm(l)] == len(insG) || entry[norm(l)] {
			continue
		}
		if mention(l) {
			if dbgDef {
				fmt.Println("FVMENTION", trunc(s.str(l), 300), "key", trunc(s.str(k), 200))
			}
			return false, 0
		}
	}
	for _, h := range w.head {
		if mention(h) {
			if dbgDef {
				fmt.Println("FVHEAD", trunc(s.str(h), 300), "key", trunc(s.str(k), 200))
			}
			return false, 0
		}
	}
	return true, notIn
}

func (c *Clauser) impliedLits(g Node) []*Term {
	b := c.s.bdd
	var out []*Term
	for _, a := range b.Support(g) {
		if b.And(g, b.Not(b.Var(a))) == bddFalse || b.And(g, b.Var(a)) == bddFalse {
			out = append(out, a)
		}
	}
	return out
}

// subjects are the tokens and closure variables a key speaks about.
func (c *Clauser) subjects(k *Term) []*Term {
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.K == KIt || c.isVar(t) {
			out = append(out, t)
			return
		}
		for _, x := range t.A {
			rec(x)
		}
	}
	rec(k)
	return out
}

// identifies: the key names the thing (it is the thing, its identifier or its name).
func (c *Clauser) identifies(k, y *Term) bool {
	if k == y {
		return true
	}
	if k.K == KField && (strings.EqualFold(k.S, "id") || strings.EqualFold(k.S, "name")) {
		k = k.A[0]
		if k == y {
			return true
		}
		if k.K == KElem && k.A[1] == y {
			return true
		}
		if k.K == KLookup && k.A[1].K == KKey && k.A[1].A[1] == y {
			return true
		}
	}
	if k.K == KKey && k.A[1] == y {
		return true
	}
	if k.K == KElem && k.A[1] == y {
		return true
	}
	return false
}

// ---- consistency, flaws --------------------------------------------------------

// single: wherever the entry picked matters, there is exactly one.
func (c *Clauser) single(f Node, it *Term) bool {
	b := c.s.bdd
	for _, a := range b.Support(f) {
		if a.S != "mem" || a.A[1] != it {
			continue
		}
		need := b.And(b.Cofactor(f, a, true), b.Not(b.Cofactor(f, a, false)))
		one := c.s.Eq(c.s.Len(a.A[0]), c.s.Int(1))
		if b.And(need, b.Not(one)) != bddFalse {
			return false
		}
	}
	return true
}

// ---- closure variable definitions -----------------------------------------------

// defs lists the ways in which a closure variable gets a value: clauses with head [v].
func (c *Clauser) defs(cv *Term) []*Clause {
	if d, ok := c.cvMemo[cv]; ok {
		return d
	}
	if strings.HasSuffix(cv.S, originMark) {
		return c.originDefs(cv)
	}
	s := c.s
	d := c.regionDef(cv.I)
	ft := c.refresher(d.first)
	u := s.newSubst(func(t *Term) *Term {
		switch t.K {
		case KParam:
			for i, p := range d.ph {
				if t == p && i < len(cv.A) {
					return cv.A[i]
				}
			}
		case KMV:
			if t.I == cv.I && len(t.A) == 0 && c.isVar(t) {
				return s.mk(KMV, t.S, t.I, t.N, cv.A, nil)
			}
		}
		return nil
	})
	f := func(t *Term) *Term { return u.term(ft(t)) }
	fn := func(n Node) Node { return s.asBDD(f(s.Bool(n))) }
	var out []*Clause
	for _, cl := range d.cs[cv.S] {
		m := mapClause(cl, f, fn)
		if m.f != bddFalse {
			out = append(out, m)
		}
	}
	c.cvMemo[cv] = out
	return out
}

// ---- printing and dedupe ---------------------------------------------------------

func (c *Clauser) litStr(l Lit) string {
	t := c.s.str(l.a)
	if !l.pos {
		return "¬(" + t + ")"
	}
	return t
}

func (c *Clauser) str(cl *Clause) string {
	var p []string
	p = append(p, c.fstr(cl.f))
	for _, n := range cl.negs {
		p = append(p, c.negStr(n))
	}
	for _, n := range cl.order {
		p = append(p, "order "+c.negStr(n))
	}
	r := strings.Join(p, " ∧ ")
	if len(cl.head) > 0 {
		var hs []string
		for _, h := range cl.head {
			hs = append(hs, c.s.str(h))
		}
		r = "(" + strings.Join(hs, ", ") + ") ⇐ " + r
	}
	if len(cl.flaws) > 0 {
		r += "  !" + strings.Join(cl.flaws, "; ")
	}
	return r
}

// fstr prints a formula: the literals it implies, then the cases.
func (c *Clauser) fstr(f Node) string {
	b := c.s.bdd
	var p []string
	for _, a := range b.Support(f) {
		if b.Cofactor(f, a, false) == bddFalse {
			p = append(p, c.litStr(Lit{a, true}))
			f = b.Cofactor(f, a, true)
		} else if b.Cofactor(f, a, true) == bddFalse {
			p = append(p, c.litStr(Lit{a, false}))
			f = b.Cofactor(f, a, false)
		}
	}
	if f == bddTrue {
		return strings.Join(p, " ∧ ")
	}
	if f == bddFalse {
		return "false"
	}
	var q []string
	for i, cu := range c.cubes(f) {
		if i > 12 {
			q = append(q, "…")
			break
		}
		var r []string
		for _, l := range cu {
			r = append(r, c.litStr(l))
		}
		q = append(q, strings.Join(r, " ∧ "))
	}
	return strings.Join(append(p, "("+strings.Join(q, " ∨ ")+")"), " ∧ ")
}

func (c *Clauser) negStr(n *Neg) string {
	var q []string
	for _, cl := range n.cs {
		q = append(q, c.str(cl))
	}
	return "∄{" + strings.Join(q, " | ") + "}"
}

// dedupe removes clauses that are equal up to the numbering of instances.
func (c *Clauser) dedupe(cs []*Clause) []*Clause {
	seen := map[string]bool{}
	var out []*Clause
	for _, cl := range cs {
		k := c.canonKey(cl)
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, cl)
	}
	return out
}

func (c *Clauser) canonKey(cl *Clause) string {
	// instances are renumbered in order of appearance after sorting literals by a
	// key that ignores instances
	s := c.s
	names := map[int]string{}
	strip := s.newSubst(func(t *Term) *Term {
		if (t.K == KIt || t.K == KMV) && t.N != 0 && len(t.A) == 0 {
			return s.mk(t.K, t.S, t.I, 0, nil, nil)
		}
		return nil
	})
	type it struct {
		l *Term
		k int
	}
	var items []it
	for _, l := range s.bdd.Support(cl.f) {
		items = append(items, it{l, strip.term(l).id})
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].k < items[j].k })
	num := func(t *Term) *Term {
		return s.newSubst(func(x *Term) *Term {
			if (x.K == KIt || x.K == KMV) && x.N != 0 && len(x.A) == 0 {
				nm, ok := names[x.N]
				if !ok {
					nm = fmt.Sprintf("!%d", len(names))
					names[x.N] = nm
				}
				return s.mk(x.K, x.S+nm, x.I, 0, nil, nil)
			}
			return nil
		}).term(t)
	}
	var b strings.Builder
	for _, h := range cl.head {
		fmt.Fprintf(&b, "h%d;", num(h).id)
	}
	for _, x := range items {
		num(x.l)
	}
	fmt.Fprintf(&b, "f%d;", num(s.Bool(cl.f)).id)
	for _, n := range cl.negs {
		b.WriteString("N{")
		for _, d := range n.cs {
			b.WriteString(c.canonKey(d) + "|")
		}
		b.WriteString("}")
	}
	for _, n := range cl.order {
		b.WriteString("O{")
		for _, d := range n.cs {
			b.WriteString(c.canonKey(d) + "|")
		}
		b.WriteString("}")
	}
	fmt.Fprintf(&b, "%v", cl.flaws)
	return b.String()
}

var dbgUnfold = false

func trunc(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "…"
	}
	return s
}

var dbgOn = false

func (r *Region) iterates() bool { return r.kind == "loop" || r.kind == "each" }

// functional: entries that the iterations of a region make under the same key have the same value.
func (c *Clauser) functional(key, val *Term, region int) bool {
	s := c.s
	if val.K == KStruct && len(val.A) == 0 {
		return true
	}
	if key.K == KKey && key.A[1].K == KIt && key.A[1].I == region {
		return true // every key comes once
	}
	if key.K == KMV && s.within(key.I, region) {
		return true // a position that moves on
	}
	own := func(t *Term) bool { return (t.K == KIt || t.K == KMV) && s.within(t.I, region) }
	if !s.contains(val, own) {
		return true
	}
	hole := s.App("hole")
	u := s.newSubst(func(t *Term) *Term {
		if t == key {
			return hole
		}
		return nil
	})
	return !s.contains(u.term(val), own)
}

// oneValue: if the keys are the same, so are the values.
func (c *Clauser) oneValue(k1, v1, k2, v2 *Term) bool {
	if v1 == v2 || v1 == nil || v2 == nil {
		return true
	}
	s := c.s
	hole := s.App("hole")
	put := func(k, v *Term) *Term {
		return s.newSubst(func(t *Term) *Term {
			if t == k {
				return hole
			}
			return nil
		}).term(v)
	}
	return put(k1, v1) == put(k2, v2)
}

var capClauses = 20000

var dbgCount int
