package main

import (
	"sort"
	"strings"
)

// A small reduced ordered BDD over atoms (terms). Guards of program points and of
// values are formulas; joining two control-flow edges is disjunction.

type Node int32

const (
	bddFalse Node = 0
	bddTrue  Node = 1
)

type bnode struct {
	v      int32
	lo, hi Node
}

type BDD struct {
	s      *Store
	nodes  []bnode
	unique map[bnode]Node
	ite    map[[3]Node]Node
	rest   map[[2]Node]Node
	atoms  []*Term
	index  map[*Term]int32
}

func NewBDD(s *Store) *BDD {
	const big = 1 << 30
	return &BDD{s: s, nodes: []bnode{{big, 0, 0}, {big, 1, 1}}, unique: map[bnode]Node{}, ite: map[[3]Node]Node{}, rest: map[[2]Node]Node{}, index: map[*Term]int32{}}
}

func (b *BDD) mk(v int32, lo, hi Node) Node {
	if lo == hi {
		return lo
	}
	k := bnode{v, lo, hi}
	if n, ok := b.unique[k]; ok {
		return n
	}
	n := Node(len(b.nodes))
	if n > 40_000_000 {
		panic(analysisLimit("formula too large"))
	}
	b.nodes = append(b.nodes, k)
	b.unique[k] = n
	return n
}

type analysisLimit string

func (b *BDD) Var(atom *Term) Node {
	i, ok := b.index[atom]
	if !ok {
		i = int32(len(b.atoms))
		b.atoms = append(b.atoms, atom)
		b.index[atom] = i
	}
	return b.mk(i, bddFalse, bddTrue)
}

func (b *BDD) Ite(f, g, h Node) Node {
	switch {
	case f == bddTrue:
		return g
	case f == bddFalse:
		return h
	case g == h:
		return g
	case g == bddTrue && h == bddFalse:
		return f
	}
	k := [3]Node{f, g, h}
	if r, ok := b.ite[k]; ok {
		return r
	}
	v := b.nodes[f].v
	if w := b.nodes[g].v; w < v {
		v = w
	}
	if w := b.nodes[h].v; w < v {
		v = w
	}
	co := func(n Node, hi bool) Node {
		nd := b.nodes[n]
		if nd.v != v {
			return n
		}
		if hi {
			return nd.hi
		}
		return nd.lo
	}
	lo := b.Ite(co(f, false), co(g, false), co(h, false))
	hi := b.Ite(co(f, true), co(g, true), co(h, true))
	r := b.mk(v, lo, hi)
	b.ite[k] = r
	return r
}

func (b *BDD) And(f, g Node) Node { return b.Ite(f, g, bddFalse) }
func (b *BDD) Or(f, g Node) Node  { return b.Ite(f, bddTrue, g) }
func (b *BDD) Not(f Node) Node    { return b.Ite(f, bddFalse, bddTrue) }
func (b *BDD) Xor(f, g Node) Node { return b.Ite(f, b.Not(g), g) }
func (b *BDD) Imp(f, g Node) Node { return b.Ite(f, g, bddTrue) }

// Restrict simplifies f assuming c (Coudert/Madre restrict).
func (b *BDD) Restrict(f, c Node) Node {
	if c == bddTrue || f == bddTrue || f == bddFalse {
		return f
	}
	if c == bddFalse {
		return bddFalse
	}
	if f == c {
		return bddTrue
	}
	k := [2]Node{f, c}
	if r, ok := b.rest[k]; ok {
		return r
	}
	nf, nc := b.nodes[f], b.nodes[c]
	var r Node
	switch {
	case nc.v < nf.v:
		r = b.Restrict(f, b.Or(nc.lo, nc.hi))
	case nc.v == nf.v:
		if nc.lo == bddFalse {
			r = b.Restrict(nf.hi, nc.hi)
		} else if nc.hi == bddFalse {
			r = b.Restrict(nf.lo, nc.lo)
		} else {
			r = b.mk(nf.v, b.Restrict(nf.lo, nc.lo), b.Restrict(nf.hi, nc.hi))
		}
	default:
		r = b.mk(nf.v, b.Restrict(nf.lo, c), b.Restrict(nf.hi, c))
	}
	b.rest[k] = r
	return r
}

// Cofactor of f with the atom set to val.
// Given is f in a world in which the literals hold.
func (b *BDD) Given(f Node, ls []Lit) Node {
	val := map[int32]bool{}
	for _, l := range ls {
		if i, ok := b.index[l.a]; ok {
			val[int32(i)] = l.pos
		}
	}
	memo := map[Node]Node{}
	var rec func(Node) Node
	rec = func(n Node) Node {
		if n <= 1 {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		nd := b.nodes[n]
		var r Node
		if v, ok := val[int32(nd.v)]; ok {
			if v {
				r = rec(nd.hi)
			} else {
				r = rec(nd.lo)
			}
		} else {
			r = b.mk(nd.v, rec(nd.lo), rec(nd.hi))
		}
		memo[n] = r
		return r
	}
	return rec(f)
}

func (b *BDD) Cofactor(f Node, atom *Term, val bool) Node {
	i, ok := b.index[atom]
	if !ok {
		return f
	}
	memo := map[Node]Node{}
	var rec func(Node) Node
	rec = func(n Node) Node {
		nd := b.nodes[n]
		if nd.v > i {
			return n
		}
		if nd.v == i {
			if val {
				return nd.hi
			}
			return nd.lo
		}
		if r, ok := memo[n]; ok {
			return r
		}
		r := b.mk(nd.v, rec(nd.lo), rec(nd.hi))
		memo[n] = r
		return r
	}
	return rec(f)
}

func (b *BDD) Support(f Node) []*Term {
	seen := map[Node]bool{}
	vars := map[int32]bool{}
	var rec func(Node)
	rec = func(n Node) {
		if n <= 1 || seen[n] {
			return
		}
		seen[n] = true
		nd := b.nodes[n]
		vars[nd.v] = true
		rec(nd.lo)
		rec(nd.hi)
	}
	rec(f)
	idx := make([]int, 0, len(vars))
	for i := range vars {
		idx = append(idx, int(i))
	}
	sort.Ints(idx)
	out := make([]*Term, len(idx))
	for k, i := range idx {
		out[k] = b.atoms[i]
	}
	return out
}

// Units gives the literals f implies and f with them removed.
func (b *BDD) Units(f Node) (Node, []Lit) {
	if f <= 1 {
		return f, nil
	}
	// literals implied by each node, as sorted lists of 2v+sign
	memo := map[Node][]int32{}
	var rec func(Node) []int32
	rec = func(n Node) []int32 {
		if n == bddTrue {
			return nil
		}
		if r, ok := memo[n]; ok {
			return r
		}
		nd := b.nodes[n]
		var out []int32
		switch {
		case nd.lo == bddFalse:
			r := rec(nd.hi)
			out = append(append(make([]int32, 0, len(r)+1), 2*nd.v+1), r...)
		case nd.hi == bddFalse:
			r := rec(nd.lo)
			out = append(append(make([]int32, 0, len(r)+1), 2*nd.v), r...)
		default:
			l, h := rec(nd.lo), rec(nd.hi)
			for i, j := 0, 0; i < len(l) && j < len(h); {
				switch {
				case l[i] == h[j]:
					out = append(out, l[i])
					i++
					j++
				case l[i] < h[j]:
					i++
				default:
					j++
				}
			}
		}
		memo[n] = out
		return out
	}
	us := map[int32]bool{}
	for _, x := range rec(f) {
		us[x/2] = x%2 == 1
	}
	var idx []int
	for k := range us {
		idx = append(idx, int(k))
	}
	sort.Ints(idx)
	lits := make([]Lit, len(idx))
	for i, k := range idx {
		lits[i] = Lit{b.atoms[k], us[int32(k)]}
	}
	m2 := map[Node]Node{}
	var strip func(Node) Node
	strip = func(n Node) Node {
		if n <= 1 {
			return n
		}
		if r, ok := m2[n]; ok {
			return r
		}
		nd := b.nodes[n]
		var r Node
		if v, ok := us[nd.v]; ok {
			if v {
				r = strip(nd.hi)
			} else {
				r = strip(nd.lo)
			}
		} else {
			r = b.mk(nd.v, strip(nd.lo), strip(nd.hi))
		}
		m2[n] = r
		return r
	}
	return strip(f), lits
}

func (b *BDD) str(f Node, d int) string {
	if f == bddTrue {
		return "true"
	}
	if f == bddFalse {
		return "false"
	}
	var cubes []string
	var cur []string
	var rec func(Node)
	rec = func(n Node) {
		if n == bddFalse || len(cubes) > 12 {
			return
		}
		if n == bddTrue {
			cubes = append(cubes, strings.Join(cur, " ∧ "))
			return
		}
		nd := b.nodes[n]
		a := b.s.strD(b.atoms[nd.v], d+1)
		cur = append(cur, a)
		rec(nd.hi)
		cur[len(cur)-1] = "¬(" + a + ")"
		rec(nd.lo)
		cur = cur[:len(cur)-1]
	}
	rec(f)
	if len(cubes) > 12 {
		cubes = append(cubes[:12], "…")
	}
	return strings.Join(cubes, "  ∨  ")
}
