package main

import (
	"fmt"
	"go/token"
	"slices"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Terms: hash-consed canonical expressions over the inputs of an entry point.
// ---------------------------------------------------------------------------

type Kind uint8

const (
	KConst    Kind = iota // S literal (quoted strings, numbers, true/false), T type class
	KNil                  // nil / zero of reference type
	KParam                // I index, S display name
	KField                // A[0].S
	KElem                 // A[0][A[1]]  element of a sequence
	KKey                  // key number A[1] of map content A[0]
	KLookup               // A[0][A[1]] of map content
	KIt                   // iteration token: I region, N instance
	KMV                   // merge variable of region I, cell S ("in:"/"out:"/"mid:" prefix), N instance
	KAlloc                // allocation site I, N instance; S kind
	KStruct               // S type name, A fields
	KFunc                 // I function index
	KClosure              // I closure index
	KApp                  // S operator, A arguments
	KChoice               // A alternatives, G guards
	KEmpty                // empty content (map or sequence)
	KZeros                // sequence of zero values (make([]T,n))
	KMIns                 // content A[0] with A[1] -> A[2]
	KMDel                 // content A[0] without A[1]
	KAppend               // sequence A[0] followed by element A[1]
	KAppAll               // sequence A[0] followed by sequence A[1]
	KSub                  // A[0][A[1]:A[2]]
	KFAddr                // address of field S of A[0]
	KIAddr                // address of element A[1] of A[0]
	KGlobal               // S
	KTuple                // A
	KBool                 // I bdd node
	KUnk                  // unknown value, S site
	KAtom                 // propositional atom: S op, A args
	KContents             // pseudo address: contents of container A[0]
)

type Term struct {
	id int
	K  Kind
	S  string
	I  int
	N  int // instance
	A  []*Term
	G  []Node
}

type Store struct {
	neverNil map[string]bool // fields that are never nil
	basic    map[string]bool
	tab      map[string]*Term
	terms    []*Term
	insts    map[string]int
	instN    []string
	pos      map[*Term]token.Pos
	bdd      *BDD
	// region tree
	regions    []*Region
	regionKeys map[string]int
	side       int
	tagRoot    map[string]int
	nfresh     int
}

type Region struct {
	id     int
	key    string
	parent int
	kind   string // "loop", "each", "rec"
	pos    token.Pos
	fn     string
	// iteration
	cont     *Term // content iterated over (nil when not an iterator)
	full     bool  // visits every element unless it exits early
	fullWhy  string
	exits    []exitDef
	src      map[string][]source // cell -> sources
	rets     []source
	entryG   Node // guard on entry
	inRec    bool
	typ      string
	memAtom  *Term // the membership atom tested by the header, if any
	condHead bool
	side     int  // 0: code, 1: specification
	drained  Node // holds when the loop was left normally
}

type exitDef struct {
	g   Node // guard of the early exit in the generic iteration
	pos token.Pos
}

type source struct {
	g    Node
	v    *Term
	init bool
}

func NewStore() *Store {
	s := &Store{basic: map[string]bool{}, tab: map[string]*Term{}, insts: map[string]int{"": 0}, instN: []string{""}, pos: map[*Term]token.Pos{}, regionKeys: map[string]int{}, tagRoot: map[string]int{}}
	s.bdd = NewBDD(s)
	s.region("<root>", "root", -1)
	return s
}

func (s *Store) region(key, kind string, parent int) *Region {
	if i, ok := s.regionKeys[key]; ok {
		if r := s.regions[i]; parent != r.id && !s.within(parent, r.id) {
			r.parent = parent
		}
		return s.regions[i]
	}
	r := &Region{id: len(s.regions), key: key, kind: kind, parent: parent, src: map[string][]source{}, side: s.side}
	s.regions = append(s.regions, r)
	s.regionKeys[key] = r.id
	return r
}

// within reports whether region r is root or nested in it.
func (s *Store) within(r, root int) bool {
	for r >= 0 {
		if r == root {
			return true
		}
		r = s.regions[r].parent
	}
	return false
}

func (s *Store) inst(name string) int {
	if i, ok := s.insts[name]; ok {
		return i
	}
	i := len(s.instN)
	s.insts[name] = i
	s.instN = append(s.instN, name)
	return i
}

func (s *Store) mk(k Kind, str string, i, n int, a []*Term, g []Node) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%d|%d|", k, str, i, n)
	for _, x := range a {
		fmt.Fprintf(&b, "%d,", x.id)
	}
	b.WriteByte('|')
	for _, x := range g {
		fmt.Fprintf(&b, "%d,", x)
	}
	key := b.String()
	if t, ok := s.tab[key]; ok {
		return t
	}
	t := &Term{id: len(s.terms), K: k, S: str, I: i, N: n, A: a, G: g}
	s.terms = append(s.terms, t)
	s.tab[key] = t
	return t
}

func (s *Store) Const(lit string) *Term { return s.mk(KConst, lit, 0, 0, nil, nil) }
func (s *Store) Str(v string) *Term     { return s.Const(fmt.Sprintf("%q", v)) }
func (s *Store) Int(v int64) *Term      { return s.Const(fmt.Sprint(v)) }
func (s *Store) Nil() *Term             { return s.mk(KNil, "", 0, 0, nil, nil) }
func (s *Store) True() *Term            { return s.Bool(bddTrue) }
func (s *Store) False() *Term           { return s.Bool(bddFalse) }
func (s *Store) Bool(n Node) *Term      { return s.mk(KBool, "", int(n), 0, nil, nil) }
func (s *Store) Param(i int, name string) *Term {
	return s.mk(KParam, name, i, 0, nil, nil)
}
func (s *Store) App(op string, a ...*Term) *Term {
	// distribute over choices of the first argument is left to callers
	return s.mk(KApp, op, 0, 0, a, nil)
}
func (s *Store) Atom(op string, a ...*Term) *Term { return s.mk(KAtom, op, 0, 0, a, nil) }
func (s *Store) It(region, inst int) *Term        { return s.mk(KIt, "", region, inst, nil, nil) }
func (s *Store) MV(region int, cell string, inst int) *Term {
	return s.mk(KMV, cell, region, inst, nil, nil)
}
func (s *Store) Tuple(a ...*Term) *Term { return s.mk(KTuple, "", 0, 0, a, nil) }
func (s *Store) Empty() *Term           { return s.mk(KEmpty, "", 0, 0, nil, nil) }

// Field of a value (or of what a pointer points to).
func (s *Store) Field(x *Term, f string) *Term {
	switch x.K {
	case KChoice:
		return s.mapChoice(x, func(y *Term) *Term { return s.Field(y, f) })
	case KStruct:
		names := strings.Split(x.S, "\x00")[1:]
		for i, n := range names {
			if n == f {
				return x.A[i]
			}
		}
	case KApp:
		if x.S == "deref" {
			return s.Field(x.A[0], f)
		}
		if x.S == "zero" {
			return s.App("zero", s.Const(x.A[0].S+"."+f))
		}
	}
	if x.K == KLookup && x.A[0].K == KField {
		if id, ok := registries[x.A[0].S]; ok && id == f {
			return x.A[1] // registries file things under their own identifier
		}
	}
	if x.K == KElem && len(x.A) == 2 && x.A[0].K == KField && x.A[1].K == KIt {
		if id, ok := registries[x.A[0].S]; ok && id == f {
			return s.Key(x.A[0], x.A[1])
		}
	}
	return s.mk(KField, f, 0, 0, []*Term{x}, nil)
}

// registries: map fields whose entries are filed under a field of their own.
var registries = map[string]string{}

func (s *Store) mapChoice(c *Term, f func(*Term) *Term) *Term {
	alts := make([]*Term, len(c.A))
	for i, a := range c.A {
		alts[i] = f(a)
	}
	return s.Choice(c.G, alts)
}

// Choice builds the value that is alts[i] under gs[i].
func (s *Store) Choice(gs []Node, alts []*Term) *Term {
	b := s.bdd
	allBool := len(alts) > 0
	for i, a := range alts {
		if gs[i] == bddFalse {
			continue
		}
		if a.K != KBool && !isBoolConst(a) {
			allBool = false
		}
	}
	if allBool {
		r := bddFalse
		for i, a := range alts {
			if gs[i] == bddFalse {
				continue
			}
			r = b.Or(r, b.And(gs[i], s.asBDD(a)))
		}
		return s.Bool(r)
	}
	type ga struct {
		g Node
		t *Term
	}
	var flat []ga
	idx := map[*Term]int{}
	add := func(g Node, t *Term) {
		if g == bddFalse {
			return
		}
		if i, ok := idx[t]; ok {
			flat[i].g = b.Or(flat[i].g, g)
			return
		}
		idx[t] = len(flat)
		flat = append(flat, ga{g, t})
	}
	tuple := true
	for i, a := range alts {
		if gs[i] == bddFalse {
			continue
		}
		if a.K != KTuple {
			tuple = false
		}
	}
	if tuple && len(alts) > 0 {
		var n = -1
		for i, a := range alts {
			if gs[i] != bddFalse {
				n = len(a.A)
			}
		}
		if n >= 0 {
			res := make([]*Term, n)
			for j := 0; j < n; j++ {
				var g2 []Node
				var a2 []*Term
				for i, a := range alts {
					if gs[i] == bddFalse {
						continue
					}
					g2 = append(g2, gs[i])
					a2 = append(a2, a.A[j])
				}
				res[j] = s.Choice(g2, a2)
			}
			return s.Tuple(res...)
		}
	}
	for i, a := range alts {
		if a.K == KChoice {
			for j, x := range a.A {
				add(b.And(gs[i], a.G[j]), x)
			}
		} else {
			add(gs[i], a)
		}
	}
	// inserting into a set what is there already changes nothing
	for i := 0; i < len(flat); i++ {
		t := flat[i].t
		if t.K != KMIns || t.A[2].K != KStruct || len(t.A[2].A) != 0 {
			continue
		}
		if j, ok := idx[t.A[0]]; ok && flat[j].g != bddFalse && b.And(flat[j].g, b.Not(s.Has(t.A[0], t.A[1]))) == bddFalse {
			flat[i].g = b.Or(flat[i].g, flat[j].g)
			flat[j].g = bddFalse
		}
	}
	flat = slices.DeleteFunc(flat, func(x ga) bool { return x.g == bddFalse })
	if len(flat) == 0 {
		return s.mk(KUnk, "bottom", 0, 0, nil, nil)
	}
	if len(flat) == 1 {
		return flat[0].t
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].t.id < flat[j].t.id })
	a := make([]*Term, len(flat))
	g := make([]Node, len(flat))
	for i, f := range flat {
		a[i], g[i] = f.t, f.g
	}
	return s.mk(KChoice, "", 0, 0, a, g)
}

func isBoolConst(t *Term) bool { return t.K == KConst && (t.S == "true" || t.S == "false") }

// asBDD converts a boolean-valued term into a formula.
func (s *Store) asBDD(t *Term) Node {
	switch t.K {
	case KBool:
		return Node(t.I)
	case KConst:
		if t.S == "true" {
			return bddTrue
		}
		if t.S == "false" {
			return bddFalse
		}
	case KChoice:
		r := bddFalse
		for i, a := range t.A {
			r = s.bdd.Or(r, s.bdd.And(t.G[i], s.asBDD(a)))
		}
		return r
	case KApp:
		if t.S == "zero" {
			return bddFalse
		}
	case KUnk:
		if t.S == "bottom" {
			return bddFalse
		}
	}
	return s.bdd.Var(s.Atom("bool", t))
}

// ---------------------------------------------------------------------------
// Substitution
// ---------------------------------------------------------------------------

type subst struct {
	s    *Store
	f    func(*Term) *Term // returns replacement or nil
	memo map[*Term]*Term
	bm   map[Node]Node
}

func (s *Store) newSubst(f func(*Term) *Term) *subst {
	return &subst{s: s, f: f, memo: map[*Term]*Term{}, bm: map[Node]Node{}}
}

func (u *subst) term(t *Term) *Term {
	if r, ok := u.memo[t]; ok {
		return r
	}
	if r := u.f(t); r != nil {
		u.memo[t] = r
		return r
	}
	var r *Term
	if t.K == KBool {
		r = u.s.Bool(u.node(Node(t.I)))
	} else if len(t.A) == 0 && len(t.G) == 0 {
		r = t
	} else {
		changed := false
		a := make([]*Term, len(t.A))
		for i, x := range t.A {
			a[i] = u.term(x)
			changed = changed || a[i] != x
		}
		g := make([]Node, len(t.G))
		for i, x := range t.G {
			g[i] = u.node(x)
			changed = changed || g[i] != x
		}
		if !changed {
			r = t
		} else {
			r = u.s.rebuild(t, a, g)
			if ty, ok := ifaceTypes[t]; ok && r.K != KChoice && r.K != KNil && r.K != KConst {
				ifaceTypes[r] = ty
			}
			if p, ok := u.s.pos[t]; ok {
				if _, ok := u.s.pos[r]; !ok {
					u.s.pos[r] = p
				}
			}
		}
	}
	u.memo[t] = r
	return r
}

func (u *subst) node(n Node) Node {
	if n == bddTrue || n == bddFalse {
		return n
	}
	if r, ok := u.bm[n]; ok {
		return r
	}
	b := u.s.bdd
	nd := b.nodes[n]
	lo, hi := u.node(nd.lo), u.node(nd.hi)
	at := b.atoms[nd.v]
	at2 := u.term(at)
	v := u.s.atomNode(at2)
	r := b.Ite(v, hi, lo)
	u.bm[n] = r
	return r
}

// atomNode is the formula for an atom term (which may have become something else
// by rebuilding, in which case it is a KBool).
func (s *Store) atomNode(t *Term) Node {
	if t.K == KAtom {
		return s.bdd.Var(t)
	}
	return s.asBDD(t)
}

// rebuild applies the smart constructors.
func (s *Store) rebuild(t *Term, a []*Term, g []Node) *Term {
	switch t.K {
	case KField:
		return s.Field(a[0], t.S)
	case KChoice:
		return s.Choice(g, a)
	case KLookup:
		return s.Lookup(a[0], a[1])
	case KElem:
		return s.Elem(a[0], a[1])
	case KKey:
		return s.Key(a[0], a[1])
	case KAtom:
		switch t.S {
		case "eq":
			return s.Bool(s.Eq(a[0], a[1]))
		case "has":
			return s.Bool(s.Has(a[0], a[1]))
		case "ne":
			return s.Bool(s.NonEmpty(a[0]))
		case "mem":
			return s.Bool(s.Mem(a[0], a[1]))
		case "elem":
			return s.Bool(s.inSeq(a[0], a[1]))
		case "lt":
			return s.Bool(s.Lt(a[0], a[1]))
		case "bool":
			return s.Bool(s.asBDD(a[0]))
		case "istype":
			return s.Bool(s.IsType(a[0], a[1].S))
		}
		return s.mk(KAtom, t.S, t.I, t.N, a, g)
	case KApp:
		switch t.S {
		case "concat":
			return s.Concat(a...)
		case "len":
			return s.Len(a[0])
		case "strlen":
			return s.strLen(a[0])
		case "deref", "error":
		default:
			return s.distribute(t.S, a)
		}
		return s.mk(KApp, t.S, t.I, t.N, a, g)
	}
	return s.mk(t.K, t.S, t.I, t.N, a, g)
}

// rename gives the tokens of region root (and of regions nested in it) a new
// instance, so that facts about "some iteration" are not confused with another.
func (s *Store) renamer(root int, tag string) *subst {
	var u *subst
	f := func(t *Term) *Term {
		switch t.K {
		case KIt, KMV, KAlloc:
			r := t.I
			if t.K == KAlloc {
				r = s.allocRegion(t)
			}
			if r >= 0 && s.within(r, root) {
				n := s.inst(s.instN[t.N] + tag)
				a := make([]*Term, len(t.A))
				for i, x := range t.A {
					a[i] = u.term(x)
				}
				return s.mk(t.K, t.S, t.I, n, a, t.G)
			}
			if len(t.A) == 0 {
				return t
			}
		case KAtom:
			if t.S == "exit" || t.S == "mvb" {
				if s.within(t.I, root) {
					n := s.inst(s.instN[t.N] + tag)
					return s.mk(KAtom, t.S, t.I, n, t.A, t.G)
				}
				return t
			}
		}
		return nil
	}
	u = s.newSubst(f)
	return u
}

var allocRegions = map[int]int{}

func (s *Store) allocRegion(t *Term) int {
	if r, ok := allocRegions[t.I]; ok {
		return r
	}
	return -1
}

// ---------------------------------------------------------------------------
// Smart constructors with theory
// ---------------------------------------------------------------------------

func (s *Store) isFresh(t *Term) bool {
	switch t.K {
	case KAlloc, KStruct, KClosure, KFunc:
		return true
	case KApp:
		return t.S == "error" || t.S == "ref"
	}
	return false
}

// rooted reports whether the value existed before the entry point ran.
func rooted(t *Term) bool {
	switch t.K {
	case KParam, KGlobal:
		return true
	case KField, KLookup, KElem, KKey:
		return rooted(t.A[0])
	}
	return false
}

func (s *Store) Eq(a, b *Term) Node {
	if a == b {
		return bddTrue
	}
	bd := s.bdd
	if a.K == KChoice {
		r := bddFalse
		for i, x := range a.A {
			r = bd.Or(r, bd.And(a.G[i], s.Eq(x, b)))
		}
		return r
	}
	if b.K == KChoice {
		return s.Eq(b, a)
	}
	if a.K == KBool || b.K == KBool || isBoolConst(a) || isBoolConst(b) {
		x, y := s.asBDD(a), s.asBDD(b)
		return bd.Not(bd.Xor(x, y))
	}
	if a.K == KUnk && a.S == "bottom" || b.K == KUnk && b.S == "bottom" {
		return bddFalse
	}
	norm := func(t *Term) *Term { // zero of reference types is nil
		if t.K == KApp && t.S == "zero" {
			return t
		}
		return t
	}
	a, b = norm(a), norm(b)
	if a.K == KConst && b.K == KConst {
		return bddFalse // different constants
	}
	if a.K == KStruct && b.K == KStruct && a.S == b.S {
		r := bddTrue
		for i := range a.A {
			r = bd.And(r, s.Eq(a.A[i], b.A[i]))
		}
		return r
	}
	if a.K == KStruct || b.K == KStruct {
		x, y := a, b
		if y.K == KStruct {
			x, y = y, x
		}
		if y.K != KNil && y.K != KConst {
			r := bddTrue
			for i, n := range strings.Split(x.S, "\x00")[1:] {
				r = bd.And(r, s.Eq(x.A[i], s.Field(y, n)))
			}
			return r
		}
		return bddFalse
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if y.K == KNil {
			if x.K == KParam && s.basic[x.S] {
				return bddFalse
			}
			if x.K == KField && s.neverNil[x.S] {
				return bddFalse
			}
			if s.isFresh(x) || x.K == KConst || x.K == KFAddr || x.K == KIAddr || x.K == KAppend || x.K == KBool {
				return bddFalse
			}
			if x.K == KEmpty { // a nil slice that was never assigned
				if x.S == "nil" {
					return bddTrue
				}
				return bddFalse
			}
			if x.K == KApp && (x.S == "concat" || x.S == "now") {
				return bddFalse
			}
			if x.K == KLookup { // registries hold no nil entries
				return bd.Not(s.Has(x.A[0], x.A[1]))
			}
		}
		if s.isFresh(x) && (s.isFresh(y) || rooted(y) || y.K == KConst) {
			if x.K == KAlloc && y.K == KAlloc && x.I == y.I {
				break
			}
			return bddFalse
		}
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].K == KConst && p[0].S == "0" {
			if isLen(p[1]) {
				return bd.Not(s.NonEmpty(p[1].A[0]))
			}
			if isStrLen(p[1]) {
				return s.Eq(p[1].A[0], s.Const(`""`))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bd.Var(s.Atom("eq", a, b))
}

func (s *Store) Lt(a, b *Term) Node {
	bd := s.bdd
	if a == b {
		return bddFalse
	}
	if a.K == KChoice {
		r := bddFalse
		for i, x := range a.A {
			r = bd.Or(r, bd.And(a.G[i], s.Lt(x, b)))
		}
		return r
	}
	if b.K == KChoice {
		r := bddFalse
		for i, x := range b.A {
			r = bd.Or(r, bd.And(b.G[i], s.Lt(a, x)))
		}
		return r
	}
	if av, ok := intConst(a); ok {
		if bv, ok := intConst(b); ok {
			if av < bv {
				return bddTrue
			}
			return bddFalse
		}
	}
	// len(x) > 0, len(x) < 1
	if av, ok := intConst(a); ok && isLen(b) {
		if av < 0 {
			return bddTrue
		}
		if av == 0 {
			return s.NonEmpty(b.A[0])
		}
		if av <= 2 {
			r := s.NonEmpty(b.A[0])
			for i := int64(1); i <= av; i++ {
				r = bd.And(r, bd.Not(s.Eq(s.Int(i), b)))
			}
			return r
		}
	}
	if bv, ok := intConst(b); ok && isLen(a) {
		if bv <= 0 {
			return bddFalse
		}
		if bv <= 3 {
			return bd.Not(s.Lt(s.Int(bv-1), a))
		}
	}
	if av, ok := intConst(a); ok && isStrLen(b) && av <= 0 {
		if av < 0 {
			return bddTrue
		}
		return bd.Not(s.Eq(b.A[0], s.Const(`""`)))
	}
	if bv, ok := intConst(b); ok && isStrLen(a) && bv <= 1 {
		if bv <= 0 {
			return bddFalse
		}
		return s.Eq(a.A[0], s.Const(`""`))
	}
	// it < len(c)
	if a.K == KIt && isLen(b) {
		return s.Mem(b.A[0], a)
	}
	// difference of times against 0
	if a.K == KConst && a.S == "0" && b.K == KApp && b.S == "tsub" {
		return s.Lt(b.A[1], b.A[0])
	}
	if b.K == KConst && b.S == "0" && a.K == KApp && a.S == "tsub" {
		return s.Lt(a.A[0], a.A[1])
	}
	if n, ok := intConst(b); ok && n <= 0 && a.K == KIt {
		return bddFalse
	}
	return bd.Var(s.Atom("lt", a, b))
}

func isLen(t *Term) bool    { return t.K == KApp && t.S == "len" }
func isStrLen(t *Term) bool { return t.K == KApp && t.S == "strlen" }

func intConst(t *Term) (int64, bool) {
	if t.K != KConst {
		return 0, false
	}
	var v int64
	if _, err := fmt.Sscanf(t.S, "%d", &v); err != nil || fmt.Sprint(v) != t.S {
		return 0, false
	}
	return v, true
}

// strLen: the length of a string.
func (s *Store) strLen(c *Term) *Term {
	switch c.K {
	case KChoice:
		return s.mapChoice(c, s.strLen)
	case KConst:
		return s.Len(c)
	}
	return s.App("strlen", c)
}

func (s *Store) Len(c *Term) *Term {
	switch c.K {
	case KChoice:
		return s.mapChoice(c, s.Len)
	case KEmpty, KNil:
		return s.Int(0)
	case KAppend:
		if v, ok := intConst(s.Len(c.A[0])); ok {
			return s.Int(v + 1)
		}
	case KApp:
		if c.S == "zero" {
			return s.Int(0)
		}
		if c.S == "keys" || c.S == "values" {
			return s.Len(c.A[0])
		}
	case KConst:
		if strings.HasPrefix(c.S, "\"") {
			var v string
			fmt.Sscanf(c.S, "%q", &v)
			return s.Int(int64(len(v)))
		}
	}
	return s.App("len", c)
}

func (s *Store) NonEmpty(c *Term) Node {
	bd := s.bdd
	switch c.K {
	case KChoice:
		r := bddFalse
		for i, x := range c.A {
			r = bd.Or(r, bd.And(c.G[i], s.NonEmpty(x)))
		}
		return r
	case KEmpty, KNil:
		return bddFalse
	case KAppend, KMIns:
		return bddTrue
	case KAppAll:
		return bd.Or(s.NonEmpty(c.A[0]), s.NonEmpty(c.A[1]))
	case KApp:
		if c.S == "compact" || c.S == "clone" || c.S == "keys" || c.S == "values" || c.S == "asmap" || c.S == "sorted" {
			return s.NonEmpty(c.A[0])
		}
		if c.S == "zero" {
			return bddFalse
		}
	case KConst:
		if c.S == `""` {
			return bddFalse
		}
		return bddTrue
	}
	return bd.Var(s.Atom("ne", c))
}

func (s *Store) Has(c, k *Term) Node {
	bd := s.bdd
	if k.K == KChoice {
		r := bddFalse
		for i, x := range k.A {
			r = bd.Or(r, bd.And(k.G[i], s.Has(c, x)))
		}
		return r
	}
	switch c.K {
	case KChoice:
		r := bddFalse
		for i, x := range c.A {
			r = bd.Or(r, bd.And(c.G[i], s.Has(x, k)))
		}
		return r
	case KEmpty, KNil:
		return bddFalse
	case KMIns:
		return bd.Or(s.Eq(k, c.A[1]), s.Has(c.A[0], k))
	case KMDel:
		return bd.And(bd.Not(s.Eq(k, c.A[1])), s.Has(c.A[0], k))
	case KApp:
		if c.S == "asmap" || c.S == "clone" {
			return s.Has(c.A[0], k)
		}
		if c.S == "zero" {
			return bddFalse
		}
	}
	if k.K == KKey && k.A[0] == c {
		return s.Mem(c, k.A[1])
	}
	return bd.Var(s.Atom("has", c, k))
}

// Mem: the token it denotes an element of the container content c.
func (s *Store) Mem(c, it *Term) Node {
	bd := s.bdd
	switch c.K {
	case KChoice:
		r := bddFalse
		for i, x := range c.A {
			r = bd.Or(r, bd.And(c.G[i], s.Mem(x, it)))
		}
		return r
	case KEmpty, KNil:
		return bddFalse
	case KApp:
		switch c.S {
		case "clone", "compact", "sorted", "keys", "values", "asmap", "newmap":
			return s.Mem(c.A[0], it)
		case "zero", "zeroval":
			return bddFalse
		}
	case KUnk:
		if c.S == "bottom" {
			return bddFalse
		}
	}
	return bd.Var(s.Atom("mem", c, it))
}

func (s *Store) Lookup(c, k *Term) *Term {
	if k.K == KChoice {
		return s.mapChoice(k, func(y *Term) *Term { return s.Lookup(c, y) })
	}
	switch c.K {
	case KChoice:
		return s.mapChoice(c, func(y *Term) *Term { return s.Lookup(y, k) })
	case KMIns:
		e := s.Eq(k, c.A[1])
		return s.Choice([]Node{e, s.bdd.Not(e)}, []*Term{c.A[2], s.Lookup(c.A[0], k)})
	case KMDel:
		e := s.Eq(k, c.A[1])
		return s.Choice([]Node{e, s.bdd.Not(e)}, []*Term{s.App("zeroval"), s.Lookup(c.A[0], k)})
	case KEmpty, KNil:
		return s.App("zeroval")
	case KApp:
		if c.S == "asmap" || c.S == "clone" {
			return s.Lookup(c.A[0], k)
		}
	}
	return s.mk(KLookup, "", 0, 0, []*Term{c, k}, nil)
}

// Key number it of map content c.
func (s *Store) Key(c, it *Term) *Term {
	switch c.K {
	case KChoice:
		return s.mapChoice(c, func(y *Term) *Term { return s.Key(y, it) })
	case KApp:
		if c.S == "asmap" || c.S == "clone" {
			return s.Key(c.A[0], it)
		}
	}
	return s.mk(KKey, "", 0, 0, []*Term{c, it}, nil)
}

// Elem of a sequence.
func (s *Store) Elem(c, i *Term) *Term {
	switch c.K {
	case KChoice:
		return s.mapChoice(c, func(y *Term) *Term { return s.Elem(y, i) })
	case KApp:
		switch c.S {
		case "keys":
			return s.Key(c.A[0], i)
		case "values":
			return s.Lookup(c.A[0], s.Key(c.A[0], i))
		case "compact", "clone", "sorted":
			if i.K == KIt {
				return s.Elem(c.A[0], i)
			}
		}
	case KAppend:
		if i.K == KIt && c.A[0].K == KEmpty {
			return c.A[1] // the only one there is
		}
		if iv, ok := intConst(i); ok {
			if n, ok := intConst(s.Len(c.A[0])); ok {
				if iv == n {
					return c.A[1]
				}
				if iv < n {
					return s.Elem(c.A[0], i)
				}
			}
		}
	case KSub:
		if i.K == KIt {
			return s.Elem(c.A[0], i)
		}
		if iv, ok := intConst(i); ok && c.A[1].K == KNil {
			_ = iv
			return s.Elem(c.A[0], i)
		}
	case KMIns: // array with constant indices
		if _, ok := intConst(i); ok {
			if _, ok := intConst(c.A[1]); ok {
				if c.A[1] == i {
					return c.A[2]
				}
				return s.Elem(c.A[0], i)
			}
		}
	}
	return s.mk(KElem, "", 0, 0, []*Term{c, i}, nil)
}

// typeOf: the dynamic type of a value, "?" when only known not to be nil, "" when unknown.
func (s *Store) typeOf(t *Term) string {
	switch ty := ifaceTypes[t]; ty {
	case "string", "bool", "int":
		return ty
	}
	switch t.K {
	case KParam:
		if s.basic[t.S] {
			return "?"
		}
	case KKey:
		if registries[t.A[0].S] != "" {
			return "?"
		}
	}
	return ""
}

func (s *Store) IsType(t *Term, typ string) Node {
	bd := s.bdd
	switch t.K {
	case KChoice:
		r := bddFalse
		for i, x := range t.A {
			r = bd.Or(r, bd.And(t.G[i], s.IsType(x, typ)))
		}
		return r
	case KNil:
		return bddFalse
	case KConst:
		if typ == "string" && strings.HasPrefix(t.S, "\"") {
			return bddTrue
		}
	case KBool:
		if typ == "bool" {
			return bddTrue
		}
		return bddFalse
	}
	if poolAllocs[t] {
		return bddTrue // pools are typed: what comes out has the type of what goes in
	}
	if ty, ok := ifaceTypes[t]; ok {
		if ty == typ {
			return bddTrue
		}
		return bddFalse
	}
	return bd.Var(s.Atom("istype", t, s.Const(typ)))
}

// ifaceTypes remembers the dynamic type of values that were converted to an interface.
var poolAllocs = map[*Term]bool{}

var ifaceTypes = map[*Term]string{}

func (s *Store) Concat(a ...*Term) *Term {
	for i, x := range a {
		if x.K == KChoice {
			return s.mapChoice(x, func(y *Term) *Term {
				b := append(append(append([]*Term{}, a[:i]...), y), a[i+1:]...)
				return s.Concat(b...)
			})
		}
	}
	var out []*Term
	for _, x := range a {
		if x.K == KApp && x.S == "concat" {
			out = append(out, x.A...)
		} else {
			out = append(out, x)
		}
	}
	// merge adjacent constants
	var res []*Term
	for _, x := range out {
		if x.K == KConst && x.S == `""` {
			continue
		}
		if n := len(res); n > 0 && x.K == KConst && res[n-1].K == KConst {
			var p, q string
			fmt.Sscanf(res[n-1].S, "%q", &p)
			fmt.Sscanf(x.S, "%q", &q)
			res[n-1] = s.Str(p + q)
			continue
		}
		res = append(res, x)
	}
	if len(res) == 0 {
		return s.Str("")
	}
	if len(res) == 1 {
		return res[0]
	}
	return s.App("concat", res...)
}

// contains reports whether t mentions any term for which f is true.
func (s *Store) contains(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	seenN := map[Node]bool{}
	var wt func(*Term) bool
	var wn func(Node) bool
	wn = func(n Node) bool {
		if n == bddTrue || n == bddFalse || seenN[n] {
			return false
		}
		seenN[n] = true
		nd := s.bdd.nodes[n]
		return wt(s.bdd.atoms[nd.v]) || wn(nd.lo) || wn(nd.hi)
	}
	wt = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		if t.K == KBool {
			return wn(Node(t.I))
		}
		for _, x := range t.A {
			if wt(x) {
				return true
			}
		}
		for _, g := range t.G {
			if wn(g) {
				return true
			}
		}
		return false
	}
	return wt(t)
}

// ---------------------------------------------------------------------------
// Printing
// ---------------------------------------------------------------------------

func (s *Store) str(t *Term) string { return s.strD(t, 0) }

func (s *Store) strD(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 14 {
		return "…"
	}
	args := func() string {
		var p []string
		for _, a := range t.A {
			p = append(p, s.strD(a, d+1))
		}
		return strings.Join(p, ", ")
	}
	in := ""
	if t.N != 0 {
		in = "'" + fmt.Sprint(t.N)
	}
	switch t.K {
	case KConst:
		return t.S
	case KNil:
		return "nil"
	case KParam:
		return t.S
	case KField:
		return s.strD(t.A[0], d+1) + "." + t.S
	case KElem:
		return s.strD(t.A[0], d+1) + "[" + s.strD(t.A[1], d+1) + "]"
	case KLookup:
		return s.strD(t.A[0], d+1) + "[" + s.strD(t.A[1], d+1) + "]"
	case KKey:
		return "key(" + s.strD(t.A[0], d+1) + "," + s.strD(t.A[1], d+1) + ")"
	case KIt:
		return fmt.Sprintf("it%d%s", t.I, in)
	case KMV:
		args := ""
		for _, a := range t.A {
			args += "|" + s.strD(a, d+1)
		}
		return fmt.Sprintf("mv%d%s<%s%s>", t.I, in, t.S, args)
	case KAlloc:
		return fmt.Sprintf("new%d%s", t.I, in)
	case KStruct:
		names := strings.Split(t.S, "\x00")
		var p []string
		for i, a := range t.A {
			p = append(p, names[i+1]+":"+s.strD(a, d+1))
		}
		return names[0] + "{" + strings.Join(p, ", ") + "}"
	case KFunc:
		return "func:" + t.S
	case KClosure:
		return "closure:" + t.S
	case KApp:
		return t.S + "(" + args() + ")"
	case KChoice:
		var p []string
		for i, a := range t.A {
			p = append(p, "["+s.bdd.str(t.G[i], d+3)+"]→"+s.strD(a, d+1))
		}
		return "{" + strings.Join(p, " | ") + "}"
	case KEmpty:
		return "∅"
	case KZeros:
		return "zeros"
	case KMIns:
		return s.strD(t.A[0], d+1) + "⊕(" + s.strD(t.A[1], d+1) + "↦" + s.strD(t.A[2], d+1) + ")"
	case KMDel:
		return s.strD(t.A[0], d+1) + "⊖" + s.strD(t.A[1], d+1)
	case KAppend:
		return s.strD(t.A[0], d+1) + "⧺[" + s.strD(t.A[1], d+1) + "]"
	case KAppAll:
		return s.strD(t.A[0], d+1) + "⧺" + s.strD(t.A[1], d+1)
	case KSub:
		return s.strD(t.A[0], d+1) + "[" + s.strD(t.A[1], d+1) + ":" + s.strD(t.A[2], d+1) + "]"
	case KFAddr:
		return "&" + s.strD(t.A[0], d+1) + "." + t.S
	case KIAddr:
		return "&" + s.strD(t.A[0], d+1) + "[" + s.strD(t.A[1], d+1) + "]"
	case KGlobal:
		return t.S
	case KTuple:
		return "(" + args() + ")"
	case KBool:
		return "⟨" + s.bdd.str(Node(t.I), d+1) + "⟩"
	case KUnk:
		return "?" + t.S
	case KContents:
		return "contents(" + args() + ")"
	case KAtom:
		switch t.S {
		case "eq":
			return s.strD(t.A[0], d+1) + "==" + s.strD(t.A[1], d+1)
		case "lt":
			return s.strD(t.A[0], d+1) + "<" + s.strD(t.A[1], d+1)
		case "has":
			return s.strD(t.A[1], d+1) + "∈" + s.strD(t.A[0], d+1)
		case "mem":
			return "mem(" + args() + ")"
		case "exit":
			return fmt.Sprintf("exit%d%s#%s", t.I, in, t.A[0].S)
		case "mvb":
			return fmt.Sprintf("mvb%d%s<%s>", t.I, in, t.A[0].S)
		case "bool":
			return s.strD(t.A[0], d+1)
		}
		return t.S + "(" + args() + ")"
	}
	return "?"
}
