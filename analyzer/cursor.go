package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Functions that walk over strings.
//
// Two functions over the same strings are compared by abstract interpretation of both
// control flow graphs side by side. The strings are unknown and of any length. The domain
// keeps, per string, the stretch between the first and the last position some live
// variable refers to: single characters (with what is known about them: which of the
// characters the two functions mention it may be, and which other known characters it
// equals or differs from) and summarised runs of any length, like the list segments of
// shape analysis. Positions are kept symbolically relative to that stretch. The
// exploration is a fixpoint: a pair of program points with the same facts is visited once.
// ---------------------------------------------------------------------------

const (
	cNone = iota
	cBool
	cInt
	cByte
	cStr
	cTuple
	cFunc
	cCell
	cByteAt
)

type pterm struct{ node, coef int }

type cval struct {
	kind  int
	b     bool
	k     int
	pos   []pterm
	sym   int // 0: the constant k
	strm  int // -1: the literal lit
	lit   string
	lo    *cval
	hi    *cval
	elems []cval
	fn    *ssa.Function
}

func cint(k int) cval                { return cval{kind: cInt, k: k} }
func cbool(b bool) cval              { return cval{kind: cBool, b: b} }
func cnode(n int) cval               { return cval{kind: cInt, pos: []pterm{{n, 1}}} }
func (v cval) constInt() bool        { return v.kind == cInt && len(v.pos) == 0 }
func climit(format string, a ...any) { panic(analysisLimit(fmt.Sprintf(format, a...))) }
func (v cval) wholeOf(s int) bool    { return v.kind == cStr && v.strm == s }
func sortTerms(t []pterm)            { sort.Slice(t, func(i, j int) bool { return t[i].node < t[j].node }) }
func cloneInts(m map[int]int) map[int]int {
	r := make(map[int]int, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func addInt(x, y cval, sign int) cval {
	r := cval{kind: cInt, k: x.k + sign*y.k}
	m := map[int]int{}
	for _, t := range x.pos {
		m[t.node] += t.coef
	}
	for _, t := range y.pos {
		m[t.node] += sign * t.coef
	}
	for n, c := range m {
		if c != 0 {
			r.pos = append(r.pos, pterm{n, c})
		}
	}
	sortTerms(r.pos)
	return r
}

// celem is a character, or a run of at least min characters.
type celem struct {
	node int // the position before it
	run  bool
	min  int
	sym  int
	mask uint64
	ne   []int // run: characters that do not occur in it
}

type cstrm struct {
	elems  []celem
	tail   int // the position after them
	closed bool
	start  bool // the first position is that of the string
}

type cframe struct {
	fn   *ssa.Function
	blk  *ssa.BasicBlock
	ip   int
	env  map[ssa.Value]cval
	call *ssa.Call // in the frame below
}

type cmach struct {
	frames []*cframe
	cells  map[int]cval
	done   bool
	ret    cval
	fault  string
	at     token.Pos
}

type cstate struct {
	m     [2]*cmach
	s     []cstrm
	masks map[int]uint64
	eq    map[int]int
	ne    map[[2]int]bool
	next  int
	hist  [][]int
}

type cneed struct {
	kind string // reveal, run, class, same
	s, i int
	a, b int // symbols; class: the character k
	k    int
}

type cursors struct {
	e       *Env
	consts  map[byte]int
	all     uint64
	live    map[*ssa.Function]map[ssa.Instruction]map[ssa.Value]bool
	redir   map[string]*ssa.Function
	nstates int
	nsteps  int
	fns     map[*ssa.Function]bool
	steps   int
	cs      *cstate
	pending map[ssa.Value]cval
}

func (st *cstate) clone() *cstate {
	r := &cstate{next: st.next, masks: map[int]uint64{}, eq: cloneInts(st.eq), ne: map[[2]int]bool{}}
	for k, v := range st.masks {
		r.masks[k] = v
	}
	for k, v := range st.ne {
		r.ne[k] = v
	}
	for _, s := range st.s {
		c := s
		c.elems = append([]celem(nil), s.elems...)
		r.s = append(r.s, c)
	}
	for _, h := range st.hist {
		r.hist = append(r.hist, append([]int(nil), h...))
	}
	for i, m := range st.m {
		r.m[i] = m.clone()
	}
	return r
}

func (m *cmach) clone() *cmach {
	if m.done {
		return m
	}
	r := &cmach{cells: map[int]cval{}}
	for k, v := range m.cells {
		r.cells[k] = v
	}
	for _, f := range m.frames {
		g := *f
		g.env = make(map[ssa.Value]cval, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		r.frames = append(r.frames, &g)
	}
	return r
}

func (st *cstate) rep(x int) int {
	for {
		y, ok := st.eq[x]
		if !ok {
			return x
		}
		x = y
	}
}

func (st *cstate) fresh() int { st.next++; return st.next }

// end positions of the strings are nodes of their own until the end is known
func endNode(s int) int { return -1 - s }

// ---------------------------------------------------------------------------
// Positions
// ---------------------------------------------------------------------------

// find gives the string and the index of the element that starts at a node.
func (st *cstate) find(node int) (int, int) {
	if node < 0 {
		s := -1 - node
		if st.s[s].closed {
			return s, len(st.s[s].elems)
		}
		return s, len(st.s[s].elems) + 1
	}
	for s := range st.s {
		for i, e := range st.s[s].elems {
			if e.node == node {
				return s, i
			}
		}
		if st.s[s].tail == node {
			return s, len(st.s[s].elems)
		}
	}
	return -1, 0
}

func (st *cstate) nodeAt(s, i int) int {
	if i < len(st.s[s].elems) {
		return st.s[s].elems[i].node
	}
	return st.s[s].tail
}

// norm moves a position along known characters so that equal positions look equal.
func (st *cstate) norm(v cval) cval {
	if v.kind != cInt {
		return v
	}
	if len(v.pos) > 0 {
		t := cval{kind: cInt, k: v.k}
		for _, p := range v.pos {
			n := p.node
			if n < 0 && st.s[-1-n].closed {
				n = st.s[-1-n].tail
			}
			t = addInt(t, cval{kind: cInt, pos: []pterm{{n, p.coef}}}, 1)
		}
		v = t
	}
	// k moves into the position that counts positively
	for ti, t := range v.pos {
		if t.coef != 1 || t.node < 0 || v.k == 0 {
			continue
		}
		s, i := st.find(t.node)
		if s < 0 {
			continue
		}
		k := v.k
		for k > 0 && i < len(st.s[s].elems) && !st.s[s].elems[i].run {
			i++
			k--
		}
		for k < 0 && i > 0 && !st.s[s].elems[i-1].run {
			i--
			k++
		}
		if k == v.k {
			continue
		}
		rest := cval{kind: cInt, k: k}
		rest.pos = append(append([]pterm(nil), v.pos[:ti]...), v.pos[ti+1:]...)
		return addInt(rest, cnode(st.nodeAt(s, i)), 1)
	}
	return v
}

// balance adds the start of a string (position 0) to a difference that mentions positions
// of it on one side only.
func (st *cstate) balance(d cval) cval {
	sum := make([]int, len(st.s))
	for _, t := range d.pos {
		s, _ := st.find(t.node)
		if s < 0 {
			climit("a position that is no longer followed")
		}
		sum[s] += t.coef
	}
	for s, c := range sum {
		if c != 0 {
			if !st.s[s].start {
				climit("a position of a string is compared with a number")
			}
			d = addInt(d, cval{kind: cInt, pos: []pterm{{st.nodeAt(s, 0), c}}}, -1)
		}
	}
	return d
}

// sign decides whether a difference is below, at or above zero; it asks for more of the
// string where that is not determined.
func (st *cstate) cmp(d cval, test func(lo, hi int) (bool, bool)) bool {
	const inf = 1 << 30
	d = st.norm(d)
	if len(d.pos) == 1 && (d.pos[0].coef == 1 || d.pos[0].coef == -1) {
		// the start is behind: the position is at least as far as what is known before it
		if s, i := st.find(d.pos[0].node); s >= 0 && !st.s[s].start {
			n := 0
			for k := 0; k < i && k < len(st.s[s].elems); k++ {
				if !st.s[s].elems[k].run {
					n++
				}
				n += st.s[s].elems[k].min
			}
			lo, hi := d.k+n, inf
			if d.pos[0].coef == -1 {
				lo, hi = -inf, d.k-n
			}
			if r, ok := test(lo, hi); ok {
				return r
			}
		}
	}
	d = st.norm(st.balance(d))
	lo, hi := d.k, d.k
	var ask *cneed
	switch {
	case len(d.pos) == 0:
	case len(d.pos) == 2 && d.pos[0].coef+d.pos[1].coef == 0 && (d.pos[0].coef == 1 || d.pos[0].coef == -1):
		a, b, sg := d.pos[0].node, d.pos[1].node, d.pos[0].coef
		s, i := st.find(a)
		s2, j := st.find(b)
		if s != s2 {
			climit("positions of different strings are compared")
		}
		if i > j {
			i, j, sg = j, i, -sg
		}
		// distance from i to j, to be subtracted when sg == 1
		dl, dh := 0, 0
		x := &st.s[s]
		for k := i; k < j; k++ {
			switch {
			case k >= len(x.elems): // the unknown rest
				dh = inf
				if ask == nil {
					ask = &cneed{kind: "reveal", s: s}
				}
			case x.elems[k].run:
				dl += x.elems[k].min
				dh = inf
				if ask == nil {
					ask = &cneed{kind: "run", s: s, i: k}
				}
			default:
				dl++
				if dh < inf {
					dh++
				}
			}
		}
		if sg == 1 {
			lo, hi = d.k-dh, d.k-dl
		} else {
			lo, hi = d.k+dl, d.k+dh
		}
	default:
		climit("positions are compared in a way that is not followed")
	}
	if r, ok := test(lo, hi); ok {
		return r
	}
	if ask == nil {
		climit("positions are compared in a way that is not followed")
	}
	panic(*ask)
}

func (st *cstate) below(x, y cval) bool { // x < y
	return st.cmp(addInt(x, y, -1), func(lo, hi int) (bool, bool) {
		if hi < 0 {
			return true, true
		}
		return false, lo >= 0
	})
}

func (st *cstate) equalInt(x, y cval) bool {
	return st.cmp(addInt(x, y, -1), func(lo, hi int) (bool, bool) {
		if lo == 0 && hi == 0 {
			return true, true
		}
		return false, lo > 0 || hi < 0
	})
}

// ---------------------------------------------------------------------------
// Characters
// ---------------------------------------------------------------------------

func (c *cursors) class(b byte) uint64 {
	if i, ok := c.consts[b]; ok {
		return 1 << uint(i)
	}
	climit("a character that was not collected: %q", b)
	return 0
}

func (c *cursors) known(st *cstate, v cval) (byte, bool) {
	if v.sym == 0 {
		return byte(v.k), true
	}
	m := st.masks[st.rep(v.sym)]
	if m&(m-1) == 0 && m != 1 {
		for b, i := range c.consts {
			if m == 1<<uint(i) {
				return b, true
			}
		}
	}
	return 0, false
}

func nePair(a, b int) [2]int {
	if a > b {
		a, b = b, a
	}
	return [2]int{a, b}
}

func (c *cursors) sameByte(st *cstate, x, y cval) bool {
	bx, kx := c.known(st, x)
	by, ky := c.known(st, y)
	if kx && ky {
		return bx == by
	}
	if kx {
		x, y, bx, kx, ky = y, x, by, ky, kx
		by, _ = c.known(st, y)
	}
	sx := st.rep(x.sym)
	if ky {
		m := st.masks[sx]
		if m&c.class(by) == 0 {
			return false
		}
		panic(cneed{kind: "class", a: sx, k: int(by)})
	}
	sy := st.rep(y.sym)
	if sx == sy {
		return true
	}
	if st.ne[nePair(sx, sy)] || st.masks[sx]&st.masks[sy] == 0 {
		return false
	}
	panic(cneed{kind: "same", a: sx, b: sy})
}

func (st *cstate) prune(c *cursors) bool {
	for again := true; again; {
		again = false
		for p := range st.ne {
			a, b := st.rep(p[0]), st.rep(p[1])
			if a == b {
				return false
			}
			if [2]int{a, b} != p {
				delete(st.ne, p)
				st.ne[nePair(a, b)] = true
			}
			for _, q := range [][2]int{{a, b}, {b, a}} {
				m := st.masks[q[0]]
				if m&(m-1) == 0 && m != 1 && st.masks[q[1]]&m != 0 {
					st.masks[q[1]] &^= m
					again = true
				}
			}
		}
		for x, m := range st.masks {
			if m == 0 && st.rep(x) == x {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// Steps of one function
// ---------------------------------------------------------------------------

func (c *cursors) strLen(v cval) cval {
	if v.strm < 0 {
		return cint(len(v.lit))
	}
	return addInt(*v.hi, *v.lo, -1)
}

// at reads a character of a string.
func (c *cursors) at(st *cstate, s, i cval) cval {
	if s.strm < 0 {
		if !i.constInt() {
			climit("a literal is indexed with a position of another string")
		}
		if i.k < 0 || i.k >= len(s.lit) {
			panic(cfault("index out of range"))
		}
		return cval{kind: cByte, k: int(s.lit[i.k])}
	}
	if st.below(i, cint(0)) {
		panic(cfault("index out of range (below zero)"))
	}
	p := addInt(*s.lo, i, 1)
	if !st.below(p, *s.hi) {
		panic(cfault("index out of range (at or behind the end)"))
	}
	p = st.norm(p)
	if len(p.pos) == 0 {
		p = st.norm(addInt(p, cnode(st.startOf(s.strm)), 1))
	}
	if len(p.pos) != 1 || p.pos[0].coef != 1 {
		climit("a string is indexed in a way that is not followed")
	}
	si, ei := st.find(p.pos[0].node)
	if si != s.strm {
		climit("a string is indexed with a position of another")
	}
	x := &st.s[si]
	if p.k != 0 {
		if p.k < 0 {
			climit("a character that is no longer followed")
		}
		if ei < len(x.elems) {
			panic(cneed{kind: "run", s: si, i: ei})
		}
		panic(cneed{kind: "reveal", s: si})
	}
	if ei >= len(x.elems) {
		panic(cneed{kind: "reveal", s: si})
	}
	if x.elems[ei].run {
		panic(cneed{kind: "run", s: si, i: ei})
	}
	return cval{kind: cByte, sym: st.rep(x.elems[ei].sym)}
}

type cfault string

func (st *cstate) startOf(s int) int {
	if !st.s[s].start {
		climit("the start of a string is no longer followed")
	}
	return st.nodeAt(s, 0)
}

func (c *cursors) val(m *cmach, f *cframe, v ssa.Value) cval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			climit("nil in a function over strings")
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return cbool(constant.BoolVal(x.Value))
		case constant.String:
			return cval{kind: cStr, strm: -1, lit: constant.StringVal(x.Value)}
		case constant.Int:
			n, _ := constant.Int64Val(x.Value)
			if isCharType(x.Type()) {
				return cval{kind: cByte, k: int(n)}
			}
			return cint(int(n))
		}
		climit("a constant of a kind that is not followed")
	case *ssa.Function:
		return cval{kind: cFunc, fn: x}
	}
	r, ok := f.env[v]
	if !ok {
		climit("a value that is not followed: %s in %s", v.Name(), f.fn.Name())
	}
	return r
}

func isCharType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32 || b.Kind() == types.UntypedRune)
}

// promote turns a number that is used as a position into one.
func (c *cursors) promote(st *cstate, f *cframe, v ssa.Value, x cval, s cval) cval {
	if _, isConst := v.(*ssa.Const); isConst || !x.constInt() || s.kind != cStr || s.strm < 0 {
		return x
	}
	n := st.norm(cval{kind: cInt, pos: s.lo.pos, k: s.lo.k + x.k})
	if len(n.pos) == 0 {
		if !st.s[s.strm].start {
			return x
		}
		n = st.norm(addInt(cnode(st.nodeAt(s.strm, 0)), cint(n.k), 1))
	}
	r := addInt(n, *s.lo, -1)
	st.setPos(f, v, x, r)
	return r
}

// setPos replaces a number that turned out to be a position, also where it came from.
func (st *cstate) setPos(f *cframe, v ssa.Value, was, r cval) {
	f.env[v] = r
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a, ok := f.env[u.X]; ok && a.kind == cCell {
			for _, m := range st.m {
				if cv, ok := m.cells[a.k]; ok && cv.constInt() && cv.k == was.k {
					m.cells[a.k] = r
				}
			}
		}
	}
}

func (c *cursors) step(st *cstate, w int) {
	m := st.m[w]
	f := m.frames[len(m.frames)-1]
	in := f.blk.Instrs[f.ip]
	m.at = in.Pos()
	set := func(v ssa.Value, x cval) { f.env[v] = st.norm(x); f.ip++ }
	val := func(v ssa.Value) cval { return c.val(m, f, v) }
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.ip++
	case *ssa.Phi:
		climit("phi out of place")
	case *ssa.Jump:
		c.enter(st, m, f, f.blk.Succs[0])
	case *ssa.If:
		v := val(x.Cond)
		if v.kind != cBool {
			climit("a condition that is not followed")
		}
		if v.b {
			c.enter(st, m, f, f.blk.Succs[0])
		} else {
			c.enter(st, m, f, f.blk.Succs[1])
		}
	case *ssa.BinOp:
		set(x, c.binop(st, m, f, x))
	case *ssa.UnOp:
		v := val(x.X)
		switch {
		case x.Op == token.NOT:
			set(x, cbool(!v.b))
		case x.Op == token.SUB && v.kind == cInt:
			set(x, addInt(cint(0), v, -1))
		case x.Op == token.MUL && v.kind == cCell:
			set(x, m.cells[v.k])
		case x.Op == token.MUL && v.kind == cByteAt:
			r := v
			r.kind = cByte
			set(x, r)
		default:
			climit("operation %s is not followed", x.Op)
		}
	case *ssa.Lookup:
		s, i := val(x.X), val(x.Index)
		if s.kind != cStr || x.CommaOk {
			climit("a lookup that is not followed")
		}
		i = c.promote(st, f, x.Index, i, s)
		set(x, c.at(st, s, i))
	case *ssa.Index:
		s, i := val(x.X), val(x.Index)
		if s.kind != cStr {
			climit("an index that is not followed")
		}
		i = c.promote(st, f, x.Index, i, s)
		set(x, c.at(st, s, i))
	case *ssa.IndexAddr:
		s, i := val(x.X), val(x.Index)
		if s.kind != cStr {
			climit("an index that is not followed")
		}
		i = c.promote(st, f, x.Index, i, s)
		r := c.at(st, s, i)
		r.kind = cByteAt
		set(x, r)
	case *ssa.Slice:
		s := val(x.X)
		if s.kind != cStr {
			climit("a slice that is not followed")
		}
		lo, hi := cint(0), c.strLen(s)
		if x.Low != nil {
			lo = c.promote(st, f, x.Low, val(x.Low), s)
		}
		if x.High != nil {
			hi = c.promote(st, f, x.High, val(x.High), s)
		}
		if s.strm < 0 {
			if !lo.constInt() || !hi.constInt() {
				climit("a literal is sliced with a position of another string")
			}
			if lo.k < 0 || hi.k > len(s.lit) || lo.k > hi.k {
				panic(cfault("slice bounds out of range"))
			}
			set(x, cval{kind: cStr, strm: -1, lit: s.lit[lo.k:hi.k]})
			return
		}
		if st.below(lo, cint(0)) || st.below(hi, lo) || x.High != nil && st.below(c.strLen(s), hi) {
			panic(cfault("slice bounds out of range"))
		}
		l, h := st.norm(addInt(*s.lo, lo, 1)), *s.hi
		if x.High != nil {
			h = st.norm(addInt(*s.lo, hi, 1))
		}
		if len(l.pos) == 0 && l.k > 0 {
			l = st.norm(addInt(cnode(st.startOf(s.strm)), l, 1))
		}
		if len(h.pos) == 0 && h.k > 0 {
			h = st.norm(addInt(cnode(st.startOf(s.strm)), h, 1))
		}
		set(x, cval{kind: cStr, strm: s.strm, lo: &l, hi: &h})
	case *ssa.Convert:
		set(x, c.convert(val(x.X), x.Type()))
	case *ssa.ChangeType:
		set(x, val(x.X))
	case *ssa.Extract:
		t := val(x.Tuple)
		set(x, t.elems[x.Index])
	case *ssa.Alloc:
		if _, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); !ok {
			climit("memory of type %s is not followed", x.Type())
		}
		id := st.fresh()
		m.cells[id] = zeroCval(x.Type().Underlying().(*types.Pointer).Elem())
		set(x, cval{kind: cCell, k: id})
	case *ssa.Store:
		p, v := val(x.Addr), val(x.Val)
		if p.kind != cCell {
			climit("a store that is not followed")
		}
		m.cells[p.k] = v
		f.ip++
	case *ssa.MakeClosure:
		r := cval{kind: cFunc, fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			r.elems = append(r.elems, val(b))
		}
		set(x, r)
	case *ssa.Return:
		var r cval
		switch len(x.Results) {
		case 0:
		case 1:
			r = val(x.Results[0])
		default:
			r.kind = cTuple
			for _, v := range x.Results {
				r.elems = append(r.elems, val(v))
			}
		}
		m.frames = m.frames[:len(m.frames)-1]
		if len(m.frames) == 0 {
			m.done, m.ret = true, r
			return
		}
		g := m.frames[len(m.frames)-1]
		if f.call != nil {
			g.env[f.call] = r
		}
		g.ip++
	case *ssa.Call:
		c.call(st, m, f, x)
	case *ssa.Panic:
		panic(cfault("panic"))
	default:
		climit("%T is not followed", in)
	}
}

func zeroCval(t types.Type) cval {
	switch b := t.Underlying().(*types.Basic); {
	case b.Info()&types.IsString != 0:
		return cval{kind: cStr, strm: -1}
	case b.Info()&types.IsBoolean != 0:
		return cbool(false)
	case isCharType(t):
		return cval{kind: cByte}
	default:
		return cint(0)
	}
}

func (c *cursors) convert(v cval, t types.Type) cval {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && v.kind == cStr {
			return v
		}
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0 && v.kind == cStr:
			return v
		case u.Info()&types.IsInteger != 0 && v.kind == cByte:
			if u.Kind() == types.Uint8 || v.sym != 0 || v.k < 128 {
				return v
			}
		case u.Info()&types.IsInteger != 0 && v.kind == cInt && !isCharType(t):
			return v
		case isCharType(t) && v.constInt():
			return cval{kind: cByte, k: v.k}
		}
	}
	climit("a conversion to %s is not followed", t)
	return v
}

func (c *cursors) binop(st *cstate, m *cmach, f *cframe, x *ssa.BinOp) cval {
	a, b := c.val(m, f, x.X), c.val(m, f, x.Y)
	if a.kind == cByte && b.constInt() {
		b = cval{kind: cByte, k: b.k}
	}
	if b.kind == cByte && a.constInt() {
		a = cval{kind: cByte, k: a.k}
	}
	switch {
	case a.kind == cInt && b.kind == cInt:
		switch x.Op {
		case token.ADD:
			return addInt(a, b, 1)
		case token.SUB:
			return addInt(a, b, -1)
		case token.MUL:
			if a.constInt() && b.constInt() {
				return cint(a.k * b.k)
			}
		case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
			a, b = c.promotePair(st, f, x.X, a, x.Y, b)
			switch x.Op {
			case token.LSS:
				return cbool(st.below(a, b))
			case token.GTR:
				return cbool(st.below(b, a))
			case token.LEQ:
				return cbool(!st.below(b, a))
			case token.GEQ:
				return cbool(!st.below(a, b))
			case token.EQL:
				return cbool(st.equalInt(a, b))
			default:
				return cbool(!st.equalInt(a, b))
			}
		}
	case a.kind == cByte && b.kind == cByte:
		switch x.Op {
		case token.EQL:
			return cbool(c.sameByte(st, a, b))
		case token.NEQ:
			return cbool(!c.sameByte(st, a, b))
		}
	case a.kind == cBool && b.kind == cBool:
		switch x.Op {
		case token.EQL:
			return cbool(a.b == b.b)
		case token.NEQ:
			return cbool(a.b != b.b)
		case token.AND:
			return cbool(a.b && b.b)
		case token.OR:
			return cbool(a.b || b.b)
		}
	case a.kind == cStr && b.kind == cStr && (x.Op == token.EQL || x.Op == token.NEQ):
		if a.strm < 0 {
			a, b = b, a
		}
		if b.strm < 0 {
			return cbool(c.isLit(st, a, b.lit) == (x.Op == token.EQL))
		}
	}
	climit("operation %s is not followed", x.Op)
	return cval{}
}

// promotePair: a number compared with a position of a string that is still at its start.
func (c *cursors) promotePair(st *cstate, f *cframe, vx ssa.Value, x cval, vy ssa.Value, y cval) (cval, cval) {
	one := func(v ssa.Value, a, b cval) cval {
		if _, k := v.(*ssa.Const); k || !a.constInt() || a.k < 0 || len(b.pos) == 0 {
			return a
		}
		sum, which := 0, -1
		for _, t := range b.pos {
			s, _ := st.find(t.node)
			sum += t.coef
			which = s
		}
		if sum != 1 || which < 0 || !st.s[which].start {
			return a
		}
		r := st.norm(addInt(cnode(st.nodeAt(which, 0)), a, 1))
		st.setPos(f, v, a, r)
		return r
	}
	return one(vx, x, y), one(vy, y, x)
}

func (c *cursors) hasPrefix(st *cstate, s cval, lit string) bool {
	if s.strm < 0 {
		return strings.HasPrefix(s.lit, lit)
	}
	for i := 0; i < len(lit); i++ {
		if !st.below(cint(i), c.strLen(s)) {
			return false
		}
		if !c.sameByte(st, c.at(st, s, cint(i)), cval{kind: cByte, k: int(lit[i])}) {
			return false
		}
	}
	return true
}

func (c *cursors) isLit(st *cstate, s cval, lit string) bool {
	if s.strm < 0 {
		return s.lit == lit
	}
	if !st.equalInt(c.strLen(s), cint(len(lit))) {
		return false
	}
	return c.hasPrefix(st, s, lit)
}

func (c *cursors) enter(st *cstate, m *cmach, f *cframe, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == f.blk {
			idx = i
		}
	}
	var vs []ssa.Value
	var xs []cval
	n := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, p)
		xs = append(xs, c.val(m, f, p.Edges[idx]))
		n++
	}
	for i := range vs {
		f.env[vs[i]] = xs[i]
	}
	f.blk, f.ip = to, n
}

func (c *cursors) call(st *cstate, m *cmach, f *cframe, x *ssa.Call) {
	set := func(v cval) { f.env[x] = st.norm(v); f.ip++ }
	var args []cval
	for _, a := range x.Call.Args {
		args = append(args, c.val(m, f, a))
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if args[0].kind == cStr {
				set(c.strLen(args[0]))
				return
			}
		case "min", "max":
			if len(args) == 2 && args[0].kind == cInt && args[1].kind == cInt {
				r := args[0]
				if st.below(args[1], args[0]) == (b.Name() == "min") {
					r = args[1]
				}
				set(r)
				return
			}
		}
		climit("%s is not followed", b.Name())
	}
	var fn *ssa.Function
	var bind []cval
	if x.Call.IsInvoke() {
		climit("a dynamic call is not followed")
	}
	if s := x.Call.StaticCallee(); s != nil {
		fn = s
		if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			bind = c.val(m, f, mc).elems
		}
	} else {
		v := c.val(m, f, x.Call.Value)
		if v.kind != cFunc {
			climit("a call of an unknown function")
		}
		fn, bind = v.fn, v.elems
	}
	name := fn.RelString(nil)
	switch name {
	case "strings.HasPrefix":
		if args[1].strm < 0 {
			set(cbool(c.hasPrefix(st, args[0], args[1].lit)))
			return
		}
	case "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.ContainsRune", "strings.ContainsAny", "strings.LastIndexByte", "strings.TrimLeft", "strings.IndexFunc":
		fn = c.redir[name]
		for i := range args {
			if args[i].constInt() && i == 1 {
				args[i] = cval{kind: cByte, k: args[i].k}
			}
		}
	case "strings.Contains", "strings.Index":
		if args[1].strm < 0 && len(args[1].lit) == 1 {
			fn = c.redir[name]
			args[1] = cval{kind: cByte, k: int(args[1].lit[0])}
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		climit("%s is not followed", name)
	}
	c.fns[fn] = true
	g := &cframe{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]cval{}, call: x}
	for i, p := range fn.Params {
		g.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		g.env[v] = bind[i]
	}
	// the last act of a function leaves nothing of it behind
	if returnsAtOnce(f.blk, f.ip+1, x) {
		g.call = f.call
		m.frames[len(m.frames)-1] = g
		return
	}
	if len(m.frames) > 12 {
		climit("recursion is not followed")
	}
	m.frames = append(m.frames, g)
}

// returnsAtOnce: nothing happens from here on but that v is returned.
func returnsAtOnce(b *ssa.BasicBlock, ip int, v ssa.Value) bool {
	for n := 0; n < 10; n++ {
		switch in := b.Instrs[ip].(type) {
		case *ssa.Return:
			return len(in.Results) == 1 && in.Results[0] == v
		case *ssa.DebugRef:
			ip++
		case *ssa.Jump:
			to := b.Succs[0]
			ip = 0
			for _, x := range to.Instrs {
				ph, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				ip++
				for i, p := range to.Preds {
					if p == b && ph.Edges[i] == v {
						v = ph
					}
				}
			}
			b = to
		default:
			return false
		}
	}
	return false
}

// try runs one step; it reports what the step needs to know, or how it fails.
func (c *cursors) try(st *cstate, w int) (need *cneed) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case cneed:
				need = &r
			case cfault:
				m := st.m[w]
				m.fault, m.done = string(r), true
			default:
				panic(r)
			}
		}
	}()
	c.step(st, w)
	return nil
}

// run lets one function go on until it needs more of the strings; facts about known
// characters are split on the way.
func (c *cursors) run(st *cstate, w int, out *[]*cstate, needs *[]*cneed) {
	steps := 0
	for !st.m[w].done {
		c.nsteps++
		if steps++; steps > 4000 {
			st.m[w].fault, st.m[w].done = "goes round without end", true
			break
		}
		need := c.try(st, w)
		if need == nil {
			continue
		}
		if need.kind == "reveal" || need.kind == "run" {
			*out, *needs = append(*out, st), append(*needs, need)
			return
		}
		for i := 0; i < 2; i++ {
			n := st.clone()
			switch {
			case need.kind == "class" && i == 0:
				n.masks[need.a] = c.class(byte(need.k))
			case need.kind == "class":
				n.masks[need.a] &^= c.class(byte(need.k))
			case i == 0:
				n.eq[need.b] = need.a
				n.masks[need.a] &= n.masks[need.b]
			default:
				n.ne[nePair(need.a, need.b)] = true
			}
			if n.prune(c) {
				c.run(n, w, out, needs)
			}
		}
		return
	}
	*out, *needs = append(*out, st), append(*needs, nil)
}

// supply gives a function what it needs of a string: all cases.
func (c *cursors) supply(st *cstate, need *cneed) []*cstate {
	var r []*cstate
	if need.kind == "reveal" {
		n := st.clone()
		n.s[need.s].closed = true
		r = append(r, n)
		n = st.clone()
		x := &n.s[need.s]
		y := n.fresh()
		n.masks[y] = c.all
		x.elems = append(x.elems, celem{node: x.tail, sym: y})
		x.tail = n.fresh()
		n.hist[need.s] = append(n.hist[need.s], y)
		return append(r, n)
	}
	n := st.clone()
	x := &n.s[need.s]
	if x.elems[need.i].min > 0 {
		x.elems[need.i].min--
		return c.splitRun(n, need)
	}
	gone, into := x.elems[need.i].node, n.nodeAt(need.s, need.i+1)
	x.elems = append(x.elems[:need.i:need.i], x.elems[need.i+1:]...)
	n.rename(gone, into)
	r = append(r, n)
	return append(r, c.splitRun(st.clone(), need)...)
}

// splitRun takes the first character off a run.
func (c *cursors) splitRun(n *cstate, need *cneed) []*cstate {
	x := &n.s[need.s]
	run := x.elems[need.i]
	y := n.fresh()
	n.masks[y] = run.mask
	for _, o := range run.ne {
		n.ne[nePair(y, n.rep(o))] = true
	}
	ch := celem{node: run.node, sym: y}
	run.node = n.fresh()
	x.elems = append(x.elems[:need.i:need.i], append([]celem{ch, run}, x.elems[need.i+1:]...)...)
	if n.prune(c) {
		return []*cstate{n}
	}
	return nil
}

func (st *cstate) mapVals(f func(cval) cval) {
	var g func(v cval) cval
	g = func(v cval) cval {
		v = f(v)
		if v.lo != nil {
			l, h := g(*v.lo), g(*v.hi)
			v.lo, v.hi = &l, &h
		}
		if len(v.elems) > 0 {
			es := make([]cval, len(v.elems))
			for i := range v.elems {
				es[i] = g(v.elems[i])
			}
			v.elems = es
		}
		return v
	}
	for _, m := range st.m {
		if m.done {
			continue
		}
		for _, fr := range m.frames {
			for k, v := range fr.env {
				fr.env[k] = g(v)
			}
		}
		for k, v := range m.cells {
			m.cells[k] = g(v)
		}
	}
}

func (st *cstate) rename(from, to int) {
	st.mapVals(func(v cval) cval {
		for _, t := range v.pos {
			if t.node == from {
				return addInt(addInt(v, cval{kind: cInt, pos: []pterm{{from, t.coef}}}, -1), cval{kind: cInt, pos: []pterm{{to, t.coef}}}, 1)
			}
		}
		return v
	})
}

// ---------------------------------------------------------------------------
// What is live, and when two states are the same
// ---------------------------------------------------------------------------

// liveAt gives the values an instruction or one that may follow it uses.
func (c *cursors) liveAt(fn *ssa.Function, at ssa.Instruction) map[ssa.Value]bool {
	if m, ok := c.live[fn]; ok {
		return m[at]
	}
	m := map[ssa.Instruction]map[ssa.Value]bool{}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					cur[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, x := range s.Instrs {
						ph, ok := x.(*ssa.Phi)
						if !ok {
							break
						}
						cur[ph.Edges[pi]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				x := b.Instrs[k]
				if v, ok := x.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := x.(*ssa.Phi); !ok {
					var ops [16]*ssa.Value
					for _, o := range x.Operands(ops[:0]) {
						if *o != nil {
							cur[*o] = true
						}
					}
				}
				cp := make(map[ssa.Value]bool, len(cur))
				for v := range cur {
					cp[v] = true
				}
				m[x] = cp
			}
			if len(cur) != len(in[b]) {
				changed = true
			}
			in[b] = cur
		}
	}
	c.live[fn] = m
	return m[at]
}

func walkVal(v cval, f func(cval)) {
	f(v)
	if v.lo != nil {
		walkVal(*v.lo, f)
		walkVal(*v.hi, f)
	}
	for _, e := range v.elems {
		walkVal(e, f)
	}
}

// tidy drops what no function can refer to any more and summarises long stretches.
func (c *cursors) tidy(st *cstate) {
	liveNode := map[int]bool{}
	numbers := false
	strs := map[int]bool{}
	for _, m := range st.m {
		if m.done {
			m.frames, m.cells = nil, nil
			continue
		}
		cells := map[int]bool{}
		var see func(v cval)
		see = func(v cval) {
			walkVal(v, func(v cval) {
				switch v.kind {
				case cInt:
					for _, t := range v.pos {
						liveNode[t.node] = true
					}
				case cStr:
					if v.strm >= 0 {
						strs[v.strm] = true
					}
				case cCell:
					if !cells[v.k] {
						cells[v.k] = true
						if cv := m.cells[v.k]; cv.constInt() {
							numbers = true
						}
						see(m.cells[v.k])
					}
				}
			})
		}
		for i, f := range m.frames {
			var at ssa.Instruction = f.blk.Instrs[f.ip]
			lv := c.liveAt(f.fn, at)
			if i < len(m.frames)-1 {
				lv = c.liveAt(f.fn, f.blk.Instrs[f.ip+1])
			}
			for v := range f.env {
				if !lv[v] {
					delete(f.env, v)
				}
			}
		}
		st.normAll(m)
		for _, f := range m.frames {
			for k, v := range f.env {
				if v.constInt() {
					if _, ok := k.(*ssa.Call); !ok {
						numbers = true
					}
				}
				see(v)
			}
		}
		for id := range m.cells {
			if !cells[id] {
				delete(m.cells, id)
			}
		}
	}
	for s := range st.s {
		x := &st.s[s]
		if x.start && numbers && strs[s] {
			liveNode[st.nodeAt(s, 0)] = true
		}
		first := len(x.elems)
		for i, e := range x.elems {
			if liveNode[e.node] {
				first = i
				break
			}
		}
		if first > 0 {
			x.elems = append([]celem(nil), x.elems[first:]...)
			x.start = false
		}
		// stretches between live positions
		var out []celem
		for i := 0; i < len(x.elems); {
			j := i + 1
			for j < len(x.elems) && !liveNode[x.elems[j].node] {
				j++
			}
			seg := x.elems[i:j]
			if len(seg) > 3 {
				out = append(out, seg[:2]...)
				out = append(out, c.merge(st, seg[2:]))
			} else {
				out = append(out, seg...)
			}
			i = j
		}
		x.elems = out
	}
}

func (st *cstate) normAll(m *cmach) {
	for _, f := range m.frames {
		for k, v := range f.env {
			f.env[k] = st.normDeep(v)
		}
	}
	for k, v := range m.cells {
		m.cells[k] = st.normDeep(v)
	}
}

func (st *cstate) normDeep(v cval) cval {
	v = st.norm(v)
	if v.lo != nil {
		l, h := st.norm(*v.lo), st.norm(*v.hi)
		v.lo, v.hi = &l, &h
	}
	if len(v.elems) > 0 {
		es := make([]cval, len(v.elems))
		for i := range v.elems {
			es[i] = st.normDeep(v.elems[i])
		}
		v.elems = es
	}
	return v
}

func (c *cursors) merge(st *cstate, seg []celem) celem {
	r := celem{node: seg[0].node, run: true}
	var ne map[int]bool
	for _, e := range seg {
		mine := map[int]bool{}
		if !e.run {
			r.min++
		}
		r.min = min(r.min+e.min, 3)
		if e.run {
			r.mask |= e.mask
			for _, o := range e.ne {
				mine[st.rep(o)] = true
			}
		} else {
			y := st.rep(e.sym)
			r.mask |= st.masks[y]
			for p := range st.ne {
				if p[0] == y {
					mine[p[1]] = true
				}
				if p[1] == y {
					mine[p[0]] = true
				}
			}
		}
		if ne == nil {
			ne = mine
			continue
		}
		for o := range ne {
			if !mine[o] {
				delete(ne, o)
			}
		}
	}
	for o := range ne {
		r.ne = append(r.ne, o)
	}
	sort.Ints(r.ne)
	return r
}

func (c *cursors) key(st *cstate) string {
	var b strings.Builder
	nodes := map[int]string{}
	syms := map[int]string{}
	var order []int
	for s := range st.s {
		nodes[endNode(s)] = fmt.Sprint("E", s)
		for i, e := range st.s[s].elems {
			nodes[e.node] = fmt.Sprint("n", s, ".", i)
		}
		nodes[st.s[s].tail] = fmt.Sprint("t", s)
	}
	sym := func(y int) string {
		y = st.rep(y)
		if syms[y] == "" {
			syms[y] = fmt.Sprint("c", len(syms))
			order = append(order, y)
		}
		return syms[y]
	}
	for s := range st.s {
		x := &st.s[s]
		fmt.Fprintf(&b, "S%v%v[", x.closed, x.start)
		for _, e := range x.elems {
			if e.run {
				fmt.Fprintf(&b, "*%d/%x ", e.min, e.mask)
			} else {
				fmt.Fprintf(&b, "%s ", sym(e.sym))
			}
		}
		b.WriteString("]")
	}
	var show func(v cval) string
	show = func(v cval) string {
		switch v.kind {
		case cBool:
			return fmt.Sprint(v.b)
		case cInt:
			var t []string
			for _, p := range v.pos {
				n := nodes[p.node]
				if n == "" {
					n = "?"
				}
				t = append(t, fmt.Sprint(p.coef, n))
			}
			sort.Strings(t)
			return fmt.Sprint(v.k, t)
		case cByte, cByteAt:
			if v.sym == 0 {
				return fmt.Sprintf("%q", v.k)
			}
			if k, ok := c.known(st, v); ok {
				return fmt.Sprintf("%q", int(k))
			}
			return sym(v.sym)
		case cStr:
			if v.strm < 0 {
				return fmt.Sprintf("%q", v.lit)
			}
			return fmt.Sprint("s", v.strm, "<", show(*v.lo), show(*v.hi), ">")
		case cCell:
			return fmt.Sprint("@", v.k)
		case cFunc:
			r := v.fn.String()
			for _, e := range v.elems {
				r += show(e)
			}
			return r
		}
		r := "("
		for _, e := range v.elems {
			r += show(e) + ","
		}
		return r
	}
	for _, m := range st.m {
		if m.done {
			fmt.Fprintf(&b, "|done %v %s", show(m.ret), m.fault)
			continue
		}
		cells := map[int]int{}
		for _, f := range m.frames {
			fmt.Fprintf(&b, "|%s %d.%d:", f.fn, f.blk.Index, f.ip)
			var vs []ssa.Value
			for v := range f.env {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			for _, v := range vs {
				x := f.env[v]
				if x.kind == cCell {
					if _, ok := cells[x.k]; !ok {
						cells[x.k] = len(cells)
						fmt.Fprintf(&b, "%s=@%d(%s) ", v.Name(), cells[x.k], show(m.cells[x.k]))
						continue
					}
					fmt.Fprintf(&b, "%s=@%d ", v.Name(), cells[x.k])
					continue
				}
				if x.kind == cFunc && len(x.elems) > 0 {
					fmt.Fprintf(&b, "%s=%s(", v.Name(), x.fn)
					for _, e := range x.elems {
						if e.kind == cCell {
							if _, ok := cells[e.k]; !ok {
								cells[e.k] = len(cells)
							}
							fmt.Fprintf(&b, "@%d(%s)", cells[e.k], show(m.cells[e.k]))
						} else {
							b.WriteString(show(e))
						}
					}
					b.WriteString(") ")
					continue
				}
				fmt.Fprintf(&b, "%s=%s ", v.Name(), show(x))
			}
		}
	}
	// what is known about the characters
	for s := range st.s {
		for _, e := range st.s[s].elems {
			if e.run {
				var t []string
				for _, o := range e.ne {
					if n, ok := syms[st.rep(o)]; ok {
						t = append(t, n)
					}
				}
				sort.Strings(t)
				fmt.Fprintf(&b, " r%v", t)
			}
		}
	}
	for _, y := range order {
		fmt.Fprintf(&b, " %s:%x", syms[y], st.masks[y])
	}
	var ps []string
	for p := range st.ne {
		x, ok := syms[st.rep(p[0])]
		y, ok2 := syms[st.rep(p[1])]
		if ok && ok2 && st.masks[st.rep(p[0])]&st.masks[st.rep(p[1])] != 0 {
			if x > y {
				x, y = y, x
			}
			ps = append(ps, x+"#"+y)
		}
	}
	sort.Strings(ps)
	b.WriteString(strings.Join(ps, " "))
	return b.String()
}

// example spells out strings that lead to a state.
func (c *cursors) example(st *cstate) string {
	letters := "abcdefghijklmnopqrstuvwxyz0123456789"
	given := map[int]byte{}
	var r []string
	for s := range st.s {
		var t []byte
		for _, y := range st.hist[s] {
			y = st.rep(y)
			if b, ok := c.known(st, cval{kind: cByte, sym: y}); ok {
				t = append(t, b)
				continue
			}
			if _, ok := given[y]; !ok {
				if st.masks[y]&1 != 0 {
					given[y] = letters[len(given)%len(letters)]
				} else {
					for b, i := range c.consts {
						if st.masks[y]&(1<<uint(i)) != 0 {
							given[y] = b
						}
					}
				}
			}
			t = append(t, given[y])
		}
		x := fmt.Sprintf("%q", t)
		if !st.s[s].closed {
			x += "..."
		}
		r = append(r, x)
	}
	return strings.Join(r, ", ")
}

// collect finds the characters a function and its callees mention.
func (c *cursors) collect(fn *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	add := func(b byte) {
		if _, ok := c.consts[b]; !ok {
			c.consts[b] = len(c.consts) + 1
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				switch v := (*o).(type) {
				case *ssa.Const:
					if v.Value == nil {
						continue
					}
					if v.Value.Kind() == constant.String {
						for _, x := range []byte(constant.StringVal(v.Value)) {
							add(x)
						}
					}
					if v.Value.Kind() == constant.Int {
						if n, ok := constant.Int64Val(v.Value); ok && n > 1 && n < 256 {
							add(byte(n))
						}
					}
				case *ssa.Function:
					c.collect(v, seen)
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		c.collect(a, seen)
	}
}

// walks compares two functions over the same strings.
func (e *Env) walks(code, spec string) {
	if !e.job(code + " against " + spec) {
		return
	}
	e.guard(code+" against "+spec, func() {
		cf, sf := e.entry(code), e.w.fn(spec)
		if cf == nil {
			return
		}
		if sf == nil {
			panic(analysisLimit("reference function " + spec + " not found"))
		}
		c := &cursors{e: e, consts: map[byte]int{}, live: map[*ssa.Function]map[ssa.Instruction]map[ssa.Value]bool{}, redir: map[string]*ssa.Function{}, fns: map[*ssa.Function]bool{}}
		for n, r := range map[string]string{"IndexByte": "zzIndexByte", "IndexRune": "zzIndexByte", "Index": "zzIndexByte", "IndexAny": "zzIndexAny", "ContainsRune": "zzContainsByte", "Contains": "zzContainsByte", "ContainsAny": "zzContainsAny", "LastIndexByte": "zzLastIndexByte", "TrimLeft": "zzTrimLeft", "IndexFunc": "zzIndexFunc"} {
			c.redir["strings."+n] = e.w.fn("utils." + r)
		}
		seen := map[*ssa.Function]bool{}
		c.collect(cf, seen)
		c.collect(sf, seen)
		if len(c.consts) > 60 {
			climit("too many characters")
		}
		c.all = 1<<uint(len(c.consts)+1) - 1
		st := &cstate{masks: map[int]uint64{}, eq: map[int]int{}, ne: map[[2]int]bool{}}
		for range cf.Params {
			st.s = append(st.s, cstrm{tail: st.fresh(), start: true})
			st.hist = append(st.hist, nil)
		}
		for i, fn := range []*ssa.Function{cf, sf} {
			c.fns[fn] = true
			f := &cframe{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]cval{}}
			for k, p := range fn.Params {
				z, h := cint(0), cnode(endNode(k))
				f.env[p] = cval{kind: cStr, strm: k, lo: &z, hi: &h}
			}
			st.m[i] = &cmach{frames: []*cframe{f}, cells: map[int]cval{}}
		}
		visited := map[string]bool{}
		work := []*cstate{st}
		ends := 0
		for len(work) > 0 && len(e.viol) == 0 {
			st := work[0]
			work = work[1:]
			var as []*cstate
			var an []*cneed
			c.run(st, 0, &as, &an)
			for i, a := range as {
				var bs []*cstate
				var bn []*cneed
				c.run(a, 1, &bs, &bn)
				for _, b := range bs {
					m0, m1 := b.m[0], b.m[1]
					if m0.fault != "" {
						e.ok(false)
						e.bad("fails", code, "%s: %s at %s for (%s)", code, m0.fault, e.w.pos(m0.at), c.example(b))
						continue
					}
					if m1.fault != "" {
						panic(analysisLimit("the reference fails: " + m1.fault))
					}
					if m0.done && m1.done {
						ends++
						same := m0.ret.kind == cBool && m1.ret.kind == cBool && m0.ret.b == m1.ret.b
						e.ok(same)
						if !same {
							e.bad("answers-wrongly", code, "%s answers %v (%s) where the property says %v, for example for (%s)", code, m0.ret.b, e.w.pos(m0.at), m1.ret.b, c.example(b))
						} else {
							e.sample("%s and the property agree on %v for (%s)", code, m0.ret.b, c.example(b))
						}
						continue
					}
				}
				for j, b := range bs {
					if b.m[0].fault != "" || b.m[0].done && b.m[1].done {
						continue
					}
					c.tidy(b)
					k := c.key(b)
					if visited[k] {
						continue
					}
					visited[k] = true
					if len(visited) > 60000 {
						climit("too many states")
					}
					// tidying moves the elements: ask again
					var n0, n1 *cneed
					if an[i] != nil {
						n0 = c.again(b, 0)
					}
					if bn[j] != nil {
						n1 = c.again(b, 1)
					}
					pick := n0
					if pick == nil || n1 != nil && n1.kind == "run" && pick.kind != "run" {
						pick = n1
					}
					if pick == nil {
						work = append(work, b)
						continue
					}
					work = append(work, c.supply(b, pick)...)
				}
			}
		}
		e.count("functions_evaluated", len(c.fns))
		e.count("abstract_states", len(visited))
		e.count("abstract_steps", c.nsteps)
		e.count("ends_compared", ends)
		e.floor("ends_compared", 10)
	})
}

// again repeats the step that asked for more, to see what it asks for now.
func (c *cursors) again(st *cstate, w int) *cneed {
	cp := st.clone()
	for i := 0; i < 50; i++ {
		n := c.try(cp, w)
		if n == nil {
			if cp.m[w].done {
				return nil
			}
			continue
		}
		if n.kind == "reveal" || n.kind == "run" {
			return n
		}
		return nil
	}
	return nil
}
