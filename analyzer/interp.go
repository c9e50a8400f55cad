package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Abstract interpreter: context-sensitive guarded value flow over SSA.
// Every block is evaluated once per pass; edges are joined, loops and recursion
// are fixpoint regions. Nothing is executed and no path is enumerated.
// ---------------------------------------------------------------------------

type State struct {
	mem map[*Term]*Term
}

func (st *State) clone() *State {
	m := make(map[*Term]*Term, len(st.mem)+4)
	for k, v := range st.mem {
		m[k] = v
	}
	return &State{m}
}

type Effect struct {
	Kind   string // store insert delete clear call panic deref assert index read write lock unlock put get go
	Name   string
	G      Node
	Pos    token.Pos
	Fn     *ssa.Function
	T      []*Term
	Locks  map[*Term]*Term // lock address -> state, at the time of the effect
	Region int
	Ctx    string
	Epochs []*Term // locks taken again after having been released
}

type edge struct {
	from, to *ssa.BasicBlock
	g        Node
	st       *State
	pos      token.Pos
}

type retEdge struct {
	g   Node
	st  *State
	v   *Term
	pos token.Pos
}

type deferRec struct {
	g     Node
	instr *ssa.Defer
	fnv   *Term
	args  []*Term
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	ctx    string
	li     *loopInfo
	defers []deferRec
	rets   []retEdge
	preset map[*ssa.BasicBlock]map[*ssa.Phi]*Term
	// recursion
	recursive bool
	inRegion  bool
	region    *Region
	assume    []*Term // assumed parameter values
	retAssume *Term   // nil: bottom
	mvCells   map[*Term]bool
	backs     []recBack
	entrySt   *State
}

type recBack struct {
	g    Node
	st   *State
	args []*Term
	pos  token.Pos
}

type closureRec struct {
	fn    *ssa.Function
	binds []*Term
}

type Interp struct {
	*Store
	w          *World
	effects    []Effect
	stack      []*frame
	regStack   []int
	closures   []closureRec
	closIdx    map[string]int
	funcs      []*ssa.Function
	funcIdx    map[*ssa.Function]int
	allocIDs   map[string]int
	allocInfo  []allocInfo
	allocCell  map[*Term]*Term
	cut        map[string]bool
	beside     func(fn *ssa.Function, args []*Term, st *State) bool // calls that do not matter
	redirect   map[string]*ssa.Function
	owner      map[*Term]string // KField/KFAddr term -> owning struct type
	steps      int
	notes      map[string]bool
	evaluated  map[*ssa.Function]bool
	callSites  int
	retSites   []retEdge
	rangeBase  map[*Term]*Term
	memo       map[string]bool // fields that hold memo tables, taken empty
	pools      map[string]string
	cleanPools bool // what comes out of a pool is empty (C09 shows that leftovers make no difference)
	epochs     bool
	structs    map[string]*types.Struct
}

type allocInfo struct {
	kind string // "cell", "array:n", "slice", "map", "imap", "pool"
	typ  types.Type
	pos  token.Pos
	fn   *ssa.Function
	name string
}

func NewInterp(w *World) *Interp {
	allocRegions = map[int]int{}
	ifaceTypes = map[*Term]string{}
	st := NewStore()
	st.neverNil = w.neverNil()
	return &Interp{Store: st, w: w, closIdx: map[string]int{}, funcIdx: map[*ssa.Function]int{}, allocIDs: map[string]int{}, allocCell: map[*Term]*Term{}, cut: map[string]bool{}, owner: map[*Term]string{}, notes: map[string]bool{}, evaluated: map[*ssa.Function]bool{}, rangeBase: map[*Term]*Term{}, memo: map[string]bool{}}
}

type Result struct {
	in     *Interp
	fn     *ssa.Function
	params []*Term
	ret    *Term
	st     *State
	g      Node
	rets   []retEdge
}

// Run evaluates fn on symbolic parameters.
func (in *Interp) Run(fn *ssa.Function) *Result {
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, in.Param(i, fmt.Sprintf("arg%d", i)))
		if _, ok := p.Type().Underlying().(*types.Basic); ok {
			in.basic[args[i].S] = true
		}
	}
	st := &State{mem: map[*Term]*Term{}}
	ret, st2, g2 := in.call(fn, args, nil, bddTrue, st, "root", fn.Pos())
	return &Result{in: in, fn: fn, params: args, ret: ret, st: st2, g: g2, rets: in.retSites}
}

func (in *Interp) curRegion() int {
	if n := len(in.regStack); n > 0 {
		return in.regStack[n-1]
	}
	return 0
}

func (in *Interp) note(s string) { in.notes[s] = true }

func (in *Interp) effect(kind, name string, g Node, st *State, pos token.Pos, t ...*Term) {
	var locks map[*Term]*Term
	var epochs []*Term
	for k, v := range st.mem {
		if k.K == KApp && k.S == "epoch" {
			epochs = append(epochs, k.A[0])
		}
		if k.K == KApp && k.S == "lock" {
			if locks == nil {
				locks = map[*Term]*Term{}
			}
			locks[k.A[0]] = v
		}
	}
	var fn *ssa.Function
	ctx := ""
	if n := len(in.stack); n > 0 {
		fn = in.stack[n-1].fn
		ctx = in.stack[n-1].ctx
	}
	in.effects = append(in.effects, Effect{Kind: kind, Name: name, G: g, Pos: pos, Fn: fn, T: t, Locks: locks, Region: in.curRegion(), Ctx: ctx, Epochs: epochs})
}

// ---------------------------------------------------------------------------
// Calls and recursion
// ---------------------------------------------------------------------------

// grows: the content is that of the cell at the start of the activation or of an inner
// loop's iteration, with nothing taken out.
func (in *Interp) grows(v *Term, rec int, cell string, depth int) bool {
	if depth > 12 {
		return false
	}
	switch v.K {
	case KMV:
		if cellOf(v) != cell {
			return false
		}
		if v.I == rec || !strings.HasPrefix(v.S, "out:") {
			return true
		}
		for _, sr := range in.regions[v.I].src[v.S] {
			if !in.grows(sr.v, rec, cell, depth+1) {
				return false
			}
		}
		return true
	case KAppend, KMIns, KAppAll:
		return in.grows(v.A[0], rec, cell, depth+1)
	case KChoice:
		for _, a := range v.A {
			if !in.grows(a, rec, cell, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (in *Interp) call(fn *ssa.Function, args, binds []*Term, g Node, st *State, site string, pos token.Pos) (*Term, *State, Node) {
	// recursive?
	for i := len(in.stack) - 1; i >= 0; i-- {
		fr := in.stack[i]
		if fr.fn == fn {
			fr.recursive = true
			fr.backs = append(fr.backs, recBack{g, st.clone(), args, pos})
			if !fr.inRegion || fr.retAssume == nil {
				return in.bottom(), st, bddFalse
			}
			st2 := st.clone()
			for c := range fr.mvCells {
				st2.mem[c] = in.MV(fr.region.id, "mid:"+in.cellName(c), 0)
			}
			return fr.retAssume, st2, g
		}
	}
	if len(in.stack) > 40 {
		panic(analysisLimit("call depth"))
	}
	in.evaluated[fn] = true
	in.callSites++
	ctx := site
	if n := len(in.stack); n > 0 {
		ctx = in.stack[n-1].ctx + "/" + site
	}
	mkFrame := func() *frame {
		fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, ctx: ctx, li: in.w.loops(fn), preset: map[*ssa.BasicBlock]map[*ssa.Phi]*Term{}}
		for i, fv := range fn.FreeVars {
			if i < len(binds) {
				fr.env[fv] = binds[i]
			}
		}
		return fr
	}
	mark := len(in.effects)
	fr := mkFrame()
	ret, st2, g2 := in.runFrame(fr, args, g, st.clone())
	if !fr.recursive {
		return ret, st2, g2
	}
	// fixpoint over the recursion
	reg := in.region("rec:"+ctx+"@"+fn.String(), "rec", in.curRegion())
	reg.pos = fn.Pos()
	reg.fn = fn.String()
	reg.entryG = g
	assume := append([]*Term{}, args...)
	mv := map[*Term]bool{}
	var retAssume *Term
	if g2 != bddFalse && !in.mentionsRegion(ret, reg.id) {
		retAssume = ret
	}
	if g2 == bddFalse {
		retAssume = in.MV(reg.id, "ret", 0)
	} else if retAssume == nil {
		retAssume = in.mvRet(reg, fn)
	}
	stIn := st
	var lastFr *frame
	for pass := 0; ; pass++ {
		if pass > 14 {
			panic(analysisLimit("recursion fixpoint in " + fn.String()))
		}
		in.effects = in.effects[:mark]
		nf := mkFrame()
		nf.inRegion = true
		nf.region = reg
		nf.assume = assume
		nf.retAssume = retAssume
		nf.mvCells = mv
		entry := stIn.clone()
		for c := range mv {
			entry.mem[c] = in.cellMV(reg.id, c)
		}
		in.regStack = append(in.regStack, reg.id)
		ret, st2, g2 = in.runFrame(nf, assume, g, entry.clone())
		in.regStack = in.regStack[:len(in.regStack)-1]
		lastFr = nf
		changed := false
		// parameters
		na := append([]*Term{}, assume...)
		for i := range args {
			for _, b := range nf.backs {
				if i < len(b.args) && b.g != bddFalse && b.args[i] != assume[i] {
					p := in.MV(reg.id, fmt.Sprintf("param%d:%s", i, paramName(fn, i)), 0)
					if i < len(fn.Params) {
						mvTypes[fmt.Sprintf("%d/%s", reg.id, p.S)] = mvType(fn.Params[i].Type())
					}
					if na[i] != p {
						na[i] = p
						changed = true
					}
				}
			}
		}
		assume = na
		// cells
		check := func(s *State) {
			for a, v := range s.mem {
				if mv[a] || in.localTo(a, reg.id) {
					continue
				}
				if in.cellOr(entry, a) != v {
					mv[a] = true
					changed = true
				}
			}
		}
		for _, b := range nf.backs {
			if b.g != bddFalse {
				check(b.st)
			}
		}
		if g2 != bddFalse && len(nf.backs) > 0 {
			check(st2)
		}
		for _, r := range nf.rets {
			in.saveAllocs(r.st, reg.id)
		}
		for _, b := range nf.backs {
			in.saveAllocs(b.st, reg.id)
		}
		// result
		if g2 != bddFalse && ret != retAssume {
			m := in.mvRet(reg, fn)
			if retAssume != m {
				retAssume = m
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// record definitions
	reg.src = map[string][]source{}
	for i := range args {
		if assume[i] == args[i] {
			continue
		}
		cell := assume[i].S
		reg.src[cell] = []source{{g: g, v: args[i], init: true}}
		for _, b := range lastFr.backs {
			if b.g != bddFalse && i < len(b.args) {
				reg.src[cell] = append(reg.src[cell], source{g: b.g, v: b.args[i]})
			}
		}
	}
	for c := range mv {
		var src []source
		src = append(src, source{g: g, v: in.cellOr(stIn, c), init: true})
		for _, b := range lastFr.backs {
			if b.g != bddFalse {
				src = append(src, source{g: b.g, v: in.cellOr(b.st, c)})
			}
		}
		for _, r := range lastFr.rets {
			src = append(src, source{g: r.g, v: in.cellOr(r.st, c)})
		}
		n := in.cellName(c)
		// what is there when an activation returns was there before, or was put there by
		// an activation and was still there when that one returned
		reg.src["in:"+n] = src
		var fin []source
		fin = append(fin, src[0])
		for _, r := range lastFr.rets {
			fin = append(fin, source{g: r.g, v: in.cellOr(r.st, c)})
		}
		reg.src["mid:"+n], reg.src["out:"+n] = fin, fin
	}
	// what an activation put there before it called itself is still there afterwards if
	// nothing is ever taken out
	for c := range mv {
		n := in.cellName(c)
		grows := true
		for _, sr := range reg.src["in:"+n][1:] {
			grows = grows && in.grows(sr.v, reg.id, n, 0)
		}
		if grows {
			reg.src["mid:"+n], reg.src["out:"+n] = reg.src["in:"+n], reg.src["in:"+n]
		}
	}
	reg.rets = nil
	for _, r := range lastFr.rets {
		reg.rets = append(reg.rets, source{g: r.g, v: r.v})
		if r.v.K == KTuple {
			for j, x := range r.v.A {
				k := fmt.Sprintf("ret%d", j)
				_ = x
				_ = k
			}
		}
	}
	nres := fn.Signature.Results().Len()
	if nres == 1 {
		var src []source
		for _, r := range lastFr.rets {
			src = append(src, source{g: r.g, v: r.v})
		}
		reg.src["ret"] = src
	} else {
		for j := 0; j < nres; j++ {
			var src []source
			for _, r := range lastFr.rets {
				if r.v.K == KTuple {
					src = append(src, source{g: r.g, v: r.v.A[j]})
				}
			}
			reg.src[fmt.Sprintf("ret%d", j)] = src
		}
	}
	out := st.clone()
	for c := range mv {
		out.mem[c] = in.MV(reg.id, "out:"+in.cellName(c), 0)
	}
	// cells allocated inside keep their side-table contents
	return retAssume, out, g
}

func paramName(fn *ssa.Function, i int) string {
	if i < len(fn.Params) {
		return fn.Params[i].Name()
	}
	return fmt.Sprint(i)
}

func (in *Interp) mvRet(reg *Region, fn *ssa.Function) *Term {
	n := fn.Signature.Results().Len()
	switch n {
	case 0:
		return in.Tuple()
	case 1:
		return in.MV(reg.id, "ret", 0)
	}
	var a []*Term
	for j := 0; j < n; j++ {
		a = append(a, in.MV(reg.id, fmt.Sprintf("ret%d", j), 0))
	}
	return in.Tuple(a...)
}

func (in *Interp) bottom() *Term { return in.mk(KUnk, "bottom", 0, 0, nil, nil) }

func (in *Interp) mentionsRegion(t *Term, r int) bool {
	return in.contains(t, func(x *Term) bool {
		switch x.K {
		case KIt, KMV:
			return in.within(x.I, r)
		case KAlloc:
			return in.allocRegion(x) >= 0 && in.within(in.allocRegion(x), r)
		case KAtom:
			return x.S == "exit" && in.within(x.I, r)
		}
		return false
	})
}

// runFrame evaluates the body of a function.
func (in *Interp) runFrame(fr *frame, args []*Term, g Node, st *State) (*Term, *State, Node) {
	in.steps++
	if in.steps > 400000 {
		panic(analysisLimit("too many evaluations"))
	}
	for i, p := range fr.fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = in.unk("arg", p.Pos())
		}
	}
	in.stack = append(in.stack, fr)
	pending := map[*ssa.BasicBlock][]edge{fr.fn.Blocks[0]: {{nil, fr.fn.Blocks[0], g, st, token.NoPos}}}
	in.runLevel(fr, nil, pending)
	in.stack = in.stack[:len(in.stack)-1]
	if len(in.stack) == 0 {
		in.retSites = fr.rets
	}
	// merge returns
	rg := bddFalse
	for _, r := range fr.rets {
		rg = in.bdd.Or(rg, r.g)
	}
	if rg == bddFalse {
		return in.bottom(), st, bddFalse
	}
	var gs []Node
	var vs []*Term
	var sts []*State
	for _, r := range fr.rets {
		gs = append(gs, in.bdd.Restrict(r.g, rg))
		vs = append(vs, r.v)
		sts = append(sts, r.st)
	}
	return in.Choice(gs, vs), in.mergeStates(gs, sts), rg
}

func (in *Interp) unk(what string, pos token.Pos) *Term {
	return in.mk(KUnk, fmt.Sprintf("%s@%s", what, in.w.pos(pos)), 0, 0, nil, nil)
}

func (in *Interp) mergeStates(gs []Node, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	keys := map[*Term]bool{}
	for _, s := range sts {
		for k := range s.mem {
			keys[k] = true
		}
	}
	out := &State{mem: make(map[*Term]*Term, len(keys))}
	for k := range keys {
		var g2 []Node
		var v2 []*Term
		same := true
		for i, s := range sts {
			v, ok := s.mem[k]
			if !ok {
				if rootAlloc(k) != nil {
					continue
				}
				v = in.initial(k)
			}
			if len(v2) > 0 && v2[0] != v {
				same = false
			}
			g2 = append(g2, gs[i])
			v2 = append(v2, v)
		}
		if same {
			out.mem[k] = v2[0]
		} else {
			out.mem[k] = in.Choice(g2, v2)
		}
	}
	return out
}

// rootAlloc is the local allocation an address belongs to, or nil.
func rootAlloc(a *Term) *Term {
	for {
		switch a.K {
		case KAlloc:
			return a
		case KFAddr, KIAddr, KContents:
			a = a.A[0]
		case KApp:
			if (a.S == "lock" || a.S == "released") && len(a.A) > 0 {
				a = a.A[0]
				continue
			}
			return nil
		case KSub:
			a = a.A[0]
		default:
			return nil
		}
	}
}

// localTo reports whether the address belongs to an allocation made inside the region.
func (in *Interp) localTo(a *Term, region int) bool {
	r := rootAlloc(a)
	if r == nil {
		return false
	}
	ar := in.allocRegion(r)
	return ar >= 0 && in.within(ar, region)
}

func (in *Interp) saveAllocs(st *State, region int) {
	for a, v := range st.mem {
		if in.localTo(a, region) {
			in.allocCell[a] = v
		}
	}
}

// initial value of a cell that was never written.
func (in *Interp) initial(a *Term) *Term {
	switch a.K {
	case KFAddr:
		return in.Field(in.initial(a.A[0]), a.S)
	case KIAddr:
		return in.Elem(a.A[0], a.A[1])
	case KContents:
		return a.A[0]
	case KApp:
		if a.S == "lock" {
			return in.Const("unlocked")
		}
		if a.S == "released" {
			return in.False()
		}
	case KAlloc:
		return a
	case KGlobal:
		return a
	}
	return in.App("deref", a)
}

func (in *Interp) cellOr(st *State, a *Term) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	if rootAlloc(a) != nil {
		if v, ok := in.allocCell[a]; ok {
			return v
		}
	}
	return in.initial(a)
}

// contentOr is the content of a container cell in a state.
func (in *Interp) contentOr(st *State, c *Term) *Term { return in.content(st, c.A[0]) }

func (in *Interp) cellName(a *Term) string {
	return fmt.Sprintf("%d", a.id)
}

// cellMV is what a cell holds when an iteration or activation starts.
func (in *Interp) cellMV(region int, c *Term) *Term {
	if c.K == KAlloc {
		if t := in.allocInfo[c.I].typ; t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				mvTypes[fmt.Sprintf("%d/cv:%s", region, in.cellName(c))] = mvType(sl.Elem())
			}
		}
	}
	return in.MV(region, "in:"+in.cellName(c), 0)
}

// ---------------------------------------------------------------------------
// Control flow
// ---------------------------------------------------------------------------

func (in *Interp) runLevel(fr *frame, level *loop, pending map[*ssa.BasicBlock][]edge) (exits, backs []edge) {
	route := func(es []edge) {
		for _, e := range es {
			if e.g == bddFalse {
				continue
			}
			if level != nil && e.to == level.header {
				backs = append(backs, e)
			} else if level != nil && !level.blocks[e.to] {
				exits = append(exits, e)
			} else {
				pending[e.to] = append(pending[e.to], e)
			}
		}
	}
	for _, b := range fr.li.rpo {
		if level != nil && !level.blocks[b] {
			continue
		}
		// child loop of this level that contains b
		child := fr.li.childOf(level, b)
		if child != nil {
			if b == child.header && len(pending[b]) > 0 {
				route(in.runLoop(fr, child, pending[b]))
			}
			continue
		}
		if len(pending[b]) == 0 {
			continue
		}
		route(in.runBlock(fr, b, pending[b]))
	}
	return
}

func (in *Interp) joinEdges(es []edge) (Node, []Node, *State) {
	g := bddFalse
	for _, e := range es {
		g = in.bdd.Or(g, e.g)
	}
	var gs []Node
	var sts []*State
	for _, e := range es {
		gs = append(gs, in.bdd.Restrict(e.g, g))
		sts = append(sts, e.st)
	}
	st := in.mergeStates(gs, sts)
	if len(sts) == 1 {
		st = st.clone()
		for k, v := range st.mem {
			if k.K == KContents {
				st.mem[k] = in.under(v, g)
			}
		}
	}
	return g, gs, st
}

func (in *Interp) phiIn(fr *frame, phi *ssa.Phi, es []edge, gs []Node) *Term {
	var g2 []Node
	var vs []*Term
	b := phi.Block()
	for i, e := range es {
		for j, p := range b.Preds {
			if p == e.from {
				g2 = append(g2, gs[i])
				vs = append(vs, in.val(fr, phi.Edges[j]))
				break
			}
		}
	}
	return in.Choice(g2, vs)
}

func (in *Interp) runBlock(fr *frame, b *ssa.BasicBlock, es []edge) []edge {
	g, gs, st := in.joinEdges(es)
	if pre, ok := fr.preset[b]; ok {
		for phi, v := range pre {
			fr.env[phi] = v
		}
	} else {
		// evaluate all phis simultaneously
		vals := map[*ssa.Phi]*Term{}
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			vals[phi] = in.phiIn(fr, phi, es, gs)
		}
		for p, v := range vals {
			fr.env[p] = v
		}
	}
	return in.execBlock(fr, b, g, st)
}

func (in *Interp) execBlock(fr *frame, b *ssa.BasicBlock, g Node, st *State) []edge {
	for _, ins := range b.Instrs {
		if g == bddFalse {
			return nil
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := in.asBDD(in.val(fr, x.Cond))
			gt := in.bdd.And(g, c)
			gf := in.bdd.And(g, in.bdd.Not(c))
			if x.Block().Succs[0] == x.Block().Succs[1] {
				return []edge{{b, b.Succs[0], g, st, x.Pos()}}
			}
			return []edge{{b, b.Succs[0], gt, st.clone(), x.Cond.Pos()}, {b, b.Succs[1], gf, st, x.Cond.Pos()}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], g, st, token.NoPos}}
		case *ssa.Return:
			var vs []*Term
			for _, r := range x.Results {
				v := in.val(fr, r)
				if isSlice(r.Type()) {
					v = in.freeze(st, v)
				}
				vs = append(vs, v)
			}
			var v *Term
			if len(vs) == 1 {
				v = vs[0]
			} else {
				v = in.Tuple(vs...)
			}
			fr.rets = append(fr.rets, retEdge{g, st, v, x.Pos()})
			return nil
		case *ssa.Panic:
			in.effect("panic", "panic", g, st, x.Pos(), in.val(fr, x.X))
			return nil
		default:
			g, st = in.instr(fr, ins, g, st)
		}
	}
	return nil
}

// runLoop evaluates a natural loop as a fixpoint region.
// unroll runs a loop over a short list (of options, say) one element at a time, when the
// length of the list is known.
func (in *Interp) unroll(fr *frame, L *loop, es []edge) ([]edge, bool) {
	calls := false
	for b := range L.blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok && !c.Call.IsInvoke() && c.Call.StaticCallee() == nil {
				if _, bi := c.Call.Value.(*ssa.Builtin); !bi {
					calls = true
				}
			}
		}
	}
	n := int64(-1)
	ind := false
	for _, i := range L.header.Instrs {
		switch i := i.(type) {
		case *ssa.Phi:
			if step, ok := induction(i, L); ok && step == 1 {
				ind = true
			}
		case *ssa.BinOp:
			if i.Op == token.LSS {
				if t, ok := fr.env[i.Y]; ok {
					if v, ok := intConst(t); ok {
						n = v
					}
				}
			}
		}
	}
	if !ind || n < 0 || n > 8 || !calls && n > 2 {
		return nil, false
	}
	var out []edge
	cur := es
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	for k := int64(0); k <= n; k++ {
		fr.ctx = fmt.Sprintf("%s~%d", ctx, k)
		g, gs, st := in.joinEdges(cur)
		pre := map[*ssa.Phi]*Term{}
		for _, i := range L.header.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			pre[phi] = in.phiIn(fr, phi, cur, gs)
		}
		fr.preset[L.header] = pre
		pending := map[*ssa.BasicBlock][]edge{L.header: {{nil, L.header, g, st, token.NoPos}}}
		exits, backs := in.runLevel(fr, L, pending)
		delete(fr.preset, L.header)
		out = append(out, exits...)
		if len(backs) == 0 {
			return out, true
		}
		cur = backs
	}
	panic(analysisLimit("unrolling"))
}

func (in *Interp) runLoop(fr *frame, L *loop, es []edge) []edge {
	if out, ok := in.unroll(fr, L, es); ok {
		return out
	}
	g0, gs, st0 := in.joinEdges(es)
	key := fmt.Sprintf("loop:%s@%s#%d", fr.ctx, fr.fn.String(), L.header.Index)
	reg := in.region(key, "loop", in.curRegion())
	reg.fn = fr.fn.String()
	reg.pos = blockPos(L.header)
	reg.entryG = g0
	reg.cont, reg.full, reg.fullWhy = nil, false, ""
	type ph struct {
		phi   *ssa.Phi
		init  *Term
		cur   *Term
		ind   bool
		start *Term
	}
	var phis []*ph
	for _, ins := range L.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		p := &ph{phi: phi, init: in.phiIn(fr, phi, es, gs)}
		p.cur = p.init
		if step, ok := induction(phi, L); ok {
			p.ind = true
			p.start = p.init
			it := in.It(reg.id, 0)
			switch {
			case step == 1 && p.init.K == KConst && p.init.S == "-1":
				p.cur = in.App("-", it, in.Int(1))
			default:
				p.cur = it
			}
			reg.fullWhy = fmt.Sprintf("step %d from %s", step, in.str(p.init))
			reg.full = (step == 1 && p.init.K == KConst && (p.init.S == "-1" || p.init.S == "0"))
			if step == -1 && p.init.K == KApp && p.init.S == "-" && isLen(p.init.A[0]) && p.init.A[1] == in.Int(1) {
				reg.full = true
			}
		}
		phis = append(phis, p)
	}
	mark := len(in.effects)
	retMark := len(fr.rets)
	deferMark := len(fr.defers)
	mv := map[*Term]*Term{}
	var exits, backs []edge
	hdr := st0
	for pass := 0; ; pass++ {
		if pass > 14 {
			panic(analysisLimit("loop fixpoint in " + fr.fn.String()))
		}
		in.effects = in.effects[:mark]
		fr.rets = fr.rets[:retMark]
		fr.defers = fr.defers[:deferMark]
		hdr = st0.clone()
		for c, u := range mv {
			hdr.mem[c] = in.cellMV(reg.id, c)
			if u != nil {
				hdr.mem[c] = u
			} else if c.K == KContents {
				in.rangeBase[hdr.mem[c]] = in.contentOr(st0, c)
			}
		}
		pre := map[*ssa.Phi]*Term{}
		for _, p := range phis {
			pre[p.phi] = p.cur
		}
		fr.preset[L.header] = pre
		in.regStack = append(in.regStack, reg.id)
		pending := map[*ssa.BasicBlock][]edge{L.header: {{nil, L.header, g0, hdr.clone(), token.NoPos}}}
		exits, backs = in.runLevel(fr, L, pending)
		in.regStack = in.regStack[:len(in.regStack)-1]
		delete(fr.preset, L.header)
		changed := false
		if len(backs) > 0 {
			bg, bgs, bst := in.joinEdges(backs)
			_ = bg
			for _, p := range phis {
				if p.ind {
					continue
				}
				v := in.phiIn(fr, p.phi, backs, bgs)
				if v != p.cur {
					m := in.MV(reg.id, "in:"+p.phi.Name()+":"+p.phi.Comment, 0)
					if sl, ok := p.phi.Type().Underlying().(*types.Slice); ok {
						mvTypes[fmt.Sprintf("%d/cv:%s", reg.id, m.S[3:])] = mvType(sl.Elem())
					}
					if p.cur != m {
						p.cur = m
						changed = true
					}
				}
			}
			for a, v := range bst.mem {
				if in.localTo(a, reg.id) {
					continue
				}
				if u, ok := mv[a]; ok && u == nil {
					continue
				}
				if in.cellOr(hdr, a) != v {
					if _, ok := mv[a]; !ok && v.K == KUnk && strings.HasPrefix(v.S, "havoc:") {
						mv[a] = v
					} else {
						mv[a] = nil
					}
					changed = true
				}
			}
			in.saveAllocs(bst, reg.id)
		}
		if !changed {
			break
		}
	}
	// returns inside the loop are early exits, too
	var early []edge
	var normal []edge
	for _, e := range exits {
		if e.from == L.header {
			normal = append(normal, e)
		} else {
			early = append(early, e)
		}
	}
	innerRets := append([]retEdge{}, fr.rets[retMark:]...)
	fr.rets = fr.rets[:retMark]

	reg.src = map[string][]source{}
	define := func(cell string, init *Term, val func(i int) *Term) {
		src := []source{{g: g0, v: init, init: true}}
		for i, b := range backs {
			src = append(src, source{g: b.g, v: val(i)})
		}
		reg.src["in:"+cell], reg.src["out:"+cell] = src, src
	}
	out := in.newSubst(func(t *Term) *Term {
		if t.K == KMV && t.I == reg.id && t.N == 0 && strings.HasPrefix(t.S, "in:") {
			return in.MV(reg.id, "out:"+t.S[3:], 0)
		}
		return nil
	})
	for c, u := range mv {
		if u == nil {
			define(in.cellName(c), in.cellOr(st0, c), func(i int) *Term { return in.cellOr(backs[i].st, c) })
		}
	}
	for _, p := range phis {
		name := p.phi.Name() + ":" + p.phi.Comment
		if p.ind {
			define(name, p.init, func(i int) *Term { return in.It(reg.id, 0) })
		} else if p.cur.K == KMV && p.cur.I == reg.id {
			// a slice made before the loop stands for what it held then
			held := func(st *State, v *Term) *Term {
				if r := rootAlloc(v); r != nil && !in.localTo(v, reg.id) && isSlice(p.phi.Type()) {
					return in.content(st, v)
				}
				return v
			}
			define(name, held(st0, p.init), func(i int) *Term { return held(backs[i].st, in.phiEdge(fr, p.phi, backs[i])) })
		}
	}
	// exits: exit atom k means that the first exit taken is number k
	reg.exits = nil
	none := bddTrue
	var res []edge
	var xs []Node
	for _, e := range early {
		xs = append(xs, in.bdd.Var(in.exitAtom(reg.id, len(reg.exits))))
		reg.exits = append(reg.exits, exitDef{e.g, e.pos})
	}
	for _, r := range innerRets {
		xs = append(xs, in.bdd.Var(in.exitAtom(reg.id, len(reg.exits))))
		reg.exits = append(reg.exits, exitDef{r.g, r.pos})
	}
	for _, x := range xs {
		none = in.bdd.And(none, in.bdd.Not(x))
	}
	only := func(k int) Node {
		r := in.bdd.And(g0, xs[k])
		for j, x := range xs {
			if j != k {
				r = in.bdd.And(r, in.bdd.Not(x))
			}
		}
		return r
	}
	earlyG := bddFalse
	for i, e := range early {
		x := only(i)
		earlyG = in.bdd.Or(earlyG, x)
		res = append(res, edge{e.from, e.to, x, e.st, e.pos})
	}
	for i, r := range innerRets {
		fr.rets = append(fr.rets, retEdge{only(len(early) + i), r.st, r.v, r.pos})
	}
	normG := in.bdd.And(g0, none)
	// the loop condition itself
	condN := bddTrue
	reg.drained = bddTrue
	for _, e := range normal {
		rel := in.bdd.Restrict(e.g, g0)
		cond := in.bdd.Not(rel)
		if ats := in.memOnly(cond, g0, reg.id); ats != nil {
			reg.cont = ats[0].A[0]
			if reg.fullWhy == "" {
				reg.full = true
			}
		} else if len(reg.fullWhy) > 0 {
			// induction with another bound: reg.full stays only if the bound is the length
			reg.full = reg.full && in.downBound(cond, reg.id)
		} else {
			// the exit fact in terms of the final values
			n := out.node(rel)
			if !in.nodeMentions(n, func(t *Term) bool { return t.K == KIt && t.I == reg.id }) {
				if len(normal) == 1 {
					// the one way out: true of the final values by itself
					reg.drained = n
				} else {
					condN = in.bdd.And(condN, n)
				}
			}
		}
	}
	for _, e := range normal {
		st := e.st.clone()
		for a, v := range st.mem {
			if u, ok := mv[a]; ok && u == nil || in.cellOr(st0, a) != v {
				st.mem[a] = out.term(v)
			}
		}
		// allocations of the body are reachable through the side table
		for a := range st.mem {
			if in.localTo(a, reg.id) {
				delete(st.mem, a)
			}
		}
		res = append(res, edge{e.from, e.to, in.bdd.And(normG, condN), st, e.pos})
	}
	for _, p := range phis {
		if len(normal) == 0 {
			continue
		}
		var o *Term
		if p.ind {
			o = in.MV(reg.id, "out:"+p.phi.Name()+":"+p.phi.Comment, 0)
		} else if p.cur.K == KMV && p.cur.I == reg.id {
			o = out.term(p.cur)
		} else {
			continue
		}
		if len(early) > 0 {
			tot := in.bdd.Or(normG, earlyG)
			fr.env[p.phi] = in.Choice([]Node{in.bdd.Restrict(normG, tot), in.bdd.Restrict(earlyG, tot)}, []*Term{o, p.cur})
		} else {
			fr.env[p.phi] = o
		}
	}
	return res
}

func (in *Interp) exitAtom(region, k int) *Term {
	return in.mk(KAtom, "exit", region, 0, []*Term{in.Int(int64(k))}, nil)
}

// memOnly: the loop condition is exactly the membership test of this region's token.
func (in *Interp) memOnly(c, g0 Node, region int) []*Term {
	var ms []*Term
	all, none := in.bdd.And(c, g0), in.bdd.And(c, g0)
	for _, a := range in.bdd.Support(c) {
		if a.S == "mem" && a.A[1].K == KIt && a.A[1].I == region {
			ms = append(ms, a)
			all = in.bdd.Cofactor(all, a, true)
			none = in.bdd.Cofactor(none, a, false)
		}
	}
	if len(ms) == 0 || none != bddFalse {
		return nil
	}
	if in.bdd.And(g0, in.bdd.Not(all)) != bddFalse {
		// or, by a condition that is the same for all elements, none is visited
		own := func(t *Term) bool { return t.K == KIt && t.I == region || regionOf(t) == region }
		if in.nodeMentions(in.bdd.Restrict(all, g0), own) {
			return nil
		}
	}
	return ms
}

// downBound: condition is it >= 0 (counting down).
func (in *Interp) downBound(c Node, region int) bool {
	sup := in.bdd.Support(c)
	if len(sup) != 1 || sup[0].S != "lt" {
		return false
	}
	it := in.It(region, 0)
	at := sup[0]
	// it < 0 negated, or -1 < it
	if at.A[0] == it && at.A[1] == in.Int(0) && c == in.bdd.Not(in.bdd.Var(at)) {
		return true
	}
	return at.A[1] == it && at.A[0] == in.Int(-1) && c == in.bdd.Var(at)
}

func (in *Interp) nodeMentions(n Node, f func(*Term) bool) bool {
	for _, a := range in.bdd.Support(n) {
		if in.contains(a, f) {
			return true
		}
	}
	return false
}

func (in *Interp) phiEdge(fr *frame, phi *ssa.Phi, e edge) *Term {
	for j, p := range phi.Block().Preds {
		if p == e.from {
			return in.val(fr, phi.Edges[j])
		}
	}
	return in.unk("phi", phi.Pos())
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos() != token.NoPos {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos() != token.NoPos {
				return i.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// induction recognises phi = init; phi += ±1.
func induction(phi *ssa.Phi, L *loop) (int, bool) {
	if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	step := 0
	for j, p := range phi.Block().Preds {
		if !L.blocks[p] {
			continue
		}
		bo, ok := phi.Edges[j].(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		if bo.X != phi {
			return 0, false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64() != 1 {
			return 0, false
		}
		s := 0
		if bo.Op == token.ADD {
			s = 1
		} else if bo.Op == token.SUB {
			s = -1
		}
		if s == 0 || step != 0 && step != s {
			return 0, false
		}
		step = s
	}
	if step == 0 {
		return 0, false
	}
	// the variable must control the loop: it is compared in a condition that can leave the loop
	controls := false
	var chk func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	chk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					for _, rr := range *x.Referrers() {
						if iff, ok := rr.(*ssa.If); ok && iff.Block() == L.header {
							controls = true
						}
					}
				case token.ADD:
					if x.Block() == L.header {
						chk(x)
					}
				}
			}
		}
	}
	chk(phi)
	return step, controls
}

// eachLoop models iteration by a library function that calls back for every element
// (ForEach and friends). body returns the guard under which the iteration goes on.
func (in *Interp) eachLoop(key string, pos token.Pos, cont *Term, g0 Node, st0 *State, body func(it *Term, g Node, st *State) (cont Node, stop Node, stCont, stStop *State)) (*Region, Node, *State, Node, *State) {
	fr := in.stack[len(in.stack)-1]
	reg := in.region("each:"+fr.ctx+"@"+key, "each", in.curRegion())
	reg.fn = fr.fn.String()
	reg.pos = pos
	reg.entryG = g0
	reg.cont = cont
	reg.full = true
	mark := len(in.effects)
	mv := map[*Term]bool{}
	it := in.It(reg.id, 0)
	mem := in.Mem(cont, it)
	var gc, gs Node
	var sc, ss *State
	for pass := 0; ; pass++ {
		if pass > 14 {
			panic(analysisLimit("callback fixpoint"))
		}
		in.effects = in.effects[:mark]
		hdr := st0.clone()
		for c := range mv {
			hdr.mem[c] = in.cellMV(reg.id, c)
		}
		in.regStack = append(in.regStack, reg.id)
		gc, gs, sc, ss = body(it, in.bdd.And(g0, mem), hdr.clone())
		in.regStack = in.regStack[:len(in.regStack)-1]
		changed := false
		if gc != bddFalse {
			for a, v := range sc.mem {
				if mv[a] || in.localTo(a, reg.id) {
					continue
				}
				if in.cellOr(hdr, a) != v {
					mv[a] = true
					changed = true
				}
			}
			in.saveAllocs(sc, reg.id)
		}
		if !changed {
			break
		}
	}
	reg.src = map[string][]source{}
	for c := range mv {
		src := []source{{g: g0, v: in.cellOr(st0, c), init: true}, {g: gc, v: in.cellOr(sc, c)}}
		n := in.cellName(c)
		reg.src["in:"+n], reg.src["out:"+n] = src, src
	}
	stEnd := st0.clone()
	for c := range mv {
		stEnd.mem[c] = in.MV(reg.id, "out:"+in.cellName(c), 0)
	}
	reg.exits = nil
	gEnd := g0
	gStop := bddFalse
	if gs != bddFalse {
		reg.exits = append(reg.exits, exitDef{gs, pos})
		x := in.bdd.Var(in.exitAtom(reg.id, 0))
		gStop = in.bdd.And(g0, x)
		gEnd = in.bdd.And(g0, in.bdd.Not(x))
	}
	return reg, gEnd, stEnd, gStop, ss
}

// ---------------------------------------------------------------------------
// Values
// ---------------------------------------------------------------------------

func (in *Interp) val(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constTerm(x)
	case *ssa.Global:
		return in.mk(KGlobal, x.String(), 0, 0, nil, nil)
	case *ssa.Function:
		return in.funcTerm(x)
	case *ssa.Builtin:
		return in.Const("builtin:" + x.Name())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	return in.mk(KUnk, "undef:"+fr.ctx+v.Name(), 0, 0, nil, nil)
}

func (in *Interp) funcTerm(f *ssa.Function) *Term {
	i, ok := in.funcIdx[f]
	if !ok {
		i = len(in.funcs)
		in.funcs = append(in.funcs, f)
		in.funcIdx[f] = i
	}
	return in.mk(KFunc, f.String(), i, 0, nil, nil)
}

func (in *Interp) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return in.True()
		}
		return in.False()
	case constant.String:
		return in.Str(constant.StringVal(c.Value))
	}
	return in.Const(c.Value.ExactString())
}

func (in *Interp) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return in.Str("")
		case u.Info()&types.IsBoolean != 0:
			return in.False()
		case u.Info()&types.IsNumeric != 0:
			return in.Int(0)
		}
		return in.Nil()
	case *types.Struct:
		return in.structTerm(t, func(i int) *Term { return in.zero(u.Field(i).Type()) })
	case *types.Array:
		return in.mk(KZeros, "", 0, 0, nil, nil)
	case *types.Tuple:
		var a []*Term
		for i := 0; i < u.Len(); i++ {
			a = append(a, in.zero(u.At(i).Type()))
		}
		return in.Tuple(a...)
	}
	return in.Nil()
}

func (in *Interp) structTerm(t types.Type, f func(i int) *Term) *Term {
	u := t.Underlying().(*types.Struct)
	name := typeName(t)
	var a []*Term
	for i := 0; i < u.NumFields(); i++ {
		name += "\x00" + u.Field(i).Name()
		a = append(a, f(i))
	}
	return in.mk(KStruct, name, 0, 0, a, nil)
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (in *Interp) fixZero(t *Term, z *Term) *Term {
	if t.K == KApp && t.S == "zeroval" {
		return z
	}
	if t.K == KChoice {
		return in.mapChoice(t, func(x *Term) *Term { return in.fixZero(x, z) })
	}
	return t
}

func (in *Interp) alloc(fr *frame, ins ssa.Instruction, sub, kind string, typ types.Type, pos token.Pos) *Term {
	key := fmt.Sprintf("%s@%s.%d.%s", fr.ctx, fr.fn.String(), instrIndex(ins), sub)
	i, ok := in.allocIDs[key]
	if !ok {
		i = len(in.allocInfo)
		in.allocInfo = append(in.allocInfo, allocInfo{kind, typ, pos, fr.fn, key})
		in.allocIDs[key] = i
	}
	allocRegions[i] = in.curRegion()
	return in.mk(KAlloc, kind, i, 0, nil, nil)
}

func instrIndex(ins ssa.Instruction) int {
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			return b.Index*1000 + i
		}
	}
	return -1
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// ---------------------------------------------------------------------------
// Memory
// ---------------------------------------------------------------------------

// addrOf normalises pointer values: a pointer that is a choice stays a choice.
func (in *Interp) load(st *State, g Node, addr *Term, typ types.Type) *Term {
	if addr.K == KChoice {
		return in.mapChoice(addr, func(a *Term) *Term { return in.load(st, g, a, typ) })
	}
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if u, ok := typ.Underlying().(*types.Struct); ok && in.splits(typ) {
		if r := rootAlloc(addr); r != nil && addr.K != KIAddr && in.isCell(r) {
			return in.structTerm(typ, func(i int) *Term {
				return in.load(st, g, in.faddr(addr, u.Field(i).Name()), u.Field(i).Type())
			})
		}
		partial := rootAlloc(addr) != nil
		if !partial {
			for k := range st.mem {
				if k.K == KFAddr && k.A[0] == addr {
					partial = true
					break
				}
			}
		}
		if partial {
			if v := in.ancestor(st, addr); v != nil {
				// whole value known, check for overriding fields
				over := false
				for k := range st.mem {
					if k.K == KFAddr && k.A[0] == addr {
						over = true
					}
				}
				if !over {
					return v
				}
			}
			return in.structTerm(typ, func(i int) *Term {
				return in.load(st, g, in.faddr(addr, u.Field(i).Name()), u.Field(i).Type())
			})
		}
	}
	v := in.valueAt(st, addr, typ)
	return v
}

// ancestor finds a stored value of an enclosing aggregate.
func (in *Interp) ancestor(st *State, addr *Term) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if addr.K == KFAddr {
		if v := in.ancestor(st, addr.A[0]); v != nil {
			return in.Field(v, addr.S)
		}
	}
	if r := rootAlloc(addr); r != nil {
		if v, ok := in.allocCell[generic(in.Store, addr)]; ok {
			if r.N != 0 {
				return in.reinstance(v, r)
			}
			return v
		}
	}
	return nil
}

// generic strips the instance of the root allocation.
func generic(s *Store, a *Term) *Term {
	switch a.K {
	case KAlloc:
		if a.N != 0 {
			return s.mk(KAlloc, a.S, a.I, 0, nil, nil)
		}
		return a
	case KFAddr, KIAddr, KContents:
		b := generic(s, a.A[0])
		if b != a.A[0] {
			return s.mk(a.K, a.S, a.I, a.N, append([]*Term{b}, a.A[1:]...), nil)
		}
	}
	return a
}

func (in *Interp) reinstance(v, alloc *Term) *Term {
	r := in.allocRegion(alloc)
	if r < 0 {
		return v
	}
	// find the outermost region whose tokens carry this instance: rename everything below the alloc's region chain
	return in.renamer(r, in.instN[alloc.N]).term(v)
}

func (in *Interp) valueAt(st *State, addr *Term, typ types.Type) *Term {
	if v := in.ancestor(st, addr); v != nil {
		return v
	}
	switch addr.K {
	case KFAddr:
		base := addr.A[0]
		if base.K == KAlloc || base.K == KFAddr || base.K == KIAddr {
			if rootAlloc(base) != nil {
				return in.zero(typ)
			}
		}
		return in.Field(in.derefTerm(base), addr.S)
	case KAlloc:
		return in.zero(typ)
	case KIAddr:
		return in.fixZero(in.Elem(in.content(st, addr.A[0]), addr.A[1]), in.zero(typ))
	case KGlobal:
		return addr
	}
	return in.App("deref", addr)
}

// derefTerm is the value an address denotes when nothing was stored there.
func (in *Interp) derefTerm(a *Term) *Term {
	switch a.K {
	case KFAddr:
		return in.Field(in.derefTerm(a.A[0]), a.S)
	case KIAddr:
		return in.Elem(a.A[0], a.A[1])
	}
	return a
}

func (in *Interp) faddr(base *Term, f string) *Term {
	if base.K == KChoice {
		return in.mapChoice(base, func(b *Term) *Term { return in.faddr(b, f) })
	}
	return in.mk(KFAddr, f, 0, 0, []*Term{base}, nil)
}

func (in *Interp) store(st *State, g Node, addr, v *Term, pos token.Pos) {
	if addr.K == KChoice {
		for i, a := range addr.A {
			old := in.cellOr(st, a)
			if a.K == KIAddr || rootAlloc(a) == nil {
				in.storeOne(st, in.bdd.And(g, addr.G[i]), a, in.Choice([]Node{addr.G[i], in.bdd.Not(addr.G[i])}, []*Term{v, old}), v, pos)
				continue
			}
			st.mem[a] = in.Choice([]Node{addr.G[i], in.bdd.Not(addr.G[i])}, []*Term{v, old})
		}
		return
	}
	in.storeOne(st, g, addr, v, v, pos)
}

// splits reports whether a struct is kept field by field.
func (in *Interp) splits(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	if n := namedOf(t); n != nil {
		if _, isPtr := t.(*types.Pointer); isPtr {
			return false
		}
		return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/oarkflow/permission")
	}
	return true
}

func (in *Interp) isCell(a *Term) bool { return a.K == KAlloc && in.allocInfo[a.I].kind == "cell" }

// storeTyped stores a value of a known type, field by field for local structs.
func (in *Interp) storeTyped(st *State, g Node, addr, v *Term, typ types.Type, pos token.Pos) {
	if addr.K == KChoice {
		in.store(st, g, addr, v, pos)
		return
	}
	if r := rootAlloc(addr); r != nil && addr.K != KIAddr && in.isCell(r) && in.splits(typ) {
		u := typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			in.storeTyped(st, g, in.faddr(addr, u.Field(i).Name()), in.Field(v, u.Field(i).Name()), u.Field(i).Type(), pos)
		}
		return
	}
	in.store(st, g, addr, v, pos)
}

func (in *Interp) zeroCell(st *State, addr *Term, typ types.Type) {
	if in.splits(typ) {
		u := typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			in.zeroCell(st, in.faddr(addr, u.Field(i).Name()), u.Field(i).Type())
		}
		return
	}
	st.mem[addr] = in.zero(typ)
}

func (in *Interp) storeOne(st *State, g Node, addr, v, ev *Term, pos token.Pos) {
	if addr.K == KIAddr {
		base := in.backing(addr.A[0])
		if base.K == KAlloc || base.K == KFAddr || rooted(base) || base.K == KMV {
			c := in.mk(KContents, "", 0, 0, []*Term{base}, nil)
			old := in.content(st, base)
			nv := in.mk(KMIns, "", 0, 0, []*Term{old, addr.A[1], v}, nil)
			in.setPos(nv, pos)
			st.mem[c] = nv
			if rootAlloc(base) == nil {
				in.effect("insert", "index", g, st, pos, base, addr.A[1], ev)
			}
			return
		}
	}
	// drop finer cells
	for k := range st.mem {
		if k.K == KFAddr && under(k, addr) && k != addr {
			delete(st.mem, k)
		}
	}
	st.mem[addr] = v
	if rootAlloc(addr) == nil {
		in.effect("store", "", g, st, pos, addr, ev)
	}
}

func under(k, addr *Term) bool {
	for k.K == KFAddr || k.K == KIAddr {
		k = k.A[0]
		if k == addr {
			return true
		}
	}
	return false
}

func (in *Interp) setPos(t *Term, pos token.Pos) {
	if _, ok := in.pos[t]; !ok {
		in.pos[t] = pos
	}
}

// backing storage of a slice value.
func (in *Interp) backing(t *Term) *Term {
	for t.K == KSub {
		t = t.A[0]
	}
	return t
}

// content is the pure content of a container value (map, slice, synchronised map).
func (in *Interp) content(st *State, t *Term) *Term {
	switch t.K {
	case KChoice:
		return in.mapChoice(t, func(x *Term) *Term { return in.content(st, x) })
	case KNil:
		return in.mk(KEmpty, "nil", 0, 0, nil, nil)
	case KAlloc:
		c := in.mk(KContents, "", 0, 0, []*Term{t}, nil)
		if v, ok := st.mem[c]; ok {
			return in.seqLit(t, v)
		}
		if v, ok := in.allocCell[generic(in.Store, c)]; ok {
			if t.N != 0 {
				v = in.reinstance(v, t)
			}
			return in.seqLit(t, v)
		}
		switch {
		case strings.HasPrefix(t.S, "array"):
			return in.seqLit(t, in.mk(KZeros, "", 0, 0, nil, nil))
		case t.S == "slicez":
			return in.mk(KZeros, "", 0, 0, nil, nil)
		case t.S == "pool" && !in.cleanPools:
			return in.mk(KUnk, fmt.Sprintf("stale%d", t.I), 0, 0, nil, nil)
		}
		return in.Empty()
	case KSub:
		x := in.content(st, t.A[0])
		return in.sub(x, t.A[1], t.A[2])
	case KFAddr:
		// address of an array field
		c := in.mk(KContents, "", 0, 0, []*Term{t}, nil)
		if v, ok := st.mem[c]; ok {
			return v
		}
		return in.derefTerm(t)
	case KApp:
		switch t.S {
		case "compact", "clone", "sorted", "keys", "values", "asmap":
			c := in.content(st, t.A[0])
			if c.K == KChoice {
				return in.mapChoice(c, func(x *Term) *Term { return in.App(t.S, x) })
			}
			return in.App(t.S, c)
		}
	case KField, KLookup, KElem, KKey, KParam, KGlobal, KMV:
		if t.K == KField && in.memo[t.S] {
			return in.Empty()
		}
		c := in.mk(KContents, "", 0, 0, []*Term{t}, nil)
		if v, ok := st.mem[c]; ok {
			return v
		}
		if t.K == KField && t.A[0].K == KLookup && fixedKey(t.A[0].A[1]) {
			return in.aliased(st, t)
		}
	}
	return t
}

func fixedKey(k *Term) bool { return k.K == KParam || k.K == KConst }

// aliased is the content of a field of a registered object, which may have been changed
// through another identifier.
func (in *Interp) aliased(st *State, t *Term) *Term {
	var keys []*Term
	for k := range st.mem {
		if k.K == KContents && k.A[0].K == KField && k.A[0].S == t.S && k.A[0].A[0].K == KLookup && k.A[0].A[0].A[0] == t.A[0].A[0] && fixedKey(k.A[0].A[0].A[1]) {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	r := t
	for _, k := range keys {
		same := in.Eq(t.A[0].A[1], k.A[0].A[0].A[1])
		r = in.Choice([]Node{same, in.bdd.Not(same)}, []*Term{st.mem[k], r})
	}
	return r
}

func (in *Interp) sub(x, lo, hi *Term) *Term {
	if x.K == KChoice {
		return in.mapChoice(x, func(y *Term) *Term { return in.sub(y, lo, hi) })
	}
	if lo.K == KConst && lo.S == "0" {
		lo = in.Nil()
	}
	if hi.K == KConst && hi.S == "0" {
		return in.Empty()
	}
	if lo.K == KNil && hi.K == KNil {
		return x
	}
	if lo.K == KNil && isLen(hi) && hi.A[0] == x {
		return x
	}
	return in.mk(KSub, "", 0, 0, []*Term{x, lo, hi}, nil)
}

// seqLit turns a fully initialised array literal into a sequence.
func (in *Interp) seqLit(alloc, v *Term) *Term {
	if !strings.HasPrefix(alloc.S, "array:") {
		return v
	}
	var n int
	fmt.Sscanf(alloc.S, "array:%d", &n)
	if n > 64 {
		return v
	}
	vals := make([]*Term, n)
	c := v
	for c.K == KMIns {
		i, ok := intConst(c.A[1])
		if !ok || int(i) >= n {
			return v
		}
		if vals[i] == nil {
			vals[i] = c.A[2]
		}
		c = c.A[0]
	}
	if c.K != KZeros {
		return v
	}
	seq := in.Empty()
	for i := 0; i < n; i++ {
		if vals[i] == nil {
			return v
		}
		seq = in.mk(KAppend, "", 0, 0, []*Term{seq, vals[i]}, nil)
		if p, ok := in.pos[v]; ok {
			in.setPos(seq, p)
		}
	}
	return seq
}

// freeze replaces references to local storage by their present contents.
func (in *Interp) freeze(st *State, t *Term) *Term {
	switch t.K {
	case KChoice:
		return in.mapChoice(t, func(x *Term) *Term { return in.freeze(st, x) })
	case KSub:
		if rootAlloc(t) != nil {
			return in.tagPool(t, in.content(st, t))
		}
	case KAlloc:
		if strings.HasPrefix(t.S, "slice") || strings.HasPrefix(t.S, "array") {
			return in.content(st, t)
		}
		if t.S == "pool" {
			return t
		}
	}
	return t
}

func (in *Interp) tagPool(t, c *Term) *Term {
	if r := rootAlloc(t); r != nil && r.S == "pool" {
		return t
	}
	return c
}

// mapWrite performs an update on a container value.
func (in *Interp) mapWrite(st *State, g Node, m *Term, pos token.Pos, kind string, upd func(old *Term) *Term, t ...*Term) {
	if m.K == KChoice {
		for i, x := range m.A {
			gi := in.bdd.And(g, m.G[i])
			if gi == bddFalse {
				continue
			}
			cg := m.G[i]
			in.mapWrite(st, gi, x, pos, kind, func(old *Term) *Term {
				return in.Choice([]Node{cg, in.bdd.Not(cg)}, []*Term{upd(old), old})
			}, t...)
		}
		return
	}
	if m.K == KUnk || m.K == KNil {
		return
	}
	old := in.content(st, m)
	nv := upd(old)
	if !(m.K == KField && in.memo[m.S]) {
		st.mem[in.mk(KContents, "", 0, 0, []*Term{m}, nil)] = nv
	}
	in.setPos(nv, pos)
	if rootAlloc(m) == nil || m.S == "pool" {
		in.effect(kind, "", g, st, pos, append([]*Term{m}, t...)...)
	}
}

func (in *Interp) mapInsert(st *State, g Node, m, k, v *Term, pos token.Pos) {
	in.useContainer(st, g, m, "write", pos)
	in.mapWrite(st, g, m, pos, "insert", func(old *Term) *Term {
		nv := in.mk(KMIns, "", 0, 0, []*Term{old, k, v}, nil)
		in.setPos(nv, pos)
		return nv
	}, k, v)
}

func (in *Interp) mapDelete(st *State, g Node, m, k *Term, pos token.Pos) {
	in.useContainer(st, g, m, "write", pos)
	in.mapWrite(st, g, m, pos, "delete", func(old *Term) *Term {
		if old.K == KEmpty {
			return old
		}
		return in.mk(KMDel, "", 0, 0, []*Term{old, k}, nil)
	}, k)
}

func (in *Interp) mapClear(st *State, g Node, m *Term, pos token.Pos) {
	in.useContainer(st, g, m, "write", pos)
	in.mapWrite(st, g, m, pos, "clear", func(old *Term) *Term { return in.Empty() })
}

// useContainer records an access to a container for the lock and pool rules.
func (in *Interp) useContainer(st *State, g Node, m *Term, mode string, pos token.Pos) {
	if m.K == KChoice {
		for i, x := range m.A {
			if gi := in.bdd.And(g, m.G[i]); gi != bddFalse {
				in.useContainer(st, gi, x, mode, pos)
			}
		}
		return
	}
	if r := rootAlloc(m); r != nil {
		if r.S == "pool" {
			in.effect("use", mode, g, st, pos, r, in.cellOr(st, in.App("released", r)))
		}
		return
	}
	if m.K == KNil || m.K == KEmpty || m.K == KUnk {
		return
	}
	in.effect(mode, "container", g, st, pos, m)
}

// read of a container's content
func (in *Interp) readContent(st *State, g Node, m *Term, pos token.Pos) *Term {
	in.useContainer(st, g, m, "read", pos)
	return in.content(st, m)
}

func (in *Interp) append(st *State, g Node, s, xs *Term, pos token.Pos) *Term {
	base := in.appendBase(st, s)
	seq := in.content(st, xs)
	res := in.appendSeq(base, seq, pos)
	return res
}

func (in *Interp) appendBase(st *State, s *Term) *Term {
	// keep the identity of pooled buffers
	if r := rootAlloc(s); r != nil && r.S == "pool" {
		return s
	}
	if s.K == KChoice {
		return in.mapChoice(s, func(x *Term) *Term { return in.appendBase(st, x) })
	}
	return in.content(st, s)
}

func (in *Interp) appendSeq(base, seq *Term, pos token.Pos) *Term {
	if base.K == KChoice {
		return in.mapChoice(base, func(x *Term) *Term { return in.appendSeq(x, seq, pos) })
	}
	if base.K == KNil {
		base = in.Empty()
	}
	switch seq.K {
	case KChoice:
		return in.mapChoice(seq, func(x *Term) *Term { return in.appendSeq(base, x, pos) })
	case KEmpty, KNil:
		return base
	case KAppend:
		b := in.appendSeq(base, seq.A[0], pos)
		if b.K == KChoice {
			return in.mapChoice(b, func(x *Term) *Term { return in.appendOne(x, seq.A[1], pos) })
		}
		return in.appendOne(b, seq.A[1], pos)
	}
	if base.K == KEmpty {
		// a copy of seq
		return in.App("clone", seq)
	}
	r := in.mk(KAppAll, "", 0, 0, []*Term{base, seq}, nil)
	in.setPos(r, pos)
	return r
}

func (in *Interp) appendOne(b, e *Term, pos token.Pos) *Term {
	if b.K == KEmpty {
		b = in.Empty()
	}
	r := in.mk(KAppend, "", 0, 0, []*Term{b, e}, nil)
	in.setPos(r, pos)
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// mvTypes: the types of closure variables, where they are known.
var mvTypes = map[string]string{}

// mvType: "" for what may hold values of any type.
func mvType(t types.Type) string {
	if types.IsInterface(t) {
		return ""
	}
	return t.String()
}
