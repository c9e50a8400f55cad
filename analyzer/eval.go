package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// instr evaluates one instruction that is not a terminator.
func (in *Interp) instr(fr *frame, ins ssa.Instruction, g Node, st *State) (Node, *State) {
	set := func(v ssa.Value, t *Term) { fr.env[v] = t }
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		kind := "cell"
		if a, ok := t.Underlying().(*types.Array); ok {
			kind = fmt.Sprintf("array:%d", a.Len())
		}
		a := in.alloc(fr, x, "", kind, t, x.Pos())
		// a new cell on every evaluation
		for k := range st.mem {
			if rootAlloc(k) == a {
				delete(st.mem, k)
			}
		}
		if kind == "cell" {
			in.zeroCell(st, a, t)
		} else {
			st.mem[in.contentsAddr(a)] = in.mk(KZeros, "", 0, 0, nil, nil)
		}
		set(x, a)
	case *ssa.BinOp:
		set(x, in.binop(st, x.Op, in.val(fr, x.X), in.val(fr, x.Y), x.X.Type(), x.Pos()))
	case *ssa.UnOp:
		v := in.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			in.derefEffect(g, st, v, x.Pos(), "load")
			in.fieldAccess(st, g, v, "read", x.Pos())
			set(x, in.load(st, g, v, x.Type()))
		case token.NOT:
			set(x, in.Bool(in.bdd.Not(in.asBDD(v))))
		case token.SUB:
			if n, ok := intConst(v); ok {
				set(x, in.Int(-n))
			} else {
				set(x, in.App("neg", v))
			}
		case token.ARROW:
			in.effect("recv", "", g, st, x.Pos(), v)
			set(x, in.unk("recv", x.Pos()))
		default:
			set(x, in.App(x.Op.String(), v))
		}
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface:
		ops := ins.Operands(nil)
		v := in.val(fr, *ops[0])
		if mi, ok := ins.(*ssa.MakeInterface); ok {
			v = in.makeIface(v, mi.X.Type())
		}
		set(ins.(ssa.Value), v)
	case *ssa.Convert:
		v := in.val(fr, x.X)
		from, to := x.X.Type().Underlying(), x.Type().Underlying()
		fb, fok := from.(*types.Basic)
		tb, tok := to.(*types.Basic)
		if fok && tok && (fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 || types.Identical(from, to)) {
			set(x, v)
		} else {
			set(x, in.App("convert:"+typeName(x.Type()), v))
		}
	case *ssa.MultiConvert:
		set(x, in.App("convert:"+typeName(x.Type()), in.val(fr, x.X)))
	case *ssa.SliceToArrayPointer:
		set(x, in.unk("toarray", x.Pos()))
	case *ssa.Field:
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		set(x, in.Field(in.val(fr, x.X), f.Name()))
	case *ssa.FieldAddr:
		base := in.val(fr, x.X)
		stt := x.X.Type().Underlying().(*types.Pointer).Elem()
		f := stt.Underlying().(*types.Struct).Field(x.Field)
		in.derefEffect(g, st, base, x.Pos(), "field "+f.Name())
		if f.Embedded() && f.Name() == "" {
			set(x, base)
			break
		}
		a := in.faddr(base, f.Name())
		in.recordOwner(a, typeName(stt))
		set(x, a)
	case *ssa.Index:
		c := in.val(fr, x.X)
		i := in.val(fr, x.Index)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			in.effect("index", "string", g, st, x.Pos(), c, i)
			set(x, in.App("byteat", c, i))
			break
		}
		in.effect("index", "array", g, st, x.Pos(), c, i)
		set(x, in.fixZero(in.Elem(in.content(st, c), i), in.zero(x.Type())))
	case *ssa.IndexAddr:
		c := in.val(fr, x.X)
		i := in.val(fr, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
			in.useContainer(st, g, c, "read", x.Pos())
		}
		in.effect("index", "slice", g, st, x.Pos(), in.content(st, c), i)
		set(x, in.iaddr(c, i))
	case *ssa.Lookup:
		m := in.val(fr, x.X)
		k := in.val(fr, x.Index)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			in.effect("index", "string", g, st, x.Pos(), m, k)
			set(x, in.App("byteat", m, k))
			break
		}
		c := in.readContent(st, g, m, x.Pos())
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		has, v := in.mapGet(c, k, in.zero(vt))
		if x.CommaOk {
			set(x, in.Tuple(v, in.Bool(has)))
		} else {
			set(x, v)
		}
	case *ssa.Extract:
		t := in.val(fr, x.Tuple)
		set(x, in.extract(t, x.Index, x.Type()))
	case *ssa.MakeClosure:
		var binds []*Term
		key := x.Fn.String()
		for _, b := range x.Bindings {
			t := in.val(fr, b)
			binds = append(binds, t)
			key += fmt.Sprintf(",%d", t.id)
		}
		i, ok := in.closIdx[key]
		if !ok {
			i = len(in.closures)
			in.closures = append(in.closures, closureRec{x.Fn.(*ssa.Function), binds})
			in.closIdx[key] = i
		}
		set(x, in.mk(KClosure, x.Fn.String(), i, 0, nil, nil))
	case *ssa.MakeMap:
		a := in.alloc(fr, x, "", "map", x.Type(), x.Pos())
		st.mem[in.contentsAddr(a)] = in.Empty()
		set(x, a)
	case *ssa.MakeSlice:
		n := in.val(fr, x.Len)
		kind := "slicez"
		c := in.mk(KZeros, "", 0, 0, []*Term{n}, nil)
		if v, ok := intConst(n); ok && v == 0 {
			kind, c = "slice", in.Empty()
		}
		in.effect("makeslice", "", g, st, x.Pos(), n)
		a := in.alloc(fr, x, "", kind, x.Type(), x.Pos())
		st.mem[in.contentsAddr(a)] = c
		set(x, a)
	case *ssa.MakeChan:
		set(x, in.alloc(fr, x, "", "chan", x.Type(), x.Pos()))
	case *ssa.MapUpdate:
		in.mapInsert(st, g, in.val(fr, x.Map), in.val(fr, x.Key), in.freeze(st, in.val(fr, x.Value)), x.Pos())
	case *ssa.Store:
		a := in.val(fr, x.Addr)
		v := in.val(fr, x.Val)
		if isSlice(x.Val.Type()) {
			v = in.freeze(st, v)
		}
		in.derefEffect(g, st, a, x.Pos(), "store")
		in.fieldAccess(st, g, a, "write", x.Pos())
		in.storeTyped(st, g, a, v, x.Val.Type(), x.Pos())
	case *ssa.Range:
		set(x, in.Tuple(in.val(fr, x.X)))
	case *ssa.Next:
		rng := x.Iter.(*ssa.Range)
		m := in.val(fr, rng.X)
		if x.IsString {
			set(x, in.Tuple(in.Bool(in.bdd.Var(in.Atom("unkbool", in.unk("next", x.Pos())))), in.unk("idx", x.Pos()), in.unk("rune", x.Pos())))
			break
		}
		// a range statement works on the map itself; entries deleted or changed during the
		// iteration belong to the pass in which they were visited
		c := in.readContent(st, g, m, x.Pos())
		reg := in.curRegion()
		if l := fr.li.headed(x.Block()); l == nil {
			// not a loop: one arbitrary entry is taken
			pr := in.region(fmt.Sprintf("pick:%s@%s.%d", fr.ctx, fr.fn.String(), instrIndex(x)), "pick", in.curRegion())
			pr.pos, pr.fn = x.Pos(), fr.fn.String()
			pr.cont = c
			reg = pr.id
		}
		it := in.It(reg, 0)
		mt := rng.X.Type().Underlying().(*types.Map)
		c0 := in.loopBase(c, reg)
		mem := in.Mem(c0, it)
		k := in.Key(c0, it)
		set(x, in.Tuple(in.Bool(mem), k, in.fixZero(in.Lookup(c0, k), in.zero(mt.Elem()))))
	case *ssa.Slice:
		v := in.val(fr, x.X)
		lo, hi := in.Nil(), in.Nil()
		if x.Low != nil {
			lo = in.val(fr, x.Low)
		}
		if x.High != nil {
			hi = in.val(fr, x.High)
		}
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			in.effect("slice", "string", g, st, x.Pos(), v, lo, hi)
			set(x, in.App("substr", v, lo, hi))
			break
		}
		in.useContainer(st, g, v, "read", x.Pos())
		in.effect("slice", "slice", g, st, x.Pos(), v, lo, hi)
		set(x, in.slice(st, v, lo, hi))
	case *ssa.TypeAssert:
		v := in.val(fr, x.X)
		_, toIface := x.AssertedType.Underlying().(*types.Interface)
		var is Node
		if toIface {
			is = in.isIface(v, x.AssertedType)
		} else {
			is = in.IsType(v, typeName(x.AssertedType))
		}
		if x.CommaOk {
			r := in.Choice([]Node{is, in.bdd.Not(is)}, []*Term{v, in.zero(x.AssertedType)})
			set(x, in.Tuple(r, in.Bool(is)))
		} else {
			in.effect("assert", typeName(x.AssertedType), in.bdd.And(g, in.bdd.Not(is)), st, x.Pos(), v)
			set(x, v)
			// execution goes on only when the assertion holds
			g = in.bdd.And(g, is)
		}
	case *ssa.Call:
		r, st2, g2 := in.callCommon(fr, x, &x.Call, g, st, x.Pos())
		set(x, r)
		return g2, st2
	case *ssa.Defer:
		fr.defers = append(fr.defers, in.mkDefer(fr, x, g))
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			// the deferred call happened when its guard holds
			dg := in.bdd.And(g, d.g)
			if dg == bddFalse {
				continue
			}
			if in.bdd.And(g, in.bdd.Not(d.g)) == bddFalse {
				_, st2, _ := in.invoke(fr, d.instr, d.fnv, d.args, &d.instr.Call, g, st, d.instr.Pos())
				st = st2
			} else {
				_, st2, _ := in.invoke(fr, d.instr, d.fnv, d.args, &d.instr.Call, dg, st.clone(), d.instr.Pos())
				st = in.mergeStates([]Node{in.bdd.Restrict(dg, g), in.bdd.Restrict(in.bdd.And(g, in.bdd.Not(d.g)), g)}, []*State{st2, st})
			}
		}
	case *ssa.Go:
		in.effect("go", "", g, st, x.Pos())
		_, st2, _ := in.callCommon(fr, x, &x.Call, g, st.clone(), x.Pos())
		_ = st2
	case *ssa.Send:
		in.effect("send", "", g, st, x.Pos(), in.val(fr, x.Chan))
	case *ssa.Select:
		set(x, in.unk("select", x.Pos()))
	default:
		if v, ok := ins.(ssa.Value); ok {
			set(v, in.unk(fmt.Sprintf("%T", ins), ins.Pos()))
		}
		in.note(fmt.Sprintf("unmodelled instruction %T at %s", ins, in.w.pos(ins.Pos())))
	}
	return g, st
}

func (in *Interp) contentsAddr(t *Term) *Term {
	return in.mk(KContents, "", 0, 0, []*Term{t}, nil)
}

func (in *Interp) iaddr(c, i *Term) *Term {
	if c.K == KChoice {
		return in.mapChoice(c, func(x *Term) *Term { return in.iaddr(x, i) })
	}
	return in.mk(KIAddr, "", 0, 0, []*Term{c, i}, nil)
}

func (in *Interp) recordOwner(a *Term, typ string) {
	if a.K == KChoice {
		for _, x := range a.A {
			in.recordOwner(x, typ)
		}
		return
	}
	in.owner[a] = typ
}

// derefEffect records that a pointer is followed.
func (in *Interp) derefEffect(g Node, st *State, p *Term, pos token.Pos, what string) {
	if p.K == KChoice {
		for i, x := range p.A {
			if gi := in.bdd.And(g, p.G[i]); gi != bddFalse {
				in.derefEffect(gi, st, x, pos, what)
			}
		}
		return
	}
	switch p.K {
	case KAlloc, KFAddr, KIAddr, KGlobal, KStruct:
		if r := rootAlloc(p); r != nil && r.S == "pool" {
			in.effect("use", what, g, st, pos, r, in.cellOr(st, in.App("released", r)))
		}
		return
	}
	in.effect("deref", what, g, st, pos, p)
}

// fieldAccess records reads and writes of fields of shared objects.
func (in *Interp) fieldAccess(st *State, g Node, a *Term, mode string, pos token.Pos) {
	if a.K == KChoice {
		for i, x := range a.A {
			if gi := in.bdd.And(g, a.G[i]); gi != bddFalse {
				in.fieldAccess(st, gi, x, mode, pos)
			}
		}
		return
	}
	if rootAlloc(a) != nil {
		return
	}
	if a.K == KFAddr {
		in.effect(mode, "field", g, st, pos, a)
	} else if a.K == KIAddr {
		in.effect(mode, "container", g, st, pos, a.A[0])
	} else if a.K == KGlobal {
		in.effect(mode, "global", g, st, pos, a)
	}
}

// loopBase: while a map is ranged over, the entries visited are those of the map when
// the loop started (deletions of visited entries do not matter, insertions are not seen).
func (in *Interp) loopBase(c *Term, region int) *Term {
	if c.K == KMV && c.I == region && strings.HasPrefix(c.S, "in:") {
		if b, ok := in.rangeBase[c]; ok {
			return b
		}
	}
	return c
}

func (in *Interp) mapGet(c, k, zero *Term) (Node, *Term) {
	has := in.Has(c, k)
	v := in.fixZero(in.Lookup(c, k), zero)
	if has == bddTrue {
		return has, v
	}
	// a missing key reads as the zero value
	if c.K == KEmpty || c.K == KNil {
		return bddFalse, zero
	}
	return has, in.missZero(c, v, has, zero)
}

// missZero makes the value of a failed look-up explicit where that matters.
func (in *Interp) missZero(c, v *Term, has Node, zero *Term) *Term {
	if v.K == KBool || isBoolConst(v) {
		return in.Bool(in.bdd.And(has, in.asBDD(v)))
	}
	return v
}

func (in *Interp) extract(t *Term, i int, typ types.Type) *Term {
	switch t.K {
	case KTuple:
		if i < len(t.A) {
			return t.A[i]
		}
	case KChoice:
		return in.mapChoice(t, func(x *Term) *Term { return in.extract(x, i, typ) })
	case KUnk:
		if t.S == "bottom" {
			return t
		}
	}
	return in.App(fmt.Sprintf("#%d", i), t)
}

func (in *Interp) makeIface(v *Term, t types.Type) *Term {
	if v.K == KChoice {
		return in.mapChoice(v, func(x *Term) *Term { return in.makeIface(x, t) })
	}
	switch v.K {
	case KNil, KConst, KBool:
	default:
		ifaceTypes[v] = typeName(t)
	}
	return v
}

func (in *Interp) isIface(v *Term, t types.Type) Node {
	if v.K == KChoice {
		r := bddFalse
		for i, x := range v.A {
			r = in.bdd.Or(r, in.bdd.And(v.G[i], in.isIface(x, t)))
		}
		return r
	}
	if v.K == KNil {
		return bddFalse
	}
	return in.bdd.Var(in.Atom("istype", v, in.Const(typeName(t))))
}

func (in *Interp) slice(st *State, v, lo, hi *Term) *Term {
	if v.K == KChoice {
		return in.mapChoice(v, func(x *Term) *Term { return in.slice(st, x, lo, hi) })
	}
	if lo.K == KConst && lo.S == "0" {
		lo = in.Nil()
	}
	if lo.K == KNil && hi.K == KNil {
		return v
	}
	return in.mk(KSub, "", 0, 0, []*Term{v, lo, hi}, nil)
}

// ---------------------------------------------------------------------------
// Operators
// ---------------------------------------------------------------------------

func (in *Interp) eqVal(st *State, a, b *Term, t types.Type) Node {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		// comparison with nil
		x := a
		if a.K == KNil {
			x = b
		}
		return in.sliceNil(st, x)
	}
	return in.Eq(a, b)
}

func (in *Interp) sliceNil(st *State, x *Term) Node {
	if x.K == KChoice {
		r := bddFalse
		for i, y := range x.A {
			r = in.bdd.Or(r, in.bdd.And(x.G[i], in.sliceNil(st, y)))
		}
		return r
	}
	if x.K == KNil {
		return bddTrue
	}
	if x.K == KAlloc {
		return bddFalse
	}
	if rooted(x) {
		return in.Eq(x, in.Nil())
	}
	// a slice built by appending is nil exactly when nothing was appended
	c := in.content(st, x)
	if c.K == KEmpty && c.S != "nil" {
		return bddFalse
	}
	return in.bdd.Not(in.NonEmpty(c))
}

func (in *Interp) binop(st *State, op token.Token, a, b *Term, t types.Type, pos token.Pos) *Term {
	bd := in.bdd
	switch op {
	case token.EQL:
		return in.Bool(in.eqVal(st, a, b, t))
	case token.NEQ:
		return in.Bool(bd.Not(in.eqVal(st, a, b, t)))
	case token.LSS:
		return in.Bool(in.Lt(a, b))
	case token.GTR:
		return in.Bool(in.Lt(b, a))
	case token.LEQ:
		return in.Bool(bd.Not(in.Lt(b, a)))
	case token.GEQ:
		return in.Bool(bd.Not(in.Lt(a, b)))
	case token.ADD:
		if bs, ok := t.Underlying().(*types.Basic); ok && bs.Info()&types.IsString != 0 {
			return in.Concat(a, b)
		}
		return in.plus(a, b, 1)
	case token.SUB:
		return in.plus(a, b, -1)
	case token.AND, token.OR, token.XOR:
		if bs, ok := t.Underlying().(*types.Basic); ok && bs.Info()&types.IsBoolean != 0 {
			x, y := in.asBDD(a), in.asBDD(b)
			switch op {
			case token.AND:
				return in.Bool(bd.And(x, y))
			case token.OR:
				return in.Bool(bd.Or(x, y))
			}
			return in.Bool(bd.Xor(x, y))
		}
	}
	if x, ok := intConst(a); ok {
		if y, ok := intConst(b); ok {
			switch op {
			case token.MUL:
				return in.Int(x * y)
			}
		}
	}
	return in.App(op.String(), a, b)
}

func (in *Interp) plus(a, b *Term, sign int64) *Term {
	if a.K == KChoice {
		return in.mapChoice(a, func(x *Term) *Term { return in.plus(x, b, sign) })
	}
	if b.K == KChoice {
		return in.mapChoice(b, func(x *Term) *Term { return in.plus(a, x, sign) })
	}
	x, xok := intConst(a)
	y, yok := intConst(b)
	if xok && yok {
		return in.Int(x + sign*y)
	}
	if yok {
		return in.offset(a, sign*y)
	}
	if xok && sign > 0 {
		return in.offset(b, x)
	}
	op := "+"
	if sign < 0 {
		op = "-"
	}
	return in.App(op, a, b)
}

// offset of a term by a constant, in the form (+ t c) or (- t c).
func (in *Interp) offset(t *Term, c int64) *Term {
	if t.K == KApp && len(t.A) == 2 {
		if y, ok := intConst(t.A[1]); ok {
			if t.S == "+" {
				return in.offset(t.A[0], c+y)
			}
			if t.S == "-" {
				return in.offset(t.A[0], c-y)
			}
		}
	}
	switch {
	case c == 0:
		return t
	case c > 0:
		return in.App("+", t, in.Int(c))
	}
	return in.App("-", t, in.Int(-c))
}

// ---------------------------------------------------------------------------
// Calls
// ---------------------------------------------------------------------------

func (in *Interp) mkDefer(fr *frame, d *ssa.Defer, g Node) deferRec {
	r := deferRec{g: g, instr: d}
	c := &d.Call
	if !c.IsInvoke() {
		r.fnv = in.val(fr, c.Value)
	} else {
		r.fnv = in.val(fr, c.Value)
	}
	for _, a := range c.Args {
		r.args = append(r.args, in.val(fr, a))
	}
	return r
}

func (in *Interp) callCommon(fr *frame, ins ssa.Instruction, c *ssa.CallCommon, g Node, st *State, pos token.Pos) (*Term, *State, Node) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, in.val(fr, a))
	}
	return in.invoke(fr, ins, in.val(fr, c.Value), args, c, g, st, pos)
}

func (in *Interp) invoke(fr *frame, ins ssa.Instruction, fnv *Term, args []*Term, c *ssa.CallCommon, g Node, st *State, pos token.Pos) (*Term, *State, Node) {
	site := fmt.Sprintf("%s.%d", fr.fn.Name(), instrIndex(ins))
	if c.IsInvoke() {
		m := c.Method
		if rt := namedOf(c.Value.Type()); rt != nil && rt.Obj().Name() == "IMap" {
			return in.imapCall(fr, ins, m.Name(), fnv, args, c, g, st, pos, site)
		}
		in.effect("deref", "method "+m.Name(), g, st, pos, fnv)
		return in.opaque("invoke:"+m.Name(), c, append([]*Term{fnv}, args...), g, st, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, ins, b, args, c, g, st, pos)
	}
	return in.apply(fr, ins, fnv, args, c, g, st, pos, site)
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// apply a function value.
func (in *Interp) apply(fr *frame, ins ssa.Instruction, f *Term, args []*Term, c *ssa.CallCommon, g Node, st *State, pos token.Pos, site string) (*Term, *State, Node) {
	switch f.K {
	case KChoice:
		var gs []Node
		var vs []*Term
		var sts []*State
		out := bddFalse
		for i, x := range f.A {
			gi := in.bdd.And(g, f.G[i])
			if gi == bddFalse {
				continue
			}
			v, s2, g2 := in.apply(fr, ins, x, args, c, gi, st.clone(), pos, fmt.Sprintf("%s~%d", site, i))
			if g2 == bddFalse {
				continue
			}
			out = in.bdd.Or(out, g2)
			gs = append(gs, g2)
			vs = append(vs, v)
			sts = append(sts, s2)
		}
		if out == bddFalse {
			return in.bottom(), st, bddFalse
		}
		for i := range gs {
			gs[i] = in.bdd.Restrict(gs[i], out)
		}
		return in.Choice(gs, vs), in.mergeStates(gs, sts), out
	case KFunc:
		return in.static(fr, ins, in.funcs[f.I], args, nil, c, g, st, pos, site)
	case KClosure:
		cr := in.closures[f.I]
		return in.static(fr, ins, cr.fn, args, cr.binds, c, g, st, pos, site)
	}
	in.effect("deref", "call", g, st, pos, f)
	return in.opaque("callfn", c, append([]*Term{f}, args...), g, st, pos)
}

func funcKey(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.String()
}

func (in *Interp) static(fr *frame, ins ssa.Instruction, fn *ssa.Function, args, binds []*Term, c *ssa.CallCommon, g Node, st *State, pos token.Pos, site string) (*Term, *State, Node) {
	key := funcKey(fn)
	if to := in.redirect[key]; to != nil {
		return in.call(to, args, nil, g, st, site, pos)
	}
	if in.cut[key] {
		return in.opaquePure("cut:"+key, c.Signature().Results(), args, g, st)
	}
	if in.beside != nil && len(binds) == 0 && len(fn.Blocks) > 0 && inRepo(fn) && in.beside(fn, args, st) {
		return in.opaquePure("some:"+key+"@"+site, c.Signature().Results(), nil, g, st)
	}
	if fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "bound") && len(binds) == 1 {
		// method value: call the method with the bound receiver
		if o, ok := fn.Object().(*types.Func); ok {
			if _, isI := o.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface); isI {
				if rt := namedOf(o.Type().(*types.Signature).Recv().Type()); rt != nil && rt.Obj().Name() == "IMap" {
					return in.imapCall(fr, ins, o.Name(), binds[0], args, c, g, st, pos, site)
				}
			}
		}
	}
	if r, st2, g2, ok := in.model(fr, ins, fn, key, args, c, g, st, pos, site); ok {
		return r, st2, g2
	}
	if len(fn.Blocks) > 0 && inRepo(fn) {
		return in.call(fn, args, binds, g, st, site, pos)
	}
	if len(fn.Blocks) > 0 && fn.Synthetic != "" {
		return in.call(fn, args, binds, g, st, site, pos)
	}
	return in.opaque("ext:"+key, c, args, g, st, pos)
}

// opaquePure is an uninterpreted function of its arguments.
func (in *Interp) opaquePure(name string, res *types.Tuple, args []*Term, g Node, st *State) (*Term, *State, Node) {
	var a []*Term
	for _, x := range args {
		a = append(a, in.deep(st, x, 0))
	}
	mk := func(i int, t types.Type) *Term {
		n := name
		if res.Len() > 1 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		v := in.distribute(n, a)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return in.Bool(in.asBDD(v))
		}
		return v
	}
	if res.Len() == 1 {
		return mk(0, res.At(0).Type()), st, g
	}
	var out []*Term
	for i := 0; i < res.Len(); i++ {
		out = append(out, mk(i, res.At(i).Type()))
	}
	return in.Tuple(out...), st, g
}

// distribute builds an application, lifting choices out of the arguments.
func (in *Store) distribute(op string, a []*Term) *Term {
	for i, x := range a {
		if x.K == KChoice {
			return in.mapChoice(x, func(y *Term) *Term {
				b := append([]*Term{}, a...)
				b[i] = y
				return in.distribute(op, b)
			})
		}
	}
	return in.App(op, a...)
}

// opaque calls something that is not analysed: what it can reach is no longer known.
func (in *Interp) opaque(name string, c *ssa.CallCommon, args []*Term, g Node, st *State, pos token.Pos) (*Term, *State, Node) {
	in.effect("call", name, g, st, pos, args...)
	for _, a := range args {
		in.havoc(st, a)
	}
	return in.opaquePure(name, c.Signature().Results(), args, g, st)
}

func (in *Interp) havoc(st *State, a *Term) {
	if a.K == KChoice {
		for _, x := range a.A {
			in.havoc(st, x)
		}
		return
	}
	r := rootAlloc(a)
	if r == nil || r.K != KAlloc || in.allocInfo[r.I].kind != "cell" {
		return
	}
	t := in.allocInfo[r.I].typ
	if u, ok := t.Underlying().(*types.Struct); ok && a == r && in.splits(t) {
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			addr := in.faddr(r, f.Name())
			for k := range st.mem {
				if under(k, addr) {
					delete(st.mem, k)
				}
			}
			st.mem[addr] = in.mk(KUnk, "havoc:"+typeName(t)+"."+f.Name(), 0, 0, nil, nil)
		}
		return
	}
	st.mem[a] = in.mk(KUnk, "havoc:"+typeName(t), 0, 0, nil, nil)
}

// deep replaces references to local objects by their present value.
func (in *Interp) deep(st *State, t *Term, d int) *Term {
	if d > 6 {
		return t
	}
	switch t.K {
	case KChoice:
		return in.mapChoice(t, func(x *Term) *Term { return in.deep(st, x, d) })
	case KTuple:
		var a []*Term
		for _, x := range t.A {
			a = append(a, in.deep(st, x, d+1))
		}
		return in.Tuple(a...)
	case KStruct:
		a := make([]*Term, len(t.A))
		for i, x := range t.A {
			a[i] = in.deep(st, x, d+1)
		}
		return in.mk(KStruct, t.S, 0, 0, a, nil)
	case KSub:
		if rootAlloc(t) != nil {
			return in.content(st, t)
		}
	case KAppend, KMIns, KAppAll:
		a := make([]*Term, len(t.A))
		for i, x := range t.A {
			a[i] = in.deep(st, x, d+1)
			if a[i].K == KChoice && i == 0 {
				return t
			}
		}
		return in.mk(t.K, t.S, 0, 0, a, nil)
	case KAlloc:
		info := in.allocInfo[t.I]
		switch {
		case info.kind == "cell":
			if u, ok := info.typ.Underlying().(*types.Struct); ok {
				v := in.structTerm(info.typ, func(i int) *Term {
					return in.deep(st, in.load(st, bddTrue, in.faddr(t, u.Field(i).Name()), u.Field(i).Type()), d+1)
				})
				return in.App("ref", v)
			}
			return in.App("ref", in.deep(st, in.load(st, bddTrue, t, info.typ), d+1))
		case info.kind == "map" || info.kind == "imap":
			return in.App("newmap", in.deep(st, in.content(st, t), d+1))
		case strings.HasPrefix(info.kind, "array") || strings.HasPrefix(info.kind, "slice"):
			return in.deep(st, in.content(st, t), d+1)
		}
	}
	return t
}
