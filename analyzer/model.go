package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) builtin(fr *frame, ins ssa.Instruction, b *ssa.Builtin, args []*Term, c *ssa.CallCommon, g Node, st *State, pos token.Pos) (*Term, *State, Node) {
	switch b.Name() {
	case "len":
		if bs, ok := c.Args[0].Type().Underlying().(*types.Basic); ok && bs.Info()&types.IsString != 0 {
			return in.strLen(args[0]), st, g
		}
		x := in.readContent(st, g, args[0], pos)
		return in.lenOf(args[0], x), st, g
	case "cap":
		return in.distribute("cap", []*Term{in.content(st, args[0])}), st, g
	case "append":
		in.useContainer(st, g, args[0], "read", pos)
		if len(args) > 1 {
			in.useContainer(st, g, args[1], "read", pos)
		}
		return in.append(st, g, args[0], args[1], pos), st, g
	case "copy":
		in.copySeq(st, g, args[0], args[1], pos)
		return in.distribute("copied", []*Term{in.content(st, args[1])}), st, g
	case "delete":
		in.mapDelete(st, g, args[0], args[1], pos)
		return in.Tuple(), st, g
	case "clear":
		in.mapClear(st, g, args[0], pos)
		return in.Tuple(), st, g
	case "panic":
		in.effect("panic", "panic", g, st, pos, args...)
		return in.bottom(), st, bddFalse
	case "print", "println":
		return in.Tuple(), st, g
	case "recover":
		return in.Nil(), st, g
	case "min", "max":
		return in.distribute(b.Name(), args), st, g
	case "ssa:wrapnilchk":
		return args[0], st, g
	}
	in.note("unmodelled builtin " + b.Name())
	return in.unk("builtin "+b.Name(), pos), st, g
}

func (in *Interp) lenOf(v, c *Term) *Term {
	if c.K == KChoice {
		return in.mapChoice(c, func(x *Term) *Term { return in.lenOf(v, x) })
	}
	if c.K == KZeros && len(c.A) == 1 {
		return c.A[0]
	}
	if c.K == KZeros && v.K == KAlloc && strings.HasPrefix(v.S, "array:") {
		return in.Const(strings.TrimPrefix(v.S, "array:"))
	}
	return in.Len(c)
}

// copySeq models copy(dst, src) into local storage.
func (in *Interp) copySeq(st *State, g Node, dst, src *Term, pos token.Pos) {
	if dst.K == KChoice {
		for _, d := range dst.A {
			in.copySeq(st, g, d, src, pos)
		}
		return
	}
	base := in.backing(dst)
	s := in.content(st, src)
	old := in.content(st, base)
	// the destination holds what was copied, and nothing else if it was as long as the source
	var nv *Term
	if old.K == KZeros && len(old.A) == 1 && old.A[0] == in.Len(s) {
		nv = in.App("clone", s)
	} else {
		room := in.lenOf(base, old)
		if dst.K == KSub {
			if len(dst.A) > 2 && dst.A[2] != nil && dst.A[2].K != KNil && dst.A[2].S != "none" {
				room = dst.A[2]
			}
		}
		into := func(x *Term) *Term {
			if in.bdd.And(g, in.Lt(room, in.lenOf(src, x))) == bddFalse {
				return in.App("copyinto", old, x)
			}
			return in.App("copyinto", old, x, in.Const("part"))
		}
		if s.K == KChoice {
			nv = in.mapChoice(s, into)
		} else {
			nv = into(s)
		}
	}
	st.mem[in.contentsAddr(base)] = nv
	if rootAlloc(base) == nil {
		in.effect("insert", "copy", g, st, pos, base, in.Nil(), s)
	}
}

func (in *Interp) imapCall(fr *frame, ins ssa.Instruction, name string, m *Term, args []*Term, c *ssa.CallCommon, g Node, st *State, pos token.Pos, site string) (*Term, *State, Node) {
	in.effect("deref", "map", g, st, pos, m)
	res := c.Signature().Results()
	get := func(k *Term) (Node, *Term) {
		cc := in.readContent(st, g, m, pos)
		var z *Term
		if res.Len() > 0 {
			z = in.zero(res.At(0).Type())
		} else {
			z = in.Nil()
		}
		return in.mapGet(cc, k, z)
	}
	frozen := func(t *Term) *Term { return in.freeze(st, t) }
	switch name {
	case "Get":
		has, v := get(args[0])
		return in.Tuple(v, in.Bool(has)), st, g
	case "Set":
		in.mapInsert(st, g, m, args[0], frozen(args[1]), pos)
		return in.Tuple(), st, g
	case "GetAndSet", "Swap":
		has, v := get(args[0])
		in.mapInsert(st, g, m, args[0], frozen(args[1]), pos)
		return in.Tuple(v, in.Bool(has)), st, g
	case "GetOrSet":
		has, v := get(args[0])
		ng := in.bdd.And(g, in.bdd.Not(has))
		if ng != bddFalse {
			st2 := st.clone()
			in.mapInsert(st2, ng, m, args[0], frozen(args[1]), pos)
			st = in.mergeStates([]Node{in.bdd.Restrict(in.bdd.Not(has), g), in.bdd.Restrict(has, g)}, []*State{st2, st})
		}
		return in.Tuple(in.Choice([]Node{has, in.bdd.Not(has)}, []*Term{v, args[1]}), in.Bool(has)), st, g
	case "GetOrCompute":
		has, v := get(args[0])
		ng := in.bdd.And(g, in.bdd.Not(has))
		nv := v
		if ng != bddFalse {
			r, st2, g2 := in.apply(fr, ins, args[1], nil, callbackCommon(c, 1), ng, st.clone(), pos, site+".compute")
			if g2 != bddFalse {
				in.mapInsert(st2, g2, m, args[0], in.freeze(st2, r), pos)
				nv = in.Choice([]Node{has, in.bdd.Not(has)}, []*Term{v, r})
				st = in.mergeStates([]Node{in.bdd.Restrict(in.bdd.Not(has), g), in.bdd.Restrict(has, g)}, []*State{st2, st})
			}
		}
		return in.Tuple(nv, in.Bool(has)), st, g
	case "GetAndDelete", "GetAndDel":
		has, v := get(args[0])
		in.mapDelete(st, g, m, args[0], pos)
		return in.Tuple(v, in.Bool(has)), st, g
	case "Del":
		if isSlice(c.Signature().Params().At(0).Type()) {
			keys := in.content(st, args[0])
			for keys.K == KAppend {
				in.mapDelete(st, g, m, keys.A[1], pos)
				keys = keys.A[0]
			}
			if keys.K != KEmpty && keys.K != KNil {
				in.useContainer(st, g, m, "write", pos)
				in.mapWrite(st, g, m, pos, "delete", func(old *Term) *Term { return in.App("delall", old, keys) }, keys)
			}
		} else {
			in.mapDelete(st, g, m, args[0], pos)
		}
		return in.Tuple(), st, g
	case "Clear":
		in.mapClear(st, g, m, pos)
		return in.Tuple(), st, g
	case "Size", "Len":
		return in.Len(in.readContent(st, g, m, pos)), st, g
	case "Keys":
		return in.view("keys", in.readContent(st, g, m, pos)), st, g
	case "Values":
		return in.view("values", in.readContent(st, g, m, pos)), st, g
	case "AsMap":
		return in.view("asmap", in.readContent(st, g, m, pos)), st, g
	case "Clone":
		cc := in.readContent(st, g, m, pos)
		a := in.alloc(fr, ins, "clone", "imap", c.Signature().Results().At(0).Type(), pos)
		st.mem[in.contentsAddr(a)] = in.view("clone", cc)
		return a, st, g
	case "Grow", "SetHasher":
		return in.Tuple(), st, g
	case "ForEach":
		cont := in.readContent(st, g, m, pos)
		return in.forEach(fr, ins, args[0], cont, c, g, st, pos, site)
	}
	return in.opaque("imap:"+name, c, append([]*Term{m}, args...), g, st, pos)
}

func (in *Interp) view(op string, c *Term) *Term {
	if c.K == KChoice {
		return in.mapChoice(c, func(x *Term) *Term { return in.view(op, x) })
	}
	if c.K == KEmpty || c.K == KNil {
		return in.Empty()
	}
	return in.App(op, c)
}

// callbackCommon is a call description with the signature of argument i of c.
func callbackCommon(c *ssa.CallCommon, i int) *ssa.CallCommon {
	p := c.Signature().Params().At(i).Type()
	return &ssa.CallCommon{Value: &sigValue{p}}
}

// sigValue is a stand-in callee that only has a type.
type sigValue struct{ t types.Type }

func (s *sigValue) Name() string                         { return "callback" }
func (s *sigValue) String() string                       { return "callback" }
func (s *sigValue) Type() types.Type                     { return s.t }
func (s *sigValue) Parent() *ssa.Function                { return nil }
func (s *sigValue) Referrers() *[]ssa.Instruction        { return nil }
func (s *sigValue) Pos() token.Pos                       { return token.NoPos }
func (s *sigValue) Operands(r []*ssa.Value) []*ssa.Value { return r }

func (in *Interp) forEach(fr *frame, ins ssa.Instruction, f, cont *Term, c *ssa.CallCommon, g Node, st *State, pos token.Pos, site string) (*Term, *State, Node) {
	if cont.K == KChoice {
		// iterate over each alternative separately
		var gs []Node
		var sts []*State
		out := bddFalse
		for i, x := range cont.A {
			gi := in.bdd.And(g, cont.G[i])
			if gi == bddFalse {
				continue
			}
			_, s2, g2 := in.forEach(fr, ins, f, x, c, gi, st.clone(), pos, fmt.Sprintf("%s|%d", site, i))
			if g2 == bddFalse {
				continue
			}
			out = in.bdd.Or(out, g2)
			gs = append(gs, g2)
			sts = append(sts, s2)
		}
		for i := range gs {
			gs[i] = in.bdd.Restrict(gs[i], out)
		}
		if out == bddFalse {
			return in.Tuple(), st, g
		}
		return in.Tuple(), in.mergeStates(gs, sts), g
	}
	if cont.K == KEmpty || cont.K == KNil {
		return in.Tuple(), st, g
	}
	cb := callbackCommon(c, 0)
	_, gEnd, stEnd, gStop, stStop := in.eachLoop(site, pos, cont, g, st, func(it *Term, gi Node, s *State) (Node, Node, *State, *State) {
		k := in.Key(cont, it)
		v := in.Lookup(cont, k)
		before := s.clone()
		r, s2, g2 := in.apply(fr, ins, f, []*Term{k, v}, cb, gi, s, pos, site+".each")
		if g2 == bddFalse {
			return bddFalse, bddFalse, s2, s2
		}
		on := in.asBDD(r)
		gc := in.bdd.And(g2, on)
		gs := in.bdd.And(g2, in.bdd.Not(on))
		sc, ss := s2, s2
		if gc != bddFalse && gs != bddFalse {
			sc, ss = in.assume(s2, gc, before), in.assume(s2, gs, before)
		}
		return gc, gs, sc, ss
	})
	if gStop == bddFalse {
		return in.Tuple(), stEnd, g
	}
	tot := in.bdd.Or(gEnd, gStop)
	return in.Tuple(), in.mergeStates([]Node{in.bdd.Restrict(gEnd, tot), in.bdd.Restrict(gStop, tot)}, []*State{stEnd, stStop}), g
}

// assume specialises what changed since the state before to a stronger guard.
func (in *Interp) assume(st *State, g Node, before *State) *State {
	out := st.clone()
	for k, v := range out.mem {
		if u, ok := before.mem[k]; ok && u == v {
			continue
		}
		out.mem[k] = in.under(v, g)
	}
	return out
}

// under simplifies a value known to be used only when g holds.
func (in *Interp) under(v *Term, g Node) *Term {
	switch v.K {
	case KChoice:
		var gs []Node
		var as []*Term
		for i, x := range v.A {
			if in.bdd.And(g, v.G[i]) == bddFalse {
				continue
			}
			gs = append(gs, in.bdd.Restrict(v.G[i], g))
			as = append(as, x)
		}
		if len(as) == 0 {
			return v
		}
		return in.Choice(gs, as)
	case KBool:
		return in.Bool(in.bdd.Restrict(Node(v.I), g))
	}
	return v
}

func recvName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return n.Obj().Name()
		}
	}
	return ""
}

// model gives meaning to library functions.
func (in *Interp) model(fr *frame, ins ssa.Instruction, fn *ssa.Function, key string, args []*Term, c *ssa.CallCommon, g Node, st *State, pos token.Pos, site string) (*Term, *State, Node, bool) {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if ob := o.Object(); ob != nil && ob.Pkg() != nil {
		pkg = ob.Pkg().Path()
	}
	name := o.Name()
	ret := func(t *Term) (*Term, *State, Node, bool) { return t, st, g, true }
	rd := func(t *Term) *Term { return in.readContent(st, g, t, pos) }
	switch pkg {
	case "github.com/oarkflow/xsync", "github.com/oarkflow/maps":
		if fn.Signature.Recv() == nil && (name == "NewMap" || name == "New" || name == "NewMapOfWithHasher") {
			a := in.alloc(fr, ins, "", "imap", fn.Signature.Results().At(0).Type(), pos)
			st.mem[in.contentsAddr(a)] = in.Empty()
			return ret(a)
		}
		if fn.Signature.Recv() != nil {
			c2 := *c
			r, s2, g2 := in.imapMethod(fr, ins, name, args[0], args[1:], fn, &c2, g, st, pos, site)
			return r, s2, g2, true
		}
	case "cmp":
		if name == "Or" {
			seq := in.content(st, args[0])
			var list []*Term
			for seq.K == KAppend {
				list = append([]*Term{seq.A[1]}, list...)
				seq = seq.A[0]
			}
			if seq.K == KEmpty || seq.K == KNil {
				z := in.zero(fn.Signature.Results().At(0).Type())
				r := z
				for i := len(list) - 1; i >= 0; i-- {
					is := in.Eq(list[i], z)
					r = in.Choice([]Node{in.bdd.Not(is), is}, []*Term{list[i], r})
				}
				return ret(r)
			}
		}
	case "slices":
		switch name {
		case "Contains":
			return ret(in.Bool(in.inSeq(rd(args[0]), args[1])))
		case "Index":
			is := in.inSeq(rd(args[0]), args[1])
			return ret(in.Choice([]Node{is, in.bdd.Not(is)}, []*Term{in.App("indexof", in.content(st, args[0]), args[1]), in.Int(-1)}))
		case "ContainsFunc", "IndexFunc":
			cont := rd(args[0])
			found := in.anyLoop(fr, ins, args[1], cont, callbackCommon(c, 1), g, st, pos, site)
			if name == "ContainsFunc" {
				return ret(in.Bool(found))
			}
			return ret(in.Choice([]Node{found, in.bdd.Not(found)}, []*Term{in.App("indexoffunc", cont), in.Int(-1)}))
		case "Clone", "Clip", "Grow":
			return ret(in.viewSeq("clone", rd(args[0])))
		case "Compact":
			// in place: keeps the storage
			if r := rootAlloc(args[0]); r != nil && r.S == "pool" {
				return ret(args[0])
			}
			return ret(in.viewSeq("compact", rd(args[0])))
		case "Sorted", "Collect":
			return ret(in.viewSeq("sorted", rd(args[0])))
		case "Sort", "SortFunc", "SortStableFunc", "Reverse":
			return ret(in.Tuple())
		case "Concat":
			seqs := in.content(st, args[0])
			var list []*Term
			for seqs.K == KAppend {
				list = append([]*Term{seqs.A[1]}, list...)
				seqs = seqs.A[0]
			}
			if seqs.K == KEmpty || seqs.K == KNil {
				r := in.Empty()
				for _, x := range list {
					r = in.appendSeq(r, in.content(st, x), pos)
				}
				return ret(r)
			}
		case "DeleteFunc":
			cont := rd(args[0])
			r := in.filterLoop(fr, ins, args[1], cont, callbackCommon(c, 1), g, st, pos, site, false)
			if rootAlloc(args[0]) == nil {
				in.effect("insert", "inplace", g, st, pos, args[0], in.Nil(), r)
			}
			return ret(r)
		}
	case "maps":
		switch name {
		case "Keys":
			return ret(in.view("keys", rd(args[0])))
		case "Values":
			return ret(in.view("values", rd(args[0])))
		case "Clone":
			return ret(in.view("clone", rd(args[0])))
		case "Copy":
			src := rd(args[1])
			r, st2, g2 := in.copyMap(fr, ins, args[0], src, g, st, pos, site)
			return r, st2, g2, true
		}
	case "time":
		switch recvName(fn) + "." + name {
		case ".Now":
			return ret(in.App("now"))
		case ".Since":
			return ret(in.App("tsub", in.App("now"), args[0]))
		case ".Until":
			return ret(in.App("tsub", args[0], in.App("now")))
		case "Time.After":
			return ret(in.Bool(in.Lt(args[1], args[0])))
		case "Time.Before":
			return ret(in.Bool(in.Lt(args[0], args[1])))
		case "Time.Compare":
			return ret(in.App("tsub", args[0], args[1]))
		case "Time.Equal":
			return ret(in.Bool(in.Eq(args[0], args[1])))
		case "Time.IsZero":
			return ret(in.Bool(in.bdd.Var(in.Atom("iszero", args[0]))))
		case "Time.Sub":
			return ret(in.App("tsub", args[0], args[1]))
		case "Time.Add":
			return ret(in.App("tadd", args[0], args[1]))
		case ".ParseDuration":
			bad := in.bdd.Var(in.Atom("parsefails", args[0]))
			return ret(in.Tuple(in.App("parsed", args[0]), in.Choice([]Node{bad, in.bdd.Not(bad)}, []*Term{in.App("error"), in.Nil()})))
		}
	case "errors":
		if name == "New" {
			return ret(in.App("error"))
		}
		if name == "Is" || name == "As" {
			break
		}
	case "fmt":
		switch name {
		case "Errorf":
			return ret(in.App("error"))
		case "Sprintf":
			if t := in.sprintf(st, args); t != nil {
				return ret(t)
			}
			return ret(in.distribute("sprintf", []*Term{args[0], in.deep(st, args[1], 0)}))
		case "Sprint", "Sprintln":
			return ret(in.distribute("sprint", []*Term{in.deep(st, args[0], 0)}))
		case "Println", "Printf", "Print", "Fprintf", "Fprintln":
			return ret(in.Tuple(in.Int(0), in.Nil()))
		}
	case "strings":
		if name == "Join" {
			seq := in.content(st, args[0])
			var parts []*Term
			x := seq
			for x.K == KAppend {
				parts = append([]*Term{x.A[1]}, parts...)
				x = x.A[0]
			}
			if x.K == KEmpty && len(parts) > 0 {
				var cs []*Term
				for i, p := range parts {
					if i > 0 {
						cs = append(cs, args[1])
					}
					cs = append(cs, p)
				}
				return ret(in.Concat(cs...))
			}
		}
		if fn.Signature.Recv() == nil {
			r, s2, g2 := in.opaquePure("strings."+name, fn.Signature.Results(), args, g, st)
			return r, s2, g2, true
		}
	case "strconv", "unicode", "unicode/utf8":
		r, s2, g2 := in.opaquePure(pkg+"."+name, fn.Signature.Results(), args, g, st)
		return r, s2, g2, true
	case "sync":
		switch recvName(fn) + "." + name {
		case "RWMutex.Lock", "Mutex.Lock":
			in.lockOp(st, g, args[0], "W", pos)
			return ret(in.Tuple())
		case "RWMutex.RLock":
			in.lockOp(st, g, args[0], "R", pos)
			return ret(in.Tuple())
		case "RWMutex.Unlock", "Mutex.Unlock":
			in.unlockOp(st, g, args[0], "W", pos)
			return ret(in.Tuple())
		case "RWMutex.RUnlock":
			in.unlockOp(st, g, args[0], "R", pos)
			return ret(in.Tuple())
		case "RWMutex.TryLock", "Mutex.TryLock", "RWMutex.TryRLock":
			in.effect("lock", "try", g, st, pos, args[0])
			return ret(in.Bool(in.bdd.Var(in.Atom("unkbool", in.unk("trylock", pos)))))
		case "Pool.Get":
			a := in.alloc(fr, ins, "", "pool", fn.Signature.Results().At(0).Type(), pos)
			for k := range st.mem {
				if rootAlloc(k) == a {
					delete(st.mem, k)
				}
			}
			poolAllocs[a] = true
			st.mem[in.App("released", a)] = in.False()
			st.mem[in.contentsAddr(a)] = in.mk(KUnk, fmt.Sprintf("stale:%d", a.I), 0, 0, nil, nil)
			if in.poolEmpty(args[0]) {
				st.mem[in.contentsAddr(a)] = in.Empty()
			}
			in.effect("poolget", "", g, st, pos, a, args[0])
			return ret(a)
		case "Pool.Put":
			in.poolPut(st, g, args[1], args[0], pos)
			return ret(in.Tuple())
		case "Once.Do":
			_, s2, g2 := in.apply(fr, ins, args[1], nil, callbackCommon(c, 0), g, st, pos, site+".once")
			return in.Tuple(), s2, g2, true
		}
	case "log/slog":
		switch recvName(fn) + "." + name {
		case "Logger.Log", "Logger.LogAttrs":
			in.effect("deref", "logger", g, st, pos, args[0])
			in.effect("log", name, g, st, pos, args[0], args[2], args[3], in.deep(st, args[4], 0))
			return ret(in.Tuple())
		case "Logger.Warn", "Logger.Info", "Logger.Error", "Logger.Debug":
			in.effect("deref", "logger", g, st, pos, args[0])
			in.effect("log", name, g, st, pos, args[0], in.Const("level:"+name), args[1], in.deep(st, args[2], 0))
			return ret(in.Tuple())
		}
		r, s2, g2 := in.opaquePure("slog."+name, fn.Signature.Results(), args, g, st)
		return r, s2, g2, true
	case "context":
		if name == "Background" || name == "TODO" {
			return ret(in.App("context"))
		}
	case "reflect", "encoding/json", "sort", "hash/fnv", "bytes":
		r, s2, g2 := in.opaquePure(pkg+"."+name, fn.Signature.Results(), args, g, st)
		return r, s2, g2, true
	}
	return nil, st, g, false
}

// imapMethod handles calls on the concrete map types.
func (in *Interp) imapMethod(fr *frame, ins ssa.Instruction, name string, m *Term, args []*Term, fn *ssa.Function, c *ssa.CallCommon, g Node, st *State, pos token.Pos, site string) (*Term, *State, Node) {
	// a signature without the receiver
	sig := types.NewSignatureType(nil, nil, nil, fn.Signature.Params(), fn.Signature.Results(), fn.Signature.Variadic())
	return in.imapCall(fr, ins, name, m, args, &ssa.CallCommon{Value: &sigValue{sig}}, g, st, pos, site)
}

func (in *Interp) viewSeq(op string, c *Term) *Term {
	if c.K == KChoice {
		return in.mapChoice(c, func(x *Term) *Term { return in.viewSeq(op, x) })
	}
	if c.K == KEmpty || c.K == KNil {
		return c
	}
	if c.K == KApp && c.S == op {
		return c
	}
	return in.App(op, c)
}

// sprintf with only %s and %v of strings is concatenation.
func (in *Interp) sprintf(st *State, args []*Term) *Term {
	if args[0].K != KConst {
		return nil
	}
	var f string
	fmt.Sscanf(args[0].S, "%q", &f)
	seq := in.content(st, args[1])
	var vs []*Term
	for seq.K == KAppend {
		vs = append([]*Term{seq.A[1]}, vs...)
		seq = seq.A[0]
	}
	if seq.K != KEmpty && seq.K != KNil {
		return nil
	}
	var parts []*Term
	for {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			break
		}
		if i+1 >= len(f) || f[i+1] != 's' || len(vs) == 0 {
			return nil
		}
		if ty, ok := ifaceTypes[vs[0]]; vs[0].K != KConst && (!ok || ty != "string") {
			return nil
		}
		parts = append(parts, in.Str(f[:i]), vs[0])
		vs = vs[1:]
		f = f[i+2:]
	}
	if len(vs) > 0 {
		return nil
	}
	parts = append(parts, in.Str(f))
	return in.Concat(parts...)
}

// inSeq: some element of the sequence equals x.
func (in *Store) inSeq(seq, x *Term) Node {
	bd := in.bdd
	if x.K == KChoice {
		r := bddFalse
		for i, y := range x.A {
			r = bd.Or(r, bd.And(x.G[i], in.inSeq(seq, y)))
		}
		return r
	}
	switch seq.K {
	case KChoice:
		r := bddFalse
		for i, y := range seq.A {
			r = bd.Or(r, bd.And(seq.G[i], in.inSeq(y, x)))
		}
		return r
	case KEmpty, KNil:
		return bddFalse
	case KAppend:
		return bd.Or(in.inSeq(seq.A[0], x), in.Eq(seq.A[1], x))
	case KAppAll:
		return bd.Or(in.inSeq(seq.A[0], x), in.inSeq(seq.A[1], x))
	case KApp:
		switch seq.S {
		case "clone", "compact", "sorted":
			return in.inSeq(seq.A[0], x)
		case "keys":
			return in.Has(seq.A[0], x)
		}
	}
	return bd.Var(in.Atom("elem", seq, x))
}

// anyLoop: the callback holds for some element.
func (in *Interp) anyLoop(fr *frame, ins ssa.Instruction, f, cont *Term, cb *ssa.CallCommon, g Node, st *State, pos token.Pos, site string) Node {
	if cont.K == KChoice {
		r := bddFalse
		for i, x := range cont.A {
			if gi := in.bdd.And(g, cont.G[i]); gi != bddFalse {
				r = in.bdd.Or(r, in.bdd.And(cont.G[i], in.anyLoop(fr, ins, f, x, cb, gi, st, pos, fmt.Sprintf("%s|%d", site, i))))
			}
		}
		return r
	}
	if cont.K == KEmpty || cont.K == KNil {
		return bddFalse
	}
	reg, _, _, gStop, _ := in.eachLoop(site, pos, cont, g, st.clone(), func(it *Term, gi Node, s *State) (Node, Node, *State, *State) {
		r, s2, g2 := in.apply(fr, ins, f, []*Term{in.Elem(cont, it)}, cb, gi, s, pos, site+".each")
		on := in.asBDD(r)
		return in.bdd.And(g2, in.bdd.Not(on)), in.bdd.And(g2, on), s2, s2
	})
	_ = gStop
	if len(reg.exits) == 0 {
		return bddFalse
	}
	return in.bdd.Var(in.exitAtom(reg.id, 0))
}

// filterLoop keeps the elements for which the callback returns keep.
func (in *Interp) filterLoop(fr *frame, ins ssa.Instruction, f, cont *Term, cb *ssa.CallCommon, g Node, st *State, pos token.Pos, site string, keep bool) *Term {
	if cont.K == KChoice {
		return in.mapChoice(cont, func(x *Term) *Term {
			return in.filterLoop(fr, ins, f, x, cb, g, st, pos, fmt.Sprintf("%s|%d", site, x.id), keep)
		})
	}
	acc := in.alloc(fr, ins, "filter", "cell", types.NewSlice(types.Typ[types.Int]), pos)
	s0 := st.clone()
	s0.mem[acc] = in.Empty()
	_, _, stEnd, _, _ := in.eachLoop(site, pos, cont, g, s0, func(it *Term, gi Node, s *State) (Node, Node, *State, *State) {
		e := in.Elem(cont, it)
		r, s2, g2 := in.apply(fr, ins, f, []*Term{e}, cb, gi, s, pos, site+".each")
		on := in.asBDD(r)
		if !keep {
			on = in.bdd.Not(on)
		}
		old := s2.mem[acc]
		s2.mem[acc] = in.Choice([]Node{on, in.bdd.Not(on)}, []*Term{in.appendOne(old, e, pos), old})
		return g2, bddFalse, s2, s2
	})
	return stEnd.mem[acc]
}

func (in *Interp) copyMap(fr *frame, ins ssa.Instruction, dst, src *Term, g Node, st *State, pos token.Pos, site string) (*Term, *State, Node) {
	if src.K == KEmpty || src.K == KNil {
		return in.Tuple(), st, g
	}
	if src.K == KChoice {
		for i, x := range src.A {
			if gi := in.bdd.And(g, src.G[i]); gi != bddFalse {
				_, s2, _ := in.copyMap(fr, ins, dst, x, gi, st.clone(), pos, fmt.Sprintf("%s|%d", site, i))
				st = in.mergeStates([]Node{in.bdd.Restrict(src.G[i], g), in.bdd.Not(in.bdd.Restrict(src.G[i], g))}, []*State{s2, st})
			}
		}
		return in.Tuple(), st, g
	}
	_, _, stEnd, _, _ := in.eachLoop(site, pos, src, g, st, func(it *Term, gi Node, s *State) (Node, Node, *State, *State) {
		k := in.Key(src, it)
		in.mapInsert(s, gi, dst, k, in.Lookup(src, k), pos)
		return gi, bddFalse, s, s
	})
	return in.Tuple(), stEnd, g
}

// ---------------------------------------------------------------------------
// Locks and pools
// ---------------------------------------------------------------------------

func (in *Interp) lockOp(st *State, g Node, l *Term, mode string, pos token.Pos) {
	in.lockAlt(st, g, bddTrue, l, "lock", mode, mode, pos)
}

// lockAlt changes the state of the lock at l; when l is one of several, only where it is
// the one meant.
func (in *Interp) lockAlt(st *State, g, sel Node, l *Term, op, mode, to string, pos token.Pos) {
	if l.K == KChoice {
		for i, x := range l.A {
			if gi := in.bdd.And(g, l.G[i]); gi != bddFalse {
				in.lockAlt(st, gi, in.bdd.And(sel, l.G[i]), x, op, mode, to, pos)
			}
		}
		return
	}
	cell := in.App("lock", l)
	cur := in.cellOr(st, cell)
	in.effect(op, mode, g, st, pos, l, cur)
	if _, again := st.mem[cell]; op == "lock" && again && in.epochs && l.K == KFAddr {
		in.newEpoch(st, l)
	}
	st.mem[cell] = in.Choice([]Node{sel, in.bdd.Not(sel)}, []*Term{in.Const(to), cur})
}

// newEpoch: the lock was released and is taken again, so others may have changed what it
// guards in between.
func (in *Interp) newEpoch(st *State, l *Term) {
	base := l.A[0]
	t := in.structs[in.owner[l]]
	if t == nil {
		return
	}
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		a := in.faddr(base, f.Name())
		v := in.cellOr(st, a)
		switch f.Type().Underlying().(type) {
		case *types.Map:
			st.mem[in.contentsAddr(v)] = in.App("later", in.content(st, v))
		case *types.Slice, *types.Basic:
			st.mem[a] = in.App("later", v)
		}
	}
	st.mem[in.App("epoch", l)] = in.Const("2")
}

func (in *Interp) unlockOp(st *State, g Node, l *Term, mode string, pos token.Pos) {
	in.lockAlt(st, g, bddTrue, l, "unlock", mode, "unlocked", pos)
}

func (in *Interp) poolEmpty(p *Term) bool {
	return in.cleanPools || in.pools[poolKey(in, p)] == "empty"
}

func (in *Interp) poolPut(st *State, g Node, x, pool *Term, pos token.Pos) {
	if x.K == KChoice {
		for i, y := range x.A {
			if gi := in.bdd.And(g, x.G[i]); gi != bddFalse {
				in.poolPut(st, gi, y, pool, pos)
			}
		}
		return
	}
	r := rootAlloc(in.bufferOf(x))
	in.effect("poolput", "", g, st, pos, x, pool, in.content(st, x))
	if r != nil && r.S == "pool" {
		in.effect("use", "put", g, st, pos, r, in.cellOr(st, in.App("released", r)))
		cell := in.App("released", r)
		st.mem[cell] = in.Choice([]Node{g, in.bdd.Not(g)}, []*Term{in.True(), in.cellOr(st, cell)})
	}
}

// bufferOf is the storage a slice value lives in.
func (in *Interp) bufferOf(x *Term) *Term {
	for {
		switch x.K {
		case KAppend, KAppAll, KSub:
			x = x.A[0]
		case KApp:
			if x.S == "compact" && len(x.A) > 0 {
				x = x.A[0]
				continue
			}
			return x
		default:
			return x
		}
	}
}
