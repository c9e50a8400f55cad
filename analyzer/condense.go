package main

import (
	"fmt"
	"sort"
)

// ---------------------------------------------------------------------------
// Condensing clauses: closures that hold the same values get the same name, and an element
// that another one of the same clause can stand for is dropped.
// ---------------------------------------------------------------------------

type closureName struct {
	region int
	cell   string
}

// sameClosure gives the representative of a closure variable's closure.
func (m *Matcher) sameClosure(v *Term) closureName {
	n := closureName{v.I, v.S}
	if r, ok := m.closures[n]; ok {
		return r
	}
	m.closures[n] = n
	for _, r := range m.reps {
		if r.arity != len(v.A) {
			continue
		}
		w := m.s.mk(KMV, r.name.cell, r.name.region, v.N, v.A, nil)
		a := &Ctx{f: bddTrue, known: map[*Term]bool{}}
		for _, x := range v.A {
			m.vars(x, func(t *Term) { a.known[t] = true })
		}
		if m.within(a, v, w) && m.within(a, w, v) {
			m.closures[n] = r.name
			return r.name
		}
	}
	m.reps = append(m.reps, closureRep{n, len(v.A)})
	return n
}

type closureRep struct {
	name  closureName
	arity int
}

func (m *Matcher) within(ctx *Ctx, k, v *Term) bool {
	ctx.known[k] = true
	r := m.included(ctx, k, v)
	delete(ctx.known, k)
	return r
}

func (m *Matcher) clauseVars(cl *Clause) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	m.vars(m.s.Bool(cl.f), add)
	for _, h := range cl.head {
		m.vars(h, add)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (m *Matcher) condense(cs []*Clause) []*Clause {
	var out []*Clause
	for _, cl := range cs {
		out = append(out, m.condenseOne(cl))
	}
	out = m.c.dedupe(out)
	// clauses that others cover
	if len(out) > 60 {
		return out
	}
	unfold := m.unfold
	m.unfold = 0
	defer func() { m.unfold = unfold }()
	for i := 0; i < len(out); i++ {
		for j := range out {
			if i != j && m.attempt(2000, func() bool { return m.entails(m.newCtx(out[i]), []*Clause{out[j]}, nil) }) {
				out = append(out[:i:i], out[i+1:]...)
				i--
				break
			}
		}
	}
	return out
}

func (m *Matcher) condenseOne(cl *Clause) *Clause {
	s, b := m.s, m.s.bdd
	// common names
	for round := 0; round < 20; round++ {
		var from, to *Term
		vs := m.clauseVars(cl)
		for _, v := range vs {
			if !m.c.isVar(v) {
				continue
			}
			r := m.sameClosure(v)
			if r == (closureName{v.I, v.S}) {
				continue
			}
			w := s.mk(KMV, r.cell, r.region, s.inst(s.freshTag(r.region)), v.A, nil)
			from, to = v, w
			break
		}
		if from == nil {
			break
		}
		cl = substClause(s.newSubst(func(t *Term) *Term {
			if t == from {
				return to
			}
			return nil
		}), cl)
	}
	// elements that others can stand for
	mentions := func(t, v *Term) bool { return s.contains(t, func(x *Term) bool { return x == v }) }
again:
	vs := m.clauseVars(cl)
	for _, v := range vs {
		inHead := false
		for _, h := range cl.head {
			inHead = inHead || mentions(h, v)
		}
		if inHead || v.K == KIt && s.regions[v.I].kind == "pick" {
			continue
		}
		for _, w := range vs {
			if w == v || w.K != v.K || w.K == KMV && (w.I != v.I || w.S != v.S || len(w.A) != len(v.A)) || mentions(w, v) {
				continue
			}
			if w.K == KIt && (s.regions[w.I].kind == "pick" || s.regions[w.I].full != s.regions[v.I].full) {
				continue
			}
			one := s.newSubst(func(t *Term) *Term {
				if t == v {
					return w
				}
				return nil
			})
			f2 := one.node(cl.f)
			if f2 == bddFalse {
				continue
			}
			if !m.refuted(b.And(cl.f, b.Not(f2))) {
				continue
			}
			ok := true
			for i := range v.A {
				if s.Eq(v.A[i], w.A[i]) != bddTrue && !m.refuted(b.And(f2, b.Not(s.Eq(one.term(v.A[i]), w.A[i])))) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			n2 := substClause(one, cl)
			have := map[string]bool{}
			for _, n := range append(append([]*Neg{}, cl.negs...), cl.order...) {
				have[m.negKey(n)] = true
			}
			for _, n := range append(append([]*Neg{}, n2.negs...), n2.order...) {
				ok = ok && have[m.negKey(n)]
			}
			if !ok {
				continue
			}
			cl = n2
			goto again
		}
	}
	if dbgDef {
		fmt.Println("COND", trunc(m.c.str(cl), 1500))
	}
	return cl
}

// attempt runs a search that may be given up.
func (m *Matcher) attempt(steps int, f func() bool) (ok bool) {
	limit, used, fail, pos := m.stepCap, m.steps, m.fail, m.failPos
	m.stepCap, m.caseCap = m.steps+steps, 300
	defer func() {
		m.stepCap, m.steps, m.fail, m.failPos, m.caseCap = limit, used, fail, pos, 0
		if e := recover(); e != nil {
			if _, lim := e.(analysisLimit); !lim {
				panic(e)
			}
			ok = false
		}
	}()
	return f()
}
