package main

import "strings"

// ---------------------------------------------------------------------------
// Where a closure starts: a traversal that starts from several things at once reaches what
// the traversals from each of them reach.
// ---------------------------------------------------------------------------

const originMark = "@from"

// covered: some goal holds whenever the clause does.
func (m *Matcher) covered(cl *Clause, goals []*Clause) bool {
	if m.entails(m.newCtx(cl), goals, nil) {
		return true
	}
	return m.coveredSplit(cl, goals, 2)
}

func (m *Matcher) coveredSplit(cl *Clause, goals []*Clause, depth int) bool {
	if depth == 0 {
		return false
	}
	fail, pos := m.fail, m.failPos
	var vars []*Term
	seen := map[*Term]bool{}
	m.vars(m.s.Bool(cl.f), func(t *Term) {
		if m.c.isVar(t) && !seen[t] {
			seen[t] = true
			vars = append(vars, t)
		}
	})
	for _, v := range vars {
		parts := m.origins(cl, v)
		if len(parts) == 0 {
			continue
		}
		all := true
		for _, p := range parts {
			if m.refuted(p.f) {
				continue
			}
			if !m.entails(m.newCtx(p), goals, nil) && !m.coveredSplit(p, goals, depth-1) {
				all = false
				break
			}
		}
		if all {
			m.fail, m.failPos = "", 0
			return true
		}
	}
	m.fail, m.failPos = fail, pos
	return false
}

// origins replaces a closure variable of a clause by one that says where it started, in every
// way in which it may start.
func (m *Matcher) origins(cl *Clause, v *Term) []*Clause {
	s := m.s
	if strings.HasSuffix(v.S, originMark) {
		return nil
	}
	self := func(t *Term) bool { return t.K == KMV && t.I == v.I && t.S == v.S && sameTerms(t.A, v.A) }
	other := func(t *Term) bool { return t.K == KMV && t.I == v.I && m.c.isVar(t) && !self(t) }
	var starts []*Clause
	useful := false
	for _, d := range m.c.defs(v) {
		n := map[*Term]bool{}
		bad := false
		look := func(t *Term) {
			s.contains(t, func(x *Term) bool {
				if self(x) {
					n[x] = true
				}
				bad = bad || other(x)
				return false
			})
		}
		look(s.Bool(d.f))
		for _, h := range d.head {
			look(h)
		}
		for _, k := range append(append([]*Neg{}, d.negs...), d.order...) {
			for _, kc := range k.cs {
				look(s.Bool(kc.f))
			}
		}
		switch {
		case bad || len(d.head) != 1 || len(n) > 1:
			return nil
		case len(n) == 0:
			starts = append(starts, d)
			m.vars(d.head[0], func(t *Term) { useful = true })
		}
	}
	if len(starts) == 0 || !useful && len(starts) < 2 {
		return nil
	}
	var out []*Clause
	for _, d := range starts {
		from := d.head[0]
		if m.s.contains(from, func(t *Term) bool { return t == v }) {
			return nil
		}
		w := s.mk(KMV, v.S+originMark, v.I, v.N, append(append([]*Term{}, v.A...), from), nil)
		key, key2 := closureKey(v), closureKey(w)
		if ty := mvTypes[key]; ty != "" {
			mvTypes[key2] = ty
		}
		one := s.newSubst(func(t *Term) *Term {
			if t == v {
				return w
			}
			return nil
		})
		p := substClause(one, cl)
		p.f = s.bdd.And(p.f, d.f)
		p.negs = append(append([]*Neg{}, p.negs...), d.negs...)
		p.order = append(append([]*Neg{}, p.order...), d.order...)
		for _, fl := range d.flaws {
			p.flaws = addFlaw(p.flaws, fl)
		}
		out = append(out, p)
	}
	return out
}

// originDefs: a closure variable that says where it started is that, or one step from
// another one that started there.
func (c *Clauser) originDefs(w *Term) []*Clause {
	s := c.s
	n := len(w.A) - 1
	name, at, from := strings.TrimSuffix(w.S, originMark), w.A[:n], w.A[n]
	self := func(t *Term) bool { return t.K == KMV && t.I == w.I && t.S == name && sameTerms(t.A, at) }
	named := s.newSubst(func(t *Term) *Term {
		if self(t) {
			return s.mk(KMV, w.S, w.I, t.N, w.A, nil)
		}
		return nil
	})
	out := []*Clause{{f: bddTrue, head: []*Term{from}}}
	for _, d := range c.defs(s.mk(KMV, name, w.I, w.N, at, nil)) {
		step := s.contains(s.Bool(d.f), self)
		for _, h := range d.head {
			step = step || s.contains(h, self)
		}
		for _, k := range append(append([]*Neg{}, d.negs...), d.order...) {
			for _, kc := range k.cs {
				step = step || s.contains(s.Bool(kc.f), self)
			}
		}
		if step {
			out = append(out, substClause(named, d))
		} else {
			out[0].side = d.side
		}
	}
	c.cvMemo[w] = out
	return out
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
