package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Comparison of an operation with its reference function.
// ---------------------------------------------------------------------------

const (
	sound    = 1 // whenever the code says yes, the reference does
	complete = 2 // whenever the reference says yes, the code does
	both     = sound | complete
)

func (e *Env) newInterp(pkg string) *Interp {
	setRegistries(pkg)
	in := NewInterp(e.w)
	in.memo = e.w.auxTables(pkg)
	in.cut["github.com/oarkflow/permission/utils.MatchResource"] = true
	in.useLedger(pkg)
	in.cleanPools = pkg == "v1"
	return in
}

// decision compares a boolean operation with its reference function.
func (e *Env) decision(code, spec string, mode int) {
	if !e.job(code + " against " + spec) {
		return
	}
	e.guard(code+" against "+spec, func() {
		cf, sf := e.entry(code), e.w.fn(spec)
		if cf == nil {
			return
		}
		if sf == nil {
			panic(analysisLimit("reference function " + spec + " not found"))
		}
		in := e.newInterp(strings.SplitN(code, ".", 2)[0])
		if e.reader != "" {
			in.memo = e.w.unfilled(in.memo, e.reader)
		}
		rc := in.Run(cf)
		nf := len(in.evaluated)
		in.side = 1
		rs := in.Run(sf)
		in.side = 0
		e.count("functions_evaluated", nf)
		c := NewClauser(in)
		cc := c.Expand(in.asBDD(rc.ret))
		c.side = 1
		sc := c.Expand(in.asBDD(rs.ret))
		c.side = 0
		e.count("ways_to_yes_code", len(cc))
		e.count("ways_to_yes_reference", len(sc))
		e.compareClauses(c, cc, sc, mode, code, spec)
	})
}

func (e *Env) compareClauses(c *Clauser, cc, sc []*Clause, mode int, code, what string) {
	m := NewMatcher(c)
	cc, sc = m.condense(cc), m.condense(sc)
	if mode&sound != 0 {
		for _, cl := range cc {
			m.fail, m.failPos = "", 0
			good := m.covered(cl, sc)
			e.ok(good)
			if !good {
				e.bad("allows-too-much", code+" / "+what, "%s says yes in a case in which the property says no:\n    case: %s\n    why: %s\n    where: %s", code, c.show(m.fail), c.show(c.str(cl)), c.origin(cl))
			} else {
				e.sample("%s yes-case covered by the reference: %s", code, c.show(c.str(cl)))
			}
		}
	}
	if mode&complete != 0 {
		for _, cl := range sc {
			m.fail, m.failPos = "", 0
			good := m.covered(cl, cc)
			e.ok(good)
			if !good {
				e.bad("denies-too-much", code+" / "+what, "%s says no (or may say no) in a case in which the property says yes:\n    case: %s\n    reference: %s", code, c.show(m.fail), c.show(c.str(cl)))
			}
		}
	}
	e.count("entailments", m.oblig)
	e.count("candidate_matches", m.thetasN)
}

// relation: what the i-th result of an operation contains, as clauses with the heads key
// and value ("none" when there is none), and when it contains it.
func (c *Clauser) relation(r *Result, i int) []*Clause {
	v := r.ret
	if v.K == KTuple {
		v = v.A[i]
	} else if v.K == KChoice {
		v = c.in.mapChoice(v, func(t *Term) *Term {
			if t.K == KTuple {
				return t.A[i]
			}
			return t
		})
	}
	return c.contents(c.in.content(r.st, v))
}

func (c *Clauser) contents(x *Term) []*Clause {
	none := c.s.App("none")
	var out []*Clause
	for _, d := range c.derivs(x, nil) {
		k, v := d.key, d.val
		if k == nil {
			k = none
		}
		if v == nil {
			v = none
		}
		w := (&work{f: d.g, head: []*Term{k, v}}).add(d)
		c.expand(w, 0, func(cl *Clause) { out = append(out, cl) })
	}
	return c.minimise(c.dedupe(out), 0)
}

// show makes clause text readable in a report.
func (c *Clauser) show(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, "cut:utils.", "")
	return trunc(s, 1500)
}

// origin lists the loops and recursions a clause came through.
func (c *Clauser) origin(cl *Clause) string {
	seen := map[int]bool{}
	var out []string
	c.s.contains(c.s.Bool(cl.f), func(t *Term) bool {
		if r := regionOf(t); r > 0 && !seen[r] {
			seen[r] = true
			out = append(out, fmt.Sprintf("%s of %s at %s", c.s.regions[r].kind, strings.ReplaceAll(c.s.regions[r].fn, modPath, ""), c.in.w.pos(c.s.regions[r].pos)))
		}
		return false
	})
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "; ")
}

// useLedger lets rows of the trie be written to the ledger of the reference functions: a
// list of the rows written, in place of the trie's nodes.
func (in *Interp) useLedger(pkg string) {
	if to := in.w.fn(pkg + ".zzInsert"); to != nil {
		in.redirect = map[string]*ssa.Function{"(*github.com/oarkflow/permission/trie.Trie[T]).Insert": to}
	}
}
