package main

import (
	"math/big"
	"sort"
	"time"
)

// Sums in the light of facts: conditions in the body that the facts decide, ranges that a condition
// cuts off, and a common offset of the summation index.

// order are the facts about integers that decide ranges
func (f *facts) order() []*Term {
	var r []*Term
	for _, h := range f.list {
		c := h
		if c.kind == KNot {
			c = c.args[0]
		}
		if c.kind != KLtZ && c.kind != KEqZ || !c.args[0].intp || len(c.args[0].mons) > 6 || hasBinder(c) {
			continue
		}
		r = append(r, h)
	}
	return r
}

func hasBinder(t *Term) bool {
	return findApp(t, func(u *Term) bool { return u.kind == KSum || u.kind == KForall })
}

func (p *prover) entails(f *facts, g *Term) bool {
	g = f.simp(g)
	if g == tTrue || f.false {
		return true
	}
	if g == tFalse || hasBinder(g) || time.Now().After(p.deadline) {
		return false
	}
	return smtCheck(append(f.order(), not(g)), 500*time.Millisecond, "z3").status == "unsat"
}

// inRange adds what is known about a number in [0,n)
func inRange(f *facts, x, n, body *Term) {
	f.add(le(num(0), x))
	f.add(lt(x, n))
	findApp(body, func(t *Term) bool {
		if t.kind == KApp && len(t.args) == 1 && wrap(t.args[0]) == wrap(x) {
			if b, ok := bijections[t.name]; ok && wrap(b.n) == wrap(n) {
				f.add(le(num(0), wrap(t)))
				f.add(lt(wrap(t), n))
			}
		}
		return false
	})
}

// sums normalises the sums in a polynomial
func (p *prover) sums(f *facts, q *Term, depth int) *Term {
	if q.kind != KPoly || depth > 3 {
		return q
	}
	m := map[*Term]*Term{}
	for _, mo := range q.mons {
		for _, fa := range mo.fs {
			if fa.a.kind == KSum && m[fa.a] == nil {
				if s := p.sum(f, fa.a, depth); s != wrap(fa.a) {
					m[fa.a] = s
				}
			}
		}
	}
	if len(m) == 0 {
		return q
	}
	return wrap(subst(q, m))
}

// normSums normalises the sums in q and in the equations among the facts
func (p *prover) normSums(f *facts, q *Term) (*Term, *facts, bool) {
	any := false
	for _, mo := range q.mons {
		for _, fa := range mo.fs {
			any = any || fa.a.kind == KSum
		}
	}
	if !any || p.normed {
		return nil, nil, false
	}
	p.normed = true
	defer func() { p.normed = false }()
	q2 := p.sums(f, q, 0)
	changed := q2 != q
	f2 := f.clone()
	for _, h := range f.list {
		if h.kind == KEqZ && hasBinder(h) {
			if h2 := eqz(p.sums(f, h.args[0], 0)); h2 != h {
				f2.add(h2)
				changed = true
			}
		}
	}
	if !changed || p.sumsSeen[q2] > 20 || q2 == q && p.sumsSeen[q] > 0 && len(f2.list) == len(f.list) {
		return nil, nil, false
	}
	p.sumsSeen[q2]++
	return q2, f2, true
}

func (p *prover) sum(f *facts, s *Term, depth int) *Term {
	n := s.args[0]
	x := freshVar("sx", SInt)
	body := wrap(openSum(s, x))
	f2 := f.clone()
	inRange(f2, x, n, body)
	body = p.sums(f2, body, depth+1)
	xa := asAtom(x)
	m := map[*Term]*Term{}
	findApp(body, func(t *Term) bool {
		if (t.kind == KLtZ || t.kind == KEqZ) && t.args[0].kind == KPoly && t.args[0].intp && hasVar(t, xa) && m[t] == nil && !hasBoundVar(t) {
			if t.kind == KLtZ && p.entails(f2, t) {
				m[t] = tTrue
			} else if p.entails(f2, not(t)) {
				m[t] = tFalse
			}
		}
		return false
	})
	body = wrap(subst(body, m))
	r := newAcc()
	for _, mo := range body.mons {
		r.addPoly(p.sumOf(f, n, xa, mo), ratOne)
	}
	return r.poly()
}

// sumOf is the sum over x in [0,n) of one monomial
func (p *prover) sumOf(f *facts, n, x *Term, mo Mon) *Term {
	for i, fa := range mo.fs {
		if fa.a.kind != KInd || fa.a.args[0].kind != KLtZ {
			continue
		}
		c, rest, ok := linCoef(wrap(fa.a.args[0].args[0]), x)
		if !ok || !rest.intp || new(big.Rat).Abs(c).Cmp(ratOne) != 0 {
			continue
		}
		others := append(append([]Fac{}, mo.fs[:i]...), mo.fs[i+1:]...)
		g := Mon{mo.c, others}
		if c.Sign() > 0 { // x < -rest
			m := scale(rest, big.NewRat(-1, 1))
			if p.entails(f, and(le(num(0), m), le(m, n))) {
				return p.sumOf(f, m, x, g)
			}
		} else { // rest < x
			m := add(rest, num(1))
			if p.entails(f, and(le(num(0), m), le(m, n))) {
				return sub(p.sumOf(f, n, x, g), p.sumOf(f, m, x, g))
			}
		}
	}
	g := polyFromMons([]Mon{mo})
	f2 := f.clone()
	inRange(f2, wrap(x), n, g)
	if wrap(instAll(f2, indexTermsIn(g, x)).simp(g)) == num(0) {
		return num(0)
	}
	off := offsetOf(g, x)
	if off == nil {
		return sumRange(num(0), n, x, g)
	}
	g = wrap(subst(g, map[*Term]*Term{x: sub(wrap(x), off)}))
	return sub(sumRange(num(0), add(n, off), x, g), sumRange(num(0), off, x, g))
}

// offsetOf is what is added to x in the first symbol x occurs in, unless it is a number
func offsetOf(g, x *Term) *Term {
	type occ struct {
		name string
		arg  int
		rest *Term
	}
	var all []occ
	findApp(g, func(t *Term) bool {
		if t.kind == KApp {
			for i, a := range t.args {
				if isNum(a.sort) {
					if c, rest, ok := linCoef(wrap(a), x); ok && c.Cmp(ratOne) == 0 && rest.intp {
						if t.name[:min(4, len(t.name))] == "sym:" {
							i = 0 // in any order
						}
						all = append(all, occ{t.name, i, rest})
					}
				}
			}
		}
		return false
	})
	if len(all) == 0 {
		return nil
	}
	sort.SliceStable(all, func(i, j int) bool {
		a, b := all[i], all[j]
		if a.name != b.name {
			return a.name < b.name
		}
		if a.arg != b.arg {
			return a.arg < b.arg
		}
		return a.rest.id < b.rest.id
	})
	if _, c := isConst(all[0].rest); c || hasBoundVar(all[0].rest) {
		return nil
	}
	return all[0].rest
}

// indexTermsIn are the index terms of g that depend on x
func indexTermsIn(g, x *Term) []*Term {
	at := []*Term{wrap(x)}
	for _, t := range indexTerms(g) {
		if t != wrap(x) && hasVar(t, x) {
			at = append(at, t)
		}
	}
	return at
}

// zeroSum: if p is a sum of terms that can't be negative and p = 0, all of them are zero
func zeroSum(p *Term) *Term {
	if p.kind != KPoly {
		return nil
	}
	groups := map[*Term][]Mon{}
	for _, m := range p.mons {
		if len(m.fs) != 1 || m.fs[0].e != 1 || m.fs[0].a.kind != KSum {
			return nil
		}
		n := m.fs[0].a.args[0]
		groups[n] = append(groups[n], m)
	}
	var all []*Term
	for n, ms := range groups {
		x := freshVar("z", SInt)
		body := num(0)
		for _, m := range ms {
			body = add(body, scale(openSum(m.fs[0].a, x), m.c))
		}
		var inds []*Term
		idx := map[*Term]int{}
		if body.kind != KPoly {
			return nil
		}
		for _, m := range body.mons {
			for _, fa := range m.fs {
				if fa.a.kind != KInd {
					return nil
				}
				if _, ok := idx[fa.a]; !ok {
					idx[fa.a] = len(inds)
					inds = append(inds, fa.a)
				}
			}
		}
		if len(inds) == 0 || len(inds) > 5 {
			return nil
		}
		for bits := 0; bits < 1<<len(inds); bits++ {
			v := new(big.Rat)
			for _, m := range body.mons {
				on := true
				for _, fa := range m.fs {
					on = on && bits>>idx[fa.a]&1 == 1
				}
				if on {
					v.Add(v, m.c)
				}
			}
			if v.Sign() < 0 {
				return nil
			}
			if v.Sign() > 0 {
				var lits []*Term
				for i, a := range inds {
					if bits>>i&1 == 1 {
						lits = append(lits, a.args[0])
					} else {
						lits = append(lits, not(a.args[0]))
					}
				}
				all = append(all, forallIn(x, num(0), n, not(and(lits...))))
			}
		}
	}
	return and(all...)
}
