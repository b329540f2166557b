package main

import (
	"math/big"
	"os"
	"sort"
	"time"
)

// clearDenoms multiplies p by its denominators and returns a polynomial that is zero iff p is
// (given that denominators are non-zero)
func clearDenoms(p *Term) *Term {
	for iter := 0; iter < 50; iter++ {
		if len(p.mons) == 0 {
			return p
		}
		minE := map[*Term]int{}
		invE := map[*Term]int{}
		for _, m := range p.mons {
			for _, f := range m.fs {
				if f.e < 0 && f.e < minE[f.a] {
					minE[f.a] = f.e
				}
				if f.a.kind == KInv && f.e > invE[f.a] {
					invE[f.a] = f.e
				}
			}
		}
		if len(minE) == 0 && len(invE) == 0 {
			return p
		}
		if len(minE) > 0 {
			var fs []Fac
			for a, e := range minE {
				fs = append(fs, Fac{a, -e})
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].a.id < fs[j].a.id })
			ac := newAcc()
			for _, m := range p.mons {
				mulMonInto(ac, m.c, m.fs, fs)
			}
			p = ac.poly()
			continue
		}
		// pick the Inv atom with greatest height/id (outermost first)
		var best *Term
		for a := range invE {
			if best == nil || a.id > best.id {
				best = a
			}
		}
		k := invE[best]
		q := best.args[0]
		parts := make([]*acc, k+1)
		for i := range parts {
			parts[i] = newAcc()
		}
		for _, m := range p.mons {
			e := 0
			fs := make([]Fac, 0, len(m.fs))
			for _, f := range m.fs {
				if f.a == best {
					e = f.e
				} else {
					fs = append(fs, f)
				}
			}
			parts[e].addMon(m.c, fs)
		}
		res := num(0)
		for e, a := range parts {
			pp := a.poly()
			if len(pp.mons) > 0 {
				res = add(res, mul2(pp, ipow(q, k-e)))
			}
		}
		p = res
	}
	return p
}

type proveResult struct {
	ok      bool
	method  string
	dur     time.Duration
	info    string
	model   string
	refuted bool
}

type prover struct {
	deadline time.Time
	splits   int
	usedSMT  map[string]bool
	lastFail string
	refuted  bool
	timeout  time.Duration
	sumsSeen map[*Term]int // by how often normalised
	normed   bool          // under way
}

var debugProve = os.Getenv("GV_DEBUG") != ""

func prove(hyps []*Term, goal *Term, timeout time.Duration) proveResult {
	start := time.Now()
	p := &prover{deadline: start.Add(timeout * 4), usedSMT: map[string]bool{}, timeout: timeout, sumsSeen: map[*Term]int{}}
	nh := make([]*Term, len(hyps))
	for i, h := range hyps {
		nh[i] = renorm(h)
	}
	ok := p.goal(newFacts(nh), renorm(goal), 0)
	m := "ring-normaliser"
	if len(p.usedSMT) > 0 {
		m = ""
		var ks []string
		for k := range p.usedSMT {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			if i > 0 {
				m += "+"
			}
			m += k
		}
	}
	return proveResult{ok: ok, method: m, dur: time.Since(start), info: p.lastFail, refuted: p.refuted}
}

// facts: a simplified set of hypotheses with oriented equalities
type facts struct {
	list   []*Term // simplified literals / formulas
	m      map[*Term]*Term
	orig   []*Term
	false  bool
	shared bool
}

func newFacts(hyps []*Term) *facts {
	f := &facts{m: map[*Term]*Term{}}
	for _, h := range hyps {
		f.add(h)
	}
	return f
}

// clone is copy-on-write
func (f *facts) clone() *facts {
	f.shared = true
	g := *f
	return &g
}

func (f *facts) own() {
	if !f.shared {
		return
	}
	f.list = append(make([]*Term, 0, len(f.list)+4), f.list...)
	f.orig = append(make([]*Term, 0, len(f.orig)+4), f.orig...)
	m := make(map[*Term]*Term, len(f.m)+4)
	for k, v := range f.m {
		m[k] = v
	}
	f.m = m
	f.shared = false
}

func (f *facts) simp(t *Term) *Term {
	for i := 0; i < 6; i++ {
		n := subst(t, f.m)
		if n == t {
			return t
		}
		t = n
	}
	return t
}

func (f *facts) add(h *Term) {
	f.own()
	f.orig = append(f.orig, h)
	queue := []*Term{h}
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		t = f.simp(t)
		switch t.kind {
		case KTrue:
			continue
		case KFalse:
			f.false = true
			f.list = append(f.list, tFalse)
			return
		case KAnd:
			queue = append(queue, t.args...)
			continue
		}
		var key *Term
		var val *Term
		if t.kind == KEqZ {
			key, val = orient(t.args[0])
			if z := zeroSum(t.args[0]); z != nil && z != tTrue {
				queue = append(queue, z)
			}
		} else if t.kind == KEqS {
			a, b := t.args[0], t.args[1]
			if a.kind == KConst || (a.kind == KVar && b.kind == KApp) {
				a, b = b, a
			}
			if (a.kind == KVar || a.kind == KApp) && !hasVar(b, a) {
				key, val = a, b
			}
		}
		if key == nil {
			if t.kind == KNot {
				key, val = t.args[0], tFalse
			} else {
				key, val = t, tTrue
			}
			f.list = append(f.list, t)
			if key.kind == KAnd || key.kind == KForall {
				// no rewriting with compound formulas other than exact ones
				f.m[key] = val
				continue
			}
		} else {
			f.list = append(f.list, t)
		}
		// apply to existing rewriting rules and facts
		one := map[*Term]*Term{key: val}
		for k, v := range f.m {
			nv := subst(v, one)
			if nv != v {
				f.m[k] = nv
			}
		}
		f.m[key] = val
		if isNum(key.sort) || key.sort == SStr || key.sort == SRef {
			old := f.list
			f.list = nil
			for _, o := range old {
				if o == t {
					f.list = append(f.list, o)
					continue
				}
				n := subst(o, one)
				if n != o {
					queue = append(queue, n)
					// drop boolean rewriting for the stale literal is not necessary
				} else {
					f.list = append(f.list, o)
				}
			}
		} else {
			// unit propagation into compound facts
			old := f.list
			f.list = nil
			for _, o := range old {
				if o == t || o.kind == KEqZ || o.kind == KEqS || o.kind == KLtZ || (o.kind == KNot && o.args[0].kind != KAnd) {
					f.list = append(f.list, o)
					continue
				}
				n := subst(o, one)
				if n != o {
					queue = append(queue, n)
				} else {
					f.list = append(f.list, o)
				}
			}
		}
	}
}

// orient p = 0 as atom = rest, preferring fresh variables
func orient(p *Term) (*Term, *Term) {
	var best *Term
	var bestC *big.Rat
	score := -1
	for _, m := range p.mons {
		if len(m.fs) != 1 || m.fs[0].e != 1 {
			continue
		}
		a := m.fs[0].a
		if a.kind != KVar && a.kind != KApp {
			continue
		}
		if p.intp && new(big.Rat).Abs(m.c).Cmp(ratOne) != 0 {
			continue
		}
		if a.sort == SInt && !p.intp {
			continue
		}
		// must not occur elsewhere
		n := 0
		for _, m2 := range p.mons {
			for _, f := range m2.fs {
				if f.a == a || hasVar(f.a, a) {
					n++
				}
			}
		}
		if n != 1 {
			continue
		}
		s := a.id
		if a.kind == KVar {
			s += 1 << 30
		}
		if s > score {
			score, best, bestC = s, a, m.c
		}
	}
	if best == nil {
		return nil, nil
	}
	rest := sub(p, scale(wrap(best), bestC))
	return best, scale(rest, new(big.Rat).Neg(new(big.Rat).Inv(bestC)))
}

func (p *prover) goal(f *facts, g *Term, depth int) bool {
	if f.false {
		return true
	}
	if time.Now().After(p.deadline) {
		p.lastFail = "timeout"
		return false
	}
	g = f.simp(g)
	switch g.kind {
	case KTrue:
		return true
	case KAnd:
		for _, a := range g.args {
			if !p.goal(f, a, depth) {
				return false
			}
		}
		return true
	case KForall:
		v := freshVar("sk", g.bsort)
		return p.goal(instAll(f, []*Term{v}), openForall(g, v), depth)
	case KNot:
		if g.args[0].kind == KAnd {
			// disjunction of negations
			var main *Term
			f2 := f.clone()
			for _, a := range g.args[0].args {
				d := not(a)
				if main == nil && (d.kind == KEqZ || d.kind == KForall || d.kind == KAnd) {
					main = d
				} else {
					f2.add(a)
				}
			}
			if main == nil {
				return p.goal(f2, tFalse, depth)
			}
			return p.goal(f2, main, depth)
		}
	case KEqZ:
		if p.zero(f, g.args[0], depth) {
			return true
		}
		if f2 := instAll(f, indexTerms(g)); len(f2.list) != len(f.list) {
			if p.zero(f2, g.args[0], depth) {
				return true
			}
			f = f2
		}
		return p.smt(f, g)
	}
	return p.smt(f, g)
}

// indexTerms are the free integer terms used as arguments in g
func indexTerms(g *Term) []*Term {
	seen := map[*Term]bool{}
	in := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == KPoly {
			for _, m := range t.mons {
				for _, f := range m.fs {
					rec(f.a)
				}
			}
			return
		}
		for _, a := range t.args {
			if t.kind == KApp && a.kind == KPoly && a.intp && !in[a] && !hasBoundVar(a) {
				if _, c := isConstInt(a); !c {
					in[a] = true
					out = append(out, a)
				}
			}
			rec(a)
		}
	}
	rec(g)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

func hasBoundVar(t *Term) bool {
	if t.kind == KVar {
		return t.name[0] == '#'
	}
	if t.kind == KPoly {
		for _, m := range t.mons {
			for _, f := range m.fs {
				if hasBoundVar(f.a) {
					return true
				}
			}
		}
		return false
	}
	for _, a := range t.args {
		if hasBoundVar(a) {
			return true
		}
	}
	return false
}

// instAll adds instances of universally quantified facts at the given terms
func instAll(f *facts, at []*Term) *facts {
	f2 := f.clone()
	for _, h := range f.list {
		if h.kind != KForall {
			continue
		}
		for _, t := range at {
			if h.bsort == t.sort || (isNum(h.bsort) && t.kind == KPoly && ((h.bsort == SInt) == t.intp)) {
				in := openForall(h, t)
				f2.add(in)
			}
		}
	}
	return f2
}

func topInds(q *Term) []*Term {
	cnt := map[*Term]int{}
	for _, m := range q.mons {
		for _, fa := range m.fs {
			if fa.a.kind == KInd {
				cnt[fa.a.args[0]]++
			}
		}
	}
	var out []*Term
	for b := range cnt {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool {
		if cnt[out[i]] != cnt[out[j]] {
			return cnt[out[i]] > cnt[out[j]]
		}
		return out[i].id < out[j].id
	})
	return out
}

// nested indicators within arguments of atoms (not below binders)
func nestedInds(q *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == KInd {
			out = append(out, t.args[0])
		}
		if t.kind == KIte {
			out = append(out, t.args[0])
		}
		if t.kind == KSum || t.kind == KForall {
			return
		}
		if t.kind == KPoly {
			for _, m := range t.mons {
				for _, f := range m.fs {
					rec(f.a)
				}
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(q)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// zero proves q = 0 by normalisation, case splits and pointwise sums
func (p *prover) zero(f *facts, q *Term, depth int) bool {
	if f.false {
		return true
	}
	q = wrap(f.simp(q))
	if c, ok := isConst(q); ok {
		if c.Sign() == 0 {
			return true
		}
	}
	if n := clearDenoms(q); len(n.mons) == 0 {
		return true
	}
	if time.Now().After(p.deadline) {
		return false
	}
	inds := topInds(q)
	if len(inds) == 0 {
		inds = nestedInds(q)
	}
	if len(inds) > 0 && depth < 14 {
		p.splits++
		if p.splits > 3000 {
			return false
		}
		b := inds[0]
		f1 := f.clone()
		f1.add(b)
		f2 := f.clone()
		f2.add(not(b))
		return p.zeroLeafOr(f1, q, depth+1) && p.zeroLeafOr(f2, q, depth+1)
	}
	if linSpan(f, q) {
		return true
	}
	if q2, f2, ok := p.normSums(f, q); ok {
		return p.zero(f2, q2, depth+1)
	}
	if p.pointwise(f, q, depth) {
		return true
	}
	return false
}

// linSpan tells whether q is a combination of equations among the facts, with multipliers built
// from the generators of q that have rewriting rules (like sines and cosines)
func linSpan(f *facts, q *Term) bool {
	q = clearDenoms(q)
	atoms := map[*Term]bool{}
	mult := map[*Term]bool{}
	for _, m := range q.mons {
		for _, fa := range m.fs {
			atoms[fa.a] = true
			if fa.a.kind == KApp && (fa.a.name == "cos" || fa.a.name == "sin") {
				mult[fa.a] = true
			}
		}
	}
	ms := []*Term{num(1)}
	var ks []*Term
	for a := range mult {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) > 4 {
		ks = ks[:4]
	}
	for _, a := range ks {
		ms = append(ms, wrap(a))
	}
	for i, a := range ks {
		for _, b := range ks[i:] {
			ms = append(ms, mul2(wrap(a), wrap(b)))
		}
	}
	var gens []*Term
	for _, h := range f.list {
		if h.kind != KEqZ || !h.args[0].isReal() {
			continue
		}
		hp := clearDenoms(h.args[0])
		shared := false
		for _, m := range hp.mons {
			for _, fa := range m.fs {
				if atoms[fa.a] && !mult[fa.a] {
					shared = true
				}
			}
		}
		if !shared {
			continue
		}
		for _, m := range ms {
			gens = append(gens, mul2(hp, m))
		}
		if len(gens) > 150 {
			break
		}
	}
	if len(gens) == 0 {
		return false
	}
	// Gaussian elimination over the monomials
	type row map[string]*big.Rat
	toRow := func(t *Term) row {
		r := row{}
		for _, m := range t.mons {
			r[monKey(m.fs)] = new(big.Rat).Set(m.c)
		}
		return r
	}
	type piv struct {
		k string
		r row
	}
	var pivots []piv
	reduce := func(r row) {
		for _, p := range pivots {
			c := r[p.k]
			if c == nil {
				continue
			}
			fct := new(big.Rat).Set(c)
			for k, v := range p.r {
				n := new(big.Rat).Mul(v, fct)
				if o := r[k]; o != nil {
					n.Sub(o, n)
				} else {
					n.Neg(n)
				}
				if n.Sign() == 0 {
					delete(r, k)
				} else {
					r[k] = n
				}
			}
		}
	}
	for _, g := range gens {
		r := toRow(g)
		reduce(r)
		if len(r) == 0 {
			continue
		}
		best := ""
		for k := range r {
			if best == "" || k < best {
				best = k
			}
		}
		iv := new(big.Rat).Inv(r[best])
		for k := range r {
			r[k] = new(big.Rat).Mul(r[k], iv)
		}
		pivots = append(pivots, piv{best, r})
	}
	r := toRow(q)
	reduce(r)
	return len(r) == 0
}

func (t *Term) isReal() bool { return t.kind == KPoly }

func (p *prover) zeroLeafOr(f *facts, q *Term, depth int) bool {
	if p.zero(f, q, depth) {
		return true
	}
	q2 := wrap(f.simp(q))
	if len(topInds(q2)) > 0 {
		return false // a deeper leaf has failed already
	}
	return p.smt(f, eqz(q2))
}

func (p *prover) pointwise(f *facts, q *Term, depth int) bool {
	groups := map[*Term][]Mon{}
	for _, m := range q.mons {
		var s *Term
		n := 0
		for _, fa := range m.fs {
			if fa.a.kind == KSum {
				s = fa.a
				n += fa.e
			}
		}
		if n != 1 {
			return false
		}
		groups[s.args[0]] = append(groups[s.args[0]], m)
	}
	if depth > 10 {
		return false
	}
	for n, ms := range groups {
		x := freshVar("pt", SInt)
		body := num(0)
		for _, m := range ms {
			t := numR(m.c)
			for _, fa := range m.fs {
				if fa.a.kind == KSum {
					t = mul2(t, openSum(fa.a, x))
				} else {
					t = mul2(t, polyFromMons([]Mon{{ratOne, []Fac{fa}}}))
				}
			}
			body = add(body, t)
		}
		f2 := f.clone()
		inRange(f2, x, n, body)
		f2 = instAll(f2, indexTermsIn(body, asAtom(x)))
		if !p.zeroLeafOr(f2, body, depth+1) {
			return false
		}
	}
	return true
}

func (p *prover) smt(f *facts, g *Term) bool {
	if f.false {
		return true
	}
	remaining := time.Until(p.deadline)
	if remaining < 100*time.Millisecond {
		p.lastFail = "timeout"
		return false
	}
	to := p.timeout
	if to > remaining {
		to = remaining
	}
	asserts := append([]*Term{}, f.list...)
	asserts = append(asserts, not(g))
	// quick attempt with the quantifier-free part
	r := smtCheck(asserts, min(to, 1500*time.Millisecond), "z3")
	if r.status != "unsat" && r.status != "sat" {
		r = smtCheck(asserts, to, "z3", "z3-new", "cvc5")
	}
	if debugProve && r.status != "unsat" {
		println("SMT", r.status, "goal:", g.String())
		for _, a := range f.list {
			println("   hyp:", a.String())
		}
	}
	if r.status == "unsat" {
		p.usedSMT[r.solver] = true
		return true
	}
	p.lastFail = r.solver + " answered " + r.status + " for goal " + clip(g.String(), 600)
	if r.status == "sat" {
		p.refuted = true
	}
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
