package main

import (
	"fmt"
	"math/big"
	"slices"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed. Numeric terms (reals and ints) are polynomials in canonical form over
// atoms; boolean terms are built from canonical literals with not/and.

type Sort uint8

const (
	SReal Sort = iota
	SInt
	SBool
	SStr
	SRef
)

func (s Sort) String() string { return [...]string{"Real", "Int", "Bool", "Str", "Ref"}[s] }

type Kind uint8

const (
	KPoly Kind = iota
	KVar
	KApp
	KInd
	KSqrt
	KInv
	KPow
	KSum
	KConst // string/ref constants
	KTrue
	KFalse
	KNot
	KAnd
	KEqZ
	KLtZ
	KEqS
	KForall // bound var named by name, args[0] body; sort of the bound var in bsort
	KIte    // non-numeric ite
)

type Fac struct {
	a *Term
	e int
}

type Mon struct {
	c  *big.Rat
	fs []Fac
}

type Term struct {
	id     int
	kind   Kind
	sort   Sort
	bsort  Sort
	name   string
	args   []*Term
	mons   []Mon
	height int
	intp   bool // numeric and integer-valued
	vars   map[*Term]bool
}

var interned = map[string]*Term{}
var nextID = 1

func intern(key string, mk func() *Term) *Term {
	if t, ok := interned[key]; ok {
		return t
	}
	t := mk()
	t.id = nextID
	nextID++
	interned[key] = t
	return t
}

func argKey(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	return b.String()
}

func mkNode(kind Kind, srt Sort, name string, bsort Sort, args ...*Term) *Term {
	key := fmt.Sprintf("%d|%d|%d|%s|%s", kind, srt, bsort, name, argKey(args))
	return intern(key, func() *Term {
		h := 0
		for _, a := range args {
			h = max(h, a.height)
		}
		if kind == KSum || kind == KForall {
			h++
		}
		return &Term{kind: kind, sort: srt, name: name, bsort: bsort, args: append([]*Term{}, args...), height: h}
	})
}

var tTrue = mkNode(KTrue, SBool, "", 0)
var tFalse = mkNode(KFalse, SBool, "", 0)

func isNum(s Sort) bool { return s == SReal || s == SInt }

func wrap(a *Term) *Term { // numeric atom to poly
	if a.kind == KPoly || !isNum(a.sort) {
		return a
	}
	return polyFromMons([]Mon{{c: ratOne, fs: []Fac{{a, 1}}}})
}

var ratOne = big.NewRat(1, 1)
var ratZero = new(big.Rat)

func monKey(fs []Fac) string {
	var b strings.Builder
	for _, f := range fs {
		b.WriteString(strconv.Itoa(f.a.id))
		if f.e != 1 {
			b.WriteByte('^')
			b.WriteString(strconv.Itoa(f.e))
		}
		b.WriteByte('.')
	}
	return b.String()
}

func lessFacs(x, y []Fac) bool {
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i].a.id != y[i].a.id {
			return x[i].a.id < y[i].a.id
		}
		if x[i].e != y[i].e {
			return x[i].e < y[i].e
		}
	}
	return len(x) < len(y)
}

// polyFromMons expects canonical, distinct, non-zero monomials
func polyFromMons(ms []Mon) *Term {
	sort.Slice(ms, func(i, j int) bool { return lessFacs(ms[i].fs, ms[j].fs) })
	var b strings.Builder
	b.WriteString("P")
	for _, m := range ms {
		b.WriteString(m.c.RatString())
		b.WriteByte('*')
		b.WriteString(monKey(m.fs))
		b.WriteByte('+')
	}
	return intern(b.String(), func() *Term {
		h := 0
		ip := true
		for _, m := range ms {
			if !m.c.IsInt() {
				ip = false
			}
			for _, f := range m.fs {
				h = max(h, f.a.height)
				if f.a.sort != SInt || f.e < 0 {
					ip = false
				}
			}
		}
		srt := SReal
		if ip {
			srt = SInt
		}
		return &Term{kind: KPoly, sort: srt, mons: ms, height: h, intp: ip}
	})
}

type acc struct{ m map[string]*Mon }

func newAcc() *acc { return &acc{map[string]*Mon{}} }
func (a *acc) addMon(c *big.Rat, fs []Fac) {
	k := monKey(fs)
	if m, ok := a.m[k]; ok {
		m.c = new(big.Rat).Add(m.c, c)
		return
	}
	a.m[k] = &Mon{new(big.Rat).Set(c), fs}
}
func (a *acc) addPoly(p *Term, c *big.Rat) {
	for _, m := range p.mons {
		a.addMon(new(big.Rat).Mul(m.c, c), m.fs)
	}
}
func (a *acc) poly() *Term {
	ms := make([]Mon, 0, len(a.m))
	for _, m := range a.m {
		if m.c.Sign() != 0 {
			ms = append(ms, *m)
		}
	}
	return polyFromMons(ms)
}

func numR(r *big.Rat) *Term {
	if r.Sign() == 0 {
		return polyFromMons(nil)
	}
	return polyFromMons([]Mon{{r, nil}})
}
func num(i int64) *Term { return numR(big.NewRat(i, 1)) }

func isConst(t *Term) (*big.Rat, bool) {
	if t.kind != KPoly {
		return nil, false
	}
	if len(t.mons) == 0 {
		return ratZero, true
	}
	if len(t.mons) == 1 && len(t.mons[0].fs) == 0 {
		return t.mons[0].c, true
	}
	return nil, false
}
func isConstInt(t *Term) (int, bool) {
	r, ok := isConst(t)
	if !ok || !r.IsInt() || !r.Num().IsInt64() {
		return 0, false
	}
	return int(r.Num().Int64()), true
}

// asAtom returns the atom if the poly is exactly one atom
func asAtom(t *Term) *Term {
	if t.kind == KPoly {
		if len(t.mons) == 1 && t.mons[0].c.Cmp(ratOne) == 0 && len(t.mons[0].fs) == 1 && t.mons[0].fs[0].e == 1 {
			return t.mons[0].fs[0].a
		}
		return nil
	}
	return t
}

func add(ts ...*Term) *Term {
	a := newAcc()
	for _, t := range ts {
		a.addPoly(wrap(t), ratOne)
	}
	return a.poly()
}
func scale(t *Term, r *big.Rat) *Term {
	a := newAcc()
	a.addPoly(wrap(t), r)
	return a.poly()
}
func neg(t *Term) *Term { return scale(t, big.NewRat(-1, 1)) }
func sub(x, y *Term) *Term {
	a := newAcc()
	a.addPoly(wrap(x), ratOne)
	a.addPoly(wrap(y), big.NewRat(-1, 1))
	return a.poly()
}

func mergeFacs(x, y []Fac) []Fac {
	r := make([]Fac, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case j >= len(y) || (i < len(x) && x[i].a.id < y[j].a.id):
			r = append(r, x[i])
			i++
		case i >= len(x) || y[j].a.id < x[i].a.id:
			r = append(r, y[j])
			j++
		default:
			e := x[i].e + y[j].e
			if x[i].a.kind == KInd {
				e = 1
			}
			if e != 0 {
				r = append(r, Fac{x[i].a, e})
			}
			i++
			j++
		}
	}
	return r
}

// exclusive reports whether two positive bool literals can't hold both (syntactically)
func exclusive(a, b *Term) bool {
	if a.kind == KEqZ && b.kind == KEqZ {
		d := sub(a.args[0], b.args[0])
		if c, ok := isConst(d); ok && c.Sign() != 0 {
			return true
		}
		d = add(a.args[0], b.args[0])
		if c, ok := isConst(d); ok && c.Sign() != 0 {
			return true
		}
	}
	if a.kind == KEqS && b.kind == KEqS {
		for _, p := range [][4]*Term{
			{a.args[0], a.args[1], b.args[0], b.args[1]}, {a.args[1], a.args[0], b.args[0], b.args[1]},
			{a.args[0], a.args[1], b.args[1], b.args[0]}, {a.args[1], a.args[0], b.args[1], b.args[0]}} {
			if p[0] == p[2] && p[1].kind == KConst && p[3].kind == KConst && p[1] != p[3] {
				return true
			}
		}
	}
	return false
}

// mulMonInto multiplies two monomials, which can result in a poly (sqrt reduction), into a
func mulMonInto(a *acc, c *big.Rat, x, y []Fac) {
	fs := mergeFacs(x, y)
	normMonInto(a, c, fs)
}

func normMonInto(a *acc, c *big.Rat, fs []Fac) {
	nInd := 0
	sq := -1
	for i, f := range fs {
		if f.a.kind == KInv && f.e < 0 {
			rest := append(append([]Fac{}, fs[:i]...), fs[i+1:]...)
			p := ipow(f.a.args[0], -f.e)
			for _, m := range p.mons {
				mulMonInto(a, new(big.Rat).Mul(c, m.c), rest, m.fs)
			}
			return
		}
		if f.a.kind == KInd {
			nInd++
		}
		if f.a.kind == KPow && f.e == 1 {
			// x^a * x^(e-c) = x^(a-c) * x^e for a > c, also when x is zero
			if k := constPart(f.a.args[1]); k.IsInt() && k.Sign() < 0 && k.Num().IsInt64() {
				b, n := asAtom(f.a.args[0]), -int(k.Num().Int64())
				for j, g := range fs {
					if b == nil || g.a != b || g.e <= n {
						continue
					}
					rest := append([]Fac{}, fs...)
					rest[j].e -= n
					rest = append(rest[:i:i], rest[i+1:]...)
					p := powT(f.a.args[0], add(f.a.args[1], num(int64(n))))
					for _, m := range p.mons {
						mulMonInto(a, new(big.Rat).Mul(c, m.c), rest, m.fs)
					}
					return
				}
			}
		}
		if f.a.kind == KSqrt && f.e >= 2 && !sqLead[f.a] {
			sq = i
		}
		if f.e >= 2 {
			if by := sqRules[f.a]; by != nil {
				rest := make([]Fac, 0, len(fs))
				rest = append(rest, fs[:i]...)
				if f.e%2 == 1 {
					rest = append(rest, Fac{f.a, 1})
				}
				rest = append(rest, fs[i+1:]...)
				p := ipow(by, f.e/2)
				for _, m := range p.mons {
					mulMonInto(a, new(big.Rat).Mul(c, m.c), rest, m.fs)
				}
				return
			}
		}
	}
	if nInd > 1 {
		var inds []*Term
		for _, f := range fs {
			if f.a.kind == KInd {
				inds = append(inds, f.a.args[0])
			}
		}
		for i := range inds {
			for j := 0; j < i; j++ {
				if exclusive(inds[i], inds[j]) {
					return
				}
			}
		}
	}
	if sq >= 0 {
		f := fs[sq]
		rest := make([]Fac, 0, len(fs))
		rest = append(rest, fs[:sq]...)
		if f.e%2 == 1 {
			rest = append(rest, Fac{f.a, 1})
		}
		rest = append(rest, fs[sq+1:]...)
		p := ipow(f.a.args[0], f.e/2)
		for _, m := range p.mons {
			mulMonInto(a, new(big.Rat).Mul(c, m.c), rest, m.fs)
		}
		return
	}
	a.addMon(c, fs)
}

func mul(ts ...*Term) *Term {
	r := num(1)
	for _, t := range ts {
		r = mul2(r, wrap(t))
	}
	return r
}
func mul2(x, y *Term) *Term {
	if c, ok := isConst(x); ok {
		return scale(y, c)
	}
	if c, ok := isConst(y); ok {
		return scale(x, c)
	}
	a := newAcc()
	for _, m := range x.mons {
		for _, n := range y.mons {
			mulMonInto(a, new(big.Rat).Mul(m.c, n.c), m.fs, n.fs)
		}
	}
	return a.poly()
}

func ipow(t *Term, n int) *Term {
	r := num(1)
	t = wrap(t)
	for ; n > 0; n-- {
		r = mul2(r, t)
	}
	return r
}

func inv(t *Term) *Term {
	t = wrap(t)
	if len(t.mons) == 1 {
		m := t.mons[0]
		ok := true
		fs := make([]Fac, len(m.fs))
		for i, f := range m.fs {
			if f.a.kind == KInd {
				ok = false
				break
			}
			fs[i] = Fac{f.a, -f.e}
		}
		if ok {
			a := newAcc()
			normMonInto(a, new(big.Rat).Inv(m.c), fs)
			return a.poly()
		}
	}
	if len(t.mons) == 0 {
		return wrap(mkNode(KApp, SReal, "divzero", 0))
	}
	// normalise leading coefficient
	lc := t.mons[0].c
	p := scale(t, new(big.Rat).Inv(lc))
	return scale(wrap(mkNode(KInv, SReal, "", 0, p)), new(big.Rat).Inv(lc))
}
func div(x, y *Term) *Term { return mul(x, inv(y)) }

func sqrtT(t *Term) *Term {
	t = wrap(t)
	if c, ok := isConst(t); ok && c.Sign() >= 0 {
		n, d := new(big.Int).Sqrt(c.Num()), new(big.Int).Sqrt(c.Denom())
		r := new(big.Rat).SetFrac(n, d)
		if new(big.Rat).Mul(r, r).Cmp(c) == 0 {
			return numR(r)
		}
	}
	// sqrt of the square of something non-negative
	if len(t.mons) == 1 && len(t.mons[0].fs) > 0 {
		m := t.mons[0]
		ok := m.c.Sign() > 0
		var fs []Fac
		for _, f := range m.fs {
			if f.e%2 != 0 || !nonnegAtom(f.a) {
				ok = false
				break
			}
			fs = append(fs, Fac{f.a, f.e / 2})
		}
		if ok {
			if r := sqrtT(numR(m.c)); len(r.mons) == 1 && len(r.mons[0].fs) == 0 {
				return polyFromMons([]Mon{{c: r.mons[0].c, fs: fs}})
			}
		}
	}
	s := mkNode(KSqrt, SReal, "", 0, t)
	if !sqLead[s] && !sqTried[s] {
		sqTried[s] = true
		addSqRule(s, t)
	}
	return wrap(s)
}

// A square root s of p = x^2 + q is a generator of the polynomial ring with the rewriting rule
// x^2 -> s^2 - q, so that powers of s stay monomials.
var sqRules = map[*Term]*Term{}
var sqLead = map[*Term]bool{}
var sqTried = map[*Term]bool{}

func addSqRule(s, p *Term) {
	var best *Term
	for _, m := range p.mons {
		if len(m.fs) != 1 || m.fs[0].e != 2 || m.c.Cmp(ratOne) != 0 {
			continue
		}
		a := m.fs[0].a
		if a.kind != KVar && a.kind != KApp || sqRules[a] != nil || a.sort != SReal {
			continue
		}
		if best == nil || a.id > best.id {
			best = a
		}
	}
	if best == nil {
		return
	}
	sqLead[s] = true
	sq := polyFromMons([]Mon{{c: ratOne, fs: []Fac{{s, 2}}}})
	x2 := polyFromMons([]Mon{{c: ratOne, fs: []Fac{{best, 2}}}})
	q := sub(p, x2)
	sqRules[best] = sub(sq, q)
}

// renorm applies the rewriting rules to terms built before the rules existed
func renorm(t *Term) *Term {
	if len(sqRules) == 0 {
		return t
	}
	s := &substM{renorm: true, m: map[*Term]*Term{}, memo: map[*Term]*Term{}}
	return s.rec(t)
}

func nonnegAtom(a *Term) bool {
	switch a.kind {
	case KSqrt:
		return true
	case KApp:
		return nonneg[a.name]
	}
	return false
}

func constPart(t *Term) *big.Rat {
	for _, m := range t.mons {
		if len(m.fs) == 0 {
			return m.c
		}
	}
	return ratZero
}

func powT(base, e *Term) *Term {
	base, e = wrap(base), wrap(e)
	if n, ok := isConstInt(e); ok {
		if n >= 0 {
			return ipow(base, n)
		}
		return inv(ipow(base, -n))
	}
	c := constPart(e)
	if c.IsInt() && c.Sign() > 0 {
		n := int(c.Num().Int64())
		return mul(powT(base, sub(e, num(int64(n)))), ipow(base, n))
	}
	if one, ok := isConst(base); ok && one.Cmp(ratOne) == 0 {
		return num(1)
	}
	return wrap(mkNode(KPow, SReal, "", 0, base, e))
}

func mkVar(name string, s Sort) *Term { return wrap(mkNode(KVar, s, name, 0)) }

var freshCtr = 0

func freshVar(prefix string, s Sort) *Term {
	freshCtr++
	return mkVar(fmt.Sprintf("%s!%d", prefix, freshCtr), s)
}
func mkApp(name string, s Sort, args ...*Term) *Term {
	if n := len(args); n >= 2 && strings.HasPrefix(name, "sym:") && args[n-2].id > args[n-1].id {
		args = append([]*Term{}, args...)
		args[n-2], args[n-1] = args[n-1], args[n-2]
	}
	if r := appRules[name]; r != nil {
		if t := r(args); t != nil {
			return t
		}
	}
	return wrap(mkNode(KApp, s, name, 0, args...))
}

// appRules simplify applications of symbols with a known meaning.
var appRules = map[string]func(args []*Term) *Term{}

// factorOf is the other factor when all of p is a multiple of atom h
func factorOf(p, h *Term) *Term {
	r := newAcc()
	for _, m := range p.mons {
		var fs []Fac
		found := false
		for _, f := range m.fs {
			if f.a == h {
				if f.e != 1 {
					return nil
				}
				found = true
				continue
			}
			fs = append(fs, f)
		}
		if !found {
			return nil
		}
		r.addMon(m.c, fs)
	}
	return r.poly()
}

// upperBounds of the values of a symbol (all less than the bound)
var upperBounds = map[string]*Term{}

// bijections are permutations of [0,n), continued to all integers, with their inverses.
var bijections = map[string]bijection{}

type bijection struct {
	inv string
	n   *Term
}

func declareBijection(name string, n *Term) {
	if _, ok := bijections[name]; ok {
		return
	}
	inv := name + "⁻¹"
	bijections[name] = bijection{inv, n}
	bijections[inv] = bijection{name, n}
	undo := func(of string) func([]*Term) *Term {
		return func(args []*Term) *Term {
			if a := asAtom(args[0]); a != nil && a.kind == KApp && a.name == of {
				return a.args[0]
			}
			return nil
		}
	}
	appRules[name], appRules[inv] = undo(inv), undo(name)
}

// within is lo <= t < hi. A permutation of [0,n) stays in this range exactly if its argument does.
func within(lo, t, hi *Term) *Term {
	for {
		a := asAtom(t)
		if a == nil || a.kind != KApp {
			break
		}
		b, ok := bijections[a.name]
		if !ok || wrap(lo) != num(0) || wrap(hi) != wrap(b.n) {
			break
		}
		t = wrap(a.args[0])
	}
	return and(le(lo, t), lt(t, hi))
}

// solveFor is the only x that can make p zero, if there is one: x itself or a permutation of it plus
// something without x.
func solveFor(p, x *Term) *Term {
	p = wrap(p)
	if c, rest, ok := linCoef(p, x); ok {
		if rest.intp && new(big.Rat).Abs(c).Cmp(ratOne) == 0 {
			return scale(rest, new(big.Rat).Neg(c))
		}
		return nil
	}
	for _, m := range p.mons {
		if len(m.fs) == 1 && m.fs[0].e == 1 && m.fs[0].a.kind == KApp && new(big.Rat).Abs(m.c).Cmp(ratOne) == 0 {
			a := m.fs[0].a
			b, ok := bijections[a.name]
			if !ok || !hasVar(a, x) {
				continue
			}
			rest := sub(p, scale(wrap(a), m.c))
			if hasVar(rest, x) || !rest.intp {
				return nil
			}
			return solveFor(sub(a.args[0], mkApp(b.inv, SInt, scale(rest, new(big.Rat).Neg(m.c)))), x)
		}
	}
	return nil
}
func mkStr(s string) *Term  { return mkNode(KConst, SStr, s, 0) }
func mkRefC(s string) *Term { return mkNode(KConst, SRef, s, 0) }

// ---- booleans

func not(a *Term) *Term {
	switch a.kind {
	case KTrue:
		return tFalse
	case KFalse:
		return tTrue
	case KNot:
		return a.args[0]
	}
	return mkNode(KNot, SBool, "", 0, a)
}

func and(ts ...*Term) *Term {
	set := map[*Term]bool{}
	var list []*Term
	var addT func(t *Term) bool
	addT = func(t *Term) bool {
		switch t.kind {
		case KTrue:
			return true
		case KFalse:
			return false
		case KAnd:
			for _, a := range t.args {
				if !addT(a) {
					return false
				}
			}
			return true
		}
		if set[t] {
			return true
		}
		if set[not(t)] {
			return false
		}
		set[t] = true
		list = append(list, t)
		return true
	}
	for _, t := range ts {
		if !addT(t) {
			return tFalse
		}
	}
	for i := range list {
		for j := 0; j < i; j++ {
			if exclusive(list[i], list[j]) {
				return tFalse
			}
		}
	}
	// drop negative literals implied by exclusive positives
	out := list[:0:0]
	for _, t := range list {
		implied := false
		if t.kind == KNot {
			for _, u := range list {
				if u.kind != KNot && exclusive(u, t.args[0]) {
					implied = true
					break
				}
			}
		}
		if !implied {
			out = append(out, t)
		}
	}
	list = out
	if len(list) == 0 {
		return tTrue
	}
	if len(list) == 1 {
		return list[0]
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	return mkNode(KAnd, SBool, "", 0, list...)
}
func or(ts ...*Term) *Term {
	ns := make([]*Term, len(ts))
	for i, t := range ts {
		ns[i] = not(t)
	}
	return not(and(ns...))
}
func implies(a, b *Term) *Term { return or(not(a), b) }
func iff(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	return and(implies(a, b), implies(b, a))
}

func eqz(p *Term) *Term {
	p = wrap(p)
	if c, ok := isConst(p); ok {
		if c.Sign() == 0 {
			return tTrue
		}
		return tFalse
	}
	if p.intp { // single int var with unsolvable constant is rare; normalise by gcd
		g := gcdNonConst(p)
		cp := constPart(p)
		q := new(big.Rat).Quo(cp, g)
		if allLinearOrAny(p) && !q.IsInt() {
			return tFalse
		}
		p = scale(p, new(big.Rat).Inv(g))
	}
	p = stripFactors(p)
	if c, ok := isConst(p); ok {
		if c.Sign() == 0 {
			return tTrue
		}
		return tFalse
	}
	// sqrt(p) = 0  <=>  p = 0
	if a := asAtom(p); a != nil && a.kind == KSqrt {
		return eqz(a.args[0])
	}
	lc := leadCoef(p)
	if p.intp {
		g := gcdNonConst(p)
		if lc.Sign() < 0 {
			g = new(big.Rat).Neg(g)
		}
		p = scale(p, new(big.Rat).Inv(g))
	} else {
		p = scale(p, new(big.Rat).Inv(lc))
	}
	// indicators: [b] = 0 ; [b] = 1
	if a := asAtom(p); a != nil && a.kind == KInd {
		return not(a.args[0])
	}
	if len(p.mons) == 2 && len(constMon(p).fs) == 0 && constMon(p).c != nil {
		other := otherMon(p)
		if len(other.fs) == 1 && other.fs[0].a.kind == KInd {
			v := new(big.Rat).Quo(new(big.Rat).Neg(constMon(p).c), other.c)
			if v.Cmp(ratOne) == 0 {
				return other.fs[0].a.args[0]
			}
			return tFalse
		}
	}
	return mkNode(KEqZ, SBool, "", 0, p)
}

// stripFactors removes from p (for p = 0) a single-monomial's exponents
func stripFactors(p *Term) *Term {
	if len(p.mons) == 1 {
		m := p.mons[0]
		fs := make([]Fac, 0, len(m.fs))
		for _, f := range m.fs {
			if f.e < 0 {
				continue // denominators are non-zero by the division obligation
			}
			if f.a.kind == KInv {
				continue
			}
			fs = append(fs, Fac{f.a, 1})
		}
		return polyFromMons([]Mon{{ratOne, fs}})
	}
	return p
}

func constMon(p *Term) Mon {
	for _, m := range p.mons {
		if len(m.fs) == 0 {
			return m
		}
	}
	return Mon{fs: []Fac{{}}}
}
func otherMon(p *Term) Mon {
	for _, m := range p.mons {
		if len(m.fs) != 0 {
			return m
		}
	}
	return Mon{}
}
func leadCoef(p *Term) *big.Rat {
	for _, m := range p.mons {
		if len(m.fs) != 0 {
			return m.c
		}
	}
	return p.mons[0].c
}
func gcdNonConst(p *Term) *big.Rat {
	g := new(big.Int)
	for _, m := range p.mons {
		if len(m.fs) != 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c.Num()))
		}
	}
	if g.Sign() == 0 {
		return ratOne
	}
	return new(big.Rat).SetInt(g)
}
func allLinearOrAny(p *Term) bool { return true }

// ltz: p < 0
func ltz(p *Term) *Term {
	p = wrap(p)
	if c, ok := isConst(p); ok {
		if c.Sign() < 0 {
			return tTrue
		}
		return tFalse
	}
	if len(p.mons) <= 4 && onlyInd(p) {
		if t := ltzInd(p); t != nil {
			return t
		}
	}
	if p.intp {
		if nonnegPoly(p) {
			return tFalse
		}
		if nonnegPoly(sub(num(-1), p)) {
			return tTrue
		}
		g := gcdNonConst(p)
		c := constPart(p)
		q := scale(sub(p, numR(c)), new(big.Rat).Inv(g))
		// q < -c/g  <=> q - ceil(-c/g) < 0
		x := new(big.Rat).Quo(new(big.Rat).Neg(c), g)
		ce := ceilRat(x)
		p = sub(q, numR(new(big.Rat).SetInt(ce)))
		if leadCoef(p).Sign() < 0 {
			return not(mkNode(KLtZ, SBool, "", 0, sub(neg(p), num(1))))
		}
		return mkNode(KLtZ, SBool, "", 0, p)
	}
	if nonnegPoly(p) {
		return tFalse
	}
	lc := new(big.Rat).Abs(leadCoef(p))
	p = scale(p, new(big.Rat).Inv(lc))
	// a single indicator
	if len(p.mons) <= 2 {
		o := otherMon(p)
		if len(o.fs) == 1 && o.fs[0].a.kind == KInd {
			c0 := constPart(p)
			v0 := c0.Sign() < 0
			v1 := new(big.Rat).Add(c0, o.c).Sign() < 0
			b := o.fs[0].a.args[0]
			switch {
			case v0 && v1:
				return tTrue
			case !v0 && !v1:
				return tFalse
			case v1:
				return b
			default:
				return not(b)
			}
		}
	}
	if a := asAtom(neg(p)); a != nil && a.kind == KSqrt { // -sqrt(q) < 0 <=> q != 0
		return not(eqz(a.args[0]))
	}
	if a := asAtom(p); a != nil && a.kind == KSqrt {
		return tFalse
	}
	return mkNode(KLtZ, SBool, "", 0, p)
}

// nonnegPoly: all coefficients non-negative over atoms known to be non-negative
func nonnegPoly(p *Term) bool { return nonnegMons(p) || nonnegSums(p) }

func nonnegMons(p *Term) bool {
	for _, m := range p.mons {
		if m.c.Sign() < 0 {
			return false
		}
		for _, f := range m.fs {
			if f.e%2 == 0 {
				continue
			}
			switch f.a.kind {
			case KInd, KSqrt:
			case KApp:
				if !nonneg[f.a.name] {
					return false
				}
			case KSum:
				if !nonnegPoly(wrap(f.a.args[1])) || !nonnegPoly(wrap(f.a.args[0])) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// nonnegSums: sums over the same range taken together, each with a body that is not negative
// whatever the indicators in it
func nonnegSums(p *Term) bool {
	groups := map[*Term]*Term{}
	x := (*Term)(nil)
	rest := newAcc()
	for _, m := range p.mons {
		if len(m.fs) == 1 && m.fs[0].e == 1 && m.fs[0].a.kind == KSum {
			if x == nil {
				x = freshVar("nn", SInt)
			}
			s := m.fs[0].a
			g := groups[s.args[0]]
			if g == nil {
				g = num(0)
			}
			groups[s.args[0]] = add(g, scale(openSum(s, x), m.c))
			continue
		}
		rest.addMon(m.c, m.fs)
	}
	if x == nil || !nonnegMons(rest.poly()) {
		return false
	}
	for n, g := range groups {
		if !nonnegPoly(n) || !nonnegMons(g) && !leastInd(g) {
			return false
		}
	}
	return true
}

// leastInd: a polynomial in few indicators, not negative for any of their values
func leastInd(g *Term) bool {
	var inds []*Term
	at := map[*Term]int{}
	for _, m := range g.mons {
		for _, f := range m.fs {
			if f.a.kind != KInd {
				return false
			}
			if _, ok := at[f.a]; !ok {
				at[f.a] = len(inds)
				inds = append(inds, f.a)
			}
		}
	}
	if len(inds) > 10 {
		return false
	}
	for v := 0; v < 1<<len(inds); v++ {
		sum := new(big.Rat)
		for _, m := range g.mons {
			on := true
			for _, f := range m.fs {
				on = on && v>>at[f.a]&1 == 1
			}
			if on {
				sum.Add(sum, m.c)
			}
		}
		if sum.Sign() < 0 {
			return false
		}
	}
	return true
}

func ceilRat(x *big.Rat) *big.Int {
	n, d := x.Num(), x.Denom()
	q, r := new(big.Int).DivMod(n, d, new(big.Int))
	if r.Sign() != 0 {
		q.Add(q, big.NewInt(1))
	}
	return q
}
func lt(a, b *Term) *Term { return ltz(sub(a, b)) }
func le(a, b *Term) *Term { return not(ltz(sub(b, a))) }

func eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort == SBool {
		return iff(a, b)
	}
	if isNum(a.sort) {
		return eqz(sub(a, b))
	}
	if a.kind == KIte {
		return or(and(a.args[0], eq(a.args[1], b)), and(not(a.args[0]), eq(a.args[2], b)))
	}
	if b.kind == KIte {
		return eq(b, a)
	}
	if a.kind == KConst && b.kind == KConst {
		return tFalse
	}
	if a.kind == KApp && b.kind == KApp && a.name == "chr" && b.name == "chr" {
		return eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkNode(KEqS, SBool, "", 0, a, b)
}

// ind converts bool to 0/1
func ind(b *Term) *Term {
	switch b.kind {
	case KTrue:
		return num(1)
	case KFalse:
		return num(0)
	case KNot:
		return sub(num(1), ind(b.args[0]))
	case KAnd:
		r := num(1)
		for _, a := range b.args {
			r = mul2(r, ind(a))
		}
		return r
	}
	return wrap(mkNode(KInd, SInt, "", 0, b))
}

func ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	switch {
	case a.sort == SBool:
		return or(and(c, a), and(not(c), b))
	case isNum(a.sort):
		return add(b, mul2(ind(c), sub(a, b)))
	}
	return mkNode(KIte, a.sort, "", 0, c, a, b)
}

// ---- substitution

func hasVar(t *Term, v *Term) bool { // v an atom
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := false
		if t.kind == KPoly {
		outer:
			for _, m := range t.mons {
				for _, f := range m.fs {
					if rec(f.a) {
						r = true
						break outer
					}
				}
			}
		} else {
			for _, a := range t.args {
				if rec(a) {
					r = true
					break
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

type substM struct {
	renorm bool
	m      map[*Term]*Term
	memo   map[*Term]*Term
	fns    map[string]func([]*Term) *Term // replaces applications
}

func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	s := &substM{m: m, memo: map[*Term]*Term{}}
	return s.rec(t)
}
func subst1(t, v, by *Term) *Term {
	a := asAtom(v)
	return subst(t, map[*Term]*Term{a: by})
}

func (s *substM) rec(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := s.rebuild(t)
	s.memo[t] = r
	return r
}

func (s *substM) rebuild(t *Term) *Term {
	switch t.kind {
	case KPoly:
		changed := false
		for _, m := range t.mons {
			for _, f := range m.fs {
				if r := s.rec(f.a); r != f.a && !(asAtom(r) == f.a) {
					changed = true
				}
				if s.renorm && f.e >= 2 && sqRules[f.a] != nil {
					changed = true
				}
			}
		}
		if !changed {
			return t
		}
		a := newAcc()
		for _, m := range t.mons {
			p := num(1)
			for _, f := range m.fs {
				r := wrap(s.rec(f.a))
				if f.e >= 0 {
					p = mul2(p, ipow(r, f.e))
				} else {
					p = mul2(p, inv(ipow(r, -f.e)))
				}
			}
			a.addPoly(p, m.c)
		}
		return a.poly()
	case KVar, KConst, KTrue, KFalse:
		return t
	}
	if t.kind == KSum || t.kind == KForall {
		// open with a fresh variable
		bs := t.bsort
		fv := freshVar("o", bs)
		b := mkNode(KVar, bs, t.name, 0)
		if t.kind == KSum {
			n := s.rec(t.args[0])
			body := subst(t.args[1], map[*Term]*Term{b: fv})
			nb := s.rec(body)
			if n == t.args[0] && nb == body {
				return t
			}
			return prefixSum(n, asAtom(fv), nb)
		}
		body := subst(t.args[0], map[*Term]*Term{b: fv})
		nb := s.rec(body)
		if nb == body {
			return t
		}
		return forallT(asAtom(fv), nb)
	}
	args := make([]*Term, len(t.args))
	changed := false
	for i, a := range t.args {
		args[i] = s.rec(a)
		if args[i] != a {
			changed = true
		}
	}
	if t.kind == KApp && s.fns != nil {
		if f := s.fns[t.name]; f != nil {
			return f(args)
		}
	}
	if !changed {
		return t
	}
	switch t.kind {
	case KApp:
		return mkApp(t.name, t.sort, args...)
	case KInd:
		return ind(args[0])
	case KSqrt:
		return sqrtT(args[0])
	case KInv:
		return inv(args[0])
	case KPow:
		return powT(args[0], args[1])
	case KNot:
		return not(args[0])
	case KAnd:
		return and(args...)
	case KEqZ:
		return eqz(args[0])
	case KLtZ:
		return ltz(args[0])
	case KEqS:
		return eq(args[0], args[1])
	case KIte:
		return ite(args[0], args[1], args[2])
	}
	panic("rebuild")
}

func boundName(h int) string { return "#" + strconv.Itoa(h) }

// forallT quantifies over atom v (fresh variable)
func forallT(v *Term, body *Term) *Term {
	if !hasVar(body, v) {
		return body // domains are non-empty (Int, Str, Real, Ref)
	}
	if p := onePoint(v, body, true); p != nil {
		return p
	}
	name := boundName(body.height + 1)
	b := mkNode(KVar, v.sort, name, 0)
	nb := subst(body, map[*Term]*Term{v: wrap(b)})
	// heights may not change as b is a leaf
	return mkNode(KForall, SBool, name, v.sort, nb)
}

// onePoint: forall v: !(A & v = e) is !(A at e), also for several such parts
func onePoint(v, body *Term, split bool) *Term {
	v = asAtom(v)
	if body.kind == KAnd {
		var parts []*Term
		for _, b := range body.args {
			if hasVar(b, v) {
				if b = onePoint(v, b, split); b == nil {
					return nil
				}
			}
			parts = append(parts, b)
		}
		return and(parts...)
	}
	if body.kind != KNot {
		return nil
	}
	cs := []*Term{body.args[0]}
	if cs[0].kind == KAnd {
		cs = cs[0].args
	}
	for _, c := range cs {
		if e := solvedFor(c, v); e != nil {
			return subst(body, map[*Term]*Term{v: wrap(e)})
		}
	}
	if !split {
		return nil
	}
	for i, c := range cs {
		if c.kind != KNot || c.args[0].kind != KAnd || len(c.args[0].args) > 4 {
			continue
		}
		var parts []*Term
		for _, n := range c.args[0].args {
			rest := append(append([]*Term{not(n)}, cs[:i]...), cs[i+1:]...)
			p := onePoint(v, not(and(rest...)), false)
			if p == nil && hasVar(and(rest...), v) {
				parts = nil
				break
			} else if p == nil {
				p = not(and(rest...))
			}
			parts = append(parts, p)
		}
		if parts != nil {
			return and(parts...)
		}
	}
	return nil
}

// solvedFor: c is v = e
func solvedFor(c, v *Term) *Term {
	switch {
	case c.kind == KEqS && c.args[0] == v && !hasVar(c.args[1], v):
		return c.args[1]
	case c.kind == KEqS && c.args[1] == v && !hasVar(c.args[0], v):
		return c.args[0]
	case c.kind != KEqZ:
		return nil
	}
	p := c.args[0]
	var co *big.Rat
	a := newAcc()
	for _, m := range p.mons {
		if len(m.fs) == 1 && m.fs[0].a == v && m.fs[0].e == 1 {
			co = m.c
			continue
		}
		for _, f := range m.fs {
			if hasVar(f.a, v) {
				return nil
			}
		}
		a.addPoly(polyFromMons([]Mon{m}), ratOne)
	}
	if co == nil || new(big.Rat).Abs(co).Cmp(ratOne) != 0 || v.sort == SInt && !p.intp {
		return nil
	}
	e := a.poly()
	if co.Sign() > 0 {
		e = neg(e)
	}
	return e
}

func existsT(v *Term, body *Term) *Term { return not(forallT(v, not(body))) }

func openForall(t *Term, by *Term) *Term {
	b := mkNode(KVar, t.bsort, t.name, 0)
	return subst(t.args[0], map[*Term]*Term{b: by})
}
func openSum(t *Term, by *Term) *Term {
	b := mkNode(KVar, t.bsort, t.name, 0)
	return subst(t.args[1], map[*Term]*Term{b: by})
}

// sumRange: sum over x in [lo,hi) of body (x an int atom)
func sumRange(lo, hi, x, body *Term) *Term {
	x = asAtom(x)
	lo, hi, body = wrap(lo), wrap(hi), wrap(body)
	a := newAcc()
	for _, m := range body.mons {
		var dep, indep []Fac
		for _, f := range m.fs {
			if hasVar(f.a, x) {
				dep = append(dep, f)
			} else {
				indep = append(indep, f)
			}
		}
		co := polyFromMons([]Mon{{m.c, indep}})
		if len(dep) == 0 {
			a.addPoly(mul2(co, sub(hi, lo)), ratOne)
			continue
		}
		g := polyFromMons([]Mon{{ratOne, dep}})
		a.addPoly(mul2(co, sumMono(lo, hi, x, g)), ratOne)
	}
	return a.poly()
}

// sumOver is sumRange for lo <= hi, with conditions settled by lo <= x < hi
func sumOver(lo, hi, x, body *Term) *Term {
	x = asAtom(x)
	m := map[*Term]*Term{}
	findApp(body, func(t *Term) bool {
		if t.kind != KLtZ || !hasVar(t, x) {
			return false
		}
		co, rest, ok := linCoef(t.args[0], x)
		if !ok || new(big.Rat).Abs(co).Cmp(ratOne) != 0 {
			return false
		}
		a, b := add(rest, lo), add(rest, hi, num(-1)) // least and largest value
		if co.Sign() < 0 {
			a, b = sub(rest, add(hi, num(-1))), sub(rest, lo)
		}
		if c, ok := isConst(a); ok && c.Sign() >= 0 {
			m[t] = tFalse
		} else if c, ok := isConst(b); ok && c.Sign() < 0 {
			m[t] = tTrue
		}
		return false
	})
	return sumRange(lo, hi, x, subst(body, m))
}

func linCoef(p *Term, x *Term) (*big.Rat, *Term, bool) { // p = c*x + rest, rest free of x
	var c *big.Rat
	rest := newAcc()
	for _, m := range p.mons {
		has := false
		for _, f := range m.fs {
			if f.a == x || hasVar(f.a, x) {
				has = true
			}
		}
		if !has {
			rest.addMon(m.c, m.fs)
			continue
		}
		if len(m.fs) == 1 && m.fs[0].a == x && m.fs[0].e == 1 {
			c = m.c
			continue
		}
		return nil, nil, false
	}
	if c == nil {
		return nil, nil, false
	}
	return c, rest.poly(), true
}

func sumMono(lo, hi, x, g *Term) *Term {
	// point split
	for _, f := range g.mons[0].fs {
		if f.a.kind == KInd && f.a.args[0].kind == KEqZ {
			p := f.a.args[0].args[0]
			if t := solveFor(p, x); t != nil {
				v := subst(g, map[*Term]*Term{x: t})
				return mul2(v, ind(within(lo, t, hi)))
			}
		}
	}
	// constant range
	if n, ok := isConstInt(sub(hi, lo)); ok && n <= 64 {
		if n <= 0 {
			return num(0)
		}
		a := newAcc()
		for i := 0; i < n; i++ {
			a.addPoly(subst(g, map[*Term]*Term{x: add(lo, num(int64(i)))}), ratOne)
		}
		return a.poly()
	}
	// canonical shift: look at occurrences of x in arguments of applications
	var minOff *big.Rat
	var revOff *Term
	fwd, rev := false, false
	seen := map[*Term]bool{}
	var scan func(t *Term)
	scanArg := func(p *Term) {
		if !isNum(p.sort) {
			return
		}
		p = wrap(p)
		c, rest, ok := linCoef(p, x)
		if !ok {
			return
		}
		if c.Cmp(ratOne) == 0 {
			fwd = true
			k := constPart(rest)
			if r, isC := isConst(rest); isC {
				k = r
				if minOff == nil || k.Cmp(minOff) < 0 {
					minOff = k
				}
			}
		} else if c.Cmp(big.NewRat(-1, 1)) == 0 {
			rev = true
			if revOff == nil || rest.id < revOff.id {
				revOff = rest
			}
		}
	}
	scan = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == KPoly {
			for _, m := range t.mons {
				for _, f := range m.fs {
					scan(f.a)
				}
			}
			return
		}
		if t.kind == KApp {
			for _, a := range t.args {
				scanArg(a)
			}
		}
		for _, a := range t.args {
			scan(a)
		}
	}
	scan(g)
	if !fwd && rev && revOff.intp {
		// y = revOff - x
		g2 := subst(g, map[*Term]*Term{x: sub(revOff, wrap(x))})
		return sumRange(add(sub(revOff, hi), num(1)), add(sub(revOff, lo), num(1)), x, g2)
	}
	if fwd && minOff != nil && minOff.Sign() != 0 && minOff.IsInt() {
		c := numR(minOff)
		g2 := subst(g, map[*Term]*Term{x: sub(wrap(x), c)})
		return sub(prefixSum(add(hi, c), x, g2), prefixSum(add(lo, c), x, g2))
	}
	return sub(prefixSum(hi, x, g), prefixSum(lo, x, g))
}

// prefixSum is the formal sum over x in [0,n) of body
func prefixSum(n, x, body *Term) *Term {
	n, body = wrap(n), wrap(body)
	x = asAtom(x)
	if len(body.mons) != 1 || body.mons[0].c.Cmp(ratOne) != 0 || !monAllDep(body.mons[0], x) {
		return sumRange(num(0), n, x, body)
	}
	for _, f := range body.mons[0].fs {
		if f.a.kind == KInd && f.a.args[0].kind == KEqZ {
			if solveFor(f.a.args[0].args[0], x) != nil {
				return sumMono(num(0), n, x, body)
			}
		}
	}
	if k, ok := isConstInt(n); ok && k <= 64 && k >= -8 {
		a := newAcc()
		for i := 0; i < k; i++ {
			a.addPoly(subst(body, map[*Term]*Term{x: num(int64(i))}), ratOne)
		}
		for i := k; i < 0; i++ {
			a.addPoly(subst(body, map[*Term]*Term{x: num(int64(i))}), big.NewRat(-1, 1))
		}
		return a.poly()
	}
	if r := reindex(n, x, body); r != nil {
		return r
	}
	c := constPart(n)
	if c.IsInt() && c.Sign() != 0 && c.Num().IsInt64() && abs64(c.Num().Int64()) <= 8 {
		k := c.Num().Int64()
		n0 := sub(n, numR(c))
		r := prefixSum(n0, x, body)
		for i := int64(0); i < k; i++ {
			r = add(r, subst(body, map[*Term]*Term{x: add(n0, num(i))}))
		}
		for i := k; i < 0; i++ {
			r = sub(r, subst(body, map[*Term]*Term{x: add(n0, num(i))}))
		}
		return r
	}
	name := boundName(max(body.height, 0) + 1)
	b := mkNode(KVar, SInt, name, 0)
	nb := subst(body, map[*Term]*Term{x: wrap(b)})
	srt := SReal
	if nb.intp {
		srt = SInt
	}
	return wrap(mkNode(KSum, srt, name, SInt, n, nb))
}

// selRule belongs to a symbol sel: sel(j) is the j-th number that meets a condition, and count(n) of
// the numbers below n do.
type selRule struct {
	when  func(its []*Term, y *Term) *Term
	count func(its []*Term, n *Term) *Term
	ends  []func(its []*Term) *Term // numbers of passes of the loop
}

var selRules = map[string]*selRule{}

// reindex rewrites the sum over j < count(n) of f(sel(j)) to the sum over i < n of [when(i)] f(i)
func reindex(n, x, body *Term) *Term {
	if len(selRules) == 0 {
		return nil
	}
	var app *Term
	findApp(body, func(t *Term) bool {
		if t.kind == KApp && selRules[t.name] != nil && len(t.args) > 0 && asAtom(t.args[len(t.args)-1]) == x {
			app = t
		}
		return app != nil
	})
	if app == nil {
		return nil
	}
	its := app.args[:len(app.args)-1]
	y := freshVar("y", SInt)
	b := subst(body, map[*Term]*Term{app: y})
	if hasVar(b, x) {
		return nil
	}
	rule := selRules[app.name]
	for _, m := range n.mons {
		for _, f := range m.fs {
			if f.a.kind == KSum {
				hi := f.a.args[0]
				if rule.count(its, hi) == n {
					return sumOver(num(0), hi, asAtom(y), mul2(ind(rule.when(its, y)), b))
				}
			}
		}
	}
	for _, e := range rule.ends {
		hi := e(its)
		c := wrap(rule.count(its, hi))
		if c == n {
			return sumOver(num(0), hi, asAtom(y), mul2(ind(rule.when(its, y)), b))
		}
		// the number may be known up to a condition
		if d := sub(c, n); onlyInd(d) {
			same := ind(eq(c, n))
			if k, ok := isConst(same); ok && k.Sign() == 0 {
				continue
			}
			busy := rule.ends
			rule.ends = nil
			raw := prefixSum(n, x, body)
			rule.ends = busy
			return add(mul2(same, sumOver(num(0), hi, asAtom(y), mul2(ind(rule.when(its, y)), b))), mul2(sub(num(1), same), raw))
		}
	}
	return nil
}

// ltzInd decides p < 0 by the conditions of at most two indicators.
func ltzInd(p *Term) *Term {
	var as []*Term
	for _, m := range p.mons {
		for _, f := range m.fs {
			if !slices.Contains(as, f.a) {
				as = append(as, f.a)
			}
		}
	}
	if len(as) > 2 {
		return nil
	}
	var yes, no []*Term
	for v := 0; v < 1<<len(as); v++ {
		sum := new(big.Rat)
		for _, m := range p.mons {
			on := true
			for _, f := range m.fs {
				on = on && v>>slices.Index(as, f.a)&1 == 1
			}
			if on {
				sum.Add(sum, m.c)
			}
		}
		var is []*Term
		for i, a := range as {
			if v>>i&1 == 1 {
				is = append(is, a.args[0])
			} else {
				is = append(is, not(a.args[0]))
			}
		}
		if sum.Sign() < 0 {
			yes = append(yes, and(is...))
		} else {
			no = append(no, and(is...))
		}
	}
	if len(yes) <= len(no) {
		return or(yes...)
	}
	return not(or(no...))
}

// onlyInd is true if t has no other atoms than indicators of conditions
func onlyInd(t *Term) bool {
	for _, m := range t.mons {
		for _, f := range m.fs {
			if f.a.kind != KInd {
				return false
			}
		}
	}
	return true
}

// findApp visits atoms until f says stop
func findApp(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		if t.kind == KPoly {
			for _, m := range t.mons {
				for _, g := range m.fs {
					if rec(g.a) {
						return true
					}
				}
			}
			return false
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func monAllDep(m Mon, x *Term) bool {
	if len(m.fs) == 0 {
		return false
	}
	for _, f := range m.fs {
		if !hasVar(f.a, x) {
			return false
		}
	}
	return true
}
func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// ---- printing for humans

func (t *Term) String() string {
	switch t.kind {
	case KPoly:
		if len(t.mons) == 0 {
			return "0"
		}
		var parts []string
		for _, m := range t.mons {
			var fs []string
			if m.c.Cmp(ratOne) != 0 || len(m.fs) == 0 {
				fs = append(fs, m.c.RatString())
			}
			for _, f := range m.fs {
				s := f.a.String()
				if f.e != 1 {
					s += fmt.Sprintf("^%d", f.e)
				}
				fs = append(fs, s)
			}
			parts = append(parts, strings.Join(fs, "*"))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(" + strings.Join(parts, " + ") + ")"
	case KVar:
		return t.name
	case KConst:
		return strconv.Quote(t.name)
	case KApp:
		if len(t.args) == 0 {
			return t.name
		}
		return t.name + "(" + joinTerms(t.args) + ")"
	case KInd:
		return "[" + t.args[0].String() + "]"
	case KSqrt:
		return "sqrt(" + t.args[0].String() + ")"
	case KInv:
		return "inv(" + t.args[0].String() + ")"
	case KPow:
		return "pow(" + joinTerms(t.args) + ")"
	case KSum:
		return fmt.Sprintf("Sum(%s<%s: %s)", t.name, t.args[0], t.args[1])
	case KTrue:
		return "true"
	case KFalse:
		return "false"
	case KNot:
		return "!" + t.args[0].String()
	case KAnd:
		var p []string
		for _, a := range t.args {
			p = append(p, a.String())
		}
		return "(" + strings.Join(p, " & ") + ")"
	case KEqZ:
		return "{" + t.args[0].String() + " = 0}"
	case KLtZ:
		return "{" + t.args[0].String() + " < 0}"
	case KEqS:
		return "{" + t.args[0].String() + " == " + t.args[1].String() + "}"
	case KForall:
		return fmt.Sprintf("(forall %s: %s)", t.name, t.args[0])
	case KIte:
		return "ite(" + joinTerms(t.args) + ")"
	}
	return "?"
}
func joinTerms(ts []*Term) string {
	var p []string
	for _, a := range ts {
		p = append(p, a.String())
	}
	return strings.Join(p, ", ")
}
