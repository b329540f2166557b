package deflect

import (
	"math"

	"gonum.org/v1/gonum/mat"
)

// C12: inclined supports.

// Transforming the tangent of n degrees of freedom by an inclined support is T'KT with the rotation T of the two
// linked degrees of freedom, whatever the matrix holds, and whatever the buffers of the support were used for.
func gvCheckTransform(n int) {
	i := gvChoose("i", n)
	j := gvChoose("j", n)
	gvAssume(i != j)
	angle := gvReal("angle")
	from, to := gvAnyIndex("from"), gvAnyIndex("to")
	gvAssume(from != to)
	t, bc := NewInclinedSupport(from, to, angle)
	gvEnsure("the condition is on the second degree of freedom", gvAnd(bc.Index == to, bc.Value == 0))
	l := newEqLayoutDirect(map[Index]int{})
	l.indices = map[Index]int{from: i, to: j}
	if gvBool("used before") {
		m := gvChoose("earlier size", 4) + 2
		l2 := newEqLayoutDirect(map[Index]int{})
		l2.indices = map[Index]int{from: 1, to: 0}
		k2, r2, d2 := gvSym("K2", m), gvVec("R2", m), gvVec("D2", m)
		t.Pre(l2, k2, r2, d2)
		t.Post(l2, r2, d2)
	}
	k, r, d := gvSym("K", n), gvVec("R", n), gvVec("D", n)
	t.Pre(l, k, r, d)
	c, s := math.Cos(angle), math.Sin(angle)
	// the columns of T
	T := func(a, b int) float64 {
		switch {
		case a == i && b == i, a == j && b == j:
			return c
		case a == i && b == j:
			return -s
		case a == j && b == i:
			return s
		case a == b:
			return 1
		}
		return 0
	}
	gvReach("transformed")
	for a := 0; a < n; a++ {
		sr, sd := 0.0, 0.0
		for b := 0; b < n; b++ {
			sr += T(b, a) * gvR0(b)
			sd += T(b, a) * gvD0(b)
			e := 0.0
			for p := 0; p < n; p++ {
				for q := 0; q < n; q++ {
					e += T(p, a) * gvK0(p, q) * T(q, b)
				}
			}
			gvEnsure("transformed tangent", k.At(a, b) == e)
		}
		gvEnsure("transformed residual", r.AtVec(a) == sr)
		gvEnsure("transformed displacements", d.AtVec(a) == sd)
	}
	t.Post(l, r, d)
	for a := 0; a < n; a++ {
		gvEnsure("transforming back is the inverse for residuals", r.AtVec(a) == gvR0(a))
		gvEnsure("transforming back is the inverse for displacements", d.AtVec(a) == gvD0(a))
	}
	gvEnsure("lookups succeed", l.failure() == nil)
}

// gvTurn is the matrix T that turns the axes of an inclined support.
type gvTurn struct {
	i, j   int
	co, si float64
}

// column a of T has entries w1 in row x1 and w2 in row x2
func (t gvTurn) column(a int) (x1, x2 int, w1, w2 float64) {
	switch a {
	case t.i:
		return t.i, t.j, t.co, t.si
	case t.j:
		return t.i, t.j, -t.si, t.co
	}
	return a, a, 1, 0
}

// k is Tᵀ·K·T, pre is Tᵀ·v, post is T·v.
func (t gvTurn) k(k func(i, j int) float64, a, b int) float64 {
	a1, a2, u1, u2 := t.column(a)
	b1, b2, v1, v2 := t.column(b)
	return u1*v1*k(a1, b1) + u1*v2*k(a1, b2) + u2*v1*k(a2, b1) + u2*v2*k(a2, b2)
}

func (t gvTurn) pre(v func(i int) float64, a int) float64 {
	a1, a2, u1, u2 := t.column(a)
	return u1*v(a1) + u2*v(a2)
}

func (t gvTurn) post(v func(i int) float64, a int) float64 {
	switch a {
	case t.i:
		return t.co*v(t.i) - t.si*v(t.j)
	case t.j:
		return t.si*v(t.i) + t.co*v(t.j)
	}
	return v(a)
}

// The same for any number of degrees of freedom.
func Prove_C12_transform() { gvCheckAnyTransform(false) }

func Prove_C12_transform_again() { gvCheckAnyTransform(true) }

func gvCheckAnyTransform(used bool) {
	n := gvNat("n")
	i, j := gvNat("i"), gvNat("j")
	gvAssume(gvAnd(i < n, j < n, i != j))
	angle := gvReal("angle")
	from, to := gvAnyIndex("from"), gvAnyIndex("to")
	gvAssume(from != to)
	t, bc := NewInclinedSupport(from, to, angle)
	gvEnsure("the condition is on the second degree of freedom", gvAnd(bc.Index == to, bc.Value == 0))
	l := newEqLayoutDirect(map[Index]int{})
	l.indices = map[Index]int{from: i, to: j}
	if used {
		m := 3
		l2 := newEqLayoutDirect(map[Index]int{})
		l2.indices = map[Index]int{from: 1, to: 0}
		k2, r2, d2 := gvSym("K2", m), gvVec("R2", m), gvVec("D2", m)
		t.Pre(l2, k2, r2, d2)
		t.Post(l2, r2, d2)
	}
	k, r, d := gvSym("K", n), gvVec("R", n), gvVec("D", n)
	w := gvTurn{i, j, math.Cos(angle), math.Sin(angle)}
	a, b := gvNat("a"), gvNat("b")
	gvAssume(gvAnd(a < n, b < n))
	if gvBool("only back") {
		t.Pre(l, k, gvVec("R3", n), gvVec("D3", n))
		t.Post(l, r, d)
		gvReach("transformed back")
		gvEnsure("residual transformed back", r.AtVec(a) == w.post(gvR0, a))
		gvEnsure("displacements transformed back", d.AtVec(a) == w.post(gvD0, a))
	} else {
		t.Pre(l, k, r, d)
		gvReach("transformed")
		gvEnsure("transformed tangent", k.At(a, b) == w.k(gvK0, a, b))
		gvEnsure("transformed residual", r.AtVec(a) == w.pre(gvR0, a))
		gvEnsure("transformed displacements", d.AtVec(a) == w.pre(gvD0, a))
		t.Post(l, r, d)
		gvEnsure("transforming back is the inverse for residuals", r.AtVec(a) == gvR0(a))
		gvEnsure("transforming back is the inverse for displacements", d.AtVec(a) == gvD0(a))
	}
	gvEnsure("lookups succeed", l.failure() == nil)
}

// gv:bounded=2-dofs
func Prove_C12_transform_2() { gvCheckTransform(2) }

// gv:bounded=3-dofs
func Prove_C12_transform_3() { gvCheckTransform(3) }

// gv:bounded=4-dofs
func Prove_C12_transform_4() { gvCheckTransform(4) }

// gvCheckInclined solves a problem with an inclined support that links degree of freedom from with the last
// constrained one.
func gvCheckInclined(n, c, from, elements, loads int) {
	s := gvNewSystem("p", n, c, elements, loads)
	to := c - 1
	angle := gvReal("angle")
	t, bc := NewInclinedSupport(s.idx[from], s.idx[to], angle)
	s.p.Dirichlet[0] = bc // the condition of the last constrained degree of freedom comes first
	gvEnsure("condition", gvAnd(bc.Index == s.idx[to], bc.Value == 0))
	s.p.EqTransforms = []Transformer{t}
	solver := &linearSolver{}
	eq := &gvEquations{name: "sol"}
	res, err := solver.Solve(s.p, s.layout, eq)
	gvReach("solved")
	gvEnsure("solving succeeds", gvAnd(err == nil, res != nil))
	d, r := s.values(res)
	co, si := math.Cos(angle), math.Sin(angle)
	gvEnsure("no displacement normal to the inclined direction", co*d[to]-si*d[from] == 0)
	gvEnsure("the reaction is normal to the inclined direction", co*r[from]+si*r[to] == 0)
	for i := 0; i < n; i++ {
		f := s.residual(d, i)
		switch {
		case i == from || i == to:
			gvEnsure("equilibrium with the reaction at the support", r[i] == f)
		case i < c:
			gvEnsure("prescribed displacement", d[i] == s.p.Dirichlet[c-1-i].Value)
			gvEnsure("reaction is the residual", r[i] == f)
		default:
			gvEnsure("equilibrium", f == 0)
			gvEnsure("no reaction at free degrees of freedom", r[i] == 0)
		}
	}
}

// gv:bounded=2-dofs
func Prove_C12_solve_2() { gvCheckInclined(2, 1, 1, 1, 1) }

// gv:bounded=3-dofs
func Prove_C12_solve_3_1() { gvCheckInclined(3, 1, 2, 1, 1) }

// gv:bounded=3-dofs
func Prove_C12_solve_3_2() { gvCheckInclined(3, 2, 2, 1, 1) }

// gvChange is any transformation that leaves the displacements alone when it's applied (that of an inclined support
// does: the displacement is zero at both of its degrees of freedom then). It keeps the entries at a, b and at a of what
// it is given.
type gvChange struct {
	name       string
	n, a, b    int
	gotK       float64
	gotR, gotD float64
	backR      float64
	backD      float64
	pre, post  int
	// what holds for the system when it is transformed back
	then func(r, d *mat.VecDense)
}

func (t *gvChange) k(i, j int) float64  { return gvFnReal("sym:"+t.name+".K", i, j) }
func (t *gvChange) r(i int) float64     { return gvFnReal(t.name+".R", i) }
func (t *gvChange) postR(i int) float64 { return gvFnReal(t.name+".back.R", i) }
func (t *gvChange) postD(i int) float64 { return gvFnReal(t.name+".back.D", i) }

func (t *gvChange) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	t.pre++
	gvEnsure("size of the transformed system", gvAnd(k.SymmetricDim() == t.n, r.Len() == t.n, d.Len() == t.n))
	t.gotK, t.gotR, t.gotD = k.At(t.a, t.b), r.AtVec(t.a), d.AtVec(t.a)
	for i := 0; i < t.n; i++ {
		for j := i; j < t.n; j++ {
			k.SetSym(i, j, t.k(i, j))
		}
		r.SetVec(i, t.r(i))
	}
}

func (t *gvChange) Post(indices EqLayout, r, d *mat.VecDense) {
	t.post++
	gvEnsure("size of the solution", gvAnd(r.Len() == t.n, d.Len() == t.n))
	t.backR, t.backD = r.AtVec(t.a), d.AtVec(t.a)
	if t.then != nil {
		t.then(r, d)
	}
	for i := 0; i < t.n; i++ {
		r.SetVec(i, t.postR(i))
		d.SetVec(i, t.postD(i))
	}
}

// Solving with any two transformations, for any size: the first is given the assembled system, the second the result of
// the first. The transformed system is solved for the prescribed values, and its solution and reactions are transformed
// back in the reverse order.
func Prove_C12_solver() {
	s := gvNewAnySystem("p")
	a, b := s.any("a"), s.any("b")
	t1, t2 := &gvChange{name: "t1", n: s.n, a: a, b: b}, &gvChange{name: "t2", n: s.n, a: a, b: b}
	t2.then = func(r, d *mat.VecDense) {
		f := gvSum(0, s.n, func(j int) float64 { return t2.k(a, j) * d.AtVec(j) }) - t2.r(a)
		if a < s.c {
			gvEnsure("prescribed value in the transformed system", d.AtVec(a) == s.prescribed(a))
			gvEnsure("reaction in the transformed system", r.AtVec(a) == f)
		} else {
			gvEnsure("equilibrium of the transformed system", f == 0)
			gvEnsure("no reaction in free directions of the transformed system", r.AtVec(a) == 0)
		}
	}
	s.p.EqTransforms = []Transformer{t1, t2}
	res, err := NewLinearProblemSolver().Solve(s.p, s.layout, &gvSolution{name: "sol", rows: []int{a - s.c}})
	gvReach("solved")
	gvEnsure("solving succeeds", err == nil)
	gvEnsure("each transformation is applied and reverted once", gvAnd(t1.pre == 1, t1.post == 1, t2.pre == 1, t2.post == 1))
	gvEnsure("assembled stiffness", t1.gotK == gvSum(0, s.elements, func(e int) float64 { return gvPartK(s.name, e, a, b) }))
	gvEnsure("assembled loads", t1.gotR == gvSum(0, s.elements, func(e int) float64 { return gvPartR(s.name, e, a) })+gvSum(0, s.loads, func(l int) float64 { return gvIte(s.loaded(l) == a, gvFnReal(s.name+".load", l), 0) }))
	if a < s.c {
		gvEnsure("prescribed values", t1.gotD == s.prescribed(a))
	} else {
		gvEnsure("no displacements yet", t1.gotD == 0)
	}
	gvEnsure("second transformation after the first", gvAnd(t2.gotK == t1.k(a, b), t2.gotR == t1.r(a), t2.gotD == t1.gotD))
	gvEnsure("transformed back in the reverse order", gvAnd(t1.backR == t2.postR(a), t1.backD == t2.postD(a)))
	d, r := s.value(res, a)
	gvEnsure("results are transformed back", gvAnd(d == t1.postD(a), r == t1.postR(a)))
}

// Prove_C12_support combines the two: a system that's solved after it has been transformed like Prove_C12_transform says
// and whose solution is transformed back. The inclined support links from with to.
func Prove_C12_support() {
	n := gvNat("n")
	from, to := gvNat("from"), gvNat("to")
	gvAssume(gvAnd(from < n, to < n, from != to))
	angle := gvReal("angle")
	w := gvTurn{from, to, math.Cos(angle), math.Sin(angle)}
	k := func(i, j int) float64 { return gvFnReal("sym:K", i, j) }
	load := func(i int) float64 { return gvFnReal("R", i) }
	// solution of the transformed system
	d1 := func(i int) float64 { return gvFnReal("D1", i) }
	// the reaction is the residual in constrained directions, both are zero in free ones
	r1 := func(a int) float64 {
		return gvSum(0, n, func(j int) float64 { return w.k(k, a, j) * d1(j) }) - w.pre(load, a)
	}
	i := gvNat("i")
	gvAssume(i < n)
	gvAssume(d1(to) == 0) // prescribed
	d := func(a int) float64 { return w.post(d1, a) }
	r := func(a int) float64 { return w.post(r1, a) }
	gvReach("solved")
	gvEnsure("no displacement normal to the inclined direction", w.co*d(to)-w.si*d(from) == 0)
	gvEnsure("the reaction is normal to the inclined direction", gvImplies(r1(from) == 0, w.co*r(from)+w.si*r(to) == 0))
	f := gvSum(0, n, func(j int) float64 { return k(i, j) * d(j) }) - load(i)
	gvEnsure("the reaction is the residual", r(i) == f)
	if i != from && i != to {
		gvEnsure("other reactions are those of the transformed system", r(i) == r1(i))
		gvEnsure("other displacements are those of the transformed system", d(i) == d1(i))
	}
	if i == from || i == to {
		gvEnsure("an inclined support at rest stays at rest", gvImplies(gvAnd(d1(from) == 0, d1(to) == 0), w.pre(d1, i) == 0))
	} else {
		gvEnsure("the transformation leaves other displacements alone", w.pre(d1, i) == d1(i))
	}
}
