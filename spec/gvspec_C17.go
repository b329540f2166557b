package deflect

import "gonum.org/v1/gonum/mat"

// C17: result queries.

// gvTestResult is the result of a solve with n arbitrary degrees of freedom.
func gvTestResult(n int, elements []Element) (*solverResult, []Index) {
	idx := gvDistinctDofs("i", n)
	m := map[Index]int{}
	for i := range idx {
		m[idx[i]] = i
	}
	return &solverResult{total: n, net: gvNat("net"), d: gvVec("D", n), r: gvVec("R", n), indices: newEqLayoutDirect(m), elements: elements}, idx
}

func gvCheckLists(n int) {
	res, idx := gvTestResult(n, nil)
	var prim, reac []NodalValue
	if gvBool("reactions first") {
		reac = res.ReactionAll()
		prim = res.PrimaryAll()
	} else {
		prim = res.PrimaryAll()
		reac = res.ReactionAll()
	}
	gvReach("asked")
	gvEnsure("every degree of freedom is listed once", gvAnd(len(prim) == n, len(reac) == n))
	for i := range idx {
		gvEnsure("displacements in layout order", gvAnd(prim[i].Index == idx[i], prim[i].Value == gvD0(i)))
		gvEnsure("reactions in layout order", gvAnd(reac[i].Index == idx[i], reac[i].Value == gvR0(i)))
		p, err := res.Primary(idx[i])
		gvEnsure("single displacement", gvAnd(err == nil, p == prim[i]))
		r, err := res.Reaction(idx[i])
		gvEnsure("single reaction", gvAnd(err == nil, r == reac[i]))
	}
	prim2, reac2 := res.PrimaryAll(), res.ReactionAll()
	gvEnsure("same length again", gvAnd(len(prim2) == n, len(reac2) == n))
	for i := range idx {
		gvEnsure("same values again", gvAnd(prim2[i] == prim[i], reac2[i] == reac[i]))
	}
	total, net := res.Dimension()
	gvEnsure("dimensions", gvAnd(total == n, net == res.net))
}

// The lists of a result with any number of degrees of freedom.
func Prove_C17_lists() {
	n := gvNat("n")
	res := &solverResult{total: n, net: gvNat("net"), d: gvVec("D", n), r: gvVec("R", n), indices: newEqLayoutDirect(gvNumbering("dof", n))}
	var prim, reac []NodalValue
	if gvBool("reactions first") {
		reac = res.ReactionAll()
		prim = res.PrimaryAll()
	} else {
		prim = res.PrimaryAll()
		reac = res.ReactionAll()
	}
	gvReach("asked")
	gvEnsure("every degree of freedom is listed once", gvAnd(len(prim) == n, len(reac) == n))
	i := gvNat("i")
	gvAssume(i < n)
	x := gvDofAt("dof", i)
	gvEnsure("displacements in layout order", gvAnd(prim[i].Index == x, prim[i].Value == gvD0(i)))
	gvEnsure("reactions in layout order", gvAnd(reac[i].Index == x, reac[i].Value == gvR0(i)))
	p, err := res.Primary(x)
	gvEnsure("single displacement", gvAnd(err == nil, p == prim[i]))
	r, err := res.Reaction(x)
	gvEnsure("single reaction", gvAnd(err == nil, r == reac[i]))
	prim2, reac2 := res.PrimaryAll(), res.ReactionAll()
	gvEnsure("same length again", gvAnd(len(prim2) == n, len(reac2) == n))
	gvEnsure("same values again", gvAnd(prim2[i] == prim[i], reac2[i] == reac[i]))
	total, net := res.Dimension()
	gvEnsure("dimensions", gvAnd(total == n, net == res.net))
}

// The dimensions of a result are those of the problem, whatever its size.
func Prove_C17_dimensions() {
	s := gvNewAnySystem("p")
	res, err := NewLinearProblemSolver().Solve(s.p, s.layout, &gvSolution{name: "sol"})
	gvReach("solved")
	gvAssume(err == nil)
	total, net := res.Dimension()
	gvEnsure("dimensions", gvAnd(total == s.n, net == s.n-s.c))
}

// gv:bounded=2-dofs
func Prove_C17_lists_2() { gvCheckLists(2) }

// gv:bounded=3-dofs
func Prove_C17_lists_3() { gvCheckLists(3) }

// The dimensions of a result are those of the problem.
// gv:bounded=4-dofs
func Prove_C17_dimension() {
	c := gvChoose("c", 3) + 1
	s := gvNewSystem("p", 4, c, 1, 0)
	res, err := NewLinearProblemSolver().Solve(s.p, s.layout, &gvEquations{name: "sol"})
	gvReach("solved")
	gvAssume(err == nil)
	total, net := res.Dimension()
	gvEnsure("dimensions", gvAnd(total == 4, net == 4-c))
}

// gvPolyElement interpolates some of the quantities with arbitrary polynomials.
type gvPolyElement struct {
	gvFakeElement
	quantities []Fct
	pieces     int
}

func (e *gvPolyElement) Interpolate(layout EqLayout, which Fct, d *mat.VecDense) PolySequence {
	for _, q := range e.quantities {
		if q == which {
			return e.poly(int(q))
		}
	}
	return nil
}

func (e *gvPolyElement) poly(q int) PolySequence {
	s := PolySequence{}
	for i := 0; i < e.pieces; i++ {
		s = append(s, PolyPiece{X0: gvFnReal("x", e.id, q, i), XE: gvFnReal("x", e.id, q, i+1), Coeff: []float64{gvFnReal("c0", e.id, q, i), gvFnReal("c1", e.id, q, i)}})
	}
	return s
}

func gvSamePolys(a, b PolySequence) bool {
	same := len(a) == len(b)
	if !same {
		return false
	}
	for i := range a {
		if len(a[i].Coeff) != len(b[i].Coeff) {
			return false
		}
		same = gvAnd(same, a[i].X0 == b[i].X0, a[i].XE == b[i].XE)
		for j := range a[i].Coeff {
			same = gvAnd(same, a[i].Coeff[j] == b[i].Coeff[j])
		}
	}
	return same
}

// Interpolating yields the trimmed and compacted polynomials of the element with the ID, for any of several
// elements; unknown IDs are an error.
// gv:bounded=2-elements-1-piece
func Prove_C17_interpolate() {
	tol := gvReal("tol")
	gvAssume(tol >= 0)
	e := []*gvPolyElement{
		{gvFakeElement: gvFakeElement{id: gvStr("id0")}, quantities: []Fct{FctNx, FctUx}, pieces: 1},
		{gvFakeElement: gvFakeElement{id: gvStr("id1")}, quantities: []Fct{FctMy}, pieces: 1},
	}
	gvAssume(e[0].id != e[1].id)
	res, _ := gvTestResult(2, []Element{e[0], e[1]})
	q := []Fct{FctNx, FctMy, FctVz}[gvChoose("q", 3)]
	id := gvStr("which")
	got, err := res.Interpolate(id, q, tol)
	gvReach("interpolated")
	gvEnsure("unknown IDs are errors", gvIff(err != nil, gvAnd(id != e[0].id, id != e[1].id)))
	if err == nil {
		gvEnsure("labelled", gvAnd(got.Element == id, got.Quantity == q))
		k := 0
		if id == e[1].id {
			k = 1
		}
		want := e[k].Interpolate(res.indices, q, nil)
		want.TrimTrailingZeros(tol)
		want = want.CompactIdentical(tol)
		gvEnsure("interpolation of that element", gvSamePolys(got.Piecewise, want))
		gvEnsure("only available quantities", gvIff(got.Piecewise == nil, want == nil))
		again, err := res.Interpolate(id, q, tol)
		gvEnsure("same again", gvAnd(err == nil, gvSamePolys(again.Piecewise, want)))
	}
}

// The list of all interpolations contains exactly the available quantities of all elements.
// gv:bounded=2-elements
func Prove_C17_interpolate_all() {
	tol := gvReal("tol")
	gvAssume(tol >= 0)
	all := []Fct{FctUx, FctUz, FctUy, FctPhiy, FctPhiz, FctPhix, FctNx, FctVz, FctVy, FctMy, FctMz, FctMx}
	sets := [][]Fct{{}, {all[gvChoose("first", 12)]}}
	e := []*gvPolyElement{
		{gvFakeElement: gvFakeElement{id: gvStr("id0")}, quantities: sets[0], pieces: 1},
		{gvFakeElement: gvFakeElement{id: gvStr("id1")}, quantities: sets[1], pieces: 1},
	}
	if gvBool("both") {
		e[0].quantities = []Fct{FctMy, FctNx}
	}
	gvAssume(e[0].id != e[1].id)
	res, _ := gvTestResult(2, []Element{e[0], e[1]})
	list := res.InterpolateAll(tol)
	gvReach("interpolated")
	gvEnsure("as many as available", len(list) == len(e[0].quantities)+len(e[1].quantities))
	for _, x := range e {
		for _, q := range x.quantities {
			n := 0
			for _, got := range list {
				if gvAnd(got.Element == x.id, got.Quantity == q) {
					n++
					one, err := res.Interpolate(x.id, q, tol)
					gvEnsure("same as the single one", gvAnd(err == nil, gvSamePolys(got.Piecewise, one.Piecewise)))
				}
			}
			gvEnsure("listed once", n == 1)
		}
	}
}
