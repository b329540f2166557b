package deflect

import "gonum.org/v1/gonum/mat"

// gvNthElement is the i-th of any number of elements.
type gvNthElement struct {
	gvFakeElement
	i int
}

func (e *gvNthElement) Interpolate(layout EqLayout, which Fct, d *mat.VecDense) PolySequence {
	if which != FctNx && which != FctMy {
		return nil
	}
	q := int(which)
	mid := gvFnReal("mid", e.i)
	return PolySequence{
		{X0: 0, XE: mid, Coeff: []float64{gvFnReal("c0", e.i, q), gvFnReal("c1", e.i, q)}},
		{X0: mid, XE: gvFnReal("len", e.i), Coeff: []float64{gvFnReal("d0", e.i, q)}},
	}
}

// Interpolating one of any number of elements yields the trimmed and compacted polynomials of the element with the ID;
// unknown IDs are an error.
//
// gv:cost=60
func Prove_C17_interpolate_any() {
	n := gvNat("elements")
	elements := []Element{}
	for i := 0; i < n; i++ {
		elements = append(elements, &gvNthElement{gvFakeElement{id: gvFnStr("id", i)}, i})
	}
	res, _ := gvTestResult(2, elements)
	tol := gvReal("tol")
	gvAssume(tol >= 0)
	q := []Fct{FctNx, FctMy, FctVz}[gvChoose("q", 3)]
	id := gvStr("which")
	known := gvChoose("known", 2) == 1
	w := gvNat("w")
	if known {
		gvAssume(gvAnd(w < n, id == gvFnStr("id", w)))
	}
	gvAssume(gvForall(func(i int) bool {
		return gvOr(i < 0, i >= n, gvAnd(known, i == w), gvFnStr("id", i) != id)
	}))
	got, err := res.Interpolate(id, q, tol)
	gvReach("interpolated")
	gvEnsure("unknown IDs are errors", gvIff(err == nil, known))
	if err != nil {
		return
	}
	gvEnsure("labelled", gvAnd(got.Element == id, got.Quantity == q))
	want := (&gvNthElement{i: w}).Interpolate(res.indices, q, nil)
	want.TrimTrailingZeros(tol)
	want = want.CompactIdentical(tol)
	gvEnsure("interpolation of that element", gvSamePolys(got.Piecewise, want))
	gvEnsure("only available quantities", gvIff(got.Piecewise == nil, want == nil))
}

// gvFlatElement has one constant and one linear quantity.
type gvFlatElement struct {
	gvFakeElement
	i int
}

func (e *gvFlatElement) Interpolate(layout EqLayout, which Fct, d *mat.VecDense) PolySequence {
	switch which {
	case FctNx:
		return PolySequence{{X0: 0, XE: gvFnReal("len", e.i), Coeff: []float64{gvFnReal("c0", e.i)}}}
	case FctUx:
		return PolySequence{{X0: 0, XE: gvFnReal("len", e.i), Coeff: []float64{gvFnReal("u0", e.i), 1}}}
	}
	return nil
}

// The list of all interpolations is as long as the available quantities of all elements, whatever their number (that
// each is listed exactly once is shown for the bounded element lists).
//
// gv:cost=80
func Prove_C17_interpolate_all_any() {
	n := gvNat("elements")
	elements := []Element{}
	for i := 0; i < n; i++ {
		elements = append(elements, &gvFlatElement{gvFakeElement{id: gvFnStr("id", i)}, i})
	}
	gvAssume(gvForall(func(i int) bool {
		return gvForall(func(j int) bool {
			return gvOr(i < 0, i >= n, j < 0, j >= n, i == j, gvFnStr("id", i) != gvFnStr("id", j))
		})
	}))
	res, _ := gvTestResult(2, elements)
	list := res.InterpolateAll(0)
	gvReach("interpolated")
	gvEnsure("as many as available", len(list) == 2*n)
}
