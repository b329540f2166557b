package deflect

// C06: superposition of piecewise polynomials.

// gvPieces are arbitrary pieces with the given numbers of coefficients.
func gvPieces(name string, ncoeff []int) PolySequence {
	ps := make(PolySequence, len(ncoeff))
	for i, n := range ncoeff {
		c := make([]float64, n)
		for j := range c {
			c[j] = gvReal(gvName(gvName(name+"_c", i)+"_", j))
		}
		ps[i] = PolyPiece{X0: gvReal(gvName(name+"_x0_", i)), XE: gvReal(gvName(name+"_xE_", i)), Coeff: c}
	}
	return ps
}

func gvCopyPieces(ps PolySequence) PolySequence {
	r := make(PolySequence, len(ps))
	for i, p := range ps {
		r[i] = PolyPiece{X0: p.X0, XE: p.XE, Coeff: make([]float64, len(p.Coeff))}
		for j, c := range p.Coeff {
			r[i].Coeff[j] = c
		}
	}
	return r
}

func gvSamePieces(why string, a, b PolySequence) {
	gvEnsure(why+": number of pieces", len(a) == len(b))
	if len(a) != len(b) {
		return
	}
	for i := range a {
		gvEnsure(why+": domain", gvAnd(a[i].X0 == b[i].X0, a[i].XE == b[i].XE))
		gvEnsure(why+": number of coefficients", len(a[i].Coeff) == len(b[i].Coeff))
		if len(a[i].Coeff) == len(b[i].Coeff) {
			for j := range a[i].Coeff {
				gvEnsure(why+": coefficient", a[i].Coeff[j] == b[i].Coeff[j])
			}
		}
	}
}

func gvFar(a, b float64) bool { return gvOr(a == b, a+0.000000001 < b, b+0.000000001 < a) }

func gvCheckFlatten(ps PolySequence) {
	xs := []float64{}
	for _, p := range ps {
		gvAssume(p.X0+0.000000001 < p.XE)
		for _, y := range xs {
			gvAssume(gvFar(p.X0, y))
			gvAssume(gvFar(p.XE, y))
		}
		xs = append(xs, p.X0, p.XE)
	}
	orig := gvCopyPieces(ps)
	res := ps.flatten()
	gvReach("flattened")
	gvSamePieces("input unmodified", ps, orig)

	x := gvReal("x")
	off := true
	in, out := false, false
	for _, p := range orig {
		off = gvAnd(off, x != p.X0, x != p.XE)
		in = gvOr(in, gvAnd(p.X0 < x, x < p.XE))
	}
	for i, q := range res {
		out = gvOr(out, gvAnd(q.X0 < x, x < q.XE))
		b0, bE := false, false
		for _, y := range xs {
			b0 = gvOr(b0, q.X0 == y)
			bE = gvOr(bE, q.XE == y)
			gvEnsure("no breakpoint is skipped", gvNot(gvAnd(q.X0 < y, y < q.XE)))
		}
		gvEnsure("breakpoints of the input", gvAnd(b0, bE))
		gvEnsure("proper interval", q.X0 < q.XE)
		if i > 0 {
			gvEnsure("ascending and disjoint", res[i-1].XE <= q.X0)
		}
		gvEnsure("has coefficients", len(q.Coeff) > 0)
		for j := 0; j < 4; j++ {
			sum := 0.0
			for _, p := range orig {
				sum += gvIte(gvAnd(p.X0 <= q.X0, q.XE <= p.XE), gvCoeff(p.Coeff, j), 0)
			}
			gvEnsure("sum of the covering pieces", gvCoeff(q.Coeff, j) == sum)
		}
	}
	gvEnsure("covers the domain of the input and nothing else", gvImplies(off, gvIff(in, out)))
	// the result doesn't share coefficients with the input
	for i := range res {
		for j := range res[i].Coeff {
			res[i].Coeff[j] = gvReal("overwrite")
		}
	}
	gvSamePieces("result is independent", ps, orig)
}

// gv:bounded=1-piece
func Prove_C06_flatten_1() { gvCheckFlatten(gvPieces("p", []int{2})) }

// gv:bounded=2-pieces
func Prove_C06_flatten_12() { gvCheckFlatten(gvPieces("p", []int{1, 3})) }

// gv:bounded=2-pieces
func Prove_C06_flatten_21() { gvCheckFlatten(gvPieces("p", []int{2, 1})) }

// gv:bounded=3-pieces tier=thorough
func Prove_C06_flatten_122() { gvCheckFlatten(gvPieces("p", []int{1, 2, 1})) }

// Two pieces with a common start, a third one anywhere.
//
// gv:bounded=3-pieces
func Prove_C06_flatten_corner() {
	ps := gvPieces("p", []int{1, 2, 1})
	ps[1].X0 = ps[0].X0
	gvCheckFlatten(ps)
}

// What elements superpose: pieces over the whole length and pairs that meet in between; coefficients may be shared.
//
// gv:bounded=5-pieces
func Prove_C06_flatten_element() {
	ps := gvPieces("p", []int{2, 1, 3, 2, 1})
	ps[2].X0, ps[2].XE = ps[0].X0, ps[0].XE
	ps[1].X0, ps[3].XE, ps[3].X0 = ps[0].X0, ps[0].XE, ps[1].XE
	ps[4].X0, ps[4].XE = ps[3].X0, ps[3].XE
	gvCheckFlatten(ps)
}

// gv:bounded=4-pieces
func Prove_C06_flatten_shared() {
	ps := gvPieces("p", []int{1, 2, 2, 2})
	for i := range ps {
		ps[i].X0, ps[i].XE = ps[0].X0, ps[0].XE
	}
	ps[2].Coeff = ps[1].Coeff
	ps[3].Coeff = ps[1].Coeff
	gvCheckFlatten(ps)
}

func Prove_C06_flatten_0() {
	gvEnsure("nothing to superpose", len(PolySequence{}.flatten()) == 0)
}
