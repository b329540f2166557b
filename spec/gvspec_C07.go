package deflect

// C07: evaluation and calculus of polynomial pieces.

func gvCheckEval(n int) {
	p := gvPieces("p", []int{n})[0]
	c := gvCopyPieces(PolySequence{p})
	x := gvReal("x")
	y, err := p.Eval(x)
	gvReach("evaluated")
	tol := 1e-10
	inside := gvAnd(p.X0 <= x, x <= p.XE)
	outside := gvOr(x < p.X0-tol, x > p.XE+tol)
	gvEnsure("inside the domain isn't an error", gvImplies(inside, err == nil))
	gvEnsure("outside the domain is an error", gvImplies(outside, err != nil))
	gvEnsure("value of the polynomial", gvImplies(inside, y == gvPolyEval(c[0].Coeff, x)))
	gvSamePieces("evaluation has no effect", PolySequence{p}, c)
}

func gvCheckDerive(n int) {
	p := gvPieces("p", []int{n})[0]
	c := gvCopyPieces(PolySequence{p})
	q := p.derive()
	gvReach("derived")
	gvEnsure("domain", gvAnd(q.X0 == p.X0, q.XE == p.XE))
	gvEnsure("is a polynomial", len(q.Coeff) > 0)
	d := gvPolyDeriv(c[0].Coeff)
	for j := 0; j < len(d) || j < len(q.Coeff); j++ {
		gvEnsure("derivative", gvCoeff(q.Coeff, j) == gvCoeff(d, j))
	}
	for j := range q.Coeff {
		q.Coeff[j] = gvReal("overwrite")
	}
	gvSamePieces("derivative has no effect", PolySequence{p}, c)
}

func gvCheckIntegrate(n int) {
	p := gvPieces("p", []int{n})[0]
	gvAssume(p.X0 <= p.XE)
	c := gvCopyPieces(PolySequence{p})
	c0 := gvReal("constant")
	q := p.integrate(c0)
	gvReach("integrated")
	gvIsIntegral(PolySequence{q}, c, 1, c0)
	for j := range q.Coeff {
		q.Coeff[j] = gvReal("overwrite")
	}
	gvSamePieces("integration has no effect", PolySequence{p}, c)
}

// gv:bounded=5-coefficients
func Prove_C07_eval() {
	gvCheckEval(1)
	gvCheckEval(2)
	gvCheckEval(3)
	gvCheckEval(4)
	gvCheckEval(5)
}

// gv:bounded=5-coefficients
func Prove_C07_derive() {
	gvCheckDerive(1)
	gvCheckDerive(2)
	gvCheckDerive(3)
	gvCheckDerive(4)
	gvCheckDerive(5)
}

// gv:bounded=5-coefficients
func Prove_C07_integrate() {
	gvCheckIntegrate(1)
	gvCheckIntegrate(2)
	gvCheckIntegrate(3)
	gvCheckIntegrate(4)
	gvCheckIntegrate(5)
}

func gvCheckIntegrateSeq(ncoeff []int) {
	ps := gvPieces("p", ncoeff)
	for i := range ps {
		gvAssume(ps[i].X0 < ps[i].XE)
		if i > 0 {
			ps[i].X0 = ps[i-1].XE
			gvAssume(ps[i].X0 < ps[i].XE)
		}
	}
	c := gvCopyPieces(ps)
	c0 := gvReal("constant")
	q := ps.integrate(c0)
	gvReach("integrated")
	gvIsIntegral(q, c, 1, c0)
	for i := range q {
		for j := range q[i].Coeff {
			q[i].Coeff[j] = gvReal("overwrite")
		}
	}
	gvSamePieces("integration has no effect", ps, c)
}

// gv:bounded=3-pieces
func Prove_C07_integrate_sequence() {
	gvEnsure("nothing to integrate", len(PolySequence{}.integrate(gvReal("constant"))) == 0)
	gvCheckIntegrateSeq([]int{2})
	gvCheckIntegrateSeq([]int{1, 3})
	gvCheckIntegrateSeq([]int{2, 1, 2})
}

// gv:bounded=3-pieces
func Prove_C07_multiply() {
	ps := gvPieces("p", []int{3, 1, 2})
	c := gvCopyPieces(ps)
	f := gvReal("factor")
	ps.multiply(f)
	for i := range c {
		for j := range c[i].Coeff {
			c[i].Coeff[j] *= f
		}
	}
	gvSamePieces("scaled", ps, c)
}

// gv:bounded=2-pieces
func Prove_C07_interval_index() {
	ps := gvPieces("p", []int{1, 1})
	c := gvCopyPieces(ps)
	x0, xE := gvReal("x0"), gvReal("xE")
	for _, p := range ps {
		gvAssume(gvFar(p.X0, x0))
		gvAssume(gvFar(p.XE, xE))
		// relative tolerance
		gvAssume(gvAnd(x0 < 1, x0 > -1, xE < 1, xE > -1, p.X0 > -1, p.X0 < 1, p.XE > -1, p.XE < 1))
	}
	k := ps.IntervalIndex(x0, xE)
	gvReach("looked up")
	for i, p := range c {
		match := gvAnd(p.X0 == x0, p.XE == xE)
		gvEnsure("first matching piece", gvImplies(k == i, match))
		gvEnsure("no earlier piece matches", gvImplies(match, gvAnd(k >= 0, k <= i)))
	}
	gvEnsure("index or -1", gvAnd(k >= -1, k < len(ps)))
	gvSamePieces("lookup has no effect", ps, c)
}

// gvAnyPiece is a polynomial with n+1 coefficients.
func gvAnyPiece(name string, n int) PolyPiece {
	p := PolyPiece{X0: gvReal(name + ".X0"), XE: gvReal(name + ".XE")}
	for j := 0; j <= n; j++ {
		p.Coeff = append(p.Coeff, gvFnReal(name, j))
	}
	return p
}

// gvAnyPieceAt is its value at x.
func gvAnyPieceAt(name string, n int, x float64) float64 {
	return gvFnReal(name, 0) + gvSum(0, n, func(j int) float64 { return gvFnReal(name, j+1) * gvPow(x, j+1) })
}

// Evaluating a polynomial of any degree gives its value inside the domain, and an error elsewhere.
func Prove_C07_eval_any() {
	n := gvNat("degree")
	p := gvAnyPiece("p", n)
	x := gvReal("x")
	y, err := p.Eval(x)
	gvReach("evaluated")
	tol := 1e-10
	inside := gvAnd(p.X0 <= x, x <= p.XE)
	gvEnsure("inside the domain isn't an error", gvImplies(inside, err == nil))
	gvEnsure("outside the domain is an error", gvImplies(gvOr(x < p.X0-tol, x > p.XE+tol), err != nil))
	gvEnsure("value of the polynomial", gvImplies(inside, y == gvAnyPieceAt("p", n, x)))
	gvEnsure("evaluation has no effect", len(p.Coeff) == n+1)
	j := gvNat("j")
	gvAssume(j <= n)
	gvEnsure("evaluation leaves coefficients alone", p.Coeff[j] == gvFnReal("p", j))
}

// The derivative of a polynomial of any degree.
func Prove_C07_derive_any() {
	n := gvNat("degree")
	p := gvAnyPiece("p", n)
	q := p.derive()
	gvReach("derived")
	gvEnsure("domain", gvAnd(q.X0 == p.X0, q.XE == p.XE))
	if n == 0 {
		gvEnsure("derivative of a constant", gvAnd(len(q.Coeff) == 1, q.Coeff[0] == 0))
	} else {
		gvEnsure("degree of the derivative", len(q.Coeff) == n)
		j := gvNat("j")
		gvAssume(j < n)
		gvEnsure("derivative", q.Coeff[j] == float64(j+1)*gvFnReal("p", j+1))
		q.Coeff[j] = gvReal("overwrite")
	}
	gvEnsure("number of coefficients", len(p.Coeff) == n+1)
	j := gvNat("i")
	gvAssume(j <= n)
	gvEnsure("derivative has no effect", p.Coeff[j] == gvFnReal("p", j))
}

// The antiderivative of a polynomial of any degree takes the given value at the start of the domain.
func Prove_C07_integrate_any() {
	n := gvNat("degree")
	p := gvAnyPiece("p", n)
	gvAssume(p.X0 <= p.XE)
	c0 := gvReal("constant")
	q := p.integrate(c0)
	gvReach("integrated")
	gvEnsure("domain", gvAnd(q.X0 == p.X0, q.XE == p.XE))
	gvEnsure("degree of the integral", len(q.Coeff) == n+2)
	j := gvNat("j")
	gvAssume(j <= n)
	gvEnsure("integral", q.Coeff[j+1]*float64(j+1) == gvFnReal("p", j))
	gvEnsure("value at the start", q.Coeff[0]+gvSum(0, n+1, func(j int) float64 { return gvFnReal("p", j) / float64(j+1) * gvPow(p.X0, j+1) }) == c0)
	q.Coeff[j] = gvReal("overwrite")
	gvEnsure("integration has no effect", p.Coeff[j] == gvFnReal("p", j))
}

// Scaling any number of pieces of any degree.
func Prove_C07_multiply_any() {
	var ps PolySequence
	n := gvNat("pieces")
	for i := 0; i < n; i++ {
		var c []float64
		for j := 0; j < gvFnNat("coefficients", i); j++ {
			c = append(c, gvFnReal("p", i, j))
		}
		ps = append(ps, PolyPiece{X0: gvFnReal("X0", i), XE: gvFnReal("XE", i), Coeff: c})
	}
	f := gvReal("factor")
	ps.multiply(f)
	gvReach("scaled")
	i, j := gvNat("i"), gvNat("j")
	gvAssume(gvAnd(i < n, j < gvFnNat("coefficients", i)))
	gvEnsure("domain", gvAnd(ps[i].X0 == gvFnReal("X0", i), ps[i].XE == gvFnReal("XE", i)))
	gvEnsure("number of coefficients", len(ps[i].Coeff) == gvFnNat("coefficients", i))
	gvEnsure("scaled", ps[i].Coeff[j] == f*gvFnReal("p", i, j))
}

// Looking for a piece in any number of pieces.
func Prove_C07_interval_index_any() {
	var ps PolySequence
	n := gvNat("pieces")
	x0, xE := gvReal("x0"), gvReal("xE")
	for i := 0; i < n; i++ {
		ps = append(ps, PolyPiece{X0: gvFnReal("X0", i), XE: gvFnReal("XE", i), Coeff: []float64{gvFnReal("p", i)}})
	}
	k := ps.IntervalIndex(x0, xE)
	gvReach("looked up")
	gvEnsure("index or -1", gvAnd(k >= -1, k < n))
	far := func(a, b float64) bool { return gvNot(gvClose(a, b, 1e-10)) }
	if k >= 0 {
		gvEnsure("the piece matches", gvNot(gvOr(far(ps[k].X0, x0), far(ps[k].XE, xE))))
	}
	i := gvNat("i")
	gvAssume(gvAnd(i < n, gvFnReal("X0", i) == x0, gvFnReal("XE", i) == xE))
	gvEnsure("a matching piece is found", gvAnd(k >= 0, k <= i))
}
