package deflect

// C08: trimming and compacting of polynomial sequences.

func gvSmall(x, tol float64) bool { return gvAnd(x <= tol, -tol <= x) }

func gvCheckTrim(ncoeff []int) {
	ps := gvPieces("p", ncoeff)
	c := gvCopyPieces(ps)
	tol := gvReal("tol")
	gvAssume(tol >= 0)
	ps.TrimTrailingZeros(tol)
	gvReach("trimmed")
	gvEnsure("number of pieces", len(ps) == len(c))
	for i := range ps {
		gvEnsure("domain", gvAnd(ps[i].X0 == c[i].X0, ps[i].XE == c[i].XE))
		n, m := len(ps[i].Coeff), len(c[i].Coeff)
		gvEnsure("keeps a coefficient", gvAnd(n >= 1, n <= m))
		for j := range c[i].Coeff {
			switch {
			case j >= n:
				gvEnsure("only drops coefficients within the tolerance", gvSmall(c[i].Coeff[j], tol))
			case j == 0:
				gvEnsure("constant term", ps[i].Coeff[0] == gvIte(gvSmall(c[i].Coeff[0], tol), 0, c[i].Coeff[0]))
			default:
				gvEnsure("keeps other coefficients", ps[i].Coeff[j] == c[i].Coeff[j])
			}
		}
		if n > 1 {
			gvEnsure("drops all trailing zeros", gvNot(gvSmall(c[i].Coeff[n-1], tol)))
		}
	}
}

// gv:bounded=2-pieces
func Prove_C08_trim() { gvCheckTrim([]int{4, 2}) }

// gv:bounded=2-pieces
func Prove_C08_trim_constant() { gvCheckTrim([]int{1, 3}) }

// gvClose is the comparison compacting is allowed to use.
func gvClose(a, b, tol float64) bool {
	return gvOr(gvSmall(a-b, tol), gvSmall(a-b, tol*gvMax(gvAbs(a), gvAbs(b))))
}
func gvAbs(a float64) float64    { return gvIte(a < 0, -a, a) }
func gvMax(a, b float64) float64 { return gvIte(a < b, b, a) }

func gvCheckCompact(ncoeff []int) {
	ps := gvPieces("p", ncoeff)
	tol := gvReal("tol")
	gvAssume(gvAnd(tol >= 0, tol < 1))
	for i := range ps {
		gvAssume(ps[i].X0 < ps[i].XE)
		if i > 0 {
			gvAssume(gvOr(ps[i-1].XE == ps[i].X0, ps[i-1].XE < ps[i].X0))
			// touching is unambiguous
			gvAssume(gvOr(ps[i-1].XE == ps[i].X0, gvNot(gvClose(ps[i-1].XE, ps[i].X0, tol))))
		}
	}
	c := gvCopyPieces(ps)
	q := ps.CompactIdentical(tol)
	gvReach("compacted")
	gvEnsure("no additional pieces", gvAnd(len(q) <= len(c), len(q) >= 1))
	if len(q) == 0 {
		return
	}
	// same[i]: pieces i-1 and i may be merged
	same := make([]bool, len(c))
	for i := 1; i < len(c); i++ {
		same[i] = c[i-1].XE == c[i].X0
		if len(c[i].Coeff) != len(c[i-1].Coeff) {
			same[i] = false
			continue
		}
		for j := range c[i].Coeff {
			same[i] = gvAnd(same[i], gvClose(c[i-1].Coeff[j], c[i].Coeff[j], tol))
		}
	}
	// first input piece of every output piece, one after the other
	k := 0
	for i := range q {
		gvEnsure("pieces are in order", k < len(c))
		if k >= len(c) {
			return
		}
		gvEnsure("starts where the first merged piece starts", q[i].X0 == c[k].X0)
		gvEnsure("coefficients", len(q[i].Coeff) == len(c[k].Coeff))
		if len(q[i].Coeff) != len(c[k].Coeff) {
			return
		}
		for j := range q[i].Coeff {
			gvEnsure("coefficients are unchanged", q[i].Coeff[j] == c[k].Coeff[j])
		}
		k++
		for k < len(c) && same[k] {
			k++
		}
		gvEnsure("ends where the last merged piece ends", q[i].XE == c[k-1].XE)
	}
	gvEnsure("no piece is lost", k == len(c))
}

func Prove_C08_compact_0() {
	gvEnsure("nothing to compact", len(PolySequence{}.CompactIdentical(gvReal("tol"))) == 0)
}

// gv:bounded=3-pieces
func Prove_C08_compact_constant() { gvCheckCompact([]int{1, 1, 1}) }

// gv:bounded=2-pieces
func Prove_C08_compact_linear() { gvCheckCompact([]int{2, 2}) }

// gv:bounded=3-pieces
func Prove_C08_compact_mixed() { gvCheckCompact([]int{1, 2, 2}) }
