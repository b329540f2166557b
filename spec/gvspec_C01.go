package deflect

// C01: the assembled tangent.

func gvCheckTangent(g *gvElem) {
	k := gvSym("K", g.n)
	r := gvVec("R", g.n)
	d := gvVec("D", g.n)
	lk := gvLocalK(g)
	gvCondense(lk, make([]float64, len(lk)), g.hinged)
	ke := gvGlobalK(g, lk)
	g.e.Assemble(g.layout, k, r, d)
	gvReach("assembled")
	for i := range g.dofs {
		for j := range g.dofs {
			p, q := g.pos[i], g.pos[j]
			gvEnsure("tangent entry", k.At(p, q) == gvK0(p, q)+ke[i][j])
		}
		gvEnsure("without loads the residual stays", r.AtVec(g.pos[i]) == gvR0(g.pos[i]))
	}
	p, q := gvNat("p"), gvNat("q")
	gvAssume(gvAnd(p < g.n, q < g.n))
	// an entry is foreign if one of its indices (p, the matrix being symmetric) isn't a degree of
	// freedom of the element
	for i := range g.pos {
		gvAssume(p != g.pos[i])
	}
	gvEnsure("no other residual entry changes", r.AtVec(p) == gvR0(p))
	gvEnsure("no other tangent entry changes", gvAnd(k.At(p, q) == gvK0(p, q), k.At(q, p) == gvK0(q, p)))
	gvEnsure("lookups succeeded", g.layout.failure() == nil)
	gvEnsure("matrix sizes stay", gvAnd(k.SymmetricDim() == g.n, r.Len() == g.n))
}

// The assembled tangent of a 2d truss is the exact one for every hinge setup, rotated into global axes.
func Prove_C01_truss2d() { gvCheckTangent(gvTruss2d()) }

// The assembled tangent of a 3d truss is the exact one for every hinge setup, rotated into global axes.
func Prove_C01_truss3d() { gvCheckTangent(gvTruss3d()) }

// The assembled tangent of a 2d frame is the exact one for every hinge setup, rotated into global axes.
func Prove_C01_frame2d() { gvCheckTangent(gvFrame2d()) }
