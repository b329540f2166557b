package deflect

// gvRemoveAny adds any number of loads, and removes one of them or one that was never added.
func gvRemoveAny(g *gvElem, kind Dof) {
	for i := range g.hinged {
		gvAssume(gvNot(g.hinged[i]))
	}
	n := gvNat("loads")
	shape := gvChoose("shape", 3)
	pos := gvReal("position")
	gvAssume(gvAnd(0 <= pos, pos <= g.l))
	load := func(i int) NeumannElementBC {
		switch shape {
		case 0:
			ld, _ := NewElementConcentratedLoad(kind, pos, gvFnReal("q0", i))
			return ld
		case 1:
			return NewElementConstantLoad(kind, gvFnReal("q0", i))
		}
		return NewElementLinearLoad(kind, gvFnReal("q0", i), gvFnReal("q1", i))
	}
	all := make([]NeumannElementBC, n)
	for i := range all {
		all[i] = load(i)
		g.e.AddLoad(all[i])
	}
	w := gvNat("removed")
	gvAssume(w < n)
	history := gvChoose("history", 2)
	switch history {
	case 0:
		g.e.RemoveLoad(all[w])
	default:
		g.e.RemoveLoad(load(w)) // another load with the same values
	}
	lr := make([]float64, len(g.local))
	for j := range lr {
		lr[j] = gvSum(0, n, func(i int) float64 {
			last := gvFnReal("q0", i)
			if shape == 2 {
				last = gvFnReal("q1", i)
			}
			ld := gvLoad{shape: shape, kind: kind, pos: pos, v0: gvFnReal("q0", i), v1: last}
			return gvIte(gvAnd(history == 0, i == w), 0, gvWork(g, &ld, j))
		})
	}
	re := gvGlobalR(g, lr)
	k, r, d := gvSym("K", g.n), gvVec("R", g.n), gvVec("D", g.n)
	g.e.Assemble(g.layout, k, r, d)
	gvReach("assembled")
	for i := range g.dofs {
		gvEnsure("effect of the remaining loads", r.AtVec(g.pos[i]) == gvR0(g.pos[i])+re[i])
	}
}

// Any number of loads, concentrated ones at the same position, of which any one is removed.
func Prove_C13_remove_truss2d() { gvRemoveAny(gvTruss2d(), Ux) }
func Prove_C13_remove_truss3d() { gvRemoveAny(gvTruss3d(), Ux) }
func Prove_C13_remove_frame2d() { gvRemoveAny(gvFrame2d(), []Dof{Ux, Uz}[gvChoose("kind", 2)]) }
