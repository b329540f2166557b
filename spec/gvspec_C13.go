package deflect

// C13: element loads form a multiset. Histories of additions and removals are observed through
// the residual the element assembles; all load values, positions, kinds and shapes are arbitrary.

// gvLoadFits tells if the element supports the load; on is false when the position is in
// the rounding tolerance beyond the end of the element, where both answers are fine.
func gvLoadFits(g *gvElem, ld *gvLoad) (supported, sure bool) {
	ax := ld.kind == Ux
	bd := gvAnd(g.beam, gvOr(ld.kind == Uz, gvAnd(ld.shape == 0, ld.kind == Phiy)))
	fits := gvOr(ld.shape != 0, gvAnd(ld.pos >= 0, ld.pos <= g.l))
	near := gvAnd(ld.shape == 0, ld.pos > g.l, ld.pos <= g.l+1e-9)
	return gvAnd(gvOr(ax, bd), fits), gvNot(near)
}

func gvAccepts(g *gvElem, ld *gvLoad) bool {
	acc := g.e.AddLoad(ld.bc)
	sup, sure := gvLoadFits(g, ld)
	gvEnsure("exactly the supported loads are accepted", gvImplies(sure, acc == sup))
	return acc
}

// gvResidual compares the assembled residual with the loads (with multiplicity).
func gvResidual(g *gvElem, loads []*gvLoad, times []float64) {
	k := gvSym("K", g.n)
	r := gvVec("R", g.n)
	d := gvVec("D", g.n)
	lr := make([]float64, len(g.local))
	for i := range lr {
		for a, ld := range loads {
			if times[a] > 0 {
				lr[i] += times[a] * gvWork(g, ld, i)
			}
		}
	}
	gvCondense(gvLocalK(g), lr, g.hinged)
	re := gvGlobalR(g, lr)
	g.e.Assemble(g.layout, k, r, d)
	gvReach("assembled")
	for i := range g.dofs {
		gvEnsure("effect of the loads", r.AtVec(g.pos[i]) == gvR0(g.pos[i])+re[i])
	}
}

// gvHistory runs n arbitrary additions and removals of two loads.
func gvHistory(g *gvElem, n int) {
	for i := range g.hinged {
		gvAssume(gvNot(g.hinged[i]))
	}
	loads := []*gvLoad{gvAnyLoad(0), gvAnyLoad(1)}
	times := []float64{0, 0}
	for i := 0; i < n; i++ {
		op := gvChoose(gvName("op", i), 4)
		ld := loads[op%2]
		if op < 2 {
			if gvAccepts(g, ld) {
				times[op]++
			}
		} else {
			g.e.RemoveLoad(ld.bc)
			times[op-2] = 0
		}
	}
	gvResidual(g, loads, times)
}

// gv:bounded=3-operations-on-2-loads cost=20
func Prove_C13_truss2d() { gvHistory(gvTruss2d(), 3) }

// gv:bounded=3-operations-on-2-loads cost=20
func Prove_C13_truss3d() { gvHistory(gvTruss3d(), 3) }

// An add, add, remove history on a frame, whose loads are stored in two places.
// gv:bounded=2-operations-on-2-loads cost=60
func Prove_C13_frame2d() {
	g := gvFrame2d()
	for i := range g.hinged {
		gvAssume(gvNot(g.hinged[i]))
	}
	loads := []*gvLoad{gvAnyLoad(0), gvAnyLoad(1)}
	times := []float64{0, 0}
	if gvAccepts(g, loads[0]) {
		times[0]++
	}
	if gvAccepts(g, loads[1]) {
		times[1]++
	}
	g.e.RemoveLoad(loads[0].bc)
	times[0] = 0
	gvResidual(g, loads, times)
}

// Adding a load decides by its kind and position only, whatever it is.
func Prove_C13_accept_truss2d() { gvAccepts(gvTruss2d(), gvAnyLoad(0)); gvReach("added") }
func Prove_C13_accept_truss3d() { gvAccepts(gvTruss3d(), gvAnyLoad(0)); gvReach("added") }
func Prove_C13_accept_frame2d() { gvAccepts(gvFrame2d(), gvAnyLoad(0)); gvReach("added") }

type gvForeignLoad struct{ kind Dof }

// Loads of a type the package doesn't know are rejected.
func Prove_C13_foreign() {
	for i := 0; i < 3; i++ {
		var g *gvElem
		switch i {
		case 0:
			g = gvTruss2d()
		case 1:
			g = gvTruss3d()
		default:
			g = gvFrame2d()
		}
		gvEnsure("rejected", !g.e.AddLoad(&gvForeignLoad{kind: Ux}))
		gvEnsure("rejected", !g.e.AddLoad(nil))
	}
	gvReach("done")
}
