package deflect

// C02: element loads in the residual.

// gvLoad is an arbitrary element load.
type gvLoad struct {
	bc       NeumannElementBC
	shape    int // 0 concentrated, 1 constant, 2 linear
	kind     Dof
	pos      float64
	v0, v1   float64
	accepted bool
}

func gvAnyLoad(i int) *gvLoad {
	ld := &gvLoad{shape: gvInt(gvName("shape", i)), kind: Dof(gvNat(gvName("kind", i))), v0: gvReal(gvName("first", i))}
	switch {
	case ld.shape == 0:
		ld.pos = gvReal(gvName("pos", i))
		bc, err := NewElementConcentratedLoad(ld.kind, ld.pos, ld.v0)
		gvAssume(err == nil)
		ld.bc = bc
	case ld.shape == 1:
		ld.v1 = ld.v0
		ld.bc = NewElementConstantLoad(ld.kind, ld.v0)
	default:
		gvAssume(ld.shape == 2)
		ld.v1 = gvReal(gvName("last", i))
		ld.bc = NewElementLinearLoad(ld.kind, ld.v0, ld.v1)
	}
	return ld
}

// gvWork is the work-equivalent force in local degree of freedom i of the element.
func gvWork(g *gvElem, ld *gvLoad, i int) float64 {
	dir := Ux
	if i >= 2 {
		dir = Uz
	}
	sh := gvShapes(g.l)[i]
	if ld.shape == 0 {
		force := gvPolyEval(sh, ld.pos/g.l) * ld.v0
		moment := 0.0
		if i >= 2 { // phi = -dw/dx
			moment = -gvPolyEval(gvPolyDeriv(sh), ld.pos/g.l) / g.l * ld.v0
		}
		return gvIte(ld.kind == dir, force, gvIte(ld.kind == Phiy, moment, 0))
	}
	return gvIte(ld.kind == dir, g.l*gvPolyDot([]float64{ld.v0, ld.v1 - ld.v0}, sh), 0)
}

func gvCheckLoads(g *gvElem, loads []*gvLoad) {
	for i := range loads {
		loads[i].accepted = g.e.AddLoad(loads[i].bc)
	}
	k := gvSym("K", g.n)
	r := gvVec("R", g.n)
	d := gvVec("D", g.n)
	lr := make([]float64, len(g.local))
	for i := range lr {
		for _, ld := range loads {
			if ld.accepted {
				lr[i] += gvWork(g, ld, i)
			}
		}
	}
	gvCondense(gvLocalK(g), lr, g.hinged)
	re := gvGlobalR(g, lr)
	g.e.Assemble(g.layout, k, r, d)
	gvReach("assembled")
	for i := range g.dofs {
		gvEnsure("work-equivalent nodal load", r.AtVec(g.pos[i]) == gvR0(g.pos[i])+re[i])
	}
	p := gvNat("p")
	gvAssume(p < g.n)
	for i := range g.pos {
		gvAssume(p != g.pos[i])
	}
	gvEnsure("no other residual entry changes", r.AtVec(p) == gvR0(p))
}

// gv:bounded=1-load
func Prove_C02_truss2d_1() { gvCheckLoads(gvTruss2d(), []*gvLoad{gvAnyLoad(0)}) }

// gv:bounded=2-loads
func Prove_C02_truss2d_2() { gvCheckLoads(gvTruss2d(), []*gvLoad{gvAnyLoad(0), gvAnyLoad(1)}) }

// gv:bounded=2-loads
func Prove_C02_truss3d_2() { gvCheckLoads(gvTruss3d(), []*gvLoad{gvAnyLoad(0), gvAnyLoad(1)}) }

// gv:bounded=1-load
func Prove_C02_frame2d_1() { gvCheckLoads(gvFrame2d(), []*gvLoad{gvAnyLoad(0)}) }

// gvLoadI is load i of an arbitrary list.
func gvLoadI(i int) *gvLoad {
	ld := &gvLoad{accepted: true, shape: gvFnInt("shape", i), kind: Dof(gvFnInt("kind", i)), v0: gvFnReal("first", i)}
	switch {
	case ld.shape == 0:
		ld.pos = gvFnPos("position of load", i)
		bc, err := NewElementConcentratedLoad(ld.kind, ld.pos, ld.v0)
		gvAssume(err == nil)
		ld.bc = bc
	case ld.shape == 1:
		ld.v1 = ld.v0
		ld.bc = NewElementConstantLoad(ld.kind, ld.v0)
	default:
		ld.v1 = gvFnReal("last", i)
		ld.bc = NewElementLinearLoad(ld.kind, ld.v0, ld.v1)
	}
	return ld
}

// gvAddLoads adds any number of arbitrary loads and tells which were accepted.
func gvAddLoads(g *gvElem) []bool {
	ok := make([]bool, gvNat("loads"))
	for i := range ok {
		ok[i] = g.e.AddLoad(gvLoadI(i).bc)
	}
	return ok
}

func gvCheckAllLoads(g *gvElem) {
	ok := gvAddLoads(g)
	k := gvSym("K", g.n)
	r := gvVec("R", g.n)
	d := gvVec("D", g.n)
	lr := make([]float64, len(g.local))
	for j := range lr {
		lr[j] = gvSum(0, len(ok), func(i int) float64 { return gvIte(ok[i], gvWork(g, gvLoadI(i), j), 0) })
	}
	gvCondense(gvLocalK(g), lr, g.hinged)
	re := gvGlobalR(g, lr)
	g.e.Assemble(g.layout, k, r, d)
	gvReach("assembled")
	for i := range g.dofs {
		gvEnsure("work-equivalent nodal load", r.AtVec(g.pos[i]) == gvR0(g.pos[i])+re[i])
	}
	p := gvNat("p")
	gvAssume(p < g.n)
	for i := range g.pos {
		gvAssume(p != g.pos[i])
	}
	gvEnsure("no other residual entry changes", r.AtVec(p) == gvR0(p))
}

// Any number of element loads, each accepted or rejected.
func Prove_C02_truss2d() { gvCheckAllLoads(gvTruss2d()) }

// Any number of element loads, each accepted or rejected.
func Prove_C02_truss3d() { gvCheckAllLoads(gvTruss3d()) }

// Any number of element loads, each accepted or rejected.
//
// gv:cost=140
func Prove_C02_frame2d() { gvCheckAllLoads(gvFrame2d()) }
