package deflect

// C04 and C05: interpolated normal force, axial displacement, moment, shear, rotation, deflection.

// gvRecover solves for the hinged degrees of freedom from their equilibrium, given the others in d.
func gvRecover(k [][]float64, r []float64, hinged []bool, d []float64) []float64 {
	n := len(r)
	kk := make([][]float64, n)
	rr := make([]float64, n)
	res := make([]float64, n)
	for i := range kk {
		kk[i] = make([]float64, n)
		for j := range k[i] {
			kk[i][j] = k[i][j]
		}
		rr[i] = r[i]
		res[i] = d[i]
	}
	// forward elimination of hinged unknowns among the hinged equations
	for h := 0; h < n; h++ {
		if !hinged[h] {
			continue
		}
		for i := h + 1; i < n; i++ {
			if hinged[i] {
				f := kk[i][h] / kk[h][h]
				for j := 0; j < n; j++ {
					kk[i][j] -= f * kk[h][j]
				}
				rr[i] -= f * rr[h]
			}
		}
	}
	for h := n - 1; h >= 0; h-- {
		if !hinged[h] {
			continue
		}
		s := rr[h]
		for j := 0; j < n; j++ {
			if j > h || !hinged[j] {
				s -= kk[h][j] * res[j]
			}
		}
		res[h] = s / kk[h][h]
	}
	return res
}

// gvState is the solved state of an element: recovered local displacements and r - K d.
type gvState struct {
	d, f []float64
}

func gvSolved(g *gvElem, loads []*gvLoad) *gvState {
	lr := make([]float64, len(g.local))
	for i := range lr {
		for _, ld := range loads {
			if ld.accepted {
				lr[i] += gvWork(g, ld, i)
			}
		}
	}
	dl := make([]float64, len(g.local))
	for i := range dl {
		for a := range g.dofs {
			dl[i] += g.local[i][a] * gvD0(g.pos[a])
		}
	}
	k := gvLocalK(g)
	s := &gvState{d: gvRecover(k, lr, g.hinged, dl), f: make([]float64, len(dl))}
	for i := range dl {
		s.f[i] = lr[i]
		for j := range dl {
			s.f[i] -= k[i][j] * s.d[j]
		}
	}
	return s
}

// gvNormal is the exact normal force at x.
func gvNormal(g *gvElem, loads []*gvLoad, n0, x float64) float64 {
	n := n0
	for _, ld := range loads {
		if !ld.accepted {
			continue
		}
		if ld.shape == 0 {
			n -= gvIte(gvAnd(ld.kind == Ux, ld.pos < x), ld.v0, 0)
		} else {
			n -= gvIte(ld.kind == Ux, ld.v0*x+(ld.v1-ld.v0)/g.l*x*x/2, 0)
		}
	}
	return n
}

// gvMoment is the exact bending moment at x, gvShear its slope.
func gvMoment(g *gvElem, loads []*gvLoad, m0, v0, x float64) float64 {
	m := m0 + v0*x
	for _, ld := range loads {
		if !ld.accepted {
			continue
		}
		if ld.shape == 0 {
			m -= gvIte(gvAnd(ld.kind == Uz, ld.pos < x), ld.v0*(x-ld.pos), 0)
			m -= gvIte(gvAnd(ld.kind == Phiy, ld.pos < x), ld.v0, 0)
		} else {
			m -= gvIte(ld.kind == Uz, ld.v0*x*x/2+(ld.v1-ld.v0)/g.l*x*x*x/6, 0)
		}
	}
	return m
}

func gvShear(g *gvElem, loads []*gvLoad, v0, x float64) float64 {
	v := v0
	for _, ld := range loads {
		if !ld.accepted {
			continue
		}
		if ld.shape == 0 {
			v -= gvIte(gvAnd(ld.kind == Uz, ld.pos < x), ld.v0, 0)
		} else {
			v -= gvIte(ld.kind == Uz, ld.v0*x+(ld.v1-ld.v0)/g.l*x*x/2, 0)
		}
	}
	return v
}

// gvSeparated: the breakpoints are equal or further apart than the tolerance of the code.
func gvSeparated(g *gvElem, loads []*gvLoad) {
	eps := 0.000000001
	gvAssume(g.l > eps)
	for i, a := range loads {
		if a.shape != 0 {
			continue
		}
		gvAssume(gvOr(a.pos == 0, a.pos > eps))
		gvAssume(gvOr(a.pos == g.l, a.pos > g.l+eps, a.pos+eps < g.l))
		for _, b := range loads[:i] {
			if b.shape == 0 {
				gvAssume(gvOr(a.pos == b.pos, a.pos > b.pos+eps, b.pos > a.pos+eps))
			}
		}
	}
}

// gvCovers: the pieces cover the element from start to end without gaps or overlaps.
func gvCovers(ps PolySequence, l float64) {
	gvEnsure("there is a piece", len(ps) > 0)
	if len(ps) == 0 {
		return
	}
	gvEnsure("first piece starts at the first node", ps[0].X0 == 0)
	gvEnsure("last piece ends at the second node", ps[len(ps)-1].XE == l)
	for i := range ps {
		gvEnsure("piece isn't empty", gvAnd(ps[i].X0 < ps[i].XE, len(ps[i].Coeff) > 0))
		if i > 0 {
			gvEnsure("pieces are contiguous", ps[i-1].XE == ps[i].X0)
		}
	}
}

// gvIsIntegral: q is continuous, starts with c0 and has slope p*f on the same pieces.
func gvIsIntegral(q, p PolySequence, f, c0 float64) {
	gvEnsure("same pieces as its slope", len(q) == len(p))
	if len(q) != len(p) || len(q) == 0 {
		return
	}
	gvEnsure("starts at the recovered nodal displacement", gvPolyEval(q[0].Coeff, q[0].X0) == c0)
	for i := range q {
		gvEnsure("same domain as its slope", gvAnd(q[i].X0 == p[i].X0, q[i].XE == p[i].XE))
		dq := gvPolyDeriv(q[i].Coeff)
		for j := 0; j < len(dq) || j < len(p[i].Coeff); j++ {
			gvEnsure("slope", gvCoeff(dq, j) == gvCoeff(p[i].Coeff, j)*f)
		}
		if i > 0 {
			gvEnsure("continuous", gvPolyEval(q[i-1].Coeff, q[i-1].XE) == gvPolyEval(q[i].Coeff, q[i].X0))
		}
	}
}

func gvCoeff(c []float64, j int) float64 {
	if j < len(c) {
		return c[j]
	}
	return 0
}

func gvCheckAxial(g *gvElem, loads []*gvLoad, displacement bool) {
	for i := range loads {
		loads[i].accepted = g.e.AddLoad(loads[i].bc)
	}
	gvSeparated(g, loads)
	d := gvVec("D", g.n)
	s := gvSolved(g, loads)
	nx := g.e.Interpolate(g.layout, FctNx, d)
	gvReach("interpolated")
	gvCovers(nx, g.l)
	x := gvReal("x")
	for i := range nx {
		gvEnsure("normal force", gvImplies(gvAnd(nx[i].X0 < x, x < nx[i].XE), gvPolyEval(nx[i].Coeff, x) == gvNormal(g, loads, s.f[0], x)))
	}
	if displacement {
		ux := g.e.Interpolate(g.layout, FctUx, d)
		gvIsIntegral(ux, nx, 1/(g.E*g.cs.Area()), s.d[0])
	}
}

func gvCheckBeam(g *gvElem, loads []*gvLoad, displacement bool) {
	for i := range loads {
		loads[i].accepted = g.e.AddLoad(loads[i].bc)
	}
	gvSeparated(g, loads)
	d := gvVec("D", g.n)
	s := gvSolved(g, loads)
	my := g.e.Interpolate(g.layout, FctMy, d)
	gvReach("interpolated")
	gvCovers(my, g.l)
	x := gvReal("x")
	for i := range my {
		gvEnsure("bending moment", gvImplies(gvAnd(my[i].X0 < x, x < my[i].XE), gvPolyEval(my[i].Coeff, x) == gvMoment(g, loads, s.f[3], s.f[2], x)))
	}
	vz := g.e.Interpolate(g.layout, FctVz, d)
	gvCovers(vz, g.l)
	for i := range vz {
		gvEnsure("shear force", gvImplies(gvAnd(vz[i].X0 < x, x < vz[i].XE), gvPolyEval(vz[i].Coeff, x) == gvShear(g, loads, s.f[2], x)))
	}
	if displacement {
		phi := g.e.Interpolate(g.layout, FctPhiy, d)
		gvIsIntegral(phi, my, 1/(g.E*g.cs.Iyy()), s.d[3])
		uz := g.e.Interpolate(g.layout, FctUz, d)
		gvIsIntegral(uz, phi, -1, s.d[2])
	}
}

// gvNoResult: quantities the element doesn't relate to.
func gvNoResult(g *gvElem) {
	d := gvVec("D", g.n)
	which := Fct(gvNat("which"))
	none := gvAnd(which != FctNx, which != FctUx)
	if g.beam {
		none = gvAnd(none, which != FctMy, which != FctVz, which != FctPhiy, which != FctUz)
	}
	gvAssume(none)
	gvEnsure("no result for unrelated quantities", len(g.e.Interpolate(g.layout, which, d)) == 0)
}

func Prove_C04_unrelated_truss2d() { gvNoResult(gvTruss2d()) }
func Prove_C04_unrelated_truss3d() { gvNoResult(gvTruss3d()) }

// gv:also=C05
func Prove_C04_unrelated_frame2d() { gvNoResult(gvFrame2d()) }

// gv:bounded=1-load
func Prove_C04_truss2d_1() { gvCheckAxial(gvTruss2d(), []*gvLoad{gvAnyLoad(0)}, true) }

// gv:bounded=1-load
func Prove_C04_truss3d_1() { gvCheckAxial(gvTruss3d(), []*gvLoad{gvAnyLoad(0)}, true) }

// gv:bounded=1-load
func Prove_C04_frame2d_1() { gvCheckAxial(gvFrame2d(), []*gvLoad{gvAnyLoad(0)}, true) }

// gv:bounded=2-loads
func Prove_C04_truss2d_2() { gvCheckAxial(gvTruss2d(), []*gvLoad{gvAnyLoad(0), gvAnyLoad(1)}, true) }

// gv:bounded=1-load
func Prove_C05_frame2d_1() { gvCheckBeam(gvFrame2d(), []*gvLoad{gvAnyLoad(0)}, true) }

// The same load acting twice counts twice.
// gv:bounded=1-load-twice
func Prove_C04_truss2d_twice() {
	ld := gvAnyLoad(0)
	gvCheckAxial(gvTruss2d(), []*gvLoad{ld, ld}, false)
}

// gv:bounded=1-load-twice
func Prove_C05_frame2d_twice() {
	ld := gvAnyLoad(0)
	gvCheckBeam(gvFrame2d(), []*gvLoad{ld, ld}, false)
}
