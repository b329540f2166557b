package deflect

// C03: static condensation of hinges, for an arbitrary symmetric stiffness and load.

func gvIndices(n int) []Index {
	all := make([]Index, n)
	for i := range all {
		all[i] = Index{NodalID: gvStr(gvName("node", i)), Dof: Dof(gvNat(gvName("dof", i)))}
		for j := 0; j < i; j++ {
			gvAssume(gvOr(all[i].NodalID != all[j].NodalID, all[i].Dof != all[j].Dof))
		}
	}
	return all
}

// gvSupported lists the hinge combinations elements of n local degrees of freedom can represent.
func gvSupported(h []bool) bool {
	cnt := 0
	for i := range h {
		if h[i] {
			cnt++
		}
	}
	if cnt <= 1 {
		return true
	}
	if len(h) == 4 && cnt == 2 {
		return h[1] && h[2] || h[1] && h[3] || h[0] && h[3]
	}
	return false
}

func gvCheckCondenser(n int) {
	all := gvIndices(n)
	hs, hinged := gvHinges(all)
	// hinges of other degrees of freedom have no influence
	other := Index{NodalID: gvStr("other"), Dof: Dof(gvNat("otherdof"))}
	for i := range all {
		gvAssume(gvOr(other.NodalID != all[i].NodalID, other.Dof != all[i].Dof))
	}
	if gvBool("foreign hinge") {
		hs[other] = struct{}{}
	}
	c, err := newStaticHingeCondenser(all, hs)
	gvEnsure("supported combinations are accepted", gvImplies(gvSupported(hinged), err == nil))
	if err != nil {
		gvReach("rejected")
		return
	}
	k := gvSym("K", n)
	r := gvVec("R", n)
	d := gvVec("D", n)
	// the released block is regular; blocks of a stiffness are positive semidefinite, so this one is positive definite
	var rel []int
	for i := range hinged {
		if hinged[i] {
			rel = append(rel, i)
		}
	}
	if len(rel) == 1 {
		gvAssume(gvK0(rel[0], rel[0]) > 0)
	} else if len(rel) == 2 {
		a, b := rel[0], rel[1]
		gvAssume(gvAnd(gvK0(a, a) > 0, gvK0(b, b) > 0, gvK0(a, a)*gvK0(b, b)-gvK0(a, b)*gvK0(a, b) > 0))
	}
	gvEnsure("only combinations with a closed form are accepted", len(rel) <= 2)
	gvReach("regular")
	c.enhance(k, r, d)
	for i := 0; i < n; i++ {
		gvEnsure("recovering displacements leaves the load", r.AtVec(i) == gvR0(i))
		for j := 0; j < n; j++ {
			gvEnsure("recovering displacements leaves the stiffness", k.At(i, j) == gvK0(i, j))
		}
		if !hinged[i] {
			gvEnsure("displacements that aren't released stay", d.AtVec(i) == gvD0(i))
			continue
		}
		f := 0.0
		for j := 0; j < n; j++ {
			f += gvK0(i, j) * d.AtVec(j)
		}
		gvEnsure("recovered displacements are in equilibrium in the hinged direction", f == gvR0(i))
	}
	c.reduce(k, r)
	for i := 0; i < n; i++ {
		if hinged[i] {
			gvEnsure("no force in the hinged direction", r.AtVec(i) == 0)
			for j := 0; j < n; j++ {
				gvEnsure("no stiffness in the hinged direction", gvAnd(k.At(i, j) == 0, k.At(j, i) == 0))
			}
			continue
		}
		full, cond := -gvR0(i), -r.AtVec(i)
		for j := 0; j < n; j++ {
			full += gvK0(i, j) * d.AtVec(j)
			cond += k.At(i, j) * gvD0(j)
		}
		gvEnsure("behaves like the element whose hinged directions are in equilibrium", full == cond)
	}
}

// Condensation of two local degrees of freedom (axial).
func Prove_C03_condense2() { gvCheckCondenser(2) }

// Condensation of four local degrees of freedom (bending).
func Prove_C03_condense4() { gvCheckCondenser(4) }

// A frame can be created exactly with the hinges its axial and its bending part support.
func Prove_C03_frame_creation() {
	g := &gvElem{}
	n0, n1 := gvNodes2d()
	m := gvMaterial(g)
	hs, h := gvHinges([]Index{{n0.ID, Ux}, {n1.ID, Ux}, {n0.ID, Uz}, {n0.ID, Phiy}, {n1.ID, Uz}, {n1.ID, Phiy}})
	id := gvStr("elem")
	gvAssume(gvAnd(id != "", gvOr(n0.X != n1.X, n0.Z != n1.Z)))
	_, err := NewFrame2d(id, n0, n1, m, hs)
	gvReach("created or not")
	gvEnsure("supported hinges", (err == nil) == (gvSupported(h[:2]) && gvSupported(h[2:])))
}

// A truss can be created exactly with at most one axial hinge.
func Prove_C03_truss_creation() {
	g := &gvElem{}
	n0, n1 := gvNodes3d()
	m := gvMaterial(g)
	hs, h := gvHinges([]Index{{n0.ID, Ux}, {n1.ID, Ux}, {n0.ID, Uz}, {n1.ID, Phiy}})
	id := gvStr("elem")
	gvAssume(gvAnd(id != "", gvApart(n0, n1)))
	_, err := NewTruss2d(id, n0, n1, m, hs)
	gvEnsure("supported hinges (2d)", (err == nil) == gvSupported(h[:2]))
	_, err3 := NewTruss3d(id, n0, n1, m, hs)
	gvReach("created or not")
	gvEnsure("supported hinges (3d)", (err3 == nil) == gvSupported(h[:2]))
}
