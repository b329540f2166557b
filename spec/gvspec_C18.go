package deflect

import "math"

// C18: solves are independent of each other.

// gvCheckReuse solves one problem, then another with the same solver, and the latter with a fresh solver.
func gvCheckReuse(n1, c1, n2, c2 int, inclined bool) {
	a := gvNewSystem("a", n1, c1, 1, 0)
	b := gvNewSystem("b", n2, c2, 1, 1)
	if inclined {
		// one support takes part in both problems, at different places
		from, to := a.idx[n1-1], a.idx[c1-1]
		t, bc := NewInclinedSupport(from, to, gvReal("angle"))
		a.p.Dirichlet[0] = bc
		a.p.EqTransforms = []Transformer{t}
		b.idx[n2-1], b.idx[c2-1] = from, to
		for i := range b.idx {
			for j := 0; j < i; j++ {
				gvAssume(b.idx[i] != b.idx[j])
			}
		}
		m := map[Index]int{}
		for i, x := range b.idx {
			m[x] = i
		}
		b.layout = newEqLayoutDirect(m)
		b.p.Dirichlet[0] = bc
		for i := 1; i < c2; i++ {
			b.p.Dirichlet[i].Index = b.idx[c2-1-i]
		}
		for l := range b.p.Neumann {
			b.p.Neumann[l].Index = b.idx[b.neumann[l]]
		}
		b.p.EqTransforms = []Transformer{t}
	}
	solver := NewLinearProblemSolver()
	eq1, eq2, eq3 := &gvEquations{name: "sol1"}, &gvEquations{name: "sol2"}, &gvEquations{name: "sol2"}
	res1, err1 := solver.Solve(a.p, a.layout, eq1)
	gvEnsure("first solve succeeds", err1 == nil)
	d1, r1 := a.values(res1)
	all1, reac1 := res1.PrimaryAll(), res1.ReactionAll()
	keep1, keepr1 := append([]NodalValue{}, all1...), append([]NodalValue{}, reac1...)
	res2, err2 := solver.Solve(b.p, b.layout, eq2)
	if inclined {
		t2, _ := NewInclinedSupport(a.idx[n1-1], a.idx[c1-1], gvReal("angle"))
		b.p.EqTransforms = []Transformer{t2}
	}
	res3, err3 := NewLinearProblemSolver().Solve(b.p, b.layout, eq3)
	gvReach("solved")
	gvEnsure("same outcome", gvAnd(err2 == nil, err3 == nil))
	gvEnsure("same size of the system", gvAnd(len(eq2.a) == len(eq3.a), len(eq2.b) == len(eq3.b)))
	for i := range eq3.b {
		gvEnsure("same right-hand side", eq2.b[i] == eq3.b[i])
		for j := range eq3.b {
			gvEnsure("same matrix", eq2.a[i][j] == eq3.a[i][j])
		}
	}
	d2, r2 := b.values(res2)
	d3, r3 := b.values(res3)
	for i := 0; i < n2; i++ {
		gvEnsure("same displacements", d2[i] == d3[i])
		gvEnsure("same reactions", r2[i] == r3[i])
	}
	t2, f2 := res2.Dimension()
	t3, f3 := res3.Dimension()
	gvEnsure("same dimensions", gvAnd(t2 == t3, f2 == f3))
	// the earlier result is what it was
	d1b, r1b := a.values(res1)
	for i := 0; i < n1; i++ {
		gvEnsure("earlier displacements", d1b[i] == d1[i])
		gvEnsure("earlier reactions", r1b[i] == r1[i])
		gvEnsure("earlier lists", gvAnd(all1[i] == keep1[i], reac1[i] == keepr1[i], res1.PrimaryAll()[i] == keep1[i], res1.ReactionAll()[i] == keepr1[i]))
	}
}

// gvCheckAnyReuse solves a problem of any size, then another of any size with the same solver, and the latter with a
// fresh solver. The first may fail.
func gvCheckAnyReuse(fails bool) {
	a, b := gvNewAnySystem("a"), gvNewAnySystem("b")
	solver := NewLinearProblemSolver()
	i, j := a.any("i"), b.any("j")
	res1, err1 := solver.Solve(a.p, a.layout, &gvSolution{name: "sol1", fails: fails})
	gvEnsure("first solve", gvIff(err1 == nil, !fails))
	var d1, r1 float64
	var all1, reac1 []NodalValue
	var keep1, keepr1 NodalValue
	if !fails {
		d1, r1 = a.value(res1, i)
		all1, reac1 = res1.PrimaryAll(), res1.ReactionAll()
		keep1, keepr1 = all1[i], reac1[i]
	}
	p, q := gvNat("p"), gvNat("q")
	eq2, eq3 := &gvSolution{name: "sol2", i: p, j: q}, &gvSolution{name: "sol2", i: p, j: q}
	res2, err2 := solver.Solve(b.p, b.layout, eq2)
	res3, err3 := NewLinearProblemSolver().Solve(b.p, b.layout, eq3)
	gvReach("solved")
	gvEnsure("same outcome", gvAnd(err2 == nil, err3 == nil))
	gvEnsure("same size of the system", eq2.n == eq3.n)
	gvEnsure("same right-hand side", eq2.b == eq3.b)
	gvEnsure("same matrix", eq2.a == eq3.a)
	d2, r2 := b.value(res2, j)
	d3, r3 := b.value(res3, j)
	gvEnsure("same displacements", d2 == d3)
	gvEnsure("same reactions", r2 == r3)
	t2, f2 := res2.Dimension()
	t3, f3 := res3.Dimension()
	gvEnsure("same dimensions", gvAnd(t2 == t3, f2 == f3))
	if !fails {
		// the earlier result is what it was
		d1b, r1b := a.value(res1, i)
		gvEnsure("earlier displacements", d1b == d1)
		gvEnsure("earlier reactions", r1b == r1)
		gvEnsure("earlier lists", gvAnd(all1[i] == keep1, reac1[i] == keepr1))
		gvEnsure("earlier lists asked for again", gvAnd(res1.PrimaryAll()[i] == keep1, res1.ReactionAll()[i] == keepr1))
	}
}

// Two problems of any sizes.
func Prove_C18_solver() { gvCheckAnyReuse(false) }

// A problem of any size after one of any size that couldn't be solved.
func Prove_C18_solver_after_failure() { gvCheckAnyReuse(true) }

// gv:bounded=3-then-2-dofs
func Prove_C18_shrink() { gvCheckReuse(3, 1, 2, 1, false) }

// gv:bounded=2-then-3-dofs
func Prove_C18_grow() { gvCheckReuse(2, 1, 3, 2, false) }

// gv:bounded=3-then-3-dofs
func Prove_C18_repartition() { gvCheckReuse(3, 1, 3, 2, false) }

// gv:bounded=3-then-3-dofs
func Prove_C18_same() { gvCheckReuse(3, 2, 3, 2, false) }

// gv:bounded=3-then-3-dofs
func Prove_C18_inclined_same() { gvCheckReuse(3, 1, 3, 2, true) }

// gv:bounded=2-then-3-dofs
func Prove_C18_inclined_grow() { gvCheckReuse(2, 1, 3, 1, true) }

// Failed solves leave no trace.
// gv:bounded=3-dofs
func Prove_C18_after_failure() {
	a := gvNewSystem("a", 3, 2, 1, 0)
	b := gvNewSystem("b", 3, 1, 1, 1)
	solver := NewLinearProblemSolver()
	_, err := solver.Solve(a.p, a.layout, &gvEquations{name: "sol1", fails: true})
	gvEnsure("failed", err != nil)
	eq2, eq3 := &gvEquations{name: "sol2"}, &gvEquations{name: "sol2"}
	res2, err2 := solver.Solve(b.p, b.layout, eq2)
	res3, err3 := NewLinearProblemSolver().Solve(b.p, b.layout, eq3)
	gvReach("solved")
	gvEnsure("same outcome", gvAnd(err2 == nil, err3 == nil))
	d2, r2 := b.values(res2)
	d3, r3 := b.values(res3)
	for i := 0; i < 3; i++ {
		gvEnsure("same displacements", d2[i] == d3[i])
		gvEnsure("same reactions", r2[i] == r3[i])
	}
	for i := range eq3.b {
		gvEnsure("same right-hand side", eq2.b[i] == eq3.b[i])
		for j := range eq3.b {
			gvEnsure("same matrix", eq2.a[i][j] == eq3.a[i][j])
		}
	}
}

// Assembling an element leaves no trace in it: a second assembly adds the same again.
func gvCheckAssembleTwice(g *gvElem) {
	k2, r2, d2 := gvSym("K2", g.n), gvVec("R2", g.n), gvVec("D2", g.n)
	g.e.Assemble(g.layout, k2, r2, d2)
	g.e.Interpolate(g.layout, FctNx, d2)
	k, r, d := gvSym("K", g.n), gvVec("R", g.n), gvVec("D", g.n)
	g.e.Assemble(g.layout, k, r, d)
	gvReach("assembled")
	for i, p := range g.pos {
		for _, q := range g.pos {
			gvEnsure("same tangent", k.At(p, q)-gvK0(p, q) == k2.At(p, q)-gvFnReal("sym:K2.data", p, q))
		}
		gvEnsure("same residual", r.AtVec(p)-gvR0(p) == r2.AtVec(p)-gvFnReal("R2.data", p))
		gvEnsure("displacements are only read", gvAnd(d.AtVec(g.pos[i]) == gvD0(p), d2.AtVec(p) == gvFnReal("D2.data", p)))
	}
}

// gv:bounded=1-load
func Prove_C18_truss2d() {
	g := gvTruss2d()
	g.e.AddLoad(NewElementConstantLoad(Ux, gvReal("q")))
	gvCheckAssembleTwice(g)
}

// gv:bounded=1-load
func Prove_C18_truss3d() {
	g := gvTruss3d()
	g.e.AddLoad(NewElementConstantLoad(Ux, gvReal("q")))
	gvCheckAssembleTwice(g)
}

// gv:bounded=2-loads
func Prove_C18_frame2d() {
	g := gvFrame2d()
	g.e.AddLoad(NewElementConstantLoad(Ux, gvReal("q")))
	g.e.AddLoad(NewElementLinearLoad(Uz, gvReal("q0"), gvReal("q1")))
	gvCheckAssembleTwice(g)
}

var _ = math.Pi
