package deflect

import "gonum.org/v1/gonum/mat"

// C16: ill-posed input ends in errors.

type gvConstructor func(id string, n0, n1 *Node, material *Material, hinges map[Index]struct{}) (Element, error)

func gvCheckConstructor(f gvConstructor) {
	n0 := &Node{ID: gvStr("id0"), X: gvReal("x0"), Y: gvReal("y0"), Z: gvReal("z0")}
	n1 := &Node{ID: gvStr("id1"), X: gvReal("x1"), Y: gvReal("y1"), Z: gvReal("z1")}
	if gvBool("same node") {
		n1 = n0
	}
	g := &gvElem{}
	m := gvMaterial(g)
	id := gvStr("elem")
	hs, _ := gvHinges([]Index{{n0.ID, Ux}, {n1.ID, Ux}, {n0.ID, Uz}, {n1.ID, Phiy}})
	_, err := f(id, n0, n1, m, hs)
	gvReach("created")
	zero := gvAnd(n0.X == n1.X, n0.Y == n1.Y, n0.Z == n1.Z)
	gvEnsure("zero length is an error", gvImplies(zero, err != nil))
	gvEnsure("an empty ID is an error", gvImplies(id == "", err != nil))
	_, err = f(id, n0, n1, m, map[Index]struct{}{})
	gvEnsure("anything else isn't", gvIff(err != nil, gvOr(zero, id == "")))
}

// Elements of zero length or without ID are rejected, others without hinges are accepted.
func Prove_C16_truss2d() { gvCheckConstructor(NewTruss2d) }
func Prove_C16_truss3d() { gvCheckConstructor(NewTruss3d) }
func Prove_C16_frame2d() { gvCheckConstructor(NewFrame2d) }
func Prove_C16_frame3d() { gvCheckConstructor(NewFrame3d) }

// Problems in which all or no degrees of freedom are constrained are rejected before anything is done, for every
// size of the problem and of the one solved before.
func Prove_C16_guard() {
	n := gvNat("n")
	m := gvAny[map[Index]int]("indices")
	gvAssume(len(m) == n)
	l := EqLayout{indices: m, lookupFailures: &lookupFailures{}}
	dirichlet := gvSlice[NodalValue]("dirichlet", gvNat("c"))
	gvAssume(gvOr(len(dirichlet) == 0, len(dirichlet) == n))
	solver := NewLinearProblemSolver()
	p := &Problem{Dirichlet: dirichlet, Elements: gvSlice[Element]("elements", gvNat("e")), Neumann: gvSlice[NodalValue]("neumann", gvNat("l"))}
	eq := &gvEquations{name: "sol"}
	res, err := solver.Solve(p, l, eq)
	gvReach("rejected")
	gvEnsure("error", err != nil)
	gvEnsure("no result", res == nil)
	gvEnsure("not solved", eq.calls == 0)
}

// A system of any size that can't be solved yields an error and no result.
func Prove_C16_not_solvable() {
	s := gvNewAnySystem("p")
	res, err := NewLinearProblemSolver().Solve(s.p, s.layout, &gvSolution{name: "sol", fails: true})
	gvReach("failed")
	gvEnsure("error", err != nil)
	gvEnsure("no result", res == nil)
}

// With the Cholesky solver, whose factorisation may fail or panic, solving a problem of any size never panics, and
// returns a result exactly if there is no error.
func Prove_C16_any_cholesky() {
	s := gvNewAnySystem("p")
	var res ProblemResult
	var err error
	panics := gvPanics(func() { res, err = NewLinearProblemSolver().Solve(s.p, s.layout, NewCholeskySolver()) })
	gvReach("solved")
	gvEnsure("no panic", !panics)
	gvEnsure("result or error", gvIff(err == nil, res != nil))
}

// A system that can't be solved yields an error and no result.
// gv:bounded=3-dofs
func Prove_C16_unsolvable() {
	s := gvNewSystem("p", 3, 1, 1, 1)
	res, err := NewLinearProblemSolver().Solve(s.p, s.layout, &gvEquations{name: "sol", fails: true})
	gvReach("failed")
	gvEnsure("error", err != nil)
	gvEnsure("no result", res == nil)
}

// With the Cholesky solver, whose factorisation may fail or panic, solving never panics, and returns a result
// exactly if there is no error.
// gv:bounded=3-dofs
func Prove_C16_cholesky() {
	s := gvNewSystem("p", 3, 1, 1, 1)
	var res ProblemResult
	var err error
	panics := gvPanics(func() { res, err = NewLinearProblemSolver().Solve(s.p, s.layout, NewCholeskySolver()) })
	gvReach("solved")
	gvEnsure("no panic", !panics)
	gvEnsure("result or error", gvIff(err == nil, res != nil))
}

// Equation systems of any size: factorisations that fail or panic end in an error.
func Prove_C16_factorisation() {
	n := gvNat("n")
	gvAssume(n > 0)
	var err error
	a, b, x := gvSym("K", n), gvVec("R", n), gvVec("D", n)
	panics := gvPanics(func() { err = NewCholeskySolver().SolveLinearSystem(a, b, x) })
	gvReach("solved")
	gvEnsure("no panic", !panics)
	i := gvNat("i")
	gvAssume(i < n)
	gvEnsure("solved or error", gvOr(err != nil, gvSum(0, n, func(j int) float64 { return a.At(i, j) * x.AtVec(j) }) == b.AtVec(i)))
}

// Missing degrees of freedom: any of the elements, conditions, loads and transformations of a problem may refer to
// unknown degrees of freedom; then solving ends in an error and without a result. (C10)
// gv:bounded=3-dofs also=C10
func Prove_C16_missing() {
	idx := gvDistinctDofs("i", 3)
	m := map[Index]int{}
	for i := range idx {
		m[idx[i]] = i
	}
	l := newEqLayoutDirect(m)
	alien := gvAnyIndex("alien")
	for i := range idx {
		gvAssume(alien != idx[i])
	}
	pick := func(where int, which int, fallback Index) Index {
		if where == which {
			return alien
		}
		return fallback
	}
	which := gvChoose("which", 6)
	e := &gvLookups{a: pick(0, which, idx[0]), b: pick(1, which, idx[1])}
	e.id = "e"
	p := &Problem{Elements: []Element{e}}
	p.Dirichlet = []NodalValue{{Index: pick(2, which, idx[0]), Value: gvReal("v")}}
	p.Neumann = []NodalValue{{Index: pick(3, which, idx[1]), Value: gvReal("f")}}
	p.EqTransforms = []Transformer{&gvLookupTransform{pre: pick(4, which, idx[1]), post: idx[2]}}
	eq := &gvEquations{name: "sol"}
	res, err := NewLinearProblemSolver().Solve(p, l, eq)
	gvReach("solved")
	gvEnsure("lookup failures are errors", gvIff(err != nil, which != 5))
	gvEnsure("no result with failed lookups", gvIff(res == nil, which != 5))
	gvEnsure("clean afterwards", l.failure() == nil)
}

// The same for a failure in the back transformation.
// gv:bounded=3-dofs also=C10
func Prove_C16_missing_post() {
	s := gvNewSystem("p", 3, 1, 1, 0)
	alien := gvAnyIndex("alien")
	for i := range s.idx {
		gvAssume(alien != s.idx[i])
	}
	s.p.EqTransforms = []Transformer{&gvLookupTransform{pre: s.idx[0], post: alien}}
	_, err := NewLinearProblemSolver().Solve(s.p, s.layout, &gvEquations{name: "sol"})
	gvReach("solved")
	gvEnsure("error", err != nil)
	gvEnsure("clean afterwards", s.layout.failure() == nil)
}

var _ mat.Symmetric
