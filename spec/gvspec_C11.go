package deflect

import "gonum.org/v1/gonum/mat"

// C11: the solution of a problem without transformations.

func gvCheckSolution(n, c, elements, loads int) {
	s := gvNewSystem("p", n, c, elements, loads)
	solver := &linearSolver{}
	eq := &gvEquations{name: "sol"}
	res, err := solver.Solve(s.p, s.layout, eq)
	gvReach("solved")
	gvEnsure("solving succeeds", gvAnd(err == nil, res != nil))
	d, r := s.values(res)
	for i := 0; i < n; i++ {
		f := s.residual(d, i)
		if i < c {
			gvEnsure("prescribed displacement", d[i] == s.p.Dirichlet[c-1-i].Value)
			gvEnsure("reaction is the residual", r[i] == f)
		} else {
			gvEnsure("equilibrium", f == 0)
			gvEnsure("no reaction at free degrees of freedom", r[i] == 0)
		}
	}
}

// Problems of any size, with any number of elements, conditions and nodal loads.
func Prove_C11_solution() {
	s := gvNewAnySystem("p")
	i := s.any("i")
	solver := &linearSolver{}
	res, err := solver.Solve(s.p, s.layout, &gvSolution{name: "sol", rows: []int{i - s.c}})
	gvReach("solved")
	gvEnsure("solving succeeds", gvAnd(err == nil, res != nil))
	d, r := s.value(res, i)
	f := s.residual(res, i)
	if i < s.c {
		gvEnsure("prescribed displacement", d == s.prescribed(i))
		gvEnsure("reaction is the residual", r == f)
	} else {
		gvEnsure("equilibrium", f == 0)
		gvEnsure("no reaction at free degrees of freedom", r == 0)
	}
}

// Two arbitrary elements, two nodal loads at any degrees of freedom, one of three degrees of freedom constrained.
// gv:bounded=3-dofs-2-elements-2-loads
func Prove_C11_solution_3_1() { gvCheckSolution(3, 1, 2, 2) }

// The same with two constrained.
// gv:bounded=3-dofs-2-elements-2-loads
func Prove_C11_solution_3_2() { gvCheckSolution(3, 2, 2, 2) }

// gv:bounded=4-dofs-2-elements-1-load
func Prove_C11_solution_4_2() { gvCheckSolution(4, 2, 2, 1) }

// gv:off=1 bounded=5-dofs-2-elements-2-loads tier=thorough
func Prove_C11_solution_5_2() { gvCheckSolution(5, 2, 2, 2) }

// A problem with a single degree of freedom can't be both constrained and solved.
// gv:bounded=2-dofs-3-elements-2-loads
func Prove_C11_solution_2_1() { gvCheckSolution(2, 1, 3, 2) }

// The Cholesky based equation solver returns a solution of the given system or an error (the factorisation itself
// is trusted).
func Prove_C11_cholesky() {
	n := gvNat("n")
	gvAssume(n > 0)
	a, b, x := gvSym("K", n), gvVec("R", n), gvVec("D", n)
	err := NewCholeskySolver().SolveLinearSystem(a, b, x)
	gvReach("solved")
	i := gvNat("i")
	gvAssume(i < n)
	gvEnsure("solves the system", gvImplies(err == nil, gvSum(0, n, func(j int) float64 { return gvK0(i, j) * x.AtVec(j) }) == gvR0(i)))
	gvEnsure("leaves the right-hand side", b.AtVec(i) == gvR0(i))
	j := gvNat("j")
	gvAssume(j < n)
	gvEnsure("leaves the matrix", a.At(i, j) == gvK0(i, j))
}

var _ mat.Symmetric
