package deflect

import (
	"errors"

	"gonum.org/v1/gonum/mat"
)

// Shared parts of the solver contracts: arbitrary elements, an arbitrary equation solver.

// gvBlock is an element that contributes an arbitrary symmetric matrix and residual.
type gvBlock struct {
	gvFakeElement
	name string
	n    int
}

func (e *gvBlock) ke(i, j int) float64 {
	if i > j {
		i, j = j, i
	}
	return gvFnReal(e.name+".KE", i, j)
}
func (e *gvBlock) re(i int) float64 { return gvFnReal(e.name+".RE", i) }

func (e *gvBlock) Assemble(layout EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	for i := 0; i < e.n; i++ {
		for j := i; j < e.n; j++ {
			k.SetSym(i, j, k.At(i, j)+e.ke(i, j))
		}
		r.SetVec(i, r.AtVec(i)+e.re(i))
	}
}

// gvEquations is an arbitrary equation solver: it returns a solution or an error. It remembers what it was given.
type gvEquations struct {
	name  string
	fails bool
	calls int
	a     [][]float64
	b     []float64
}

func (s *gvEquations) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	n := b.Len()
	gvEnsure("the equation solver gets a square system", gvAnd(a.SymmetricDim() == n, x.Len() == n))
	s.calls++
	s.a = make([][]float64, n)
	s.b = make([]float64, n)
	for i := 0; i < n; i++ {
		s.a[i] = make([]float64, n)
		s.b[i] = b.AtVec(i)
		for j := 0; j < n; j++ {
			s.a[i][j] = a.At(i, j)
		}
	}
	if s.fails {
		for i := 0; i < n; i++ {
			x.SetVec(i, gvFnReal(s.name+".garbage", i))
		}
		return errors.New("no solution")
	}
	for i := 0; i < n; i++ {
		x.SetVec(i, gvFnReal(s.name, i))
	}
	for i := 0; i < n; i++ {
		sum := 0.0
		for j := 0; j < n; j++ {
			sum += s.a[i][j] * gvFnReal(s.name, j)
		}
		gvFact("the equation solver solves the system", sum == s.b[i])
	}
	return nil
}

// gvSystem is an arbitrary problem with n degrees of freedom.
type gvSystem struct {
	n, c    int
	idx     []Index // degrees of freedom in the order of their numbers
	layout  EqLayout
	blocks  []*gvBlock
	neumann []int // numbers of the loaded degrees of freedom
	p       *Problem
}

// gvDistinctDofs are n different degrees of freedom.
func gvDistinctDofs(name string, n int) []Index {
	r := make([]Index, n)
	for i := range r {
		r[i] = gvAnyIndex(gvName(name, i))
		for j := 0; j < i; j++ {
			gvAssume(r[i] != r[j])
		}
	}
	return r
}

func gvNewSystem(name string, n, c, elements, loads int) *gvSystem {
	s := &gvSystem{n: n, c: c, p: &Problem{}}
	s.idx = gvDistinctDofs(name, n)
	m := map[Index]int{}
	for i, x := range s.idx {
		m[x] = i
	}
	s.layout = newEqLayoutDirect(m)
	for e := 0; e < elements; e++ {
		b := &gvBlock{name: name + gvName("e", e), n: n}
		b.id = gvStr(b.name + ".id")
		s.blocks = append(s.blocks, b)
		s.p.Elements = append(s.p.Elements, b)
	}
	// the conditions are listed in another order than they are numbered
	for i := c - 1; i >= 0; i-- {
		s.p.Dirichlet = append(s.p.Dirichlet, NodalValue{Index: s.idx[i], Value: gvReal(name + gvName("dirichlet", i))})
	}
	for l := 0; l < loads; l++ {
		i := gvChoose(name+gvName("at", l), n)
		s.neumann = append(s.neumann, i)
		s.p.Neumann = append(s.p.Neumann, NodalValue{Index: s.idx[i], Value: gvReal(name + gvName("load", l))})
	}
	return s
}

// residual is what the elements and loads leave at degree of freedom i for displacements d.
func (s *gvSystem) residual(d []float64, i int) float64 {
	r := 0.0
	for _, b := range s.blocks {
		for j := 0; j < s.n; j++ {
			r += b.ke(i, j) * d[j]
		}
		r -= b.re(i)
	}
	for l, at := range s.neumann {
		if at == i {
			r -= s.p.Neumann[l].Value
		}
	}
	return r
}

// gvValues reads displacements and reactions from a result.
func (s *gvSystem) values(res ProblemResult) (d, r []float64) {
	d, r = make([]float64, s.n), make([]float64, s.n)
	for i := range s.idx {
		v, err := res.Primary(s.idx[i])
		w, err2 := res.Reaction(s.idx[i])
		gvEnsure("known degrees of freedom can be queried", gvAnd(err == nil, err2 == nil))
		d[i], r[i] = v.Value, w.Value
	}
	return d, r
}

// gvPart is element e of arbitrarily many: it contributes an arbitrary symmetric matrix and residual.
type gvPart struct {
	gvFakeElement
	of string
	e  int
	n  int
}

func gvPartK(of string, e, i, j int) float64 { return gvFnReal("sym:"+of+".KE", e, i, j) }
func gvPartR(of string, e, i int) float64    { return gvFnReal(of+".RE", e, i) }

func (p *gvPart) Assemble(layout EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	for i := 0; i < p.n; i++ {
		for j := i; j < p.n; j++ {
			k.SetSym(i, j, k.At(i, j)+gvPartK(p.of, p.e, i, j))
		}
		r.SetVec(i, r.AtVec(i)+gvPartR(p.of, p.e, i))
	}
}

// gvSolution is an equation solver that finds a solution. All rows of the system hold, the ones that matter are given.
type gvSolution struct {
	name string
	rows []int
	n    int // size of the system
	// the entries at i, j and at i of what it was given
	i, j  int
	a, b  float64
	fails bool
}

func (s *gvSolution) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	n := b.Len()
	s.n = n
	gvEnsure("the equation solver gets a square system", gvAnd(a.SymmetricDim() == n, x.Len() == n))
	if s.i < n && s.j < n {
		s.a, s.b = a.At(s.i, s.j), b.AtVec(s.i)
	}
	if s.fails {
		for i := 0; i < n; i++ {
			x.SetVec(i, gvFnReal(s.name+".garbage", i))
		}
		return errors.New("no solution")
	}
	for i := 0; i < n; i++ {
		x.SetVec(i, gvFnReal(s.name, i))
	}
	for _, row := range s.rows {
		if row >= 0 && row < n {
			sum := gvSum(0, n, func(j int) float64 { return a.At(row, j) * gvFnReal(s.name, j) })
			gvFact("the equation solver solves the system", sum == b.AtVec(row))
		}
	}
	return nil
}

// gvAnySystem is an arbitrary problem of any size: n degrees of freedom, of which c are constrained, in any order, any
// number of elements and nodal loads.
type gvAnySystem struct {
	name            string
	n, c            int
	elements, loads int
	layout          EqLayout
	p               *Problem
}

func gvNewAnySystem(name string) *gvAnySystem {
	s := &gvAnySystem{name: name, n: gvNat(name + ".n"), c: gvNat(name + ".c"), elements: gvNat(name + ".elements"), loads: gvNat(name + ".loads"), p: &Problem{}}
	gvAssume(gvAnd(0 < s.c, s.c < s.n))
	s.layout = newEqLayoutDirect(gvNumbering(name, s.n))
	for e := 0; e < s.elements; e++ {
		s.p.Elements = append(s.p.Elements, &gvPart{of: name, e: e, n: s.n})
	}
	for k := 0; k < s.c; k++ {
		s.p.Dirichlet = append(s.p.Dirichlet, NodalValue{Index: s.dof(gvPerm(name+".order of conditions", s.c, k)), Value: gvFnReal(name+".dirichlet", k)})
	}
	for l := 0; l < s.loads; l++ {
		s.p.Neumann = append(s.p.Neumann, NodalValue{Index: s.dof(s.loaded(l)), Value: gvFnReal(name+".load", l)})
	}
	return s
}

// dof is the degree of freedom with number i, loaded is the number of the degree of freedom with load l.
func (s *gvAnySystem) dof(i int) Index  { return gvDofAt(s.name, i) }
func (s *gvAnySystem) loaded(l int) int { return gvFnBelow(s.name+".loaded", s.n, l) }

// prescribed is the value of the condition on degree of freedom i.
func (s *gvAnySystem) prescribed(i int) float64 {
	return gvFnReal(s.name+".dirichlet", gvPermInv(s.name+".order of conditions", s.c, i))
}

// residual is what the elements and loads leave at degree of freedom i for the displacements in a result.
func (s *gvAnySystem) residual(res ProblemResult, i int) float64 {
	f := gvSum(0, s.n, func(j int) float64 {
		d, _ := res.Primary(s.dof(j))
		return d.Value * gvSum(0, s.elements, func(e int) float64 { return gvPartK(s.name, e, i, j) })
	})
	f -= gvSum(0, s.elements, func(e int) float64 { return gvPartR(s.name, e, i) })
	f -= gvSum(0, s.loads, func(l int) float64 { return gvIte(s.loaded(l) == i, gvFnReal(s.name+".load", l), 0) })
	return f
}

func (s *gvAnySystem) value(res ProblemResult, i int) (d, r float64) {
	v, err := res.Primary(s.dof(i))
	w, err2 := res.Reaction(s.dof(i))
	gvEnsure("known degrees of freedom can be queried", gvAnd(err == nil, err2 == nil))
	return v.Value, w.Value
}

// any is any of the degrees of freedom.
func (s *gvAnySystem) any(name string) int {
	i := gvNat(name)
	gvAssume(i < s.n)
	return i
}
