package deflect

import (
	"cmp"
	"errors"
	"fmt"
	"math"
	"slices"

	"gonum.org/v1/gonum/mat"
)

var (
	_ = gvRegister("C09", gvFzLayout)
	_ = gvRegister("C10", gvFzLookup)
	_ = gvRegister("C11", func(r *gvRng) string { return gvFzSolve(r, 0) })
	_ = gvRegister("C12", func(r *gvRng) string { return gvFzSolve(r, 1+r.Intn(3)) })
	_ = gvRegister("C12", gvFzInclined)
	_ = gvRegister("C16", gvFzIllPosed)
	_ = gvRegister("C16", gvFzCholesky)
	_ = gvRegister("C16", func(r *gvRng) string { return gvFzSolve(r, r.Intn(2)) })
	_ = gvRegister("C17", gvFzQueries)
	_ = gvRegister("C18", gvFzReuse)
	_ = gvRegister("C18", gvFzSupportReuse)
)

type gvModel struct {
	nodes []*Node
	els   []*gvRefElem
	p     *Problem
	incl  []gvIncl
}

type gvIncl struct {
	from, to Index
	angle    float64
}

func (m *gvModel) String() string {
	s := ""
	for _, g := range m.els {
		s += g.id + ": " + g.String() + "\n"
	}
	return s + fmt.Sprintf("Dirichlet %v\nNeumann %v\ninclined %v", m.p.Dirichlet, m.p.Neumann, m.incl)
}

func (m *gvModel) dofs() []Index {
	var all []Index
	seen := map[Index]bool{}
	for _, g := range m.els {
		for _, i := range g.dofs {
			if !seen[i] {
				seen[i] = true
				all = append(all, i)
			}
		}
	}
	return all
}

// gvRandModel is a random structure with inclined supports.
func gvRandModel(r *gvRng, incl int, robust bool) *gvModel {
	m := &gvModel{p: &Problem{}}
	n := 2 + r.Intn(3)
	three := r.Intn(4) == 0 && !robust
	if three {
		n = 3 + r.Intn(2)
	}
	ids := []string{"D", "A", "BB", "B", "a"}
	if r.Intn(4) == 0 {
		ids = []string{"A", " A", "A ", "a", "1", "10", "01", "2", "Node A", "node a", ""}
	}
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	for i := 0; i < n; i++ {
		nd := &Node{ID: ids[i], X: float64(i)*1.5 + r.Float64(), Z: r.Float64() * 2}
		if r.Intn(3) == 0 {
			nd.X, nd.Z = float64(i), 0
		}
		if three {
			nd.X, nd.Y, nd.Z = r.Float64()*4+float64(i), r.Float64()*4, r.Float64()*4
		}
		m.nodes = append(m.nodes, nd)
		m.p.Nodes = append(m.p.Nodes, *nd)
	}
	add := func(a, b int) {
		kind := "frame2d"
		if three {
			kind = "truss3d"
		} else if r.Intn(4) == 0 && !robust {
			kind = "truss2d"
		}
		n0, n1 := m.nodes[a], m.nodes[b]
		h := map[Index]struct{}{}
		if r.Intn(3) == 0 && !robust {
			h = gvRandHinges(r, gvLocalDofs(kind, n0, n1))
		}
		g := gvWrap(kind, fmt.Sprint("e", len(m.els)), n0, n1, gvRandMaterial(r), h)
		e, err := gvBuild(kind, g.id, n0, n1, g.mat, h)
		if err != nil {
			panic(err)
		}
		g.e = e
		m.els = append(m.els, g)
		m.p.Elements = append(m.p.Elements, e)
		for c := r.Intn(3); c > 0; c-- {
			if ld := gvRandLoad(r, g.l); g.supports(&ld) {
				if msg := g.add(ld); msg != "" {
					panic(msg)
				}
			}
		}
	}
	for i := 1; i < n; i++ {
		add(i-1, i)
	}
	for i := 2; i < n; i++ {
		if three || r.Intn(2) == 0 {
			add(r.Intn(i-1), i)
		}
	}
	dofs := m.dofs()
	con := map[Index]bool{}
	fix := func(i Index, v float64) {
		if !con[i] {
			con[i] = true
			m.p.Dirichlet = append(m.p.Dirichlet, NodalValue{i, v})
		}
	}
	val := func() float64 {
		if incl > 0 || r.Intn(2) == 0 {
			return 0
		}
		return r.num() / 10
	}
	used := map[Index]bool{}
	if incl > 0 {
		for c := 0; c < incl; c++ {
			nd := m.nodes[r.Intn(n)]
			var cand []Index
			for _, i := range dofs {
				if i.NodalID == nd.ID && (i.Dof == Ux || i.Dof == Uz || i.Dof == Uy) && !used[i] {
					cand = append(cand, i)
				}
			}
			if len(cand) < 2 {
				continue
			}
			r.Shuffle(len(cand), func(i, j int) { cand[i], cand[j] = cand[j], cand[i] })
			ang := r.Float64() * 6
			if r.Intn(4) == 0 {
				ang = float64(r.Intn(5)) * math.Pi / 4
			}
			from, to := cand[0], cand[1]
			used[from], used[to] = true, true
			tr, bc := NewInclinedSupport(from, to, ang)
			m.incl = append(m.incl, gvIncl{from, to, ang})
			m.p.EqTransforms = append(m.p.EqTransforms, tr)
			fix(bc.Index, bc.Value)
		}
	}
	first := m.nodes[r.Intn(n)].ID
	for _, i := range dofs {
		if i.NodalID == first && !used[i] || r.Intn(6) == 0 && !used[i] {
			fix(i, val())
		}
	}
	if three {
		second := m.nodes[r.Intn(n)].ID
		for _, i := range dofs {
			if i.NodalID == second && !used[i] {
				fix(i, val())
			}
		}
	}
	r.Shuffle(len(m.p.Dirichlet), func(i, j int) {
		m.p.Dirichlet[i], m.p.Dirichlet[j] = m.p.Dirichlet[j], m.p.Dirichlet[i]
	})
	for c := r.Intn(4); c > 0; c-- {
		m.p.Neumann = append(m.p.Neumann, NodalValue{dofs[r.Intn(len(dofs))], r.num()})
	}
	return m
}

// wellPosed tells if the reference system is far from singular.
func (m *gvModel) wellPosed() bool {
	order := gvExpectedOrder(m)
	n := len(order)
	at := map[Index]int{}
	for i, ix := range order {
		at[ix] = i
	}
	k := mat.NewDense(n, n, nil)
	big := 0.0
	for _, g := range m.els {
		gk, _ := g.global()
		full, _ := g.localFull()
		big = math.Max(big, gvMax(full...))
		for i, a := range g.dofs {
			for j, b := range g.dofs {
				k.Set(at[a], at[b], k.At(at[a], at[b])+gk[i][j])
			}
		}
	}
	for _, l := range m.incl {
		t := mat.NewDense(n, n, nil)
		for a := 0; a < n; a++ {
			t.Set(a, a, 1)
		}
		s, c := math.Sin(l.angle), math.Cos(l.angle)
		i, j := at[l.from], at[l.to]
		t.Set(i, i, c)
		t.Set(j, j, c)
		t.Set(i, j, -s)
		t.Set(j, i, s)
		var kt mat.Dense
		kt.Product(t.T(), k, t)
		k.Copy(&kt)
	}
	f := len(m.p.Dirichlet)
	if f >= n || f == 0 {
		return false
	}
	a := mat.NewSymDense(n-f, nil)
	for i := f; i < n; i++ {
		for j := i; j < n; j++ {
			a.SetSym(i-f, j-f, (k.At(i, j)+k.At(j, i))/2)
		}
	}
	var es mat.EigenSym
	if !es.Factorize(a, false) {
		return false
	}
	v := es.Values(nil)
	return v[0] > 1e-5*math.Max(v[len(v)-1], big)
}

// residual is K d - f per degree of freedom, with a scale for comparisons.
func (m *gvModel) residual(d map[Index]float64) (map[Index]float64, float64) {
	res := map[Index]float64{}
	scale := 1.0
	for _, g := range m.els {
		k, f := g.global()
		for i, a := range g.dofs {
			res[a] -= f[i]
			scale = math.Max(scale, math.Abs(f[i]))
			for j, b := range g.dofs {
				res[a] += k[i][j] * d[b]
				scale = math.Max(scale, math.Abs(k[i][j]*d[b]))
			}
		}
		for _, ld := range g.loads {
			scale = math.Max(scale, (math.Abs(ld.v0)+math.Abs(ld.v1))*(1+g.l))
		}
	}
	for _, nv := range m.p.Neumann {
		res[nv.Index] -= nv.Value
		scale = math.Max(scale, math.Abs(nv.Value))
	}
	return res, scale
}

func gvValues(all []NodalValue) map[Index]float64 {
	m := map[Index]float64{}
	for _, v := range all {
		m[v.Index] = v.Value
	}
	return m
}

func gvFzSolve(r *gvRng, incl int) string {
	m := gvRandModel(r, incl, r.Intn(2) == 0)
	layout, err := NewEqLayout(m.p)
	if err != nil {
		return fmt.Sprintf("layout of %v: %v", m, err)
	}
	dofs := m.dofs()
	posed := m.wellPosed()
	res, err := NewLinearProblemSolver().Solve(m.p, layout, NewCholeskySolver())
	if len(dofs) == len(m.p.Dirichlet) {
		if err == nil || res != nil {
			return fmt.Sprintf("solving with everything constrained: %v", m)
		}
		return ""
	}
	if err != nil {
		if res != nil {
			return fmt.Sprintf("result in spite of %v: %v", err, m)
		}
		if posed {
			return fmt.Sprintf("solving a well-posed problem fails: %v %v", err, m)
		}
		return ""
	}
	if !posed {
		return ""
	}
	return m.check(res)
}

func (m *gvModel) check(res ProblemResult) string {
	d, rc := gvValues(res.PrimaryAll()), gvValues(res.ReactionAll())
	bal, scale := m.residual(d)
	con := map[Index]bool{}
	for _, bc := range m.p.Dirichlet {
		con[bc.Index] = true
	}
	linked := map[Index]bool{}
	for _, i := range m.incl {
		linked[i.from], linked[i.to] = true, true
	}
	for _, bc := range m.p.Dirichlet {
		if !linked[bc.Index] && d[bc.Index] != bc.Value {
			return fmt.Sprintf("%v is %v instead of %v: %v", bc.Index, d[bc.Index], bc.Value, m)
		}
	}
	for _, i := range m.dofs() {
		if !gvClose(bal[i], rc[i], scale) || math.IsNaN(d[i]) {
			return fmt.Sprintf("reaction at %v is %v, but equilibrium requires %v: %v", i, rc[i], bal[i], m)
		}
		if !con[i] && !linked[i] && rc[i] != 0 {
			return fmt.Sprintf("reaction %v at free %v: %v", rc[i], i, m)
		}
	}
	for _, i := range m.incl {
		s, c := math.Sin(i.angle), math.Cos(i.angle)
		if v := -s*d[i.from] + c*d[i.to]; math.Abs(v) > 1e-9*(1+math.Abs(d[i.from])+math.Abs(d[i.to])) {
			return fmt.Sprintf("displacement %v normal to the inclination %v: %v", v, i, m)
		}
		if v := c*rc[i.from] + s*rc[i.to]; math.Abs(v) > 1e-8*scale {
			return fmt.Sprintf("reaction %v along the inclination %v: %v", v, i, m)
		}
	}
	return ""
}

// gvFzInclined checks the transformation of arbitrary matrices.
func gvFzInclined(r *gvRng) string {
	n := 2 + r.Intn(4)
	idx := map[Index]int{}
	for i, p := range r.Perm(n) {
		idx[Index{fmt.Sprint("n", i), []Dof{Ux, Uz, Uy}[r.Intn(3)]}] = p
	}
	layout := newEqLayoutDirect(idx)
	var all []Index
	for i := range idx {
		all = append(all, i)
	}
	slices.SortFunc(all, func(a, b Index) int { return cmp.Compare(a.NodalID, b.NodalID) })
	pick := r.Perm(n)
	from, to := all[pick[0]], all[pick[1]]
	i, j := idx[from], idx[to]
	ang := r.Float64() * 7
	tr, bc := NewInclinedSupport(from, to, ang)
	if bc.Index != to || bc.Value != 0 {
		return fmt.Sprintf("boundary condition %v of the support at %v", bc, to)
	}
	k, rv, d := mat.NewSymDense(n, nil), mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
	for a := 0; a < n; a++ {
		rv.SetVec(a, r.num())
		d.SetVec(a, r.num())
		for b := a; b < n; b++ {
			k.SetSym(a, b, r.num())
		}
	}
	t := mat.NewDense(n, n, nil)
	for a := 0; a < n; a++ {
		t.Set(a, a, 1)
	}
	s, c := math.Sin(ang), math.Cos(ang)
	t.Set(i, i, c)
	t.Set(j, j, c)
	t.Set(i, j, -s)
	t.Set(j, i, s)
	var ke, re, de mat.Dense
	ke.Product(t.T(), k, t)
	re.Mul(t.T(), rv)
	de.Mul(t.T(), d)
	r0, d0 := mat.VecDenseCopyOf(rv), mat.VecDenseCopyOf(d)
	tr.Pre(layout, k, rv, d)
	for a := 0; a < n; a++ {
		if !gvClose(rv.AtVec(a), re.At(a, 0), 10) || !gvClose(d.AtVec(a), de.At(a, 0), 10) {
			return fmt.Sprintf("vector after transforming dofs %v, %v of %v by %v", i, j, n, ang)
		}
		for b := 0; b < n; b++ {
			if !gvClose(k.At(a, b), ke.At(a, b), 10) {
				return fmt.Sprintf("entry %v,%v after transforming dofs %v, %v of %v by %v is %v, not %v", a, b, i, j, n, ang, k.At(a, b), ke.At(a, b))
			}
		}
	}
	tr.Post(layout, rv, d)
	for a := 0; a < n; a++ {
		if !gvClose(rv.AtVec(a), r0.AtVec(a), 10) || !gvClose(d.AtVec(a), d0.AtVec(a), 10) {
			return fmt.Sprintf("transforming dofs %v, %v of %v by %v back isn't the inverse", i, j, n, ang)
		}
	}
	return ""
}

func gvLess(a, b Index) int {
	if c := cmp.Compare(a.NodalID, b.NodalID); c != 0 {
		return c
	}
	return cmp.Compare(a.Dof, b.Dof)
}

func gvExpectedOrder(m *gvModel) []Index {
	con := map[Index]bool{}
	var cs, fs []Index
	for _, bc := range m.p.Dirichlet {
		if !con[bc.Index] {
			con[bc.Index] = true
			cs = append(cs, bc.Index)
		}
	}
	for _, i := range m.dofs() {
		if !con[i] {
			fs = append(fs, i)
		}
	}
	slices.SortFunc(cs, gvLess)
	slices.SortFunc(fs, gvLess)
	return append(cs, fs...)
}

func gvFzLayout(r *gvRng) string {
	m := gvRandModel(r, 0, false)
	bad := ""
	if r.Intn(4) == 0 {
		m.p.Dirichlet = append(m.p.Dirichlet, m.p.Dirichlet[r.Intn(len(m.p.Dirichlet))])
		bad = "duplicate"
	}
	if r.Intn(4) == 0 {
		i := Index{m.nodes[0].ID, Phix}
		if r.Intn(2) == 0 {
			i = Index{"nowhere", Ux}
		}
		m.p.Dirichlet = append(m.p.Dirichlet, NodalValue{i, 0})
		bad += "unconnected"
	}
	if r.Intn(10) == 0 {
		m.p.Dirichlet = nil
		bad = ""
	}
	r.Shuffle(len(m.p.Dirichlet), func(i, j int) {
		m.p.Dirichlet[i], m.p.Dirichlet[j] = m.p.Dirichlet[j], m.p.Dirichlet[i]
	})
	r.Shuffle(len(m.p.Elements), func(i, j int) {
		m.p.Elements[i], m.p.Elements[j] = m.p.Elements[j], m.p.Elements[i]
	})
	layout, err := NewEqLayout(m.p)
	if (err != nil) != (bad != "") {
		return fmt.Sprintf("layout error %v (%v) for %v", err, bad, m)
	}
	order := gvExpectedOrder(m)
	if layout.eqSize() != len(order) {
		return fmt.Sprintf("layout of size %v instead of %v", layout.eqSize(), len(order))
	}
	for i, ix := range order {
		if got := layout.mapOne(ix); got != i {
			return fmt.Sprintf("%v is mapped to %v instead of %v: %v", ix, got, i, m)
		}
		if got := layout.unmap(i); got != ix {
			return fmt.Sprintf("%v is mapped back to %v instead of %v: %v", i, got, ix, m)
		}
	}
	if err := layout.flushFailure(); err != nil {
		return fmt.Sprintf("layout misses something: %v", err)
	}
	return ""
}

func gvFzLookup(r *gvRng) string {
	m := gvRandModel(r, r.Intn(2), true)
	layout, err := NewEqLayout(m.p)
	if err != nil {
		return err.Error()
	}
	if !m.wellPosed() {
		return ""
	}
	// the layout recovers from failures
	missing := Index{"nowhere", Ux}
	if r.Intn(2) == 0 {
		missing = Index{m.nodes[0].ID, Phix}
	}
	cp := layout
	for n := r.Intn(8); n > 0; n-- {
		l := &layout
		if r.Intn(2) == 0 {
			l = &cp
		}
		for c := r.Intn(8); c > 0; c-- {
			l.mapOne(m.dofs()[0])
		}
		if layout.failure() != nil || cp.failure() != nil || layout.flushFailure() != nil {
			return "error without failed lookup"
		}
		for c := 1 + r.Intn(8); c > 0; c-- {
			l.mapOne(missing)
			if r.Intn(2) == 0 {
				l.mapOne(m.dofs()[0])
			}
		}
		if layout.failure() == nil || cp.failure() == nil {
			return "failed lookup is lost"
		}
		if l.flushFailure() == nil {
			return "failed lookup is lost"
		}
	}
	res, err := NewLinearProblemSolver().Solve(m.p, layout, NewCholeskySolver())
	if err != nil {
		return fmt.Sprintf("solving a well-formed problem: %v %v", err, m)
	}
	for n := r.Intn(6); n > 0; n-- {
		ix := m.dofs()[r.Intn(len(m.dofs()))]
		_, e1 := res.Primary(ix)
		_, e2 := res.Reaction(ix)
		_, e3 := res.Interpolate(m.els[0].id, FctNx, 1e-9)
		if e1 != nil || e2 != nil || e3 != nil {
			return fmt.Sprintf("valid queries fail: %v %v %v", e1, e2, e3)
		}
		var e error
		if r.Intn(2) == 0 {
			_, e = res.Primary(missing)
		} else {
			_, e = res.Reaction(missing)
		}
		if e == nil {
			return fmt.Sprintf("query of %v succeeds", missing)
		}
	}
	bad := *m.p
	what := ""
	switch r.Intn(4) {
	case 0:
		what = "element"
		other := &Node{ID: "other", X: 50, Z: 50}
		e, _ := NewFrame2d("extra", m.nodes[0], other, gvRandMaterial(r), nil)
		bad.Elements = slices.Insert(slices.Clone(bad.Elements), r.Intn(len(bad.Elements)+1), e)
	case 1:
		what = "nodal load"
		bad.Neumann = slices.Insert(slices.Clone(bad.Neumann), r.Intn(len(bad.Neumann)+1), NodalValue{missing, r.num()})
	case 2:
		what = "Dirichlet"
		bad.Dirichlet = slices.Clone(bad.Dirichlet)
		bad.Dirichlet[r.Intn(len(bad.Dirichlet))].Index = missing
	default:
		what = "transformation"
		tr, _ := NewInclinedSupport(missing, m.dofs()[0], 0.3)
		if r.Intn(2) == 0 {
			tr, _ = NewInclinedSupport(m.dofs()[0], missing, 0.3)
		}
		bad.EqTransforms = slices.Insert(slices.Clone(bad.EqTransforms), r.Intn(len(bad.EqTransforms)+1), tr)
	}
	if _, err = NewLinearProblemSolver().Solve(&bad, layout, NewCholeskySolver()); err == nil {
		return fmt.Sprintf("failed lookup of %v is ignored: %v", what, m)
	}
	if _, err = NewLinearProblemSolver().Solve(m.p, layout, NewCholeskySolver()); err != nil {
		return fmt.Sprintf("the layout isn't usable after a failure: %v", err)
	}
	return ""
}

type gvFailing struct{}

func (gvFailing) SolveLinearSystem(mat.Symmetric, *mat.VecDense, *mat.VecDense) error {
	return errors.New("no")
}

func gvFzIllPosed(r *gvRng) string {
	kind := []string{"truss2d", "truss3d", "frame2d"}[r.Intn(3)]
	n0, n1 := gvRandNodes(r, kind)
	if _, err := gvBuild(kind, "", n0, n1, gvRandMaterial(r), nil); err == nil {
		return kind + " without ID is accepted"
	}
	if _, err := gvBuild(kind, "id", n0, &Node{ID: "same", X: n0.X, Y: n0.Y, Z: n0.Z}, gvRandMaterial(r), nil); err == nil {
		return kind + " without length is accepted"
	}
	m := gvRandModel(r, 0, r.Intn(2) == 0)
	keep := m.p.Dirichlet
	layout, _ := NewEqLayout(m.p)
	if len(m.dofs()) > len(m.p.Dirichlet) {
		res, err := NewLinearProblemSolver().Solve(m.p, layout, gvFailing{})
		if err == nil || res != nil {
			return "a failing equation solver is ignored"
		}
	}
	m.p.Dirichlet = nil
	layout, _ = NewEqLayout(m.p)
	res, err := NewLinearProblemSolver().Solve(m.p, layout, NewCholeskySolver())
	if err == nil || res != nil {
		return "solving without Dirichlet BC succeeds"
	}
	for _, i := range m.dofs() {
		m.p.Dirichlet = append(m.p.Dirichlet, NodalValue{i, 0})
	}
	layout, _ = NewEqLayout(m.p)
	res, err = NewLinearProblemSolver().Solve(m.p, layout, NewCholeskySolver())
	if err == nil || res != nil {
		return "solving with everything constrained succeeds"
	}
	// a mechanism: zero stiffness
	m.p.Dirichlet = keep
	if layout, err = NewEqLayout(m.p); err == nil && len(m.dofs()) > len(keep) {
		void := &Problem{Elements: []Element{&gvVoid{m.dofs()}}, Dirichlet: keep}
		res, err = NewLinearProblemSolver().Solve(void, layout, NewCholeskySolver())
		if err == nil || res != nil {
			return "solving a system without stiffness succeeds"
		}
	}
	return ""
}

type gvVoid struct{ dofs []Index }

func (*gvVoid) Assemble(EqLayout, *mat.SymDense, *mat.VecDense, *mat.VecDense) {}
func (*gvVoid) AddLoad(NeumannElementBC) bool                                  { return false }
func (*gvVoid) RemoveLoad(NeumannElementBC)                                    {}
func (*gvVoid) Interpolate(EqLayout, Fct, *mat.VecDense) PolySequence          { return nil }
func (v *gvVoid) Indices(set map[Index]struct{}) {
	for _, d := range v.dofs {
		set[d] = struct{}{}
	}
}
func (*gvVoid) NumNodes() uint { return 2 }
func (*gvVoid) ID() string     { return "void" }

func gvFzCholesky(r *gvRng) string {
	n := 1 + r.Intn(4)
	a := mat.NewSymDense(n, nil)
	b, x := mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
	l := mat.NewDense(n, n, nil)
	bad := r.Intn(3) == 0
	for i := 0; i < n; i++ {
		b.SetVec(i, r.num())
		for j := 0; j < i; j++ {
			l.Set(i, j, r.num()/5)
		}
		l.Set(i, i, r.pos())
	}
	if bad {
		l.Set(r.Intn(n), 0, 0)
		k := r.Intn(n)
		for j := 0; j < n; j++ {
			l.Set(k, j, 0)
		}
	}
	var p mat.Dense
	p.Mul(l, l.T())
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			a.SetSym(i, j, p.At(i, j))
		}
	}
	b0 := mat.VecDenseCopyOf(b)
	if r.Intn(8) == 0 { // dimensions don't fit
		if NewCholeskySolver().SolveLinearSystem(a, mat.NewVecDense(n+1, nil), x) == nil {
			return "system with inconsistent dimensions is solved"
		}
		return ""
	}
	err := NewCholeskySolver().SolveLinearSystem(a, b, x)
	if bad {
		if err == nil {
			return fmt.Sprintf("singular system is solved: %v", mat.Formatted(a))
		}
		return ""
	}
	if err != nil {
		var c mat.Cholesky
		if c.Factorize(a); c.Cond() > 1e12 {
			return ""
		}
		return fmt.Sprintf("regular system isn't solved: %v %v", mat.Formatted(a), err)
	}
	var ax mat.VecDense
	ax.MulVec(a, x)
	for i := 0; i < n; i++ {
		if !gvClose(ax.AtVec(i), b.AtVec(i), mat.Norm(a, 1)*mat.Norm(x, 1)) || b.AtVec(i) != b0.AtVec(i) {
			return fmt.Sprintf("not a solution: %v", mat.Formatted(a))
		}
	}
	return ""
}

func gvFzQueries(r *gvRng) string {
	m := gvRandModel(r, r.Intn(2), true)
	layout, err := NewEqLayout(m.p)
	if err != nil || !m.wellPosed() {
		return ""
	}
	res, err := NewLinearProblemSolver().Solve(m.p, layout, NewCholeskySolver())
	if err != nil {
		return fmt.Sprint(err, m)
	}
	order := gvExpectedOrder(m)
	if t, n := res.Dimension(); t != len(order) || n != len(order)-len(m.p.Dirichlet) {
		return fmt.Sprintf("dimension %v %v of %v", t, n, m)
	}
	var prim, reac map[Index]float64
	for q := 4 + r.Intn(10); q > 0; q-- {
		switch r.Intn(5) {
		case 0, 1:
			p := r.Intn(2) == 0
			all := res.ReactionAll()
			if p {
				all = res.PrimaryAll()
			}
			if len(all) != len(order) {
				return "list of wrong length"
			}
			for i := range all {
				if all[i].Index != order[i] {
					return fmt.Sprintf("entry %v is %v instead of %v", i, all[i].Index, order[i])
				}
			}
			v := gvValues(all)
			if p {
				if prim != nil && !gvSameValues(v, prim) {
					return "primary values change"
				}
				prim = v
			} else {
				if reac != nil && !gvSameValues(v, reac) {
					return "reactions change"
				}
				reac = v
			}
		case 2:
			ix := order[r.Intn(len(order))]
			v, err := res.Primary(ix)
			if err != nil || v.Index != ix || v.Value != gvValues(res.PrimaryAll())[ix] {
				return fmt.Sprintf("Primary(%v) is %v (%v)", ix, v, err)
			}
			v, err = res.Reaction(ix)
			if err != nil || v.Index != ix || v.Value != gvValues(res.ReactionAll())[ix] {
				return fmt.Sprintf("Reaction(%v) is %v (%v)", ix, v, err)
			}
		case 3:
			g := m.els[r.Intn(len(m.els))]
			fct := Fct(r.Intn(14))
			tol := []float64{0, 1e-9, 1e-2}[r.Intn(3)]
			in, err := res.Interpolate(g.id, fct, tol)
			d := mat.NewVecDense(len(order), nil)
			for i, v := range res.PrimaryAll() {
				d.SetVec(i, v.Value)
			}
			ps := g.e.Interpolate(layout, fct, d)
			ps.TrimTrailingZeros(tol)
			ps = ps.CompactIdentical(tol)
			if err != nil || in.Element != g.id || in.Quantity != fct || !gvSameSeq(in.Piecewise, ps) || (in.Piecewise == nil) != (ps == nil) {
				return fmt.Sprintf("Interpolate(%v, %v) is %v (%v), expected %v", g.id, fct, in, err, ps)
			}
			if _, err := res.Interpolate("no such element", fct, tol); err == nil {
				return "interpolation for an unknown element"
			}
		case 4:
			tol := 1e-9
			var want []string
			for _, g := range m.els {
				for f := FctUx; f <= FctMx; f++ {
					if in, _ := res.Interpolate(g.id, f, tol); in.Piecewise != nil {
						want = append(want, fmt.Sprint(in))
					}
				}
			}
			var got []string
			for _, in := range res.InterpolateAll(tol) {
				got = append(got, fmt.Sprint(in))
			}
			slices.Sort(got)
			slices.Sort(want)
			if !slices.Equal(got, want) {
				return fmt.Sprintf("InterpolateAll is %v instead of %v", got, want)
			}
		}
	}
	return ""
}

func gvSameValues(a, b map[Index]float64) bool {
	for i, v := range a {
		if b[i] != v {
			return false
		}
	}
	return len(a) == len(b)
}

func gvCloseValues(a, b map[Index]float64) bool {
	s := 0.0
	for _, v := range b {
		s = math.Max(s, math.Abs(v))
	}
	for i, v := range a {
		if math.Abs(b[i]-v) > 1e-6*(s+1e-6) || math.IsNaN(v) {
			return false
		}
	}
	return len(a) == len(b)
}

// gvFzReuse solves several problems with the same solver.
func gvFzReuse(r *gvRng) string {
	type run struct {
		m      *gvModel
		layout EqLayout
		fresh  [2]map[Index]float64
		inter  string
		res    ProblemResult
		lazy   bool
		reused int
	}
	var runs []*run
	solver, strategy := NewLinearProblemSolver(), NewCholeskySolver()
	for n := 2 + r.Intn(3); n > 0; n-- {
		m := gvRandModel(r, r.Intn(2), true)
		if len(runs) > 0 && r.Intn(4) == 0 {
			m = runs[r.Intn(len(runs))].m
		}
		layout, err := NewEqLayout(m.p)
		if err != nil || !m.wellPosed() {
			continue
		}
		fr, err := NewLinearProblemSolver().Solve(m.p, layout, NewCholeskySolver())
		if err != nil {
			return fmt.Sprint(err, m)
		}
		x := &run{m: m, layout: layout, lazy: r.Intn(2) == 0}
		x.fresh = [2]map[Index]float64{gvValues(fr.PrimaryAll()), gvValues(fr.ReactionAll())}
		x.res, err = solver.Solve(m.p, layout, strategy)
		if err != nil {
			return fmt.Sprintf("solving with a used solver: %v %v", err, m)
		}
		if !x.lazy {
			if !gvCloseValues(gvValues(x.res.PrimaryAll()), x.fresh[0]) || !gvCloseValues(gvValues(x.res.ReactionAll()), x.fresh[1]) {
				return fmt.Sprintf("another outcome with a used solver: %v", m)
			}
			if r.Intn(2) == 0 {
				x.res.InterpolateAll(1e-9)
			}
		}
		runs = append(runs, x)
		if r.Intn(4) == 0 {
			solver.Solve(m.p, layout, gvFailing{})
		}
		if r.Intn(4) == 0 {
			solver.Solve(&Problem{Elements: m.p.Elements}, layout, strategy)
		}
	}
	for _, x := range runs {
		for ix, v := range x.fresh[0] {
			if got, err := x.res.Primary(ix); err != nil || math.Abs(got.Value-v) > 1e-6*(1e-3+math.Abs(v)) && !gvCloseValues(map[Index]float64{ix: got.Value}, map[Index]float64{ix: v}) && !gvCloseValues(gvValues(x.res.PrimaryAll()), x.fresh[0]) {
				return fmt.Sprintf("earlier result at %v is %v instead of %v: %v", ix, got.Value, v, x.m)
			}
		}
		if !gvCloseValues(gvValues(x.res.PrimaryAll()), x.fresh[0]) || !gvCloseValues(gvValues(x.res.ReactionAll()), x.fresh[1]) {
			return fmt.Sprintf("earlier result has changed: %v", x.m)
		}
		for _, g := range x.m.els {
			d := mat.NewVecDense(len(x.fresh[0]), nil)
			for i, v := range x.res.PrimaryAll() {
				d.SetVec(i, v.Value)
			}
			for _, f := range []Fct{FctNx, FctUz} {
				in, err := x.res.Interpolate(g.id, f, 0)
				ps := g.e.Interpolate(x.layout, f, d)
				ps.TrimTrailingZeros(0)
				if ps = ps.CompactIdentical(0); err != nil || !gvSameSeq(in.Piecewise, ps) {
					return fmt.Sprintf("interpolation of an earlier result: %v %v %v", in, ps, x.m)
				}
			}
		}
	}
	return ""
}

// gvFzSupportReuse uses an inclined support in problems of different size.
func gvFzSupportReuse(r *gvRng) string {
	var tr, fresh Transformer
	ang := r.Float64() * 6
	from, to := Index{"A", Ux}, Index{"A", Uz}
	tr, _ = NewInclinedSupport(from, to, ang)
	for n := 2 + r.Intn(4); n > 0; n-- {
		fresh, _ = NewInclinedSupport(from, to, ang)
		dim := 2 + r.Intn(5)
		pos := r.Perm(dim)
		idx := map[Index]int{from: pos[0], to: pos[1]}
		for i := 2; i < dim; i++ {
			idx[Index{fmt.Sprint(i), Uz}] = pos[i]
		}
		layout := newEqLayoutDirect(idx)
		k, rv, d := mat.NewSymDense(dim, nil), mat.NewVecDense(dim, nil), mat.NewVecDense(dim, nil)
		for a := 0; a < dim; a++ {
			rv.SetVec(a, r.num())
			d.SetVec(a, r.num())
			for b := a; b < dim; b++ {
				k.SetSym(a, b, r.num())
			}
		}
		k2, r2, d2 := mat.NewSymDense(dim, nil), mat.VecDenseCopyOf(rv), mat.VecDenseCopyOf(d)
		k2.CopySym(k)
		tr.Pre(layout, k, rv, d)
		fresh.Pre(layout, k2, r2, d2)
		if !mat.EqualApprox(k, k2, 1e-9) || !mat.EqualApprox(rv, r2, 1e-9) || !mat.EqualApprox(d, d2, 1e-9) {
			return fmt.Sprintf("used inclined support acts differently for dimension %v", dim)
		}
		tr.Post(layout, rv, d)
		fresh.Post(layout, r2, d2)
		if !mat.EqualApprox(rv, r2, 1e-9) || !mat.EqualApprox(d, d2, 1e-9) {
			return fmt.Sprintf("used inclined support acts differently for dimension %v", dim)
		}
	}
	return ""
}
