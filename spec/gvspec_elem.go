package deflect

// Shared parts of the element contracts: an arbitrary element between arbitrary nodes with
// arbitrary hinges, and the exact (shape function based) element matrices as reference.

// gvElem describes an element under test: its degrees of freedom and local axes.
type gvElem struct {
	e      Element
	n0, n1 *Node
	l      float64
	cs     CrossSection
	E      float64
	dofs   []Index // global degrees of freedom in order
	pos    []int   // their positions in the layout
	layout EqLayout
	n      int
	local  [][]float64 // local degrees of freedom as linear combination of the global ones
	hinged []bool      // which of the local ones are released
	axial  bool        // local degrees: axial u0, u1
	beam   bool        // local degrees: w0, phi0, w1, phi1
}

func gvNodes2d() (*Node, *Node) {
	n0 := &Node{ID: gvStr("id0"), X: gvReal("x0"), Y: gvReal("y"), Z: gvReal("z0")}
	n1 := &Node{ID: gvStr("id1"), X: n0.X + gvReal("dx"), Y: n0.Y, Z: n0.Z + gvReal("dz")}
	gvAssume(n0.ID != n1.ID)
	return n0, n1
}

func gvNodes3d() (*Node, *Node) {
	n0 := &Node{ID: gvStr("id0"), X: gvReal("x0"), Y: gvReal("y0"), Z: gvReal("z0")}
	n1 := &Node{ID: gvStr("id1"), X: n0.X + gvReal("dx"), Y: n0.Y + gvReal("dy"), Z: n0.Z + gvReal("dz")}
	gvAssume(n0.ID != n1.ID)
	return n0, n1
}

func gvMaterial(g *gvElem) *Material {
	g.cs = gvAny[CrossSection]("cs")
	g.E = gvReal("E")
	gvAssume(gvAnd(g.E > 0, g.cs.Area() > 0, g.cs.Iyy() > 0, g.cs.Izz() > 0))
	return &Material{CrossSection: g.cs, LinearElastic: LinearElastic{YoungsModulus: g.E, PoissonsRatio: gvReal("nu"), Density: gvReal("rho")}}
}

// gvHinges is an arbitrary set of hinges; besides the given degrees of freedom it may contain others.
func gvHinges(rel []Index) (map[Index]struct{}, []bool) {
	m := map[Index]struct{}{}
	h := make([]bool, len(rel))
	for i := range rel {
		h[i] = gvBool(gvName("hinge", i))
		if h[i] {
			m[rel[i]] = struct{}{}
		}
	}
	return m, h
}

func gvName(s string, i int) string {
	names := []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
	return s + names[i]
}

// gvLayout numbers the degrees of freedom of the element arbitrarily within 0..n.
func gvLayout(g *gvElem) {
	g.n = gvNat("n")
	m := map[Index]int{}
	g.pos = make([]int, len(g.dofs))
	for i := range g.dofs {
		g.pos[i] = gvNat(gvName("pos", i))
		gvAssume(g.pos[i] < g.n)
		for j := 0; j < i; j++ {
			gvAssume(g.pos[i] != g.pos[j])
		}
		m[g.dofs[i]] = g.pos[i]
	}
	g.layout = EqLayout{indices: m}
}

func gvTruss2d() *gvElem {
	g := &gvElem{axial: true}
	g.n0, g.n1 = gvNodes2d()
	mat := gvMaterial(g)
	hs, h := gvHinges([]Index{{g.n0.ID, Ux}, {g.n1.ID, Ux}})
	e, err := NewTruss2d(gvStr("elem"), g.n0, g.n1, mat, hs)
	gvAssume(err == nil)
	g.e = e
	g.l = length(g.n0, g.n1)
	g.hinged = h
	c, s := (g.n1.X-g.n0.X)/g.l, (g.n1.Z-g.n0.Z)/g.l
	g.dofs = []Index{{g.n0.ID, Ux}, {g.n0.ID, Uz}, {g.n1.ID, Ux}, {g.n1.ID, Uz}}
	g.local = [][]float64{{c, s, 0, 0}, {0, 0, c, s}}
	gvLayout(g)
	return g
}

func gvTruss3d() *gvElem {
	g := &gvElem{axial: true}
	g.n0, g.n1 = gvNodes3d()
	mat := gvMaterial(g)
	hs, h := gvHinges([]Index{{g.n0.ID, Ux}, {g.n1.ID, Ux}})
	e, err := NewTruss3d(gvStr("elem"), g.n0, g.n1, mat, hs)
	gvAssume(err == nil)
	g.e = e
	g.l = length(g.n0, g.n1)
	g.hinged = h
	cx, cy, cz := (g.n1.X-g.n0.X)/g.l, (g.n1.Y-g.n0.Y)/g.l, (g.n1.Z-g.n0.Z)/g.l
	g.dofs = []Index{{g.n0.ID, Ux}, {g.n0.ID, Uy}, {g.n0.ID, Uz}, {g.n1.ID, Ux}, {g.n1.ID, Uy}, {g.n1.ID, Uz}}
	g.local = [][]float64{{cx, cy, cz, 0, 0, 0}, {0, 0, 0, cx, cy, cz}}
	gvLayout(g)
	return g
}

func gvFrame2d() *gvElem {
	g := &gvElem{axial: true, beam: true}
	g.n0, g.n1 = gvNodes2d()
	mat := gvMaterial(g)
	hs, h := gvHinges([]Index{{g.n0.ID, Ux}, {g.n1.ID, Ux}, {g.n0.ID, Uz}, {g.n0.ID, Phiy}, {g.n1.ID, Uz}, {g.n1.ID, Phiy}})
	e, err := NewFrame2d(gvStr("elem"), g.n0, g.n1, mat, hs)
	gvAssume(err == nil)
	g.e = e
	g.l = length(g.n0, g.n1)
	g.hinged = h
	c, s := (g.n1.X-g.n0.X)/g.l, (g.n1.Z-g.n0.Z)/g.l
	g.dofs = []Index{{g.n0.ID, Ux}, {g.n0.ID, Uz}, {g.n0.ID, Phiy}, {g.n1.ID, Ux}, {g.n1.ID, Uz}, {g.n1.ID, Phiy}}
	g.local = [][]float64{
		{c, s, 0, 0, 0, 0}, {0, 0, 0, c, s, 0},
		{s, -c, 0, 0, 0, 0}, {0, 0, -1, 0, 0, 0}, {0, 0, 0, s, -c, 0}, {0, 0, 0, 0, 0, -1},
	}
	gvLayout(g)
	return g
}

// ---- exact element matrices from shape functions, polynomials in x/l

// gvShapes are the shape functions of the local degrees of freedom in xi = x/l, lowest power first.
func gvShapes(l float64) [][]float64 {
	return [][]float64{
		{1, -1}, {0, 1}, // axial
		{1, 0, -3, 2}, {0, -l, 2 * l, -l}, {0, 0, 3, -2}, {0, 0, l, -l}, // transverse, phi = -dw/dx
	}
}

func gvPolyDeriv(p []float64) []float64 {
	r := make([]float64, 0, 4)
	for i := 1; i < len(p); i++ {
		r = append(r, float64(i)*p[i])
	}
	return r
}

func gvPolyEval(p []float64, x float64) float64 {
	r := 0.0
	for i := len(p) - 1; i >= 0; i-- {
		r = r*x + p[i]
	}
	return r
}

// gvPolyDot is the integral of p*q over 0..1
func gvPolyDot(p, q []float64) float64 {
	r := 0.0
	for i := range p {
		for j := range q {
			r += p[i] * q[j] / float64(i+j+1)
		}
	}
	return r
}

// gvLocalK is the exact stiffness of the element without hinges in local degrees of freedom.
func gvLocalK(g *gvElem) [][]float64 {
	n := len(g.local)
	sh := gvShapes(g.l)
	k := make([][]float64, n)
	for i := range k {
		k[i] = make([]float64, n)
		for j := range k[i] {
			if (i < 2) != (j < 2) {
				continue
			}
			if i < 2 {
				k[i][j] = g.E * g.cs.Area() / g.l * gvPolyDot(gvPolyDeriv(sh[i]), gvPolyDeriv(sh[j]))
			} else {
				k[i][j] = g.E * g.cs.Iyy() / (g.l * g.l * g.l) * gvPolyDot(gvPolyDeriv(gvPolyDeriv(sh[i])), gvPolyDeriv(gvPolyDeriv(sh[j])))
			}
		}
	}
	return k
}

// gvCondense eliminates the hinged degrees of freedom one by one (Gauss).
func gvCondense(k [][]float64, r []float64, hinged []bool) {
	n := len(r)
	for h := 0; h < n; h++ {
		if !hinged[h] {
			continue
		}
		p := k[h][h]
		row := make([]float64, n)
		for i := 0; i < n; i++ {
			row[i] = k[h][i]
		}
		rh := r[h]
		for i := 0; i < n; i++ {
			r[i] -= row[i] * rh / p
			for j := 0; j < n; j++ {
				k[i][j] -= row[i] * row[j] / p
			}
		}
	}
}

// gvGlobalK rotates a local matrix into global degrees of freedom.
func gvGlobalK(g *gvElem, k [][]float64) [][]float64 {
	n := len(g.dofs)
	res := make([][]float64, n)
	for i := range res {
		res[i] = make([]float64, n)
		for j := range res[i] {
			for a := range k {
				for b := range k {
					res[i][j] += g.local[a][i] * k[a][b] * g.local[b][j]
				}
			}
		}
	}
	return res
}

func gvGlobalR(g *gvElem, r []float64) []float64 {
	res := make([]float64, len(g.dofs))
	for i := range res {
		for a := range r {
			res[i] += g.local[a][i] * r[a]
		}
	}
	return res
}

// Initial contents of the symbolic matrix K and vectors R, D.
func gvK0(i, j int) float64 { return gvFnReal("sym:K.data", i, j) }
func gvR0(i int) float64    { return gvFnReal("R.data", i) }
func gvD0(i int) float64    { return gvFnReal("D.data", i) }
