package deflect

// Cross-check of the verified properties on the real code with random inputs and an independent
// floating point oracle. This only searches for a concrete failing input; it proves nothing.

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"testing"
	"time"
)

type gvRng struct{ *rand.Rand }

var gvProps = map[string][]func(*gvRng) string{}

func gvRegister(prop string, f func(*gvRng) string) bool {
	gvProps[prop] = append(gvProps[prop], f)
	return true
}

func gvGuard(f func(*gvRng) string, rng *gvRng) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return f(rng)
}

func TestGvFalsify(t *testing.T) {
	prop := os.Getenv("GV_PROP")
	budget, _ := time.ParseDuration(os.Getenv("GV_BUDGET"))
	if budget == 0 {
		budget = 5 * time.Second
	}
	log.SetOutput(io.Discard)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	res := struct {
		Failure string
		Cases   int
	}{}
	start := time.Now()
	fs := gvProps[prop]
	for i := 0; len(fs) > 0 && time.Since(start) < budget && res.Failure == ""; i++ {
		for n, f := range fs {
			s := seed*1000003 + int64(i)*17 + int64(n)
			if msg := gvGuard(f, &gvRng{rand.New(rand.NewSource(s))}); msg != "" {
				res.Failure = fmt.Sprintf("case seed %v of check %v: %s", s, n, msg)
				break
			}
			res.Cases++
		}
		if i >= 20000 && budget < 30*time.Second || i >= 500000 {
			break
		}
	}
	if file := os.Getenv("GV_RESULT"); file != "" {
		b, _ := json.Marshal(res)
		os.WriteFile(file, b, 0o644)
	}
	if res.Failure != "" {
		t.Error(res.Failure)
	}
}

// num is a number that's special every now and then.
func (r *gvRng) num() float64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -1
	case 3:
		return float64(r.Intn(7) - 3)
	}
	return math.Round((r.Float64()*20-10)*1e4) / 1e4
}

func (r *gvRng) pos() float64 {
	if r.Intn(3) == 0 {
		return float64(1 + r.Intn(4))
	}
	return 0.2 + r.Float64()*5
}

func gvClose(a, b, scale float64) bool {
	return math.Abs(a-b) <= 1e-8*(math.Abs(scale)+math.Abs(a)+math.Abs(b))+1e-12 || a == b
}

// ---- random elements with reference

type gvRefElem struct {
	kind   string
	id     string
	n0, n1 *Node
	EA, EI float64
	mat    *Material
	hinges map[Index]struct{}
	e      Element
	l      float64
	dofs   []Index
	loc    [][]float64 // local dofs from global dofs
	rel    []bool
	loads  []gvRefLoad // the ones that count
}

type gvRefLoad struct {
	shape  int
	kind   Dof
	a      float64
	v0, v1 float64
	bc     NeumannElementBC
}

type gvCS struct{ a, iyy, izz float64 }

func (c *gvCS) Area() float64      { return c.a }
func (c *gvCS) Iyy() float64       { return c.iyy }
func (c *gvCS) Izz() float64       { return c.izz }
func (c *gvCS) Ixx() float64       { return 0.37 }
func (c *gvCS) RollAngle() float64 { return 0 }

func gvRandMaterial(r *gvRng) *Material {
	return &Material{
		CrossSection:  &gvCS{a: r.pos(), iyy: r.pos(), izz: r.pos()},
		LinearElastic: LinearElastic{YoungsModulus: r.pos() * 3, PoissonsRatio: r.Float64(), Density: r.pos()},
	}
}

func gvBuild(kind, id string, n0, n1 *Node, m *Material, hinges map[Index]struct{}) (Element, error) {
	switch kind {
	case "truss2d":
		return NewTruss2d(id, n0, n1, m, hinges)
	case "truss3d":
		return NewTruss3d(id, n0, n1, m, hinges)
	}
	return NewFrame2d(id, n0, n1, m, hinges)
}

func gvLocalDofs(kind string, n0, n1 *Node) []Index {
	ax := []Index{{n0.ID, Ux}, {n1.ID, Ux}}
	if kind == "frame2d" {
		return append(ax, Index{n0.ID, Uz}, Index{n0.ID, Phiy}, Index{n1.ID, Uz}, Index{n1.ID, Phiy})
	}
	return ax
}

func gvHingesOk(rel []bool) bool {
	ax := 0
	for i := 0; i < 2; i++ {
		if rel[i] {
			ax++
		}
	}
	if ax > 1 {
		return false
	}
	if len(rel) == 2 {
		return true
	}
	h := rel[2:]
	n := 0
	for _, b := range h {
		if b {
			n++
		}
	}
	return n <= 1 || n == 2 && (h[1] && h[2] || h[1] && h[3] || h[0] && h[3])
}

// gvWrap makes the reference of an element between given nodes.
func gvWrap(kind, id string, n0, n1 *Node, m *Material, hinges map[Index]struct{}) *gvRefElem {
	g := &gvRefElem{kind: kind, id: id, n0: n0, n1: n1, mat: m, hinges: hinges}
	g.EA, g.EI = m.YoungsModulus*m.Area(), m.YoungsModulus*m.Iyy()
	dx, dy, dz := n1.X-n0.X, n1.Y-n0.Y, n1.Z-n0.Z
	g.l = math.Sqrt(dx*dx + dy*dy + dz*dz)
	cx, cy, cz := dx/g.l, dy/g.l, dz/g.l
	switch kind {
	case "truss2d":
		g.dofs = []Index{{n0.ID, Ux}, {n0.ID, Uz}, {n1.ID, Ux}, {n1.ID, Uz}}
		g.loc = [][]float64{{cx, cz, 0, 0}, {0, 0, cx, cz}}
	case "truss3d":
		g.dofs = []Index{{n0.ID, Ux}, {n0.ID, Uy}, {n0.ID, Uz}, {n1.ID, Ux}, {n1.ID, Uy}, {n1.ID, Uz}}
		g.loc = [][]float64{{cx, cy, cz, 0, 0, 0}, {0, 0, 0, cx, cy, cz}}
	default:
		g.dofs = []Index{{n0.ID, Ux}, {n0.ID, Uz}, {n0.ID, Phiy}, {n1.ID, Ux}, {n1.ID, Uz}, {n1.ID, Phiy}}
		// w is measured against the global direction, phi too
		g.loc = [][]float64{{cx, cz, 0, 0, 0, 0}, {0, 0, 0, cx, cz, 0},
			{cz, -cx, 0, 0, 0, 0}, {0, 0, -1, 0, 0, 0}, {0, 0, 0, cz, -cx, 0}, {0, 0, 0, 0, 0, -1}}
	}
	for _, i := range gvLocalDofs(kind, n0, n1) {
		_, ok := hinges[i]
		g.rel = append(g.rel, ok)
	}
	return g
}

func gvRandNodes(r *gvRng, kind string) (*Node, *Node) {
	for {
		n0 := &Node{ID: "A", X: r.num(), Z: r.num()}
		n1 := &Node{ID: "B", X: r.num(), Z: r.num()}
		if kind == "truss3d" {
			n0.Y, n1.Y = r.num(), r.num()
		} else if r.Intn(3) == 0 {
			n0.Y = r.num()
			n1.Y = n0.Y
		}
		if r.Intn(2) == 0 {
			n0.ID, n1.ID = n1.ID, n0.ID
		}
		if d := math.Hypot(math.Hypot(n0.X-n1.X, n0.Y-n1.Y), n0.Z-n1.Z); d > 0.1 {
			return n0, n1
		}
	}
}

func gvRandHinges(r *gvRng, dofs []Index) map[Index]struct{} {
	for {
		h := map[Index]struct{}{}
		rel := make([]bool, len(dofs))
		for i := range dofs {
			if r.Intn(3) == 0 {
				rel[i] = true
				h[dofs[i]] = struct{}{}
			}
		}
		if gvHingesOk(rel) {
			if r.Intn(4) == 0 {
				h[Index{"somewhere else", Phiy}] = struct{}{}
			}
			return h
		}
	}
}

func gvRandElem(r *gvRng) *gvRefElem {
	kind := []string{"truss2d", "truss3d", "frame2d", "frame2d"}[r.Intn(4)]
	n0, n1 := gvRandNodes(r, kind)
	g := gvWrap(kind, "e", n0, n1, gvRandMaterial(r), gvRandHinges(r, gvLocalDofs(kind, n0, n1)))
	e, err := gvBuild(kind, g.id, n0, n1, g.mat, g.hinges)
	if err != nil {
		panic(fmt.Sprintf("can't create a well-formed element: %v", err))
	}
	g.e = e
	return g
}

func (g *gvRefElem) String() string {
	return fmt.Sprintf("%v %+v %+v EA=%v EI=%v hinges=%v loads=%+v", g.kind, *g.n0, *g.n1, g.EA, g.EI, g.hinges, g.loads)
}

func gvRandLoad(r *gvRng, l float64) gvRefLoad {
	ld := gvRefLoad{shape: r.Intn(3), kind: []Dof{Ux, Uz, Phiy, Ux, Uz, Uy, Phix, Phiz}[r.Intn(8)], v0: r.num()}
	ld.v1 = ld.v0
	switch ld.shape {
	case 0:
		switch r.Intn(7) {
		case 0:
			ld.a = 0
		case 1:
			ld.a = l
		case 3:
			ld.a = l * math.Pow(10, -2-6*r.Float64())
		case 4:
			ld.a = l * (1 - math.Pow(10, -2-6*r.Float64()))
		case 2:
			ld.a = l / 2
		default:
			ld.a = r.Float64() * l
		}
		ld.bc, _ = NewElementConcentratedLoad(ld.kind, ld.a, ld.v0)
	case 1:
		ld.bc = NewElementConstantLoad(ld.kind, ld.v0)
	default:
		ld.v1 = r.num()
		ld.bc = NewElementLinearLoad(ld.kind, ld.v0, ld.v1)
	}
	return ld
}

func (g *gvRefElem) supports(ld *gvRefLoad) bool {
	if ld.shape == 0 && (ld.a < 0 || ld.a > g.l+1e-9) {
		return false
	}
	if g.kind == "frame2d" {
		return ld.kind == Ux || ld.kind == Uz || ld.kind == Phiy && ld.shape == 0
	}
	return ld.kind == Ux
}

// add adds a random load and returns what's wrong.
func (g *gvRefElem) add(ld gvRefLoad) string {
	ok := g.e.AddLoad(ld.bc)
	if ok != g.supports(&ld) {
		return fmt.Sprintf("AddLoad(%+v) is %v on %v", ld, ok, g)
	}
	if ok {
		g.loads = append(g.loads, ld)
	}
	return ""
}

func (g *gvRefElem) shape(i int, xi float64) (n, dn float64) { // value, derivative w.r.t. x
	l := g.l
	switch i {
	case 0:
		return 1 - xi, -1 / l
	case 1:
		return xi, 1 / l
	case 2:
		return 1 - 3*xi*xi + 2*xi*xi*xi, (-6*xi + 6*xi*xi) / l
	case 3:
		return -l * xi * (1 - xi) * (1 - xi), -(1 - 4*xi + 3*xi*xi)
	case 4:
		return 3*xi*xi - 2*xi*xi*xi, (6*xi - 6*xi*xi) / l
	}
	return l * xi * xi * (1 - xi), 2*xi - 3*xi*xi
}

var gvGauss = [][2]float64{{0.5 - 0.5*0.906179845938664, 0.5 * 0.236926885056189}, {0.5 - 0.5*0.538469310105683, 0.5 * 0.478628670499366},
	{0.5, 0.5 * 0.568888888888889}, {0.5 + 0.5*0.538469310105683, 0.5 * 0.478628670499366}, {0.5 + 0.5*0.906179845938664, 0.5 * 0.236926885056189}}

// gauss5 integrates f over a..b
func gauss5(a, b float64, f func(float64) float64) float64 {
	s := 0.0
	for _, g := range gvGauss {
		s += g[1] * (b - a) * f(a+g[0]*(b-a))
	}
	return s
}

// localFull returns stiffness and load without hinges.
func (g *gvRefElem) localFull() ([][]float64, []float64) {
	n := len(g.loc)
	k := make([][]float64, n)
	l := g.l
	for i := range k {
		k[i] = make([]float64, n)
	}
	a := g.EA / l
	k[0][0], k[0][1], k[1][0], k[1][1] = a, -a, -a, a
	if n > 2 {
		b := g.EI / (l * l * l)
		ref := [4][4]float64{{12, -6 * l, -12, -6 * l}, {-6 * l, 4 * l * l, 6 * l, 2 * l * l}, {-12, 6 * l, 12, 6 * l}, {-6 * l, 2 * l * l, 6 * l, 4 * l * l}}
		for i := 0; i < 4; i++ {
			for j := 0; j < 4; j++ {
				k[2+i][2+j] = b * ref[i][j]
			}
		}
	}
	r := make([]float64, n)
	for _, ld := range g.loads {
		for i := range r {
			dir := Ux
			if i >= 2 {
				dir = Uz
			}
			switch {
			case ld.shape == 0 && ld.kind == dir:
				v, _ := g.shape(i, ld.a/l)
				r[i] += v * ld.v0
			case ld.shape == 0 && ld.kind == Phiy && i >= 2:
				_, d := g.shape(i, ld.a/l)
				r[i] -= d * ld.v0
			case ld.shape != 0 && ld.kind == dir:
				r[i] += gauss5(0, l, func(x float64) float64 {
					v, _ := g.shape(i, x/l)
					return v * (ld.v0 + (ld.v1-ld.v0)*x/l)
				})
			}
		}
	}
	return k, r
}

func (g *gvRefElem) condensed() ([][]float64, []float64) {
	k, r := g.localFull()
	n := len(r)
	for h := 0; h < n; h++ {
		if !g.rel[h] {
			continue
		}
		row := append([]float64(nil), k[h]...)
		rh, p := r[h], k[h][h]
		for i := 0; i < n; i++ {
			r[i] -= row[i] * rh / p
			for j := 0; j < n; j++ {
				k[i][j] -= row[i] * row[j] / p
			}
		}
		for i := 0; i < n; i++ {
			k[h][i], k[i][h] = 0, 0
		}
		r[h] = 0
	}
	return k, r
}

func (g *gvRefElem) global() ([][]float64, []float64) {
	k, r := g.condensed()
	n := len(g.dofs)
	gk, gr := make([][]float64, n), make([]float64, n)
	for i := range gk {
		gk[i] = make([]float64, n)
		for a := range r {
			gr[i] += g.loc[a][i] * r[a]
			for j := range gk[i] {
				for b := range r {
					gk[i][j] += g.loc[a][i] * k[a][b] * g.loc[b][j]
				}
			}
		}
	}
	return gk, gr
}

// recovered returns local end displacements with the hinged ones recovered, and end forces k u - r.
func (g *gvRefElem) recovered(d map[Index]float64) (u, f []float64) {
	k, r := g.localFull()
	n := len(r)
	u = make([]float64, n)
	for a := range u {
		for i, ix := range g.dofs {
			u[a] += g.loc[a][i] * d[ix]
		}
	}
	// solve for the released ones
	var hs []int
	for h := range u {
		if g.rel[h] {
			hs = append(hs, h)
			u[h] = 0
		}
	}
	rhs := make([]float64, len(hs))
	for i, h := range hs {
		rhs[i] = r[h]
		for j := range u {
			rhs[i] -= k[h][j] * u[j]
		}
	}
	m := make([][]float64, len(hs))
	for i, h := range hs {
		m[i] = make([]float64, len(hs))
		for j, h2 := range hs {
			m[i][j] = k[h][h2]
		}
	}
	for i, v := range gvSolve(m, rhs) {
		u[hs[i]] = v
	}
	f = make([]float64, n)
	for i := range f {
		f[i] = -r[i]
		for j := range u {
			f[i] += k[i][j] * u[j]
		}
	}
	return u, f
}

func gvSolve(a [][]float64, b []float64) []float64 {
	n := len(b)
	m := make([][]float64, n)
	for i := range m {
		m[i] = append(append([]float64(nil), a[i]...), b[i])
	}
	for c := 0; c < n; c++ {
		p := c
		for i := c; i < n; i++ {
			if math.Abs(m[i][c]) > math.Abs(m[p][c]) {
				p = i
			}
		}
		m[c], m[p] = m[p], m[c]
		for i := 0; i < n; i++ {
			if i != c {
				q := m[i][c] / m[c][c]
				for j := c; j <= n; j++ {
					m[i][j] -= q * m[c][j]
				}
			}
		}
	}
	x := make([]float64, n)
	for i := range x {
		x[i] = m[i][n] / m[i][i]
	}
	return x
}
