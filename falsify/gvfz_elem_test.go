package deflect

import (
	"fmt"
	"math"

	"gonum.org/v1/gonum/mat"
)

var (
	_ = gvRegister("C01", func(r *gvRng) string { return gvFzAssemble(r, false) })
	_ = gvRegister("C02", func(r *gvRng) string { return gvFzAssemble(r, true) })
	_ = gvRegister("C03", func(r *gvRng) string { return gvFzAssemble(r, true) })
	_ = gvRegister("C03", gvFzHingeCreation)
	_ = gvRegister("C03", func(r *gvRng) string { return gvFzInterpolate(r, false) })
	_ = gvRegister("C03", func(r *gvRng) string { return gvFzInterpolate(r, true) })
	_ = gvRegister("C04", func(r *gvRng) string { return gvFzInterpolate(r, false) })
	_ = gvRegister("C05", func(r *gvRng) string { return gvFzInterpolate(r, true) })
	_ = gvRegister("C13", gvFzLoadHistory)
	_ = gvRegister("C18", gvFzElementReuse)
)

func gvRandLayout(r *gvRng, dofs []Index) (EqLayout, map[Index]int) {
	n := len(dofs) + r.Intn(4)
	perm := r.Perm(n)
	m := map[Index]int{}
	for i, d := range dofs {
		m[d] = perm[i]
	}
	for i := len(dofs); i < n; i++ {
		m[Index{fmt.Sprint("other", i), Ux}] = perm[i]
	}
	return newEqLayoutDirect(m), m
}

func gvMax(a ...[]float64) float64 {
	m := 0.0
	for _, v := range a {
		for _, x := range v {
			m = math.Max(m, math.Abs(x))
		}
	}
	return m
}

// gvCompareAssembly assembles the element on top of random content and compares.
func gvCompareAssembly(r *gvRng, g *gvRefElem, loads bool) string {
	layout, m := gvRandLayout(r, g.dofs)
	n := len(m)
	k, rv, d := mat.NewSymDense(n, nil), mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
	zero := r.Intn(2) == 0
	for i := 0; i < n; i++ {
		if !zero {
			rv.SetVec(i, r.num())
			for j := i; j < n; j++ {
				k.SetSym(i, j, r.num())
			}
		}
		d.SetVec(i, r.num())
	}
	k0, r0, d0 := mat.NewSymDense(n, nil), mat.VecDenseCopyOf(rv), mat.VecDenseCopyOf(d)
	k0.CopySym(k)
	g.e.Assemble(layout, k, rv, d)
	gk, gr := g.global()
	full, fr := g.localFull() // elimination of hinges can cancel most of these
	sk, sr := gvMax(full...), gvMax(fr)
	for _, ld := range g.loads {
		sr = math.Max(sr, (math.Abs(ld.v0)+math.Abs(ld.v1))*(1+g.l))
	}
	at := make([]int, n)
	for i := range at {
		at[i] = -1
	}
	for i, ix := range g.dofs {
		at[m[ix]] = i
	}
	for i := 0; i < n; i++ {
		er := 0.0
		if at[i] >= 0 {
			er = gr[at[i]]
		}
		if loads && !gvClose(rv.AtVec(i), r0.AtVec(i)+er, sr) || math.IsNaN(rv.AtVec(i)) {
			return fmt.Sprintf("residual entry %v is %v, expected %v + %v for %v", i, rv.AtVec(i), r0.AtVec(i), er, g)
		}
		if d.AtVec(i) != d0.AtVec(i) {
			return fmt.Sprintf("assembly changes the primary values of %v", g)
		}
		for j := 0; j < n; j++ {
			ek := 0.0
			if at[i] >= 0 && at[j] >= 0 {
				ek = gk[at[i]][at[j]]
			}
			if !gvClose(k.At(i, j), k0.At(i, j)+ek, sk) || math.IsNaN(k.At(i, j)) {
				return fmt.Sprintf("stiffness entry %v,%v is %v, expected %v + %v for %v", i, j, k.At(i, j), k0.At(i, j), ek, g)
			}
		}
	}
	return ""
}

func gvFzAssemble(r *gvRng, loads bool) string {
	g := gvRandElem(r)
	for n := r.Intn(5); loads && n > 0; n-- {
		ld := gvRandLoad(r, g.l)
		if !g.supports(&ld) {
			continue
		}
		for c := 1 + r.Intn(2); c > 0; c-- {
			if msg := g.add(ld); msg != "" {
				return msg
			}
		}
	}
	return gvCompareAssembly(r, g, loads)
}

func gvFzHingeCreation(r *gvRng) string {
	kind := []string{"truss2d", "truss3d", "frame2d", "frame2d", "frame2d"}[r.Intn(5)]
	n0, n1 := gvRandNodes(r, kind)
	dofs := gvLocalDofs(kind, n0, n1)
	h := map[Index]struct{}{}
	rel := make([]bool, len(dofs))
	for i := range dofs {
		if r.Intn(2) == 0 {
			rel[i] = true
			h[dofs[i]] = struct{}{}
		}
	}
	_, err := gvBuild(kind, "e", n0, n1, gvRandMaterial(r), h)
	if (err == nil) != gvHingesOk(rel) {
		return fmt.Sprintf("creating a %v between %v and %v with hinges %v: %v", kind, n0.ID, n1.ID, h, err)
	}
	return ""
}

// gvEvalSeq evaluates in the piece that covers x.
func gvEvalSeq(ps PolySequence, x float64) (float64, error) {
	for i := range ps {
		if x >= ps[i].X0 && x <= ps[i].XE {
			return ps[i].Eval(x)
		}
	}
	return 0, fmt.Errorf("no piece at %v", x)
}

func gvCheckCover(ps PolySequence, l float64) string {
	if len(ps) == 0 {
		return "no pieces"
	}
	if math.Abs(ps[0].X0) > 1e-9 || math.Abs(ps[len(ps)-1].XE-l) > 1e-9*(1+l) {
		return fmt.Sprintf("doesn't span 0..%v: %v", l, ps)
	}
	for i := range ps {
		if i > 0 && ps[i].X0 != ps[i-1].XE || ps[i].XE < ps[i].X0 {
			return fmt.Sprintf("pieces aren't adjacent: %v", ps)
		}
	}
	return ""
}

func gvFzInterpolate(r *gvRng, beam bool) string {
	g := gvRandElem(r)
	if beam && g.kind != "frame2d" {
		return ""
	}
	for n := r.Intn(4); n > 0; n-- {
		ld := gvRandLoad(r, g.l)
		if !g.supports(&ld) {
			continue
		}
		if msg := g.add(ld); msg != "" {
			return msg
		}
	}
	return gvCompareInterpolation(r, g, beam)
}

func gvCompareInterpolation(r *gvRng, g *gvRefElem, beam bool) string {
	layout, m := gvRandLayout(r, g.dofs)
	d := mat.NewVecDense(len(m), nil)
	few := r.Intn(4) == 0 // only some displacements
	for i := 0; i < d.Len(); i++ {
		if !few || r.Intn(4) == 0 {
			d.SetVec(i, r.num())
		}
	}
	vals := map[Index]float64{}
	for ix, i := range m {
		vals[ix] = d.AtVec(i)
	}
	u, f := g.recovered(vals)
	scale := gvMax(u)*(g.EA/g.l+g.EI*(1/g.l+1/(g.l*g.l*g.l))) + 1
	for _, ld := range g.loads {
		scale += (math.Abs(ld.v0) + math.Abs(ld.v1)) * (1 + g.l*g.l)
	}
	l := g.l
	// breakpoints
	xs := []float64{0, l}
	for _, ld := range g.loads {
		if ld.shape == 0 {
			xs = append(xs, ld.a)
		}
	}
	near := func(x float64) bool {
		for _, b := range xs {
			if math.Abs(x-b) < 1e-6*(1+l) {
				return true
			}
		}
		return false
	}
	all := func(fct Fct) (PolySequence, string) {
		ps := g.e.Interpolate(layout, fct, d)
		if msg := gvCheckCover(ps, l); msg != "" {
			return ps, fmt.Sprintf("interpolation of %v %s for %v", fct, msg, g)
		}
		return ps, ""
	}
	// distributed load and concentrated ones up to x
	resultant := func(kind Dof, x float64) float64 {
		s := 0.0
		for _, ld := range g.loads {
			if ld.kind != kind {
				continue
			}
			if ld.shape == 0 {
				if ld.a < x {
					s += ld.v0
				}
			} else {
				s += ld.v0*x + (ld.v1-ld.v0)*x*x/(2*l)
			}
		}
		return s
	}
	if !beam {
		for _, fct := range []Fct{FctUy, FctPhiz, FctPhix, FctVy, FctMz, FctMx, FctUnknown, Fct(200)} {
			if ps := g.e.Interpolate(layout, fct, d); len(ps) != 0 {
				return fmt.Sprintf("%v yields %v although unrelated to %v", fct, ps, g)
			}
		}
		if g.kind != "frame2d" {
			for _, fct := range []Fct{FctUz, FctPhiy, FctVz, FctMy} {
				if ps := g.e.Interpolate(layout, fct, d); len(ps) != 0 {
					return fmt.Sprintf("%v yields %v although unrelated to %v", fct, ps, g)
				}
			}
		}
		nx, msg := all(FctNx)
		if msg != "" {
			return msg
		}
		ux, msg := all(FctUx)
		if msg != "" {
			return msg
		}
		N := func(x float64) float64 { return -f[0] - resultant(Ux, x) }
		for c := 0; c < 6; c++ {
			x := r.Float64() * l
			if near(x) {
				continue
			}
			v, err := gvEvalSeq(nx, x)
			if err != nil || !gvClose(v, N(x), scale) {
				return fmt.Sprintf("Nx(%v) is %v (%v), expected %v for %v d=%v", x, v, err, N(x), g, vals)
			}
			// u = u0 + integral N/EA
			e := u[0] + gvIntegrate(xs, x, func(y float64) float64 { return N(y) / g.EA })
			v, err = gvEvalSeq(ux, x)
			if err != nil || !gvClose(v, e, gvMax(u)+scale*l/g.EA) {
				return fmt.Sprintf("Ux(%v) is %v (%v), expected %v for %v d=%v", x, v, err, e, g, vals)
			}
		}
		return ""
	}
	V := func(x float64) float64 { return -f[2] - resultant(Uz, x) }
	M := func(x float64) float64 {
		s := -f[3] + gvIntegrate(xs, x, V)
		for _, ld := range g.loads {
			if ld.kind == Phiy && ld.shape == 0 && ld.a < x {
				s -= ld.v0
			}
		}
		return s
	}
	phi := func(x float64) float64 {
		return u[3] + gvIntegrate(xs, x, func(y float64) float64 { return M(y) / g.EI })
	}
	w := func(x float64) float64 { return u[2] - gvIntegrate(xs, x, phi) }
	su := gvMax(u)*(1+l) + scale*(1+l)*(1+l)/g.EI
	for _, q := range []struct {
		fct   Fct
		ref   func(float64) float64
		scale float64
	}{{FctVz, V, scale}, {FctMy, M, scale * (1 + l)}, {FctPhiy, phi, su}, {FctUz, w, su * (1 + l)}} {
		ps, msg := all(q.fct)
		if msg != "" {
			return msg
		}
		for c := 0; c < 3; c++ {
			x := r.Float64() * l
			if near(x) {
				continue
			}
			v, err := gvEvalSeq(ps, x)
			if e := q.ref(x); err != nil || !gvClose(v, e, q.scale) {
				return fmt.Sprintf("%v(%v) is %v (%v), expected %v for %v d=%v", q.fct, x, v, err, e, g, vals)
			}
		}
	}
	return ""
}

// gvIntegrate integrates from 0 to x, piecewise between breakpoints.
func gvIntegrate(xs []float64, x float64, f func(float64) float64) float64 {
	s, a := 0.0, 0.0
	for a < x {
		b := x
		for _, y := range xs {
			if y > a && y < b {
				b = y
			}
		}
		s += gauss5(a, b, f)
		a = b
	}
	return s
}

// gvFzLoadHistory adds and removes loads and compares with what remains.
func gvFzLoadHistory(r *gvRng) string {
	g := gvRandElem(r)
	pool := make([]gvRefLoad, 1+r.Intn(4))
	for i := range pool {
		pool[i] = gvRandLoad(r, g.l)
		if pool[i].shape == 0 && r.Intn(5) == 0 {
			pool[i].a = g.l * (1.1 + r.Float64())
			pool[i].bc, _ = NewElementConcentratedLoad(pool[i].kind, pool[i].a, pool[i].v0)
		}
	}
	if _, err := NewElementConcentratedLoad(Ux, -1e-3, 1); err == nil {
		return "negative load positions are accepted"
	}
	hist := ""
	for n := r.Intn(8); n > 0; n-- {
		i := r.Intn(len(pool))
		if r.Intn(3) > 0 {
			hist += fmt.Sprintf(" add %v", i)
			if msg := g.add(pool[i]); msg != "" {
				return hist + msg
			}
		} else {
			hist += fmt.Sprintf(" remove %v", i)
			g.e.RemoveLoad(pool[i].bc)
			var keep []gvRefLoad
			for _, ld := range g.loads {
				if ld.bc != pool[i].bc {
					keep = append(keep, ld)
				}
			}
			g.loads = keep
		}
		if g.e.AddLoad(nil) || g.e.AddLoad(struct{}{}) || g.e.AddLoad("load") {
			return "unknown loads are accepted"
		}
		g.e.RemoveLoad(nil)
		if r.Intn(3) == 0 {
			if msg := gvCompareAssembly(r, g, true); msg != "" {
				return hist + ": " + msg
			}
		}
	}
	if msg := gvCompareAssembly(r, g, true); msg != "" {
		return hist + ": " + msg
	}
	if msg := gvCompareInterpolation(r, g, g.kind == "frame2d" && r.Intn(2) == 0); msg != "" {
		return hist + ": " + msg
	}
	return ""
}

// gvFzElementReuse queries an element several times in different layouts.
func gvFzElementReuse(r *gvRng) string {
	g := gvRandElem(r)
	for n := 2 + r.Intn(4); n > 0; n-- {
		if r.Intn(2) == 0 {
			if ld := gvRandLoad(r, g.l); g.supports(&ld) {
				if msg := g.add(ld); msg != "" {
					return msg
				}
			}
		}
		if msg := gvCompareAssembly(r, g, true); msg != "" {
			return msg
		}
		if msg := gvCompareInterpolation(r, g, g.kind == "frame2d"); msg != "" {
			return msg
		}
	}
	return ""
}
