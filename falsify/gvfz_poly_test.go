package deflect

import (
	"fmt"
	"math"
	"slices"
)

var (
	_ = gvRegister("C06", gvFzFlatten)
	_ = gvRegister("C07", gvFzEval)
	_ = gvRegister("C08", gvFzPost)
)

func gvHorner(c []float64, x float64) float64 {
	v := 0.0
	for i := len(c) - 1; i >= 0; i-- {
		v = v*x + c[i]
	}
	return v
}

func gvRandCoeff(r *gvRng, max int) []float64 {
	c := make([]float64, 1+r.Intn(max))
	for i := range c {
		c[i] = r.num()
	}
	return c
}

func gvClone(ps PolySequence) PolySequence {
	c := make(PolySequence, len(ps))
	for i, p := range ps {
		c[i] = PolyPiece{X0: p.X0, XE: p.XE, Coeff: slices.Clone(p.Coeff)}
	}
	return c
}

func gvSameSeq(a, b PolySequence) bool {
	return slices.EqualFunc(a, b, func(p, q PolyPiece) bool {
		return p.X0 == q.X0 && p.XE == q.XE && slices.Equal(p.Coeff, q.Coeff)
	})
}

func gvFzFlatten(r *gvRng) string {
	n := r.Intn(6)
	grid := make([]float64, 6)
	switch r.Intn(3) {
	case 0:
		for i := range grid {
			grid[i] = float64(i) - 2
		}
	case 1:
		for i := range grid {
			grid[i] = float64(i)*r.pos() + r.Float64()*0.1
		}
	default: // clearly separated, but close
		for i := range grid {
			grid[i] = 1 + float64(i)*3e-10
		}
	}
	slices.Sort(grid)
	var in PolySequence
	for i := 0; i < n; i++ {
		if k := len(in); k > 0 && r.Intn(4) == 0 { // like one of the others, possibly with the same storage
			p := in[r.Intn(k)]
			if r.Intn(2) == 0 {
				p = in[k-1]
			}
			switch r.Intn(3) {
			case 0:
				p.Coeff = slices.Clone(p.Coeff)
			case 1:
				p.Coeff = gvRandCoeff(r, 4)
			}
			in = append(in, p)
			continue
		}
		a, b := r.Intn(6), r.Intn(6)
		if a == b {
			continue
		}
		if a > b {
			a, b = b, a
		}
		in = append(in, PolyPiece{X0: grid[a], XE: grid[b], Coeff: gvRandCoeff(r, 4)})
	}
	orig := gvClone(in)
	// spare capacity must not matter
	in = append(in, PolyPiece{})[:len(in)]
	out := in.flatten()
	if !gvSameSeq(in, orig) {
		return fmt.Sprintf("flatten changes its input %v to %v", orig, in)
	}
	var bps []float64
	for _, p := range orig {
		bps = append(bps, p.X0, p.XE)
	}
	slices.Sort(bps)
	bps = slices.Compact(bps)
	k := 0
	for i := 0; i+1 < len(bps); i++ {
		mid := (bps[i] + bps[i+1]) / 2
		var sum []float64
		covered := false
		for _, p := range orig {
			if p.X0 < mid && mid < p.XE {
				covered = true
				for j, c := range p.Coeff {
					if j >= len(sum) {
						sum = append(sum, 0)
					}
					sum[j] += c
				}
			}
		}
		if !covered {
			continue
		}
		if k >= len(out) || out[k].X0 != bps[i] || out[k].XE != bps[i+1] {
			return fmt.Sprintf("flatten of %v yields %v, piece %v should be [%v, %v]", orig, out, k, bps[i], bps[i+1])
		}
		for j := 0; j < max(len(sum), len(out[k].Coeff)); j++ {
			var a, b float64
			if j < len(sum) {
				a = sum[j]
			}
			if j < len(out[k].Coeff) {
				b = out[k].Coeff[j]
			}
			if !gvClose(a, b, 10) {
				return fmt.Sprintf("flatten of %v yields %v, piece %v should have %v", orig, out, k, sum)
			}
		}
		k++
	}
	if k != len(out) {
		return fmt.Sprintf("flatten of %v yields %v, only %v pieces expected", orig, out, k)
	}
	// input and output are independent
	for i := range out {
		for j := range out[i].Coeff {
			out[i].Coeff[j] += 1
		}
	}
	if !gvSameSeq(in, orig) {
		return fmt.Sprintf("the result of flatten shares storage with its input %v", orig)
	}
	return ""
}

func gvRandContiguous(r *gvRng) PolySequence {
	var ps PolySequence
	x := r.num()
	for n := 1 + r.Intn(4); n > 0; n-- {
		y := x + r.pos()
		ps = append(ps, PolyPiece{X0: x, XE: y, Coeff: gvRandCoeff(r, 5)})
		x = y
	}
	return ps
}

func gvFzEval(r *gvRng) string {
	ps := gvRandContiguous(r)
	orig := gvClone(ps)
	for i := range ps {
		p := &ps[i]
		if p.Degree() != len(p.Coeff)-1 {
			return fmt.Sprintf("Degree of %v is %v", *p, p.Degree())
		}
		for _, x := range []float64{p.X0, p.XE, (p.X0 + p.XE) / 2, p.X0 + r.Float64()*(p.XE-p.X0)} {
			v, err := p.Eval(x)
			if err != nil || !gvClose(v, gvHorner(p.Coeff, x), gvHornerAbs(p.Coeff, x)) {
				return fmt.Sprintf("%v at %v is %v (%v)", *p, x, v, err)
			}
		}
		for _, x := range []float64{p.X0 - 1e-6, p.XE + 1e-6, p.X0 - r.pos(), p.XE + r.pos()} {
			if v, err := p.Eval(x); err == nil {
				return fmt.Sprintf("%v at %v is %v without an error", *p, x, v)
			}
		}
	}
	if !gvSameSeq(ps, orig) {
		return "evaluation changes the polynomial"
	}
	for i := range ps {
		d := ps[i].derive()
		if d.X0 != ps[i].X0 || d.XE != ps[i].XE {
			return "the derivative has another domain"
		}
		for j := 0; j < max(len(ps[i].Coeff), len(d.Coeff)+1); j++ {
			var a, e float64
			if j < len(d.Coeff) {
				a = d.Coeff[j]
			}
			if j+1 < len(ps[i].Coeff) {
				e = float64(j+1) * ps[i].Coeff[j+1]
			}
			if !gvClose(a, e, 1) {
				return fmt.Sprintf("derivative of %v is %v", ps[i], d)
			}
		}
	}
	c := r.num()
	in := ps.integrate(c)
	if !gvSameSeq(ps, orig) {
		return "integration changes the polynomial"
	}
	if len(in) != len(ps) {
		return "integration changes the number of pieces"
	}
	start := c
	for i := range in {
		if in[i].X0 != ps[i].X0 || in[i].XE != ps[i].XE {
			return "the integral has another domain"
		}
		for j := range ps[i].Coeff {
			if !gvClose(in[i].Coeff[j+1], ps[i].Coeff[j]/float64(j+1), 1) {
				return fmt.Sprintf("integral of %v is %v", ps[i], in[i])
			}
		}
		scale := gvHornerAbs(in[i].Coeff, math.Max(math.Abs(in[i].X0), math.Abs(in[i].XE)))
		if v := gvHorner(in[i].Coeff, in[i].X0); !gvClose(v, start, scale) {
			return fmt.Sprintf("integral of %v with constant %v isn't continuous: %v", ps, c, in)
		}
		start = gvHorner(in[i].Coeff, in[i].XE)
		p := ps[i].integrate(c)
		if v := gvHorner(p.Coeff, p.X0); !gvClose(v, c, gvHornerAbs(p.Coeff, p.X0)) {
			return fmt.Sprintf("integral of %v doesn't start with %v: %v", ps[i], c, p)
		}
	}
	f := r.num()
	ps.multiply(f)
	for i := range ps {
		if ps[i].X0 != orig[i].X0 || ps[i].XE != orig[i].XE || len(ps[i].Coeff) != len(orig[i].Coeff) {
			return "scaling changes the domain or degree"
		}
		for j := range ps[i].Coeff {
			if !gvClose(ps[i].Coeff[j], f*orig[i].Coeff[j], 1) {
				return fmt.Sprintf("%v times %v is %v", orig[i], f, ps[i])
			}
		}
	}
	return ""
}

func gvHornerAbs(c []float64, x float64) float64 {
	a := make([]float64, len(c))
	for i := range c {
		a[i] = math.Abs(c[i])
	}
	return gvHorner(a, math.Abs(x))
}

func gvFzPost(r *gvRng) string {
	tol := []float64{0, 1e-9, 1e-3, 0.5}[r.Intn(4)]
	near := func() float64 { // clearly within or beyond the tolerance
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return 0.9 * tol
		case 2:
			return -0.9 * tol
		case 3:
			return 1.5*tol + 1e-12
		}
		return r.num()
	}
	var ps PolySequence
	x := 0.0
	for n := r.Intn(6); n > 0; n-- {
		y := x + 1 + r.pos()
		p := PolyPiece{X0: x, XE: y}
		if len(ps) > 0 && r.Intn(2) == 0 {
			p.Coeff = slices.Clone(ps[len(ps)-1].Coeff)
		} else {
			for m := 1 + r.Intn(4); m > 0; m-- {
				p.Coeff = append(p.Coeff, near())
			}
		}
		ps = append(ps, p)
		x = y
		if r.Intn(5) == 0 {
			x += 2
		}
	}
	orig := gvClone(ps)
	ps.TrimTrailingZeros(tol)
	if len(ps) != len(orig) {
		return "trimming changes the number of pieces"
	}
	for i, p := range ps {
		o := orig[i]
		n := len(o.Coeff)
		for n > 1 && math.Abs(o.Coeff[n-1]) <= tol {
			n--
		}
		e := slices.Clone(o.Coeff[:n])
		if math.Abs(e[0]) <= tol {
			e[0] = 0
		}
		if p.X0 != o.X0 || p.XE != o.XE || !slices.Equal(p.Coeff, e) {
			return fmt.Sprintf("trimming %v with %v yields %v", o, tol, p)
		}
	}
	trimmed := gvClone(ps)
	out := ps.CompactIdentical(tol)
	eq := func(a, b float64) bool {
		d := math.Abs(a - b)
		return d <= tol || d <= tol*math.Max(math.Abs(a), math.Abs(b))
	}
	var e PolySequence
	for i, p := range trimmed {
		if i > 0 && eq(trimmed[i-1].XE, p.X0) && slices.EqualFunc(trimmed[i-1].Coeff, p.Coeff, eq) {
			e[len(e)-1].XE = p.XE
			continue
		}
		e = append(e, p)
	}
	if !gvSameSeq(out, e) {
		return fmt.Sprintf("compacting %v with %v yields %v", trimmed, tol, out)
	}
	return ""
}
