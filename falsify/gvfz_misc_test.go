package deflect

import (
	"fmt"
	"math"
)

var (
	_ = gvRegister("C14", gvFzSections)
	_ = gvRegister("C19", gvFzGeometry)
)

func gvFzSections(r *gvRng) string {
	b, h, roll := r.num(), r.num(), r.num()
	cs, err := NewRectangularCrossSection(b, h, roll)
	if bad := b <= 0 || h <= 0 || roll < 0; bad != (err != nil) {
		return fmt.Sprintf("rectangle %v %v %v: %v", b, h, roll, err)
	} else if !bad {
		long, short := math.Max(b, h), math.Min(b, h)
		t := long * short * short * short * (1.0/3 - 0.21*short/long*(1-short*short*short*short/(12*long*long*long*long)))
		if !gvClose(cs.Area(), b*h, 0) || !gvClose(cs.Iyy(), b*h*h*h/12, 0) || !gvClose(cs.Izz(), h*b*b*b/12, 0) || !gvClose(cs.Ixx(), t, 0) || cs.RollAngle() != roll {
			return fmt.Sprintf("rectangle %v %v: %v %v %v %v %v", b, h, cs.Area(), cs.Iyy(), cs.Izz(), cs.Ixx(), cs.RollAngle())
		}
	}
	m := map[string]float64{}
	bad := false
	for _, k := range []string{"A", "Iyy", "Izz"} {
		v := r.pos()
		if r.Intn(6) == 0 {
			v = r.num()
		}
		if r.Intn(8) > 0 {
			m[k] = v
		}
		bad = bad || m[k] <= 0
	}
	for _, k := range []string{"Ixx", "roll"} {
		if r.Intn(2) == 0 {
			m[k] = r.pos()
			if r.Intn(4) == 0 {
				m[k] = r.num()
			}
		}
		bad = bad || m[k] < 0
	}
	if r.Intn(4) == 0 {
		m["else"] = r.num()
	}
	cs, err = NewConstantsCrossSections(m)
	if bad != (err != nil) {
		return fmt.Sprintf("constants %v: %v", m, err)
	}
	if !bad && (cs.Area() != m["A"] || cs.Iyy() != m["Iyy"] || cs.Izz() != m["Izz"] || cs.Ixx() != m["Ixx"] || cs.RollAngle() != m["roll"]) {
		return fmt.Sprintf("constants %v: %v %v %v %v %v", m, cs.Area(), cs.Iyy(), cs.Izz(), cs.Ixx(), cs.RollAngle())
	}
	return ""
}

func gvFzGeometry(r *gvRng) string {
	n0, n1 := gvRandNodes(r, "truss3d")
	dx, dy, dz := n1.X-n0.X, n1.Y-n0.Y, n1.Z-n0.Z
	l := math.Sqrt(dx*dx + dy*dy + dz*dz)
	if !gvClose(length(n0, n1), l, 0) {
		return fmt.Sprintf("length of %v-%v is %v", *n0, *n1, length(n0, n1))
	}
	a, b, c := directionCosine3d(n0, n1)
	if !gvClose(a, dx/l, 1) || !gvClose(b, dy/l, 1) || !gvClose(c, dz/l, 1) {
		return fmt.Sprintf("direction cosines of %v-%v are %v %v %v", *n0, *n1, a, b, c)
	}
	s, co := sineCosine2d(n0, n1)
	if n0.Y == n1.Y && (!gvClose(s, dz/l, 1) || !gvClose(co, dx/l, 1)) {
		return fmt.Sprintf("sine and cosine of %v-%v are %v %v", *n0, *n1, s, co)
	}
	n0, n1 = gvRandNodes(r, "truss2d")
	dx, dz = n1.X-n0.X, n1.Z-n0.Z
	l = math.Hypot(dx, dz)
	s, co = sineCosine2d(n0, n1)
	if !gvClose(s, dz/l, 1) || !gvClose(co, dx/l, 1) {
		return fmt.Sprintf("sine and cosine of %v-%v are %v %v", *n0, *n1, s, co)
	}
	return ""
}
