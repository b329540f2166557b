package deflect

// C14: cross sections.

func Prove_C14_rectangular_values() {
	b, h, roll := gvReal("b"), gvReal("h"), gvReal("roll")
	cs, err := NewRectangularCrossSection(b, h, roll)
	gvEnsure("rejected exactly for non-positive sides or a negative roll angle", (err != nil) == gvOr(b <= 0, h <= 0, roll < 0))
	if err != nil {
		gvReach("rejected")
		return
	}
	gvReach("accepted")
	gvEnsure("a cross section is returned", cs != nil)
	gvEnsure("area", cs.Area() == b*h)
	gvEnsure("Iyy", cs.Iyy() == b*h*h*h/12)
	gvEnsure("Izz", cs.Izz() == h*b*b*b/12)
	gvEnsure("roll", cs.RollAngle() == roll)
	p, q := gvIte(b < h, h, b), gvIte(b < h, b, h)
	gvEnsure("torsion constant", cs.Ixx()*(16*12*p*p*p*p) == p*q*q*q*(16.0/3.0*12*p*p*p*p-3.36*q/p*(12*p*p*p*p-q*q*q*q)))
	sw, err2 := NewRectangularCrossSection(h, b, roll)
	gvEnsure("swapped sides accepted", err2 == nil)
	gvEnsure("torsion constant is symmetric in the sides", sw.Ixx() == cs.Ixx())
}

func Prove_C14_constants() {
	param := gvAny[map[string]float64]("param")
	a, oka := param["A"]
	y, oky := param["Iyy"]
	z, okz := param["Izz"]
	x, okx := param["Ixx"]
	r, okr := param["roll"]
	cs, err := NewConstantsCrossSections(param)
	bad := gvOr(!oka, !oky, !okz, a <= 0, y <= 0, z <= 0, gvAnd(okx, x < 0), gvAnd(okr, r < 0))
	gvEnsure("rejected exactly for missing or non-positive mandatory or negative optional values", (err != nil) == bad)
	if err != nil {
		gvReach("rejected")
		return
	}
	gvReach("accepted")
	gvEnsure("area", cs.Area() == a)
	gvEnsure("Iyy", cs.Iyy() == y)
	gvEnsure("Izz", cs.Izz() == z)
	gvEnsure("Ixx", cs.Ixx() == gvIte(okx, x, 0))
	gvEnsure("roll", cs.RollAngle() == gvIte(okr, r, 0))
}
