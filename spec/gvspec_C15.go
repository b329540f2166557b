package deflect

import "gonum.org/v1/gonum/mat"

// C15: a JSON document is the described problem or an error. encoding/json is trusted to decode the
// document into the description it spells; everything after that is the code under contract.

type gvDoc struct {
	nodes     map[string][3]float64
	material  map[string]matDescription
	cs        map[string]csDescription
	elements  map[string]elmtDescription
	dirichlet map[string][]nodalValues
	links     map[string][]dirichletAngularLink
	neumann   map[string][]neumannDescription

	a, b         string
	na, nb       Node
	mat          Material
	elem         elmtDescription
	elemID       string
	fixed, other NodalValue
}

// gvNewDoc is a valid document: two nodes, one material, one cross section, a truss and a condition.
func gvNewDoc() *gvDoc { return gvNamedDoc(gvStr("nodeA"), gvStr("nodeB"), gvStr("elem")) }

func gvNamedDoc(a, b, elem string) *gvDoc {
	d := &gvDoc{a: a, b: b, elemID: elem}
	gvAssume(gvAnd(d.a != d.b, d.elemID != "", d.elemID != d.a, d.elemID != d.b))
	d.at(1, 2, 3, 4, 2, 7)
	d.mat.LinearElastic = LinearElastic{YoungsModulus: gvReal("E"), PoissonsRatio: gvReal("nu"), Density: gvReal("rho")}
	d.material = map[string]matDescription{"mat": {Parameter: map[string]float64{"E": d.mat.YoungsModulus, "nu": d.mat.PoissonsRatio, "rho": d.mat.Density}}}
	area, iyy, izz := gvReal("A"), gvReal("Iyy"), gvReal("Izz")
	gvAssume(gvAnd(d.mat.YoungsModulus > 0, area > 0, iyy > 0, izz > 0))
	par := map[string]float64{"A": area, "Iyy": iyy, "Izz": izz}
	d.mat.CrossSection, _ = NewConstantsCrossSections(par)
	d.cs = map[string]csDescription{"cs": {Kind: "constants", Parameter: par}}
	d.elem = elmtDescription{Kind: "truss2d", Nodes: []string{d.a, d.b}}
	d.elements = map[string]elmtDescription{}
	d.fixed = NodalValue{Index: Index{NodalID: d.a, Dof: Ux}, Value: gvReal("fixed")}
	d.dirichlet = map[string][]nodalValues{d.a: {{"Ux": d.fixed.Value}}}
	return d
}

func (d *gvDoc) at(xa, ya, za, xb, yb, zb float64) {
	d.na = Node{ID: d.a, X: xa, Y: ya, Z: za}
	d.nb = Node{ID: d.b, X: xb, Y: yb, Z: zb}
	d.nodes = map[string][3]float64{d.a: {xa, ya, za}, d.b: {xb, yb, zb}}
}

func (d *gvDoc) parse() (Problem, error) {
	if len(d.elements) == 0 {
		d.elements[d.elemID] = d.elem
	}
	gvPut("json.nodes", d.nodes)
	gvPut("json.material", d.material)
	gvPut("json.crosssection", d.cs)
	gvPut("json.elements", d.elements)
	gvPut("json.dirichlet", d.dirichlet)
	gvPut("json.links", d.links)
	gvPut("json.neumann", d.neumann)
	p, err := ProblemFromJSON(nil)
	gvReach("parsed")
	if err != nil {
		gvEnsure("an error leaves no partial problem", len(p.Nodes)+len(p.Elements)+len(p.Dirichlet)+len(p.Neumann)+len(p.EqTransforms) == 0)
	}
	return p, err
}

func gvSameNode(n, m Node) bool { return gvAnd(n.ID == m.ID, n.X == m.X, n.Y == m.Y, n.Z == m.Z) }

// gvNodeOnce: the list contains n exactly once.
func gvNodeOnce(l []Node, n Node) bool {
	c := 0.0
	for i := range l {
		c += gvIte(gvSameNode(l[i], n), 1.0, 0.0)
	}
	return c == 1
}

func gvSameValues(got, want []NodalValue) bool {
	ok := len(got) == len(want)
	for i := range want {
		c := 0.0 // as often as expected
		for j := range got {
			c += gvIte(gvAnd(got[j].NodalID == want[i].NodalID, got[j].Dof == want[i].Dof, got[j].Value == want[i].Value), 1.0, 0.0)
		}
		for j := range want {
			c -= gvIte(gvAnd(want[j].NodalID == want[i].NodalID, want[j].Dof == want[i].Dof, want[j].Value == want[i].Value), 1.0, 0.0)
		}
		ok = gvAnd(ok, c == 0)
	}
	return ok
}

func gvDofsOf(kind string, a, b string) []Index {
	var res []Index
	for _, n := range []string{a, b} {
		switch kind {
		case "truss2d":
			res = append(res, Index{n, Ux}, Index{n, Uz})
		case "truss3d":
			res = append(res, Index{n, Ux}, Index{n, Uy}, Index{n, Uz})
		default:
			res = append(res, Index{n, Ux}, Index{n, Uz}, Index{n, Phiy})
		}
	}
	return res
}

func gvMake(kind, id string, n0, n1 *Node, m *Material, h map[Index]struct{}) (Element, error) {
	switch kind {
	case "truss2d":
		return NewTruss2d(id, n0, n1, m, h)
	case "truss3d":
		return NewTruss3d(id, n0, n1, m, h)
	}
	return NewFrame2d(id, n0, n1, m, h)
}

// gvSameElement: both elements have the same degrees of freedom, tangent and load vector.
func gvSameElement(e, want Element, dofs []Index) {
	gvEnsure("element ID", e.ID() == want.ID())
	set := map[Index]struct{}{}
	e.Indices(set)
	gvEnsure("number of degrees of freedom", len(set) == len(dofs))
	m := map[Index]int{}
	for i := range dofs {
		_, ok := set[dofs[i]]
		gvEnsure("degrees of freedom", ok)
		m[dofs[i]] = i
	}
	n := len(dofs)
	layout := EqLayout{indices: m}
	k, r, d := mat.NewSymDense(n, nil), mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
	k2, r2, d2 := mat.NewSymDense(n, nil), mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
	e.Assemble(layout, k, r, d)
	want.Assemble(layout, k2, r2, d2)
	for i := 0; i < n; i++ {
		gvEnsure("loads of the element", r.AtVec(i) == r2.AtVec(i))
		for j := 0; j <= i; j++ {
			gvEnsure("tangent of the element", k.At(i, j) == k2.At(i, j))
		}
	}
}

// Nodes are taken over with ID and coordinates, none added or dropped.
// gv:bounded=3-nodes
func Prove_C15_nodes() {
	d := gvNewDoc()
	d.at(gvReal("xa"), gvReal("ya"), gvReal("za"), gvReal("xb"), gvReal("yb"), gvReal("zb"))
	gvAssume(d.na.X < d.nb.X)
	c := Node{ID: gvStr("nodeC"), X: gvReal("xc"), Y: gvReal("yc"), Z: gvReal("zc")}
	gvAssume(gvAnd(c.ID != d.a, c.ID != d.b))
	d.nodes[c.ID] = [3]float64{c.X, c.Y, c.Z}
	p, err := d.parse()
	gvEnsure("accepted", err == nil)
	if err != nil {
		return
	}
	gvEnsure("number of nodes", len(p.Nodes) == 3)
	gvEnsure("nodes", gvAnd(gvNodeOnce(p.Nodes, d.na), gvNodeOnce(p.Nodes, d.nb), gvNodeOnce(p.Nodes, c)))
	gvEnsure("one element", len(p.Elements) == 1)
	gvEnsure("conditions", gvAnd(gvSameValues(p.Dirichlet, []NodalValue{d.fixed}), len(p.Neumann) == 0, len(p.EqTransforms) == 0))
	want, _ := NewTruss2d(d.elemID, &d.na, &d.nb, &d.mat, nil)
	gvSameElement(p.Elements[0], want, gvDofsOf("truss2d", d.a, d.b))
}

// A document without nodes, elements, materials, cross sections or conditions is an error.
// gv:bounded=small-document
func Prove_C15_empty() {
	d := gvNewDoc()
	switch gvChoose("missing", 5) {
	case 0:
		d.nodes = nil
	case 1:
		d.elements = nil
		gvPut("json.nodes", d.nodes)
		gvPut("json.material", d.material)
		gvPut("json.crosssection", d.cs)
		gvPut("json.elements", d.elements)
		gvPut("json.dirichlet", d.dirichlet)
		_, err := ProblemFromJSON(nil)
		gvEnsure("no elements is an error", err != nil)
		return
	case 2:
		d.material = nil
	case 3:
		d.cs = nil
	default:
		d.dirichlet = nil
	}
	_, err := d.parse()
	gvEnsure("an empty section is an error", err != nil)
}

// Element kinds, connectivity (by list or by ID) and hinges.
func gvElementDoc(kind string) {
	d := gvNewDoc()
	connect := gvChoose("connect", 7)
	if connect == 5 {
		d = gvNamedDoc("P", "q", "Pq")
	} else if connect == 6 {
		d = gvNamedDoc("P", "q", "Pqr")
	}
	d.elem.Kind = kind
	known := true
	switch connect {
	case 0:
	case 1:
		d.elem.Nodes = []string{d.a, gvStr("nodeX")}
		known = gvAnd(gvStr("nodeX") == d.b)
		gvAssume(gvStr("nodeX") != d.a)
	case 2:
		d.elem.Nodes = []string{gvStr("nodeX"), d.b}
		known = gvStr("nodeX") == d.a
		gvAssume(gvStr("nodeX") != d.b)
	case 3:
		d.elem.Nodes = []string{d.a}
		known = false
	case 4:
		d.elem.Nodes = []string{d.a, d.b, d.a}
		known = false
	case 5: // two characters
		d.elem.Nodes = nil
	default:
		d.elem.Nodes = nil
		known = false
	}
	p, err := d.parse()
	gvEnsure("error exactly for elements that can't be connected", (err == nil) == known)
	if err != nil {
		return
	}
	gvEnsure("one element", len(p.Elements) == 1)
	want, _ := gvMake(kind, d.elemID, &d.na, &d.nb, &d.mat, nil)
	gvSameElement(p.Elements[0], want, gvDofsOf(kind, d.a, d.b))
}

// gv:bounded=small-document
func Prove_C15_truss2d() { gvElementDoc("truss2d") }

// gv:bounded=small-document
func Prove_C15_truss3d() { gvElementDoc("truss3d") }

// gv:bounded=small-document
func Prove_C15_frame2d() { gvElementDoc("frame2d") }

// Any other element kind is an error.
// gv:bounded=small-document
func Prove_C15_kind() {
	d := gvNewDoc()
	d.elem.Kind = gvStr("kind")
	gvAssume(gvAnd(d.elem.Kind != "truss2d", d.elem.Kind != "truss3d", d.elem.Kind != "frame2d"))
	_, err := d.parse()
	gvEnsure("unknown element kinds are errors", err != nil)
}

// Two elements of different kind: both are there, each with its own description.
// gv:bounded=2-elements
func Prove_C15_two_elements() {
	d := gvNewDoc()
	id2 := gvStr("elem2")
	gvAssume(gvAnd(id2 != "", id2 != d.elemID))
	d.elements[d.elemID] = d.elem
	d.elements[id2] = elmtDescription{Kind: "frame2d", Nodes: []string{d.b, d.a}}
	p, err := d.parse()
	gvEnsure("accepted", err == nil)
	if err != nil {
		return
	}
	gvEnsure("two elements", len(p.Elements) == 2)
	w1, _ := NewTruss2d(d.elemID, &d.na, &d.nb, &d.mat, nil)
	w2, _ := NewFrame2d(id2, &d.nb, &d.na, &d.mat, nil)
	for i := range p.Elements {
		if p.Elements[i].ID() == d.elemID {
			gvSameElement(p.Elements[i], w1, gvDofsOf("truss2d", d.a, d.b))
		} else {
			gvSameElement(p.Elements[i], w2, gvDofsOf("frame2d", d.b, d.a))
		}
	}
	gvEnsure("different elements", p.Elements[0].ID() != p.Elements[1].ID())
}

// gvUz names a degree of freedom; the last one is unknown.
func gvDofName(name string) (string, Dof, bool) {
	switch gvChoose(name, 7) {
	case 0:
		return "Ux", Ux, true
	case 1:
		return "Uz", Uz, true
	case 2:
		return "Uy", Uy, true
	case 3:
		return "Phiy", Phiy, true
	case 4:
		return "Phiz", Phiz, true
	case 5:
		return "Phix", Phix, true
	}
	s := gvStr(name + "-unknown")
	gvAssume(gvAnd(s != "Ux", s != "Uz", s != "Uy", s != "Phiy", s != "Phiz", s != "Phix"))
	return s, Ux, false
}

func gvForceName(name string) (string, Dof, bool) {
	switch gvChoose(name, 7) {
	case 0:
		return "Fx", Ux, true
	case 1:
		return "Fz", Uz, true
	case 2:
		return "Fy", Uy, true
	case 3:
		return "My", Phiy, true
	case 4:
		return "Mz", Phiz, true
	case 5:
		return "Mx", Phix, true
	}
	s := gvStr(name + "-unknown")
	gvAssume(gvAnd(s != "Fx", s != "Fz", s != "Fy", s != "My", s != "Mz", s != "Mx"))
	return s, Ux, false
}

// gvSomeNode is one of the nodes or any other string.
func gvSomeNode(d *gvDoc, name string) (string, bool) {
	switch gvChoose(name, 3) {
	case 0:
		return d.a, true
	case 1:
		return d.b, true
	}
	s := gvStr(name + "-unknown")
	gvAssume(gvAnd(s != d.a, s != d.b))
	return s, false
}

// Hinges release the named degree of freedom at the named end.
// gv:bounded=2-hinges
func Prove_C15_hinges() {
	d := gvNewDoc()
	d.elem.Kind = "frame2d"
	n1, ok1 := gvSomeNode(d, "at")
	f1, d1, ok2 := gvDofName("hinge")
	f2, d2, ok3 := gvDofName("hinge2")
	d.elem.Hinges = map[string][]string{n1: {f1, f2}}
	p, err := d.parse()
	if gvNot(gvAnd(ok1, ok2, ok3)) {
		gvEnsure("bad hinges are errors", err != nil)
		return
	}
	want, errWant := NewFrame2d(d.elemID, &d.na, &d.nb, &d.mat, map[Index]struct{}{{n1, d1}: {}, {n1, d2}: {}})
	gvEnsure("accepted iff the element supports the hinges", (err == nil) == (errWant == nil))
	if err != nil {
		return
	}
	gvSameElement(p.Elements[0], want, gvDofsOf("frame2d", d.a, d.b))
}

// gv:bounded=2-hinges
func Prove_C15_hinges_both_ends() {
	d := gvNewDoc()
	d.elem.Kind = "frame2d"
	f1, d1, _ := gvDofName("hinge")
	f2, d2, _ := gvDofName("hinge2")
	gvAssume(gvAnd(gvInt("hinge") < 6, gvInt("hinge2") < 6))
	d.elem.Hinges = map[string][]string{d.a: {f1}, d.b: {f2}}
	p, err := d.parse()
	want, errWant := NewFrame2d(d.elemID, &d.na, &d.nb, &d.mat, map[Index]struct{}{{d.a, d1}: {}, {d.b, d2}: {}})
	gvEnsure("accepted iff the element supports the hinges", (err == nil) == (errWant == nil))
	if err != nil {
		return
	}
	gvSameElement(p.Elements[0], want, gvDofsOf("frame2d", d.a, d.b))
}

// No end's hinges depend on the other end's list, however short.
// gv:bounded=2-hinges
func Prove_C15_hinges_one_list_empty() {
	d := gvNewDoc()
	d.elem.Kind = "frame2d"
	f1, d1, _ := gvDofName("hinge")
	gvAssume(gvInt("hinge") < 6)
	d.elem.Hinges = map[string][]string{d.a: {}, d.b: {f1}}
	p, err := d.parse()
	want, errWant := NewFrame2d(d.elemID, &d.na, &d.nb, &d.mat, map[Index]struct{}{{d.b, d1}: {}})
	gvEnsure("accepted iff the element supports the hinges", (err == nil) == (errWant == nil))
	if err != nil {
		return
	}
	gvSameElement(p.Elements[0], want, gvDofsOf("frame2d", d.a, d.b))
}

// Materials: all three parameters are needed; references are resolved by name, an empty one only
// when there is no choice.
// gv:bounded=2-materials
func Prove_C15_materials() {
	d := gvNewDoc()
	par := map[string]float64{}
	all := true
	m := d.mat
	for i, n := range []string{"E", "nu", "rho"} {
		if gvBool(gvName("present", i)) {
			v := gvReal(gvName("param", i))
			par[n] = v
			switch i {
			case 0:
				m.YoungsModulus = v
			case 1:
				m.PoissonsRatio = v
			default:
				m.Density = v
			}
		} else {
			all = false
		}
	}
	gvAssume(m.YoungsModulus > 0)
	two := gvChoose("two", 2) == 1
	if two {
		d.material["second"] = matDescription{Parameter: par}
	} else {
		d.material = map[string]matDescription{"second": {Parameter: par}}
	}
	d.elem.Material = []string{"", "mat", "second", "other"}[gvChoose("ref", 4)]
	p, err := d.parse()
	ok := all
	if d.elem.Material == "other" || two && d.elem.Material == "" || !two && d.elem.Material == "mat" {
		ok = false
	}
	gvEnsure("errors for missing parameters and unknown materials", (err == nil) == ok)
	if err != nil {
		return
	}
	if d.elem.Material == "mat" {
		m = d.mat
	}
	want, _ := NewTruss2d(d.elemID, &d.na, &d.nb, &m, nil)
	gvSameElement(p.Elements[0], want, gvDofsOf("truss2d", d.a, d.b))
}

// gv:bounded=2-cross-sections
func Prove_C15_cross_sections() {
	d := gvNewDoc()
	par := map[string]float64{}
	names := []string{"b", "h", "roll", "A", "Iyy", "Izz"}
	kind := gvChoose("cskind", 3)
	lo, hi := 0, 3
	if kind == 1 {
		lo, hi = 3, 6
	}
	for i := lo; i < hi; i++ {
		if gvBool(gvName("present", i)) {
			par[names[i]] = gvReal(gvName("param", i))
		}
	}
	var want CrossSection
	ok := false
	desc := csDescription{Parameter: par}
	switch kind {
	case 0:
		desc.Kind = "rectangle"
		_, hasB := par["b"]
		_, hasH := par["h"]
		cs, err := NewRectangularCrossSection(par["b"], par["h"], par["roll"])
		ok = hasB && hasH && err == nil
		want = cs
	case 1:
		desc.Kind = "constants"
		cs, err := NewConstantsCrossSections(par)
		ok = err == nil
		want = cs
	default:
		desc.Kind = gvStr("otherkind")
		gvAssume(gvAnd(desc.Kind != "rectangle", desc.Kind != "constants"))
	}
	two := gvChoose("two", 2) == 1
	if two {
		d.cs["second"] = desc
	} else {
		d.cs = map[string]csDescription{"second": desc}
	}
	d.elem.Kind = "frame2d"
	d.elem.CS = []string{"", "cs", "second", "other"}[gvChoose("ref", 4)]
	p, err := d.parse()
	if d.elem.CS == "other" || two && d.elem.CS == "" || !two && d.elem.CS == "cs" {
		ok = false
	}
	gvEnsure("errors for bad cross sections and references", (err == nil) == ok)
	if err != nil {
		return
	}
	m := d.mat
	if d.elem.CS != "cs" {
		m.CrossSection = want
	}
	e, _ := NewFrame2d(d.elemID, &d.na, &d.nb, &m, nil)
	gvSameElement(p.Elements[0], e, gvDofsOf("frame2d", d.a, d.b))
}

// Dirichlet conditions: every entry is there with its node, degree of freedom and value.
// gv:bounded=3-entries
func Prove_C15_dirichlet() {
	d := gvNewDoc()
	n1, ok1 := gvSomeNode(d, "at")
	f1, d1, ok2 := gvDofName("dof")
	f2, d2, ok3 := gvDofName("dof2")
	v1, v2 := gvReal("v1"), gvReal("v2")
	if gvChoose("form", 2) == 0 || f1 == f2 {
		d.dirichlet = map[string][]nodalValues{n1: {{f1: v1}, {f2: v2}}}
	} else {
		d.dirichlet = map[string][]nodalValues{n1: {{f1: v1, f2: v2}}}
	}
	p, err := d.parse()
	gvEnsure("errors for unknown nodes and degrees of freedom", (err == nil) == gvAnd(ok1, ok2, ok3))
	if err != nil {
		return
	}
	gvEnsure("conditions", gvSameValues(p.Dirichlet, []NodalValue{{Index{n1, d1}, v1}, {Index{n1, d2}, v2}}))
}

// gv:bounded=2-nodes
func Prove_C15_dirichlet_two_nodes() {
	d := gvNewDoc()
	n1, ok := gvSomeNode(d, "at")
	f1, d1, ok1 := gvDofName("dof")
	f2, d2, ok2 := gvDofName("dof2")
	v1, v2 := gvReal("v1"), gvReal("v2")
	gvAssume(n1 != d.a)
	d.dirichlet = map[string][]nodalValues{d.a: {{f1: v1}}, n1: {{f2: v2}}}
	p, err := d.parse()
	gvEnsure("errors for unknown nodes and degrees of freedom", (err == nil) == gvAnd(ok, ok1, ok2))
	if err != nil {
		return
	}
	gvEnsure("conditions", gvSameValues(p.Dirichlet, []NodalValue{{Index{d.a, d1}, v1}, {Index{n1, d2}, v2}}))
}

// Nodal loads likewise.
// gv:bounded=2-entries
func Prove_C15_neumann() {
	d := gvNewDoc()
	n1, ok1 := gvSomeNode(d, "at")
	f1, d1, ok2 := gvForceName("dof")
	f2, d2, ok3 := gvForceName("dof2")
	v1, v2 := gvReal("v1"), gvReal("v2")
	if gvChoose("form", 2) == 0 || f1 == f2 {
		d.neumann = map[string][]neumannDescription{n1: {{Nodal: map[string]float64{f1: v1}}, {Nodal: map[string]float64{f2: v2}}}}
	} else {
		d.neumann = map[string][]neumannDescription{n1: {{Nodal: map[string]float64{f1: v1, f2: v2}}}}
	}
	p, err := d.parse()
	gvEnsure("errors for unknown nodes and degrees of freedom", (err == nil) == gvAnd(ok1, ok2, ok3))
	if err != nil {
		return
	}
	gvEnsure("loads", gvSameValues(p.Neumann, []NodalValue{{Index{n1, d1}, v1}, {Index{n1, d2}, v2}}))
	gvEnsure("conditions", gvSameValues(p.Dirichlet, []NodalValue{d.fixed}))
	want, _ := NewTruss2d(d.elemID, &d.na, &d.nb, &d.mat, nil)
	gvSameElement(p.Elements[0], want, gvDofsOf("truss2d", d.a, d.b))
}

// gvElementLoad is an arbitrary element load description and the load it describes, if any.
func gvElementLoad(i int) (desc neumannDescription, load NeumannElementBC) {
	kinds := []string{"Fx", "Fz", "Fy", "My", "Mz", "Mx", "qx", "qz", "qy", "my", "mz", "mx"}
	dofs := []Dof{Ux, Uz, Uy, Phiy, Phiz, Phix}
	k := gvChoose(gvName("loadkind", i), 13)
	ok := k < 12
	if ok {
		desc.Element.Kind = kinds[k]
	} else {
		desc.Element.Kind = gvStr(gvName("otherload", i))
		for j := range kinds {
			gvAssume(desc.Element.Kind != kinds[j])
		}
	}
	nv, np := gvChoose(gvName("values", i), 4), gvChoose(gvName("positions", i), 3)
	v0, v1, pos := gvReal(gvName("first", i)), gvReal(gvName("last", i)), gvReal(gvName("position", i))
	desc.Element.Values = []float64{v0, v1, gvReal("x")}[:nv]
	desc.Element.Position = []float64{pos, gvReal("x2")}[:np]
	switch gvChoose(gvName("degree", i), 4) {
	case 0:
		desc.Element.Degree = "dirac"
		if ok && nv == 1 && np == 1 {
			load, _ = NewElementConcentratedLoad(dofs[k%6], pos, v0)
		}
	case 1:
		desc.Element.Degree = "constant"
		if ok && nv == 1 && np == 0 {
			load = NewElementConstantLoad(dofs[k%6], v0)
		}
	case 2:
		desc.Element.Degree = "linear"
		if ok && nv == 2 && np == 0 {
			load = NewElementLinearLoad(dofs[k%6], v0, v1)
		}
	default:
		desc.Element.Degree = gvStr(gvName("otherdegree", i))
		gvAssume(gvAnd(desc.Element.Degree != "dirac", desc.Element.Degree != "constant", desc.Element.Degree != "linear"))
	}
	return desc, load
}

// Element loads: kind, degree, values, positions and sign; everything malformed is an error.
// gv:bounded=1-load
func Prove_C15_load() {
	d := gvNewDoc()
	d.elem.Kind = "frame2d"
	desc, load := gvElementLoad(0)
	known := gvChoose("elemref", 2) == 0
	ref := d.elemID
	if !known {
		ref = gvStr("otherelem")
		gvAssume(ref != d.elemID)
	}
	d.neumann = map[string][]neumannDescription{ref: {desc}}
	p, err := d.parse()
	if load == nil || !known {
		gvEnsure("malformed loads are errors", err != nil)
		return
	}
	want, _ := NewFrame2d(d.elemID, &d.na, &d.nb, &d.mat, nil)
	acc := want.AddLoad(load)
	gvEnsure("unsupported loads are errors", (err == nil) == acc)
	if err != nil {
		return
	}
	gvSameElement(p.Elements[0], want, gvDofsOf("frame2d", d.a, d.b))
	gvEnsure("no nodal loads", len(p.Neumann) == 0)
}

// Several loads of an element all apply, next to nodal loads.
// gv:bounded=2-loads
func Prove_C15_loads() {
	d := gvNewDoc()
	d.elem.Kind = "frame2d"
	d1, d2 := neumannDescription{}, neumannDescription{}
	d1.Element.Kind, d1.Element.Degree, d1.Element.Values = "qx", "linear", []float64{gvReal("q0"), gvReal("q1")}
	d2.Element.Kind, d2.Element.Degree, d2.Element.Values, d2.Element.Position = "Fz", "dirac", []float64{gvReal("f")}, []float64{gvReal("pos")}
	v := gvReal("nodal")
	if gvChoose("order", 2) == 0 {
		d.neumann = map[string][]neumannDescription{d.elemID: {d1, d2}, d.b: {{Nodal: map[string]float64{"Fz": v}}}}
	} else {
		d.neumann = map[string][]neumannDescription{d.elemID: {d2, d1, d1}, d.b: {{Nodal: map[string]float64{"Fz": v}}}}
	}
	p, err := d.parse()
	want, _ := NewFrame2d(d.elemID, &d.na, &d.nb, &d.mat, nil)
	acc := want.AddLoad(NewElementLinearLoad(Ux, gvReal("q0"), gvReal("q1")))
	conc, errConc := NewElementConcentratedLoad(Uz, gvReal("pos"), gvReal("f"))
	acc = errConc == nil && want.AddLoad(conc) && acc
	if gvInt("order") == 1 {
		want.AddLoad(NewElementLinearLoad(Ux, gvReal("q0"), gvReal("q1")))
	}
	gvEnsure("accepted iff both apply", (err == nil) == acc)
	if err != nil {
		return
	}
	gvSameElement(p.Elements[0], want, gvDofsOf("frame2d", d.a, d.b))
	gvEnsure("nodal loads", gvSameValues(p.Neumann, []NodalValue{{Index{d.b, Uz}, v}}))
}

// Loads of an element and of a node with the same name, in one list.
// gv:bounded=2-loads
func Prove_C15_loads_same_name() {
	d := gvNewDoc()
	d.elem.Kind = "frame2d"
	gvAssume(d.b != "")
	d.elemID = d.b
	q, v := neumannDescription{}, neumannDescription{Nodal: map[string]float64{"Fz": gvReal("nodal")}}
	q.Element.Kind, q.Element.Degree, q.Element.Values = "qx", "linear", []float64{gvReal("q0"), gvReal("q1")}
	d.neumann = map[string][]neumannDescription{d.b: [][]neumannDescription{{q, v}, {v, q}, {v, q, v, q}}[gvChoose("order", 3)]}
	p, err := d.parse()
	gvEnsure("accepted", err == nil)
	want, _ := NewFrame2d(d.elemID, &d.na, &d.nb, &d.mat, nil)
	want.AddLoad(NewElementLinearLoad(Ux, gvReal("q0"), gvReal("q1")))
	nodal := []NodalValue{{Index{d.b, Uz}, gvReal("nodal")}}
	if gvInt("order") == 2 {
		want.AddLoad(NewElementLinearLoad(Ux, gvReal("q0"), gvReal("q1")))
		nodal = append(nodal, nodal[0])
	}
	if err == nil {
		gvSameElement(p.Elements[0], want, gvDofsOf("frame2d", d.a, d.b))
		gvEnsure("nodal loads", gvSameValues(p.Neumann, nodal))
	}
}

// Inclined supports: linked degrees of freedom and angle; the constrained direction is added to the
// Dirichlet conditions.
// gv:bounded=1-link
func Prove_C15_links() {
	d := gvNewDoc()
	n1, ok := gvSomeNode(d, "at")
	dirs := []string{"Ux", "Uz", "Uy", "Phiy", "other"}
	dofs := []Dof{Ux, Uz, Uy}
	f, t := gvChoose("from", 5), gvChoose("to", 5)
	angle := gvReal("angle")
	d.links = map[string][]dirichletAngularLink{n1: {{From: dirs[f], To: dirs[t], Angle: angle}}}
	if gvChoose("alone", 2) == 1 {
		d.dirichlet = nil
	}
	p, err := d.parse()
	gvEnsure("errors for unknown nodes and unusable degrees of freedom", (err == nil) == (ok && f < 3 && t < 3 && f != t))
	if err != nil {
		return
	}
	gvEnsure("one support", len(p.EqTransforms) == 1)
	want, bc := NewInclinedSupport(Index{n1, dofs[f]}, Index{n1, dofs[t]}, angle)
	all := []NodalValue{bc}
	if d.dirichlet != nil {
		all = append(all, d.fixed)
	}
	gvEnsure("conditions", gvSameValues(p.Dirichlet, all))
	layout := EqLayout{indices: map[Index]int{{n1, Ux}: 0, {n1, Uz}: 1, {n1, Uy}: 2}}
	k, r, u := gvSym("K", 3), gvVec("R", 3), gvVec("D", 3)
	k2, r2, u2 := mat.NewSymDense(3, nil), mat.NewVecDense(3, nil), mat.NewVecDense(3, nil)
	for i := 0; i < 3; i++ {
		for j := 0; j <= i; j++ {
			k2.SetSym(i, j, k.At(i, j))
		}
		r2.SetVec(i, r.AtVec(i))
		u2.SetVec(i, u.AtVec(i))
	}
	p.EqTransforms[0].Pre(layout, k, r, u)
	want.Pre(layout, k2, r2, u2)
	for i := 0; i < 3; i++ {
		gvEnsure("same transformation", gvAnd(r.AtVec(i) == r2.AtVec(i), u.AtVec(i) == u2.AtVec(i)))
		for j := 0; j <= i; j++ {
			gvEnsure("same transformation", k.At(i, j) == k2.At(i, j))
		}
	}
}

// A malformed document is an error.
// gv:bounded=small-document
func Prove_C15_malformed() {
	d := gvNewDoc()
	gvPut("json.error", true)
	_, err := d.parse()
	gvEnsure("undecodable documents are errors", err != nil)
}
