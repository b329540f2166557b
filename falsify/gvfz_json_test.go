package deflect

import (
	"encoding/json"
	"fmt"
	"math"
	"slices"

	"gonum.org/v1/gonum/mat"
)

var (
	_ = gvRegister("C15", gvFzJSON)
)

type gvDict = map[string]any

var gvDofNames = map[string]Dof{"Ux": Ux, "Uz": Uz, "Uy": Uy, "Phiy": Phiy, "Phiz": Phiz, "Phix": Phix}
var gvNodalNames = map[string]Dof{"Fx": Ux, "Fz": Uz, "Fy": Uy, "My": Phiy, "Mz": Phiz, "Mx": Phix}
var gvLoadNames = map[string]Dof{"Fx": Ux, "Fz": Uz, "Fy": Uy, "My": Phiy, "Mz": Phiz, "Mx": Phix,
	"qx": Ux, "qz": Uz, "qy": Uy, "my": Phiy, "mz": Phiz, "mx": Phix}

func gvKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	return ks
}

func gvPick[T any](r *gvRng, a []T) T { return a[r.Intn(len(a))] }

func gvFzJSON(r *gvRng) string {
	ids := []string{"A", "B", "C", "D1", "e"}
	if r.Intn(3) == 0 { // similar names
		ids = []string{"A", "a", " A", "A ", "01", "1", "AA", "A\t", "b", "B", "elem1"}
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	}
	n := 2 + r.Intn(4)
	ids = ids[:n]
	doc := gvDict{}
	nodes := gvDict{}
	coords := map[string][3]float64{}
	for i, id := range ids {
		c := [3]float64{float64(i) + r.Float64()*0.5, 0, r.num()}
		coords[id] = c
		nodes[id] = c
	}
	doc["nodes"] = nodes
	// materials
	mats, mdoc := map[string]LinearElastic{}, gvDict{}
	for _, id := range []string{"steel", "wood"}[:1+r.Intn(2)] {
		m := LinearElastic{YoungsModulus: r.pos(), PoissonsRatio: r.num(), Density: r.pos()}
		mats[id] = m
		mdoc[id] = gvDict{"kind": "linelast", "parameter": gvDict{"E": m.YoungsModulus, "nu": m.PoissonsRatio, "rho": m.Density}}
	}
	doc["material"] = mdoc
	css, cdoc := map[string]CrossSection{}, gvDict{}
	for _, id := range []string{"one", "two"}[:1+r.Intn(2)] {
		if r.Intn(2) == 0 {
			b, h := r.pos(), r.pos()
			roll := 0.0
			par := gvDict{"b": b, "h": h}
			if r.Intn(2) == 0 {
				roll = r.pos()
				par["roll"] = roll
			}
			css[id], _ = NewRectangularCrossSection(b, h, roll)
			cdoc[id] = gvDict{"kind": "rectangle", "parameter": par}
		} else {
			par := map[string]float64{"A": r.pos(), "Iyy": r.pos(), "Izz": r.pos()}
			if r.Intn(2) == 0 {
				par["Ixx"] = r.pos()
			}
			if r.Intn(2) == 0 {
				par["roll"] = r.pos()
			}
			css[id], _ = NewConstantsCrossSections(par)
			cdoc[id] = gvDict{"kind": "constants", "parameter": par}
		}
	}
	doc["crosssection"] = cdoc
	els, edoc := map[string]*gvRefElem{}, gvDict{}
	nodePtr := func(id string) *Node {
		c := coords[id]
		return &Node{ID: id, X: c[0], Y: c[1], Z: c[2]}
	}
	var elIDs []string
	for c := 1 + r.Intn(4); c > 0; c-- {
		a, b := r.Intn(n), r.Intn(n)
		if a == b {
			continue
		}
		desc := gvDict{}
		id := fmt.Sprint("elem", c)
		if len(ids[a]) == 1 && len(ids[b]) == 1 && r.Intn(2) == 0 {
			id = ids[a] + ids[b]
		} else {
			if r.Intn(4) == 0 { // elements may have the name of a node
				id = gvPick(r, ids)
			}
			desc["nodes"] = []string{ids[a], ids[b]}
		}
		if _, ok := els[id]; ok {
			continue
		}
		kind := gvPick(r, []string{"truss2d", "truss3d", "frame2d"})
		desc["kind"] = kind
		mat := Material{}
		for k, v := range mats {
			mat.LinearElastic = v
			if len(mats) > 1 || r.Intn(2) == 0 {
				desc["material"] = k
			}
			break
		}
		for k, v := range css {
			mat.CrossSection = v
			if len(css) > 1 || r.Intn(2) == 0 {
				desc["cs"] = k
			}
			break
		}
		n0, n1 := nodePtr(ids[a]), nodePtr(ids[b])
		hs := gvRandHinges(r, gvLocalDofs(kind, n0, n1))
		delete(hs, Index{"somewhere else", Phiy})
		hd := map[string][]string{}
		for h := range hs {
			for name, d := range gvDofNames {
				if d == h.Dof {
					hd[h.NodalID] = append(hd[h.NodalID], name)
				}
			}
		}
		if len(hd) > 0 {
			desc["hinges"] = hd
		}
		g := gvWrap(kind, id, n0, n1, &mat, hs)
		els[id] = g
		elIDs = append(elIDs, id)
		edoc[id] = desc
	}
	if len(els) == 0 {
		return ""
	}
	doc["elements"] = edoc
	// Dirichlet
	var dirichlet, neumann []NodalValue
	ddoc := map[string][]gvDict{}
	for c := 1 + r.Intn(4); c > 0; c-- {
		name := gvPick(r, gvKeys(gvDofNames))
		nv := NodalValue{Index{gvPick(r, ids), gvDofNames[name]}, r.num()}
		dirichlet = append(dirichlet, nv)
		if l := ddoc[nv.NodalID]; len(l) > 0 && r.Intn(2) == 0 && l[len(l)-1][name] == nil {
			l[len(l)-1][name] = nv.Value
		} else {
			ddoc[nv.NodalID] = append(l, gvDict{name: nv.Value})
		}
	}
	doc["dirichlet"] = ddoc
	// Neumann
	ndoc := map[string][]gvDict{}
	for c := r.Intn(4); c > 0; c-- {
		name := gvPick(r, gvKeys(gvNodalNames))
		nv := NodalValue{Index{gvPick(r, ids), gvNodalNames[name]}, r.num()}
		neumann = append(neumann, nv)
		ndoc[nv.NodalID] = append(ndoc[nv.NodalID], gvDict{name: nv.Value})
	}
	bad := ""
	for c := r.Intn(5); c > 0; c-- {
		id := gvPick(r, elIDs)
		g := els[id]
		name := gvPick(r, gvKeys(gvLoadNames))
		ld := gvRefLoad{shape: r.Intn(3), kind: gvLoadNames[name], v0: r.num(), v1: r.num()}
		desc := gvDict{"kind": name}
		switch ld.shape {
		case 0:
			ld.a = r.Float64() * g.l
			desc["degree"], desc["values"], desc["position"] = "dirac", []float64{ld.v0}, []float64{ld.a}
		case 1:
			ld.v1 = ld.v0
			desc["degree"], desc["values"] = "constant", []float64{ld.v0}
		default:
			desc["degree"], desc["values"] = "linear", []float64{ld.v0, ld.v1}
		}
		if !g.supports(&ld) {
			if r.Intn(4) > 0 {
				continue
			}
			bad = "unsupported load"
		}
		g.loads = append(g.loads, ld)
		ndoc[id] = append(ndoc[id], desc)
	}
	for _, id := range gvKeys(ndoc) {
		l := ndoc[id]
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	doc["neumann"] = ndoc
	// links
	type link struct {
		from, to Index
		angle    float64
	}
	var links []link
	ldoc := map[string][]gvDict{}
	for c := r.Intn(3); c > 0; c-- {
		pair := gvPick(r, [][2]string{{"Ux", "Uz"}, {"Uz", "Ux"}, {"Ux", "Uy"}, {"Uy", "Uz"}})
		id := gvPick(r, ids)
		l := link{Index{id, gvDofNames[pair[0]]}, Index{id, gvDofNames[pair[1]]}, r.num()}
		links = append(links, l)
		ldoc[id] = append(ldoc[id], gvDict{"from": pair[0], "to": pair[1], "angle": l.angle})
	}
	doc["links"] = ldoc
	if bad == "" && r.Intn(3) == 0 {
		bad = gvBreak(r, doc, ids, elIDs, els)
	}
	b, err := json.Marshal(doc)
	if err != nil {
		panic(err)
	}
	p, err := ProblemFromJSON(b)
	if bad != "" {
		if err == nil {
			return fmt.Sprintf("no error in spite of %v: %s", bad, b)
		}
		if len(p.Nodes)+len(p.Elements)+len(p.Dirichlet)+len(p.Neumann)+len(p.EqTransforms) != 0 {
			return fmt.Sprintf("partial problem with error %v: %s", err, b)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("error %v for a valid problem: %s", err, b)
	}
	if len(p.Nodes) != n {
		return fmt.Sprintf("%v nodes from %s", len(p.Nodes), b)
	}
	seen := map[string]bool{}
	for _, nd := range p.Nodes {
		c, ok := coords[nd.ID]
		if !ok || seen[nd.ID] || nd.X != c[0] || nd.Y != c[1] || nd.Z != c[2] {
			return fmt.Sprintf("node %v from %s", nd, b)
		}
		seen[nd.ID] = true
	}
	if len(p.Elements) != len(els) {
		return fmt.Sprintf("%v elements from %s", len(p.Elements), b)
	}
	for _, e := range p.Elements {
		g := els[e.ID()]
		if g == nil || seen["element "+e.ID()] {
			return fmt.Sprintf("element %v from %s", e.ID(), b)
		}
		seen["element "+e.ID()] = true
		g.e = e
		set := map[Index]struct{}{}
		e.Indices(set)
		if len(set) != len(g.dofs) {
			return fmt.Sprintf("element %v has %v: %s", e.ID(), set, b)
		}
		for _, d := range g.dofs {
			if _, ok := set[d]; !ok {
				return fmt.Sprintf("element %v has %v: %s", e.ID(), set, b)
			}
		}
		if msg := gvCompareAssembly(r, g, true); msg != "" {
			return fmt.Sprintf("%v: %s", msg, b)
		}
		if msg := gvCompareInterpolation(r, g, false); msg != "" {
			return fmt.Sprintf("%v: %s", msg, b)
		}
	}
	for _, l := range links {
		dirichlet = append(dirichlet, NodalValue{l.to, 0})
	}
	if !gvSameBag(dirichlet, p.Dirichlet) {
		return fmt.Sprintf("Dirichlet %v from %s", p.Dirichlet, b)
	}
	if !gvSameBag(neumann, p.Neumann) {
		return fmt.Sprintf("Neumann %v from %s", p.Neumann, b)
	}
	// every link transforms like one of the described ones
	if len(links) != len(p.EqTransforms) {
		return fmt.Sprintf("%v transformations from %s", len(p.EqTransforms), b)
	}
	idx := map[Index]int{}
	for _, id := range ids {
		for _, d := range []Dof{Ux, Uz, Uy} {
			idx[Index{id, d}] = len(idx)
		}
	}
	layout := newEqLayoutDirect(idx)
	act := func(t Transformer) []float64 {
		v := mat.NewVecDense(len(idx), nil)
		for i := 0; i < v.Len(); i++ {
			v.SetVec(i, float64(i*i+1))
		}
		w := mat.VecDenseCopyOf(v)
		k := mat.NewSymDense(len(idx), nil)
		t.Pre(layout, k, v, w)
		return v.RawVector().Data
	}
	var want, got [][]float64
	for i, l := range links {
		t, _ := NewInclinedSupport(l.from, l.to, l.angle)
		want = append(want, act(t))
		got = append(got, act(p.EqTransforms[i]))
	}
	for _, w := range want {
		i := slices.IndexFunc(got, func(g []float64) bool {
			for j := range g {
				if math.Abs(g[j]-w[j]) > 1e-9*math.Abs(w[j])+1e-9 {
					return false
				}
			}
			return true
		})
		if i < 0 {
			return fmt.Sprintf("no transformation for one of %v: %s", links, b)
		}
		got = slices.Delete(got, i, i+1)
	}
	return ""
}

func gvSameBag(a, b []NodalValue) bool {
	if len(a) != len(b) {
		return false
	}
	rest := slices.Clone(b)
	for _, v := range a {
		i := slices.Index(rest, v)
		if i < 0 {
			return false
		}
		rest = slices.Delete(rest, i, i+1)
	}
	return true
}

// gvBreak damages the document.
func gvBreak(r *gvRng, doc gvDict, ids, elIDs []string, els map[string]*gvRefElem) string {
	el := doc["elements"].(gvDict)[gvPick(r, elIDs)].(gvDict)
	nd := doc["neumann"].(map[string][]gvDict)
	dd := doc["dirichlet"].(map[string][]gvDict)
	ld := doc["links"].(map[string][]gvDict)
	addLoad := func(d gvDict) {
		id := gvPick(r, elIDs)
		nd[id] = slices.Insert(nd[id], r.Intn(len(nd[id])+1), d)
	}
	id := gvPick(r, ids)
	switch c := r.Intn(30); c {
	case 0:
		el["kind"] = "truss"
		return "unknown element kind"
	case 1:
		el["nodes"] = []string{ids[0], "nowhere"}
		return "unknown node"
	case 2:
		el["nodes"] = []string{ids[0]}
		return "single node"
	case 3:
		el["nodes"] = []string{ids[0], ids[0]}
		return "zero length"
	case 4:
		el["material"] = "paper"
		return "unknown material"
	case 5:
		el["cs"] = "none"
		return "unknown cross section"
	case 6:
		doc["nodes"] = gvDict{}
		return "no nodes"
	case 7:
		doc["elements"] = gvDict{}
		return "no elements"
	case 8:
		doc["material"] = gvDict{}
		return "no material"
	case 9:
		doc["crosssection"] = gvDict{}
		return "no cross section"
	case 10, 11:
		for _, m := range doc["material"].(gvDict) {
			delete(m.(gvDict)["parameter"].(gvDict), gvPick(r, []string{"E", "nu", "rho"}))
		}
		return "missing material parameter"
	case 12:
		for _, m := range doc["crosssection"].(gvDict) {
			m.(gvDict)["kind"] = "circle"
			return "unknown cross section kind"
		}
	case 13:
		doc["crosssection"].(gvDict)["extra"] = gvDict{"kind": "rectangle", "parameter": gvDict{gvPick(r, []string{"b", "h"}): 1}}
		return "missing cross section parameter"
	case 14:
		doc["crosssection"].(gvDict)["extra"] = gvDict{"kind": "constants", "parameter": gvDict{"A": 1, "Iyy": 1}}
		return "missing cross section constant"
	case 15:
		doc["crosssection"].(gvDict)["extra"] = gvDict{"kind": "rectangle", "parameter": gvDict{"b": -1, "h": 1}}
		return "negative width"
	case 16:
		dd[id] = append(dd[id], gvDict{gvPick(r, []string{"ux", "Fx", "", "U"}): 0})
		return "unknown Dirichlet dof"
	case 17:
		dd["nowhere"] = []gvDict{{"Ux": 0}}
		return "Dirichlet at unknown node"
	case 18:
		if els[id] == nil {
			nd[id] = append(nd[id], gvDict{gvPick(r, []string{"Ux", "fx", "qx", "F"}): 0})
			return "unknown nodal load"
		}
	case 19:
		nd["nowhere"] = []gvDict{{"Fx": 1}}
		return "nodal load at unknown node"
	case 20:
		nd["nowhere"] = []gvDict{{"kind": "qx", "degree": "constant", "values": []float64{1}}}
		return "load on unknown element"
	case 21:
		addLoad(gvDict{"kind": "qx", "degree": "constant", "values": gvPick(r, [][]float64{nil, {1, 2}})})
		return "wrong number of values (constant)"
	case 22:
		addLoad(gvDict{"kind": "qx", "degree": "linear", "values": gvPick(r, [][]float64{nil, {1}, {1, 2, 3}})})
		return "wrong number of values (linear)"
	case 23:
		addLoad(gvDict{"kind": "Fx", "degree": "dirac", "values": gvPick(r, [][]float64{nil, {1, 2}}), "position": []float64{0.1}})
		return "wrong number of values (dirac)"
	case 24:
		addLoad(gvDict{"kind": "Fx", "degree": "dirac", "values": []float64{0.1}, "position": gvPick(r, [][]float64{nil, {0.1, 0.2}, {-0.1}, {1e6}})})
		return "wrong position"
	case 25:
		addLoad(gvDict{"kind": gvPick(r, []string{"Ux", "q", ""}), "degree": "constant", "values": []float64{1}})
		return "unknown load kind"
	case 26:
		addLoad(gvDict{"kind": "qx", "degree": gvPick(r, []string{"quadratic", "", "Linear"}), "values": []float64{1}})
		return "unknown degree"
	case 27:
		ld[id] = append(ld[id], gvPick(r, []gvDict{{"from": "Ux", "to": "Phiy"}, {"from": "x", "to": "Uz"}, {"from": "Ux"}, {"from": "Ux", "to": "Ux", "angle": 1}}))
		return "bad link"
	case 28:
		ld["nowhere"] = []gvDict{{"from": "Ux", "to": "Uz", "angle": 1}}
		return "link at unknown node"
	case 29:
		el["hinges"] = gvPick(r, []map[string][]string{{"nowhere": {"Ux"}}, {ids[0]: {"ux"}, ids[1]: {"Ux"}}})
		return "bad hinge"
	}
	return ""
}
