package deflect

import "gonum.org/v1/gonum/mat"

// C09: numbering of the degrees of freedom.

// gvAnyIndex is an arbitrary degree of freedom.
func gvAnyIndex(name string) Index {
	return Index{NodalID: gvStr(name + ".id"), Dof: Dof(gvDof(name + ".dof"))}
}

func gvDof(name string) int {
	d := gvNat(name)
	gvAssume(d < 6)
	return d
}

// gvFakeElement uses the given degrees of freedom, and adds arbitrary values to the system.
type gvFakeElement struct {
	id   string
	dofs []Index
}

func (e *gvFakeElement) Indices(set map[Index]struct{}) {
	for _, d := range e.dofs {
		set[d] = struct{}{}
	}
}
func (e *gvFakeElement) Assemble(layout EqLayout, k *mat.SymDense, r, d *mat.VecDense) {}
func (e *gvFakeElement) Interpolate(layout EqLayout, which Fct, d *mat.VecDense) PolySequence {
	return nil
}
func (e *gvFakeElement) AddLoad(bc NeumannElementBC) bool { return false }
func (e *gvFakeElement) RemoveLoad(bc NeumannElementBC)   {}
func (e *gvFakeElement) NumNodes() uint                   { return 2 }
func (e *gvFakeElement) ID() string                       { return e.id }

// gvKnown are the distinct indices of a list.
func gvDistinct(is []Index) []Index {
	res := []Index{}
	for _, i := range is {
		dup := false
		for _, j := range res {
			dup = gvOr(dup, i == j)
		}
		if !dup {
			res = append(res, i)
		}
	}
	return res
}

func gvIn(i Index, is []Index) bool {
	in := false
	for _, j := range is {
		in = gvOr(in, i == j)
	}
	return in
}

// gvBefore: order by node and then degree of freedom
func gvBefore(a, b Index) bool {
	return gvOr(a.NodalID < b.NodalID, gvAnd(a.NodalID == b.NodalID, a.Dof < b.Dof))
}

func gvCheckLayout(elements [][]Index, dirichlet []Index) {
	p := &Problem{}
	used := []Index{}
	for i := range elements {
		p.Elements = append(p.Elements, &gvFakeElement{id: gvName("e", i), dofs: elements[i]})
		used = append(used, elements[i]...)
	}
	for i := range dirichlet {
		p.Dirichlet = append(p.Dirichlet, NodalValue{Index: dirichlet[i], Value: gvReal(gvName("value", i))})
	}
	all := gvDistinct(append(append([]Index{}, used...), dirichlet...))
	layout, err := NewEqLayout(p)
	gvReach("numbered")
	bad := false
	for i, a := range dirichlet {
		bad = gvOr(bad, gvNot(gvIn(a, used)))
		for _, b := range dirichlet[:i] {
			bad = gvOr(bad, a == b)
		}
	}
	gvEnsure("duplicate or unconnected conditions are an error, others aren't", gvIff(err != nil, bad))
	gvEnsure("number of degrees of freedom", layout.eqSize() == len(all))
	for i, a := range all {
		pa := layout.mapOne(a)
		gvEnsure("numbers have no gaps", gvAnd(0 <= pa, pa < len(all)))
		gvEnsure("reverse lookup", layout.unmap(pa) == a)
		ca := gvIn(a, dirichlet)
		for _, b := range all[:i] {
			pb := layout.mapOne(b)
			cb := gvIn(b, dirichlet)
			first := gvOr(gvAnd(ca, gvNot(cb)), gvAnd(gvIff(ca, cb), gvBefore(a, b)))
			gvEnsure("constrained first, then by node and degree of freedom", gvIff(first, pa < pb))
			gvEnsure("no duplicate numbers", pa != pb)
		}
	}
	gvEnsure("known degrees of freedom are found", layout.flushFailure() == nil)
	other := gvAnyIndex("other")
	layout.mapOne(other)
	gvEnsure("others aren't", gvIff(layout.flushFailure() == nil, gvIn(other, all)))
}

// gv:bounded=3-elements
func Prove_C09_layout_free() {
	a, b, c := gvAnyIndex("a"), gvAnyIndex("b"), gvAnyIndex("c")
	gvCheckLayout([][]Index{{a}, {b}, {c}}, nil)
}

// gv:bounded=2-elements-1-condition
func Prove_C09_layout_1() {
	a, b, d := gvAnyIndex("a"), gvAnyIndex("b"), gvAnyIndex("d")
	gvCheckLayout([][]Index{{a}, {b}}, []Index{d})
}

// gv:bounded=3-dofs-2-conditions tier=thorough
func Prove_C09_layout_2() {
	a, b, d, e := gvAnyIndex("a"), gvAnyIndex("b"), gvAnyIndex("d"), gvAnyIndex("e")
	gvCheckLayout([][]Index{{a, b}}, []Index{d, e})
}
