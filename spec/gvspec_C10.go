package deflect

import "gonum.org/v1/gonum/mat"

// C10: failed index lookups surface as errors.

// gvAnyFailures is an arbitrary record of previous lookups.
func gvAnyFailures(name string) *lookupFailures {
	if gvBool(name + ".none") {
		return nil
	}
	return &lookupFailures{failures: gvNat(name + ".failures"), failed: gvSlice[string](name+".failed", gvNat(name+".n"))}
}

func gvAnyLayout(name string) EqLayout {
	return EqLayout{indices: gvAny[map[Index]int](name + ".indices"), lookupFailures: gvAnyFailures(name)}
}

// A lookup fails exactly for unknown degrees of freedom, and then (only then) the layout reports it, whatever has
// been looked up before.
func Prove_C10_lookup() {
	l := gvAnyLayout("l")
	before := l.failure() != nil
	i := gvAnyIndex("i")
	want, known := l.indices[i]
	got := l.mapOne(i)
	gvReach("looked up")
	gvEnsure("known degrees of freedom yield their number", gvImplies(known, got == want))
	gvEnsure("others yield zero", gvImplies(gvNot(known), got == 0))
	gvEnsure("exactly failed lookups are recorded", gvIff(l.failure() != nil, gvOr(before, gvNot(known))))
}

// The lookups of several degrees of freedom are lookups of each of them.
func Prove_C10_multi() {
	l := gvAnyLayout("l")
	before := l.failure() != nil
	a, b, c, d := gvAnyIndex("a"), gvAnyIndex("b"), gvAnyIndex("c"), gvAnyIndex("d")
	wa, ka := l.indices[a]
	wb, kb := l.indices[b]
	wc, kc := l.indices[c]
	wd, kd := l.indices[d]
	two, three, four := l, l, l
	if l.lookupFailures != nil {
		c1, c2, c3 := *l.lookupFailures, *l.lookupFailures, *l.lookupFailures
		two.lookupFailures, three.lookupFailures, four.lookupFailures = &c1, &c2, &c3
	}
	p0, p1 := two.mapTwo(a, b)
	gvEnsure("two", gvAnd(gvImplies(ka, p0 == wa), gvImplies(kb, p1 == wb), gvIff(two.failure() != nil, gvOr(before, gvNot(ka), gvNot(kb)))))
	q0, q1, q2 := three.mapThree(a, b, c)
	gvEnsure("three", gvAnd(gvImplies(ka, q0 == wa), gvImplies(kb, q1 == wb), gvImplies(kc, q2 == wc),
		gvIff(three.failure() != nil, gvOr(before, gvNot(ka), gvNot(kb), gvNot(kc)))))
	r0, r1, r2, r3 := four.mapFour(a, b, c, d)
	gvReach("looked up")
	gvEnsure("four", gvAnd(gvImplies(ka, r0 == wa), gvImplies(kb, r1 == wb), gvImplies(kc, r2 == wc), gvImplies(kd, r3 == wd),
		gvIff(four.failure() != nil, gvOr(before, gvNot(ka), gvNot(kb), gvNot(kc), gvNot(kd)))))
}

// Clearing reports what was recorded, after which the layout is clean.
func Prove_C10_flush() {
	l := gvAnyLayout("l")
	before := l.failure() != nil
	gvEnsure("asking doesn't clear", gvIff(l.failure() != nil, before))
	err := l.flushFailure()
	gvReach("flushed")
	gvEnsure("clearing reports", gvIff(err != nil, before))
	gvEnsure("then clean", l.failure() == nil)
	i := gvAnyIndex("i")
	_, known := l.indices[i]
	l.mapOne(i)
	gvEnsure("successful lookups don't produce errors", gvIff(l.flushFailure() != nil, gvNot(known)))
	gvEnsure("clean again", l.flushFailure() == nil)
}

// Failures are visible to everyone who holds a copy of a layout made by the package.
func Prove_C10_copies() {
	l := newEqLayoutDirect(map[Index]int{})
	gvEnsure("starts clean", l.failure() == nil)
	other := l
	i := gvAnyIndex("i")
	other.mapOne(i)
	gvReach("looked up")
	gvEnsure("seen by the original", l.failure() != nil)
	gvEnsure("cleared", gvAnd(l.flushFailure() != nil, other.failure() == nil, l.failure() == nil))
}

// gvLookups makes two arbitrary lookups whenever it's used.
type gvLookups struct {
	gvFakeElement
	a, b Index
}

func (e *gvLookups) Assemble(layout EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	layout.mapOne(e.a)
	layout.mapTwo(e.a, e.b)
}
func (e *gvLookups) Interpolate(layout EqLayout, which Fct, d *mat.VecDense) PolySequence {
	layout.mapTwo(e.a, e.b)
	return nil
}

// gvLookupTransform makes lookups when transforming.
type gvLookupTransform struct {
	pre, post Index
}

func (t *gvLookupTransform) Pre(layout EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	layout.mapOne(t.pre)
}
func (t *gvLookupTransform) Post(layout EqLayout, r, d *mat.VecDense) { layout.mapOne(t.post) }

// gvSolvedResult is the result of a solve with the given degrees of freedom.
func gvSolvedResult(l EqLayout, n int, elements []Element) *solverResult {
	return &solverResult{total: n, net: gvNat("net"), d: gvVec("D", n), r: gvVec("R", n), indices: l, elements: elements}
}

// Queries for unknown degrees of freedom are errors, and only those.
func Prove_C10_nodal_queries() {
	l := gvAnyLayout("l")
	gvAssume(l.failure() == nil)
	n := gvNat("dim")
	gvAssume(n > 0)
	a, b := gvAnyIndex("a"), gvAnyIndex("b")
	wa, ka := l.indices[a]
	wb, kb := l.indices[b]
	gvAssume(gvAnd(gvImplies(ka, gvAnd(0 <= wa, wa < n)), gvImplies(kb, gvAnd(0 <= wb, wb < n))))
	res := gvSolvedResult(l, n, nil)
	v, err := res.Primary(a)
	gvEnsure("unknown displacement is an error", gvIff(err != nil, gvNot(ka)))
	gvEnsure("displacement", gvImplies(ka, gvAnd(v.Value == gvD0(wa), v.Index == a)))
	v, err = res.Reaction(b)
	gvReach("asked")
	gvEnsure("unknown reaction is an error", gvIff(err != nil, gvNot(kb)))
	gvEnsure("reaction", gvImplies(kb, gvAnd(v.Value == gvR0(wb), v.Index == b)))
	_, err = res.Primary(b)
	gvEnsure("failures don't stick", gvIff(err != nil, gvNot(kb)))
	_, err = res.Reaction(a)
	gvEnsure("failures don't stick", gvIff(err != nil, gvNot(ka)))
}

// Interpolating an element that refers to unknown degrees of freedom is an error.
// gv:bounded=2-lookups-per-element
func Prove_C10_interpolate() {
	l := gvAnyLayout("l")
	gvAssume(l.lookupFailures != nil) // layouts are always made by newEqLayoutDirect
	gvAssume(l.failure() == nil)
	n := gvNat("dim")
	gvAssume(n > 0)
	e := &gvLookups{a: gvAnyIndex("a"), b: gvAnyIndex("b")}
	e.id = gvStr("id")
	_, ka := l.indices[e.a]
	_, kb := l.indices[e.b]
	res := gvSolvedResult(l, n, []Element{e})
	_, err := res.Interpolate(e.id, FctUx, gvReal("tol"))
	gvReach("interpolated")
	gvEnsure("lookup failures are errors", gvIff(err != nil, gvNot(gvAnd(ka, kb))))
	_, err = res.Interpolate(e.id, FctUx, gvReal("tol"))
	gvEnsure("again", gvIff(err != nil, gvNot(gvAnd(ka, kb))))
	_, err = res.Interpolate(gvStr("other"), FctUx, gvReal("tol"))
	gvEnsure("clean afterwards", res.indices.failure() == nil)
}

// gvMissing numbers the degrees of freedom of the element apart from one, or all of them.
func gvMissing(g *gvElem) bool {
	missing := gvInt("missing")
	gvAssume(gvAnd(0 <= missing, missing <= len(g.dofs)))
	m := map[Index]int{}
	for i, d := range g.dofs {
		if i != missing {
			gvAssume(g.pos[i] > 0)
			m[d] = g.pos[i]
		}
	}
	g.layout = newEqLayoutDirect(map[Index]int{})
	g.layout.indices = m
	return missing < len(g.dofs)
}

func gvCheckMissingAssemble(g *gvElem) {
	missing := gvMissing(g)
	g.e.Assemble(g.layout, gvSym("K", g.n), gvVec("R", g.n), gvVec("D", g.n))
	gvReach("assembled")
	gvEnsure("assembly records exactly the unknown degrees of freedom", gvIff(g.layout.failure() != nil, missing))
}

// Assembling an element on a layout that lacks one of its degrees of freedom records a failure, whichever it is;
// otherwise none.
func Prove_C10_assemble_truss2d() { gvCheckMissingAssemble(gvTruss2d()) }

// Assembling a 3d truss records a failure exactly if a degree of freedom is missing.
func Prove_C10_assemble_truss3d() { gvCheckMissingAssemble(gvTruss3d()) }

// Assembling a frame without hinges records a failure exactly if a degree of freedom is missing.
func Prove_C10_assemble_frame2d() {
	g := gvFrame2d()
	for _, h := range g.hinged {
		gvAssume(!h)
	}
	gvCheckMissingAssemble(g)
}

func gvCheckMissingInterpolate(g *gvElem, own []Fct) {
	missing := gvMissing(g)
	for _, f := range own {
		g.e.Interpolate(g.layout, f, gvVec("D", g.n))
		gvEnsure("interpolation records exactly the unknown degrees of freedom", gvIff(g.layout.flushFailure() != nil, missing))
	}
	gvReach("interpolated")
}

// Interpolating a truss on a layout that lacks one of its degrees of freedom records a failure; otherwise none.
func Prove_C10_interpolate_truss2d() { gvCheckMissingInterpolate(gvTruss2d(), []Fct{FctUx, FctNx}) }

// The same for a 3d truss.
func Prove_C10_interpolate_truss3d() { gvCheckMissingInterpolate(gvTruss3d(), []Fct{FctUx, FctNx}) }

// gvMissingPart looks up something unknown when assembled.
type gvMissingPart struct {
	gvPart
	alien Index
}

func (p *gvMissingPart) Assemble(layout EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	layout.mapOne(p.alien)
	p.gvPart.Assemble(layout, k, r, d)
}

// Problems of any size: if any of the elements, conditions, loads or transformations refers to an unknown degree of
// freedom, solving ends in an error, and without a result unless only the back transformation failed; otherwise it
// succeeds.
func Prove_C10_solve() {
	s := gvNewAnySystem("miss")
	transforms := gvNat("miss.transforms")
	for t := 0; t < transforms; t++ {
		s.p.EqTransforms = append(s.p.EqTransforms, &gvLookupTransform{
			pre:  s.dof(gvFnBelow("miss.pre", s.n, t)),
			post: s.dof(gvFnBelow("miss.post", s.n, t)),
		})
	}
	alien := gvAnyIndex("alien")
	_, known := s.layout.indices[alien]
	gvAssume(!known)
	w := gvNat("miss.where")
	which := gvChoose("which", 6)
	switch which {
	case 0:
		gvAssume(w < s.c)
		s.p.Dirichlet[w].Index = alien
	case 1:
		gvAssume(w < s.loads)
		s.p.Neumann[w].Index = alien
	case 2:
		gvAssume(w < s.elements)
		s.p.Elements[w] = &gvMissingPart{gvPart: gvPart{of: "miss", e: w, n: s.n}, alien: alien}
	case 3:
		gvAssume(w < transforms)
		s.p.EqTransforms[w].(*gvLookupTransform).pre = alien
	case 4:
		gvAssume(w < transforms)
		s.p.EqTransforms[w].(*gvLookupTransform).post = alien
	}
	res, err := NewLinearProblemSolver().Solve(s.p, s.layout, &gvSolution{name: "miss.sol"})
	gvReach("solved")
	gvEnsure("lookup failures are errors", gvIff(err != nil, which != 5))
	gvEnsure("no result with failed lookups", gvImplies(which < 4, res == nil))
	gvEnsure("a result without failed lookups", gvImplies(which == 5, res != nil))
	gvEnsure("clean afterwards", s.layout.failure() == nil)
}
