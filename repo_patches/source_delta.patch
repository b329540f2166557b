From d8cc843e7379447c824d2c0a53de3428b5460cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 01/14] fix: account for non-zero prescribed nodal values in
 the load vector

The check whether any Dirichlet BC is non-zero was inverted, so a problem whose prescribed
values are all non-zero was solved as if they were zero.
---
 deflect/linear_bvp_solver.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 89b54c6..74c541b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -3,7 +3,6 @@ package deflect
 import (
 	"fmt"
 
-	"gonum.org/v1/gonum/floats/scalar"
 	"gonum.org/v1/gonum/mat"
 )
 
@@ -47,7 +46,7 @@ func (s *linearSolver) Solve(
 	var hasNonZeroDirichlet bool
 
 	for _, bc := range p.Dirichlet {
-		hasNonZeroDirichlet = hasNonZeroDirichlet || scalar.EqualWithinAbs(bc.Value, 0, 1e-12)
+		hasNonZeroDirichlet = hasNonZeroDirichlet || bc.Value != 0
 		d.SetVec(indices.mapOne(bc.Index), bc.Value)
 	}
 
-- 
2.43.0


From c565cdab64a22f864e77989ef8d47444604d607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 02/14] fix: reject polynomial evaluation beyond the end of the
 domain

---
 deflect/polynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deflect/polynomial.go b/deflect/polynomial.go
index aa7c587..cc5cad3 100644
--- a/deflect/polynomial.go
+++ b/deflect/polynomial.go
@@ -26,7 +26,7 @@ func (p *PolyPiece) Degree() int {
 
 // Eval evaluates the polynomial at x. If x is outside of the domain, an error is returned.
 func (p *PolyPiece) Eval(x float64) (float64, error) {
-	if x+1e-10 < p.X0 || x-1e10 > p.XE {
+	if x+1e-10 < p.X0 || x-1e-10 > p.XE {
 		return 0, fmt.Errorf("%v outside of domain [%v, %v]", x, p.X0, p.XE)
 	}
 
-- 
2.43.0


From b8e79cfc8f78d372960aac3162cdc32d043ed9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 03/14] fix: remove loads from frame elements

Loads are stored in the truss and beam a frame delegates to, but RemoveLoad only looked at the
(always empty) sequence of loads of the frame itself.
---
 deflect/frame.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deflect/frame.go b/deflect/frame.go
index c69e2c4..6f34c68 100644
--- a/deflect/frame.go
+++ b/deflect/frame.go
@@ -70,6 +70,12 @@ func (f *frame) AddLoad(bc NeumannElementBC) bool {
 	return f.truss.AddLoad(bc) || f.beam.AddLoad(bc)
 }
 
+// RemoveLoad removes the load from both underlying elements, since these store the loads.
+func (f *frame) RemoveLoad(bc NeumannElementBC) {
+	f.truss.RemoveLoad(bc)
+	f.beam.RemoveLoad(bc)
+}
+
 func (f *frame) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
 	s0 := f.truss.Interpolate(indices, which, d)
 	s1 := f.beam.Interpolate(indices, which, d)
-- 
2.43.0


From e598a1f175034bf548a6c0f076156eec9c4dbcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 04/14] fix: report index lookup failures of elements and
 transformers

EqLayout is passed by value, so failed lookups in Element and Transformer implementations were
recorded in a copy and got lost. Solve then returned results based on index zero without an error.
---
 deflect/eq_layout.go         | 28 ++++++++++++++++++++++------
 deflect/linear_bvp_solver.go |  2 +-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/deflect/eq_layout.go b/deflect/eq_layout.go
index afa78c8..a4c982e 100644
--- a/deflect/eq_layout.go
+++ b/deflect/eq_layout.go
@@ -16,8 +16,14 @@ import (
 // populated with the erroneous index mapping can't be used. In the context of tangent/residual
 // assembly, the solver process should probably be aborted.
 type EqLayout struct {
-	indices  map[Index]int
-	inverse  []Index
+	indices map[Index]int
+	inverse []Index
+	// An EqLayout is passed around by value, so this is a pointer to make sure that failures are
+	// visible to everyone holding a copy.
+	*lookupFailures
+}
+
+type lookupFailures struct {
 	failures int
 	failed   []string
 }
@@ -59,6 +65,10 @@ func (el *EqLayout) unmap(i int) (isym Index) {
 
 func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 	if !ok {
+		if el.lookupFailures == nil {
+			el.lookupFailures = &lookupFailures{}
+		}
+
 		el.failures++
 
 		if len(el.failed) < 5 {
@@ -71,7 +81,7 @@ func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 // error state is _not_ flushed. In order to clear the error too, use [EqLayout.flushFailure]
 // instead.
 func (el *EqLayout) failure() error {
-	if el.failures == 0 {
+	if el.lookupFailures == nil || el.failures == 0 {
 		return nil
 	}
 
@@ -89,8 +99,10 @@ func (el *EqLayout) failure() error {
 func (el *EqLayout) flushFailure() error {
 	failure := el.failure()
 
-	el.failures = 0
-	el.failed = nil
+	if failure != nil {
+		el.failures = 0
+		el.failed = nil
+	}
 
 	return failure
 }
@@ -103,7 +115,11 @@ func NewEqLayout(p *Problem) (EqLayout, error) {
 }
 
 func newEqLayoutDirect(indices map[Index]int) EqLayout {
-	return EqLayout{indices: indices, inverse: invertIndexMap(indices)}
+	return EqLayout{
+		indices:        indices,
+		inverse:        invertIndexMap(indices),
+		lookupFailures: &lookupFailures{},
+	}
 }
 
 // IndexMap constructs the mapping from symbolic to plain matrix indices. It returns an
diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 74c541b..ae64134 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -60,7 +60,7 @@ func (s *linearSolver) Solve(
 		transform.Pre(indices, k, r, d)
 	}
 
-	if err := indices.failure(); err != nil {
+	if err := indices.flushFailure(); err != nil {
 		// Don't attempt to continue if something went wrong so far
 		return nil, fmt.Errorf("failed to assemble global matrices: %w", err)
 	}
-- 
2.43.0


From 80b384b3d037181268bb799db4e7f1c8cdecbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 05/14] fix: compute reactions of inclined supports without
 nodal and element loads

The loads on the free dof of an inclined support were rotated into its reactions. Also, revert
multiple transformations of the same node in the opposite order of their application.
---
 deflect/linear_bvp_solver.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index ae64134..28f70f6 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -90,8 +90,13 @@ func (s *linearSolver) Solve(
 	scratch.MulVec(k11, d1)
 	r1.AddVec(r1, scratch)
 
-	for _, transform := range p.EqTransforms {
-		transform.Post(indices, r, d)
+	// There are no reactions in the direction of free dofs, and the loads still stored there must not
+	// be mixed into the reactions by the transformations below:
+	r2.Zero()
+
+	// The most recently applied transformation must be reverted first
+	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
+		p.EqTransforms[i].Post(indices, r, d)
 	}
 
 	err := indices.flushFailure()
-- 
2.43.0


From e433fd7ab3782ffffdbd442a4d5b03e9af9d0598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 06/14] fix: don't overwrite earlier results when re-using a
 linear problem solver

---
 deflect/linear_bvp_solver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 28f70f6..f740b6e 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -104,8 +104,8 @@ func (s *linearSolver) Solve(
 	return &solverResult{
 		total:    s.dim,
 		net:      s.dim - s.constrained,
-		d:        s.eqn.d,
-		r:        s.eqn.r,
+		d:        mat.VecDenseCopyOf(s.eqn.d), // The buffers are re-used when solving the next problem
+		r:        mat.VecDenseCopyOf(s.eqn.r),
 		indices:  indices,
 		elements: p.Elements,
 	}, err
-- 
2.43.0


From b7616556f6c1cfc79694c45611c1c4e8bfbc4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 07/14] fix: re-size buffers when an inclined support is used
 with problems of different size

---
 deflect/inclined_support.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index 9d905a2..f660ea1 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -33,8 +33,7 @@ func (l *inclinedSupport) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDe
 	// Initialise the buffer if necessary. We might want to think about sharing the same buffer
 	// between multiple inclinedSupport instances at some point, since re-using the buffer would be
 	// more efficient.
-	if l.irow == nil {
-		dim := k.SymmetricDim()
+	if dim := k.SymmetricDim(); l.irow == nil || l.irow.Len() != dim {
 		l.irow = mat.NewVecDense(dim, nil)
 		l.jrow = mat.NewVecDense(dim, nil)
 	}
-- 
2.43.0


From 9493c6fbd0f9cbcaf73159c234f09eaf5d8149d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 08/14] fix: return an error instead of panicking when solving
 without Dirichlet BC

---
 deflect/linear_bvp_solver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index f740b6e..8b7565b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -1,6 +1,7 @@
 package deflect
 
 import (
+	"errors"
 	"fmt"
 
 	"gonum.org/v1/gonum/mat"
@@ -114,6 +115,8 @@ func (s *linearSolver) Solve(
 func (s *linearSolver) initialise(dim, constrained int) error {
 	if dim == constrained {
 		return fmt.Errorf("all %v degrees of freedom have Dirichlet BC, no need to solve this", dim)
+	} else if constrained == 0 {
+		return errors.New("can't solve a problem without any Dirichlet BC")
 	}
 
 	s.dim = dim
-- 
2.43.0


From 041a15aec5bfe4010859c9343cf7e04e2da775a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 09/14] fix: reject a negative roll angle of constants-based
 cross sections as documented

---
 deflect/cross_sections.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/cross_sections.go b/deflect/cross_sections.go
index 9fcb4ae..7202b8c 100644
--- a/deflect/cross_sections.go
+++ b/deflect/cross_sections.go
@@ -46,6 +46,10 @@ func NewConstantsCrossSections(param map[string]float64) (CrossSection, error) {
 		err = errors.Join(err, fmt.Errorf("negative cross section constant Ixx = %v", cs.ixx))
 	}
 
+	if cs.roll < 0 {
+		err = errors.Join(err, fmt.Errorf("negative cross section constant roll = %v", cs.roll))
+	}
+
 	return &cs, err
 }
 
-- 
2.43.0


From e311c1c16d717025e7501ba1c55cb3a9d51beb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 10/14] fix: don't accept unknown load types on truss elements

---
 deflect/truss2d.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index 88bc1a9..b708a4f 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -122,19 +122,15 @@ func (t *truss2d) indicesAsArray() *[4]Index {
 }
 
 func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
-	var kind Dof
+	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { kind = load.kind },
-		func(load *neumannConstant) { kind = load.kind },
-		func(load *neumannLinear) { kind = load.kind },
+		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConstant) { supported = load.kind == Ux },
+		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
 
-	if kind == Ux {
-		return t.oneDimElement.AddLoad(bc)
-	}
-
-	return false
+	return supported && t.oneDimElement.AddLoad(bc)
 }
 
 func (t *truss2d) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
-- 
2.43.0


From aa54125ddd877d34096af975dc2c88749fe55e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 11/14] fix: don't accept concentrated loads beyond the end of
 an element

Such loads resulted in wrong nodal loads and piecewise polynomials that exceed the element.
---
 deflect/beam2d.go          | 4 +++-
 deflect/one_dim_element.go | 5 +++++
 deflect/truss2d.go         | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/deflect/beam2d.go b/deflect/beam2d.go
index 4a41b60..f5dbfcc 100644
--- a/deflect/beam2d.go
+++ b/deflect/beam2d.go
@@ -180,7 +180,9 @@ func (b *beam2d) AddLoad(bc NeumannElementBC) bool {
 	supported := false
 
 	loadDispatch(bc,
-		func(l *neumannConcentrated) { supported = l.kind == Uz || l.kind == Phiy },
+		func(l *neumannConcentrated) {
+			supported = (l.kind == Uz || l.kind == Phiy) && b.contains(l.position)
+		},
 		func(l *neumannConstant) { supported = l.kind == Uz },
 		func(l *neumannLinear) { supported = l.kind == Uz })
 
diff --git a/deflect/one_dim_element.go b/deflect/one_dim_element.go
index b72988f..8881126 100644
--- a/deflect/one_dim_element.go
+++ b/deflect/one_dim_element.go
@@ -45,6 +45,11 @@ func (e *oneDimElement) RemoveLoad(bc NeumannElementBC) {
 	}
 }
 
+// contains returns true if x is a position between the two nodes of the element.
+func (e *oneDimElement) contains(x float64) bool {
+	return x >= 0 && x <= length(e.n0, e.n1)+1e-10
+}
+
 func (e *oneDimElement) NumNodes() uint {
 	return 2
 }
diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index b708a4f..b468d54 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -125,7 +125,7 @@ func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
 	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConcentrated) { supported = load.kind == Ux && t.contains(load.position) },
 		func(load *neumannConstant) { supported = load.kind == Ux },
 		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
-- 
2.43.0


From 37be8dbc78103b778f19861568afba015e8a1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 12/14] fix: don't ignore the position of constant and linear
 loads in JSON

Loads over parts of an element aren't supported, so this is an error.
---
 deflect/problem_from_json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 7a91aa7..1daf207 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -511,12 +511,16 @@ func translateElementNeumannBC(desc *neumannDescription) (NeumannElementBC, erro
 	case "constant":
 		if numValues != 1 {
 			err = fmt.Errorf("constant load must have 1 value, got %v", numValues)
+		} else if numPos != 0 {
+			err = fmt.Errorf("constant load spans the entire element, but got position %v", pos)
 		} else {
 			load = NewElementConstantLoad(kind, values[0])
 		}
 	case "linear":
 		if numValues != 2 {
 			err = fmt.Errorf("linear load must have 2 values, got %v", numValues)
+		} else if numPos != 0 {
+			err = fmt.Errorf("linear load spans the entire element, but got position %v", pos)
 		} else {
 			load = NewElementLinearLoad(kind, values[0], values[1])
 		}
-- 
2.43.0


From 82b2274cbeded2880aad9b58db0b5a5087a69a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 13/14] fix: reject inclined supports that link a degree of
 freedom with itself in JSON

---
 deflect/problem_from_json.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 1daf207..dd06261 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -566,6 +566,14 @@ func translateAngularLinks(
 				continue
 			}
 
+			if dofFrom == dofTo {
+				err = errors.Join(
+					err,
+					fmt.Errorf("inclined support at %v must link two different dofs, got %v", nodeID, desc.From),
+				)
+				continue
+			}
+
 			fromIndex := Index{NodalID: nodeID, Dof: dofFrom}
 			toIndex := Index{NodalID: nodeID, Dof: dofTo}
 			transformer, bc := NewInclinedSupport(fromIndex, toIndex, desc.Angle)
@@ -574,7 +582,7 @@ func translateAngularLinks(
 		}
 	}
 
-	return links, bcs, dofs.FinaliseJoin(nil)
+	return links, bcs, dofs.FinaliseJoin(err)
 }
 
 type dofLookup struct {
-- 
2.43.0


From 77831659c5a31418bc51377295239e6f95a71cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 14/14] fix: reject boundary conditions at unknown nodes in
 JSON

---
 deflect/problem_from_json.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index dd06261..6c19a24 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -387,8 +387,14 @@ func translateDirichletBCs(
 			"Phix": Phix,
 		}}
 	result := make([]NodalValue, 0, len(from))
+	var err error
 
 	for nodeID, dofDescriptions := range from {
+		if _, errNode := scanForNode(nodeID, nodes); errNode != nil {
+			err = errors.Join(err, fmt.Errorf("find node for Dirichlet BC: %w", errNode))
+			continue
+		}
+
 		for _, dofToValue := range dofDescriptions {
 			for dofName, value := range dofToValue {
 				dof, ok := dofs.Lookup(dofName)
@@ -402,7 +408,7 @@ func translateDirichletBCs(
 		}
 	}
 
-	return result, dofs.FinaliseJoin(nil)
+	return result, dofs.FinaliseJoin(err)
 }
 
 func translateNodalNeumannBCs(
@@ -420,10 +426,18 @@ func translateNodalNeumannBCs(
 			"Mx": Phix,
 		}}
 	result := make([]NodalValue, 0, len(from))
+	var err error
 
 	for nodeID, neumannDesc := range from {
 		for _, desc := range neumannDesc {
-			// When the object describes an element Neumann BC, the sequence is empty.
+			if len(desc.Nodal) == 0 {
+				// This describes an element Neumann BC, which is handled elsewhere.
+				continue
+			} else if _, errNode := scanForNode(nodeID, nodes); errNode != nil {
+				err = errors.Join(err, fmt.Errorf("find node for nodal Neumann BC: %w", errNode))
+				continue
+			}
+
 			for dofName, value := range desc.Nodal {
 				dof, ok := dofs.Lookup(dofName)
 				if !ok {
@@ -436,7 +450,7 @@ func translateNodalNeumannBCs(
 		}
 	}
 
-	return result, dofs.FinaliseJoin(nil)
+	return result, dofs.FinaliseJoin(err)
 }
 
 func translateAndApplyElementNeumannBCs(
@@ -558,6 +572,11 @@ func translateAngularLinks(
 	bcs = make([]NodalValue, 0, len(from))
 
 	for nodeID, linkDesc := range from {
+		if _, errNode := scanForNode(nodeID, nodes); errNode != nil {
+			err = errors.Join(err, fmt.Errorf("find node for inclined support: %w", errNode))
+			continue
+		}
+
 		for _, desc := range linkDesc {
 			dofFrom, okFrom := dofs.Lookup(desc.From)
 			dofTo, okTo := dofs.Lookup(desc.To)
-- 
2.43.0

