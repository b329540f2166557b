package deflect

// C19: element geometry.

func gvNode(p string) *Node {
	return &Node{ID: gvStr(p + ".id"), X: gvReal(p + ".x"), Y: gvReal(p + ".y"), Z: gvReal(p + ".z")}
}

func gvDist2(a, b *Node) float64 {
	return (b.X-a.X)*(b.X-a.X) + (b.Y-a.Y)*(b.Y-a.Y) + (b.Z-a.Z)*(b.Z-a.Z)
}

func gvApart(a, b *Node) bool { return gvOr(a.X != b.X, a.Y != b.Y, a.Z != b.Z) }

// The length is the Euclidean distance, for any two nodes, and symmetric.
func Prove_C19_length() {
	a, b := gvNode("a"), gvNode("b")
	l := length(a, b)
	gvReach("length returns")
	gvEnsure("length squared is the squared distance", l*l == gvDist2(a, b))
	gvEnsure("length is not negative", l >= 0)
	gvEnsure("length is symmetric", length(b, a) == l)
	gvEnsure("positive for distinct nodes", gvImplies(gvApart(a, b), l > 0))
}

// Direction cosines are the components of the unit vector from the first to the second node.
func Prove_C19_cosines3d() {
	a, b := gvNode("a"), gvNode("b")
	gvAssume(gvApart(a, b))
	l := length(a, b)
	cx, cy, cz := directionCosine3d(a, b)
	gvReach("cosines")
	gvEnsure("cxx", cx*l == b.X-a.X)
	gvEnsure("cxy", cy*l == b.Y-a.Y)
	gvEnsure("cxz", cz*l == b.Z-a.Z)
	gvEnsure("unit vector", cx*cx+cy*cy+cz*cz == 1)
	rx, ry, rz := directionCosine3d(b, a)
	gvEnsure("swapping the nodes changes the sign", gvAnd(rx == -cx, ry == -cy, rz == -cz))
}

// Direction cosines in the xz plane.
func Prove_C19_cosines2d() {
	a, b := gvNode("a"), gvNode("b")
	gvAssume(gvApart(a, b))
	l := length(a, b)
	s, c := sineCosine2d(a, b)
	gvReach("cosines")
	gvEnsure("cos", c*l == b.X-a.X)
	gvEnsure("sin", s*l == b.Z-a.Z)
	rs, rc := sineCosine2d(b, a)
	gvEnsure("swapping the nodes changes the sign", gvAnd(rs == -s, rc == -c))
	gvEnsure("unit vector in the plane", gvImplies(a.Y == b.Y, s*s+c*c == 1))
}

// Moving both nodes by the same vector changes nothing.
func Prove_C19_translation() {
	a, b := gvNode("a"), gvNode("b")
	gvAssume(gvApart(a, b))
	dx, dy, dz := gvReal("dx"), gvReal("dy"), gvReal("dz")
	a2 := &Node{ID: a.ID, X: a.X + dx, Y: a.Y + dy, Z: a.Z + dz}
	b2 := &Node{ID: b.ID, X: b.X + dx, Y: b.Y + dy, Z: b.Z + dz}
	s, c := sineCosine2d(a, b)
	s2, c2 := sineCosine2d(a2, b2)
	cx, cy, cz := directionCosine3d(a, b)
	cx2, cy2, cz2 := directionCosine3d(a2, b2)
	gvReach("translated")
	gvEnsure("length", length(a, b) == length(a2, b2))
	gvEnsure("2d", gvAnd(s == s2, c == c2))
	gvEnsure("3d", gvAnd(cx == cx2, cy == cy2, cz == cz2))
}

// Nodes that coincide have length zero and nothing else does.
func Prove_C19_zero() {
	a, b := gvNode("a"), gvNode("b")
	gvEnsure("zero exactly for coinciding nodes", (length(a, b) == 0) == gvNot(gvApart(a, b)))
}
