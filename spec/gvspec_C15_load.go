package deflect

// Which of the two forms a Neumann entry has is decided by its keys.

// gv:bounded=small-document
func Prove_C15_neumann_form() {
	kind, degree := gvBool("hasKind"), gvBool("hasDegree")
	top := map[string]any{}
	if kind {
		top["kind"] = gvStr("kind")
	}
	if degree {
		top["degree"] = gvStr("degree")
	}
	if gvBool("force") {
		top["Fx"] = gvReal("Fx")
	}
	gvPut("json.top", top)
	nodal := map[string]float64{"Fx": gvReal("Fx")}
	gvPut("json.numbers", nodal)
	gvPut("json.kind", gvStr("kind"))
	gvPut("json.degree", gvStr("degree"))
	gvPut("json.values", []float64{gvReal("v0"), gvReal("v1")})
	gvPut("json.position", []float64{gvReal("p0")})
	var nd neumannDescription
	err := nd.UnmarshalJSON([]byte("{...}"))
	gvReach("decoded")
	gvEnsure("no error", err == nil)
	if kind && degree {
		gvEnsure("an element load", gvAnd(len(nd.Nodal) == 0, nd.Element.Kind == gvStr("kind"), nd.Element.Degree == gvStr("degree"), len(nd.Element.Values) == 2, len(nd.Element.Position) == 1))
		gvEnsure("values", gvAnd(nd.Element.Values[0] == gvReal("v0"), nd.Element.Values[1] == gvReal("v1"), nd.Element.Position[0] == gvReal("p0")))
	} else {
		v, ok := nd.Nodal["Fx"]
		gvEnsure("nodal loads", gvAnd(len(nd.Nodal) == 1, ok, v == gvReal("Fx"), nd.Element.Degree == ""))
	}
}

// gv:bounded=small-document
func Prove_C15_neumann_undecodable() {
	gvPut("json.error", true)
	var nd neumannDescription
	gvEnsure("error", nd.UnmarshalJSON([]byte("{...}")) != nil)
	gvReach("decoded")
}
