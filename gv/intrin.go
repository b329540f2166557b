package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) strArg(v Value) string {
	t, ok := v.(*Term)
	if !ok || t.kind != KConst {
		fail("constant string expected")
	}
	return t.name
}

func (x *Exec) varargs(st *State, v Value) []Value {
	s := x.force(st, v).(*SliceV)
	n, ok := isConstInt(s.len)
	if !ok {
		fail("variadic arguments of unknown number")
	}
	var r []Value
	for i := 0; i < n; i++ {
		r = append(r, x.elemAt(st, s, num(int64(i))))
	}
	return r
}

func unwrapIface(v Value) Value {
	if i, ok := v.(*IfaceV); ok && i.typ != nil {
		return unwrapIface(i.v)
	}
	return v
}

// intrinsic implements the specification vocabulary (functions named gv…)
func (x *Exec) intrinsic(st *State, c *ssa.CallCommon, name string, fn *ssa.Function, args []Value, fr *Frame) ([]Outcome, bool) {
	one := func(v Value) ([]Outcome, bool) { return []Outcome{{st, v, false}}, true }
	unit := &TupleV{}
	res := func() types.Type { return fn.Signature.Results().At(0).Type() }
	switch name {
	case "gvReal", "gvInt", "gvBool", "gvStr", "gvAny":
		nm := x.strArg(args[0])
		if name == "gvInt" {
			return one(mkApp(nm, SInt))
		}
		return one(x.gen(res(), nm, nil))
	case "gvNat":
		nm := x.strArg(args[0])
		nonneg[nm] = true
		return one(mkApp(nm, SInt))
	case "gvAssume":
		st.assume(x.boolVal(st, args[0]), true)
		return one(unit)
	case "gvFact":
		x.trusted["assumed: "+x.strArg(args[0])] = true
		st.assume(x.boolVal(st, args[1]), true)
		return one(unit)
	case "gvEnsure":
		x.oblige(st, x.strArg(args[0]), c.Pos(), fr.fn, x.boolVal(st, args[1]), false)
		return one(unit)
	case "gvReach":
		if st.quiet == 0 {
			x.covers++
			// some path must not be refutable: guards against vacuous contracts
			r := smtCheck(st.hyps(), 1500_000_000, "z3")
			x.reach[x.strArg(args[0])] = x.reach[x.strArg(args[0])] || r.status != "unsat"
		}
		return one(unit)
	case "gvForall", "gvExists":
		p := fn.Signature.Params().At(0).Type().Underlying().(*types.Signature)
		if fn.TypeArgs() != nil {
			p = fn.Signature.Params().At(0).Type().Underlying().(*types.Signature)
		}
		var vs []Value
		var atoms []*Term
		for i := 0; i < p.Params().Len(); i++ {
			t := p.Params().At(i).Type()
			if _, ok := t.Underlying().(*types.Basic); ok {
				v := freshVar("q", sortOfType(t))
				vs = append(vs, v)
				atoms = append(atoms, asAtom(v))
			} else { // structs and interfaces, flattened
				freshCtr++
				v := x.gen(t, fmt.Sprintf("q!%d", freshCtr), nil)
				ts := x.termsOf(st, v)
				m := map[*Term]*Term{}
				for _, tt := range ts {
					nv := freshVar("q", tt.sort)
					m[asAtom(tt)] = nv
					atoms = append(atoms, asAtom(nv))
				}
				vs = append(vs, substVal(v, m))
			}
		}
		b := x.pureTerm(st, args[0], vs...)
		for i := len(atoms) - 1; i >= 0; i-- {
			if name == "gvForall" {
				b = forallT(atoms[i], b)
			} else {
				b = existsT(atoms[i], b)
			}
		}
		return one(b)
	case "gvSum":
		v := freshVar("s", SInt)
		lo, hi := x.numVal(st, args[0]), x.numVal(st, args[1])
		in := and(le(lo, v), lt(v, hi))
		st2 := st.clone()
		st2.assume(in, false)
		n := len(st2.pc)
		b := x.pureTerm(st2, args[2], v)
		for _, e := range st2.pc[n:] {
			st.assume(implies(in, e.t), false)
		}
		for bb, c := range st2.heap {
			if st.heap[bb] == nil && !bb.input {
				st.setC(bb, c)
			}
		}
		return one(sumOver(lo, hi, v, b))
	case "gvIte":
		return one(mergeVal(x.boolVal(st, args[0]), args[1], args[2]))
	case "gvImplies":
		return one(implies(x.boolVal(st, args[0]), x.boolVal(st, args[1])))
	case "gvNot":
		return one(not(x.boolVal(st, args[0])))
	case "gvAnd", "gvOr":
		var ts []*Term
		for _, a := range x.varargs(st, args[0]) {
			ts = append(ts, x.boolVal(st, a))
		}
		if name == "gvAnd" {
			return one(and(ts...))
		}
		return one(or(ts...))
	case "gvIff":
		return one(iff(x.boolVal(st, args[0]), x.boolVal(st, args[1])))
	case "gvPow":
		return one(powT(x.numVal(st, args[0]), x.numVal(st, args[1])))
	case "gvReal0":
		return one(args[0])
	case "gvFnReal", "gvFnInt", "gvFnBool", "gvFnStr", "gvFnNat", "gvFnPos":
		var ts []*Term
		for _, a := range x.varargs(st, args[1]) {
			ts = append(ts, x.termsOf(st, unwrapIface(x.force(st, a)))...)
		}
		nm := x.strArg(args[0])
		s := map[string]Sort{"gvFnReal": SReal, "gvFnPos": SReal, "gvFnInt": SInt, "gvFnNat": SInt, "gvFnBool": SBool, "gvFnStr": SStr}[name]
		if name == "gvFnNat" || name == "gvFnPos" {
			nonneg[nm] = true
		}
		return one(mkApp(nm, s, ts...))
	case "gvFnBelow": // gvFnBelow(name, n, args...)
		nm := x.strArg(args[0])
		nonneg[nm] = true
		upperBounds[nm] = x.numVal(st, args[1])
		var ts []*Term
		for _, a := range x.varargs(st, args[2]) {
			ts = append(ts, x.termsOf(st, unwrapIface(x.force(st, a)))...)
		}
		return one(mkApp(nm, SInt, ts...))
	case "gvPerm", "gvPermInv": // gvPerm(name, n, i)
		nm := x.strArg(args[0])
		declareBijection(nm, x.numVal(st, args[1]))
		if name == "gvPermInv" {
			nm = bijections[nm].inv
		}
		return one(mkApp(nm, SInt, x.numVal(st, args[2])))
	case "gvNumbering": // gvNumbering(name, n): maps key i (name.node(i), name.dof(i)) to i, for i < n
		nm := x.strArg(args[0])
		n := x.numVal(st, args[1])
		node, dof, no, ord := nm+".node", nm+".dof", nm+".no", nm+".order"
		nonneg[dof], byteRange[dof] = true, true
		appRules[no] = func(a []*Term) *Term {
			k, l := asAtom(a[0]), asAtom(a[1])
			if k != nil && l != nil && k.kind == KApp && l.kind == KApp && k.name == node && l.name == dof && k.args[0] == l.args[0] {
				return wrap(k.args[0])
			}
			return nil
		}
		declareBijection(ord, n)
		b := newBase(nm, res(), false)
		st.own()
		key := func(i *Term) []*Term { return []*Term{mkApp(node, SStr, i), mkApp(dof, SInt, i)} }
		c := &MapC{
			has:  func(idx []*Term) *Term { return within(num(0), mkApp(no, SInt, idx...), n) },
			val:  func(x *Exec, s *State, idx []*Term) Value { return mkApp(no, SInt, idx...) },
			card: func([]*Term) *Term { return n },
			enum: func(_ []*Term, p *Term) []*Term { return key(mkApp(ord, SInt, p)) },
			pos:  func(_, k []*Term) *Term { return mkApp(bijections[ord].inv, SInt, mkApp(no, SInt, k...)) },
		}
		st.maps[b] = c
		m := &MapV{b: b, nilT: tFalse}
		st.setGhost(fmt.Sprintf("enumax:%p:%v", c, m.idx), tTrue)
		return one(m)
	case "gvFnAny": // gvFnAny[T](name, args...)
		var ts []*Term
		for _, a := range x.varargs(st, args[1]) {
			ts = append(ts, x.termsOf(st, unwrapIface(x.force(st, a)))...)
		}
		return one(x.gen(res(), x.strArg(args[0]), ts))
	case "gvErr":
		return one(&ErrV{x.boolVal(st, args[0])})
	case "gvVec":
		b := x.family(x.strArg(args[0])+".data", types.Typ[types.Float64], 0, true)
		return one(x.newVec(st, &VecV{b, nil, num(0), x.numVal(st, args[1])}))
	case "gvSym":
		b := x.family("sym:"+x.strArg(args[0])+".data", types.Typ[types.Float64], 0, true)
		b.symm, b.mat = true, true
		return one(x.allocNative(st, "SymDense", &SymV{b, nil, num(0), x.numVal(st, args[1])}))
	case "gvSlice": // gvSlice[T](name, n)
		s := x.gen(res(), x.strArg(args[0]), nil).(*SliceV)
		n := x.numVal(st, args[1])
		return one(&SliceV{b: s.b, idx: s.idx, off: s.off, len: n, cap: n, nilT: tFalse})
	case "gvMapOf": // gvMapOf[K,V](name, keys...): map with exactly these (distinct) keys, unknown values
		m := res().Underlying().(*types.Map)
		nm := x.strArg(args[0])
		var keys [][]*Term
		for _, k := range x.varargs(st, args[1]) {
			keys = append(keys, x.termsOf(st, k))
		}
		b := newBase(nm, res(), false)
		st.own()
		st.maps[b] = &MapC{
			has: func(idx []*Term) *Term {
				var cs []*Term
				for _, k := range keys {
					cs = append(cs, eqTerms(k, idx))
				}
				return or(cs...)
			},
			val:  func(x *Exec, s *State, idx []*Term) Value { return x.gen(m.Elem(), nm+".val", idx) },
			card: func([]*Term) *Term { return num(int64(len(keys))) }, fin: append([][]*Term{}, keys...)}
		return one(&MapV{b: b, nilT: tFalse})
	case "gvAddVec", "gvSetVec":
		v := x.vecOf(st, args[0])
		pre := st.clone()
		c := x.content(st, v.store)
		f := args[1]
		st.setC(v.store, c.bulk(func(idx []*Term) *Term {
			j := sub(idx[len(idx)-1], v.off)
			return and(x.eqIdx(pre, v.sidx, idx[:len(idx)-1]), le(num(0), j), lt(j, v.n))
		}, func(x *Exec, s *State, idx []*Term) Value {
			j := sub(idx[len(idx)-1], v.off)
			g := x.pureTerm(pre, f, j)
			if name == "gvSetVec" {
				return g
			}
			return add(x.readC(s, v.store, c, idx).(*Term), g)
		}))
		return one(unit)
	case "gvAddSym", "gvSetSym":
		v := x.symOf(st, args[0])
		pre := st.clone()
		c := x.content(st, v.store)
		f := args[1]
		st.setC(v.store, c.bulk(func(idx []*Term) *Term {
			n := len(idx)
			i, j := sub(idx[n-2], v.off), sub(idx[n-1], v.off)
			return and(x.eqIdx(pre, v.sidx, idx[:n-2]), le(num(0), j), lt(j, v.n), le(num(0), i), lt(i, v.n))
		}, func(x *Exec, s *State, idx []*Term) Value {
			n := len(idx)
			i, j := sub(idx[n-2], v.off), sub(idx[n-1], v.off)
			g := x.pureTerm(pre, f, i, j)
			if name == "gvSetSym" {
				return g
			}
			return add(x.readC(s, v.store, c, idx).(*Term), g)
		}))
		return one(unit)
	case "gvChoose":
		n, ok := isConstInt(x.numVal(st, args[1]))
		if !ok {
			fail("gvChoose needs a constant")
		}
		k := mkApp(x.strArg(args[0]), SInt)
		var r []Outcome
		for i := 0; i < n; i++ {
			s := st
			if i < n-1 {
				s = st.clone()
			}
			s.assume(eq(k, num(int64(i))), true)
			if !s.f.false {
				r = append(r, Outcome{s, num(int64(i)), false})
			}
		}
		return r, true
	case "gvUseFn":
		st.setGhost("use:"+x.strArg(args[0]), tTrue)
		return one(unit)
	case "gvSame": // identical pointers/interfaces
		return one(x.eqVal(st, unwrapIface(args[0]), unwrapIface(args[1])))
	case "gvGet":
		v := st.ghost["g:"+x.strArg(args[0])]
		if v == nil {
			v = x.zero(res())
		}
		return one(v)
	case "gvPut":
		st.setGhost("g:"+x.strArg(args[0]), args[1])
		return one(unit)
	case "gvIsKind": // gvIsKind[T](iface) : the dynamic type is T (assumed to be decidable)
		switch v := x.force(st, args[0]).(type) {
		case *SymIface:
			t := fn.TypeArgs()[0]
			x.retypes[typeRef(t).name] = t
			return one(and(not(nilOf(v)), eq(mkApp("tag", SRef, v.id), typeRef(t))))
		case *IfaceV:
			if v.typ != nil && types.Identical(v.typ, fn.TypeArgs()[0]) {
				return one(tTrue)
			}
			return one(tFalse)
		}
	case "gvPanics": // runs f; result tells whether it panicked
		f := x.force(st, args[0]).(*FuncV)
		outs := x.callStatic(st, c, f, nil, fr)
		var r []Outcome
		for _, o := range outs {
			v := tFalse
			if o.panc {
				v = tTrue
			}
			r = append(r, Outcome{o.st, v, false})
		}
		return r, true
	}
	return nil, false
}

func cosSin(st *State, a *Term) (*Term, *Term) {
	if b := asAtom(a); b != nil && b.kind == KApp && b.name == "math.Atan2" {
		y, x := b.args[0], b.args[1]
		h := sqrtT(add(mul(x, x), mul(y, y)))
		return ite(eqz(h), num(1), div(x, h)), ite(eqz(h), num(0), div(y, h))
	}
	cs, sn := mkApp("cos", SReal, a), mkApp("sin", SReal, a)
	if c := asAtom(cs); sqRules[c] == nil && !hasBoundVar(a) {
		sqRules[c] = sub(num(1), mul(sn, sn))
	}
	st.assume(eqz(sub(add(mul(cs, cs), mul(sn, sn)), num(1))), false)
	return cs, sn
}

// ---- gonum

func (x *Exec) allocNative(st *State, typ string, v Value) *PtrV {
	b := newBase(typ, x.matType(typ), false)
	b.arity = len(st.iters)
	b.depth = b.arity
	st.setC(b, &Content{init: func(*Exec, *State, []*Term) Value { return v }})
	return &PtrV{b: b, idx: x.itIdx(st)}
}
func (x *Exec) newVec(st *State, v *VecV) *PtrV { return x.allocNative(st, "VecDense", v) }

func (x *Exec) matType(n string) types.Type {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == "gonum.org/v1/gonum/mat" {
			return p.Pkg.Scope().Lookup(n).Type()
		}
	}
	fail("no gonum/mat")
	return nil
}

func (x *Exec) native(st *State, v Value) Value {
	v = x.force(st, v)
	switch p := v.(type) {
	case *IfaceV:
		return x.native(st, p.v)
	case *PtrV:
		if p.b == nil {
			return nil
		}
		return x.force(st, x.load(st, p))
	case *TransV:
		return p
	case *SubV:
		return p
	}
	return v
}
func (x *Exec) vecOf(st *State, v Value) *VecV {
	n, ok := x.native(st, v).(*VecV)
	if !ok {
		fail("vector expected, got %T", x.native(st, v))
	}
	return n
}
func (x *Exec) symOf(st *State, v Value) *SymV {
	n, ok := x.native(st, v).(*SymV)
	if !ok {
		fail("symmetric matrix expected, got %T", x.native(st, v))
	}
	return n
}

func (x *Exec) floatArr(st *State, name string, init func(*Exec, *State, []*Term) Value) (*Base, []*Term) {
	b := x.allocArr(st, name, types.Typ[types.Float64], init)
	return b, x.itIdx(st)
}

func zeroInit(*Exec, *State, []*Term) Value { return num(0) }

func (x *Exec) freshArr(st *State, name string) (*Base, []*Term) {
	freshCtr++
	nm := fmt.Sprintf("%s!%d", name, freshCtr)
	return x.floatArr(st, name, func(x *Exec, s *State, idx []*Term) Value { return mkApp(nm, SReal, idx...) })
}

// matrix view: dims and element function on a snapshot
type matView struct {
	r, c *Term
	at   func(i, j *Term) *Term
}

func (x *Exec) view(st0 *State, v Value) *matView {
	if m, ok := v.(*matView); ok {
		return m
	}
	// the element function outlives this state: later decisions must not leak into it
	st := st0.clone()
	switch m := x.native(st, v).(type) {
	case *VecV:
		c := x.content(st, m.store)
		return &matView{m.n, num(1), func(i, j *Term) *Term {
			return x.readC(st, m.store, c, append(append([]*Term{}, m.sidx...), add(m.off, i))).(*Term)
		}}
	case *SymV:
		c := x.content(st, m.store)
		return &matView{m.n, m.n, func(i, j *Term) *Term {
			return x.readC(st, m.store, c, append(append([]*Term{}, m.sidx...), add(m.off, i), add(m.off, j))).(*Term)
		}}
	case *DenseV:
		c := x.content(st, m.store)
		return &matView{m.r, m.c, func(i, j *Term) *Term {
			return x.readC(st, m.store, c, m.at(i, j)).(*Term)
		}}
	case *SubV:
		o := x.view(st, m.of)
		return &matView{m.r, m.c, func(i, j *Term) *Term { return o.at(add(m.i, i), add(m.j, j)) }}
	case *TransV:
		o := x.view(st, m.of)
		return &matView{o.c, o.r, func(i, j *Term) *Term { return o.at(j, i) }}
	}
	fail("matrix expected, got %T", x.native(st, v))
	return nil
}

// setVecAll overwrites vector elements with f evaluated on a snapshot
func (x *Exec) setVecAll(st *State, v *VecV, f func(i *Term) *Term) {
	pre := st.clone()
	_ = pre
	sl := &SliceV{b: v.store, idx: v.sidx, off: v.off, len: v.n}
	x.bulkSlice(st, sl, v.n, func(x *Exec, s *State, i *Term) Value { return f(i) })
}

func (x *Exec) model(st *State, c *ssa.CallCommon, name string, fn *ssa.Function, args []Value, fr *Frame) ([]Outcome, bool) {
	one := func(v Value) ([]Outcome, bool) { return []Outcome{{st, v, false}}, true }
	unit := &TupleV{}
	nv := func(i int) *Term { return x.numVal(st, args[i]) }
	ob := func(nm string, t *Term) {
		if c != nil {
			x.oblige(st, nm, c.Pos(), fr.fn, t, true)
		}
	}
	tr := func(s string) { x.trusted[s] = true }
	inRange := func(i, n *Term) *Term { return and(le(num(0), i), lt(i, n)) }
	const M = "gonum.org/v1/gonum/mat."
	switch name {
	case "fmt.Errorf", "errors.New":
		return one(&ErrV{tTrue})
	case "fmt.Sprintf", "fmt.Sprint", "strings.Join":
		tr("string formatting yields unspecified strings")
		return one(freshIt(st, "str", SStr))
	case "fmt.Sprintln":
		return one(freshIt(st, "str", SStr))
	case "log.Printf", "log.Print", "log.Println":
		return one(unit)
	case "log.Panicf", "log.Panic", "log.Fatal", "log.Fatalf":
		return []Outcome{{st, &IfaceV{types.Typ[types.String], freshIt(st, "str", SStr)}, true}}, true
	case "encoding/json.Unmarshal":
		return x.jsonUnmarshal(st, args)
	case "errors.Join":
		var ts []*Term
		s := x.force(st, args[0]).(*SliceV)
		if n, ok := isConstInt(s.len); ok {
			for i := 0; i < n; i++ {
				ts = append(ts, not(nilOf(x.elemAt(st, s, num(int64(i))))))
			}
			return one(&ErrV{or(ts...)})
		}
		iv := freshVar("i", SInt)
		e := not(nilOf(x.elemAt(st, s, iv)))
		return one(&ErrV{existsT(asAtom(iv), and(inRange(iv, s.len), e))})
	case "errors.Unwrap":
		return one(&ErrV{and(not(nilOf(args[0])), freshIt(st, "unwrap", SBool))})
	case "math.Pow":
		return one(powT(nv(0), nv(1)))
	case "math.Sqrt":
		ob("sqrt-domain", le(num(0), nv(0)))
		return one(sqrtT(nv(0)))
	case "math.Hypot":
		return one(sqrtT(add(mul(nv(0), nv(0)), mul(nv(1), nv(1)))))
	case "math.Abs":
		return one(absT(nv(0)))
	case "math.Max", "math.Min":
		a, b := nv(0), nv(1)
		if name == "math.Max" {
			return one(ite(lt(a, b), b, a))
		}
		return one(ite(lt(a, b), a, b))
	case "math.Cos", "math.Sin":
		tr("math.Cos/Sin satisfy cos²+sin²=1")
		cs, sn := cosSin(st, nv(0))
		if name == "math.Cos" {
			return one(cs)
		}
		return one(sn)
	case "math.Sincos":
		cs, sn := cosSin(st, nv(0))
		return one(&TupleV{[]Value{sn, cs}})
	case "math.IsNaN", "math.IsInf":
		return one(tFalse)
	case "gonum.org/v1/gonum/spatial/r3.Norm":
		v := x.force(st, args[0]).(*StructV)
		a, b, d := v.fs[0].(*Term), v.fs[1].(*Term), v.fs[2].(*Term)
		tr("r3.Norm is the Euclidean norm")
		return one(sqrtT(add(mul(a, a), mul(b, b), mul(d, d))))
	case "gonum.org/v1/gonum/floats/scalar.EqualWithinAbs":
		return one(withinAbs(nv(0), nv(1), nv(2)))
	case "gonum.org/v1/gonum/floats/scalar.EqualWithinRel", "gonum.org/v1/gonum/floats/scalar.EqualWithinAbsOrRel":
		a, b := nv(0), nv(1)
		k := len(args) - 1
		aa, bb := absT(a), absT(b)
		rel := or(eq(a, b), le(absT(sub(a, b)), mul(nv(k), ite(lt(aa, bb), bb, aa))))
		if k == 3 {
			rel = or(withinAbs(a, b, nv(2)), rel)
		}
		return one(rel)
	case "cmp.Compare", "strings.Compare":
		a, b := nv(0), nv(1)
		var l, g *Term
		if a.sort == SStr || b.sort == SStr {
			l, g = strLt(a, b), strLt(b, a)
		} else {
			l, g = lt(a, b), lt(b, a)
		}
		return one(ite(l, num(-1), ite(g, num(1), num(0))))
	case "cmp.Less":
		a, b := nv(0), nv(1)
		if a.sort == SStr {
			return one(strLt(a, b))
		}
		return one(lt(a, b))
	case "slices.Sort":
		s := x.force(st, args[0]).(*SliceV)
		x.sortSlice(st, s, func(st *State, a, b Value) *Term {
			p, q := a.(*Term), b.(*Term)
			if p.sort == SStr {
				return strLt(p, q)
			}
			return lt(p, q)
		})
		return one(unit)
	case "slices.SortFunc", "slices.SortStableFunc":
		s := x.force(st, args[0]).(*SliceV)
		x.sortSlice(st, s, func(st *State, a, b Value) *Term { return ltz(x.pureTerm(st, args[1], a, b)) })
		return one(unit)
	case "slices.Delete":
		s := x.force(st, args[0]).(*SliceV)
		i, j := nv(1), nv(2)
		ob("slice-bounds", and(le(num(0), i), le(i, j), le(j, s.len)))
		if i == j || s.b == nil {
			return one(s)
		}
		cc := x.content(st, s.b)
		old := x.elemOf(cc, s)
		n := sub(s.len, sub(j, i))
		if k, ok := isConstInt(s.len); ok && k <= 32 {
			// in place, as the library does
			var vs []Value
			for m := 0; m < k; m++ {
				p := num(int64(m))
				vs = append(vs, mergeVal(lt(p, i), old(x, st, p), old(x, st, add(p, sub(j, i)))))
			}
			zv := x.zero(s.b.elem)
			for m := 0; m < k; m++ {
				g := lt(num(int64(m)), n)
				if d := x.decide(st, g); d != nil {
					g = d
				}
				v := mergeVal(g, vs[m], zv)
				x.writeAt(st, s.b, append(append([]*Term{}, s.idx...), add(s.off, num(int64(m)))), v)
			}
			return one(&SliceV{b: s.b, idx: s.idx, off: s.off, len: n, cap: s.cap, nilT: s.nilT})
		}
		b := x.allocArr(st, "delete", s.b.elem, func(x *Exec, s2 *State, idx []*Term) Value {
			p := idx[len(idx)-1]
			g := lt(p, i)
			if d := x.decide(s2, g); d != nil {
				g = d
			}
			if g == tTrue {
				return old(x, s2, p)
			}
			if g == tFalse {
				return old(x, s2, add(p, sub(j, i)))
			}
			return mergeVal(g, old(x, s2, p), old(x, s2, add(p, sub(j, i))))
		})
		b.del = &delInfo{s, i}
		return one(&SliceV{b: b, idx: x.itIdx(st), off: num(0), len: n, cap: s.cap, nilT: s.nilT})
	case "slices.Clone":
		s := x.force(st, args[0]).(*SliceV)
		if s.b == nil {
			return one(s)
		}
		old := x.elemOf(x.content(st, s.b), s)
		b := x.allocArr(st, "clone", s.b.elem, func(x *Exec, s2 *State, idx []*Term) Value { return old(x, s2, idx[len(idx)-1]) })
		return one(&SliceV{b: b, idx: x.itIdx(st), off: num(0), len: s.len, cap: s.len, nilT: nilOf(s)})
	case M + "NewVecDense":
		n := nv(0)
		ob("matrix-dimension", lt(num(0), n))
		d := x.force(st, args[1]).(*SliceV)
		if d.b != nil {
			ob("matrix-data", eq(d.len, n))
			return one(x.newVec(st, &VecV{d.b, d.idx, d.off, n}))
		}
		b, idx := x.floatArr(st, "vecdata", zeroInit)
		return one(x.newVec(st, &VecV{b, idx, num(0), n}))
	case M + "NewSymDense":
		n := nv(0)
		if !isNilConst(x.force(st, args[1])) {
			return x.modelLib(st, c, name, fn, args, fr)
		}
		ob("matrix-dimension", lt(num(0), n))
		b, idx := x.floatArr(st, "symdata", zeroInit)
		b.symm, b.mat = true, true
		return one(x.allocNative(st, "SymDense", &SymV{b, idx, num(0), n}))
	case M + "NewDense":
		if !isNilConst(x.force(st, args[2])) {
			return x.modelLib(st, c, name, fn, args, fr)
		}
		ob("matrix-dimension", and(lt(num(0), nv(0)), lt(num(0), nv(1))))
		b, idx := x.floatArr(st, "densedata", zeroInit)
		b.mat = true
		return one(x.allocNative(st, "Dense", &DenseV{b, idx, nv(0), nv(1), nil, nil}))
	case M + "VecDenseCopyOf":
		v := x.vecOf(st, args[0])
		cc := x.content(st, v.store)
		b, idx := x.floatArr(st, "veccopy", func(x *Exec, s *State, idx []*Term) Value {
			return x.readC(s, v.store, cc, append(append([]*Term{}, v.sidx...), add(v.off, idx[len(idx)-1])))
		})
		return one(x.newVec(st, &VecV{b, idx, num(0), v.n}))
	}
	if strings.HasPrefix(name, "(*"+M) || strings.HasPrefix(name, "("+M) {
		meth := name[strings.LastIndexByte(name, '.')+1:]
		if strings.Contains(name, M+"Cholesky)") {
			return x.cholesky(st, meth, args, fr)
		}
		tr("gonum mat elementwise semantics")
		switch meth {
		case "SymmetricDim":
			return one(x.symOf(st, args[0]).n)
		case "Len":
			if _, zero := x.native(st, args[0]).(*OpaqueV); zero {
				return one(num(0))
			}
			return one(x.view(st, args[0]).r)
		case "Dims":
			v := x.view(st, args[0])
			return one(&TupleV{[]Value{v.r, v.c}})
		case "IsEmpty":
			if _, zero := x.native(st, args[0]).(*OpaqueV); zero {
				return one(tTrue)
			}
			return one(eqz(x.view(st, args[0]).r))
		case "At":
			v := x.view(st, args[0])
			ob("matrix-index", and(inRange(nv(1), v.r), inRange(nv(2), v.c)))
			return one(v.at(nv(1), nv(2)))
		case "AtVec":
			v := x.view(st, args[0])
			ob("vector-index", inRange(nv(1), v.r))
			return one(v.at(nv(1), num(0)))
		case "SetVec":
			v := x.vecOf(st, args[0])
			ob("vector-index", inRange(nv(1), v.n))
			x.writeAt(st, v.store, append(append([]*Term{}, v.sidx...), add(v.off, nv(1))), nv(2))
			return one(unit)
		case "SetSym":
			v := x.symOf(st, args[0])
			ob("matrix-index", and(inRange(nv(1), v.n), inRange(nv(2), v.n)))
			x.writeAt(st, v.store, append(append([]*Term{}, v.sidx...), add(v.off, nv(1)), add(v.off, nv(2))), nv(3))
			return one(unit)
		case "Set":
			v, ok := x.native(st, args[0]).(*DenseV)
			if !ok {
				fail("Set on %T", x.native(st, args[0]))
			}
			ob("matrix-index", and(inRange(nv(1), v.r), inRange(nv(2), v.c)))
			x.writeAt(st, v.store, v.at(nv(1), nv(2)), nv(3))
			return one(unit)
		case "MulVec":
			a, b := x.view(st, args[1]), x.view(st, args[2])
			ob("matrix-shape", eq(a.c, b.r))
			d := x.destVec(st, args[0], a.r, ob)
			x.setVecAll(st, d, func(i *Term) *Term {
				k := freshVar("m", SInt)
				return sumRange(num(0), a.c, k, mul(a.at(i, k), b.at(k, num(0))))
			})
			return one(unit)
		case "AddVec", "SubVec", "MulElemVec":
			a, b := x.view(st, args[1]), x.view(st, args[2])
			ob("matrix-shape", eq(a.r, b.r))
			d := x.destVec(st, args[0], a.r, ob)
			x.setVecAll(st, d, func(i *Term) *Term {
				p, q := a.at(i, num(0)), b.at(i, num(0))
				switch meth {
				case "AddVec":
					return add(p, q)
				case "SubVec":
					return sub(p, q)
				}
				return mul(p, q)
			})
			return one(unit)
		case "AddScaledVec":
			a, b := x.view(st, args[1]), x.view(st, args[3])
			al := nv(2)
			ob("matrix-shape", eq(a.r, b.r))
			d := x.destVec(st, args[0], a.r, ob)
			x.setVecAll(st, d, func(i *Term) *Term { return add(a.at(i, num(0)), mul(al, b.at(i, num(0)))) })
			return one(unit)
		case "ScaleVec":
			a := x.view(st, args[2])
			al := nv(1)
			d := x.destVec(st, args[0], a.r, ob)
			x.setVecAll(st, d, func(i *Term) *Term { return mul(al, a.at(i, num(0))) })
			return one(unit)
		case "CopyVec":
			d := x.vecOf(st, args[0])
			a := x.view(st, args[1])
			n := ite(lt(a.r, d.n), a.r, d.n)
			x.bulkSlice(st, &SliceV{b: d.store, idx: d.sidx, off: d.off, len: d.n}, n, func(x *Exec, s *State, i *Term) Value { return a.at(i, num(0)) })
			return one(n)
		case "Zero":
			if d, ok := x.native(st, args[0]).(*VecV); ok {
				x.setVecAll(st, d, func(*Term) *Term { return num(0) })
				return one(unit)
			}
		case "Reset":
			p := x.force(st, args[0])
			if i, ok := p.(*IfaceV); ok {
				p = i.v
			}
			pp := p.(*PtrV)
			switch d := x.native(st, p).(type) {
			case *VecV:
				x.store(st, pp, &VecV{d.store, d.sidx, num(0), num(0)})
			case *SymV:
				x.store(st, pp, &SymV{d.store, d.sidx, num(0), num(0)})
			case *DenseV:
				x.store(st, pp, &DenseV{d.store, d.sidx, num(0), num(0), nil, nil})
			case *OpaqueV:
			default:
				fail("Reset of %T", d)
			}
			return one(unit)
		case "ReuseAsVec", "ReuseAsSym", "ReuseAs":
			// zeroed content in storage that may still be shared with earlier views: a fresh
			// store would hide sharing, so the storage is kept when it may be large enough
			pp := x.force(st, args[0]).(*PtrV)
			switch d := x.native(st, args[0]).(type) {
			case *OpaqueV:
				switch meth {
				case "ReuseAsVec":
					x.destVec(st, args[0], nv(1), ob)
				case "ReuseAsSym":
					x.destSym(st, args[0], nv(1), ob)
				default:
					x.destDense(st, args[0], nv(1), nv(2), ob)
				}
			case *VecV:
				ob("reuse-empty", eqz(d.n))
				ob("matrix-dimension", lt(num(0), nv(1)))
				n := &VecV{d.store, d.sidx, num(0), nv(1)}
				x.store(st, pp, n)
				x.setVecAll(st, n, func(*Term) *Term { return num(0) })
			case *SymV:
				ob("reuse-empty", eqz(d.n))
				ob("matrix-dimension", lt(num(0), nv(1)))
				x.store(st, pp, &SymV{d.store, d.sidx, num(0), nv(1)})
				st.setC(d.store, &Content{init: zeroInit})
			case *DenseV:
				ob("reuse-empty", eqz(d.r))
				ob("matrix-dimension", and(lt(num(0), nv(1)), lt(num(0), nv(2))))
				x.store(st, pp, &DenseV{d.store, d.sidx, nv(1), nv(2), nil, nil})
				st.setC(d.store, &Content{init: zeroInit})
			}
			return one(unit)
		case "SliceVec":
			d := x.vecOf(st, args[0])
			ob("slice-bounds", and(le(num(0), nv(1)), lt(nv(1), nv(2)), le(nv(2), d.n)))
			p := x.newVec(st, &VecV{d.store, d.sidx, add(d.off, nv(1)), sub(nv(2), nv(1))})
			return one(&IfaceV{types.NewPointer(x.matType("VecDense")), p})
		case "SliceSym":
			d := x.symOf(st, args[0])
			ob("slice-bounds", and(le(num(0), nv(1)), lt(nv(1), nv(2)), le(nv(2), d.n)))
			p := x.allocNative(st, "SymDense", &SymV{d.store, d.sidx, add(d.off, nv(1)), sub(nv(2), nv(1))})
			return one(&IfaceV{types.NewPointer(x.matType("SymDense")), p})
		case "T":
			return one(&TransV{args[0]})
		case "TVec":
			return one(&TransV{args[0]})
		}
		if outs, ok := x.modelLib(st, c, name, fn, args, fr); ok {
			return outs, true
		}
		fail("no model for %s", name)
	}
	return x.modelLib(st, c, name, fn, args, fr)
}

type delInfo struct {
	prev *SliceV
	i    *Term
}

// cholesky: gonum's factorisation either panics, reports failure, or yields a factorisation with
// which the system can be solved; this contract is trusted
func (x *Exec) cholesky(st *State, meth string, args []Value, fr *Frame) ([]Outcome, bool) {
	x.trusted["mat.Cholesky: Factorize/SolveVecTo may panic, fail, or solve the system"] = true
	recv := x.force(st, args[0]).(*PtrV)
	key := "chol:" + recv.b.name
	switch meth {
	case "Factorize":
		p := st.clone()
		a := st.clone()
		b := st
		pv := freshIt(st, "cholpanic", SBool)
		okv := freshIt(st, "cholok", SBool)
		p.assume(pv, true)
		a.assume(and(not(pv), okv), true)
		b.assume(and(not(pv), not(okv)), true)
		a.setGhost(key, x.view(a, args[1]))
		return []Outcome{{p, &IfaceV{types.Typ[types.String], mkStr("panic")}, true}, {a, tTrue, false}, {b, tFalse, false}}, true
	case "SolveVecTo":
		mv := st.ghost[key]
		if mv == nil {
			fail("SolveVecTo before Factorize")
		}
		p := st.clone()
		e := st.clone()
		pv, ev := freshIt(st, "solvepanic", SBool), freshIt(st, "solveerr", SBool)
		p.assume(pv, true)
		e.assume(and(not(pv), ev), true)
		st.assume(and(not(pv), not(ev)), true)
		m, b := x.view(st, mv), x.view(st, args[2])
		d := x.vecOf(st, args[1])
		rhs := func(i *Term) *Term { return b.at(i, num(0)) }
		i := freshVar("i", SInt)
		ri := rhs(i)
		freshCtr++
		nm := fmt.Sprintf("sol!%d", freshCtr)
		its := x.itIdx(st)
		sol := func(i *Term) *Term { return mkApp(nm, SReal, append(append([]*Term{}, its...), i)...) }
		k := freshVar("k", SInt)
		lhs := sumRange(num(0), m.c, k, mul(m.at(i, k), sol(k)))
		st.assume(forallT(asAtom(i), implies(and(le(num(0), i), lt(i, m.r)), eq(lhs, ri))), false)
		st.assume(and(eq(d.n, m.r), eq(b.r, m.r)), false)
		x.setVecAll(st, d, sol)
		// on error the destination is unspecified
		x.havocVec(e, x.vecOf(e, args[1]))
		x.havocVec(p, x.vecOf(p, args[1]))
		return []Outcome{{p, &IfaceV{types.Typ[types.String], mkStr("panic")}, true}, {st, &ErrV{tFalse}, false}, {e, &ErrV{tTrue}, false}}, true
	case "Det":
		return []Outcome{{st, freshIt(st, "det", SReal), false}}, true
	}
	fail("no model for Cholesky.%s", meth)
	return nil, false
}

func (x *Exec) havocVec(st *State, v *VecV) {
	freshCtr++
	nm := fmt.Sprintf("havoc!%d", freshCtr)
	x.setVecAll(st, v, func(i *Term) *Term { return mkApp(nm, SReal, i) })
}

// jsonUnmarshal decodes the description a contract has announced (gvPut "json.<key>") into the
// destination: struct fields by their JSON name, maps as a whole.
func (x *Exec) jsonUnmarshal(st *State, args []Value) ([]Outcome, bool) {
	x.trusted["encoding/json decodes a document into the description it spells, or fails"] = true
	if st.ghost["g:json.error"] != nil {
		return []Outcome{{st, &ErrV{tTrue}, false}}, true
	}
	v, ok := x.force(st, args[1]).(*IfaceV)
	if !ok || v.typ == nil {
		fail("json.Unmarshal into %T", args[1])
	}
	p := x.force(st, v.v).(*PtrV)
	t := deref(v.typ)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			key := strings.ToLower(f.Name())
			if tag := reflect.StructTag(u.Tag(i)).Get("json"); tag != "" {
				if n, _, _ := strings.Cut(tag, ","); n == "-" {
					continue
				} else if n != "" {
					key = strings.ToLower(n)
				}
			}
			if g := st.ghost["g:json."+key]; g != nil {
				x.store(st, &PtrV{b: p.b, idx: p.idx, path: append(append([]int{}, p.path...), i)}, g)
			}
		}
	case *types.Map:
		key := "json.top"
		if _, ok := u.Elem().Underlying().(*types.Basic); ok {
			key = "json.numbers"
		}
		g := st.ghost["g:"+key]
		if g == nil {
			fail("no JSON description of a %v", t)
		}
		x.store(st, p, g)
	default:
		fail("json.Unmarshal into %v", t)
	}
	return []Outcome{{st, &ErrV{tFalse}, false}}, true
}
