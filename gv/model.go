package main

import (
	"fmt"
	"go/types"
	"math/big"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func shortPath(f string) string {
	if strings.HasPrefix(f, "/repo/") {
		return f[6:]
	}
	return filepath.Base(f)
}
func isSpecFile(f string) bool { return strings.Contains(filepath.Base(f), "gvspec") }

type methodRef struct {
	name string
	typ  types.Type
}

func (x *Exec) callTarget(st *State, fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := x.get(fr, c.Value)
		if it, ok := recv.(*IteV); ok {
			recv = x.force(st, it)
		}
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, x.get(fr, a))
		}
		return &methodRef{c.Method.Name(), c.Value.Type()}, args
	}
	for _, a := range c.Args {
		args = append(args, x.get(fr, a))
	}
	f := x.get(fr, c.Value)
	return f, args
}

func (x *Exec) invoke(st *State, c *ssa.CallCommon, fv Value, args []Value, fr *Frame) []Outcome {
	switch f := x.force(st, fv).(type) {
	case *methodRef:
		return x.invokeMethod(st, c, f, args, fr)
	case *FuncV:
		if f.bound != "" {
			return []Outcome{{st, x.builtin(st, c, f.bound, args, fr), false}}
		}
		if f.fn == nil {
			x.oblige(st, "nil-func-call", c.Pos(), fr.fn, tFalse, true)
			return nil
		}
		return x.callStatic(st, c, f, args, fr)
	}
	fail("call of %T", fv)
	return nil
}

func (x *Exec) invokeMethod(st *State, c *ssa.CallCommon, m *methodRef, args []Value, fr *Frame) []Outcome {
	recv := x.force(st, args[0])
	switch r := recv.(type) {
	case *IfaceV:
		if r.typ == nil {
			x.oblige(st, "nil-deref", c.Pos(), fr.fn, tFalse, true)
			return nil
		}
		sel := x.prog.MethodSets.MethodSet(r.typ).Lookup(x.pkg.Pkg, m.name)
		if sel == nil {
			sel = x.prog.MethodSets.MethodSet(r.typ).Lookup(nil, m.name)
		}
		if sel == nil {
			fail("method %s of %v", m.name, r.typ)
		}
		fn := x.prog.MethodValue(sel)
		a := append([]Value{r.v}, args[1:]...)
		return x.callStatic(st, c, &FuncV{fn: fn}, a, fr)
	case *SymIface:
		if n := nilOf(r); n != tFalse {
			x.oblige(st, "nil-deref", c.Pos(), fr.fn, not(n), true)
		}
		in := ""
		if n, ok := types.Unalias(r.itype).(*types.Named); ok {
			in = n.Obj().Name()
		}
		// known dynamic type
		tag := st.f.simp(mkApp("tag", SRef, r.id))
		if tag.kind == KConst {
			if t, ok := x.retypes[tag.name]; ok {
				return x.invokeMethod(st, c, m, append([]Value{&IfaceV{t, x.objPtr(r.id, t)}}, args[1:]...), fr)
			}
		}
		if u := x.uses["gvUse_"+in+"_"+m.name]; u != nil {
			return x.callUse(st, u, append([]Value{r}, args[1:]...))
		}
		// pure observers of opaque objects are functions of the object's identity
		if in == "CrossSection" || m.name == "ID" || m.name == "NumNodes" {
			sig := c.Method.Type().(*types.Signature)
			x.trusted["observer "+in+"."+m.name+" is a function of the object"] = true
			return []Outcome{{st, x.gen(sig.Results().At(0).Type(), in+"."+m.name, []*Term{r.id}), false}}
		}
		fail("call of %s.%s on unknown object", in, m.name)
	case *ErrV:
		if m.name == "Error" {
			return []Outcome{{st, freshIt(st, "errstr", SStr), false}}
		}
	case *PtrV: // mat interfaces hold raw pointers via TransV etc
	case *TransV, *SubV:
		if outs, ok := x.model(st, c, "(gonum.org/v1/gonum/mat.Matrix)."+m.name, nil, args, fr); ok {
			return outs
		}
	}
	fail("invoke %s on %T", m.name, recv)
	return nil
}

func freshIt(st *State, p string, s Sort) *Term {
	freshCtr++
	return mkApp(fmt.Sprintf("%s!%d", p, freshCtr), s, st.iters...)
}

func freshNat(st *State, p string) *Term {
	freshCtr++
	n := fmt.Sprintf("%s!%d", p, freshCtr)
	nonneg[n] = true
	return mkApp(n, SInt, st.iters...)
}

func (x *Exec) callUse(st *State, u *ssa.Function, args []Value) []Outcome {
	st.spec++
	outs := x.callFn(st, u, args, nil)
	for _, o := range outs {
		o.st.spec--
	}
	return outs
}

var execPkgs = map[string]bool{
	"slices": true, "sort": true, "cmp": true, "maps": true, "gonum.org/v1/gonum/spatial/r3": true,
}

func (x *Exec) callStatic(st *State, c *ssa.CallCommon, f *FuncV, args []Value, fr *Frame) []Outcome {
	fn := f.fn
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if fn.Synthetic != "" && strings.Contains(fn.Synthetic, "bound method") {
		// execute wrapper body
	}
	if fn.Pkg == x.pkg || fn.Pkg == nil || (fn.Origin() != nil && fn.Origin().Pkg == x.pkg) {
		base := fn.Name()
		if i := strings.IndexByte(base, '['); i > 0 {
			base = base[:i]
		}
		if strings.HasPrefix(base, "gv") && fn.Parent() == nil {
			if outs, ok := x.intrinsic(st, c, base, fn, args, fr); ok {
				return outs
			}
		}
	}
	if outs, ok := x.model(st, c, name, fn, args, fr); ok {
		return outs
	}
	pk := ""
	p := fn
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Origin() != nil {
		p = p.Origin()
	}
	if p.Pkg != nil {
		pk = p.Pkg.Pkg.Path()
	} else if p.Object() != nil && p.Object().Pkg() != nil {
		pk = p.Object().Pkg().Path()
	}
	if p.Pkg != x.pkg && !execPkgs[pk] && !(pk == x.pkg.Pkg.Path()) && pk != "" {
		if strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "promot") {
			// fallthrough: generated code
		} else {
			fail("no model for %s", name)
		}
	}
	if u := x.uses["gvUseFn_"+fn.Name()]; u != nil && st.ghost["use:"+fn.Name()] != nil && st.ghost["verify"] == nil {
		return x.callUse(st, u, args)
	}
	pre := st.clone()
	outs := x.callFn(st, fn, args, f.bindings)
	return x.mergePure(pre, outs)
}

// mergePure joins the outcomes of a call that left the heap alone
func (x *Exec) mergePure(pre *State, outs []Outcome) []Outcome {
	if len(outs) < 2 || len(outs) > 64 {
		return outs
	}
	for _, o := range outs {
		if o.panc || !scalarVal(o.v) || !sameHeap(pre, o.st) || len(o.st.iters) != len(pre.iters) {
			return outs
		}
	}
	v, st := x.joinOutcomes(pre, outs)
	return []Outcome{{st, v, false}}
}

func (x *Exec) joinOutcomes(pre *State, outs []Outcome) (Value, *State) {
	st := pre
	n := len(pre.pc)
	var v Value
	var gs []*Term
	for k := len(outs) - 1; k >= 0; k-- {
		o := outs[k]
		var br []*Term
		for _, e := range o.st.pc[n:] {
			if e.branch {
				br = append(br, e.t)
			}
		}
		g := and(br...)
		gs = append(gs, g)
		for _, e := range o.st.pc[n:] {
			if !e.branch {
				st.assume(implies(g, e.t), false)
			}
		}
		if v == nil {
			v = o.v
		} else {
			v = mergeVal(g, o.v, v)
		}
	}
	for _, g := range gs {
		if !quantFree(g) { // one of the ways was taken
			st.assume(or(gs...), false)
			break
		}
	}
	return v, st
}

func scalarVal(v Value) bool {
	switch t := v.(type) {
	case *Term, *ErrV:
		return true
	case *TupleV:
		for _, e := range t.vs {
			if !scalarVal(e) {
				return false
			}
		}
		return true
	}
	return false
}

func sameHeap(a, b *State) bool {
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	for k, v := range a.maps {
		if b.maps[k] != v {
			return false
		}
	}
	for k, v := range b.heap { // lazily materialised input objects must be unchanged too
		if k.input && a.heap[k] == nil && v != k.lazy {
			return false
		}
	}
	for k := range b.maps {
		if k.input && a.maps[k] == nil {
			return false
		}
	}
	return true
}

// callPure evaluates a closure as a mathematical function on the given state
func (x *Exec) callPure(st *State, fv Value, args []Value) Value {
	f, ok := x.force(st, fv).(*FuncV)
	if !ok || f.fn == nil {
		fail("function value expected, got %T", fv)
	}
	s := st.clone()
	s.spec++
	pre := s.clone()
	var outs []Outcome
	outs = x.callStatic(s, nil, f, args, &Frame{fn: f.fn})
	var live []Outcome
	for _, o := range outs {
		if !o.panc {
			live = append(live, o)
		}
	}
	if len(live) == 0 {
		fail("function %s has no outcome", f.fn)
	}
	v, js := x.joinOutcomes(pre, live)
	// keep new facts (axioms of witnesses) and objects
	n := len(st.pc)
	for _, e := range js.pc[min(n, len(js.pc)):] {
		st.assume(e.t, false)
	}
	for _, o := range live {
		for b, c := range o.st.heap {
			if st.heap[b] == nil && !b.input {
				st.setC(b, c)
			}
		}
		for b, c := range o.st.maps {
			if st.maps[b] == nil && !b.input {
				st.own()
				st.maps[b] = c
			}
		}
	}
	return v
}

func (x *Exec) pureTerm(st *State, fv Value, args ...Value) *Term {
	v := x.callPure(st, fv, args)
	return x.numOrBool(v)
}
func (x *Exec) numOrBool(v Value) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case *ErrV:
		return t.isErr
	case *IteV:
		return ite(t.c, x.numOrBool(t.a), x.numOrBool(t.b))
	}
	fail("scalar expected, got %T", v)
	return nil
}

// termsOf flattens a value into identifying terms
func (x *Exec) termsOf(st *State, v Value) []*Term {
	switch t := v.(type) {
	case *Term:
		return []*Term{t}
	case *StructV:
		var r []*Term
		for _, f := range t.fs {
			r = append(r, x.termsOf(st, f)...)
		}
		return r
	case *ArrV:
		var r []*Term
		for _, f := range t.es {
			r = append(r, x.termsOf(st, f)...)
		}
		return r
	case *SymIface:
		return []*Term{t.id}
	case *IfaceV:
		if t.typ == nil {
			return []*Term{mkRefC("nil")}
		}
		return x.termsOf(st, t.v)
	case *PtrV:
		if t.b == nil {
			return []*Term{mkRefC("nil")}
		}
		return []*Term{x.ptrId(t)}
	case *IteV:
		a, b := x.termsOf(st, t.a), x.termsOf(st, t.b)
		if len(a) == len(b) {
			r := make([]*Term, len(a))
			for i := range a {
				r[i] = ite(t.c, a[i], b[i])
			}
			return r
		}
	}
	fail("can't flatten %T", v)
	return nil
}

func (x *Exec) flatKey(st *State, v Value) []*Term { return x.termsOf(st, x.force(st, v)) }

// ---- maps

func (x *Exec) mapC(st *State, m *MapV) *MapC {
	if c := st.maps[m.b]; c != nil {
		return c
	}
	if m.b.lazyMap != nil {
		return m.b.lazyMap
	}
	fail("no content for map %s", m.b.name)
	return nil
}

func keySorts(t types.Type) []types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r []types.Type
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, keySorts(u.Field(i).Type())...)
		}
		return r
	}
	return []types.Type{t}
}

func (x *Exec) unflatKey(t types.Type, ts []*Term) Value {
	var rec func(t types.Type) Value
	i := 0
	rec = func(t types.Type) Value {
		if u, ok := t.Underlying().(*types.Struct); ok {
			r := &StructV{}
			for k := 0; k < u.NumFields(); k++ {
				r.fs = append(r.fs, rec(u.Field(k).Type()))
			}
			return r
		}
		i++
		return ts[i-1]
	}
	return rec(t)
}

func sortOfType(t types.Type) Sort {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return SStr
		case b.Info()&types.IsBoolean != 0:
			return SBool
		case b.Info()&types.IsFloat != 0:
			return SReal
		}
		return SInt
	}
	return SRef
}

func (x *Exec) genMap(m *types.Map, name string, arity int) *MapC {
	nonneg[name+".card"] = true
	ks := keySorts(m.Key())
	return &MapC{
		has:  func(idx []*Term) *Term { return mkApp(name+".has", SBool, idx...) },
		val:  func(x *Exec, st *State, idx []*Term) Value { return x.gen(m.Elem(), name+".val", idx) },
		card: func(f []*Term) *Term { return mkApp(name+".card", SInt, f...) },
		enum: func(f []*Term, p *Term) []*Term {
			var r []*Term
			for i, k := range ks {
				n := fmt.Sprintf("%s.key%d", name, i)
				if b, ok := k.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					nonneg[n], byteRange[n] = true, true
				}
				r = append(r, mkApp(n, sortOfType(k), append(append([]*Term{}, f...), p)...))
			}
			return r
		},
		pos: func(f, key []*Term) *Term {
			return mkApp(name+".pos", SInt, append(append([]*Term{}, f...), key...)...)
		},
	}
}

func (x *Exec) mapUpdate(st *State, m *MapV, key []*Term, v Value) {
	c := x.mapC(st, m)
	fidx := m.idx
	full := append(append([]*Term{}, fidx...), key...)
	prev := c
	n := &MapC{prev: prev, ukey: full, uval: v}
	n.has = func(idx []*Term) *Term { return or(eqTerms(full, idx), prev.has(idx)) }
	n.val = func(x *Exec, s *State, idx []*Term) Value {
		g := x.eqIdx(s, full, idx)
		if g == tTrue {
			return v
		}
		if g == tFalse {
			return prev.val(x, s, idx)
		}
		return mergeVal(g, v, prev.val(x, s, idx))
	}
	had := prev.has(full)
	if d := x.decide(st, had); d != nil {
		had = d
	} else if len(fidx) == 0 && len(st.iters) == 0 && (prev.fin != nil || isLitEmpty(prev)) {
		// keys of small maps are kept apart
		for _, k := range prev.fin {
			if x.decide(st, x.eqIdx(st, k, full)) == nil {
				panic(forkReq{x.eqIdx(st, k, full)})
			}
		}
		panic(forkReq{had})
	}
	n.card = func(f []*Term) *Term {
		return add(prev.card(f), ite(and(eqTerms(fidx, f), not(had)), num(1), num(0)))
	}
	if len(fidx) == 0 {
		if had == tFalse && (prev.fin != nil || isLitEmpty(prev)) {
			n.fin = append(append([][]*Term{}, prev.fin...), key)
		} else if had == tTrue {
			n.fin = prev.fin
		}
	}
	st.own()
	st.maps[m.b] = n
}

func isLitEmpty(c *MapC) bool {
	if c.prev != nil || c.enum != nil || c.has == nil {
		return false
	}
	return c.card(nil) == num(0)
}

func (x *Exec) lookup(st *State, fr *Frame, i *ssa.Lookup) Value {
	base := x.force(st, x.get(fr, i.X))
	if s, ok := base.(*Term); ok {
		idx := x.numVal(st, x.get(fr, i.Index))
		x.oblige(st, "index-in-range", i.Pos(), fr.fn, and(le(num(0), idx), lt(idx, strLen(s))), true)
		if s.kind == KConst {
			if k, ok := isConstInt(idx); ok && k >= 0 && k < len(s.name) {
				return num(int64(s.name[k]))
			}
		}
		return strAt(s, idx)
	}
	m := base.(*MapV)
	mt := i.X.Type().Underlying().(*types.Map)
	zv := x.zero(mt.Elem())
	var has *Term
	var val Value
	if m.b == nil {
		has, val = tFalse, zv
	} else {
		c := x.mapC(st, m)
		key := append(append([]*Term{}, m.idx...), x.flatKey(st, x.get(fr, i.Index))...)
		has = and(not(nilOf(m)), c.has(key))
		if d := x.decide(st, has); d != nil {
			has = d
		} else if c.enum != nil && c.fin == nil && quantFree(has) && !x.feasible(st, not(has)) {
			has = tTrue
		}
		if has == tFalse {
			val = zv
		} else {
			val = mergeVal(has, c.val(x, st, key), zv)
		}
	}
	if i.CommaOk {
		return &TupleV{[]Value{val, has}}
	}
	return val
}

func (x *Exec) mapRange(st *State, m *MapV, i *ssa.Range) Value {
	mt := i.X.Type().Underlying().(*types.Map)
	pos := x.alloc(st, "iterpos", types.Typ[types.Int], num(0))
	it := &IterV{pos: pos, n: num(0)}
	it.key = func(*Term) Value { return x.zero(mt.Key()) }
	it.val = func(*Exec, *State, *Term) Value { return x.zero(mt.Elem()) }
	if m.b == nil {
		return it
	}
	c := x.mapC(st, m)
	fidx := m.idx
	if c.fin != nil || isLitEmpty(c) {
		keys := c.fin
		if len(keys) > 1 { // every order
			it.pick = keys
			it.mt = mt
			it.c = c
			it.fidx = fidx
		}
		it.n = num(int64(len(keys)))
		it.key = func(p *Term) Value {
			if k, ok := isConstInt(p); ok && k < len(keys) {
				return x.unflatKey(mt.Key(), keys[k])
			}
			if len(keys) > 0 {
				var v Value = x.unflatKey(mt.Key(), keys[0])
				for k := 1; k < len(keys); k++ {
					v = mergeVal(eq(p, num(int64(k))), x.unflatKey(mt.Key(), keys[k]), v)
				}
				return v
			}
			return x.zero(mt.Key())
		}
		it.val = func(x *Exec, s *State, p *Term) Value {
			if len(keys) == 0 {
				return x.zero(mt.Elem())
			}
			return c.val(x, s, x.termsOf(s, it.key(p)))
		}
		return it
	}
	enum, posf, card := c.enum, c.pos, c.card
	if enum == nil {
		freshCtr++
		g := x.genMap(mt, fmt.Sprintf("range!%d", freshCtr), 0)
		its := append([]*Term{}, st.iters...)
		enum = func(f []*Term, p *Term) []*Term { return g.enum(append(append([]*Term{}, its...), f...), p) }
		posf = func(f, k []*Term) *Term { return g.pos(append(append([]*Term{}, its...), f...), k) }
		if c.card == nil {
			card = func(f []*Term) *Term { return g.card(append(append([]*Term{}, its...), f...)) }
		}
		c2 := *c
		c2.enum, c2.pos, c2.card = enum, posf, card
		st.own()
		st.maps[m.b] = &c2
	}
	n := ite(nilOf(m), num(0), card(fidx))
	it.n = n
	if !x.enumAx(st, c, m) {
		iv := freshVar("i", SInt)
		k := enum(fidx, iv)
		full := append(append([]*Term{}, fidx...), k...)
		st.assume(forallT(asAtom(iv), implies(and(le(num(0), iv), lt(iv, n)), and(c.has(full), eq(posf(fidx, k), iv)))), false)
		var kv []*Term
		var ka []*Term
		for _, t := range keySorts(mt.Key()) {
			v := freshVar("k", sortOfType(t))
			kv = append(kv, v)
			ka = append(ka, asAtom(v))
		}
		p := posf(fidx, kv)
		body := implies(and(not(nilOf(m)), c.has(append(append([]*Term{}, fidx...), kv...))), and(le(num(0), p), lt(p, n), eqTerms(enum(fidx, p), kv)))
		for j := len(ka) - 1; j >= 0; j-- {
			body = forallT(ka[j], body)
		}
		st.assume(body, false)
	}
	it.key = func(p *Term) Value { return x.unflatKey(mt.Key(), enum(fidx, p)) }
	it.val = func(x *Exec, s *State, p *Term) Value {
		return c.val(x, s, append(append([]*Term{}, fidx...), enum(fidx, p)...))
	}
	return it
}

func (x *Exec) enumAx(st *State, c *MapC, m *MapV) bool {
	key := fmt.Sprintf("enumax:%p:%v", c, m.idx)
	if c.enum == nil {
		return false
	}
	if st.ghost[key] != nil {
		return true
	}
	st.setGhost(key, tTrue)
	return false
}

func eqTerms(a, b []*Term) *Term {
	var cs []*Term
	for i := range a {
		cs = append(cs, eq(a[i], b[i]))
	}
	return and(cs...)
}

// ---- builtins

func (x *Exec) builtin(st *State, c *ssa.CallCommon, name string, args []Value, fr *Frame) Value {
	switch name {
	case "len", "cap":
		switch v := x.force(st, args[0]).(type) {
		case *SliceV:
			if name == "cap" {
				return v.cap
			}
			return v.len
		case *MapV:
			if v.b == nil {
				return num(0)
			}
			mc := x.mapC(st, v)
			if mc.card == nil {
				fail("len of map with unknown cardinality")
			}
			return ite(nilOf(v), num(0), mc.card(v.idx))
		case *Term:
			return strLen(v)
		case *ArrV:
			return num(int64(len(v.es)))
		case *PtrV:
			return num(deref(c.Args[0].Type()).Underlying().(*types.Array).Len())
		}
	case "append":
		return x.appendOp(st, x.force(st, args[0]).(*SliceV), x.force(st, args[1]), c.Args[0].Type())
	case "copy":
		d := x.force(st, args[0]).(*SliceV)
		s := x.force(st, args[1]).(*SliceV)
		n := ite(lt(d.len, s.len), d.len, s.len)
		if d.b == nil || s.b == nil {
			return num(0)
		}
		x.bulkSlice(st, d, n, x.elemOf(x.content(st, s.b), s))
		return n
	case "clear":
		if m, ok := x.force(st, args[0]).(*MapV); ok {
			if m.b == nil {
				return &TupleV{}
			}
			prev := x.mapC(st, m)
			here := func(i []*Term) *Term { return eqTerms(m.idx, i[:len(m.idx)]) }
			st.own()
			st.maps[m.b] = &MapC{has: func(i []*Term) *Term { return and(prev.has(i), not(here(i))) }, val: prev.val,
				card: func(f []*Term) *Term { return ite(here(f), num(0), prev.card(f)) }}
			return &TupleV{}
		}
		if s, ok := x.force(st, args[0]).(*SliceV); ok {
			if s.b != nil {
				zv := x.zero(s.b.elem)
				x.bulkSlice(st, s, s.len, func(*Exec, *State, *Term) Value { return zv })
			}
			return &TupleV{}
		}
	case "delete":
		m := x.force(st, args[0]).(*MapV)
		if m.b == nil {
			return &TupleV{}
		}
		prev := x.mapC(st, m)
		full := append(append([]*Term{}, m.idx...), x.flatKey(st, args[1])...)
		had := prev.has(full)
		st.own()
		st.maps[m.b] = &MapC{has: func(i []*Term) *Term { return and(prev.has(i), not(eqTerms(full, i))) }, val: prev.val,
			card: func(f []*Term) *Term { return sub(prev.card(f), ind(had)) }}
		return &TupleV{}
	case "min", "max":
		r := x.numVal(st, args[0])
		for _, a := range args[1:] {
			t := x.numVal(st, a)
			if name == "min" {
				r = ite(lt(t, r), t, r)
			} else {
				r = ite(lt(r, t), t, r)
			}
		}
		return r
	case "recover":
		if st.panicking {
			st.recovered = true
			return st.panicVal
		}
		return &IfaceV{}
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println":
		return &TupleV{}
	}
	fail("builtin %s", name)
	return nil
}

// bulkSlice overwrites elements [0,n) of a slice
func (x *Exec) bulkSlice(st *State, d *SliceV, n *Term, f func(*Exec, *State, *Term) Value) {
	if k, ok := isConstInt(n); ok && k <= 16 {
		var vs []Value
		for i := 0; i < k; i++ {
			vs = append(vs, f(x, st, num(int64(i))))
		}
		for i, v := range vs {
			x.writeAt(st, d.b, append(append([]*Term{}, d.idx...), add(d.off, num(int64(i)))), v)
		}
		return
	}
	c := x.content(st, d.b)
	m := len(d.idx)
	st.setC(d.b, c.bulk(func(idx []*Term) *Term {
		j := sub(idx[len(idx)-1], d.off)
		return and(eqTerms(d.idx, idx[:m]), le(num(0), j), lt(j, n))
	}, func(x *Exec, s *State, idx []*Term) Value {
		return f(x, s, sub(idx[len(idx)-1], d.off))
	}))
}

func (x *Exec) appendOp(st *State, s *SliceV, tv Value, typ types.Type) Value {
	t, ok := tv.(*SliceV)
	if !ok {
		fail("append of %T", tv)
	}
	if k, ok := isConstInt(t.len); ok && k == 0 {
		return s
	}
	var et types.Type = typ.Underlying().(*types.Slice).Elem()
	if s.b != nil && x.decide(st, le(add(s.len, t.len), s.cap)) == tTrue {
		// room in the backing array: Go writes in place
		if t.b != nil {
			tc := x.content(st, t.b)
			d := &SliceV{b: s.b, idx: s.idx, off: add(s.off, s.len), len: t.len, cap: sub(s.cap, s.len), nilT: tFalse}
			x.bulkSlice(st, d, t.len, x.elemOf(tc, t))
		}
		return &SliceV{b: s.b, idx: s.idx, off: s.off, len: add(s.len, t.len), cap: s.cap, nilT: s.nilT}
	}
	var sc, tc *Content
	if s.b != nil {
		sc = x.content(st, s.b)
	}
	if t.b != nil {
		tc = x.content(st, t.b)
	}
	var items []Value
	if k, ok := isConstInt(t.len); ok && k <= 16 {
		for i := 0; i < k; i++ {
			items = append(items, x.elemAt(st, t, num(int64(i))))
		}
	}
	slen, n0 := s.len, len(st.iters)
	_ = n0
	init := func(x *Exec, st2 *State, idx []*Term) Value {
		j := idx[len(idx)-1]
		tail := func() Value {
			if items != nil {
				v := items[len(items)-1]
				for k := len(items) - 2; k >= 0; k-- {
					g := eq(sub(j, slen), num(int64(k)))
					if d := x.decide(st2, g); d != nil {
						g = d
					}
					v = mergeVal(g, items[k], v)
				}
				return v
			}
			return x.elemOf(tc, t)(x, st2, sub(j, slen))
		}
		g := lt(j, slen)
		if d := x.decide(st2, g); d != nil {
			g = d
		}
		if g == tFalse || sc == nil {
			return tail()
		}
		head := x.elemOf(sc, s)(x, st2, j)
		if g == tTrue {
			return head
		}
		return mergeVal(g, head, tail())
	}
	b := x.allocArr(st, "append", et, init)
	b.app = &AppendInfo{prev: s, items: items}
	if items == nil {
		b.app.rest, b.app.restC = t, tc
	}
	return &SliceV{b: b, idx: x.itIdx(st), off: num(0), len: add(s.len, t.len), cap: add(s.len, t.len, freshNat(st, "spare")), nilT: and(nilOf(s), eqz(t.len))}
}

func absT(t *Term) *Term { return ite(ltz(t), neg(t), t) }

func withinAbs(a, b, tol *Term) *Term { return le(absT(sub(a, b)), tol) }

// sortSlice models an in-place sort
func (x *Exec) sortSlice(st *State, s *SliceV, less func(st *State, a, b Value) *Term) {
	if s.b == nil {
		return
	}
	if n, ok := isConstInt(simpNumT(st, s.len)); ok && n <= 16 {
		var vs []Value
		for i := 0; i < n; i++ {
			vs = append(vs, x.elemAt(st, s, num(int64(i))))
		}
		var out []Value
		for _, v := range vs {
			k := len(out)
			for k > 0 {
				g := less(st, v, out[k-1])
				d := x.decide(st, g)
				if d == nil {
					if !x.feasible(st, g) {
						d = tFalse
					} else if !x.feasible(st, not(g)) {
						d = tTrue
					} else {
						panic(forkReq{g})
					}
				}
				if d == tTrue {
					k--
				} else {
					break
				}
			}
			out = append(out[:k], append([]Value{v}, out[k:]...)...)
		}
		for i, v := range out {
			x.writeAt(st, s.b, append(append([]*Term{}, s.idx...), add(s.off, num(int64(i)))), v)
		}
		return
	}
	freshCtr++
	id := freshCtr
	c := x.content(st, s.b)
	old := x.elemOf(c, s)
	its := append([]*Term{}, st.iters...)
	perm := func(j *Term) *Term {
		return mkApp(fmt.Sprintf("perm!%d", id), SInt, append(append([]*Term{}, its...), j)...)
	}
	pinv := func(j *Term) *Term {
		return mkApp(fmt.Sprintf("pinv!%d", id), SInt, append(append([]*Term{}, its...), j)...)
	}
	n := s.len
	x.bulkSlice(st, s, n, func(x *Exec, s2 *State, j *Term) Value { return old(x, s2, perm(j)) })
	i, j := freshVar("i", SInt), freshVar("j", SInt)
	in := and(le(num(0), j), lt(j, n))
	st.assume(forallT(asAtom(j), implies(in, and(le(num(0), perm(j)), lt(perm(j), n), eq(pinv(perm(j)), j), le(num(0), pinv(j)), lt(pinv(j), n), eq(perm(pinv(j)), j)))), false)
	g := less(st, x.elemAt(st, s, j), x.elemAt(st, s, i))
	st.assume(forallT(asAtom(i), forallT(asAtom(j), implies(and(le(num(0), i), lt(i, j), lt(j, n)), not(g)))), false)
	x.trusted["slices.Sort/SortFunc returns an ordered permutation"] = true
}

func simpNumT(st *State, t *Term) *Term { return simpNum(st, t) }

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = big.NewInt
