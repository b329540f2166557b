package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type StructV struct{ fs []Value }
type ArrV struct{ es []Value }
type PtrV struct {
	b    *Base
	idx  []*Term
	path []int
	nilT *Term // nil means never nil
}
type SliceV struct {
	b             *Base
	idx           []*Term
	off, len, cap *Term
	nilT          *Term
}
type IfaceV struct {
	typ types.Type // nil: nil interface
	v   Value
}

// SymIface is an unknown interface value with identity id
type SymIface struct {
	id    *Term
	itype types.Type
	nilT  *Term
}
type ErrV struct {
	isErr *Term
}
type MapV struct {
	b    *Base
	idx  []*Term
	nilT *Term
}
type FuncV struct {
	fn       *ssa.Function
	bindings []Value
	bound    string // for builtins
}
type TupleV struct{ vs []Value }
type IteV struct {
	c    *Term
	a, b Value
}
type IterV struct { // range iterator over a map
	pos *PtrV
	n   *Term
	key func(pos *Term) Value
	val func(x *Exec, st *State, pos *Term) Value
	// any order of a small map: the keys not visited yet are kept in the state
	pick [][]*Term
	mt   *types.Map
	c    *MapC
	fidx []*Term
}

type keysV struct{ keys [][]*Term }

// native gonum values stored in heap cells
type VecV struct {
	store *Base
	sidx  []*Term
	off   *Term
	n     *Term
}
type SymV struct {
	store *Base
	sidx  []*Term
	off   *Term
	n     *Term
}
type DenseV struct {
	store  *Base
	sidx   []*Term
	r, c   *Term
	ro, co *Term // position of the first element in the store, nil: zero
}

func (d *DenseV) off() (*Term, *Term) {
	if d.ro == nil {
		return num(0), num(0)
	}
	return d.ro, d.co
}

func (d *DenseV) at(i, j *Term) []*Term {
	r, c := d.off()
	return append(append([]*Term{}, d.sidx...), add(r, i), add(c, j))
}

type TransV struct{ of Value } // transposed view of a matrix pointer
type OpaqueV struct{ name string }

type AppendInfo struct {
	rest  *SliceV
	restC *Content
	prev  *SliceV
	items []Value
}

type Base struct {
	id      int
	name    string
	arity   int
	array   bool
	symm    bool // symmetric pair index
	mat     bool // two indices
	elem    types.Type
	depth   int // number of enclosing iterations at allocation
	app     *AppendInfo
	del     *delInfo
	alen    int    // length of Go arrays
	objType string // object reached through an interface identity
	input   bool
	lazy    *Content
	lazyMap *MapC
}

var baseCtr = 0

func newBase(name string, elem types.Type, array bool) *Base {
	baseCtr++
	return &Base{id: baseCtr, name: fmt.Sprintf("%s@%d", name, baseCtr), elem: elem, array: array}
}

// Content is an immutable chain of updates
type Content struct {
	prev *Content
	init func(x *Exec, st *State, idx []*Term) Value
	// single update
	idx   []*Term
	val   Value
	guard *Term // nil: unconditional
	pin   bool
	// bulk update
	cond func(idx []*Term) *Term
	fn   func(x *Exec, st *State, idx []*Term) Value
	n    int
	tag  string
}

func (c *Content) upd(idx []*Term, v Value) *Content {
	return &Content{prev: c, idx: idx, val: v, n: c.n + 1}
}
func (c *Content) bulk(cond func([]*Term) *Term, fn func(*Exec, *State, []*Term) Value) *Content {
	return &Content{prev: c, cond: cond, fn: fn, n: c.n + 1}
}

// MapC: immutable contents of a map object (family), functions of family index ++ flattened key
type MapC struct {
	has  func(idx []*Term) *Term
	val  func(x *Exec, st *State, idx []*Term) Value
	card func(fidx []*Term) *Term
	// enumeration of an input map, when known: position -> key terms, key -> position
	enum   func(fidx []*Term, pos *Term) []*Term
	pos    func(fidx []*Term, key []*Term) *Term
	fin    [][]*Term // keys of a small concrete map (distinct), independent of fidx
	prev   *MapC
	ukey   []*Term // index of the latest update
	uval   Value
	uguard *Term
}

func valString(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return v.String()
	case *StructV:
		var p []string
		for _, f := range v.fs {
			p = append(p, valString(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *ArrV:
		var p []string
		for _, f := range v.es {
			p = append(p, valString(f))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case *PtrV:
		if v.b == nil {
			return "nilptr"
		}
		return fmt.Sprintf("&%s%v%v", v.b.name, v.idx, v.path)
	case *SliceV:
		if v.b == nil {
			return "nilslice"
		}
		return fmt.Sprintf("%s%v[%v:+%v]", v.b.name, v.idx, v.off, v.len)
	case *IfaceV:
		if v.typ == nil {
			return "niliface"
		}
		return "iface(" + v.typ.String() + "," + valString(v.v) + ")"
	case *SymIface:
		return "symiface(" + v.id.String() + ")"
	case *ErrV:
		return "err(" + v.isErr.String() + ")"
	case *IteV:
		return "ite(" + v.c.String() + "," + valString(v.a) + "," + valString(v.b) + ")"
	case *TupleV:
		var p []string
		for _, f := range v.vs {
			p = append(p, valString(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}

func termsEq(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func intsEq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// valEq is syntactic identity
func valEq(a, b Value) bool {
	if a == nil || b == nil {
		return a == b
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.fs) != len(y.fs) {
			return false
		}
		for i := range x.fs {
			if !valEq(x.fs[i], y.fs[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.es) != len(y.es) {
			return false
		}
		for i := range x.es {
			if !valEq(x.es[i], y.es[i]) {
				return false
			}
		}
		return true
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.vs) != len(y.vs) {
			return false
		}
		for i := range x.vs {
			if !valEq(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.b == y.b && termsEq(x.idx, y.idx) && intsEq(x.path, y.path) && x.nilT == y.nilT
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.b == y.b && termsEq(x.idx, y.idx) && x.off == y.off && x.len == y.len && x.nilT == y.nilT
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && valEq(x.v, y.v)
	case *SymIface:
		y, ok := b.(*SymIface)
		return ok && x.id == y.id
	case *ErrV:
		y, ok := b.(*ErrV)
		return ok && x.isErr == y.isErr
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.b == y.b && termsEq(x.idx, y.idx) && x.nilT == y.nilT
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.bindings) != len(y.bindings) {
			return false
		}
		for i := range x.bindings {
			if !valEq(x.bindings[i], y.bindings[i]) {
				return false
			}
		}
		return true
	case *IteV:
		y, ok := b.(*IteV)
		return ok && x.c == y.c && valEq(x.a, y.a) && valEq(x.b, y.b)
	case *VecV:
		y, ok := b.(*VecV)
		return ok && x.store == y.store && x.off == y.off && x.n == y.n && termsEq(x.sidx, y.sidx)
	case *SymV:
		y, ok := b.(*SymV)
		return ok && x.store == y.store && x.off == y.off && x.n == y.n && termsEq(x.sidx, y.sidx)
	case *DenseV:
		y, ok := b.(*DenseV)
		if !ok || x.store != y.store || x.r != y.r || x.c != y.c || !termsEq(x.sidx, y.sidx) {
			return false
		}
		r, c := x.off()
		r2, c2 := y.off()
		return r == r2 && c == c2
	}
	return a == b
}

// mergeVal builds "if c then a else b"
func mergeVal(c *Term, a, b Value) Value {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if valEq(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return ite(c, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.fs) == len(y.fs) {
			r := &StructV{}
			for i := range x.fs {
				r.fs = append(r.fs, mergeVal(c, x.fs[i], y.fs[i]))
			}
			return r
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.es) == len(y.es) {
			r := &ArrV{}
			for i := range x.es {
				r.es = append(r.es, mergeVal(c, x.es[i], y.es[i]))
			}
			return r
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.vs) == len(y.vs) {
			r := &TupleV{}
			for i := range x.vs {
				r.vs = append(r.vs, mergeVal(c, x.vs[i], y.vs[i]))
			}
			return r
		}
	case *ErrV:
		if y, ok := b.(*ErrV); ok {
			return &ErrV{ite(c, x.isErr, y.isErr)}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok && x.b == y.b && x.b != nil && len(x.idx) == len(y.idx) {
			r := &SliceV{b: x.b, off: ite(c, x.off, y.off), len: ite(c, x.len, y.len), cap: ite(c, x.cap, y.cap), nilT: ite(c, x.nilT, y.nilT)}
			for i := range x.idx {
				r.idx = append(r.idx, ite(c, x.idx[i], y.idx[i]))
			}
			return r
		}
	}
	return &IteV{c, a, b}
}

// substVal substitutes in all terms of a value
func substVal(v Value, m map[*Term]*Term) Value {
	return mapTerms(v, func(t *Term) *Term { return subst(t, m) })
}

// mapTerms rewrites all terms of a value
func mapTerms(v Value, fn func(*Term) *Term) Value {
	st := func(ts []*Term) []*Term {
		r := make([]*Term, len(ts))
		for i, t := range ts {
			r[i] = fn(t)
		}
		return r
	}
	sn := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return fn(t)
	}
	switch x := v.(type) {
	case *Term:
		return fn(x)
	case *StructV:
		r := &StructV{}
		for _, f := range x.fs {
			r.fs = append(r.fs, mapTerms(f, fn))
		}
		return r
	case *ArrV:
		r := &ArrV{}
		for _, f := range x.es {
			r.es = append(r.es, mapTerms(f, fn))
		}
		return r
	case *TupleV:
		r := &TupleV{}
		for _, f := range x.vs {
			r.vs = append(r.vs, mapTerms(f, fn))
		}
		return r
	case *PtrV:
		return &PtrV{x.b, st(x.idx), x.path, sn(x.nilT)}
	case *SliceV:
		if x.b == nil {
			return x
		}
		return &SliceV{x.b, st(x.idx), sn(x.off), sn(x.len), sn(x.cap), sn(x.nilT)}
	case *IfaceV:
		return &IfaceV{x.typ, mapTerms(x.v, fn)}
	case *SymIface:
		return &SymIface{sn(x.id), x.itype, sn(x.nilT)}
	case *ErrV:
		return &ErrV{sn(x.isErr)}
	case *MapV:
		return &MapV{x.b, st(x.idx), sn(x.nilT)}
	case *FuncV:
		r := &FuncV{fn: x.fn, bound: x.bound}
		for _, b := range x.bindings {
			r.bindings = append(r.bindings, mapTerms(b, fn))
		}
		return r
	case *IteV:
		return mergeVal(sn(x.c), mapTerms(x.a, fn), mapTerms(x.b, fn))
	case *VecV:
		return &VecV{x.store, st(x.sidx), sn(x.off), sn(x.n)}
	case *SymV:
		return &SymV{x.store, st(x.sidx), sn(x.off), sn(x.n)}
	case *DenseV:
		ro, co := x.off()
		return &DenseV{x.store, st(x.sidx), sn(x.r), sn(x.c), sn(ro), sn(co)}
	}
	return v
}
