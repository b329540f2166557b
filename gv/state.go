package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type pcEntry struct {
	t      *Term
	branch bool
}

// State is the symbolic machine state on one path
type State struct {
	heap      map[*Base]*Content
	maps      map[*Base]*MapC // content of map objects (families keyed by base only)
	shared    bool
	pc        []pcEntry
	f         *facts
	iters     []*Term // generic iteration variables of enclosing summarised loops
	spec      int     // >0: specification code, no safety obligations
	quiet     int     // >0: probing, obligations not recorded
	ghost     map[string]Value
	panicking bool
	panicVal  Value
	recovered bool
}

func newState() *State {
	return &State{heap: map[*Base]*Content{}, maps: map[*Base]*MapC{}, f: newFacts(nil), ghost: map[string]Value{}}
}

func (st *State) clone() *State {
	n := *st
	st.shared = true
	n.shared = true
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.f = st.f.clone()
	n.iters = st.iters[:len(st.iters):len(st.iters)]
	return &n
}

func (st *State) setGhost(k string, v Value) {
	m := map[string]Value{}
	for a, b := range st.ghost {
		m[a] = b
	}
	m[k] = v
	st.ghost = m
}

func (st *State) own() {
	if !st.shared {
		return
	}
	h := make(map[*Base]*Content, len(st.heap)+4)
	for k, v := range st.heap {
		h[k] = v
	}
	m := make(map[*Base]*MapC, len(st.maps)+1)
	for k, v := range st.maps {
		m[k] = v
	}
	st.heap, st.maps, st.shared = h, m, false
}

func (st *State) assume(t *Term, branch bool) {
	if t == tTrue {
		return
	}
	st.pc = append(st.pc, pcEntry{t, branch})
	st.f.add(t)
}

func (st *State) setC(b *Base, c *Content) {
	st.own()
	st.heap[b] = c
}

func (st *State) hyps() []*Term {
	var hs []*Term
	for _, e := range st.pc {
		hs = append(hs, e.t)
	}
	return hs
}

// forkReq is panicked when an operation needs a condition to be decided
type forkReq struct{ c *Term }

type unsupported struct{ msg string }

func fail(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

// decide returns tTrue/tFalse if the condition is settled by the path facts, nil otherwise
func (x *Exec) decide(st *State, c *Term) *Term {
	if c == tTrue || c == tFalse {
		return c
	}
	c = st.f.simp(c)
	if c == tTrue || c == tFalse {
		return c
	}
	if st.f.false {
		return tTrue
	}
	return nil
}

func quantFree(t *Term) bool {
	q := true
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !q {
			return
		}
		seen[t] = true
		if t.kind == KForall {
			q = false
			return
		}
		if t.kind == KPoly {
			for _, m := range t.mons {
				for _, f := range m.fs {
					rec(f.a)
				}
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return q
}

// feasible prunes paths; true unless refuted quickly
func (x *Exec) feasible(st *State, c *Term) bool {
	if c == tFalse {
		return false
	}
	if d := x.decide(st, c); d == tFalse {
		return false
	} else if d == tTrue {
		return true
	}
	var as []*Term
	for _, h := range st.f.list {
		if quantFree(h) {
			as = append(as, h)
		}
	}
	as = append(as, st.f.simp(c))
	r := smtCheck(as, 400*time.Millisecond, "z3")
	if r.status == "unsat" {
		return false
	}
	return true
}

// force resolves an IteV with the path condition, forking if needed
func (x *Exec) force(st *State, v Value) Value {
	for {
		it, ok := v.(*IteV)
		if !ok {
			return v
		}
		switch x.decide(st, it.c) {
		case tTrue:
			v = it.a
		case tFalse:
			v = it.b
		default:
			panic(forkReq{it.c})
		}
	}
}

// ---- heap

func (x *Exec) eqIdx(st *State, a, b []*Term) *Term {
	if len(a) != len(b) {
		fail("index arity mismatch %v %v", a, b)
	}
	cs := make([]*Term, len(a))
	for i := range a {
		cs[i] = eq(a[i], b[i])
		if cs[i] == tFalse {
			return tFalse
		}
	}
	c := and(cs...)
	if d := x.decide(st, c); d != nil {
		return d
	}
	return c
}

func (x *Exec) matchIdx(st *State, b *Base, node, idx []*Term) *Term {
	c := x.eqIdx(st, node, idx)
	if b.symm && c != tTrue && len(idx) >= 2 {
		n := len(idx)
		sw := append([]*Term{}, idx...)
		sw[n-1], sw[n-2] = idx[n-2], idx[n-1]
		c = or(c, x.eqIdx(st, node, sw))
		if d := x.decide(st, c); d != nil {
			return d
		}
	}
	return c
}

func (x *Exec) readC(st *State, b *Base, c *Content, idx []*Term) Value {
	for {
		if c == nil {
			fail("read of unknown object %s", b.name)
		}
		if c.init != nil {
			return c.init(x, st, idx)
		}
		if c.fn != nil {
			g := c.cond(idx)
			if d := x.decide(st, g); d != nil {
				g = d
			}
			if g == tTrue {
				return c.fn(x, st, idx)
			}
			if g == tFalse {
				c = c.prev
				continue
			}
			return mergeVal(g, c.fn(x, st, idx), x.readC(st, b, c.prev, idx))
		}
		g := x.matchIdx(st, b, c.idx, idx)
		if c.guard != nil {
			g = and(c.guard, g)
			if d := x.decide(st, g); d != nil {
				g = d
			}
		}
		if g == tTrue {
			return c.val
		}
		if g == tFalse {
			c = c.prev
			continue
		}
		return mergeVal(g, c.val, x.readC(st, b, c.prev, idx))
	}
}

func (x *Exec) content(st *State, b *Base) *Content {
	c := st.heap[b]
	if c == nil && b.lazy != nil {
		c = b.lazy
	}
	if c == nil {
		fail("no content for %s", b.name)
	}
	return c
}

func (x *Exec) readBase(st *State, b *Base, idx []*Term) Value {
	return x.readC(st, b, x.content(st, b), idx)
}

func getPath(v Value, path []int) Value {
	for i, p := range path {
		switch s := v.(type) {
		case *StructV:
			v = s.fs[p]
		case *ArrV:
			v = s.es[p]
		case *IteV:
			return mergeVal(s.c, getPath(s.a, path[i:]), getPath(s.b, path[i:]))
		default:
			fail("path into %T", v)
		}
	}
	return v
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch s := v.(type) {
	case *StructV:
		r := &StructV{append([]Value{}, s.fs...)}
		r.fs[path[0]] = setPath(s.fs[path[0]], path[1:], nv)
		return r
	case *ArrV:
		r := &ArrV{append([]Value{}, s.es...)}
		r.es[path[0]] = setPath(s.es[path[0]], path[1:], nv)
		return r
	case *IteV:
		return mergeVal(s.c, setPath(s.a, path, nv), setPath(s.b, path, nv))
	}
	fail("setPath into %T", v)
	return nil
}

func (x *Exec) load(st *State, p *PtrV) Value {
	if p.b.array && len(p.idx) == p.b.arity { // whole array
		r := &ArrV{}
		for i := 0; i < p.b.alen; i++ {
			r.es = append(r.es, x.readBase(st, p.b, append(append([]*Term{}, p.idx...), num(int64(i)))))
		}
		return r
	}
	return getPath(x.readBase(st, p.b, p.idx), p.path)
}

func (x *Exec) store(st *State, p *PtrV, v Value) {
	if p.b.array && len(p.idx) == p.b.arity {
		a, ok := x.force(st, v).(*ArrV)
		if !ok {
			fail("store of %T to array", v)
		}
		for i, e := range a.es {
			x.writeAt(st, p.b, append(append([]*Term{}, p.idx...), num(int64(i))), e)
		}
		return
	}
	if len(p.path) > 0 {
		v = setPath(x.readBase(st, p.b, p.idx), p.path, v)
	}
	x.writeAt(st, p.b, p.idx, v)
}

func (x *Exec) writeAt(st *State, b *Base, idx []*Term, v Value) {
	c := x.content(st, b)
	// overwriting the newest update at the same place keeps chains short
	if c.init == nil && c.fn == nil && c.guard == nil && termsEq(c.idx, idx) && !c.pin {
		c = c.prev
	}
	st.setC(b, c.upd(idx, v))
}

// ---- symbolic values

var nonneg = map[string]bool{}
var byteRange = map[string]bool{}

func symNum(name string, s Sort, idx []*Term) *Term {
	return mkApp(name, s, idx...)
}

func isErrType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

// gen creates a symbolic value of type t named name, a function of idx
func (x *Exec) gen(t types.Type, name string, idx []*Term) Value {
	if isErrType(t) {
		return &ErrV{mkApp(name, SBool, idx...)}
	}
	switch {
	case isNamed(t, "gonum.org/v1/gonum/mat", "VecDense"):
		b := x.family(name+".data", types.Typ[types.Float64], len(idx), true)
		nonneg[name+".n"] = true
		return &VecV{b, idx, num(0), symNum(name+".n", SInt, idx)}
	case isNamed(t, "gonum.org/v1/gonum/mat", "SymDense"):
		b := x.family("sym:"+name+".data", types.Typ[types.Float64], len(idx), true)
		b.symm, b.mat = true, true
		nonneg[name+".n"] = true
		return &SymV{b, idx, num(0), symNum(name+".n", SInt, idx)}
	case isNamed(t, "gonum.org/v1/gonum/mat", "Dense"):
		b := x.family(name+".data", types.Typ[types.Float64], len(idx), true)
		b.mat = true
		nonneg[name+".r"], nonneg[name+".c"] = true, true
		return &DenseV{b, idx, symNum(name+".r", SInt, idx), symNum(name+".c", SInt, idx), nil, nil}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsFloat != 0:
			return symNum(name, SReal, idx)
		case u.Info()&types.IsBoolean != 0:
			return mkApp(name, SBool, idx...)
		case u.Info()&types.IsString != 0:
			return mkApp(name, SStr, idx...)
		case u.Kind() == types.Uint8:
			byteRange[name] = true
			nonneg[name] = true
			return symNum(name, SInt, idx)
		case u.Info()&types.IsUnsigned != 0:
			nonneg[name] = true
			return symNum(name, SInt, idx)
		case u.Info()&types.IsInteger != 0:
			return symNum(name, SInt, idx)
		}
	case *types.Struct:
		r := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.fs = append(r.fs, x.gen(u.Field(i).Type(), name+"."+u.Field(i).Name(), idx))
		}
		return r
	case *types.Array:
		r := &ArrV{}
		for i := 0; i < int(u.Len()); i++ {
			r.es = append(r.es, x.gen(u.Elem(), fmt.Sprintf("%s[%d]", name, i), idx))
		}
		return r
	case *types.Slice:
		b := x.family(name+"[]", u.Elem(), len(idx), true)
		nonneg[name+".len"] = true
		return &SliceV{b: b, idx: idx, off: num(0), len: symNum(name+".len", SInt, idx), cap: symNum(name+".cap", SInt, idx), nilT: tFalse}
	case *types.Pointer:
		b := x.family(name+"*", u.Elem(), len(idx), false)
		return &PtrV{b: b, idx: idx}
	case *types.Interface:
		return &SymIface{id: mkApp(name, SRef, idx...), itype: t, nilT: tFalse}
	case *types.Map:
		b := x.family(name+"#", t, len(idx), false)
		return &MapV{b: b, idx: idx, nilT: tFalse}
	}
	fail("can't generate symbolic %v", t)
	return nil
}

// family returns the (unique) base of a symbolic object family
func (x *Exec) family(name string, elem types.Type, arity int, array bool) *Base {
	key := fmt.Sprintf("%s/%d", name, arity)
	if b, ok := x.families[key]; ok {
		return b
	}
	b := newBase(name, elem, array)
	b.arity = arity
	b.input = true
	if m, ok := elem.Underlying().(*types.Map); ok && strings.HasSuffix(name, "#") {
		b.lazyMap = x.genMap(m, name, arity)
	} else {
		b.lazy = &Content{init: func(x *Exec, st *State, idx []*Term) Value { return x.gen(elem, name, idx) }}
	}
	x.families[key] = b
	return b
}

func (x *Exec) zero(t types.Type) Value {
	if isErrType(t) {
		return &ErrV{tFalse}
	}
	if isNamed(t, "gonum.org/v1/gonum/mat", "") {
		return &OpaqueV{t.String()}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsNumeric != 0:
			return num(0)
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return &PtrV{nilT: tTrue}
		}
	case *types.Struct:
		r := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.fs = append(r.fs, x.zero(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		r := &ArrV{}
		for i := 0; i < int(u.Len()); i++ {
			r.es = append(r.es, x.zero(u.Elem()))
		}
		return r
	case *types.Slice:
		return nilSlice()
	case *types.Pointer:
		return &PtrV{nilT: tTrue}
	case *types.Interface:
		return &IfaceV{}
	case *types.Map:
		return &MapV{nilT: tTrue}
	case *types.Signature:
		return &FuncV{}
	case *types.Tuple:
		r := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			r.vs = append(r.vs, x.zero(u.At(i).Type()))
		}
		return r
	}
	fail("no zero value for %v", t)
	return nil
}

func nilSlice() *SliceV {
	return &SliceV{off: num(0), len: num(0), cap: num(0), nilT: tTrue}
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && (name == "" || n.Obj().Name() == name)
}

// alloc creates a fresh object of type t holding v
func (x *Exec) alloc(st *State, name string, t types.Type, v Value) *PtrV {
	if a, ok := t.Underlying().(*types.Array); ok {
		b := newBase(name, a.Elem(), true)
		b.alen = int(a.Len())
		b.arity = len(st.iters)
		b.depth = len(st.iters)
		zv := x.zero(a.Elem())
		c := &Content{init: func(*Exec, *State, []*Term) Value { return zv }}
		st.setC(b, c)
		p := &PtrV{b: b, idx: append([]*Term{}, st.iters...)}
		if av, ok := v.(*ArrV); ok && v != nil {
			for i, e := range av.es {
				x.writeAt(st, b, append(append([]*Term{}, st.iters...), num(int64(i))), e)
			}
		}
		return p
	}
	b := newBase(name, t, false)
	b.arity = len(st.iters)
	b.depth = len(st.iters)
	if v == nil {
		v = x.zero(t)
	}
	st.setC(b, &Content{init: func(*Exec, *State, []*Term) Value { return v }})
	return &PtrV{b: b, idx: append([]*Term{}, st.iters...)}
}

// allocArr creates a fresh array object with the given initial contents
func (x *Exec) allocArr(st *State, name string, elem types.Type, init func(*Exec, *State, []*Term) Value) *Base {
	b := newBase(name, elem, true)
	b.arity = len(st.iters)
	b.depth = len(st.iters)
	st.setC(b, &Content{init: init})
	return b
}

func (x *Exec) itIdx(st *State, extra ...*Term) []*Term {
	return append(append([]*Term{}, st.iters...), extra...)
}

// elemAt reads element i of a slice
func (x *Exec) elemAt(st *State, s *SliceV, i *Term) Value {
	if s.b == nil {
		fail("element of nil slice")
	}
	return x.readBase(st, s.b, append(append([]*Term{}, s.idx...), add(s.off, i)))
}

func (x *Exec) elemOf(c *Content, s *SliceV) func(x *Exec, st *State, i *Term) Value {
	return func(x *Exec, st *State, i *Term) Value {
		return x.readC(st, s.b, c, append(append([]*Term{}, s.idx...), add(s.off, i)))
	}
}

func nilOf(v Value) *Term {
	switch v := v.(type) {
	case *PtrV:
		if v.b == nil {
			return tTrue
		}
		if v.nilT == nil {
			return tFalse
		}
		return v.nilT
	case *SliceV:
		if v.nilT == nil {
			return tFalse
		}
		return v.nilT
	case *MapV:
		if v.nilT == nil {
			return tFalse
		}
		return v.nilT
	case *IfaceV:
		if v.typ == nil {
			return tTrue
		}
		return tFalse
	case *SymIface:
		if v.nilT == nil {
			return tFalse
		}
		return v.nilT
	case *ErrV:
		return not(v.isErr)
	case *FuncV:
		if v.fn == nil && v.bound == "" {
			return tTrue
		}
		return tFalse
	case *IteV:
		return ite(v.c, nilOf(v.a), nilOf(v.b))
	}
	fail("nilOf %T", v)
	return nil
}

func isNilConst(v Value) bool {
	switch v := v.(type) {
	case *PtrV:
		return v.b == nil
	case *SliceV:
		return v.b == nil && v.nilT == tTrue
	case *MapV:
		return v.b == nil
	case *IfaceV:
		return v.typ == nil
	case *FuncV:
		return v.fn == nil && v.bound == ""
	case *ErrV:
		return v.isErr == tFalse
	}
	return false
}

func typeRef(t types.Type) *Term { return mkRefC("type:" + types.TypeString(t, nil)) }

// ifaceId gives the identity term of an interface value holding a pointer to a symbolic family object
func (x *Exec) ptrId(p *PtrV) *Term {
	if p.b.objType != "" && len(p.idx) == 1 {
		return p.idx[0]
	}
	return mkApp("addr:"+p.b.name+fmt.Sprint(p.path), SRef, p.idx...)
}

// eqVal is the Go == comparison as a term
func (x *Exec) eqVal(st *State, a, b Value) *Term {
	if it, ok := a.(*IteV); ok {
		return ite(it.c, x.eqVal(st, it.a, b), x.eqVal(st, it.b, b))
	}
	if it, ok := b.(*IteV); ok {
		return ite(it.c, x.eqVal(st, a, it.a), x.eqVal(st, a, it.b))
	}
	if isNilConst(b) {
		return nilOf(a)
	}
	if isNilConst(a) {
		return nilOf(b)
	}
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			return eq(p, q)
		}
	case *StructV:
		if q, ok := b.(*StructV); ok {
			var cs []*Term
			for i := range p.fs {
				cs = append(cs, x.eqVal(st, p.fs[i], q.fs[i]))
			}
			return and(cs...)
		}
	case *ArrV:
		if q, ok := b.(*ArrV); ok {
			var cs []*Term
			for i := range p.es {
				cs = append(cs, x.eqVal(st, p.es[i], q.es[i]))
			}
			return and(cs...)
		}
	case *PtrV:
		if q, ok := b.(*PtrV); ok {
			if p.b != q.b || !intsEq(p.path, q.path) {
				if p.b.input && q.b.input && p.b.objType == q.b.objType && p.b != q.b && x.mayAlias(p.b, q.b) {
					fail("aliasing comparison %s %s", p.b.name, q.b.name)
				}
				return and(nilOf(p), nilOf(q))
			}
			c := x.eqIdx(st, p.idx, q.idx)
			return or(and(nilOf(p), nilOf(q)), and(not(nilOf(p)), not(nilOf(q)), c))
		}
	case *IfaceV:
		switch q := b.(type) {
		case *IfaceV:
			if !types.Identical(p.typ, q.typ) {
				return tFalse
			}
			return x.eqVal(st, p.v, q.v)
		case *SymIface:
			if pp, ok := p.v.(*PtrV); ok && pp.b != nil {
				if pp.b.objType != "" {
					return and(not(nilOf(q)), eq(pp.idx[0], q.id), eq(mkApp("tag", SRef, q.id), typeRef(p.typ)))
				}
				return tFalse // freshly allocated objects differ from unknown earlier ones
			}
			return and(not(nilOf(q)), eq(mkApp("tag", SRef, q.id), typeRef(p.typ)), mkApp("ifaceeq", SBool, q.id))
		}
	case *SymIface:
		if q, ok := b.(*SymIface); ok {
			return or(and(nilOf(p), nilOf(q)), and(not(nilOf(p)), not(nilOf(q)), eq(p.id, q.id)))
		}
		return x.eqVal(st, b, a)
	}
	fail("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) mayAlias(a, b *Base) bool { return false }

// objPtr is the pointer held by symbolic interface id when its dynamic type is *elem
func (x *Exec) objPtr(id *Term, ptrType types.Type) Value {
	p, ok := ptrType.Underlying().(*types.Pointer)
	if !ok {
		return x.gen(ptrType, "dyn:"+ptrType.String(), []*Term{id})
	}
	name := types.TypeString(p.Elem(), func(*types.Package) string { return "" })
	b := x.family(name, p.Elem(), 1, false)
	b.objType = name
	return &PtrV{b: b, idx: []*Term{id}}
}

type Outcome struct {
	st   *State
	v    Value
	panc bool
}

type Frame struct {
	fn          *ssa.Function
	env         map[ssa.Value]Value
	block       *ssa.BasicBlock
	prev        *ssa.BasicBlock
	pos         int
	defers      []deferred
	counts      map[*ssa.BasicBlock]int
	snap        map[*loopInfo]*item
	noSum       map[*loopInfo]bool
	unroll      map[*loopInfo]int // passes executed one by one since the effect as a whole isn't known
	phiOverride map[*ssa.Phi]Value
}

func (f *Frame) setSnap(l *loopInfo, i *item) {
	n := map[*loopInfo]*item{l: i}
	for k, v := range f.snap {
		n[k] = v
	}
	n[l] = i
	f.snap = n
}
func (f *Frame) dropSnap(l *loopInfo) {
	n := map[*loopInfo]*item{}
	for k, v := range f.snap {
		if k != l {
			n[k] = v
		}
	}
	f.snap = n
}
func (f *Frame) dropNoSum(l *loopInfo) {
	n := map[*loopInfo]bool{}
	for k, v := range f.noSum {
		if k != l {
			n[k] = v
		}
	}
	f.noSum = n
}

func (f *Frame) setUnroll(l *loopInfo, c int) {
	n := map[*loopInfo]int{}
	for k, v := range f.unroll {
		n[k] = v
	}
	n[l] = c
	f.unroll = n
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.counts = map[*ssa.BasicBlock]int{}
	for k, v := range f.counts {
		n.counts[k] = v
	}
	return &n
}
