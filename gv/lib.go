package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SubV is a live rectangular view of a matrix (a column, a block).
type SubV struct {
	of         Value
	i, j, r, c *Term
}

// strApp is an unspecified, but deterministic function of its arguments.
func strApp(name string, s Sort, args ...*Term) *Term { return mkApp(name, s, args...) }

var strFns = map[string]func(string) string{
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	"strings.Title": nil, "strconv.Quote": strconv.Quote, "strings.Clone": strings.Clone,
}

var strPreds = map[string]func(a, b string) bool{
	"strings.EqualFold": strings.EqualFold, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
}

var strFns2 = map[string]func(a, b string) string{
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
}

var realFns = map[string]bool{
	"math.Tan": true, "math.Atan": true, "math.Asin": true, "math.Acos": true, "math.Exp": true, "math.Log": true,
	"math.Cbrt": true, "math.Log10": true, "math.Log2": true, "math.Sinh": true, "math.Cosh": true, "math.Tanh": true,
	"math.Exp2": true, "math.Expm1": true, "math.Log1p": true,
}

// destVec is the receiver of a vector operation with n results: an empty receiver takes the size of the result.
func (x *Exec) destVec(st *State, v Value, n *Term, ob func(string, *Term)) *VecV {
	switch d := x.native(st, v).(type) {
	case *OpaqueV:
		if p, ok := x.unIface(st, v).(*PtrV); ok && strings.HasSuffix(d.name, "mat.VecDense") {
			b, idx := x.floatArr(st, "vecdata", zeroInit)
			w := &VecV{b, idx, num(0), n}
			x.store(st, p, w)
			return w
		}
	case *VecV:
		if x.decide(st, eqz(d.n)) == tTrue {
			w := &VecV{d.store, d.sidx, num(0), n}
			x.store(st, x.unIface(st, v).(*PtrV), w)
			return w
		}
		ob("matrix-shape", eq(d.n, n))
		return d
	}
	fail("vector expected, got %T", x.native(st, v))
	return nil
}

func (x *Exec) unIface(st *State, v Value) Value {
	v = x.force(st, v)
	if i, ok := v.(*IfaceV); ok {
		return x.force(st, i.v)
	}
	return v
}

// destDense is the receiver of a matrix operation with an r by c result.
func (x *Exec) destDense(st *State, v Value, r, c *Term, ob func(string, *Term)) *DenseV {
	switch d := x.native(st, v).(type) {
	case *OpaqueV:
		if p, ok := x.unIface(st, v).(*PtrV); ok && strings.HasSuffix(d.name, "mat.Dense") {
			b, idx := x.floatArr(st, "densedata", zeroInit)
			b.mat = true
			w := &DenseV{b, idx, r, c, nil, nil}
			x.store(st, p, w)
			return w
		}
	case *DenseV:
		if x.decide(st, eqz(d.r)) == tTrue {
			w := &DenseV{d.store, d.sidx, r, c, nil, nil}
			x.store(st, x.unIface(st, v).(*PtrV), w)
			return w
		}
		ob("matrix-shape", and(eq(d.r, r), eq(d.c, c)))
		return d
	}
	fail("matrix expected, got %T", x.native(st, v))
	return nil
}

// destSym is the receiver of an operation with a symmetric n by n result.
func (x *Exec) destSym(st *State, v Value, n *Term, ob func(string, *Term)) *SymV {
	switch d := x.native(st, v).(type) {
	case *OpaqueV:
		if p, ok := x.unIface(st, v).(*PtrV); ok && strings.HasSuffix(d.name, "mat.SymDense") {
			b, idx := x.floatArr(st, "symdata", zeroInit)
			b.symm, b.mat = true, true
			w := &SymV{b, idx, num(0), n}
			x.store(st, p, w)
			return w
		}
	case *SymV:
		if x.decide(st, eqz(d.n)) == tTrue {
			w := &SymV{d.store, d.sidx, num(0), n}
			x.store(st, x.unIface(st, v).(*PtrV), w)
			return w
		}
		ob("matrix-shape", eq(d.n, n))
		return d
	}
	fail("symmetric matrix expected, got %T", x.native(st, v))
	return nil
}

// setMat overwrites the r by c block of a matrix store that starts at (ro, co); f is evaluated on a snapshot.
func (x *Exec) setMat(st *State, store *Base, sidx []*Term, ro, co, r, c *Term, f func(i, j *Term) *Term) {
	nr, ok1 := isConstInt(r)
	nc, ok2 := isConstInt(c)
	if ok1 && ok2 && nr*nc <= 40 {
		type w struct {
			i, j int
			v    *Term
		}
		var ws []w
		for i := 0; i < nr; i++ {
			for j := 0; j < nc; j++ {
				if store.symm && j < i {
					continue
				}
				ws = append(ws, w{i, j, f(num(int64(i)), num(int64(j)))})
			}
		}
		for _, e := range ws {
			x.writeAt(st, store, append(append([]*Term{}, sidx...), add(ro, num(int64(e.i))), add(co, num(int64(e.j)))), e.v)
		}
		return
	}
	m := len(sidx)
	cc := x.content(st, store)
	st.setC(store, cc.bulk(func(idx []*Term) *Term {
		i, j := sub(idx[len(idx)-2], ro), sub(idx[len(idx)-1], co)
		return and(eqTerms(sidx, idx[:m]), le(num(0), i), lt(i, r), le(num(0), j), lt(j, c))
	}, func(x *Exec, s *State, idx []*Term) Value {
		return f(sub(idx[len(idx)-2], ro), sub(idx[len(idx)-1], co))
	}))
}

// freezeSlice forbids further use of a slice whose storage a matrix has taken over.
func (x *Exec) freezeSlice(st *State, s *SliceV) {
	st.setC(s.b, &Content{init: func(*Exec, *State, []*Term) Value {
		fail("storage shared between a slice and a matrix")
		return nil
	}})
}

func (x *Exec) dataAt(st *State, s *SliceV) func(i *Term) *Term {
	c := x.content(st, s.b)
	return func(i *Term) *Term {
		return x.readC(st, s.b, c, append(append([]*Term{}, s.idx...), add(s.off, i))).(*Term)
	}
}

// needs decides a condition, forking the execution if it is open.
func (x *Exec) needs(st *State, g *Term) bool {
	switch d := x.decide(st, g); {
	case d == tTrue:
		return true
	case d == tFalse:
		return false
	}
	if !x.feasible(st, g) {
		return false
	}
	if !x.feasible(st, not(g)) {
		return true
	}
	panic(forkReq{g})
}

// modelLib has the contracts of library functions that the code base doesn't use, but could.
func (x *Exec) modelLib(st *State, c *ssa.CallCommon, name string, fn *ssa.Function, args []Value, fr *Frame) ([]Outcome, bool) {
	one := func(v Value) ([]Outcome, bool) { return []Outcome{{st, v, false}}, true }
	unit := &TupleV{}
	nv := func(i int) *Term { return x.numVal(st, args[i]) }
	ob := func(nm string, t *Term) {
		pos := token.NoPos
		if c != nil {
			pos = c.Pos()
			x.oblige(st, nm, pos, fr.fn, t, true)
		}
	}
	inRange := func(i, n *Term) *Term { return and(le(num(0), i), lt(i, n)) }
	cst := func(t *Term) (string, bool) { return t.name, t.kind == KConst && t.sort == SStr }
	fltConst := func(t *Term) (float64, bool) {
		r, ok := isConst(t)
		if !ok {
			return 0, false
		}
		f, _ := r.Float64()
		return f, true
	}
	if f, ok := strFns[name]; ok {
		a := nv(0)
		if s, ok := cst(a); ok && f != nil {
			return one(mkStr(f(s)))
		}
		if name == "strings.Clone" {
			return one(a)
		}
		return one(strApp(name, SStr, a))
	}
	if f, ok := strFns2[name]; ok {
		a, b := nv(0), nv(1)
		s, ok1 := cst(a)
		t, ok2 := cst(b)
		if ok1 && ok2 {
			return one(mkStr(f(s, t)))
		}
		return one(strApp(name, SStr, a, b))
	}
	if f, ok := strPreds[name]; ok {
		a, b := nv(0), nv(1)
		s, ok1 := cst(a)
		t, ok2 := cst(b)
		if ok1 && ok2 {
			if f(s, t) {
				return one(tTrue)
			}
			return one(tFalse)
		}
		return one(or(eq(a, b), strApp(name, SBool, a, b)))
	}
	if realFns[name] {
		x.trusted["transcendental functions are uninterpreted"] = true
		return one(strApp(name, SReal, nv(0)))
	}
	switch name {
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatFloat", "strconv.FormatUint", "strconv.FormatBool":
		if k, ok := isConstInt(nv(0)); ok && name == "strconv.Itoa" {
			return one(mkStr(strconv.Itoa(k)))
		}
		return one(freshIt(st, "str", SStr))
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		return one(&TupleV{[]Value{freshNat(st, "written"), &ErrV{freshIt(st, "writeerr", SBool)}}})
	case "(*strings.Builder).WriteString":
		return one(&TupleV{[]Value{freshNat(st, "written"), &ErrV{tFalse}}})
	case "(*strings.Builder).WriteRune":
		return one(&TupleV{[]Value{freshNat(st, "written"), &ErrV{tFalse}}})
	case "(*strings.Builder).WriteByte":
		return one(&ErrV{tFalse})
	case "(*strings.Builder).Grow", "(*strings.Builder).Reset":
		return one(unit)
	case "(*strings.Builder).String":
		return one(freshIt(st, "str", SStr))
	case "(*strings.Builder).Len":
		return one(freshNat(st, "len"))
	case "errors.Is":
		return one(and(not(nilOf(args[0])), freshIt(st, "is", SBool)))
	case "errors.As":
		p, ok := x.unIface(st, args[1]).(*PtrV)
		if !ok || p.b == nil {
			fail("errors.As into %T", args[1])
		}
		no := st.clone()
		is := freshIt(st, "as", SBool)
		no.assume(not(is), true)
		st.assume(and(is, not(nilOf(args[0]))), true)
		v := x.unIfaceTyp(st, args[1])
		t := deref(v)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			x.store(st, p, freshIt(st, "as", SReal))
		} else {
			x.store(st, p, &OpaqueV{"error value"})
		}
		return []Outcome{{st, tTrue, false}, {no, tFalse, false}}, true
	case "math.Copysign":
		a, b := absT(nv(0)), nv(1)
		return one(ite(lt(b, num(0)), neg(a), a))
	case "math.Signbit":
		return one(lt(nv(0), num(0)))
	case "math.FMA":
		return one(add(mul(nv(0), nv(1)), nv(2)))
	case "math.Floor", "math.Ceil", "math.Trunc", "math.Round":
		a := nv(0)
		if f, ok := fltConst(a); ok {
			g := map[string]func(float64) float64{"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Round": math.Round}[name]
			if r := new(big.Rat).SetFloat64(g(f)); r != nil {
				return one(numR(r))
			}
		}
		r := strApp(name, SReal, a)
		if !hasBoundVar(a) {
			switch name {
			case "math.Floor":
				st.assume(and(le(r, a), lt(a, add(r, num(1)))), false)
			case "math.Ceil":
				st.assume(and(le(a, r), lt(r, add(a, num(1)))), false)
			case "math.Trunc":
				st.assume(and(le(absT(r), absT(a)), lt(absT(a), add(absT(r), num(1)))), false)
			case "math.Round":
				st.assume(le(absT(sub(r, a)), numR(big.NewRat(1, 2))), false)
			}
		}
		return one(r)
	case "math.Atan2":
		return one(strApp("math.Atan2", SReal, nv(0), nv(1)))
	case "math.Mod":
		return one(strApp("math.Mod", SReal, nv(0), nv(1)))
	case "math/bits.Len", "math/bits.Len64":
		if k, ok := isConstInt(nv(0)); ok {
			n := 0
			for ; k > 0; k >>= 1 {
				n++
			}
			return one(num(int64(n)))
		}
	case "math/bits.Mul", "math/bits.Mul64":
		if a, ok := isConstInt(nv(0)); ok {
			if b, ok := isConstInt(nv(1)); ok && a < 1<<30 && b < 1<<30 {
				return one(&TupleV{[]Value{num(0), num(int64(a * b))}})
			}
		}
	case "sort.Slice", "sort.SliceStable":
		s, ok := x.unIface(st, args[0]).(*SliceV)
		if !ok {
			fail("%s of %T", name, args[0])
		}
		if s.b == nil {
			return one(unit)
		}
		n, ok := isConstInt(simpNum(st, s.len))
		if !ok || n > 8 {
			fail("%s of a slice of unknown length", name)
		}
		// the comparison refers to positions: decide on the original order, then move the elements
		pre := st.clone()
		var vs []Value
		order := []int{}
		for i := 0; i < n; i++ {
			vs = append(vs, x.elemAt(st, s, num(int64(i))))
			k := len(order)
			for k > 0 && x.needs(st, x.pureTerm(pre, args[1], num(int64(i)), num(int64(order[k-1])))) {
				k--
			}
			order = append(order[:k], append([]int{i}, order[k:]...)...)
		}
		for i, o := range order {
			x.writeAt(st, s.b, append(append([]*Term{}, s.idx...), add(s.off, num(int64(i)))), vs[o])
		}
		x.trusted["sort.Slice returns an ordered permutation"] = true
		return one(unit)
	case "slices.DeleteFunc":
		s := x.force(st, args[0]).(*SliceV)
		n, ok := isConstInt(simpNum(st, s.len))
		if !ok || n > 8 {
			break
		}
		if s.b == nil {
			return one(s)
		}
		var keep []Value
		for i := 0; i < n; i++ {
			v := x.elemAt(st, s, num(int64(i)))
			if !x.needs(st, x.pureTerm(st, args[1], v)) {
				keep = append(keep, v)
			}
		}
		k := len(keep)
		zv := x.zero(s.b.elem)
		for i := 0; i < n; i++ {
			v := zv
			if i < k {
				v = keep[i]
			}
			x.writeAt(st, s.b, append(append([]*Term{}, s.idx...), add(s.off, num(int64(i)))), v)
		}
		return one(&SliceV{b: s.b, idx: s.idx, off: s.off, len: num(int64(k)), cap: s.cap, nilT: s.nilT})
	case "maps.Clone":
		m := x.force(st, args[0]).(*MapV)
		if m.b == nil {
			return one(m)
		}
		if len(st.iters) != len(m.idx) {
			fail("maps.Clone in a loop")
		}
		prev := x.mapC(st, m)
		b := newBase("map", m.b.elem, false)
		b.arity, b.depth = len(st.iters), len(st.iters)
		st.own()
		st.maps[b] = prev
		return one(&MapV{b: b, idx: x.itIdx(st), nilT: m.nilT})
	case "gonum.org/v1/gonum/floats.Sum":
		s := x.force(st, args[0]).(*SliceV)
		if s.b == nil {
			return one(num(0))
		}
		k := freshVar("m", SInt)
		return one(sumRange(num(0), s.len, k, x.dataAt(st, s)(k)))
	case "gonum.org/v1/gonum/floats.Dot":
		a, b := x.force(st, args[0]).(*SliceV), x.force(st, args[1]).(*SliceV)
		ob("slice-lengths", eq(a.len, b.len))
		if a.b == nil || b.b == nil {
			return one(num(0))
		}
		k := freshVar("m", SInt)
		return one(sumRange(num(0), a.len, k, mul(x.dataAt(st, a)(k), x.dataAt(st, b)(k))))
	case "gonum.org/v1/gonum/floats.Scale", "gonum.org/v1/gonum/floats.AddConst":
		s := x.force(st, args[1]).(*SliceV)
		if s.b != nil {
			f, al := x.dataAt(st.clone(), s), nv(0)
			x.bulkSlice(st, s, s.len, func(x *Exec, _ *State, i *Term) Value {
				if strings.HasSuffix(name, "Scale") {
					return mul(al, f(i))
				}
				return add(al, f(i))
			})
		}
		return one(unit)
	case "gonum.org/v1/gonum/floats.Add", "gonum.org/v1/gonum/floats.Sub", "gonum.org/v1/gonum/floats.AddScaled":
		last := len(args) - 1
		a, b := x.force(st, args[0]).(*SliceV), x.force(st, args[last]).(*SliceV)
		ob("slice-lengths", eq(a.len, b.len))
		if a.b != nil && b.b != nil {
			pre := st.clone()
			f, g := x.dataAt(pre, a), x.dataAt(pre, b)
			al := num(1)
			if strings.HasSuffix(name, "Sub") {
				al = num(-1)
			} else if last == 2 {
				al = nv(1)
			}
			x.bulkSlice(st, a, a.len, func(x *Exec, _ *State, i *Term) Value { return add(f(i), mul(al, g(i))) })
		}
		return one(unit)
	}
	const M = "gonum.org/v1/gonum/mat."
	if !strings.Contains(name, M) {
		return nil, false
	}
	x.trusted["gonum mat elementwise semantics"] = true
	data := func(v Value, n *Term) (func(*Term) *Term, *SliceV) {
		s := x.force(st, v).(*SliceV)
		if s.b == nil {
			fail("matrix data of length zero")
		}
		ob("matrix-data", eq(s.len, n))
		return x.dataAt(st.clone(), s), s
	}
	switch name {
	case M + "NewSymDense":
		n := nv(0)
		ob("matrix-dimension", lt(num(0), n))
		f, s := data(args[1], mul(n, n))
		x.freezeSlice(st, s)
		b, idx := x.floatArr(st, "symdata", func(x *Exec, _ *State, idx []*Term) Value {
			i, j := idx[len(idx)-2], idx[len(idx)-1]
			lo, hi := ite(lt(i, j), i, j), ite(lt(i, j), j, i)
			return f(add(mul(lo, n), hi))
		})
		b.symm, b.mat = true, true
		return one(x.allocNative(st, "SymDense", &SymV{b, idx, num(0), n}))
	case M + "NewDense":
		r, cc := nv(0), nv(1)
		ob("matrix-dimension", and(lt(num(0), r), lt(num(0), cc)))
		f, s := data(args[2], mul(r, cc))
		x.freezeSlice(st, s)
		b, idx := x.floatArr(st, "densedata", func(x *Exec, _ *State, idx []*Term) Value {
			return f(add(mul(idx[len(idx)-2], cc), idx[len(idx)-1]))
		})
		b.mat = true
		return one(x.allocNative(st, "Dense", &DenseV{b, idx, r, cc, nil, nil}))
	case M + "DenseCopyOf":
		v := x.view(st, args[0])
		d := x.newDense(st, v.r, v.c)
		x.setDense(st, d, v.r, v.c, v.at)
		return one(x.allocNative(st, "Dense", d))
	case M + "Dot":
		a, b := x.view(st, args[0]), x.view(st, args[1])
		ob("matrix-shape", eq(a.r, b.r))
		k := freshVar("m", SInt)
		return one(sumRange(num(0), a.r, k, mul(a.at(k, num(0)), b.at(k, num(0)))))
	case M + "Inner":
		a, m, b := x.view(st, args[0]), x.view(st, args[1]), x.view(st, args[2])
		ob("matrix-shape", and(eq(a.r, m.r), eq(m.c, b.r)))
		k, l := freshVar("m", SInt), freshVar("m", SInt)
		return one(sumRange(num(0), a.r, k, sumRange(num(0), b.r, l, mul(a.at(k, num(0)), m.at(k, l), b.at(l, num(0))))))
	case M + "Sum":
		a := x.view(st, args[0])
		k, l := freshVar("m", SInt), freshVar("m", SInt)
		return one(sumRange(num(0), a.r, k, sumRange(num(0), a.c, l, a.at(k, l))))
	case M + "Norm", "(*" + M + "VecDense).Norm", "(*" + M + "Dense).Norm", "(*" + M + "SymDense).Norm":
		if k, ok := isConstInt(nv(1)); ok && k == 2 {
			a := x.view(st, args[0])
			k, l := freshVar("m", SInt), freshVar("m", SInt)
			return one(sqrtT(sumRange(num(0), a.r, k, sumRange(num(0), a.c, l, mul(a.at(k, l), a.at(k, l))))))
		}
	case M + "Row", M + "Col":
		a := x.view(st, args[2])
		n, at := a.c, func(k *Term) *Term { return a.at(nv(1), k) }
		lim := a.r
		if name == M+"Col" {
			n, lim, at = a.r, a.c, func(k *Term) *Term { return a.at(k, nv(1)) }
		}
		ob("matrix-index", inRange(nv(1), lim))
		d := x.force(st, args[0]).(*SliceV)
		if d.b == nil {
			b := x.allocArr(st, "row", types.Typ[types.Float64], func(x *Exec, _ *State, idx []*Term) Value { return at(idx[len(idx)-1]) })
			return one(&SliceV{b: b, idx: x.itIdx(st), off: num(0), len: n, cap: n, nilT: tFalse})
		}
		ob("slice-lengths", eq(d.len, n))
		x.bulkSlice(st, d, n, func(x *Exec, _ *State, i *Term) Value { return at(i) })
		return one(d)
	}
	if !strings.HasPrefix(name, "(*"+M) && !strings.HasPrefix(name, "("+M) {
		return nil, false
	}
	recv, meth := name[:strings.LastIndexByte(name, '.')], name[strings.LastIndexByte(name, '.')+1:]
	recv = strings.Trim(recv[strings.LastIndexByte(recv, '.')+1:], ")")
	shape := func(a, b *matView) { ob("matrix-shape", and(eq(a.r, b.r), eq(a.c, b.c))) }
	switch recv + "." + meth {
	case "VecDense.CloneFromVec":
		a := x.view(st, args[1])
		b, idx := x.floatArr(st, "vecdata", zeroInit)
		w := &VecV{b, idx, num(0), a.r}
		x.store(st, x.unIface(st, args[0]).(*PtrV), w)
		x.setVecAll(st, w, func(i *Term) *Term { return a.at(i, num(0)) })
		return one(unit)
	case "VecDense.RawVector":
		d := x.vecOf(st, args[0])
		s := &SliceV{b: d.store, idx: d.sidx, off: d.off, len: d.n, cap: d.n, nilT: tFalse}
		return one(&StructV{[]Value{d.n, s, num(1)}})
	case "VecDense.DivElemVec":
		a, b := x.view(st, args[1]), x.view(st, args[2])
		shape(a, b)
		d := x.destVec(st, args[0], a.r, ob)
		k := freshVar("m", SInt)
		ob("division", forallT(asAtom(k), implies(inRange(k, a.r), not(eqz(b.at(k, num(0)))))))
		x.setVecAll(st, d, func(i *Term) *Term { return div(a.at(i, num(0)), b.at(i, num(0))) })
		return one(unit)
	case "SymDense.Zero":
		d := x.symOf(st, args[0])
		x.setMat(st, d.store, d.sidx, d.off, d.off, d.n, d.n, func(i, j *Term) *Term { return num(0) })
		return one(unit)
	case "SymDense.AddSym", "SymDense.SubSym":
		a, b := x.view(st, args[1]), x.view(st, args[2])
		shape(a, b)
		d := x.destSym(st, args[0], a.r, ob)
		x.setMat(st, d.store, d.sidx, d.off, d.off, d.n, d.n, func(i, j *Term) *Term {
			if meth == "AddSym" {
				return add(a.at(i, j), b.at(i, j))
			}
			return sub(a.at(i, j), b.at(i, j))
		})
		return one(unit)
	case "SymDense.ScaleSym":
		a, al := x.view(st, args[2]), nv(1)
		d := x.destSym(st, args[0], a.r, ob)
		x.setMat(st, d.store, d.sidx, d.off, d.off, d.n, d.n, func(i, j *Term) *Term { return mul(al, a.at(i, j)) })
		return one(unit)
	case "SymDense.SymRankOne":
		a, al, v := x.view(st, args[1]), nv(2), x.view(st, args[3])
		ob("matrix-shape", eq(a.r, v.r))
		d := x.destSym(st, args[0], a.r, ob)
		x.setMat(st, d.store, d.sidx, d.off, d.off, d.n, d.n, func(i, j *Term) *Term {
			return add(a.at(i, j), mul(al, v.at(i, num(0)), v.at(j, num(0))))
		})
		return one(unit)
	case "SymDense.CopySym":
		a, d := x.view(st, args[1]), x.symOf(st, args[0])
		n := ite(lt(a.r, d.n), a.r, d.n)
		if g := x.decide(st, lt(a.r, d.n)); g == tTrue {
			n = a.r
		} else if g == tFalse {
			n = d.n
		}
		x.setMat(st, d.store, d.sidx, d.off, d.off, n, n, a.at)
		return one(n)
	case "Dense.Zero":
		d := x.denseOf(st, args[0])
		x.setDense(st, d, d.r, d.c, func(i, j *Term) *Term { return num(0) })
		return one(unit)
	case "Dense.Mul":
		a, b := x.view(st, args[1]), x.view(st, args[2])
		ob("matrix-shape", eq(a.c, b.r))
		d := x.destDense(st, args[0], a.r, b.c, ob)
		x.setDense(st, d, a.r, b.c, func(i, j *Term) *Term {
			k := freshVar("m", SInt)
			return sumRange(num(0), a.c, k, mul(a.at(i, k), b.at(k, j)))
		})
		return one(unit)
	case "Dense.Add", "Dense.Sub", "Dense.MulElem":
		a, b := x.view(st, args[1]), x.view(st, args[2])
		shape(a, b)
		d := x.destDense(st, args[0], a.r, a.c, ob)
		x.setDense(st, d, a.r, a.c, func(i, j *Term) *Term {
			switch meth {
			case "Add":
				return add(a.at(i, j), b.at(i, j))
			case "Sub":
				return sub(a.at(i, j), b.at(i, j))
			}
			return mul(a.at(i, j), b.at(i, j))
		})
		return one(unit)
	case "Dense.Scale":
		al, a := nv(1), x.view(st, args[2])
		d := x.destDense(st, args[0], a.r, a.c, ob)
		x.setDense(st, d, a.r, a.c, func(i, j *Term) *Term { return mul(al, a.at(i, j)) })
		return one(unit)
	case "Dense.CloneFrom":
		a := x.view(st, args[1])
		d := x.newDense(st, a.r, a.c)
		x.store(st, x.unIface(st, args[0]).(*PtrV), d)
		x.setDense(st, d, a.r, a.c, a.at)
		return one(unit)
	case "Dense.Copy":
		a, d := x.view(st, args[1]), x.denseOf(st, args[0])
		ob("matrix-shape", and(eq(a.r, d.r), eq(a.c, d.c))) // stronger than needed: a partial copy isn't supported
		x.setDense(st, d, d.r, d.c, a.at)
		return one(&TupleV{[]Value{d.r, d.c}})
	case "Dense.RowView":
		d := x.denseOf(st, args[0])
		ob("matrix-index", inRange(nv(1), d.r))
		r, cc := d.off()
		p := x.newVec(st, &VecV{d.store, append(append([]*Term{}, d.sidx...), add(r, nv(1))), cc, d.c})
		return one(&IfaceV{types.NewPointer(x.matType("VecDense")), p})
	case "Dense.ColView":
		d := x.denseOf(st, args[0])
		ob("matrix-index", inRange(nv(1), d.c))
		return one(&SubV{args[0], num(0), nv(1), d.r, num(1)})
	case "Dense.Slice":
		d := x.denseOf(st, args[0])
		ob("slice-bounds", and(le(num(0), nv(1)), lt(nv(1), nv(2)), le(nv(2), d.r), le(num(0), nv(3)), lt(nv(3), nv(4)), le(nv(4), d.c)))
		r, cc := d.off()
		p := x.allocNative(st, "Dense", &DenseV{d.store, d.sidx, sub(nv(2), nv(1)), sub(nv(4), nv(3)), add(r, nv(1)), add(cc, nv(3))})
		return one(&IfaceV{types.NewPointer(x.matType("Dense")), p})
	case "Dense.SetRow", "Dense.SetCol":
		d := x.denseOf(st, args[0])
		n, lim := d.c, d.r
		if meth == "SetCol" {
			n, lim = d.r, d.c
		}
		ob("matrix-index", inRange(nv(1), lim))
		s := x.force(st, args[2]).(*SliceV)
		ob("slice-lengths", eq(s.len, n))
		k, ok := isConstInt(simpNum(st, n))
		if !ok {
			fail("%s of unknown length", name)
		}
		f := x.dataAt(st.clone(), s)
		for m := 0; m < k; m++ {
			i, j := nv(1), num(int64(m))
			if meth == "SetCol" {
				i, j = j, i
			}
			x.writeAt(st, d.store, d.at(i, j), f(num(int64(m))))
		}
		return one(unit)
	}
	return nil, false
}

func (x *Exec) setDense(st *State, d *DenseV, r, c *Term, f func(i, j *Term) *Term) {
	ro, co := d.off()
	x.setMat(st, d.store, d.sidx, ro, co, r, c, f)
}

func (x *Exec) newDense(st *State, r, c *Term) *DenseV {
	b, idx := x.floatArr(st, "densedata", zeroInit)
	b.mat = true
	return &DenseV{b, idx, r, c, nil, nil}
}

func (x *Exec) denseOf(st *State, v Value) *DenseV {
	n, ok := x.native(st, v).(*DenseV)
	if !ok {
		fail("matrix expected, got %T", x.native(st, v))
	}
	return n
}

func (x *Exec) unIfaceTyp(st *State, v Value) types.Type {
	if i, ok := x.force(st, v).(*IfaceV); ok && i.typ != nil {
		return i.typ
	}
	fail("interface value expected, got %T", v)
	return nil
}

// subStr is a part of a string; one byte of it is read as a character.
func (x *Exec) subStr(st *State, s, lo, hi *Term) *Term {
	if a, ok := isConstInt(lo); ok && s.kind == KConst {
		if b, ok := isConstInt(hi); ok && 0 <= a && a <= b && b <= len(s.name) {
			return mkStr(s.name[a:b])
		}
	}
	if lo == num(0) && hi == strLen(s) {
		return s
	}
	if x.decide(st, eq(sub(hi, lo), num(1))) == tTrue {
		x.trusted["single bytes of strings are characters (ASCII)"] = true
		return mkApp("chr", SStr, strAt(s, lo))
	}
	if x.decide(st, eq(hi, lo)) == tTrue {
		return mkStr("")
	}
	r := mkApp("substr", SStr, s, lo, hi)
	st.assume(eq(strLen(r), sub(hi, lo)), false)
	return r
}

var _ = fmt.Sprint
