package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	name   string
	pos    string
	fn     string
	goal   *Term
	hyps   []*Term
	ok     bool
	method string
	info   string
	dur    time.Duration
	safety bool
	approx bool // depends on an approximated loop
}

type Exec struct {
	prog      *ssa.Program
	pkg       *ssa.Package
	families  map[string]*Base
	obls      []*Obligation
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	timeout   time.Duration
	funcs     map[string]bool // repository functions executed
	trusted   map[string]bool // models relied upon
	uses      map[string]*ssa.Function
	stack     []*ssa.Function
	steps     int
	unrollMax int
	bounded   bool
	loopNote  map[string]string
	deadline  time.Time
	failed    bool // an obligation isn't discharged
	seenObl   map[string]bool
	covers    int
	reach     map[string]bool // by name, true if some path to it can't be refuted
	retypes   map[string]types.Type
	summed    map[*item]bool
	approx    bool // an unsolvable loop was approximated
	// package-level variables
	pfuncs                 []*ssa.Function
	gusers                 map[*ssa.Global][]ssa.Instruction
	constG                 map[*ssa.Global]bool
	initDone, initialising bool
	initVals               map[*ssa.Global]bool
	sums                   int // summarised loops
}

type item struct {
	st *State
	fr *Frame
}
type endKind int

const (
	endReturn endKind = iota
	endPanic
	endContinue
	endExit
)

type pathEnd struct {
	kind endKind
	st   *State
	fr   *Frame
	v    Value
}

var debugExec = os.Getenv("GV_TRACE") != ""

func (x *Exec) callFn(st *State, fn *ssa.Function, args []Value, bindings []Value) []Outcome {
	if fn.Blocks == nil {
		fail("no body for %s", fn.String())
	}
	if len(x.stack) > 60 {
		fail("recursion too deep in %s", fn)
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	if fn.Pkg == x.pkg || (fn.Origin() != nil && fn.Origin().Pkg == x.pkg) || (fn.Parent() != nil) {
		x.noteFn(fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, block: fn.Blocks[0], counts: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bindings[i]
	}
	ends := x.run([]item{{st, fr}}, nil)
	var out []Outcome
	for _, e := range ends {
		out = append(out, Outcome{e.st, e.v, e.kind == endPanic})
	}
	return out
}

func (x *Exec) noteFn(fn *ssa.Function) {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != x.pkg {
		return
	}
	pos := x.prog.Fset.Position(fn.Pos())
	if isSpecFile(pos.Filename) {
		return
	}
	x.funcs[fn.RelString(x.pkg.Pkg)] = true
}

type loopStop struct {
	l     *loopInfo
	latch *ssa.BasicBlock // an iteration ends here, whatever the test says
}

func (x *Exec) run(work []item, stop *loopStop) []pathEnd {
	var ends []pathEnd
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		next, e := x.runPath(it, stop)
		work = append(work, next...)
		ends = append(ends, e...)
		if len(work)+len(ends) > 6000 {
			fail("too many paths in %s", it.fr.fn)
		}
	}
	return ends
}

// runPath executes one path until it ends or forks
func (x *Exec) runPath(it item, stop *loopStop) (more []item, ends []pathEnd) {
	st, fr := it.st, it.fr
	for {
		x.steps++
		if x.steps%256 == 0 && time.Now().After(x.deadline) {
			fail("time budget exhausted in %s", fr.fn)
		}
		if st.f.false {
			return
		}
		if fr.pos >= len(fr.block.Instrs) {
			fail("fell off block")
		}
		ins := fr.block.Instrs[fr.pos]
		if fr.pos == 0 {
			if l := x.loopOf(fr.fn, fr.block); l != nil && fr.snap[l] == nil {
				fr.setSnap(l, &item{st.clone(), fr.clone()})
			}
		}
		switch ins := ins.(type) {
		case *ssa.Jump:
			if x.enter(st, fr, fr.block.Succs[0], stop, &ends) {
				return
			}
			continue
		case *ssa.If:
			var c *Term
			if f := x.tryStep(st, func() { c = x.boolVal(st, x.get(fr, ins.Cond)) }); f != nil {
				return x.fork(st, fr, f.c), ends
			}
			if stop != nil && stop.latch == fr.block {
				fr.prev, fr.block, fr.pos = fr.block, stop.l.header, 0
				return more, append(ends, pathEnd{endContinue, st, fr, c})
			}
			l := x.loopOf(fr.fn, fr.block)
			// tests that decide whether a loop goes on
			if l == nil {
				l = x.latchLoop(fr.fn, fr.block)
			}
			if l != nil && !(stop != nil && stop.l == l && fr.fn == l.fn) && !fr.noSum[l] && x.isExitTest(l, fr.block) && (fr.block == l.header || l.header != nil && !x.hasHeaderTest(l) && x.latchLoop(fr.fn, fr.block) == l) {
				if s := simpNum(st, c); s != tTrue && s != tFalse && fr.snap[l] != nil {
					sn := fr.snap[l]
					if x.summed[sn] {
						return // another path from the same state has been replaced by the effect of the loop
					}
					res, rends, why := x.trySummarise(l, item{sn.st.clone(), sn.fr.clone()}, fr.unroll[l])
					if why == nil {
						x.summed[sn] = true
						ends = append(ends, rends...)
						for _, r := range res {
							if r.fr.pos > 0 || r.fr.block == l.header || !x.stopped(r.st, r.fr, r.fr.block, stop, &ends) {
								more = append(more, r)
							}
						}
						return
					}
					fr.setUnroll(l, fr.unroll[l]+1)
				}
			}
			d := x.decide(st, c)
			t, e := d == tTrue, d == tFalse
			if d == nil {
				c = st.f.simp(c)
				if b := mergedOn(c); b != nil {
					return x.fork(st, fr, b), ends
				}
				t = x.feasible(st, c)
				if t {
					e = x.feasible(st, not(c))
				} else {
					e = true
				}
			}
			if debugExec {
				fmt.Fprintf(os.Stderr, "IF %s %s cond=%s t=%v e=%v\n", fr.fn.Name(), x.prog.Fset.Position(ins.Cond.Pos()), clip(c.String(), 200), t, e)
			}
			if t && e {
				st2, fr2 := st.clone(), fr.clone()
				st2.assume(not(c), true)
				if !x.enter(st2, fr2, fr2.block.Succs[1], stop, &ends) {
					more = append(more, item{st2, fr2})
				}
				st.assume(c, true)
				if x.enter(st, fr, fr.block.Succs[0], stop, &ends) {
					return
				}
				continue
			}
			k := 0
			if !t {
				k = 1
			}
			if d == nil {
				if t {
					st.assume(c, true)
				} else {
					st.assume(not(c), true)
				}
			}
			if x.enter(st, fr, fr.block.Succs[k], stop, &ends) {
				return
			}
			continue
		case *ssa.Return:
			var v Value
			switch len(ins.Results) {
			case 0:
				v = &TupleV{}
			case 1:
				v = x.get(fr, ins.Results[0])
			default:
				t := &TupleV{}
				for _, r := range ins.Results {
					t.vs = append(t.vs, x.get(fr, r))
				}
				v = t
			}
			ends = append(ends, pathEnd{endReturn, st, fr, v})
			return
		case *ssa.Panic:
			v := x.get(fr, ins.X)
			return more, append(ends, x.doPanic(st, fr, v, "explicit panic", ins.Pos())...)
		case *ssa.RunDefers:
			items := []item{{st, fr}}
			items = x.runDefers(items)
			for _, i := range items {
				i.fr.pos++
			}
			more = append(more, items...)
			return
		}
		// ordinary instruction, possibly with several outcomes
		snap := st.clone()
		var outs []Outcome
		var val ssa.Value
		if v, ok := ins.(ssa.Value); ok {
			val = v
		}
		f := x.tryStep(st, func() { outs = x.step(st, fr, ins) })
		if f != nil {
			return append(more, x.fork(snap, fr, f.c)...), ends
		}
		if len(outs) == 1 && !outs[0].panc {
			st = outs[0].st
			if val != nil {
				fr.env[val] = outs[0].v
			}
			fr.pos++
			continue
		}
		if debugExec && len(outs) > 1 {
			fmt.Fprintf(os.Stderr, "OUTS %d %s %s %s\n", len(outs), fr.fn.Name(), ins.String(), x.prog.Fset.Position(ins.Pos()))
		}
		for _, o := range outs {
			fr2 := fr.clone()
			if o.panc {
				ends = append(ends, x.doPanicSt(o.st, fr2, o.v)...)
				continue
			}
			if val != nil {
				fr2.env[val] = o.v
			}
			fr2.pos++
			more = append(more, item{o.st, fr2})
		}
		return
	}
}

// mergedOn: the quantified condition c compares two merged outcomes on, if there is one
func mergedOn(c *Term) *Term {
	if c.kind == KNot {
		c = c.args[0]
	}
	if c.kind == KLtZ || c.kind == KEqZ {
		for _, b := range topInds(c.args[0]) {
			if b.kind == KForall {
				return b
			}
		}
	}
	return nil
}

func (x *Exec) tryStep(st *State, f func()) (req *forkReq) {
	defer func() {
		if r := recover(); r != nil {
			if q, ok := r.(forkReq); ok {
				req = &q
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (x *Exec) fork(st *State, fr *Frame, c *Term) (out []item) {
	if debugExec {
		fmt.Fprintf(os.Stderr, "FORK %s %s\n", fr.fn.Name(), clip(c.String(), 200))
	}
	if x.feasible(st, c) {
		s, f := st.clone(), fr.clone()
		s.assume(c, true)
		out = append(out, item{s, f})
	}
	if x.feasible(st, not(c)) {
		s, f := st.clone(), fr.clone()
		s.assume(not(c), true)
		out = append(out, item{s, f})
	}
	return
}

// stopped: the path ends at the stop condition
func (x *Exec) stopped(st *State, fr *Frame, to *ssa.BasicBlock, stop *loopStop, ends *[]pathEnd) bool {
	if stop == nil || fr.fn != stop.l.fn {
		return false
	}
	if to == stop.l.header {
		*ends = append(*ends, pathEnd{endContinue, st, fr, nil})
		return true
	}
	if !stop.l.blocks[to] {
		*ends = append(*ends, pathEnd{endExit, st, fr, nil})
		return true
	}
	return false
}

// enter transfers control; true when the path has ended at the stop condition
func (x *Exec) enter(st *State, fr *Frame, to *ssa.BasicBlock, stop *loopStop, ends *[]pathEnd) bool {
	fr.prev, fr.block, fr.pos = fr.block, to, 0
	for l := range fr.snap { // leaving or re-entering loops invalidates snapshots
		if to == l.header || !l.blocks[to] {
			fr.dropSnap(l)
		}
	}
	for l := range fr.noSum {
		if !l.blocks[to] {
			fr.dropNoSum(l)
		}
	}
	for l, c := range fr.unroll {
		if c > 0 && !l.blocks[to] {
			fr.setUnroll(l, 0)
		}
	}
	if x.stopped(st, fr, to, stop, ends) {
		return true
	}
	if l := x.loopOf(fr.fn, to); l != nil {
		if fr.noSum[l] {
			// the iteration at which the loop is left can't come back
			return true
		}
		if fr.prev != nil && !l.blocks[fr.prev] {
			fr.counts[to] = 0
		}
		fr.counts[to]++
		if fr.counts[to] > x.unrollMax {
			fail("loop unrolling limit in %s", fr.fn)
		}
		// leaving and re-entering resets the counter
	}
	return false
}

func (x *Exec) doPanic(st *State, fr *Frame, v Value, why string, pos token.Pos) []pathEnd {
	return x.doPanicSt(st, fr, v)
}

// doPanicSt unwinds a frame, running deferred calls
func (x *Exec) doPanicSt(st *State, fr *Frame, v Value) []pathEnd {
	if len(fr.defers) == 0 {
		return []pathEnd{{endPanic, st, fr, v}}
	}
	st.panicking, st.panicVal, st.recovered = true, v, false
	items := x.runDefers([]item{{st, fr}})
	var ends []pathEnd
	for _, i := range items {
		if i.st.recovered {
			i.st.panicking, i.st.recovered = false, false
			// function returns its named results
			rb := i.fr.fn.Recover
			if rb == nil {
				ends = append(ends, pathEnd{endReturn, i.st, i.fr, x.zero(i.fr.fn.Signature.Results())})
				continue
			}
			i.fr.block, i.fr.pos, i.fr.prev = rb, 0, nil
			ends = append(ends, x.run([]item{i}, nil)...)
			continue
		}
		ends = append(ends, pathEnd{endPanic, i.st, i.fr, v})
	}
	return ends
}

func (x *Exec) runDefers(items []item) []item {
	var done []item
	for len(items) > 0 {
		it := items[len(items)-1]
		items = items[:len(items)-1]
		n := len(it.fr.defers)
		if n == 0 {
			done = append(done, it)
			continue
		}
		d := it.fr.defers[n-1]
		it.fr.defers = it.fr.defers[:n-1]
		for _, o := range x.invoke(it.st, d.call, d.fn, d.args, it.fr) {
			if o.panc {
				fail("panic in deferred call")
			}
			items = append(items, item{o.st, it.fr.clone()})
		}
	}
	return done
}

func (x *Exec) boolVal(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *IteV:
		return ite(v.c, x.boolVal(st, v.a), x.boolVal(st, v.b))
	}
	fail("bool of %T", v)
	return nil
}

func (x *Exec) get(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return &FuncV{bound: v.Name()}
	case *ssa.Global:
		return &PtrV{b: x.globalBase(v)}
	}
	r, ok := fr.env[v]
	if !ok {
		fail("value %s undefined in %s", v.Name(), fr.fn)
	}
	return r
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// ratOfFloat recovers the decimal/rational constant meant by a rounded float64
func ratOfFloat(f float64) *big.Rat {
	r := new(big.Rat)
	r.SetFloat64(f)
	if r.Denom().BitLen() < 24 {
		return r
	}
	// continued fraction
	x := new(big.Rat).Abs(r)
	p0, q0, p1, q1 := big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)
	y := new(big.Rat).Set(x)
	for i := 0; i < 40; i++ {
		a := new(big.Int).Quo(y.Num(), y.Denom())
		p2 := new(big.Int).Add(new(big.Int).Mul(a, p1), p0)
		q2 := new(big.Int).Add(new(big.Int).Mul(a, q1), q0)
		p0, q0, p1, q1 = p1, q1, p2, q2
		c := new(big.Rat).SetFrac(p1, q1)
		cf, _ := c.Float64()
		xf, _ := x.Float64()
		if cf == xf {
			if r.Sign() < 0 {
				c.Neg(c)
			}
			return c
		}
		y = new(big.Rat).Sub(y, new(big.Rat).SetInt(a))
		if y.Sign() == 0 {
			break
		}
		y = new(big.Rat).Inv(y)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return tTrue
		}
		return tFalse
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return num(i)
		}
		r, _ := new(big.Rat).SetString(c.Value.ExactString())
		return numR(r)
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return numR(ratOfFloat(f))
	}
	fail("constant %v", c)
	return nil
}

// oblige records a proof obligation that must hold on this path, then assumes it
func (x *Exec) oblige(st *State, name string, pos token.Pos, fn *ssa.Function, goal *Term, safety bool) {
	if st.quiet > 0 {
		if x.decide(st, goal) != tTrue {
			st.assume(goal, false)
		}
		return
	}
	if goal == tTrue && safety {
		return // discharged while the term was built
	}
	if safety && st.spec > 0 {
		st.assume(goal, false)
		return
	}
	p := x.prog.Fset.Position(pos)
	o := &Obligation{name: name, pos: fmt.Sprintf("%s:%d", shortPath(p.Filename), p.Line), goal: goal, hyps: st.hyps(), safety: safety}
	if fn != nil {
		o.fn = fn.RelString(x.pkg.Pkg)
	}
	known := false
	if d := x.decide(st, goal); d == tTrue {
		o.ok, o.method = true, "path-facts"
		known = true
	} else {
		r := prove(o.hyps, goal, x.timeout)
		o.ok, o.method, o.info, o.dur = r.ok, r.method, r.info, r.dur
	}
	o.approx = x.approx
	x.obls = append(x.obls, o)
	if !o.ok && !x.failed {
		// the verdict is known; look for more failures for a short time
		x.failed = true
		if d := time.Now().Add(45 * time.Second); d.Before(x.deadline) {
			x.deadline = d
		}
	}
	if debugProve && !o.ok {
		fmt.Fprintln(os.Stderr, "FAILED", o.name, o.pos, clip(goal.String(), 3000))
		for _, h := range o.hyps {
			fmt.Fprintln(os.Stderr, "    ", clip(h.String(), 800))
		}
	}
	if !known {
		st.assume(goal, false)
	}
}

func (x *Exec) step(st *State, fr *Frame, ins ssa.Instruction) []Outcome {
	one := func(v Value) []Outcome { return []Outcome{{st, v, false}} }
	g := func(v ssa.Value) Value { return x.get(fr, v) }
	gf := func(v ssa.Value) Value { return x.force(st, x.get(fr, v)) }
	safe := func(name string, c *Term) { x.oblige(st, name, ins.Pos(), fr.fn, c, true) }
	ptr := func(v ssa.Value) *PtrV {
		p, ok := gf(v).(*PtrV)
		if !ok {
			fail("pointer expected, got %T in %s", gf(v), fr.fn)
		}
		if n := nilOf(p); n != tFalse {
			safe("nil-deref", not(n))
			if p.b == nil {
				st.assume(tFalse, false)
				panic(unsupported{"dead path after nil dereference"})
			}
		}
		return p
	}
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return one(nil)
	case *ssa.Alloc:
		return one(x.alloc(st, i.Comment, deref(i.Type()), nil))
	case *ssa.Phi:
		// all phis of a block are evaluated together
		vals := map[ssa.Value]Value{}
		n := 0
		for _, in := range fr.block.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			if ov, ok := fr.phiOverride[p]; ok {
				vals[p] = ov
				continue
			}
			for k, pr := range fr.block.Preds {
				if pr == fr.prev {
					vals[p] = g(p.Edges[k])
				}
			}
		}
		fr.phiOverride = nil
		for k, v := range vals {
			fr.env[k] = v
		}
		fr.pos += n - 1
		return one(vals[i])
	case *ssa.BinOp:
		return one(x.binop(st, fr, i, g(i.X), g(i.Y)))
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			p := ptr(i.X)
			return one(x.load(st, p))
		case token.NOT:
			return one(not(x.boolVal(st, g(i.X))))
		case token.SUB:
			return one(neg(x.numVal(st, g(i.X))))
		}
		fail("unop %v", i.Op)
	case *ssa.Store:
		p := ptr(i.Addr)
		x.store(st, p, g(i.Val))
		return one(nil)
	case *ssa.FieldAddr:
		p := ptr(i.X)
		return one(&PtrV{b: p.b, idx: p.idx, path: append(append([]int{}, p.path...), i.Field)})
	case *ssa.Field:
		return one(getPath(g(i.X), []int{i.Field}))
	case *ssa.IndexAddr:
		idx := x.numVal(st, g(i.Index))
		switch b := gf(i.X).(type) {
		case *SliceV:
			safe("index-in-range", and(le(num(0), idx), lt(idx, b.len)))
			if b.b == nil {
				panic(unsupported{"dead path after index of nil slice"})
			}
			return one(&PtrV{b: b.b, idx: append(append([]*Term{}, b.idx...), add(b.off, idx))})
		case *PtrV:
			n := deref(i.X.Type()).Underlying().(*types.Array).Len()
			safe("index-in-range", and(le(num(0), idx), lt(idx, num(n))))
			if b.b.array && len(b.idx) == b.b.arity && len(b.path) == 0 {
				return one(&PtrV{b: b.b, idx: append(append([]*Term{}, b.idx...), idx)})
			}
			if k, ok := isConstInt(idx); ok {
				return one(&PtrV{b: b.b, idx: b.idx, path: append(append([]int{}, b.path...), k)})
			}
			fail("symbolic index into embedded array")
		}
		fail("IndexAddr on %T", gf(i.X))
	case *ssa.Index:
		idx := x.numVal(st, g(i.Index))
		switch b := gf(i.X).(type) {
		case *ArrV:
			safe("index-in-range", and(le(num(0), idx), lt(idx, num(int64(len(b.es))))))
			if k, ok := isConstInt(idx); ok {
				return one(b.es[k])
			}
			v := b.es[len(b.es)-1]
			for k := len(b.es) - 2; k >= 0; k-- {
				v = mergeVal(eq(idx, num(int64(k))), b.es[k], v)
			}
			return one(v)
		case *Term: // string
			safe("index-in-range", and(le(num(0), idx), lt(idx, strLen(b))))
			return one(strAt(b, idx))
		}
		fail("Index on %T", g(i.X))
	case *ssa.Lookup:
		return one(x.lookup(st, fr, i))
	case *ssa.MapUpdate:
		m := gf(i.Map).(*MapV)
		if n := nilOf(m); n != tFalse {
			safe("nil-map-write", not(n))
		}
		x.mapUpdate(st, m, x.flatKey(st, g(i.Key)), g(i.Value))
		return one(nil)
	case *ssa.MakeMap:
		b := newBase("map", i.Type(), false)
		b.arity = len(st.iters)
		b.depth = len(st.iters)
		mt := i.Type().Underlying().(*types.Map)
		zv := x.zero(mt.Elem())
		st.own()
		st.maps[b] = &MapC{has: func([]*Term) *Term { return tFalse }, val: func(*Exec, *State, []*Term) Value { return zv }, card: func([]*Term) *Term { return num(0) }}
		return one(&MapV{b: b, idx: x.itIdx(st)})
	case *ssa.MakeSlice:
		n, c := x.numVal(st, g(i.Len)), x.numVal(st, g(i.Cap))
		safe("makeslice-len", and(le(num(0), n), le(n, c)))
		et := i.Type().Underlying().(*types.Slice).Elem()
		zv := x.zero(et)
		b := x.allocArr(st, "make", et, func(*Exec, *State, []*Term) Value { return zv })
		return one(&SliceV{b: b, idx: x.itIdx(st), off: num(0), len: n, cap: c, nilT: tFalse})
	case *ssa.MakeClosure:
		f := &FuncV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.bindings = append(f.bindings, g(b))
		}
		return one(f)
	case *ssa.MakeInterface:
		v := g(i.X)
		if isErrType(i.Type()) {
			return one(&ErrV{tTrue})
		}
		if types.IsInterface(i.X.Type()) {
			return one(v)
		}
		if p, ok := v.(*IteV); ok {
			return one(mapIte(p, func(v Value) Value { return &IfaceV{i.X.Type(), v} }))
		}
		return one(&IfaceV{i.X.Type(), v})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var op ssa.Value
		if c, ok := i.(*ssa.ChangeInterface); ok {
			op = c.X
		} else {
			op = i.(*ssa.ChangeType).X
		}
		return one(g(op))
	case *ssa.Convert:
		return one(x.convert(st, g(i.X), i.X.Type(), i.Type()))
	case *ssa.Extract:
		v := g(i.Tuple)
		return one(extract(v, i.Index))
	case *ssa.Slice:
		return one(x.sliceOp(st, fr, i))
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, i)
	case *ssa.Range:
		m, ok := gf(i.X).(*MapV)
		if !ok {
			fail("range over %T", g(i.X))
		}
		return one(x.mapRange(st, m, i))
	case *ssa.Next:
		it := g(i.Iter).(*IterV)
		pos := x.load(st, it.pos).(*Term)
		if it.pick != nil {
			// map iteration visits the keys in an arbitrary order
			gk := "iter:" + it.pos.b.name
			left := it.pick
			if g, ok := st.ghost[gk].(*keysV); ok {
				left = g.keys
			}
			if len(left) == 0 {
				return one(&TupleV{[]Value{tFalse, x.zero(it.mt.Key()), x.zero(it.mt.Elem())}})
			}
			var outs []Outcome
			for k := range left {
				s := st
				if k < len(left)-1 {
					s = st.clone()
				}
				rest := append(append([][]*Term{}, left[:k]...), left[k+1:]...)
				if k < len(left)-1 {
					freshCtr++
					s.assume(mkApp(fmt.Sprintf("pick!%d", freshCtr), SBool), true)
				}
				s.setGhost(gk, &keysV{rest})
				outs = append(outs, Outcome{s, &TupleV{[]Value{tTrue, x.unflatKey(it.mt.Key(), left[k]), it.c.val(x, s, append(append([]*Term{}, it.fidx...), left[k]...))}}, false})
			}
			return outs
		}
		ok := lt(pos, it.n)
		k := it.key(pos)
		v := it.val(x, st, pos)
		x.store(st, it.pos, add(pos, num(1)))
		return one(&TupleV{[]Value{ok, k, v}})
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		d.fn, d.args = x.callTarget(st, fr, &i.Call)
		fr.defers = append(fr.defers, d)
		return one(nil)
	case *ssa.Call:
		fn, args := x.callTarget(st, fr, &i.Call)
		return x.invoke(st, &i.Call, fn, args, fr)
	}
	fail("unsupported instruction %T in %s", ins, fr.fn)
	return nil
}

func mapIte(v Value, f func(Value) Value) Value {
	if it, ok := v.(*IteV); ok {
		return mergeVal(it.c, mapIte(it.a, f), mapIte(it.b, f))
	}
	return f(v)
}

func extract(v Value, i int) Value {
	switch t := v.(type) {
	case *TupleV:
		return t.vs[i]
	case *IteV:
		return mergeVal(t.c, extract(t.a, i), extract(t.b, i))
	}
	fail("extract from %T", v)
	return nil
}

func (x *Exec) numVal(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *IteV:
		return ite(v.c, x.numVal(st, v.a), x.numVal(st, v.b))
	}
	fail("numeric value expected, got %T", v)
	return nil
}

func (x *Exec) binop(st *State, fr *Frame, i *ssa.BinOp, a, b Value) Value {
	basic, _ := i.X.Type().Underlying().(*types.Basic)
	isStr := basic != nil && basic.Info()&types.IsString != 0
	isFloat := basic != nil && basic.Info()&types.IsFloat != 0
	switch i.Op {
	case token.EQL:
		return x.eqVal(st, a, b)
	case token.NEQ:
		return not(x.eqVal(st, a, b))
	}
	p, q := x.numVal(st, a), x.numVal(st, b)
	if isStr {
		switch i.Op {
		case token.ADD:
			if p.kind == KConst && q.kind == KConst {
				return mkStr(p.name + q.name)
			}
			return mkApp("concat", SStr, p, q)
		case token.LSS:
			return strLt(p, q)
		case token.GTR:
			return strLt(q, p)
		case token.LEQ:
			return not(strLt(q, p))
		case token.GEQ:
			return not(strLt(p, q))
		}
	}
	switch i.Op {
	case token.ADD:
		return add(p, q)
	case token.SUB:
		return sub(p, q)
	case token.MUL:
		return mul(p, q)
	case token.QUO:
		x.oblige(st, "division-by-zero", i.Pos(), fr.fn, not(eqz(q)), true)
		if isFloat {
			return div(p, q)
		}
		return idiv(p, q)
	case token.REM:
		x.oblige(st, "division-by-zero", i.Pos(), fr.fn, not(eqz(q)), true)
		return sub(p, mul(q, idiv(p, q)))
	case token.LSS:
		return lt(p, q)
	case token.GTR:
		return lt(q, p)
	case token.LEQ:
		return le(p, q)
	case token.GEQ:
		return le(q, p)
	case token.AND:
		if p.sort == SBool {
			return and(p, q)
		}
	case token.OR:
		if p.sort == SBool {
			return or(p, q)
		}
	case token.SHR:
		if k, ok := isConstInt(q); ok {
			return idiv(p, num(1<<k))
		}
	}
	fail("binop %v", i.Op)
	return nil
}

// idiv is Go's truncating division of integers (exact for non-negative dividends)
func idiv(p, q *Term) *Term {
	if a, ok := isConstInt(p); ok {
		if b, ok := isConstInt(q); ok && b != 0 {
			return num(int64(a / b))
		}
	}
	if b, ok := isConstInt(q); ok && b == 1 {
		return p
	}
	return mkApp("idiv", SInt, p, q)
}

func strLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.kind == KConst && b.kind == KConst {
		if a.name < b.name {
			return tTrue
		}
		return tFalse
	}
	if a.kind == KApp && b.kind == KApp && a.name == "chr" && b.name == "chr" {
		return lt(a.args[0], b.args[0]) // one rune each
	}
	return mkApp("strlt", SBool, a, b)
}
func strLen(s *Term) *Term {
	if s.kind == KConst {
		return num(int64(len(s.name)))
	}
	nonneg["strlen"] = true
	return mkApp("strlen", SInt, s)
}
func strAt(s, i *Term) *Term {
	if k, ok := isConstInt(i); ok && s.kind == KConst && k >= 0 && k < len(s.name) {
		return num(int64(s.name[k]))
	}
	nonneg["strat"], byteRange["strat"] = true, true
	return mkApp("strat", SInt, s, i)
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			n := x.numVal(st, v)
			if k, ok := isConstInt(n); ok && k >= 0 && k < 0x10ffff {
				return mkStr(string(rune(k)))
			}
			return mkApp("chr", SStr, n)
		}
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
			n := x.numVal(st, v)
			if r, ok := isConst(n); ok {
				return numR(new(big.Rat).SetInt(new(big.Int).Quo(r.Num(), r.Denom())))
			}
			k := mkApp("trunc", SInt, n)
			if !hasBoundVar(n) {
				st.assume(and(le(absT(k), absT(n)), lt(absT(n), add(absT(k), num(1)))), false)
			}
			return k
		}
		return v
	}
	return v
}

func (x *Exec) sliceOp(st *State, fr *Frame, i *ssa.Slice) Value {
	base := x.force(st, x.get(fr, i.X))
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.numVal(st, x.get(fr, v))
	}
	safe := func(c *Term) { x.oblige(st, "slice-bounds", i.Pos(), fr.fn, c, true) }
	switch b := base.(type) {
	case *SliceV:
		lo, hi, mx := opt(i.Low, num(0)), opt(i.High, b.len), opt(i.Max, b.cap)
		c := and(le(num(0), lo), le(lo, hi), le(hi, mx))
		if i.High != nil {
			c = and(c, le(hi, b.cap))
		}
		if x.decide(st, le(hi, b.len)) != tTrue && i.High != nil {
			// capacities aren't tracked precisely: demand the stronger bound
			c = and(c, le(hi, b.len))
		}
		safe(c)
		return &SliceV{b: b.b, idx: b.idx, off: add(b.off, lo), len: sub(hi, lo), cap: sub(mx, lo), nilT: b.nilT}
	case *PtrV:
		n := num(deref(i.X.Type()).Underlying().(*types.Array).Len())
		lo, hi := opt(i.Low, num(0)), opt(i.High, n)
		safe(and(le(num(0), lo), le(lo, hi), le(hi, n)))
		if !b.b.array {
			fail("slice of embedded array")
		}
		return &SliceV{b: b.b, idx: b.idx, off: lo, len: sub(hi, lo), cap: sub(n, lo), nilT: tFalse}
	}
	if b, ok := base.(*Term); ok && b.sort == SStr {
		lo, hi := opt(i.Low, num(0)), opt(i.High, strLen(b))
		safe(and(le(num(0), lo), le(lo, hi), le(hi, strLen(b))))
		return x.subStr(st, b, lo, hi)
	}
	fail("slice of %T", base)
	return nil
}

func (x *Exec) typeAssert(st *State, fr *Frame, i *ssa.TypeAssert) []Outcome {
	v := x.force(st, x.get(fr, i.X))
	toIface := types.IsInterface(i.AssertedType)
	res := func(st *State, ok *Term, v Value) []Outcome {
		if !i.CommaOk {
			x.oblige(st, "type-assertion", i.Pos(), fr.fn, ok, true)
			return []Outcome{{st, v, false}}
		}
		return []Outcome{{st, &TupleV{[]Value{v, ok}}, false}}
	}
	switch o := v.(type) {
	case *IfaceV:
		if o.typ == nil {
			return res(st, tFalse, x.zero(i.AssertedType))
		}
		if toIface {
			if types.Implements(o.typ, i.AssertedType.Underlying().(*types.Interface)) {
				return res(st, tTrue, v)
			}
			return res(st, tFalse, x.zero(i.AssertedType))
		}
		if types.Identical(o.typ, i.AssertedType) {
			return res(st, tTrue, o.v)
		}
		return res(st, tFalse, x.zero(i.AssertedType))
	case *SymIface:
		if toIface {
			if types.Identical(o.itype, i.AssertedType) {
				return res(st, not(nilOf(o)), v)
			}
			return res(st, not(nilOf(o)), v)
		}
		c := and(not(nilOf(o)), eq(mkApp("tag", SRef, o.id), typeRef(i.AssertedType)))
		if d := x.decide(st, c); d != nil {
			c = d
		}
		if c == tFalse {
			return res(st, c, x.zero(i.AssertedType))
		}
		return res(st, c, x.objPtr(o.id, i.AssertedType))
	case *ErrV:
		return res(st, o.isErr, v)
	}
	fail("type assertion on %T", v)
	return nil
}

// simpNum simplifies with numeric equalities only
func simpNum(st *State, c *Term) *Term {
	m := map[*Term]*Term{}
	for k, v := range st.f.m {
		if k.kind == KVar || k.kind == KApp {
			if isNum(k.sort) {
				m[k] = v
			}
		}
	}
	return subst(c, m)
}
