package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// loopsOf finds the natural loops of a function, keyed by header
func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if m, ok := x.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := m[h]
			if l == nil {
				l = &loopInfo{fn: fn, header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = l
			}
			var work []*ssa.BasicBlock
			if !l.blocks[b] {
				l.blocks[b] = true
				work = append(work, b)
			}
			for len(work) > 0 {
				n := work[len(work)-1]
				work = work[:len(work)-1]
				for _, p := range n.Preds {
					if !l.blocks[p] {
						l.blocks[p] = true
						work = append(work, p)
					}
				}
			}
		}
	}
	x.loops[fn] = m
	return m
}

func (x *Exec) loopOf(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo { return x.loopsOf(fn)[b] }

// latchLoop is the loop whose continuation is decided at the end of b
func (x *Exec) latchLoop(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	for _, s := range b.Succs {
		if l := x.loopsOf(fn)[s]; l != nil && l.blocks[b] {
			return l
		}
	}
	return nil
}

func (x *Exec) isExitTest(l *loopInfo, b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if !l.blocks[s] {
			return true
		}
	}
	return false
}

// bottomTests are the blocks at whose end it's decided whether a loop goes on
func (x *Exec) bottomTests(l *loopInfo) map[*ssa.BasicBlock]bool {
	bs := map[*ssa.BasicBlock]bool{}
	for b := range l.blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && x.isExitTest(l, b) && x.latchLoop(l.fn, b) == l {
			bs[b] = true
		}
	}
	return bs
}

// plainLatch is the block at whose end it's always decided whether a loop goes on, if what is used after the loop are the
// variables of the next iteration
func (x *Exec) plainLatch(l *loopInfo) *ssa.BasicBlock {
	var latch *ssa.BasicBlock
	for i, p := range l.header.Preds {
		if !l.blocks[p] {
			continue
		}
		if latch != nil {
			return nil
		}
		latch = l.header.Preds[i]
	}
	if latch == nil || !x.bottomTests(l)[latch] {
		return nil
	}
	after := latch.Succs[0]
	if after == l.header {
		after = latch.Succs[1]
	}
	if l.blocks[after] {
		return nil
	}
	next := map[ssa.Value]bool{}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, b := range l.header.Preds {
			if b == latch {
				if q, ok := p.Edges[i].(*ssa.Phi); ok && q.Block() == l.header {
					return nil
				}
				next[p.Edges[i]] = true
			}
		}
	}
	lost := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Block() != nil && in.Parent() == l.fn && l.blocks[in.Block()] && !next[v]
	}
	reach := map[*ssa.BasicBlock]bool{after: true}
	for work := []*ssa.BasicBlock{after}; len(work) > 0; {
		b := work[0]
		work = work[1:]
		for _, s := range b.Succs {
			if !reach[s] && s != l.header {
				reach[s] = true
				work = append(work, s)
			}
		}
	}
	for b := range reach {
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				for i, e := range p.Edges {
					if (b.Preds[i] == latch || reach[b.Preds[i]]) && lost(e) {
						return nil
					}
				}
				continue
			}
			for _, o := range in.Operands(nil) {
				if *o != nil && lost(*o) {
					return nil
				}
			}
		}
	}
	return latch
}

func (x *Exec) hasHeaderTest(l *loopInfo) bool {
	_, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	return ok && x.isExitTest(l, l.header)
}

// A loop with an unknown number of iterations is replaced by its exact effect, found and checked
// in two executions of its body on a generic iteration k:
//
//  1. From an arbitrary state (everything the body changes holds an unknown value h), the body gives
//     the value after the iteration as a function of h and k. Solving this recurrence gives the value
//     at the start of iteration k as a closed form. Only recurrences with an exact solution are
//     accepted: unchanged, h + d(k) (a sum), overwritten (last writer), disjunction or conjunction,
//     and appending; anything else makes the loop unsupported.
//  2. From that closed form, for 0 <= k < N, the body is executed again and its obligations are
//     recorded. Ways to leave the loop early continue from here.
//
// The induction is sound: iteration k maps the closed form at k to the one at k+1 for all states,
// hence in particular for the reachable ones.

// loopLeaf is a part of a variable or memory cell that changes in the loop
type loopLeaf struct {
	h, x0 Value
	sol   func(k *Term) Value // nil: not solved yet
}

type loopVar struct {
	phi    *ssa.Phi
	b      *Base
	pv     []*Term // generic position in array b
	h, x0  Value   // phi, or cell
	leaves map[string]*loopLeaf
	old    *Content
	hc     *Content // havocked contents
	hname  string   // havoc symbol of an array
	solC   func(k *Term) *Content
}

type loopSum struct {
	x      *Exec
	l      *loopInfo
	pre    *State
	fr     *Frame
	k      *Term
	depth  int
	vars   []*loopVar
	ends   []pathEnd // of the generic iteration
	guards []*Term
	preLen int
	start  *State
	f      *facts // 0 <= k < N, once known
	n      *Term
	test   *Term // the loop goes on at k
	freshN bool
	latch  *ssa.BasicBlock                // the only test is here, at the end of each iteration
	bottom bool                           // the test is at the end of an iteration: n is the number of times it goes on
	atoms  map[*Term]*Term                // havoc atom -> value at start of iteration k
	fns    map[string]func([]*Term) *Term // havoc array -> contents at start of iteration k
	hvs    map[string]bool                // unsolved havoc symbols
	fresh  map[*Base]*Content
	axioms []func(i *Term) *Term

	freshMaps []freshMap
}

var debugLoop = os.Getenv("GV_LOOP") != ""

// trySummarise replaces the loop by its effect. If that isn't known, passes are executed one by one, and that's fine if
// only a few are possible.
func (x *Exec) trySummarise(l *loopInfo, it item, passes int) (res []item, ends []pathEnd, why any) {
	const most = 3
	obls, approx, covers, failed := len(x.obls), x.approx, x.covers, x.failed
	if passes > 0 && passes < most {
		return nil, nil, "already tried"
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok || passes >= most || x.failed != failed || time.Now().After(x.deadline) {
				panic(r)
			}
			if debugLoop {
				fmt.Fprintf(os.Stderr, "UNROLL %s: %v\n", l.fn, r)
			}
			x.obls, x.approx, x.covers, why = x.obls[:obls], approx, covers, r
		}
	}()
	res, ends = x.summarise(l, it)
	return
}

func (x *Exec) summarise(l *loopInfo, it item) ([]item, []pathEnd) {
	bottom := !x.hasHeaderTest(l)
	if bottom && len(x.bottomTests(l)) == 0 {
		fail("loop in %s isn't bounded and has no test at its head or end", l.fn)
	}
	if x.sums++; x.sums > 2000 {
		fail("too many unbounded loops in %s", l.fn)
	}
	freshCtr++
	s := &loopSum{x: x, l: l, pre: it.st, fr: it.fr, k: mkVar(fmt.Sprintf("it!%d", freshCtr), SInt), bottom: bottom}
	if bottom || l.blocks[l.header] && len(l.blocks) == 1 {
		if s.latch = x.plainLatch(l); s.latch != nil {
			s.bottom = false
		}
	}
	s.depth = len(it.st.iters)
	changed := map[*Base]bool{}
	leaves := map[string]bool{}
	for round := 0; ; round++ {
		if round > 12 {
			fail("loop in %s: changed objects unknown", l.fn)
		}
		if !s.generic(changed, leaves) {
			break
		}
	}
	s.solve()
	return s.finish()
}

// eachLeaf rebuilds a value from its scalar (or opaque) parts
func eachLeaf(v Value, path string, f func(path string, v Value) Value) Value {
	switch t := v.(type) {
	case *StructV:
		r := &StructV{}
		for i, e := range t.fs {
			r.fs = append(r.fs, eachLeaf(e, fmt.Sprintf("%s.%d", path, i), f))
		}
		return r
	case *ArrV:
		r := &ArrV{}
		for i, e := range t.es {
			r.es = append(r.es, eachLeaf(e, fmt.Sprintf("%s.%d", path, i), f))
		}
		return r
	case *TupleV:
		r := &TupleV{}
		for i, e := range t.vs {
			r.vs = append(r.vs, eachLeaf(e, fmt.Sprintf("%s.%d", path, i), f))
		}
		return r
	case *ErrV:
		if c, ok := f(path+".err", t.isErr).(*Term); ok {
			return &ErrV{c}
		}
		return &OpaqueV{"havoc"}
	}
	return f(path, v)
}

func leavesOf(v Value) map[string]Value {
	m := map[string]Value{}
	eachLeaf(v, "", func(p string, v Value) Value {
		m[p] = v
		return v
	})
	return m
}

func (v *loopVar) key() string {
	if v.phi != nil {
		return "phi " + v.phi.Name()
	}
	return v.b.name
}

// havocLeaf is an arbitrary value in place of v
func (s *loopSum) havocLeaf(st *State, v Value) Value {
	freshCtr++
	name := fmt.Sprintf("hv!%d", freshCtr)
	s.hvs[name] = true
	switch t := v.(type) {
	case *Term:
		srt := t.sort
		if t.kind == KPoly {
			srt = SReal
			if t.intp {
				srt = SInt
			}
		}
		return mkApp(name, srt, st.iters...)
	case *SliceV:
		nonneg[name+".len"] = true
		s.hvs[name+".len"] = true
		var b *Base
		if t.b != nil {
			b = newBase(name, t.b.elem, true)
		} else {
			b = newBase(name, nil, true)
		}
		b.arity = len(st.iters)
		b.lazy = &Content{init: func(x *Exec, st *State, idx []*Term) Value {
			fail("element of an accumulated slice read in the loop")
			return nil
		}}
		return &SliceV{b: b, idx: append([]*Term{}, st.iters...), off: num(0), len: mkApp(name+".len", SInt, st.iters...), cap: mkApp(name+".len", SInt, st.iters...), nilT: mkApp(name+".nil", SBool, st.iters...)}
	}
	return &OpaqueV{name}
}

// generic executes the body once from arbitrary values; true if more turned out to change
func (s *loopSum) generic(changed map[*Base]bool, leaves map[string]bool) bool {
	x := s.x
	st, fr := s.pre.clone(), s.fr.clone()
	s.vars, s.ends, s.guards = nil, nil, nil
	s.atoms, s.fns, s.hvs = map[*Term]*Term{}, map[string]func([]*Term) *Term{}, map[string]bool{}
	st.quiet++
	cell := func(v *loopVar) {
		v.leaves = map[string]*loopLeaf{}
		v.h = eachLeaf(v.x0, "", func(p string, x0 Value) Value {
			if !leaves[v.key()+p] {
				return x0
			}
			lf := &loopLeaf{x0: x0, h: s.havocLeaf(st, x0)}
			v.leaves[p] = lf
			return lf.h
		})
		s.vars = append(s.vars, v)
	}
	over := map[*ssa.Phi]Value{}
	for _, in := range s.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := &loopVar{phi: p}
		if ov, ok := s.fr.phiOverride[p]; ok {
			v.x0 = ov
		} else {
			for i, pr := range s.l.header.Preds {
				if pr == fr.prev {
					v.x0 = x.get(fr, p.Edges[i])
				}
			}
		}
		cell(v)
		over[p] = v.h
	}
	var bs []*Base
	for b := range changed {
		bs = append(bs, b)
	}
	sortBases(bs)
	for _, b := range bs {
		v := &loopVar{b: b, old: x.content(s.pre, b)}
		n := b.arity
		if b.array {
			n++
		}
		if b.mat {
			n++
		}
		if n == 0 {
			v.x0 = x.readC(s.pre, b, v.old, nil)
			cell(v)
			h := v.h
			v.hc = &Content{init: func(*Exec, *State, []*Term) Value { return h }}
		} else {
			freshCtr++
			v.hname = fmt.Sprintf("hv!%d", freshCtr)
			if b.symm {
				v.hname = "sym:" + v.hname
			}
			et, name := b.elem, v.hname
			s.hvs[name] = true
			for i := 0; i < n; i++ {
				srt := SInt
				if b.objType != "" && i == 0 {
					srt = SRef
				}
				v.pv = append(v.pv, freshVar("pos", srt))
			}
			v.hc = &Content{init: func(x *Exec, st *State, idx []*Term) Value {
				if _, ok := et.Underlying().(*types.Basic); !ok {
					return &OpaqueV{name}
				}
				return x.gen(et, name, idx)
			}}
			s.vars = append(s.vars, v)
		}
		st.setC(b, v.hc)
	}
	st.iters = append(st.iters[:len(st.iters):len(st.iters)], s.k)
	st.assume(le(num(0), s.k), false)
	fr.phiOverride, fr.noSum, fr.snap = over, nil, nil
	fr.counts = map[*ssa.BasicBlock]int{}
	s.preLen = len(st.pc)
	s.start = st.clone()
	s.ends = x.run([]item{{st, fr}}, &loopStop{s.l, s.latch})
	more := false
	for _, e := range s.ends {
		var br []*Term
		for _, p := range e.st.pc[s.preLen:] {
			if p.branch {
				br = append(br, p.t)
			}
		}
		s.guards = append(s.guards, and(br...))
		if e.kind != endContinue {
			continue
		}
		if len(e.st.iters) != s.depth+1 {
			fail("iteration context lost in %s", s.l.fn)
		}
		for b, c := range e.st.heap {
			c0, ok := s.start.heap[b]
			if !ok && b.lazy != nil {
				c0, ok = b.lazy, true
			}
			if ok && c != c0 && !changed[b] {
				changed[b] = true
				more = true
			}
		}
		for b, c := range e.st.maps {
			c0, ok := s.start.maps[b]
			if !ok && b.input {
				c0, ok = b.lazyMap, true
			}
			if ok && c != c0 {
				fail("map changed in an unbounded loop in %s", s.l.fn)
			}
		}
		for g, v := range e.st.ghost {
			if s.start.ghost[g] != v {
				fail("ghost state changed in an unbounded loop in %s", s.l.fn)
			}
		}
		for _, v := range s.vars {
			if v.pv != nil {
				continue
			}
			post := s.post(v, e)
			want, have := leavesOf(v.h), leavesOf(post)
			for p, h := range want {
				if v.leaves[p] != nil {
					continue
				}
				if q, ok := have[p]; !ok || !valEq(q, h) {
					leaves[v.key()+p] = true
					more = true
				}
			}
		}
	}
	if debugLoop {
		fmt.Fprintf(os.Stderr, "LOOP %s %s: %d ends, more=%v\n", s.l.fn, x.prog.Fset.Position(s.l.header.Instrs[0].Pos()), len(s.ends), more)
	}
	return more
}

// post is the value of a variable after the iteration that ended with e
func (s *loopSum) post(v *loopVar, e pathEnd) Value {
	if v.phi != nil {
		for i, pr := range s.l.header.Preds {
			if pr == e.fr.prev {
				return s.x.get(e.fr, v.phi.Edges[i])
			}
		}
		fail("no edge for loop variable in %s", s.l.fn)
	}
	return s.x.readBase(e.st, v.b, nil)
}

func sortBases(bs []*Base) {
	for i := range bs {
		for j := i; j > 0 && bs[j].id < bs[j-1].id; j-- {
			bs[j], bs[j-1] = bs[j-1], bs[j]
		}
	}
}

// at substitutes solved havoc values and moves from iteration k to iteration i
func (s *loopSum) at(i *Term) func(*Term) *Term {
	return func(t *Term) *Term {
		sm := &substM{m: s.atoms, fns: s.fns, memo: map[*Term]*Term{}}
		t = sm.rec(t)
		if s.f != nil {
			t = s.f.simp(t)
		}
		if i != s.k {
			t = subst1(t, s.k, i)
		}
		return t
	}
}

func (s *loopSum) atVal(v Value, i *Term) Value { return mapTerms(v, s.at(i)) }

// open tells whether a term depends on values of unsolved variables
func (s *loopSum) open(ts ...*Term) bool {
	for _, t := range ts {
		if hasApp(t, s.hvs) {
			return true
		}
	}
	return false
}

func (s *loopSum) openVal(v Value) bool {
	o := false
	mapTerms(v, func(t *Term) *Term {
		o = o || s.open(t)
		return t
	})
	return o || hasOpaque(v, s.hvs)
}

func hasOpaque(v Value, names map[string]bool) bool {
	switch t := v.(type) {
	case *OpaqueV:
		return names[t.name]
	case *StructV:
		for _, f := range t.fs {
			if hasOpaque(f, names) {
				return true
			}
		}
	case *ArrV:
		for _, f := range t.es {
			if hasOpaque(f, names) {
				return true
			}
		}
	case *IteV:
		return hasOpaque(t.a, names) || hasOpaque(t.b, names)
	case *IfaceV:
		return hasOpaque(t.v, names)
	case *SliceV:
		return t.b != nil && names[strings.SplitN(t.b.name, "@", 2)[0]]
	case *PtrV:
		return t.b != nil && names[strings.SplitN(t.b.name, "@", 2)[0]]
	}
	return false
}

func hasApp(t *Term, names map[string]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.kind == KApp && names[t.name] {
			return true
		}
		if t.kind == KPoly {
			for _, m := range t.mons {
				for _, f := range m.fs {
					if rec(f.a) {
						return true
					}
				}
			}
			return false
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// cont are the ends of the generic iteration that reach the next one, with their conditions
func (s *loopSum) cont() (ends []pathEnd, guards []*Term) {
	for i, e := range s.ends {
		if e.kind == endContinue {
			ends = append(ends, e)
			guards = append(guards, s.guards[i])
		}
	}
	return
}

// merged joins a value over the ends that continue
func (s *loopSum) merged(f func(pathEnd) Value) Value {
	ends, guards := s.cont()
	var v Value
	for i := len(ends) - 1; i >= 0; i-- {
		w := s.atVal(f(ends[i]), s.k)
		if v == nil {
			v = w
		} else {
			v = mergeVal(s.at(s.k)(guards[i]), w, v)
		}
	}
	return v
}

func (s *loopSum) solve() {
	ends, _ := s.cont()
	if len(ends) == 0 { // never comes back
		s.findN()
		return
	}
	for {
		progress, left := false, 0
		var stuck string
		for _, v := range s.vars {
			if v.pv != nil {
				if v.solC != nil {
					continue
				}
				if s.n != nil && s.solveArray(v) {
					progress = true
				} else {
					left++
					stuck = v.key()
				}
				continue
			}
			for p, lf := range v.leaves {
				if lf.sol != nil {
					continue
				}
				if s.solveLeaf(v, p, lf) {
					progress = true
				} else {
					left++
					stuck = v.key() + p
				}
			}
		}
		if s.n == nil {
			if s.findN() {
				progress = true
			} else {
				stuck = "number of iterations"
				left++
			}
		}
		if left == 0 {
			return
		}
		if !progress {
			if debugLoop {
				s.dump()
			}
			if s.n != nil && s.approximate() {
				continue
			}
			fail("loop in %s (%s): can't solve for %s", s.l.fn, shortPath(s.x.prog.Fset.Position(s.l.header.Instrs[0].Pos()).String()), stuck)
		}
	}
}

// approximate takes what can't be solved to be arbitrary. What is proved with this holds; what isn't remains undecided.
func (s *loopSum) approximate() bool {
	x := s.x
	elems := map[*loopLeaf]types.Type{}
	for _, v := range s.vars {
		if v.pv != nil {
			et := v.b.elem
			if _, ok := et.Underlying().(*types.Basic); v.solC == nil && !ok {
				return false
			}
			continue
		}
		for p, lf := range v.leaves {
			if lf.sol != nil {
				continue
			}
			switch h := lf.h.(type) {
			case *Term:
			case *SliceV:
				if elems[lf] = h.b.elem; h.b.elem == nil {
					for _, e := range s.ends {
						if e.kind != endContinue {
							continue
						}
						if w, ok := leavesOf(s.post(v, e))[p].(*SliceV); ok && w.b != nil && w.b.elem != nil {
							elems[lf] = w.b.elem
						}
					}
				}
				if elems[lf] == nil {
					return false
				}
			default:
				return false
			}
		}
	}
	name := func() string {
		freshCtr++
		return fmt.Sprintf("unk!%d", freshCtr)
	}
	at := func(k *Term) []*Term { return append(append([]*Term{}, s.pre.iters...), k) }
	for _, v := range s.vars {
		v := v
		if v.pv != nil {
			if v.solC == nil {
				n, et := name(), v.b.elem
				if v.b.symm {
					n = "sym:" + n
				}
				v.solC = func(k *Term) *Content {
					return &Content{init: func(x *Exec, st *State, idx []*Term) Value {
						return x.gen(et, n, append(at(k), idx...))
					}}
				}
				s.fns[v.hname] = func(idx []*Term) *Term {
					return x.gen(et, n, append(at(s.k), idx...)).(*Term)
				}
				delete(s.hvs, v.hname)
			}
			continue
		}
		for _, lf := range v.leaves {
			lf := lf
			if lf.sol != nil {
				continue
			}
			n := name()
			switch h := lf.h.(type) {
			case *Term:
				srt, x0 := asAtom(h).sort, lf.x0.(*Term)
				s.solved(lf, func(k *Term) Value { return ite(eqz(k), x0, mkApp(n, srt, at(k)...)) })
			case *SliceV:
				nonneg[n+".len"] = true
				nonneg[n+".spare"] = true
				et := elems[lf]
				b := newBase(n, et, true)
				b.arity = len(s.pre.iters) + 1
				b.lazy = &Content{init: func(x *Exec, st *State, idx []*Term) Value { return x.gen(et, n, idx) }}
				s.solved(lf, func(k *Term) Value {
					l := mkApp(n+".len", SInt, at(k)...)
					return &SliceV{b: b, idx: at(k), off: num(0), len: l, cap: add(l, mkApp(n+".spare", SInt, at(k)...)), nilT: and(mkApp(n+".nil", SBool, at(k)...), eqz(l))}
				})
			}
		}
	}
	x.approx = true
	return true
}

func (s *loopSum) dump() {
	for _, v := range s.vars {
		if v.pv != nil {
			if v.solC == nil {
				fmt.Fprintln(os.Stderr, "  array", v.key(), clip(valString(s.merged(func(e pathEnd) Value { d, _ := s.change(v, e); return d })), 1500))
			}
			continue
		}
		for p, lf := range v.leaves {
			if lf.sol == nil {
				fmt.Fprintln(os.Stderr, "  leaf", v.key(), p, valString(lf.h), "->", clip(valString(s.merged(func(e pathEnd) Value { return leavesOf(s.post(v, e))[p] })), 1500))
			}
		}
	}
}

func (s *loopSum) solved(lf *loopLeaf, sol func(k *Term) Value) {
	lf.sol = sol
	switch h := lf.h.(type) {
	case *Term:
		delete(s.hvs, asAtom(h).name)
		s.atoms[asAtom(h)] = sol(s.k).(*Term)
	case *SliceV:
		r := sol(s.k).(*SliceV)
		delete(s.hvs, asAtom(h.len).name)
		s.atoms[asAtom(h.len)] = r.len
		s.atoms[h.nilT] = nilOf(r)
		// the slice itself stays an unsolved symbol: values holding it aren't supported
	}
}

// solveLeaf finds the value at the start of iteration k of a variable
func (s *loopSum) solveLeaf(v *loopVar, path string, lf *loopLeaf) bool {
	ends, _ := s.cont()
	var posts []Value
	same := true
	for _, e := range ends {
		p := leavesOf(s.post(v, e))[path]
		if p == nil {
			return false
		}
		posts = append(posts, s.atVal(p, s.k))
		same = same && valEq(posts[0], posts[len(posts)-1])
	}
	if !same && s.n == nil {
		return false // the number of iterations simplifies conditions
	}
	if sl, ok := lf.h.(*SliceV); ok {
		return s.solveSlice(lf, sl, posts)
	}
	post := s.merged(func(e pathEnd) Value { return leavesOf(s.post(v, e))[path] })
	h, isTerm := lf.h.(*Term)
	if !isTerm {
		if s.openVal(post) {
			return false
		}
		s.solved(lf, s.lastValue(lf.x0, post))
		return true
	}
	pt, ok := post.(*Term)
	if !ok {
		return false
	}
	x0 := lf.x0.(*Term)
	k := s.k
	if pt == h {
		s.solved(lf, func(*Term) Value { return x0 })
		return true
	}
	if !s.open(pt) {
		s.solved(lf, s.lastValue(x0, pt))
		return true
	}
	if h.kind == KPoly {
		d := sub(pt, h)
		if s.open(d) {
			if m := factorOf(pt, asAtom(h)); m != nil && !s.open(m) && !hasVar(m, asAtom(k)) {
				s.solved(lf, func(i *Term) Value { return mul2(x0, powT(m, i)) })
				return true
			}
			return false
		}
		s.solved(lf, func(i *Term) Value { return add(x0, sumOver(num(0), i, asAtom(k), d)) })
		return true
	}
	if h.sort == SBool {
		onF := subst(pt, map[*Term]*Term{h: tFalse})
		onT := subst(pt, map[*Term]*Term{h: tTrue})
		if s.open(onF, onT) {
			return false
		}
		switch {
		case onT == tTrue:
			s.solved(lf, func(i *Term) Value { return or(x0, existsIn(k, num(0), i, onF)) })
			return true
		case onF == tFalse:
			s.solved(lf, func(i *Term) Value { return and(x0, forallIn(k, num(0), i, onT)) })
			return true
		}
	}
	return false
}

func forallIn(k, lo, hi, body *Term) *Term {
	if body == tTrue {
		return tTrue
	}
	v := freshVar("q", SInt)
	return forallT(asAtom(v), implies(and(le(lo, v), lt(v, hi)), subst1(body, k, v)))
}
func existsIn(k, lo, hi, body *Term) *Term { return not(forallIn(k, lo, hi, not(body))) }

// lastValue: every iteration overwrites the variable with a value that doesn't depend on it
func (s *loopSum) lastValue(x0, post Value) func(*Term) Value {
	return func(i *Term) Value {
		m := sub(i, num(1))
		return mergeVal(eqz(i), x0, mapTerms(post, func(t *Term) *Term { return subst1(t, s.k, m) }))
	}
}

// solveSlice: every iteration appends one element, or some of them do
func (s *loopSum) solveSlice(lf *loopLeaf, h *SliceV, posts []Value) bool {
	_, guards := s.cont()
	cnt := -1
	var elem types.Type
	items := make([][]Value, len(posts))
	for e, p := range posts {
		sl, ok := p.(*SliceV)
		if !ok {
			return false
		}
		var its []Value
		for sl.b != h.b {
			if sl.b == nil || sl.b.app == nil || sl.b.app.items == nil {
				return false
			}
			elem = sl.b.elem
			its = append(append([]Value{}, sl.b.app.items...), its...)
			sl = sl.b.app.prev
		}
		if len(its) > 1 {
			return false
		}
		items[e] = its
		if cnt >= 0 && cnt != len(its) {
			cnt = 2 // depends on the iteration
		} else if cnt < 0 {
			cnt = len(its)
		}
	}
	x0 := lf.x0.(*SliceV)
	var item Value
	var some []*Term
	for e := len(posts) - 1; e >= 0; e-- {
		if len(items[e]) == 0 {
			continue
		}
		w := s.atVal(items[e][0], s.k)
		g := s.at(s.k)(guards[e])
		some = append(some, g)
		if item == nil {
			item = w
		} else {
			item = mergeVal(g, w, item)
		}
	}
	if item == nil || s.openVal(item) || s.open(some...) {
		return false
	}
	var oc *Content
	if x0.b != nil {
		oc = s.x.content(s.pre, x0.b)
	}
	count := func(i *Term) *Term { return i }
	pick := func(j *Term, its []*Term) *Term { return j }
	rule := ""
	if cnt == 2 {
		// element j comes from iteration sel(j), the j-th one that appends
		when := or(some...)
		count = func(i *Term) *Term { return sumOver(num(0), i, asAtom(s.k), ind(when)) }
		freshCtr++
		name := fmt.Sprintf("sel!%d", freshCtr)
		rule = name
		outer := append([]*Term{}, s.pre.iters...)
		pick = func(j *Term, its []*Term) *Term { return mkApp(name, SInt, append(append([]*Term{}, its...), j)...) }
		inst := func(t *Term, its []*Term, y *Term) *Term {
			m := map[*Term]*Term{}
			for d := range outer {
				m[asAtom(outer[d])] = its[d]
			}
			if y != nil {
				m[asAtom(s.k)] = y
			}
			return subst(t, m)
		}
		selRules[name] = &selRule{
			when:  func(its []*Term, y *Term) *Term { return inst(when, its, y) },
			count: func(its []*Term, n *Term) *Term { return inst(count(n), its, nil) },
		}
		s.axioms = append(s.axioms, func(i *Term) *Term {
			j := freshVar("j", SInt)
			y := pick(j, outer)
			return forallT(asAtom(j), implies(and(le(num(0), j), lt(j, count(i))), and(le(num(0), y), lt(y, i), subst1(when, s.k, y))))
		})
	}
	k := s.k
	nb := newBase("collected", elem, true)
	nb.arity, nb.depth = s.depth, s.depth
	init := func(x *Exec, st *State, idx []*Term) Value {
		j := idx[len(idx)-1]
		m := map[*Term]*Term{asAtom(k): pick(sub(j, x0.len), idx[:s.depth])}
		for d := 0; d < s.depth; d++ {
			m[asAtom(s.pre.iters[d])] = idx[d]
		}
		val := substVal(item, m)
		g := lt(j, x0.len)
		if d := x.decide(st, g); d != nil {
			g = d
		}
		if oc == nil || g == tFalse {
			return val
		}
		return mergeVal(g, x.elemOf(oc, x0)(x, st, j), val)
	}
	if s.fresh == nil {
		s.fresh = map[*Base]*Content{}
	}
	s.fresh[nb] = &Content{init: init}
	spare := freshNat(s.pre, "spare")
	s.solved(lf, func(i *Term) Value {
		if r := selRules[rule]; r != nil && asAtom(i) != asAtom(s.k) && len(r.ends) < 4 {
			outer := append([]*Term{}, s.pre.iters...)
			r.ends = append(r.ends, func(its []*Term) *Term {
				m := map[*Term]*Term{}
				for d := range outer {
					m[asAtom(outer[d])] = its[d]
				}
				return subst(i, m)
			})
		}
		return &SliceV{b: nb, idx: append([]*Term{}, s.pre.iters...), off: num(0), len: add(x0.len, count(i)), cap: add(x0.len, count(i), spare), nilT: and(nilOf(x0), eqz(count(i)))}
	})
	return true
}

// findN finds the number of iterations the test at the head of the loop allows
func (s *loopSum) findN() bool {
	x := s.x
	var xs []*Term
	var tests map[*ssa.BasicBlock]bool
	if s.bottom {
		tests = x.bottomTests(s.l)
	}
	if s.latch != nil {
		xs = s.latchTests()
		if xs == nil {
			return false
		}
	}
	for i, e := range s.ends {
		if s.latch != nil {
			break
		}
		if e.kind == endExit && (e.fr.prev == s.l.header || tests[e.fr.prev]) {
			g := s.guards[i]
			if s.bottom {
				// the last decision is the one at the end; how often the loop goes on is checked in finish
				for _, p := range e.st.pc[s.preLen:] {
					if p.branch {
						g = p.t
					}
				}
			}
			g = s.at(s.k)(g)
			if s.open(g) {
				return false
			}
			if s.bottom && len(xs) > 0 {
				if !hasVar(g, asAtom(s.k)) {
					continue
				}
				xs = nil
			}
			xs = append(xs, g)
		}
	}
	s.test = not(or(xs...))
	k := asAtom(s.k)
	var m *Term
	c := s.test
	neg := false
	if c.kind == KNot {
		c, neg = c.args[0], true
	}
	if c.kind == KLtZ || c.kind == KEqZ && neg {
		if co, rest, ok := linCoef(c.args[0], k); ok && rest.intp {
			one := new(big.Rat).Abs(co).Cmp(ratOne) == 0
			switch {
			case one && c.kind == KLtZ && !neg && co.Sign() > 0: // k + rest < 0
				m = scale(rest, big.NewRat(-1, 1))
			case one && c.kind == KLtZ && neg && co.Sign() < 0: // not rest - k < 0
				m = add(rest, num(1))
			case one && c.kind == KEqZ:
				m = scale(rest, new(big.Rat).Neg(co))
				if x.decide(s.pre, le(num(0), m)) != tTrue && x.feasible(s.pre, lt(m, num(0))) {
					m = nil
				}
			}
		}
	}
	if s.latch != nil && c == tFalse {
		m = num(0)
	}
	if m != nil {
		if x.decide(s.pre, le(num(0), m)) != tTrue && x.feasible(s.pre, lt(m, num(0))) {
			m = ite(lt(m, num(0)), num(0), m)
		}
		s.n = m
		if s.latch != nil {
			s.n = add(m, num(1))
		}
	} else if s.bottom || s.latch != nil {
		if debugLoop {
			fmt.Fprintf(os.Stderr, "  goes on if %s\n", clip(s.test.String(), 400))
		}
		return false
	} else {
		s.n = freshNat(s.pre, "trips")
		s.freshN = true
	}
	s.f = s.pre.f.clone()
	s.f.add(le(num(0), s.k))
	s.f.add(lt(s.k, s.n))
	if !s.bottom && s.latch == nil {
		s.f.add(s.test)
	}
	return true
}

// latchTests are the conditions under which the loop doesn't go on after an iteration
func (s *loopSum) latchTests() (xs []*Term) {
	ends, _ := s.cont()
	if len(ends) == 0 {
		return []*Term{tTrue}
	}
	for _, e := range ends {
		c := e.v.(*Term)
		if s.latch.Succs[0] == s.l.header {
			c = not(c)
		}
		c = s.at(s.k)(c)
		if s.open(c) || len(xs) > 0 && xs[0] != c {
			return nil
		}
		xs = []*Term{c}
	}
	return
}

// writerIndex is the only iteration k that can satisfy a condition
func writerIndex(t, k *Term) *Term {
	switch t.kind {
	case KEqZ:
		p := t.args[0]
		return solveFor(p, k)
	case KAnd:
		for _, a := range t.args {
			if w := writerIndex(a, k); w != nil {
				return w
			}
		}
	case KNot:
		if t.args[0].kind == KAnd {
			var w *Term
			for _, a := range t.args[0].args {
				v := writerIndex(not(a), k)
				if v == nil || w != nil && v != w {
					return nil
				}
				w = v
			}
			return w
		}
	}
	return nil
}

// writer is an update of an array by an iteration: under a condition that determines the iteration
type writer struct {
	when, at *Term
	val      Value
}

// solveWriters splits the conditions of updates until each determines the iteration
func solveWriters(ws []writer, k *Term) []writer {
	var r []writer
	for _, w := range ws {
		for _, d := range disjuncts(w.when) {
			if d == tFalse {
				continue
			}
			at := writerIndex(d, k)
			if at == nil || len(r) == 8 {
				return nil
			}
			r = append(r, writer{d, at, w.val})
		}
	}
	return r
}

// disjuncts is a disjunctive normal form, unless it is too large
func disjuncts(t *Term) []*Term {
	switch {
	case t.kind == KNot && t.args[0].kind == KAnd:
		var r []*Term
		for _, a := range t.args[0].args {
			r = append(r, disjuncts(not(a))...)
		}
		return r
	case t.kind == KAnd:
		r := []*Term{tTrue}
		for _, a := range t.args {
			ds := []*Term{a}
			if a.kind == KNot && a.args[0].kind == KAnd && findApp(a, func(u *Term) bool { return u.kind == KEqZ }) {
				ds = disjuncts(a)
			}
			var n []*Term
			for _, x := range r {
				for _, y := range ds {
					n = append(n, and(x, y))
				}
			}
			if len(n) > 16 {
				return []*Term{t}
			}
			r = n
		}
		return r
	}
	return []*Term{t}
}

// change is the sum of what the updates of one iteration add to a number at a generic position. An
// update at q changes position p by [p = q] (new value - previous value at q).
func (s *loopSum) change(v *loopVar, e pathEnd) (*Term, bool) {
	x := s.x
	d := num(0)
	for c := x.content(e.st, v.b); c != v.hc; c = c.prev {
		if c == nil || c.init != nil {
			return d, false
		}
		if c.fn != nil {
			g := c.cond(v.pv)
			if y := x.decide(e.st, g); y != nil {
				g = y
			}
			if g != tFalse {
				d = add(d, mul(ind(g), sub(x.numVal(e.st, c.fn(x, e.st, v.pv)), x.numVal(e.st, x.readC(e.st, v.b, c.prev, v.pv)))))
			}
			continue
		}
		g := x.matchIdx(e.st, v.b, c.idx, v.pv)
		if c.guard != nil {
			g = and(g, c.guard)
		}
		d = add(d, mul(ind(g), sub(x.numVal(e.st, c.val), x.numVal(e.st, x.readC(e.st, v.b, c.prev, c.idx)))))
	}
	return d, true
}

// solveArray finds the contents of an array at the start of iteration k
func (s *loopSum) solveArray(v *loopVar) bool {
	x, k := s.x, asAtom(s.k)
	inst := func(t *Term, idx []*Term, i *Term) *Term {
		m := map[*Term]*Term{}
		for j, p := range v.pv {
			m[asAtom(p)] = idx[j]
		}
		if i != nil {
			m[k] = i
		}
		return subst(t, m)
	}
	_, basic := v.b.elem.Underlying().(*types.Basic)
	if basic {
		h := x.readC(s.start, v.b, v.hc, v.pv).(*Term)
		if h.kind == KPoly {
			bad := false
			d, _ := s.merged(func(e pathEnd) Value {
				t, ok := s.change(v, e)
				bad = bad || !ok
				return t
			}).(*Term)
			if d != nil && !bad && !s.open(d) {
				v.solC = func(i *Term) *Content {
					return v.old.bulk(func([]*Term) *Term { return tTrue }, func(x *Exec, st *State, idx []*Term) Value {
						o := x.readC(st, v.b, v.old, idx)
						return add(x.numVal(st, o), sumOver(num(0), i, k, inst(d, idx, nil)))
					})
				}
				s.solvedArray(v)
				return true
			}
		}
	}
	ends, guards := s.cont()
	var val Value
	var when []*Term
	var writers []writer
	inPlace := false
again:
	val, when, writers = nil, nil, nil
	for n := len(ends) - 1; n >= 0; n-- {
		e := ends[n]
		c := x.content(e.st, v.b)
		var nodes []*Content
		for c != v.hc {
			if c == nil || c.init != nil {
				return false
			}
			nodes = append(nodes, c)
			c = c.prev
		}
		if len(nodes) == 0 {
			continue
		}
		var w []*Term
		var ev Value
		for j := len(nodes) - 1; j >= 0; j-- {
			nd := nodes[j]
			var g *Term
			var nv Value
			if nd.fn != nil {
				g, nv = nd.cond(v.pv), nd.fn(x, e.st, v.pv)
			} else {
				g, nv = x.matchIdx(e.st, v.b, nd.idx, v.pv), nd.val
				if nd.guard != nil {
					g = and(g, nd.guard)
				}
			}
			g, nv = s.at(s.k)(g), s.atVal(nv, s.k)
			w = append(w, g)
			writers = append(writers, writer{and(g, s.at(s.k)(guards[n])), nil, nv})
			if ev == nil {
				ev = nv
			} else {
				ev = mergeVal(g, nv, ev)
			}
		}
		g := s.at(s.k)(guards[n])
		if val == nil {
			val = ev
		} else {
			val = mergeVal(g, ev, val)
		}
		when = append(when, and(g, or(w...)))
	}
	written := or(when...)
	if written == tFalse {
		v.solC = func(*Term) *Content { return v.old }
		s.solvedArray(v)
		return true
	}
	if s.open(written) || s.openVal(val) {
		if w := writerIndex(written, k); w != nil && !inPlace && !s.open(written) {
			// updated in place: an iteration reads the original contents where no earlier one has written
			inPlace = true
			s.fns[v.hname] = func(idx []*Term) *Term {
				j := inst(w, idx, nil)
				if before := and(within(num(0), j, s.k), inst(written, idx, j)); x.decide(s.pre, before) != tFalse {
					return x.numOrBool(x.gen(v.b.elem, v.hname, idx))
				}
				return x.numOrBool(x.readC(s.pre, v.b, v.old, idx))
			}
			goto again
		}
		if inPlace {
			delete(s.fns, v.hname)
		}
		return false
	}
	instV := func(idx []*Term, i *Term) Value {
		return mapTerms(val, func(t *Term) *Term { return inst(t, idx, i) })
	}
	if w := writerIndex(written, k); w != nil {
		v.solC = func(i *Term) *Content {
			return v.old.bulk(func(idx []*Term) *Term {
				j := inst(w, idx, nil)
				return and(within(num(0), j, i), inst(written, idx, j))
			}, func(x *Exec, st *State, idx []*Term) Value { return instV(idx, inst(w, idx, nil)) })
		}
		s.solvedArray(v)
		return true
	}
	if ws := solveWriters(writers, k); ws != nil {
		// the writer in the latest iteration, and the last one in it, wins
		v.solC = func(i *Term) *Content {
			find := func(idx []*Term) (*Term, Value) {
				has, at := tFalse, num(0)
				var val Value
				for _, w := range ws {
					j := inst(w.at, idx, nil)
					g := and(within(num(0), j, i), inst(w.when, idx, j))
					nv := mapTerms(w.val, func(t *Term) *Term { return inst(t, idx, j) })
					if val == nil {
						has, at, val = g, j, nv
						continue
					}
					take := and(g, or(not(has), le(at, j)))
					val = mergeVal(take, nv, val)
					at = ite(take, j, at)
					has = or(has, g)
				}
				return has, val
			}
			return v.old.bulk(func(idx []*Term) *Term {
				has, _ := find(idx)
				return has
			}, func(x *Exec, st *State, idx []*Term) Value {
				_, val := find(idx)
				return val
			})
		}
		s.solvedArray(v)
		return true
	}
	// the last iteration that writes, if any
	freshCtr++
	id := freshCtr
	last := func(i *Term, idx []*Term) (*Term, *Term) {
		args := append(append(append([]*Term{}, s.pre.iters...), i), idx...)
		return mkApp(fmt.Sprintf("written!%d", id), SBool, args...), mkApp(fmt.Sprintf("writer!%d", id), SInt, args...)
	}
	s.axioms = append(s.axioms, func(i *Term) *Term {
		has, w := last(i, v.pv)
		j := freshVar("j", SInt)
		wj := inst(written, v.pv, j)
		a := implies(has, and(le(num(0), w), lt(w, i), inst(written, v.pv, w)))
		b := forallT(asAtom(j), implies(and(le(num(0), j), lt(j, i), wj), and(has, le(j, w))))
		t := and(a, b)
		for _, p := range v.pv {
			t = forallT(asAtom(p), t)
		}
		return t
	})
	v.solC = func(i *Term) *Content {
		return v.old.bulk(func(idx []*Term) *Term {
			has, _ := last(i, idx)
			return has
		}, func(x *Exec, st *State, idx []*Term) Value {
			_, w := last(i, idx)
			return instV(idx, w)
		})
	}
	s.solvedArray(v)
	return true
}

func (s *loopSum) solvedArray(v *loopVar) {
	delete(s.hvs, v.hname)
	st := s.pre
	s.fns[v.hname] = func(idx []*Term) *Term {
		return s.x.numOrBool(s.x.readC(st, v.b, v.solC(s.k), idx))
	}
}

// install puts the state at the start of iteration i in place
func (s *loopSum) install(st *State, fr *Frame, i *Term) {
	over := map[*ssa.Phi]Value{}
	for _, v := range s.vars {
		if v.pv != nil {
			st.setC(v.b, v.solC(i))
			continue
		}
		val := eachLeaf(v.x0, "", func(p string, x0 Value) Value {
			if lf := v.leaves[p]; lf != nil {
				return lf.sol(i)
			}
			return x0
		})
		if v.phi != nil {
			over[v.phi] = val
		} else {
			st.setC(v.b, &Content{init: func(*Exec, *State, []*Term) Value { return val }})
		}
	}
	fr.phiOverride = over
	for b, c := range s.fresh {
		st.setC(b, c)
	}
}

// objects made in the iterations
func (s *loopSum) collect() {
	if s.fresh == nil {
		s.fresh = map[*Base]*Content{}
	}
	ends, guards := s.cont()
	type ec struct {
		st *State
		c  *Content
		g  *Term
	}
	by := map[*Base][]ec{}
	for i, e := range ends {
		g := s.at(s.k)(guards[i])
		for b, c := range e.st.heap {
			if _, old := s.start.heap[b]; !old && b.lazy == nil {
				if b.depth <= s.depth {
					continue // values made by specifications
				}
				by[b] = append(by[b], ec{e.st, c, g})
			}
		}
		for b, c := range e.st.maps {
			if _, old := s.start.maps[b]; !old && b.lazyMap == nil && b.depth > s.depth {
				s.freshMaps = append(s.freshMaps, freshMap{b, c})
			}
		}
	}
	for b, es := range by {
		b, es := b, es
		s.fresh[b] = &Content{init: func(x *Exec, st *State, idx []*Term) Value {
			at := append([]*Term{}, idx...)
			m := map[*Term]*Term{asAtom(s.k): idx[s.depth]}
			at[s.depth] = s.k
			for d := 0; d < s.depth; d++ {
				m[asAtom(s.pre.iters[d])] = idx[d]
				at[d] = s.pre.iters[d]
			}
			var v Value
			for n := len(es) - 1; n >= 0; n-- {
				w := substVal(s.atVal(x.readC(es[n].st, b, es[n].c, at), s.k), m)
				if v == nil {
					v = w
				} else {
					v = mergeVal(subst(es[n].g, m), w, v)
				}
			}
			return v
		}}
	}
}

type freshMap struct {
	b *Base
	c *MapC
}

func (s *loopSum) finish() (items []item, out []pathEnd) {
	x := s.x
	s.collect()
	if len(s.freshMaps) > 0 {
		fail("map made in an unbounded loop in %s", s.l.fn)
	}
	ends, guards := s.cont()
	// every iteration before the current one reached the next, with these facts
	var gs []*Term
	for _, g := range guards {
		gs = append(gs, s.at(s.k)(g))
	}
	cont := or(gs...)
	var lemmas []*Term
	for n, e := range ends {
		for _, p := range e.st.pc[s.preLen:] {
			if p.branch {
				continue
			}
			t := s.at(s.k)(p.t)
			if t == tTrue || !hasVar(t, asAtom(s.k)) || !hasWitness(t) || s.open(t) {
				continue
			}
			lemmas = append(lemmas, implies(gs[n], t))
		}
	}
	upto := func(st *State, i *Term) {
		for _, ax := range s.axioms {
			st.assume(ax(i), false)
		}
		if cont != tTrue && i != s.n {
			st.assume(forallIn(s.k, num(0), i, cont), false)
		}
		for _, t := range lemmas {
			st.assume(forallIn(s.k, num(0), i, t), false)
		}
	}
	if len(ends) == 0 {
		upto = func(st *State, i *Term) { st.assume(eqz(i), false) }
	}
	body := func(k *Term, quiet int, last bool, prep func(st *State)) []pathEnd {
		st, fr := s.pre.clone(), s.fr.clone()
		s.install(st, fr, k)
		upto(st, k)
		prep(st)
		st.iters = append(st.iters[:len(st.iters):len(st.iters)], k)
		st.assume(le(num(0), k), false)
		if last {
			st.assume(le(k, s.n), false)
		} else {
			st.assume(lt(k, s.n), false)
			if !s.bottom && s.latch == nil {
				st.assume(subst1(s.test, s.k, k), false)
			}
		}
		st.quiet += quiet
		fr.noSum, fr.snap = nil, nil
		fr.counts = map[*ssa.BasicBlock]int{}
		return x.run([]item{{st, fr}}, &loopStop{s.l, s.latch})
	}
	// a generic iteration meets its obligations
	body(s.k, 0, s.bottom, func(*State) {})
	leave := func(ends []pathEnd) {
		for _, e := range ends {
			e.st.iters = e.st.iters[:s.depth:s.depth]
			e.st.quiet--
			switch e.kind {
			case endContinue:
			case endExit:
				if s.bottom || s.latch != nil || e.fr.prev != s.l.header {
					e.fr.noSum, e.fr.snap = s.fr.noSum, s.fr.snap
					e.fr.dropSnap(s.l)
					items = append(items, item{e.st, e.fr})
				}
			default:
				out = append(out, e)
			}
		}
	}
	// the iteration that leaves the loop early
	all := forallIn(s.k, num(0), s.n, cont)
	if all != tTrue {
		k := freshIt(s.pre, "exit", SInt)
		leave(body(k, 1, false, func(st *State) {
			st.assume(not(all), true)
			st.assume(not(subst1(cont, s.k, k)), false)
		}))
	}
	if s.bottom {
		// the iteration that doesn't go on
		ends := body(s.n, 1, true, func(st *State) { st.assume(all, true) })
		for _, e := range ends {
			if e.kind == endContinue && x.feasible(e.st, tTrue) {
				fail("number of iterations of the loop in %s unknown", s.l.fn)
			}
		}
		leave(ends)
		return
	}
	// after the last iteration
	if s.test != tTrue || s.latch != nil {
		st, fr := s.pre.clone(), s.fr.clone()
		s.install(st, fr, s.n)
		st.assume(all, true)
		upto(st, s.n)
		if s.freshN {
			st.assume(forallIn(s.k, num(0), s.n, s.test), false)
			st.assume(not(subst1(s.test, s.k, s.n)), false)
		}
		ns := map[*loopInfo]bool{s.l: true}
		for l, v := range fr.noSum {
			ns[l] = v
		}
		fr.noSum = ns
		fr.counts[s.l.header] = 1
		if s.latch != nil {
			for i, b := range s.l.header.Preds {
				for _, in := range s.l.header.Instrs {
					if p, ok := in.(*ssa.Phi); ok && b == s.latch {
						fr.env[p.Edges[i]] = fr.phiOverride[p]
					}
				}
			}
			t := s.latch.Instrs[len(s.latch.Instrs)-1].(*ssa.If)
			fr.env[t.Cond] = tFalse
			if s.latch.Succs[1] == s.l.header {
				fr.env[t.Cond] = tTrue
			}
			fr.phiOverride = nil
			fr.block, fr.pos = s.latch, len(s.latch.Instrs)-1
		}
		items = append(items, item{st, fr})
	}
	return
}

// hasWitness: the term mentions a symbol introduced by the execution
func hasWitness(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.kind == KApp && strings.Contains(t.name, "!") {
			return true
		}
		if t.kind == KPoly {
			for _, m := range t.mons {
				for _, f := range m.fs {
					if rec(f.a) {
						return true
					}
				}
			}
			return false
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
