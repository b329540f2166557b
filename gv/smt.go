package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type smtPrinter struct {
	decls  map[string]string
	order  []string
	bound  []*Term // bound vars in scope
	axioms []string
	axSeen map[string]bool
	memo   map[*Term]string
}

func newPrinter() *smtPrinter {
	return &smtPrinter{decls: map[string]string{}, axSeen: map[string]bool{}, memo: map[*Term]string{}}
}

func smtSort(s Sort) string {
	switch s {
	case SReal:
		return "Real"
	case SInt:
		return "Int"
	case SBool:
		return "Bool"
	case SStr:
		return "Str"
	}
	return "Ref"
}

func sym(s string) string {
	return "|" + strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, s) + "|"
}

func (p *smtPrinter) declare(name, sig string) {
	if _, ok := p.decls[name]; !ok {
		p.decls[name] = sig
		p.order = append(p.order, name)
	}
}

func argSort(t *Term) Sort {
	if t.kind == KPoly {
		if t.intp {
			return SInt
		}
		return SReal
	}
	return t.sort
}

func (p *smtPrinter) app(name string, res Sort, args []*Term) string {
	var sig, as []string
	mangled := name
	if name == "idiv" {
		return "(div " + p.num(args[0], false) + " " + p.num(args[1], false) + ")"
	}
	for _, a := range args {
		s := argSort(a)
		sig = append(sig, smtSort(s))
		mangled += "'" + smtSort(s)[:1]
		if isNum(s) {
			as = append(as, p.num(a, s == SReal))
		} else if s == SBool {
			as = append(as, p.boolean(a))
		} else {
			as = append(as, p.other(a))
		}
	}
	mangled += ">" + smtSort(res)
	n := sym(mangled)
	if nonneg[name] && (res == SInt || res == SReal) {
		c := func(t string) string {
			if byteRange[name] {
				return fmt.Sprintf("(and (>= %s 0) (<= %s 255))", t, t)
			}
			return fmt.Sprintf("(>= %s 0)", t)
		}
		ground := true
		for _, a := range args {
			ground = ground && !p.hasBound(a)
		}
		if ground {
			t := n
			if len(as) > 0 {
				t = "(" + n + " " + strings.Join(as, " ") + ")"
			}
			if !p.axSeen["nng:"+t] {
				p.axSeen["nng:"+t] = true
				p.axioms = append(p.axioms, c(t))
			}
		} else if !p.axSeen["nn:"+mangled] {
			p.axSeen["nn:"+mangled] = true
			var bs, vs []string
			for i := range args {
				bs = append(bs, fmt.Sprintf("(a%d %s)", i, sig[i]))
				vs = append(vs, fmt.Sprintf("a%d", i))
			}
			t := fmt.Sprintf("(%s %s)", n, strings.Join(vs, " "))
			p.axioms = append(p.axioms, fmt.Sprintf("(forall (%s) (! %s :pattern (%s)))", strings.Join(bs, " "), c(t), t))
		}
	}
	p.declare(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(sig, " "), smtSort(res)))
	if hi := upperBounds[name]; hi != nil && len(as) > 0 {
		if t := "(" + n + " " + strings.Join(as, " ") + ")"; !p.axSeen["hi:"+n] {
			bound := false
			for _, a := range args {
				bound = bound || p.hasBound(a)
			}
			if bound {
				p.axSeen["hi:"+n] = true
				var bs, vs []string
				for i := range args {
					bs = append(bs, fmt.Sprintf("(a%d %s)", i, sig[i]))
					vs = append(vs, fmt.Sprintf("a%d", i))
				}
				t = fmt.Sprintf("(%s %s)", n, strings.Join(vs, " "))
				p.axioms = append(p.axioms, fmt.Sprintf("(forall (%s) (! (< %s %s) :pattern (%s)))", strings.Join(bs, " "), t, p.num(hi, false), t))
			} else if !p.axSeen["hi:"+t] {
				p.axSeen["hi:"+t] = true
				p.axioms = append(p.axioms, fmt.Sprintf("(< %s %s)", t, p.num(hi, false)))
			}
		}
	}
	if b, ok := bijections[name]; ok && len(as) == 1 {
		in := func(t string) string { return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", t, t, p.num(b.n, false)) }
		if t := "(" + n + " " + as[0] + ")"; !p.hasBound(args[0]) && !p.axSeen["bij:"+t] {
			p.axSeen["bij:"+t] = true
			p.axioms = append(p.axioms, fmt.Sprintf("(= %s %s)", in(as[0]), in(t)))
		} else if p.hasBound(args[0]) && !p.axSeen["bijs:"+n] {
			p.axSeen["bijs:"+n] = true
			p.axioms = append(p.axioms, fmt.Sprintf("(forall ((a0 Int)) (! (= %s %s) :pattern ((%s a0))))", in("a0"), in("("+n+" a0)"), n))
		}
	}
	if len(as) == 0 {
		return n
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

func (p *smtPrinter) isBound(t *Term) bool {
	for _, b := range p.bound {
		if b == t {
			return true
		}
	}
	return false
}

func (p *smtPrinter) hasBound(t *Term) bool {
	for _, b := range p.bound {
		if hasVar(t, b) {
			return true
		}
	}
	return false
}

// atom prints a numeric atom in its own sort
func (p *smtPrinter) atom(a *Term) (string, Sort) {
	switch a.kind {
	case KVar:
		n := sym(a.name + ":" + smtSort(a.sort)[:1])
		if !p.isBound(a) {
			p.declare(n, fmt.Sprintf("(declare-fun %s () %s)", n, smtSort(a.sort)))
		}
		return n, a.sort
	case KApp:
		return p.app(a.name, a.sort, a.args), a.sort
	case KInd:
		return "(ite " + p.boolean(a.args[0]) + " 1 0)", SInt
	case KSqrt:
		s := p.app("sqrt", SReal, []*Term{toRealT(a.args[0])})
		if !p.hasBound(a) && !p.axSeen[s] {
			p.axSeen[s] = true
			arg := p.num(a.args[0], true)
			p.axioms = append(p.axioms, fmt.Sprintf("(=> (>= %s 0.0) (and (>= %s 0.0) (= (* %s %s) %s)))", arg, s, s, s, arg))
		}
		return s, SReal
	case KInv:
		return "(/ 1.0 " + p.num(a.args[0], true) + ")", SReal
	case KPow:
		return p.app("pow", SReal, []*Term{toRealT(a.args[0]), a.args[1]}), SReal
	case KSum:
		// uninterpreted in its free bound variables
		body := a.args[1]
		var fv []*Term
		m := map[*Term]*Term{}
		for _, b := range p.bound {
			if hasVar(body, b) {
				m[b] = mkVar(fmt.Sprintf("?%d%s", len(fv), b.sort), b.sort)
				fv = append(fv, wrap(b))
			}
		}
		key := fmt.Sprintf("sum%d", subst(body, m).id)
		args := append([]*Term{a.args[0]}, fv...)
		return p.app(key, a.sort, args), a.sort
	}
	panic("atom " + a.String())
}

func toRealT(t *Term) *Term { return t }

func (p *smtPrinter) num(t *Term, real bool) string {
	t = wrap(t)
	if len(t.mons) == 0 {
		if real {
			return "0.0"
		}
		return "0"
	}
	var parts []string
	for _, m := range t.mons {
		var fs []string
		den := []string{}
		for _, f := range m.fs {
			s, srt := p.atom(f.a)
			if real && srt == SInt {
				s = "(to_real " + s + ")"
			}
			e := f.e
			for ; e > 0; e-- {
				fs = append(fs, s)
			}
			for ; e < 0; e++ {
				den = append(den, s)
			}
		}
		c := m.c
		if c.Cmp(ratOne) != 0 || len(fs) == 0 {
			n := c.Num().String()
			if c.Sign() < 0 {
				n = n[1:]
			}
			if real {
				n += ".0"
			}
			if c.Sign() < 0 {
				n = "(- " + n + ")"
			}
			if !c.IsInt() {
				n = "(/ " + n + " " + c.Denom().String() + ".0)"
			}
			fs = append([]string{n}, fs...)
		}
		s := fs[0]
		if len(fs) > 1 {
			s = "(* " + strings.Join(fs, " ") + ")"
		}
		for _, d := range den {
			s = "(/ " + s + " " + d + ")"
		}
		parts = append(parts, s)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (p *smtPrinter) other(t *Term) string {
	switch t.kind {
	case KVar:
		n := sym(t.name + ":" + smtSort(t.sort)[:1])
		if !p.isBound(t) {
			p.declare(n, fmt.Sprintf("(declare-fun %s () %s)", n, smtSort(t.sort)))
		}
		return n
	case KConst:
		n := sym("const:" + smtSort(t.sort) + ":" + t.name)
		p.declare(n, fmt.Sprintf("(declare-fun %s () %s)", n, smtSort(t.sort)))
		return n
	case KApp:
		return p.app(t.name, t.sort, t.args)
	case KIte:
		return "(ite " + p.boolean(t.args[0]) + " " + p.other(t.args[1]) + " " + p.other(t.args[2]) + ")"
	}
	panic("other " + t.String())
}

func (p *smtPrinter) boolean(t *Term) string {
	if len(p.bound) == 0 {
		if s, ok := p.memo[t]; ok {
			return s
		}
		s := p.boolean1(t)
		p.memo[t] = s
		return s
	}
	return p.boolean1(t)
}

func (p *smtPrinter) boolean1(t *Term) string {
	switch t.kind {
	case KTrue:
		return "true"
	case KFalse:
		return "false"
	case KVar:
		return p.other(t)
	case KNot:
		return "(not " + p.boolean(t.args[0]) + ")"
	case KAnd:
		var s []string
		for _, a := range t.args {
			s = append(s, p.boolean(a))
		}
		return "(and " + strings.Join(s, " ") + ")"
	case KEqZ, KLtZ:
		op := "="
		if t.kind == KLtZ {
			op = "<"
		}
		q := t.args[0]
		// split into positive and negative part for readability and linear solvers
		pos, ng := newAcc(), newAcc()
		for _, m := range q.mons {
			if m.c.Sign() > 0 {
				pos.addMon(m.c, m.fs)
			} else {
				ng.addMon(ratNeg(m.c), m.fs)
			}
		}
		return "(" + op + " " + p.num(pos.poly(), !q.intp) + " " + p.num(ng.poly(), !q.intp) + ")"
	case KEqS:
		return "(= " + p.other(t.args[0]) + " " + p.other(t.args[1]) + ")"
	case KApp:
		if t.name == "strlt" {
			return "(< " + p.other(t.args[0]) + " " + p.other(t.args[1]) + ")"
		}
		return p.app(t.name, SBool, t.args)
	case KForall:
		b := mkNode(KVar, t.bsort, t.name, 0)
		p.bound = append(p.bound, b)
		body := p.boolean(t.args[0])
		p.bound = p.bound[:len(p.bound)-1]
		return fmt.Sprintf("(forall ((%s %s)) %s)", sym(t.name+":"+smtSort(t.bsort)[:1]), smtSort(t.bsort), body)
	}
	panic("bool " + t.String())
}

// script renders a satisfiability query for the conjunction of asserts
func smtScript(asserts []*Term) string {
	p := newPrinter()
	var body []string
	for _, a := range asserts {
		if a == tTrue {
			continue
		}
		body = append(body, "(assert "+p.boolean(a)+")")
	}
	var b strings.Builder
	// strings are totally ordered; nothing else about them is used
	b.WriteString("(define-sort Str () Real)\n(declare-sort Ref 0)\n")
	for _, n := range p.order {
		b.WriteString(p.decls[n] + "\n")
	}
	for _, s := range []string{"Str", "Ref"} {
		var cs []string
		pre := "|const:" + s + ":"
		for _, n := range p.order {
			if strings.HasPrefix(n, pre) {
				cs = append(cs, n)
			}
		}
		sort.Slice(cs, func(i, j int) bool { return strings.Trim(cs[i], "|") < strings.Trim(cs[j], "|") })
		if len(cs) > 1 && s == "Str" {
			b.WriteString("(assert (< " + strings.Join(cs, " ") + "))\n")
		} else if len(cs) > 1 {
			b.WriteString("(assert (distinct " + strings.Join(cs, " ") + "))\n")
		}
	}
	for _, a := range p.axioms {
		b.WriteString("(assert " + a + ")\n")
	}
	for _, s := range body {
		b.WriteString(s + "\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

type smtResult struct {
	status string // sat unsat unknown
	solver string
	dur    time.Duration
	script string
	model  string
}

var solverTime = map[string]time.Duration{}
var solverQueries = map[string]int{}
var solverMu sync.Mutex
var smtCache = map[[32]byte]smtResult{}

func runSolver(ctx context.Context, name, script string, timeout time.Duration) smtResult {
	start := time.Now()
	var cmd *exec.Cmd
	ms := int(timeout / time.Millisecond)
	switch name {
	case "z3":
		cmd = exec.CommandContext(ctx, "z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	case "z3-new":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-q")
		script = "(set-logic ALL)\n" + script
	}
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	st := "unknown"
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" {
			st = l
			break
		}
		if strings.HasPrefix(l, "(error") && ctx.Err() == nil {
			st = "error: " + l
			break
		}
	}
	d := time.Since(start)
	solverMu.Lock()
	solverTime[name] += d
	solverQueries[name]++
	solverMu.Unlock()
	return smtResult{status: st, solver: name, dur: d, script: script}
}

// z3Proc is a running solver answering one query after the other
type z3Proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan string
}

var z3p *z3Proc
var z3Mu sync.Mutex

func startZ3() *z3Proc {
	c := exec.Command("z3", "-in", "-smt2")
	in, err := c.StdinPipe()
	if err != nil {
		return nil
	}
	o, err := c.StdoutPipe()
	if err != nil || c.Start() != nil {
		return nil
	}
	p := &z3Proc{c, in, make(chan string, 64)}
	go func() {
		sc := bufio.NewScanner(o)
		sc.Buffer(make([]byte, 1<<20), 1<<24)
		for sc.Scan() {
			p.out <- strings.TrimSpace(sc.Text())
		}
		close(p.out)
	}()
	return p
}

func (p *z3Proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	go func() {
		for range p.out {
		}
		p.cmd.Wait()
	}()
}

func runZ3(script string, timeout time.Duration) smtResult {
	z3Mu.Lock()
	defer z3Mu.Unlock()
	start := time.Now()
	r := smtResult{status: "unknown", solver: "z3", script: script}
	if z3p == nil {
		z3p = startZ3()
	}
	if z3p != nil {
		fmt.Fprintf(z3p.in, "(reset)\n(set-option :timeout %d)\n%s(echo \"gv-done\")\n", timeout/time.Millisecond, script)
		tm := time.After(timeout + 1500*time.Millisecond)
	loop:
		for {
			select {
			case l, ok := <-z3p.out:
				switch {
				case !ok:
					z3p = nil
					break loop
				case l == "gv-done":
					break loop
				case l == "sat" || l == "unsat":
					r.status = l
				case strings.HasPrefix(l, "(error") && !strings.Contains(l, "canceled") && !strings.Contains(l, "timeout"):
					r.status = "error: " + l
				}
			case <-tm:
				z3p.kill()
				z3p = nil
				break loop
			}
		}
	}
	r.dur = time.Since(start)
	solverMu.Lock()
	solverTime["z3"] += r.dur
	solverQueries["z3"]++
	solverMu.Unlock()
	return r
}

// smtCheck asks the solvers concurrently; the first definite answer wins
func smtCheck(asserts []*Term, timeout time.Duration, solvers ...string) smtResult {
	for _, a := range asserts {
		if a == tFalse {
			return smtResult{status: "unsat", solver: "syntactic"}
		}
	}
	script := smtScript(asserts)
	key := sha256.Sum256([]byte(script + timeout.String() + strings.Join(solvers, ",")))
	if r, ok := smtCache[key]; ok {
		return r
	}
	if len(solvers) == 1 && solvers[0] == "z3" {
		r := runZ3(script, timeout)
		smtCache[key] = r
		return r
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	ch := make(chan smtResult, len(solvers))
	for _, s := range solvers {
		go func(s string) { ch <- runSolver(ctx, s, script, timeout) }(s)
	}
	var last smtResult
	for range solvers {
		r := <-ch
		if r.status == "sat" || r.status == "unsat" {
			smtCache[key] = r
			return r
		}
		if last.status == "" || strings.HasPrefix(r.status, "error") {
			last = r
		}
	}
	smtCache[key] = last
	return last
}

func ratNeg(r *big.Rat) *big.Rat { return new(big.Rat).Neg(r) }
