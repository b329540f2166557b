package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"go/types"
	"golang.org/x/tools/go/ssa"
)

type oblResult struct {
	Name   string  `json:"name"`
	Pos    string  `json:"pos"`
	Fn     string  `json:"fn,omitempty"`
	OK     bool    `json:"ok"`
	Method string  `json:"method,omitempty"`
	Info   string  `json:"info,omitempty"`
	Secs   float64 `json:"secs"`
	Safety bool    `json:"safety,omitempty"`
	Goal   string  `json:"goal,omitempty"`
}
type runResult struct {
	Harness string      `json:"harness"`
	Err     string      `json:"err,omitempty"`
	Obls    []oblResult `json:"obls"`
	Funcs   []string    `json:"funcs"`
	Trusted []string    `json:"trusted"`
	Paths   int         `json:"paths"`
	Covers  int         `json:"covers"`
	Secs    float64     `json:"secs"`
}

func newExec(l *loaded, timeout, total time.Duration, unroll int) *Exec {
	x := &Exec{reach: map[string]bool{}, summed: map[*item]bool{}, constG: map[*ssa.Global]bool{}, prog: l.prog, pkg: l.pkg, families: map[string]*Base{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		timeout: timeout, funcs: map[string]bool{}, trusted: map[string]bool{}, uses: map[string]*ssa.Function{},
		unrollMax: unroll, loopNote: map[string]string{}, deadline: time.Now().Add(total), seenObl: map[string]bool{}, retypes: map[string]types.Type{}}
	for n, m := range l.pkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "gvUse") {
			x.uses[n] = f
		}
	}
	return x
}

func runHarness(l *loaded, name string, timeout, total time.Duration) (res runResult) {
	t0 := time.Now()
	res.Harness = name
	x := newExec(l, timeout, total, 64)
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res.Err = undecided + r.msg
			default:
				res.Err = fmt.Sprintf("internal: %v", r)
				if os.Getenv("GV_STACK") != "" {
					fmt.Fprintln(os.Stderr, string(debug.Stack()))
				}
			}
			if os.Getenv("GV_STACK") != "" {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
		}
		for _, o := range x.obls {
			if o.approx && !o.ok {
				if res.Err == "" {
					res.Err = undecided + "an obligation depends on a loop whose effect is approximated: " + o.name + " at " + o.pos
				}
				continue
			}
			r := oblResult{Name: o.name, Pos: o.pos, Fn: o.fn, OK: o.ok, Method: o.method, Info: o.info, Secs: o.dur.Seconds(), Safety: o.safety}
			if !o.ok || os.Getenv("GV_V") == "2" && o.dur > time.Second {
				r.Goal = clip(o.goal.String(), 4000)
			}
			res.Obls = append(res.Obls, r)
		}
		for f := range x.funcs {
			res.Funcs = append(res.Funcs, f)
		}
		for f := range x.trusted {
			res.Trusted = append(res.Trusted, f)
		}
		sort.Strings(res.Funcs)
		sort.Strings(res.Trusted)
		res.Covers = x.covers
		res.Secs = time.Since(t0).Seconds()
	}()
	fn := l.pkg.Func(name)
	if fn == nil {
		res.Err = "no such contract function"
		return
	}
	outs := x.callFn(newState(), fn, nil, nil)
	for name, feasible := range x.reach {
		if !feasible {
			x.obls = append(x.obls, &Obligation{name: "vacuity: " + name, info: "precondition unsatisfiable", goal: tFalse})
		}
	}
	for _, o := range outs {
		if o.panc {
			x.oblige(o.st, "no-panic", fn.Pos(), fn, tFalse, true)
		}
	}
	res.Paths = len(outs)
	return
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gv run|list|check …")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("gv", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	spec := fs.String("spec", "/verif/spec", "")
	name := fs.String("harness", "", "")
	exact := fs.String("exact", "", "")
	js := fs.Bool("json", false, "")
	timeout := fs.Duration("timeout", 20*time.Second, "per obligation")
	total := fs.Duration("total", 300*time.Second, "per harness")
	if os.Args[1] == "check" {
		r := os.Getenv("GV_REPO")
		if r == "" {
			r = "/repo"
		}
		os.Exit(check(os.Args[2:], r))
	}
	fs.Parse(os.Args[2:])
	if f := os.Getenv("GV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "list":
		for _, h := range listHarnesses(*spec) {
			fmt.Println(h.name, h.file, h.flags, h.doc)
		}
	case "run":
		t0 := time.Now()
		var hs []string
		for _, h := range listHarnesses(*spec) {
			if *exact != "" && h.name == *exact || *exact == "" && strings.HasPrefix(h.name, *name) {
				hs = append(hs, h.name)
			}
		}
		l, err := load(*repo, *spec, nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for f, e := range l.dropped {
			fmt.Fprintln(os.Stderr, "DROPPED", f, e)
		}
		if !*js {
			fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
		}
		bad := 0
		for _, h := range hs {
			r := runHarness(l, h, *timeout, *total)
			if r.Err == "no such contract function" {
				for f, e := range l.dropped {
					r.Err += "; " + f + ": " + e
				}
			}
			if *js {
				b, _ := json.Marshal(r)
				fmt.Println(string(b))
				continue
			}
			nok := 0
			for _, o := range r.Obls {
				if o.OK {
					nok++
				}
			}
			fmt.Printf("%s: %d/%d obligations, %d paths, %d covers, %.1fs %s\n", h, nok, len(r.Obls), r.Paths, r.Covers, r.Secs, r.Err)
			if r.Err != "" || nok != len(r.Obls) {
				bad++
			}
			for _, o := range r.Obls {
				if !o.OK {
					fmt.Printf("   FAILED %s at %s (%s) %s\n      %s\n", o.Name, o.Pos, o.Fn, clip(o.Info, 300), clip(o.Goal, 700))
				} else if os.Getenv("GV_V") != "" {
					fmt.Printf("   ok %s at %s (%s) %s %.2fs\n", o.Name, o.Pos, o.Fn, o.Method, o.Secs)
					if o.Goal != "" {
						fmt.Println("        ", o.Goal)
					}
				}
			}
		}
		if bad > 0 {
			pprof.StopCPUProfile()
			os.Exit(1)
		}
	}
}
