package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type propRun struct {
	h   harness
	res runResult
}

func contains(list, s string) bool {
	for _, e := range strings.Split(list, ",") {
		if e == s {
			return true
		}
	}
	return false
}

// check decides one property: every contract harness of the property has to be discharged
func check(args []string, repo string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	root := fs.String("root", "/verif", "")
	fs.Parse(args)
	spec := filepath.Join(*root, "spec")
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	var hs []harness
	for _, h := range listHarnesses(spec) {
		mine := strings.HasPrefix(h.name, "Prove_"+*prop+"_") || contains(h.flags["also"], *prop)
		if !mine || h.flags["tier"] == "thorough" && tier != "thorough" || h.flags["off"] != "" {
			continue
		}
		hs = append(hs, h)
	}
	budget := 420 * time.Second
	perObl := 20 * time.Second
	if tier == "thorough" {
		budget = 2400 * time.Second
		perObl = 120 * time.Second
	}
	// The contracts are also run on the real code (bounded): this validates the trusted base and finds failing inputs.
	// It goes on beside the proofs, and decides when it finds a failing input.
	ctxAll, stop := context.WithTimeout(context.Background(), budget+200*time.Second)
	defer stop()
	fb := 12 * time.Second
	if tier == "thorough" {
		fb = 240 * time.Second
	}
	fzDone := make(chan fzResult, 1)
	go func() {
		fz := falsify(*root, repo, *prop, seed, fb)
		if fz.Failure != "" {
			// the verdict is known; name the obligations that fail if that's quick
			time.AfterFunc(20*time.Second, stop)
		}
		fzDone <- fz
	}()
	// one process per contract harness; all of them share the machine
	runs := make([]propRun, len(hs))
	var wg sync.WaitGroup
	sem := make(chan bool, 7)
	self, _ := os.Executable()
	// longest first
	order := make([]int, len(hs))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool {
		return atoi(hs[order[a]].flags["cost"]) > atoi(hs[order[b]].flags["cost"])
	})
	for _, i := range order {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			ctx, cancel := context.WithTimeout(ctxAll, budget+30*time.Second)
			defer cancel()
			c := exec.CommandContext(ctx, self, "run", "-repo", repo, "-spec", spec, "-exact", hs[i].name, "-json",
				"-timeout", perObl.String(), "-total", budget.String())
			c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
			c.WaitDelay = 5 * time.Second
			var out, errb bytes.Buffer
			c.Stdout, c.Stderr = &out, &errb
			err := c.Run()
			runs[i].h = hs[i]
			r := runResult{Harness: hs[i].name}
			if e := json.Unmarshal(out.Bytes(), &r); e != nil {
				r.Err = fmt.Sprintf("verifier failed: %v %s", err, clip(errb.String(), 800))
				if ctx.Err() != nil {
					r.Err = undecided + "time budget exhausted"
				}
			}
			runs[i].res = r
			for _, o := range r.Obls {
				if !o.OK {
					// the verdict is known; let the others finish if they are quick
					time.AfterFunc(30*time.Second, stop)
					break
				}
			}
		}()
	}
	wg.Wait()
	fz := <-fzDone

	type failedObl struct {
		Contract   string    `json:"contract"`
		Obligation oblResult `json:"obligation"`
		Err        string    `json:"error,omitempty"`
	}
	var failed []failedObl
	var total, disch, btotal, bdisch int
	backends := map[string]int{}
	funcs, trusted := map[string]bool{}, map[string]bool{}
	solver := 0.0
	type cov struct {
		Contract    string  `json:"contract"`
		Meaning     string  `json:"meaning"`
		Bounded     string  `json:"bounded,omitempty"`
		Obligations int     `json:"obligations"`
		Discharged  int     `json:"discharged"`
		Paths       int     `json:"paths"`
		Secs        float64 `json:"secs"`
	}
	var covs []cov
	var skipped []string
	var open []failedObl // contracts that aren't decided
	for _, r := range runs {
		c := cov{Contract: r.h.name, Meaning: r.h.doc, Bounded: r.h.flags["bounded"], Paths: r.res.Paths, Secs: r.res.Secs}
		nEnsure := 0
		if strings.HasPrefix(r.res.Err, "no such contract function") {
			// the contract names code that doesn't exist any more under that name
			skipped = append(skipped, r.h.name+": "+r.res.Err)
			continue
		}
		nFailed := len(failed)
		for _, o := range r.res.Obls {
			c.Obligations++
			solver += o.Secs
			if o.OK {
				c.Discharged++
				backends[o.Method]++
				if !o.Safety {
					nEnsure++
				}
			} else {
				failed = append(failed, failedObl{Contract: r.h.name, Obligation: o})
			}
		}
		if strings.HasPrefix(r.res.Err, undecided) && len(failed) == nFailed {
			open = append(open, failedObl{Contract: r.h.name, Err: r.res.Err})
			continue
		}
		if r.res.Err != "" {
			failed = append(failed, failedObl{Contract: r.h.name, Err: r.res.Err})
			c.Obligations++
		} else if len(r.res.Obls) == 0 || nEnsure == 0 && c.Discharged == c.Obligations && r.h.flags["safety"] == "" {
			failed = append(failed, failedObl{Contract: r.h.name, Err: "vacuous: the contract generated no obligation"})
			c.Obligations++
		}
		if c.Bounded != "" {
			btotal += c.Obligations
			bdisch += c.Discharged
		} else {
			total += c.Obligations
			disch += c.Discharged
		}
		for _, f := range r.res.Funcs {
			funcs[f] = true
		}
		for _, f := range r.res.Trusted {
			trusted[f] = true
		}
		covs = append(covs, c)
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no contract for", *prop)
		return 2
	}

	if len(skipped) == len(hs) {
		failed = append(failed, failedObl{Contract: "all", Err: "no contract can be stated: " + strings.Join(skipped, "; ")})
	}
	for _, m := range skipped {
		fmt.Println("contract not checked:", clip(m, 300))
	}

	// A contract about code outside the verified subset isn't decided. It's no violation when bounded contracts about
	// the same property are discharged and no failing input is found.
	if len(failed) == 0 && len(open) > 0 && fz.Failure == "" {
		if btotal == 0 || btotal > bdisch {
			for _, o := range open {
				failed = append(failed, o)
			}
		} else {
			fmt.Printf("%d contracts not decided\n", len(open))
		}
	}
	for _, o := range open {
		fmt.Println("not decided:", o.Contract, clip(o.Err, 300))
		skipped = append(skipped, o.Contract+": "+o.Err)
	}
	if fz.Failure == "" && (len(failed) > 0 || len(open) > 0) && tier != "thorough" {
		fz = falsify(*root, repo, *prop, seed+1, 60*time.Second)
	}
	if fz.Failure != "" && len(open) > 0 {
		failed = append(failed, open...)
	}

	status := 0
	violations := 0
	replayDir := filepath.Join(*root, "evidence", "replay")
	os.MkdirAll(replayDir, 0o755)
	replay := filepath.Join(replayDir, *prop+".txt")
	os.Remove(replay)
	if len(failed) > 0 || fz.Failure != "" {
		status, violations = 1, 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", *prop)
		for _, f := range failed {
			if f.Err != "" {
				fmt.Fprintf(&b, "contract %s not discharged: %s\n\n", f.Contract, f.Err)
				continue
			}
			fmt.Fprintf(&b, "contract %s: obligation \"%s\" at %s (%s) not discharged\n  verifier: %s\n  goal: %s\n\n",
				f.Contract, f.Obligation.Name, f.Obligation.Pos, f.Obligation.Fn, f.Obligation.Info, f.Obligation.Goal)
		}
		if fz.Failure != "" {
			fmt.Fprintf(&b, "failing input on the real code:\n%s\nreproduce: VERIF_SEED=%d %s\n", fz.Failure, seed, fz.Cmd)
		} else {
			fmt.Fprintf(&b, "no failing input found on the real code (%d cases tried, %s)\n", fz.Cases, fz.Note)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		suffix := ""
		if fz.Failure == "" {
			suffix = " no-failing-input-found"
		}
		for i, f := range failed {
			if i < 8 {
				fmt.Printf("undischarged: %s %s %s %s\n", f.Contract, f.Obligation.Name, f.Obligation.Pos, clip(f.Err, 300))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, replay, suffix)
	}

	level := "proof"
	if total == 0 {
		level = "other"
	}
	keys := func(m map[string]bool) []string {
		var r []string
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	ev := map[string]any{
		"property": *prop, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"obligations": total, "discharged": disch,
			"bounded_obligations": btotal, "bounded_discharged": bdisch,
			"checker_cmd":              "bin/gv run -exact <contract> (see contracts)",
			"trusted_base":             append(keys(trusted), baseTrust...),
			"functions_under_contract": keys(funcs),
			"contracts_not_checked":    skipped,
			"contracts":                covs, "discharged_by": backends, "solver_seconds": solver,
			"real_code_cross_check": map[string]any{"label": "bounded", "cases": fz.Cases, "note": fz.Note},
			"explanation":           "Contracts in /verif/spec are verified against go/ssa of /repo's current source by /verif/gv; counts are of this run.",
		},
		"assumptions": baseAssume,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d/%d obligations proved, %d/%d bounded, %d contracts, %d real-code cases, %.0fs\n", *prop, disch, total, bdisch, btotal, len(hs), fz.Cases, time.Since(t0).Seconds())
	return status
}

const undecided = "outside the verified subset: "

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

var baseTrust = []string{
	"the verifier /verif/gv itself (path enumeration, rewriting, loop summaries) and go/ssa",
	"SMT solvers z3 4.8.12, z3-new, cvc5 1.1.2",
}
var baseAssume = []string{
	"float64 arithmetic is treated as exact real arithmetic (rounding, overflow, NaN and infinities are outside the proof)",
	"int arithmetic is treated as mathematical integers",
	"append to a slice whose spare capacity isn't known is modelled as copying to new storage",
}

type fzResult struct {
	Failure string
	Cases   int
	Note    string
	Cmd     string
}

func falsify(root, repo, prop string, seed int, budget time.Duration) (r fzResult) {
	dir := filepath.Join(root, "falsify")
	files, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	if len(files) == 0 {
		r.Note = "no harness"
		return
	}
	tmp, err := os.MkdirTemp("", "gvfz")
	if err != nil {
		r.Note = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	ctx, cancel := context.WithTimeout(context.Background(), budget+150*time.Second)
	defer cancel()
	var out bytes.Buffer
	var err2 error
	for {
		rep := map[string]string{}
		for _, f := range files {
			rep[filepath.Join(repo, "deflect", filepath.Base(f))] = f
		}
		ov := filepath.Join(tmp, "overlay.json")
		b, _ := json.Marshal(map[string]any{"Replace": rep})
		os.WriteFile(ov, b, 0o644)
		c := exec.CommandContext(ctx, "go", "test", "-mod=mod", "-vet=off", "-count=1", "-overlay", ov, "-run", "^TestGvFalsify$", "-timeout", (budget + 60*time.Second).String(), "./deflect")
		c.Dir = repo
		res := filepath.Join(tmp, "result.json")
		c.Env = append(os.Environ(), "GV_PROP="+prop, fmt.Sprintf("VERIF_SEED=%d", seed), "GV_BUDGET="+budget.String(), "GV_RESULT="+res, "GOPROXY=off", "GOFLAGS=-mod=mod")
		out.Reset()
		c.Stdout, c.Stderr = &out, &out
		r.Cmd = fmt.Sprintf("GV_PROP=%s GV_BUDGET=%s GV_RESULT=/dev/stdout go test -overlay <falsify files> -run ^TestGvFalsify$ ./deflect", prop, budget)
		err2 = c.Run()
		var js struct {
			Failure string
			Cases   int
		}
		if rb, e := os.ReadFile(res); e == nil && json.Unmarshal(rb, &js) == nil {
			r.Failure, r.Cases = js.Failure, js.Cases
			r.Note = "ran"
			return
		}
		// unexported names may have changed: go on without the files that don't compile
		var keep []string
		if strings.Contains(out.String(), "[build failed]") {
			for _, f := range files {
				if !strings.Contains(out.String(), filepath.Base(f)) {
					keep = append(keep, f)
				}
			}
		}
		if len(keep) == 0 || len(keep) == len(files) {
			break
		}
		files = keep
	}
	r.Note = "not run: " + clip(fmt.Sprint(err2)+" "+out.String(), 600)
	if strings.Contains(out.String(), "GVCASE") || strings.Contains(out.String(), "goroutine ") {
		// crashed in the code under test
		r.Failure = "crash: " + clip(out.String(), 3000)
	}
	return
}
