package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type loaded struct {
	prog    *ssa.Program
	pkg     *ssa.Package
	dropped map[string]string // spec file -> error
}

// harnesses lists the contract functions of the spec files, by parsing only
type harness struct {
	name, file, doc string
	flags           map[string]string
}

func listHarnesses(specDir string) []harness {
	files, _ := filepath.Glob(filepath.Join(specDir, "gvspec_*.go"))
	sort.Strings(files)
	var hs []harness
	for _, f := range files {
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, nil, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "Prove_") {
				continue
			}
			h := harness{name: fd.Name.Name, file: filepath.Base(f), flags: map[string]string{}}
			if fd.Doc != nil {
				for _, l := range strings.Split(fd.Doc.Text(), "\n") {
					l = strings.TrimSpace(l)
					if strings.HasPrefix(l, "gv:") {
						for _, kv := range strings.Fields(l[3:]) {
							k, v, _ := strings.Cut(kv, "=")
							h.flags[k] = v
						}
						continue
					}
					h.doc = strings.TrimSpace(h.doc + " " + l)
				}
			}
			hs = append(hs, h)
		}
	}
	return hs
}

func load(repo, specDir string, only map[string]bool) (*loaded, error) {
	files, _ := filepath.Glob(filepath.Join(specDir, "gvspec_*.go"))
	res := &loaded{dropped: map[string]string{}}
	for try := 0; try < 40; try++ {
		overlay := map[string][]byte{}
		for _, f := range files {
			bn := filepath.Base(f)
			if only != nil && !only[bn] || res.dropped[bn] != "" {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			overlay[filepath.Join(repo, "deflect", bn)] = src
		}
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
				packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir: repo, Overlay: overlay,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0"),
		}
		pkgs, err := packages.Load(cfg, "./deflect")
		if err != nil {
			return nil, err
		}
		bad := false
		for _, p := range pkgs {
			for _, e := range p.Errors {
				f := filepath.Base(strings.SplitN(e.Pos, ":", 2)[0])
				if strings.HasPrefix(f, "gvspec_") {
					if res.dropped[f] == "" {
						res.dropped[f] = e.Error()
					}
					bad = true
				} else if !strings.Contains(e.Pos, "gvspec_") {
					return nil, fmt.Errorf("repository doesn't compile: %v", e)
				}
			}
		}
		if bad {
			continue
		}
		prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == pkgs[0].PkgPath || execPkgs[p.Pkg.Path()] {
				p.Build()
			}
		}
		res.prog, res.pkg = prog, spkgs[0]
		return res, nil
	}
	return nil, fmt.Errorf("can't load")
}
