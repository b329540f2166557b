package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package-level variables that are only read once the package has been initialised have their initial values. All
// others hold arbitrary values of their type.

func (x *Exec) pkgFuncs() []*ssa.Function {
	var fs []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil {
			return
		}
		fs = append(fs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range x.pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if n, ok := m.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					add(x.prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	return fs
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// freshRef: the reference was made in the same function
func freshRef(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		_, ok := v.X.(*ssa.Alloc)
		return ok || freshRef(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !freshRef(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return freshRef(v.Call.Args[0], seen)
		}
	}
	return false
}

// refTypes are the maps and slices in a type; false if it has other references
func refTypes(t types.Type, out *[]types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !refTypes(u.Field(i).Type(), out) {
				return false
			}
		}
		return true
	case *types.Array:
		return refTypes(u.Elem(), out)
	case *types.Map:
		*out = append(*out, u)
		return refTypes(u.Key(), out) && refTypes(u.Elem(), out)
	case *types.Slice:
		*out = append(*out, u)
		return refTypes(u.Elem(), out)
	}
	return false
}

// readOnly: nothing is written through the address v, and references loaded from it aren't passed on
func readOnly(v ssa.Value, users func(ssa.Value) []ssa.Instruction, addr bool) bool {
	for _, u := range users(v) {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if addr {
				var refs []types.Type
				if !refTypes(u.Type(), &refs) || len(refs) > 0 && !readOnly(u, users, false) {
					return false
				}
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !readOnly(u.(ssa.Value), users, true) {
				return false
			}
		case *ssa.Lookup:
			var refs []types.Type
			if addr || !refTypes(u.Type(), &refs) && !u.CommaOk || len(refs) > 0 || u.X != v {
				return false
			}
		case *ssa.Range:
			if m, ok := v.Type().Underlying().(*types.Map); ok {
				var refs []types.Type
				if !refTypes(m.Elem(), &refs) || len(refs) > 0 {
					return false
				}
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// writesTo: something of this type that wasn't made in the same function may be written to after initialisation
func writesTo(t types.Type, fs []*ssa.Function) bool {
	same := func(v ssa.Value) bool { return types.Identical(v.Type().Underlying(), t) }
	for _, f := range fs {
		if isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					if same(in.Map) && !freshRef(in.Map, map[ssa.Value]bool{}) {
						return true
					}
				case *ssa.IndexAddr:
					if !same(in.X) || freshRef(in.X, map[ssa.Value]bool{}) {
						continue
					}
					for _, r := range *in.Referrers() {
						if u, ok := r.(*ssa.UnOp); !ok || u.X != in {
							if _, ok := r.(*ssa.DebugRef); !ok {
								return true
							}
						}
					}
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap" || bi.Name() == "append" || bi.Name() == "copy" && !same(c.Args[0])) {
						continue
					}
					if g := c.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg == f.Pkg {
						continue
					}
					for _, a := range c.Args {
						if same(a) && !freshRef(a, map[ssa.Value]bool{}) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// constGlobal: nothing writes to the variable after initialisation
func (x *Exec) constGlobal(g *ssa.Global) bool {
	if g.Pkg != x.pkg {
		return false
	}
	c, ok := x.constG[g]
	if !ok {
		c = x.findConst(g)
		x.constG[g] = c
	}
	return c
}

func (x *Exec) findConst(g *ssa.Global) bool {
	if x.pfuncs == nil {
		for _, f := range x.pkgFuncs() {
			// contracts are no part of the code
			if !strings.Contains(x.prog.Fset.Position(f.Pos()).Filename, "gvspec_") {
				x.pfuncs = append(x.pfuncs, f)
			}
		}
		x.gusers = map[*ssa.Global][]ssa.Instruction{}
		for _, f := range x.pfuncs {
			if isInit(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if g, ok := (*o).(*ssa.Global); ok {
							x.gusers[g] = append(x.gusers[g], in)
						}
					}
				}
			}
		}
	}
	users := func(v ssa.Value) []ssa.Instruction {
		if g, ok := v.(*ssa.Global); ok {
			return x.gusers[g]
		}
		return *v.Referrers()
	}
	var refs []types.Type
	if !refTypes(deref(g.Type()), &refs) {
		return false
	}
	if readOnly(g, users, true) {
		return true
	}
	for _, u := range users(g) {
		if l, ok := u.(*ssa.UnOp); !ok || l.X != g {
			return false
		}
	}
	for _, t := range refs {
		if writesTo(t, x.pfuncs) {
			return false
		}
	}
	return true
}

// initGlobals runs the package's initialisation
func (x *Exec) initGlobals() {
	if x.initDone {
		return
	}
	x.initDone = true
	fn := x.pkg.Func("init")
	if fn == nil || len(fn.Blocks) > 3 {
		return
	}
	x.initialising = true
	defer func() { x.initialising = false }()
	st := newState()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, counts: map[*ssa.BasicBlock]int{}}
	root := func(v ssa.Value) *ssa.Global {
		for {
			switch t := v.(type) {
			case *ssa.Global:
				return t
			case *ssa.FieldAddr:
				v = t.X
			case *ssa.IndexAddr:
				v = t.X
			default:
				return nil
			}
		}
	}
	bad := map[*ssa.Global]bool{}
	one := func(in ssa.Instruction) (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case unsupported, forkReq:
					ok = false
				default:
					panic(r)
				}
			}
		}()
		st.quiet++
		defer func() { st.quiet-- }()
		outs := x.step(st, fr, in)
		if len(outs) != 1 || outs[0].panc {
			return false
		}
		st = outs[0].st
		if v, isV := in.(ssa.Value); isV {
			fr.env[v] = outs[0].v
		}
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
				continue
			case *ssa.Call:
				if g := t.Call.StaticCallee(); g != nil && isInit(g) {
					if g.Pkg == x.pkg {
						return // explicit init functions: anything
					}
					continue
				}
			case *ssa.UnOp:
				if g, ok := t.X.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "init$") {
					continue
				}
			case *ssa.Store:
				if g := root(t.Addr); g != nil {
					if g.Pkg != x.pkg || strings.HasPrefix(g.Name(), "init$") {
						continue
					}
				}
			}
			if !one(in) {
				// what depends on it stays unknown
				if s, ok := in.(*ssa.Store); ok {
					if g := root(s.Addr); g != nil {
						bad[g] = true
						continue
					}
				}
				if _, ok := in.(ssa.Value); !ok {
					return
				}
			}
		}
	}
	for b, c := range st.heap {
		b.lazy = c
	}
	for b, c := range st.maps {
		b.lazyMap = c
	}
	x.initVals = map[*ssa.Global]bool{}
	for _, m := range x.pkg.Members {
		if g, ok := m.(*ssa.Global); ok && !bad[g] && x.constGlobal(g) {
			x.initVals[g] = true
		}
	}
}

// globalBase is the storage of a package-level variable
func (x *Exec) globalBase(g *ssa.Global) *Base {
	name := "global:" + g.String()
	et := deref(g.Type())
	if !x.initialising && x.constGlobal(g) {
		x.initGlobals()
	}
	if x.initialising || x.initVals[g] {
		name = "initial:" + g.String()
	}
	if b, ok := x.families[name]; ok {
		return b
	}
	b := newBase(name, et, false)
	x.families[name] = b
	if x.initialising || x.initVals[g] {
		b.lazy = &Content{init: func(x *Exec, st *State, idx []*Term) Value { return x.zero(et) }}
	} else {
		b.lazy = &Content{init: func(x *Exec, st *State, idx []*Term) Value { return x.gen(et, name, nil) }}
	}
	return b
}
