package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", checkC28, "whole-program effect and alias analysis over the SSA form: which parameters and package-level variables each function may write or append in place through, and what its results share with them, as summaries to a fixpoint over the call graph",
		"No function other than a package initialiser may store to a package-level variable or to memory found from it, append to it in place, or give a caller of an exported function access to it. No function of the packages that build storage keys, paths and hashes may write to or append in place to a byte string, path or list it is given. No operation of the service may write to memory found from its request.")
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// calledInInitOnly: package initialisers build their tables with these functions.
func (c *Check) calledInInitOnly() map[*ssa.Function]bool {
	called := map[*ssa.Function]bool{}
	other := map[*ssa.Function]bool{}
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if isInit(f) {
							called[g] = true
						} else {
							other[g] = true
						}
					}
				}
			}
		}
	}
	for g := range other {
		delete(called, g)
	}
	return called
}

func generated(g *ssa.Package) bool {
	return g != nil && strings.HasSuffix(g.Pkg.Path(), "/pb")
}

func checkC28(c *Check) {
	a := c.w.effects()
	// package-level variables
	for _, pkg := range c.w.SSA {
		if generated(pkg) {
			continue
		}
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				c.count("package-level variables")
			}
		}
	}
	c.min("package-level variables", 8)
	for _, fn := range c.w.Funcs {
		if generated(fn.Pkg) || fn.Blocks == nil {
			continue
		}
		s := a.sum(fn)
		name := shortFn(fn)
		c.count("functions")
		if !isInit(fn) {
			for _, e := range s.sorted() {
				g, ok := e.src.(*ssa.Global)
				if !ok || generated(g.Pkg) || !c.w.inRepoPkg(g.Pkg) {
					continue
				}
				how := "writes to"
				if e.appends {
					how = "appends in place to"
				}
				c.fail("table-written", name, s.writes[e], "%s %s memory of the package-level variable %s", name, how, g.Name())
			}
			c.ok("table-written", name)
		}
		if fn.Object() != nil && fn.Object().Exported() && fn.Parent() == nil && !isInit(fn) {
			for i := range s.results {
				for _, m := range []marks{s.results[i], s.inside[i]} {
					for k := range m {
						if g, ok := k.src.(*ssa.Global); ok && !generated(g.Pkg) && c.w.inRepoPkg(g.Pkg) && !c.emptyTable(g) {
							c.fail("table-handed-out", name, fn.Pos(), "the result of %s gives access to the package-level variable %s", name, g.Name())
						}
					}
				}
			}
			c.ok("table-handed-out", name)
		}
		if p := fn.Pkg; p != nil && fn.Parent() == nil && (strings.HasSuffix(p.Pkg.Path(), "/verifiable") || strings.HasSuffix(p.Pkg.Path(), "/merkle")) {
			for _, q := range fn.Params {
				sl, ok := q.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				_ = sl
				c.count("byte strings, paths and lists given")
				for _, e := range s.sorted() {
					if e.src == q && !c.freshArg(fn, q) && (e.cell == "uint8" || e.cell == "*") {
						how := "writes to"
						if e.appends {
							how = "appends in place to"
						}
						c.fail("input-modified", name, s.writes[e], "%s %s memory of its parameter %s", name, how, q.Name())
					}
				}
				c.ok("input-modified", name+"/"+q.Name())
			}
		}
	}
	for _, o := range c.serviceOps() {
		s := a.sum(o.Fn)
		c.count("operations")
		for _, e := range s.sorted() {
			if len(o.Fn.Params) > 2 && e.src == o.Fn.Params[2] {
				c.fail("request-modified", o.Name, s.writes[e], "%s writes to memory of its request (%s)", o.Name, e.cell)
			}
		}
		c.ok("request-modified", o.Name)
	}
	c.min("operations", 8)
}

// freshArg: a helper that is only given memory that its callers made themselves.
func (c *Check) freshArg(fn *ssa.Function, q *ssa.Parameter) bool {
	if fn.Object() == nil || fn.Object().Exported() || fn.Signature.Recv() != nil {
		return false
	}
	at := -1
	for i, p := range fn.Params {
		if p == q {
			at = i
		}
	}
	n := 0
	for _, f := range c.w.Funcs {
		var x *fnEffects
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					if !isCall || ci.Common().Value != ssa.Value(fn) {
						return false // called from anywhere
					}
				}
				if !isCall || ci.Common().StaticCallee() != fn || at >= len(ci.Common().Args) {
					continue
				}
				n++
				if x == nil {
					x = c.w.effects().analyse(f)
				}
				if len(x.of(ci.Common().Args[at])) > 0 || !ownMemory(ci.Common().Args[at], map[ssa.Value]bool{}) {
					return false
				}
			}
		}
	}
	return n > 0
}

// ownMemory: the byte string or list was made in this function.
func ownMemory(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeSlice, *ssa.Alloc:
		return true
	case *ssa.Const:
		return true
	case *ssa.Convert:
		_, str := x.X.Type().Underlying().(*types.Basic)
		return str || ownMemory(x.X, seen)
	case *ssa.ChangeType:
		return ownMemory(x.X, seen)
	case *ssa.Slice:
		return ownMemory(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ownMemory(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append" && ownMemory(x.Call.Args[0], seen)
		}
		return x.Call.StaticCallee() != nil // what it gives access to is known from its summary
	}
	return false
}

func (w *World) inRepoPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

// emptyTable: there is nothing in the variable that could be modified.
func (c *Check) emptyTable(g *ssa.Global) bool {
	if _, ok := derefType(g.Type()).Underlying().(*types.Slice); !ok || c.w.mutGlobal(g) {
		return false
	}
	v := c.w.globalValue(g)
	return v != nil && LenOf(v) == tZeroI
}
