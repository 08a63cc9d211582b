package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C37", checkC37, "interprocedural dataflow over the SSA form: the origin of the context argument of every call in the library, through local variables, captured variables, derivations and helpers",
		"Every context that a function which was given one (itself, through the function enclosing it, or through a caller other than a go statement) passes to another - a policy, a mutator, a store, a reader or writer, a service, a callback - is the one it was given or is derived from it by a function that keeps its end and its values; it is not absent, a new root, one kept in a field, or one detached from its parent's end (calls that only undo or release what was begun excepted).")
}

func isCtxType(t types.Type) bool {
	nt, ok := types.Unalias(t).(*types.Named)
	return ok && nt.Obj().Name() == "Context" && nt.Obj().Pkg() != nil && (nt.Obj().Pkg().Path() == "context" || strings.HasSuffix(nt.Obj().Pkg().Path(), "x/net/context"))
}

func ctxParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if isCtxType(p.Type()) {
			return p
		}
	}
	return nil
}

type contexts struct {
	c       *Check
	callers map[*ssa.Function][]*ssa.Function // not by go statements
	given   map[*ssa.Function]int             // 1 yes, 2 no
}

func checkC37(c *Check) {
	c.assumption("contexts are derived by the context package, or by functions of other packages that are given a context; the REST protocol's client sends no context, REST handlers make their own, and the batch mutator's goroutine, which serves many callers, has its own")
	x := &contexts{c: c, callers: map[*ssa.Function][]*ssa.Function{}, given: map[*ssa.Function]int{}}
	scope := func(f *ssa.Function) bool {
		p := fnPkg(f)
		return p != nil && c.w.InRepo(f) && !generated(p) && !strings.Contains(p.Pkg.Path(), "/cmd/") && f.Synthetic == ""
	}
	for _, f := range c.w.Funcs {
		if !scope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						x.callers[g] = append(x.callers[g], f)
					}
				}
			}
		}
	}
	for _, f := range c.w.Funcs {
		if !scope(f) {
			continue
		}
		fresh := !x.wasGiven(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				n := callName(cc)
				if g := cc.StaticCallee(); g != nil && fnPkg(g) != nil && fnPkg(g).Pkg.Path() == "context" {
					continue // judged where the result is used
				}
				sig := cc.Signature()
				args := cc.Args
				if !cc.IsInvoke() && sig.Recv() != nil {
					args = args[1:]
				}
				for i, a := range args {
					if i >= sig.Params().Len() || !isCtxType(sig.Params().At(i).Type()) {
						continue
					}
					if strings.Contains(n, "context.With") {
						continue
					}
					switch methodName(n) {
					case "Rollback", "Close", "Release", "Discard":
						continue // an operation that ends may still have to be undone
					}
					if fresh {
						c.count("calls that begin with a context of their own")
						continue
					}
					c.count("contexts passed on")
					why := x.origin(a, f, 0, map[ssa.Value]bool{})
					c.must(why == "", "passed on", shortFn(f), in.Pos(), "%s was given a context and passes %s to %s", shortFn(f), why, what(cc))
				}
			}
		}
	}
	c.min("contexts passed on", 60)
}

func what(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return shortFn(f)
	}
	return "the function " + cc.Value.Name()
}

// wasGiven: a context reaches the function from outside.
func (x *contexts) wasGiven(f *ssa.Function) bool {
	switch x.given[f] {
	case 1:
		return true
	case 2:
		return false
	}
	x.given[f] = 2 // recursion
	ok := ctxParam(f) != nil
	if !ok && f.Parent() != nil && !startedByGo(f) {
		ok = x.wasGiven(f.Parent())
	}
	for _, g := range x.callers[f] {
		ok = ok || x.wasGiven(g)
	}
	if ok {
		x.given[f] = 1
	}
	return ok
}

// startedByGo: the function literal is only used by a go statement.
func startedByGo(f *ssa.Function) bool {
	n, other := 0, false
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				for _, q := range *mc.Referrers() {
					if g, ok := q.(*ssa.Go); ok && g.Call.Value == mc {
						n++
					} else {
						other = true
					}
				}
			}
		}
	}
	_ = other
	return n > 0 && !other && ctxCaptured(f) == false
}

// ctxCaptured: the literal uses a context of the function around it.
func ctxCaptured(f *ssa.Function) bool {
	for _, fv := range f.FreeVars {
		if isCtxType(fv.Type()) || isCtxType(derefType(fv.Type())) {
			return true
		}
	}
	return false
}

// origin says what is wrong with the context; "" if it is one that f was given.
func (x *contexts) origin(v ssa.Value, f *ssa.Function, d int, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	if d > 12 {
		return "a context of unknown origin"
	}
	all := func(vs []ssa.Value, none string) string {
		for _, b := range vs {
			if w := x.origin(b, f, d+1, seen); w != "" {
				return w
			}
		}
		if len(vs) == 0 {
			return none
		}
		return ""
	}
	switch y := v.(type) {
	case *ssa.Parameter:
		return ""
	case *ssa.Const:
		return "no context"
	case *ssa.FreeVar:
		return all(bound(v), "a captured context of unknown origin")
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return "a context of unknown origin"
		}
		switch z := y.X.(type) {
		case *ssa.FieldAddr:
			// a local struct
			if al, ok := z.X.(*ssa.Alloc); ok {
				var vs []ssa.Value
				for _, q := range *al.Referrers() {
					fa, ok := q.(*ssa.FieldAddr)
					if !ok || fa.Field != z.Field {
						continue
					}
					for _, s := range *fa.Referrers() {
						if st, ok := s.(*ssa.Store); ok && st.Addr == fa {
							vs = append(vs, st.Val)
						}
					}
				}
				if len(vs) > 0 {
					return all(vs, "")
				}
			}
			// a field of an object that the function made for this call
			return x.field(z, f, d, seen)
		case *ssa.Global:
			return "the context kept in " + z.Name()
		}
		return all(bound(v), "a context of unknown origin")
	case *ssa.Phi:
		return all(y.Edges, "")
	case *ssa.ChangeInterface:
		return x.origin(y.X, f, d+1, seen)
	case *ssa.MakeInterface:
		return "" // a context type of its own
	case *ssa.TypeAssert:
		return x.origin(y.X, f, d+1, seen)
	case *ssa.Extract:
		return x.origin(y.Tuple, f, d+1, seen)
	case *ssa.Call:
		n := callName(y.Common())
		if strings.HasSuffix(n, "context.WithoutCancel") {
			return "a context detached from the end of its own (WithoutCancel)"
		}
		if n == "(*net/http.Request).Context" || strings.HasSuffix(n, ").Context") {
			return ""
		}
		for _, a := range y.Call.Args {
			if isCtxType(a.Type()) {
				if w := x.origin(a, f, d+1, seen); w != "" {
					return w
				}
				g := y.Call.StaticCallee()
				if g != nil && g.Blocks != nil && x.c.w.InRepo(g) {
					return x.returned(g, d, seen)
				}
				return ""
			}
		}
		if g := y.Call.StaticCallee(); g != nil && g.Blocks != nil && x.c.w.InRepo(g) {
			if w := x.returned(g, d, seen); w != "" {
				return w
			}
			return ""
		}
		return "a new context (" + methodName(n) + ")"
	}
	return "a context of unknown origin"
}

// returned: what the contexts that g returns are.
func (x *contexts) returned(g *ssa.Function, d int, seen map[ssa.Value]bool) string {
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				if isCtxType(v.Type()) {
					if w := x.origin(v, g, d+1, seen); w != "" {
						return w
					}
				}
			}
		}
	}
	return ""
}

// field: a context kept in a field is one that every store to the field in the repository
// took from what the storing function was given, in an object of an unexported type, which
// lives as long as the request does.
func (x *contexts) field(z *ssa.FieldAddr, f *ssa.Function, d int, seen map[ssa.Value]bool) string {
	st, ok := derefType(z.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return "a context of unknown origin"
	}
	name := st.Field(z.Field).Name()
	bad := "the context kept in the field " + name
	nt, ok := derefType(z.X.Type()).(*types.Named)
	if !ok || nt.Obj().Exported() {
		return bad
	}
	n := 0
	for _, g := range x.c.w.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != z.Field || !types.Identical(derefType(fa.X.Type()), nt) {
					continue
				}
				n++
				if !fresh(fa.X, 0) {
					return bad
				}
				if w := x.origin(s.Val, g, d+1, seen); w != "" {
					return w
				}
				if !x.wasGiven(g) {
					return bad
				}
			}
		}
	}
	if n == 0 {
		return bad
	}
	return ""
}
