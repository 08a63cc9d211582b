package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", checkC27, "modular error typestate over the SSA form of every function of the library that returns an error (callees that return an error are taken by contract), path-sensitive, loop iterations included",
		"On every partition of every such function that can return a nil error, each call that returned an error is known to have returned nil, or its error is the one returned; exceptions: a storage lookup known to have answered ErrNoSuchKey, the lookup of a tree hash under a flag parameter that asks to tolerate it, and a failed inclusion verification of the client followed by a successful one. No such partition returns a nil response message or promise.")
}

// quietCalls fail without consequence for the operation's result.
func quietCall(e *Event) bool {
	n := e.Callee
	i := strings.LastIndex(n, ".")
	short := n[i+1:]
	switch short {
	case "Close", "Rollback", "Discard", "Release":
		return true
	case "Write", "WriteString":
		return strings.Contains(n, "hash") || strings.Contains(n, "sha") || strings.Contains(n, "ResponseWriter") || strings.Contains(n, "Buffer") || strings.Contains(n, "Builder")
	}
	return strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Errorf") ||
		strings.HasPrefix(n, "errors.") || strings.HasPrefix(n, "(context.Context).Err") || strings.HasPrefix(n, "google.golang.org/grpc/status.") || e.Callee == "(error).Error"
}

// makesErrors: the call builds an error value; it does not report a failure.
func makesErrors(e *Event) bool {
	if e.Fn != nil && e.Fn.Signature.Results().Len() == 1 && e.Fn.Signature.Params().Len() > 0 {
		// func(..., err error) error or similar wrappers
		for i := 0; i < e.Fn.Signature.Params().Len(); i++ {
			if isErrorType(e.Fn.Signature.Params().At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func lastError(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorType(sig.Results().At(n-1).Type())
}

func (c *Check) contractFn(fn *ssa.Function) bool {
	return fn != nil && fn.Blocks != nil && c.w.InRepo(fn) && !strings.HasSuffix(fnPkg(fn).Pkg.Path(), "/pb") && lastError(fn.Signature) && fn.Synthetic == "" && fn.Parent() == nil && !wrapsError(fn)
}

// wrapsError: an error in, an error out.
func wrapsError(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if isErrorType(fn.Signature.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func checkC27(c *Check) {
	var roots []*ssa.Function
	for _, fn := range c.w.Funcs {
		if !lastError(fn.Signature) || fn.Synthetic != "" || wrapsError(fn) {
			continue
		}
		pk := fnPkg(fn)
		if pk == nil || strings.HasSuffix(pk.Pkg.Path(), "/pb") || strings.Contains(pk.Pkg.Path(), "/cmd/") {
			continue
		}
		roots = append(roots, fn)
	}
	// a helper that does not keep the contract by itself is judged within its callers
	inline := map[*ssa.Function]bool{}
	only := c.onlyCalled()
	for {
		grown := false
		for _, fn := range roots {
			if inline[fn] || !only[fn] {
				continue
			}
			t := newCheck(c.w, c.id, c.tier)
			t.errorsOf(fn, inline)
			if len(t.viol) > 0 {
				inline[fn] = true
				grown = true
			}
		}
		if !grown {
			break
		}
	}
	for _, fn := range roots {
		if !inline[fn] {
			c.errorsOf(fn, inline)
		}
	}
	c.hashesComplete()
	c.min("functions returning errors", 60)
	c.min("fallible calls", 150)
}

func (c *Check) errorsOf(fn *ssa.Function, inline map[*ssa.Function]bool) {
	name := strings.ReplaceAll(fn.RelString(nil), modPath+"/", "")
	e := c.exploreWith(fn, func(ex *Explorer) {
		ex.opaque = func(g *ssa.Function) bool { return g != fn && !inline[g] && c.contractFn(g) }
	})
	c.count("functions returning errors")
	for _, p := range e.paths {
		if p.End != "return" || !p.maySucceed() {
			continue
		}
		ret := p.retErr()
		if fn.Object() != nil && fn.Object().Exported() {
			c.nilResponse(name, fn, p)
		}
		var walk func(q *Path, from int, main bool)
		walk = func(q *Path, from int, main bool) {
			f := q.facts()
			for _, ev := range q.St.events {
				if ev.Seq <= from {
					continue
				}
				if ev.Kind == ELoop && ev.Loop != nil {
					for _, it := range ev.Loop.Iters {
						walk(it, ev.Seq, false)
					}
				}
				if ev.Kind != ECall || ev.Defer || quietCall(ev) || makesErrors(ev) {
					continue
				}
				er := errOf(ev)
				if er == nil || er.IsNil() {
					continue
				}
				c.count("fallible calls")
				if f.Implies(litNil(er)) || main && er == ret {
					c.ok("failure reported", name)
					continue
				}
				c.must(c.tolerated(fn, p, q, f, ev, er), "failure reported", name+" "+shortName(ev.Callee), ev.Pos, "%s may report success although %s failed", name, shortName(ev.Callee))
			}
		}
		walk(p, -1, true)
	}
}

// nilResponse: no nil message together with a nil error.
func (c *Check) nilResponse(name string, fn *ssa.Function, p *Path) {
	res := fn.Signature.Results()
	for i := 0; i < res.Len()-1; i++ {
		t := res.At(i).Type()
		msg := false
		if n, ok := derefType(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			_, ptr := t.(*types.Pointer)
			_, ifc := t.Underlying().(*types.Interface)
			msg = strings.HasSuffix(n.Obj().Pkg().Path(), "/pb") && ptr || ifc
		}
		if !msg {
			continue
		}
		r := p.Results[i]
		// what a successful call returned is not nil by this very rule
		call, _ := r.Obj.(*Event)
		c.must(!r.IsNil() && (r.Op == ORes && call != nil || !p.facts().Implies(litNil(r))), "response", name, p.Pos, "%s may return a nil %s and a nil error", name, t)
	}
}

// onlyCalled: the unexported functions every mention of which is a direct call.
func (c *Check) onlyCalled() map[*ssa.Function]bool {
	called, other := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var ops [32]*ssa.Value
	for _, fn := range c.w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(*ssa.Call); ok && !ci.Call.IsInvoke() {
					callee = ci.Call.Value
					if g := ci.Call.StaticCallee(); g != nil {
						called[g] = true
					}
				}
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok && *o != callee {
						other[g] = true
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for g := range called {
		if !other[g] && g.Object() != nil && !g.Object().Exported() {
			out[g] = true
		}
	}
	return out
}

// tolerated: one of the documented exceptions.
func (c *Check) tolerated(fn *ssa.Function, p, q *Path, f *Facts, ev *Event, er *Term) bool {
	if isNoSuchKey(f, er) || ev.Callee == "path.Match" {
		return true
	}
	if ev.Fn != nil && ev.Fn.Signature.Results().Len() == 1 && c.w.InRepo(ev.Fn) && isClient(ev.Fn) {
		// an inclusion check that failed and was repeated with success
		for _, o := range p.St.events {
			if o.Kind == ECall && o.Fn == ev.Fn && (q != p || o.Seq > ev.Seq) && p.facts().Implies(litNil(errOf(o))) {
				return true
			}
		}
	}
	// the hash of a subtree is looked up before it is computed
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	rs := root.Signature.Results()
	if ev.Fn != nil && c.readsHashes(ev.Fn) && rs.Len() == 2 && messageWith(rs.At(0).Type(), "AuditPath") {
		return true
	}
	return false
}

// isClient: a method of the high-level client.
func isClient(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	return r != nil && (isNamedType(r.Type(), "verifiable.Log") || isNamedType(r.Type(), "verifiable.Map"))
}

// messageWith: the struct behind the pointer has the field.
func messageWith(t types.Type, field string) bool {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return true
		}
	}
	return false
}

// readsHashes: the function reads hashes of leaves and tree nodes, and nothing else.
func (c *Check) readsHashes(fn *ssa.Function) bool {
	n := 0
	for _, p := range c.explore(fn).paths {
		other := false
		allEvents(p, func(q *Path, e *Event) {
			if isGet(e) {
				n++
				m := msgType(e, 3)
				other = other || m != "pb.LeafNode" && m != "pb.TreeNode"
			}
			other = other || isSet(e)
		})
		if other {
			return false
		}
	}
	return n > 0
}

// hashesComplete: a tolerated failure to look up the hash of a subtree never
// leaves a proof incomplete.
func (c *Check) hashesComplete() {
	for _, o := range c.serviceOps() {
		fname, first := "merkle.Path", "LeafIndex"
		switch o.Name {
		case "LogInclusionProof":
		case "LogConsistencyProof":
			fname, first = "merkle.SubProof", "FromSize"
		default:
			continue
		}
		for _, p := range o.e.paths {
			if p.End != "return" || !p.maySucceed() {
				continue
			}
			f := p.facts()
			k := logTypeOn(o, f)
			resp := c.snapResult(o.e, p, 0, o.Fn)
			w := "unknown log type"
			if k >= 0 {
				w = c.auditPath(o.e.ex, p, f, k, SF(resp, "AuditPath"), fname, SF(resp, first), SF(resp, "TreeSize"))
			}
			c.must(w == "", "hash recomputed", o.Name, p.Pos, "%s may report success with an incomplete proof: %s", o.Name, w)
			c.count("proofs")
		}
	}
	c.min("proofs", 2)
}
