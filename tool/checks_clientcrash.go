package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", checkC23, "path-sensitive dataflow over the SSA form with panic obligations: nil dereference, nil call, index, slice, map write, conversion and allocation sizes; nothing nested in a response is trusted",
		"Every operation that can panic (nil dereference or call, index, slice bounds, map write, type assertion, allocation size, division) on every partition of the proof verifiers, every method of the client's accounts, logs, maps, promises and auditors, the JSON validators, the REST client's operations and the goroutines they start must be shown safe by the path condition, or concern only what the caller supplied (receivers, services, trusted heads and states) or results of library calls that reported no error. Fields, elements and lengths of responses are not trusted.")
}

// clientEntries: everything a client application runs on data from a server.
func (c *Check) clientEntries() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Blocks != nil && f.Synthetic == "" {
			seen[f] = true
			out = append(out, f)
		}
	}
	pkg := c.w.SSA[modPath+"/verifiable"]
	svc := c.typeNamed("pb", "VerifiableDataStructuresServiceServer")
	if pkg == nil || svc == nil {
		c.anchorFail("package verifiable and its service interface")
		return nil
	}
	response := func(t types.Type) bool {
		n, ok := derefType(t).(*types.Named)
		return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/pb") && (strings.HasSuffix(n.Obj().Name(), "Response") || n.Obj().Name() == "LeafData")
	}
	// types that hold a client: those from which the service interface can be reached
	var holds func(t types.Type, d int) bool
	holds = func(t types.Type, d int) bool {
		if types.Identical(t, svc) {
			return true
		}
		st, ok := derefType(t).Underlying().(*types.Struct)
		if !ok || d > 3 {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if holds(st.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	for _, fn := range c.w.Funcs {
		if fn.Pkg != pkg || fn.Parent() != nil {
			continue
		}
		if r := fn.Signature.Recv(); r != nil {
			if holds(r.Type(), 0) {
				add(fn)
				c.count("client methods")
			}
			continue
		}
		// verifiers and validators: exported functions that take something a server sent
		if fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		for _, q := range fn.Params {
			if response(q.Type()) {
				add(fn)
				c.count("verifiers and validators")
				break
			}
		}
	}
	return out
}

func checkC23(c *Check) {
	a := c.auditStateKnown()
	for _, fn := range c.clientEntries() {
		switch {
		case a != nil && a.isCallback(fn):
			for _, st := range a.known(ParamSym(fn.Params[0])) {
				c.clientCrash("no-panic-client", fn, a, st...)
			}
		case a != nil && a.internal(c, fn):
		default:
			c.clientCrash("no-panic-client", fn, a)
		}
	}
	for _, fn := range c.w.Funcs {
		if treeFunc(fn) && fn.Synthetic == "" && fn.Blocks != nil && fn.Parent() == nil && !c.treePart(fn) {
			c.count("functions on trees in memory")
			e := c.exploreWith(fn, func(ex *Explorer) {
				ex.oblig = true
				ex.opaque = func(f *ssa.Function) bool { return f != fn && treeFunc(f) && !c.treePart(f) || keyPathFunc(f) }
			}, treeFacts(fn)...)
			c.crashFreeOn("no-panic-client", shortFn(fn), e, c.treeTrust())
		}
	}
	if t := c.dialled("server/httprest"); t != nil {
		for _, op := range serviceOpNames {
			fn := c.method(derefType(t), op)
			if fn == nil || fn.Synthetic != "" {
				c.anchorFail("REST client's " + op)
				continue
			}
			c.count("REST client operations")
			e := c.exploreWith(fn, func(ex *Explorer) { ex.oblig = true })
			c.crashFreeOn("no-panic-client", shortFn(fn), e, c.restTrust())
		}
		c.min("REST client operations", 8)
	}
	c.min("client methods", 20)
	c.min("verifiers and validators", 4)
	c.min("functions on trees in memory", 1)
}

// knownAudit is the type of the state of a map audit, with what its lists hold.
type knownAudit struct {
	*auditType
	roles map[string]string
	holds bool
}

// auditStateKnown finds the type that holds the state of map audits and decides (by the
// rules of C17) whether its lists grow with the mutations that were replayed.
func (c *Check) auditStateKnown() *knownAudit {
	ts := c.auditTypes()
	if len(ts) != 1 {
		c.anchorFail("one type with the state of a map audit")
		return nil
	}
	k := &knownAudit{auditType: ts[0], roles: map[string]string{}, holds: true}
	sub := newCheck(c.w, c.id, c.tier)
	sub.stateOwned(k.auditType)
	for _, fn := range k.callbacks {
		for pass := 0; pass < 2; pass++ {
			for i := 0; i < 2; i++ {
				sub.treeHeadAudit(k.auditType, fn, i, k.roles, pass == 1)
			}
		}
	}
	sub.auditStarts(k.auditType)
	for _, v := range sub.viol {
		switch v.Rule {
		case "audit-state", "audit-state-owned", "replay-complete", "replay-lists", "replay-stack", "map-audit-fresh", "map-audit-callback":
			k.holds = false
		}
	}
	return k
}

func (k *knownAudit) isCallback(fn *ssa.Function) bool {
	for _, f := range k.callbacks {
		if f == fn || f.Object() != nil && f.Object() == fn.Object() {
			return true
		}
	}
	return false
}

// known are the states between calls, with the lengths of the lists of roots.
func (k *knownAudit) known(recv *Term) [][]Lit {
	out := k.auditStates(recv)
	if !k.holds {
		return [][]Lit{{litNil(recv).Not()}}
	}
	for l := range k.roles {
		out[1] = append(out[1], litEQ0(Sub(LenOf(MF(recv, l)), MF(recv, k.size))), litEQ0(Sub(LenOf(MF(recv, l)), MF(recv, k.head, "TreeSize"))))
	}
	return out
}

// internal: a method of the state that only its other methods call.
func (k *knownAudit) internal(c *Check, fn *ssa.Function) bool {
	own := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		r := f.Signature.Recv()
		return r != nil && types.Identical(derefType(r.Type()), k.t)
	}
	if !own(fn) || k.t.Obj().Exported() {
		return false
	}
	n := 0
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != ssa.Value(fn) {
						continue
					}
					if ci, ok := in.(*ssa.Call); !ok || ci.Call.Value != *o || !own(f) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

// merging: subject is two (or one) less than the length of the list of subtrees while
// its last entries are being merged, of which there are at least two, one for every one
// bit of the number of mutations before and one for the mutation.
func (k *knownAudit) merging(subject *Term) bool {
	if subject == nil || !k.holds {
		return false
	}
	for _, d := range []int64{-2, -1} {
		l := AddC(subject, -d)
		if l.Op != OLen {
			continue
		}
		v := phiOf(l.Args[0])
		if v == nil || v.Loc == nil || v.Loc.Op != OFieldAd || k.roles[v.Loc.Aux] != "" {
			continue
		}
		for _, n := range k.lists {
			if n == v.Loc.Aux && isAllocOrParam(v.Loc.Args[0], k.t) {
				return true
			}
		}
	}
	return false
}

// isAllocOrParam: the address of a value of the type.
func isAllocOrParam(t *Term, n *types.Named) bool {
	if t.Type != nil && types.Identical(derefType(t.Type), n) {
		return true
	}
	i, ok := t.Obj.(*AllocInfo)
	return ok && i.Type != nil && types.Identical(i.Type, n)
}

func (c *Check) clientCrash(rule string, fn *ssa.Function, a *knownAudit, facts ...Lit) {
	e := c.exploreWith(fn, func(ex *Explorer) {
		ex.oblig = true
		ex.goRun = starts(fn)
		ex.opaque = func(f *ssa.Function) bool {
			return f != fn && (treeFunc(f) || a != nil && a.isCallback(f))
		}
	}, facts...)
	c.crashFreeOn(rule, shortFn(fn), e, c.clientTrust(a))
}

// keyPathFunc: the function makes the bits of a key.
func keyPathFunc(f *ssa.Function) bool {
	s := f.Signature
	return s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 && isBytesLike(s.Params().At(0).Type()) && s.Results().At(0).Type().String() == "[]bool"
}

// treeFacts: what functions on trees are given: nodes, at depths from 0 to 256.
func treeFacts(fn *ssa.Function) []Lit {
	var out []Lit
	for _, q := range fn.Params {
		p, ok := q.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		x := ParamSym(q)
		out = append(out, litNil(x).Not())
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok || !selfRef(q.Type()) {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), types.Typ[types.Int]) {
				d := MF(x, st.Field(i).Name())
				out = append(out, litLE(tZeroI, d), litLE(d, Int(256)))
			}
		}
	}
	return out
}

// starts: the function starts goroutines.
func starts(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}

// restTrust: requests come from the application, answers do not.
func (c *Check) restTrust() trustFn {
	return func(q *Path, kind string, root *Term, sel []string, ob *Event) string {
		if paramName(root) != "" && strings.HasPrefix(kind, "nil-") {
			return "requests handed to the REST client are well formed"
		}
		if e := c.libraryResult(root); e != nil && strings.HasPrefix(kind, "nil-") {
			return "results of library functions that reported no error are usable (" + shortName(e.Callee) + ")"
		}
		return ""
	}
}

// treeTrust: the nodes of trees in memory are well formed.
func (c *Check) treeTrust() trustFn {
	var node func(t *Term) bool
	node = func(t *Term) bool {
		if t == nil {
			return false
		}
		if t.Type != nil && (selfRef(t.Type) || selfRef(types.NewPointer(t.Type))) {
			return true
		}
		for _, x := range t.Args {
			if node(x) {
				return true
			}
		}
		return false
	}
	return func(q *Path, kind string, root *Term, sel []string, ob *Event) string {
		if strings.HasPrefix(kind, "nil-") {
			if paramName(root) != "" && len(sel) == 0 {
				return "trees and mutations handed to the functions on trees are not nil themselves"
			}
			return ""
		}
		if node(ob.Val) || node(ob.Loc) {
			return "nodes of trees in memory are well formed: depths below 256, paths of 256 bits"
		}
		return ""
	}
}

// treeFunc: the function works on the nodes of a tree held in memory.
func treeFunc(f *ssa.Function) bool {
	for _, q := range f.Params {
		if selfRef(q.Type()) {
			return true
		}
	}
	return false
}

// treePart: the function is a part of others that work on trees.
func (c *Check) treePart(f *ssa.Function) bool {
	if treeHasher(f) || treeChanger(f) || c.w.rec[f] != 0 && f.Parent() == nil && len(f.Params) == 1 {
		return false
	}
	up := c.staticCallers(f)
	for _, g := range up {
		if !treeFunc(g) {
			return false
		}
	}
	return len(up) > 0
}

// selfRef: a pointer to a struct with pointers to its own type.
func selfRef(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), t) {
			return true
		}
	}
	return false
}

func (c *Check) clientTrust(a *knownAudit) trustFn {
	return func(q *Path, kind string, root *Term, sel []string, ob *Event) string {
		if kind == "slice-order" && a != nil && a.merging(ob.Loc) {
			return "the list of subtrees has an entry for every one bit of the number of mutations (the carry rule of C17)"
		}
		if !strings.HasPrefix(kind, "nil-") {
			return ""
		}
		if paramName(root) != "" {
			switch {
			case root.Type != nil && strings.Contains(root.Type.String(), modPath+"/verifiable."):
				return "receivers and earlier states, with what the application put in them, are well formed"
			case isNamedType(root.Type, "pb.LeafData"):
				return ""
			case len(sel) == 0:
				return "heads, proofs and contexts handed to the client are not nil themselves"
			}
			return ""
		}
		if e := c.libraryResult(root); e != nil && len(sel) <= 1 {
			return "results of library functions that reported no error are usable (" + shortName(e.Callee) + ")"
		}
		if root.Op == ORes && len(sel) == 0 {
			if e, ok := root.Obj.(*Event); ok && isServiceCall(e) {
				return "a service that reports no error returns a response (whatever it holds)"
			}
		}
		return ""
	}
}
