package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// auditType describes the type that holds the state of a map audit.
type auditType struct {
	t                *types.Named
	head, size, tree string
	lists            []string
	callbacks        []*ssa.Function
}

// auditTypes: structs of package verifiable that hold a tree in memory, a head of a log
// and a count, with methods that can be used as audit functions of a log.
func (c *Check) auditTypes() []*auditType {
	var out []*auditType
	pkg := c.w.SSA[modPath+"/verifiable"]
	af := c.typeNamed("verifiable", "LogAuditFunction")
	if pkg == nil || af == nil {
		c.anchorFail("package verifiable")
		return nil
	}
	for _, m := range pkg.Members {
		tm, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := tm.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok || selfRef(types.NewPointer(n)) {
			continue
		}
		a := &auditType{t: n}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			switch {
			case selfRef(f.Type()) || selfRef(types.NewPointer(f.Type())):
				a.tree = f.Name()
			case isNamedType(f.Type(), "pb.LogTreeHashResponse"):
				a.head = f.Name()
			case types.Identical(f.Type(), types.Typ[types.Int64]):
				a.size = f.Name()
			case f.Type().String() == "[][]byte":
				a.lists = append(a.lists, f.Name())
			}
		}
		if a.tree == "" {
			continue
		}
		for _, fn := range c.w.Funcs {
			if r := fn.Signature.Recv(); r != nil && fn.Parent() == nil && fn.Synthetic == "" && types.Identical(derefType(r.Type()), n) {
				s := fn.Signature
				if types.Identical(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), af.Underlying()) {
					a.callbacks = append(a.callbacks, fn)
				}
			}
		}
		if len(a.callbacks) > 0 {
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		c.anchorFail("the type that holds the state of a map audit")
	}
	return out
}

// auditStates are the states between calls: nothing replayed, or all arrays as long as
// the head's tree.
func (a *auditType) auditStates(recv *Term) [][]Lit {
	head, size := MF(recv, a.head), MF(recv, a.size)
	first := []Lit{litNil(recv).Not(), litNil(head), litEQ0(size)}
	later := []Lit{litNil(recv).Not(), litNil(head).Not(), litEQ0(Sub(MF(head, "TreeSize"), size)), litLE(tOne, size)}
	for _, l := range a.lists {
		first = append(first, litEQ0(LenOf(MF(recv, l))))
	}
	return [][]Lit{first, later}
}

func (c *Check) mapAudits() {
	for _, a := range c.auditTypes() {
		c.count("audit states")
		name := a.t.Obj().Name()
		if !c.must(a.head != "" && a.size != "" && len(a.lists) >= 2, "audit-state", name, a.t.Obj().Pos(), "the fields of %s are not recognised: head, size, lists", name) {
			continue
		}
		c.stateOwned(a)
		for _, fn := range a.callbacks {
			// which list holds map roots and which mutation log roots is found out on the way
			roles := map[string]string{}
			for pass := 0; pass < 2; pass++ {
				for i := 0; i < 2; i++ {
					c.treeHeadAudit(a, fn, i, roles, pass == 1)
				}
			}
		}
		c.auditStarts(a)
	}
	c.min("audit states", 1)
	c.min("audited tree heads", 2)
	c.min("replayed mutations", 2)
}

// stateOwned: only methods of the type write its fields.
func (c *Check) stateOwned(a *auditType) {
	ptr := types.NewPointer(a.t)
	st := a.t.Underlying().(*types.Struct)
	for _, fn := range c.w.Funcs {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		own := root.Signature.Recv() != nil && types.Identical(derefType(root.Signature.Recv().Type()), a.t)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f, ok := in.(*ssa.FieldAddr)
				if !ok || !types.Identical(f.X.Type(), ptr) || own {
					continue
				}
				n := st.Field(f.Field).Name()
				state := n == a.head || n == a.size || n == a.tree
				for _, l := range a.lists {
					state = state || n == l
				}
				c.must(!state, "audit-state-owned", shortFn(fn), f.Pos(), "%s reaches into the state of an audit (%s.%s)", shortFn(fn), a.t.Obj().Name(), n)
			}
		}
	}
	c.ok("audit-state-owned", a.t.Obj().Name())
}

// fieldOf gives the field of the struct whose type is named.
func (a *auditType) fieldOf(named string) string {
	st := a.t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if isNamedType(st.Field(i).Type(), named) {
			return st.Field(i).Name()
		}
	}
	return ""
}

func (c *Check) treeHeadAudit(a *auditType, fn *ssa.Function, state int, roles map[string]string, judge bool) {
	recv, entry := ParamSym(fn.Params[0]), ParamSym(fn.Params[len(fn.Params)-1])
	e := c.exploreWith(fn, auditConf, a.auditStates(recv)[state]...)
	name := shortFn(fn)
	for _, p := range e.paths {
		if !p.maySucceed() {
			continue
		}
		f := p.facts()
		if !judge {
			c.listRoles(a, e, p, entry, roles)
			continue
		}
		c.count("audited tree heads")
		mth := c.decodedEntry(f, p.St.events, entry, "pb.MapTreeHashResponse")
		if !c.must(validated(f, p.St.events, entry), "treehead-validated", name, p.Pos, "%s may accept a tree head entry whose data was not validated", name) ||
			!c.must(mth != nil, "treehead-decoded", name, p.Pos, "%s may accept a tree head entry whose data was not decoded", name) {
			continue
		}
		end := e.ex.Snap(p.St, recv, fn.Params[0].Type())
		n := MF(mth, "MutationLog", "TreeSize")
		for want, what := range map[string]string{"map": "map root", "log": "mutation log root"} {
			field := ""
			for l, r := range roles {
				if r == want {
					field = l
				}
			}
			if !c.must(field != "", "treehead-compared", name, p.Pos, "%s does not compare the %s of a tree head with the replayed one", name, what) {
				continue
			}
			root := MF(mth, "RootHash")
			if want == "log" {
				root = MF(mth, "MutationLog", "RootHash")
			}
			list := MF(end, field)
			same := false
			for _, l := range f.lits {
				if l.Neg || l.A.Op != OEQ {
					continue
				}
				for i := 0; i < 2; i++ {
					same = same || canon(l.A.Args[i]) == root && elemAt(f, l.A.Args[1-i], list, AddC(n, -1))
				}
			}
			c.must(same, "treehead-compared", name, p.Pos, "%s may accept a tree head whose %s differs from the one replayed for its size", name, what)
		}
		c.replay(a, e, p, fn, recv, end, roles)
	}
}

// listRoles: which list is compared with the tree head's map root, which with its
// mutation log's.
func (c *Check) listRoles(a *auditType, e *exploration, p *Path, entry *Term, roles map[string]string) {
	f := p.facts()
	mth := c.decodedEntry(f, p.St.events, entry, "pb.MapTreeHashResponse")
	end := e.ex.Snap(p.St, ParamSym(p.fnRecv(e)), p.fnRecv(e).Type())
	if mth == nil {
		return
	}
	for _, l := range f.lits {
		if l.Neg || l.A.Op != OEQ {
			continue
		}
		for i := 0; i < 2; i++ {
			x := l.A.Args[1-i]
			if x.Op != OElem {
				continue
			}
			for _, field := range a.lists {
				if x.Args[0] != MF(end, field) {
					continue
				}
				switch canon(l.A.Args[i]) {
				case MF(mth, "RootHash"):
					roles[field] = "map"
				case MF(mth, "MutationLog", "RootHash"):
					roles[field] = "log"
				}
			}
		}
	}
}

func (p *Path) fnRecv(e *exploration) *ssa.Parameter { return e.fn.Params[0] }

// validated: a validator of entries accepted x.
func validated(f *Facts, evs []*Event, x *Term) bool {
	for _, ev := range evs {
		if ev.Kind != ECall || ev.Fn == nil || !validator(ev.Fn) || !succeeded(f, ev) {
			continue
		}
		for _, a := range ev.Args {
			if a == x {
				return true
			}
		}
	}
	return false
}

// decodedEntry: the decoding of the extra data of x as a message of the named type,
// which succeeded.
func (c *Check) decodedEntry(f *Facts, evs []*Event, x *Term, named string) *Term {
	data := MF(x, "ExtraData")
	for _, ev := range evs {
		if ev.Kind != ECall || ev.Callee != "encoding/json.Unmarshal" || len(ev.Args) < 2 || !succeeded(f, ev) || canon(ev.Snap[0]) != canon(data) && canon(ev.Args[0]) != canon(data) {
			continue
		}
		o := ev.Val
		if o == nil {
			o = ev.Outs[1]
		}
		if o != nil && o.Op == OApp && strings.HasPrefix(o.Aux, "unjson:") && strings.HasSuffix(o.Aux, named[strings.Index(named, "."):]) && canon(o.Args[0]) == canon(data) {
			return o
		}
	}
	return nil
}

// replay: the state after a successful call is one of those between calls, and what was
// added to it follows from the mutations.
func (c *Check) replay(a *auditType, e *exploration, p *Path, fn *ssa.Function, recv, end *Term, roles map[string]string) {
	f := p.facts()
	name := shortFn(fn)
	head, size := MF(end, a.head), MF(end, a.size)
	f.add(litNil(recv).Not())
	c.must(f.Implies(litNil(head).Not()) && eqi(f, MF(head, "TreeSize"), size), "audit-state", name, p.Pos, "after a success of %s the size of the state may differ from that of its head (%s and %s)", name, brief(size), brief(head))
	rs := logRuns(p)
	if len(rs) == 0 {
		for _, l := range append([]string{a.head, a.size}, a.lists...) {
			c.must(MF(end, l) == MF(recv, l), "audit-state", name, p.Pos, "%s changes %s without replaying mutations", name, l)
		}
		return
	}
	r, why := c.verifiedRun(e, p, nil, MF(recv, a.head), head)
	if !c.must(why == "", "replay-complete", name, p.Pos, "%s may replay mutations that are not those of the mutation log up to its head: %s", name, why) {
		return
	}
	// of the mutation log of the map
	m := a.fieldOf("verifiable.Map")
	ref := MF(recv, m, "Map")
	log := MF(r.entries.Snap[0], "Log")
	c.must(eqv(f, MF(log, "Account"), MF(ref, "Account")) && eqv(f, MF(log, "Name"), MF(ref, "Name")) && eqi(f, MF(log, "LogType"), Int(ltMutation)), "replay-log", name, p.Pos, "%s replays the entries of %s", name, brief(log))
	vars := map[string]*PhiInfo{}
	for _, l := range a.lists {
		for _, v := range r.loop.Vars {
			if v.Loc != nil && v.Loc.Op == OFieldAd && v.Loc.Aux == l && v.Loc.Args[0] == recv {
				vars[l] = v
			}
		}
		v := vars[l]
		if !c.must(v != nil && v.Init == MF(recv, l), "replay-lists", name, p.Pos, "%s does not extend %s with every mutation", name, l) {
			return
		}
		if roles[l] != "" {
			c.must(MF(end, l) == v.Sym, "replay-lists", name, p.Pos, "%s changes %s after replaying", name, l)
		}
	}
	for _, it := range r.loop.Iters {
		c.count("replayed mutations")
		c.replayed(a, e, fn, it, r, recv, vars, roles)
	}
}

// replayed: one entry of the mutation log.
func (c *Check) replayed(a *auditType, e *exploration, fn *ssa.Function, it *Path, r *logRun, recv *Term, vars map[string]*PhiInfo, roles map[string]string) {
	g := it.facts()
	name := shortFn(fn)
	evs := iterEvents(r.loop, it)
	var entry *Term
	for _, x := range evs {
		if x.Kind == ERecv && x.Loc == r.entries.Res[0] {
			entry = x.Res[0]
		}
	}
	if entry == nil {
		return
	}
	c.must(validated(g, evs, entry), "mutation-validated", name, it.Pos, "%s may replay a mutation whose entry was not validated", name)
	mut := c.decodedEntry(g, evs, entry, "pb.MapMutation")
	if !c.must(mut != nil, "mutation-decoded", name, it.Pos, "%s may replay an entry that was not decoded", name) {
		return
	}
	// the tree
	var apply *Event
	n := 0
	for _, x := range evs {
		if x.Kind == ECall && x.Fn != nil && treeFunc(x.Fn) && len(x.Args) == 2 {
			n++
			apply = x
		}
	}
	if !c.must(n == 1, "mutation-applied", name, it.Pos, "%s applies a mutation %d times to its tree", name, n) {
		return
	}
	tree := apply.Args[0]
	c.must(tree == FieldAddr(recv, a.tree) || tree == MF(recv, a.tree), "mutation-applied", name, apply.Pos, "%s applies a mutation to %s", name, brief(tree))
	got := apply.Snap[1]
	why := msgEq(g, unwrap(got), mut, c.typeNamed("pb", "MapMutation"))
	c.must(why == "", "mutation-applied", name, apply.Pos, "%s applies something else than the decoded mutation: %s", name, why)
	c.must(succeeded(g, apply), "mutation-applied", name, apply.Pos, "%s goes on after a mutation that could not be applied", name)
	rh := apply.Res[0]
	// the lists
	var stack *Term
	for _, l := range a.lists {
		if roles[l] != "" {
			continue
		}
		nx := nextIn(it, vars[l])
		leaf, why := carryNext(it, vars[l].Sym, nx, r.count)
		if why == "" && leafOfRecv(it, r, leaf) {
			stack = nx
		}
		c.must(why == "" && leafOfRecv(it, r, leaf), "replay-stack", name, it.Pos, "%s does not keep the subtrees of the mutation log in %s: %s", name, l, why)
	}
	for _, l := range a.lists {
		if roles[l] == "" {
			continue
		}
		base, x := pushed(nextIn(it, vars[l]))
		if !c.must(base == vars[l].Sym, "replay-lists", name, it.Pos, "%s does not append one hash to %s for a mutation", name, l) {
			continue
		}
		switch roles[l] {
		case "map":
			c.must(x == rh, "replay-map-root", name, it.Pos, "%s keeps %s as map root after a mutation", name, brief(x))
		case "log":
			c.must(stack != nil && foldsStack(g, x, stack), "replay-log-root", name, it.Pos, "%s keeps %s as the mutation log's root after a mutation", name, brief(x))
		}
	}
	// what the caller wants to see
	if fl := a.fieldOf("verifiable.LeafDataAuditFunction"); fl != "" {
		calls := 0
		for _, x := range evs {
			if x.Kind != ECall || x.Callee != "dyncall" || x.Loc != MF(recv, fl) {
				continue
			}
			calls++
			c.must(len(x.Args) == 2 && sameMsg(g, x.Snap[1], MF(mut, "Value"), c.typeNamed("pb", "LeafData")), "value-audited", name, x.Pos, "%s passes %s to the value audit function", name, brief(x.Args[1]))
			c.must(succeeded(g, x), "value-audited", name, x.Pos, "%s goes on although the value audit function may have failed", name)
		}
		c.must(calls == 1 || calls == 0 && (g.Implies(litNil(MF(recv, fl))) || isNilVal(g, MF(mut, "Value"))), "value-audited", name, it.Pos, "%s calls the value audit function %d times for a mutation", name, calls)
	}
	fl := a.fieldOf("verifiable.MapAuditFunction")
	if !c.must(fl != "", "change-audited", name, it.Pos, "the map audit function of %s is not recognised", name) {
		return
	}
	var last *PhiInfo
	for _, v := range r.loop.Vars {
		if nextIn(it, v) == rh && v.Loc != MF(recv, "x") && isBytesLike(v.Sym.Type) {
			last = v
		}
	}
	calls := 0
	for _, x := range evs {
		if x.Kind != ECall || x.Callee != "dyncall" || x.Loc != MF(recv, fl) {
			continue
		}
		calls++
		c.must(len(x.Args) == 4 && eqi(g, x.Args[1], r.count) && eqv(g, canon(x.Args[2]), MF(mut, "Key")) && sameMsg(g, x.Snap[3], MF(mut, "Value"), c.typeNamed("pb", "LeafData")), "change-audited", name, x.Pos, "%s passes something else than index, key and value of the mutation to the map audit function", name)
		c.must(succeeded(g, x), "change-audited", name, x.Pos, "%s goes on although the map audit function may have failed", name)
	}
	if calls == 0 && g.Implies(litNil(MF(recv, fl))) {
		return
	}
	if !c.must(last != nil && c.treeHash(last.Init, recv, a), "change-audited", name, it.Pos, "%s does not remember the map root before a mutation", name) {
		return
	}
	eq := litEQ(last.Sym, rh)
	switch calls {
	case 0:
		c.must(g.Implies(eq), "change-audited", name, it.Pos, "%s may not call the map audit function although the map root changed", name)
	case 1:
		c.must(g.Implies(eq.Not()), "change-audited", name, it.Pos, "%s may call the map audit function although the map root did not change", name)
	default:
		c.must(false, "change-audited", name, it.Pos, "%s calls the map audit function %d times for a mutation", name, calls)
	}
}

func sameMsg(f *Facts, a, b *Term, t types.Type) bool {
	if isNilVal(f, b) && isNilVal(f, a) {
		return true
	}
	return eqv(f, canon(a), canon(b)) || msgEq(f, unwrap(a), unwrap(b), t) == ""
}

// treeHash: t is the hash of the tree in the state.
func (c *Check) treeHash(t, recv *Term, a *auditType) bool {
	if t == nil {
		return false
	}
	ev, ok := t.Obj.(*Event)
	return ok && ev.Kind == ECall && ev.Fn != nil && treeFunc(ev.Fn) && len(ev.Args) == 1 && (ev.Args[0] == FieldAddr(recv, a.tree) || ev.Args[0] == MF(recv, a.tree))
}

// auditStarts: a map audit passes the entries of the tree head log between the caller's
// states to the audit of tree heads, starting from a fresh state.
func (c *Check) auditStarts(a *auditType) {
	audits := map[*ssa.Function]bool{}
	for _, f := range c.auditFuncs() {
		audits[f] = true
	}
	cb := map[*ssa.Function]bool{}
	for _, f := range a.callbacks {
		cb[f] = true
	}
	ms := c.typeNamed("verifiable", "MapTreeState")
	for _, fn := range c.w.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || ms == nil {
			continue
		}
		var states []*Term
		var leafF, mapF *Term
		for _, q := range fn.Params {
			switch {
			case isNamedType(q.Type(), "verifiable.MapTreeState"):
				states = append(states, ParamSym(q))
			case isNamedType(q.Type(), "verifiable.LeafDataAuditFunction"):
				leafF = ParamSym(q)
			case isNamedType(q.Type(), "verifiable.MapAuditFunction"):
				mapF = ParamSym(q)
			}
		}
		if len(states) != 2 || mapF == nil {
			continue
		}
		c.count("map audits")
		name := shortFn(fn)
		e := c.exploreWith(fn, func(ex *Explorer) {
			ex.opaque = func(f *ssa.Function) bool {
				for g := range cb {
					if f.Object() != nil && f.Object() == g.Object() {
						return true
					}
				}
				return audits[f]
			}
		})
		prev, head := states[0], states[1]
		recv := ParamSym(fn.Params[0])
		for _, p := range e.paths {
			if !p.maySucceed() {
				continue
			}
			f := p.facts()
			var ev *Event
			for _, x := range p.St.events {
				if x.Kind == ECall && x.Fn != nil && audits[x.Fn] && ev == nil {
					ev = x
				}
			}
			if !c.must(ev != nil && p.retErr() == errOf(ev) || ev != nil && succeeded(f, ev), "map-audit", name, p.Pos, "%s may succeed without auditing the tree head log", name) {
				continue
			}
			var heads []*Term
			var cbk, log *Term
			for i, q := range ev.Fn.Params {
				switch {
				case isNamedType(q.Type(), "pb.LogTreeHashResponse"):
					heads = append(heads, ev.Args[i])
				case isNamedType(q.Type(), "verifiable.LogAuditFunction"):
					cbk = ev.Args[i]
				case isNamedType(q.Type(), "verifiable.Log"):
					log = MF(ev.Snap[i], "Log")
				}
			}
			if !c.must(len(heads) == 2 && cbk != nil && log != nil, "map-audit", name, ev.Pos, "the arguments of the log audit in %s are not recognised", name) {
				continue
			}
			ref := MF(recv, "Map")
			c.must(eqv(f, MF(log, "Account"), MF(ref, "Account")) && eqv(f, MF(log, "Name"), MF(ref, "Name")) && eqi(f, MF(log, "LogType"), Int(ltTreehead)), "map-audit-log", name, ev.Pos, "%s audits %s", name, brief(log))
			okPrev := isNilVal(f, prev) && isNilVal(f, heads[0]) || f.Implies(litNil(prev).Not()) && heads[0] == MF(prev, "TreeHeadLogTreeHead")
			c.must(okPrev, "map-audit-range", name, ev.Pos, "%s starts the audit at %s", name, brief(heads[0]))
			c.must(heads[1] == MF(head, "TreeHeadLogTreeHead"), "map-audit-range", name, ev.Pos, "%s ends the audit at %s", name, brief(heads[1]))
			// the callback
			target, st := boundMethod(cbk, cb)
			if !c.must(target != nil, "map-audit-callback", name, ev.Pos, "%s audits the tree heads with %s", name, brief(cbk)) {
				continue
			}
			s := e.ex.Snap(p.St, st, target.Params[0].Type())
			for _, l := range append([]string{a.head}, a.lists...) {
				c.must(isNilVal(f, MF(s, l)) || isZeroConst(MF(s, l)), "map-audit-fresh", name, ev.Pos, "%s starts with %s %s", name, l, brief(MF(s, l)))
			}
			c.must(isZeroConst(MF(s, a.size)), "map-audit-fresh", name, ev.Pos, "%s starts with size %s", name, brief(MF(s, a.size)))
			c.must(MF(s, a.fieldOf("verifiable.MapAuditFunction")) == mapF, "map-audit-callback", name, ev.Pos, "%s does not pass on the map audit function", name)
			if fl := a.fieldOf("verifiable.LeafDataAuditFunction"); fl != "" && leafF != nil {
				c.must(MF(s, fl) == leafF, "map-audit-callback", name, ev.Pos, "%s does not pass on the value audit function", name)
			}
			m := MF(s, a.fieldOf("verifiable.Map"))
			c.must(m == recv || canon(m) == canon(recv), "map-audit-callback", name, ev.Pos, "%s replays the mutations of %s", name, brief(m))
		}
	}
	c.min("map audits", 1)
}

// boundMethod: t is a method of the set bound to a receiver.
func boundMethod(t *Term, set map[*ssa.Function]bool) (*ssa.Function, *Term) {
	for t != nil && (t.Op == OIface || t.Op == OApp && t.Aux == "&") {
		t = t.Args[0]
	}
	if t == nil || t.Op != OClos || t.Fn == nil || len(t.Args) == 0 {
		return nil, nil
	}
	for f := range set {
		if t.Fn.Object() == f.Object() && t.Fn.Object() != nil {
			return f, t.Args[0]
		}
	}
	return nil, nil
}
