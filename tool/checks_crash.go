package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// trustFn says why the value root (with the path of selections from it) may be
// relied upon; "" if it may not.
type trustFn func(q *Path, kind string, root *Term, sel []string, ob *Event) string

// rootOf strips the selections from a value.
func rootOf(t *Term) (*Term, []string) {
	var sel []string
	for {
		switch t.Op {
		case OField, OFieldAd:
			sel = append([]string{t.Aux}, sel...)
			t = t.Args[0]
			continue
		case OElem, OIndexAd:
			sel = append([]string{"[]"}, sel...)
			t = t.Args[0]
			continue
		case OMapElem, OMapAd:
			sel = append([]string{"[key]"}, sel...)
			t = t.Args[0]
			continue
		case ODeref, OIface:
			t = t.Args[0]
			continue
		case OLen, OSlice, OSliceV:
			t = t.Args[0]
			continue
		case OApp:
			if t.Aux == "&" {
				t = t.Args[0]
				continue
			}
		}
		return t, sel
	}
}

// crashFree reports every operation of the partitions that could panic and whose
// safety does not follow from the path condition or from a trusted source.
func (c *Check) crashFree(rule string, fn *ssa.Function, facts []Lit, trust trustFn) *exploration {
	e := c.exploreWith(fn, withOblig, facts...)
	c.crashFreeOn(rule, shortFn(fn), e, trust)
	return e
}

func withOblig(ex *Explorer) { ex.oblig, ex.joinAbove = true, joinDefault }

func (c *Check) crashFreeOn(rule, name string, e *exploration, trust trustFn) {
	c.count("entry points")
	seen := map[string]bool{}
	shown := map[*Event]bool{}
	for _, p := range e.paths {
		if p.End == "panic" && !trustedPanic(p, trust) {
			c.fail(rule, name+" panics", p.Pos, "%s: a partition always panics here", name)
		}
		if p.End == "exit" && !failedStep(p, p.facts(), func(*Event) bool { return true }) {
			c.fail(rule, name+" exits", p.Pos, "%s: a partition ends the process here although nothing failed", name)
		}
		allEvents(p, func(q *Path, ev *Event) {
			if ev.Kind != EOblig {
				return
			}
			site := ev.Instr.Parent()
			if !shown[ev] {
				c.count("operations that could panic")
			}
			if ev.OK {
				if shown[ev] {
					return
				}
				shown[ev] = true
				c.ok(rule, shortFn(site)+" "+ev.Callee)
				return
			}
			subj := ev.Loc
			if subj == nil {
				subj = ev.Val
			}
			root, sel := rootOf(subj)
			why := ""
			if ev.Val != nil && ev.Val.Op == OLE0 && q.at(ev).impliesLE(ev.Val.Args[0], 6) {
				c.ok(rule, shortFn(site)+" "+ev.Callee)
				return
			}
			if !c.elemsNonNil(e.ex, q, ev, subj) {
				why = trust(q, ev.Callee, root, sel, ev)
			} else {
				c.ok(rule, shortFn(site)+" "+ev.Callee)
				return
			}
			if why != "" {
				c.ok(rule, shortFn(site)+" "+ev.Callee)
				if !seen[why] {
					seen[why] = true
					c.assumption(why)
				}
				return
			}
			c.fail(rule, shortFn(site)+" "+ev.Callee+" "+strings.Join(sel, "."), ev.Pos, "%s: %s may fail at %s: not known %s (%s)", name, ev.Callee, c.pos(instrPos(ev.Instr)), brief(ev.Val), brief(subj))
			if os.Getenv("DBG") != "" {
				if os.Getenv("DBG") == "2" {
					fmt.Println("FACTS", q.at(ev).lits)
				}
				fmt.Println("DBG", name, c.pos(instrPos(ev.Instr)), ev.Callee, "root", brief(root), root.Op, root.Type, sel, brief(ev.Val))
			}
		})
	}
}

// trustedPanic: the partition ends at an operation that would fail only for a value that
// is relied upon.
func trustedPanic(p *Path, trust trustFn) bool {
	var last *Event
	for _, e := range p.St.events {
		if e.Kind == EOblig {
			last = e
		}
	}
	if last == nil || last.OK {
		return false
	}
	subj := last.Loc
	if subj == nil {
		subj = last.Val
	}
	root, sel := rootOf(subj)
	return last.Instr == p.Instr && trust(p, last.Callee, root, sel, last) != ""
}

// elemsNonNil: the subject is an element of a sequence built by a loop that only
// puts usable values there.
func (c *Check) elemsNonNil(ex *Explorer, q *Path, ev *Event, t *Term) bool {
	if !strings.HasPrefix(ev.Callee, "nil-") || t.Op != OElem {
		return false
	}
	return c.seqNonNil(ex, q.at(ev), t.Args[0], map[*Term]bool{})
}

// seqNonNil: every element of the sequence is usable.
func (c *Check) seqNonNil(ex *Explorer, f *Facts, t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.Op {
	case ONil, OZero:
		return true
	case OList:
		for _, a := range t.Args {
			if !(a.Op == OAlloc || f != nil && f.Implies(litNil(a).Not())) {
				return false
			}
		}
		return true
	case OSliceV:
		return t.Args[2] == tZeroI
	case OAppend:
		return c.seqNonNil(ex, f, t.Args[0], seen) && c.seqNonNil(ex, f, t.Args[1], seen)
	}
	switch v := t.Obj.(type) {
	case *PhiInfo:
		l := v.Inst
		if l == nil || v.Sym != t || !c.seqNonNil(ex, f, v.Init, seen) {
			return false
		}
		for _, it := range l.Iters {
			var nx *Term
			if v.Phi != nil {
				for i, w := range l.Vars {
					if w == v && i < len(it.Nexts) {
						nx = it.Nexts[i]
					}
				}
			} else {
				nx = ex.load(it.St, v.Loc, v.Typ)
			}
			if nx == nil || !c.seqNonNil(ex, it.facts(), nx, seen) {
				return false
			}
		}
		return true
	case *LoopStore:
		cs, _, ok := elemCases(ex, ElemOf(t, tZeroI, nil), nil)
		if !ok || len(cs) == 0 {
			return false
		}
		for _, e := range cs {
			if !e.Kept && (e.Raw == nil || !(e.Raw.Op == OAlloc || e.F.Implies(litNil(e.Raw).Not()))) {
				return false
			}
		}
		return true
	}
	return false
}

// sizeTaint: the number depends on the value sym other than through a hash.
func sizeTaint(t, sym *Term, seen map[*Term]bool) bool {
	if t == sym {
		return true
	}
	if seen[t] || t.Op == OApp && (t.Aux == "sha256" || t.Aux == fObjectHash || t.Aux == fNodeHash) {
		return false
	}
	seen[t] = true
	for _, a := range t.Args {
		if sizeTaint(a, sym, seen) {
			return true
		}
	}
	return false
}

// loopTaint: an iteration counter in t counts a loop whose length depends on sym.
func loopTaint(q *Path, t, sym *Term) bool {
	its := map[*Term]bool{}
	t.Any(func(x *Term) bool {
		if x.Op == OIter {
			its[x] = true
		}
		return false
	})
	for _, l := range q.St.facts.lits {
		if l.A.Op != OLE0 && l.A.Op != OEQ0 || !sizeTaint(l.A, sym, map[*Term]bool{}) {
			continue
		}
		if l.A.Any(func(x *Term) bool { return its[x] }) {
			return true
		}
	}
	return false
}

// libraryResult: the value is a result of a function outside the repository.
func (c *Check) libraryResult(t *Term) *Event {
	if t.Op == ORes {
		if e, ok := t.Obj.(*Event); ok && e.Kind == ECall && !strings.Contains(e.Callee, modPath) {
			return e
		}
	}
	return nil
}

func paramName(t *Term) string {
	if t.Op == OSym && strings.HasPrefix(t.Aux, "p:") {
		return t.Aux[2:]
	}
	return ""
}

func isNamedType(t types.Type, suffix string) bool {
	return t != nil && strings.HasSuffix(derefType(t).String(), suffix)
}

// storedMessage: the value was read from storage.
func storedMessage(t *Term) bool {
	e := outEvent(t)
	return e != nil && isGet(e)
}

func init() {
	register("C22", checkC22, "path-sensitive dataflow over the SSA form with panic obligations: nil dereference, nil call, index, slice, map write, conversion and allocation sizes, with taint from request fields",
		"Every operation that can panic (nil dereference or call, index, slice bounds, map write, type assertion, allocation size, division) on every partition of the eight operations, the access policies, every registered REST route, ApplyMutation, QueueMutation of every mutator and the goroutines they start must be shown safe by the path condition, or concern only trusted values (configuration, results of library calls that reported no error, records in storage); nothing derived from a request is trusted. Queued mutations must carry the messages whose absence would crash or fail their application, and no partition ends the process unless a step failed.")
}

func checkC22(c *Check) {
	base := func(q *Path, kind string, root *Term, sel []string, ob *Event) string {
		if e := c.libraryResult(root); e != nil && len(sel) <= 1 && strings.HasPrefix(kind, "nil-") {
			return "results of library functions that reported no error are usable (" + shortName(e.Callee) + ")"
		}
		if storedMessage(root) {
			return "records in storage are those the library wrote"
		}
		return ""
	}
	for _, o := range c.serviceOps() {
		recv := o.Recv
		req := o.Req
		c.crashFree("no-panic", o.Fn, nil, func(q *Path, kind string, root *Term, sel []string, ob *Event) string {
			switch {
			case root == recv && len(sel) == 0:
				return "the service object is not nil"
			case root == recv && len(sel) == 1 && (sel[0] == "AccessPolicy" || sel[0] == "Reader"):
				return "the service has an access policy and a reader (the mutator may be absent)"
			case root == req && len(sel) == 0:
				return "the request itself is not nil"
			}
			if root.Op == ORes {
				if e, ok := root.Obj.(*Event); ok && strings.HasSuffix(e.Callee, "VerifyAllowed") && kind == "nil-deref" && len(sel) == 0 {
					return "a policy that allows an access returns a modifier"
				}
			}
			if strings.HasPrefix(kind, "index-") || strings.HasPrefix(kind, "slice-") {
				if !sizeTaint(ob.Val, req, map[*Term]bool{}) && !loopTaint(q, ob.Val, req) {
					return "stored map trees are at most 256 deep, stored paths and the table of default leaf values have their full length"
				}
			}
			return base(q, kind, root, sel, ob)
		})
	}
	c.applyCrash(base)
	c.restCrash(base)
	c.policyCrash(base)
	c.mutatorCrash(base)
}

// restCrash: HTTP requests.
func (c *Check) restCrash(base trustFn) {
	for _, rs := range c.restRoutes() {
		for _, r := range rs {
			e := c.exploreRoute(r, withOblig)
			c.count("routes")
			c.crashFreeOn("no-panic-rest", strings.Join(r.Methods, "|")+" "+r.Pattern, e, func(q *Path, kind string, root *Term, sel []string, ob *Event) string {
				if n := paramName(root); n != "" && len(sel) == 0 {
					return "net/http hands handlers a request and a response writer"
				}
				if n := paramName(root); n == paramName(ParamSym(r.Fn.Params[len(r.Fn.Params)-1])) && len(sel) == 1 && (sel[0] == "Body" || sel[0] == "Header" || sel[0] == "URL") {
					return "net/http gives a server request a body, a header and a URL"
				}
				if n := paramName(root); n == "s" || n == "cc" {
					return "the wrapped service is not nil"
				}
				if root.Op == ORes {
					if e, ok := root.Obj.(*Event); ok && strings.Contains(e.Callee, "pb.VerifiableDataStructuresServiceServer).") && strings.HasPrefix(kind, "nil-") {
						return "the wrapped service answers without error with complete responses"
					}
				}
				return base(q, kind, root, sel, ob)
			})
		}
	}
	c.min("routes", 30)
}

// policyCrash: the access policies.
func (c *Check) policyCrash(base trustFn) {
	it := c.typeNamed("verifiable", "AuthorizationOracle")
	if it == nil {
		return
	}
	for _, t := range c.implementers(it) {
		fn := c.method(t, "VerifyAllowed")
		if fn == nil {
			c.anchorFail("VerifyAllowed of " + t.String())
			continue
		}
		c.count("policies")
		recv := ParamSym(fn.Params[0])
		c.crashFree("no-panic-policy", fn, nil, func(q *Path, kind string, root *Term, sel []string, ob *Event) string {
			if root == recv && strings.HasPrefix(kind, "nil-") {
				return "the configured policy has no empty entries"
			}
			return base(q, kind, root, sel, ob)
		})
	}
	c.min("policies", 2)
}

func (c *Check) applyCrash(base trustFn) {
	fn := c.fn("verifiable", "ApplyMutation")
	if fn == nil {
		return
	}
	var mut, ctx *Term
	for _, p := range fn.Params {
		if isNamedType(p.Type(), "pb.Mutation") {
			mut = ParamSym(p)
		}
		_ = ctx
	}
	if mut == nil {
		c.anchorFail("the mutation parameter of ApplyMutation")
		return
	}
	need := map[string][]string{}
	e := c.crashFree("no-panic", fn, nil, func(q *Path, kind string, root *Term, sel []string, ob *Event) string {
		if root == mut && strings.HasPrefix(kind, "nil-") {
			need[strings.Join(sel, ".")] = sel
			return "queued mutations carry the messages that their application relies on (checked where they are queued)"
		}
		if n := paramName(root); n != "" && len(sel) == 0 && root != mut {
			return "the key writer handed to ApplyMutation is not nil"
		}
		if strings.HasPrefix(kind, "index-") || strings.HasPrefix(kind, "slice-") || kind == "makeslice-len" {
			tainted := false
			for _, p := range fn.Params {
				t := ParamSym(p)
				tainted = tainted || sizeTaint(ob.Val, t, map[*Term]bool{}) || loopTaint(q, ob.Val, t)
			}
			if !tainted {
				return "stored map trees are at most 256 deep, stored paths and the table of default leaf values have their full length"
			}
		}
		return base(q, kind, root, sel, ob)
	})
	for _, p := range e.paths {
		if p.End != "return" || p.maySucceed() {
			continue
		}
		for _, q := range p.origins(p.retErr()) {
			f := q.facts()
			if failedStep(q, f, func(*Event) bool { return true }) {
				c.ok("application-fails-only-with-storage", "ApplyMutation")
				continue
			}
			// without the message, or with an action that is refused before it is queued (C12)
			if f.Implies(litNil(SF(mut, "LogAddEntry"))) {
				need["LogAddEntry"] = []string{"LogAddEntry"}
				continue
			}
			c.must(unknownAction(q, f), "application-fails-only-with-storage", "ApplyMutation", q.Pos, "the application of a queued mutation can fail with %s although no storage operation failed; a batch mutator then ends the process", brief(p.retErr()))
		}
	}
	// every queued mutation carries what its application relies on
	for _, o := range c.serviceOps() {
		for _, p := range o.e.paths {
			for _, ev := range p.St.events {
				if !isQueue(ev) {
					continue
				}
				c.count("queue sites")
				fa := p.at(ev)
				for k, sel := range need {
					v := ev.Snap[3]
					if len(sel) > 0 {
						v = MF(v, sel...)
					}
					good := v != nil && (v.Op == OStruct || v.Op == OAlloc || v.Op == OApp && v.Aux == "&" || fa.Implies(litNil(v).Not()))
					c.must(good, "queued-complete", o.Name+" "+k, ev.Pos, "%s queues a mutation whose %s may be missing: %s; its application would crash or end the process", o.Name, k, brief(v))
				}
			}
		}
	}
	c.min("queue sites", 2)
}

// unknownAction: the path knows the mutation's action to be none of the three.
func unknownAction(p *Path, f *Facts) bool {
	no := map[string]bool{}
	for _, l := range f.lits {
		if l.Neg && l.A.Op == OEQ {
			for i := 0; i < 2; i++ {
				x, y := l.A.Args[i], l.A.Args[1-i]
				if x.Op == OStr && y.Op == OField && y.Aux == "Action" {
					no[x.Aux] = true
				}
			}
		}
	}
	return no["set"] && no["delete"] && no["update"]
}

// mutatorCrash: queueing, and the goroutines that apply.
func (c *Check) mutatorCrash(base trustFn) {
	it := c.typeNamed("verifiable", "MutatorService")
	apply := c.fn("verifiable", "ApplyMutation")
	if it == nil || apply == nil {
		return
	}
	var fns []*ssa.Function
	pkgs := map[string]bool{}
	for _, t := range c.implementers(it) {
		fn := c.method(t, "QueueMutation")
		if fn == nil {
			c.anchorFail("QueueMutation of " + t.String())
			continue
		}
		fns = append(fns, fn)
		pkgs[fnPkg(fn).Pkg.Path()] = true
	}
	for _, fn := range c.w.Funcs {
		if fnPkg(fn) == nil || !pkgs[fnPkg(fn).Pkg.Path()] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok {
					if cal := g.Call.StaticCallee(); cal != nil && c.w.InRepo(cal) {
						fns = append(fns, cal)
						c.count("goroutines")
					}
				}
			}
		}
	}
	for _, fn := range fns {
		c.count("mutator entry points")
		e := c.exploreWith(fn, func(ex *Explorer) {
			withOblig(ex)
			ex.opaque = func(f *ssa.Function) bool { return f == apply }
		})
		c.crashFreeOn("no-panic-mutator", shortFn(fn), e, func(q *Path, kind string, root *Term, sel []string, ob *Event) string {
			if strings.HasPrefix(kind, "nil-") {
				if paramName(root) != "" {
					return "mutators are configured with a writer and get a mutation (checked where they are queued)"
				}
			}
			if strings.HasPrefix(kind, "nil-") && root.Type != nil && strings.Contains(root.Type.String(), fnPkg(fn).Pkg.Path()+".") {
				return "a mutator's queue and journal hold only what it put there (sends are checked)"
			}
			return base(q, kind, root, sel, ob)
		})
	}
	for _, fn := range fns {
		for _, p := range c.exploreWith(fn, func(ex *Explorer) { ex.opaque = func(f *ssa.Function) bool { return f == apply } }).paths {
			for _, ev := range p.St.events {
				if ev.Kind == ESend {
					c.must(ev.Val != nil && (ev.Val.Op == OAlloc || p.at(ev).Implies(litNil(ev.Val).Not())), "sends-values", shortFn(fn), ev.Pos, "%s sends a value that may be nil", shortFn(fn))
				}
			}
		}
	}
	c.min("mutator entry points", 3)
}
