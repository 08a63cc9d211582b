package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", checkC16, "path-sensitive dataflow over the SSA form: which proofs were verified, of what and against which heads, on every partition of a client operation that can succeed",
		"On every partition of a verified operation of the client's logs, maps and promises that can return without error, the path condition must include the success of a proof verifier (judged by C15) applied to the very head, leaf or key that the operation is about: inclusion of the caller's leaf in the given or returned head; consistency (or equality) of the caller's earlier head with every head that is returned or relied upon; the value of the verified answer itself; for map states also inclusion of the map head's object hash in the tree head log. Callers' earlier heads may be returned only when they are of the size asked for, or not older than the newest verified one.")
}

// proofVerified: on p a verifier of the proof type succeeded; use gives its arguments.
type verification struct {
	ev    *Event
	proof *Term
	heads []*Term
	bytes *Term
}

type clientOps struct {
	c                  *Check
	verifiers          map[*ssa.Function]string
	log, mp, state     types.Type
	incl, consist, get string
}

func (c *Check) clientOps() *clientOps {
	o := &clientOps{c: c, verifiers: map[*ssa.Function]string{}, incl: "pb.LogInclusionProofResponse", consist: "pb.LogConsistencyProofResponse", get: "pb.MapGetValueResponse"}
	for _, k := range []string{o.incl, o.consist, o.get} {
		for _, f := range c.verifierFuncs(k) {
			o.verifiers[f] = k
		}
	}
	return o
}

func (o *clientOps) conf(ex *Explorer) {
	ex.opaque = func(f *ssa.Function) bool { return o.verifiers[f] != "" }
}

// events on the way to the end of p, also those of the iterations it ends in.
func (o *clientOps) verified(p *Path, f *Facts, kind string) []verification {
	var out []verification
	for _, ev := range p.St.events {
		if ev.Kind != ECall || ev.Fn == nil || o.verifiers[ev.Fn] != kind || !succeeded(f, ev) && !eqErr(p, ev) {
			continue
		}
		v := verification{ev: ev}
		for i, q := range ev.Fn.Params {
			switch {
			case isNamedType(q.Type(), kind):
				v.proof = ev.Args[i]
			case isNamedType(q.Type(), "pb.LogTreeHashResponse") || isNamedType(q.Type(), "pb.MapTreeHashResponse"):
				v.heads = append(v.heads, ev.Args[i])
			case isBytesLike(q.Type()):
				v.bytes = ev.Args[i]
			}
		}
		out = append(out, v)
	}
	return out
}

// eqErr: the partition returns the error of ev, so that it succeeds only if ev did.
func eqErr(p *Path, ev *Event) bool {
	return p.retErr() != nil && p.retErr() == errOf(ev)
}

// included: the leaf was proven to be in head.
func (o *clientOps) included(p *Path, f *Facts, leaf func(t *Term) bool, head *Term) bool {
	for _, v := range o.verified(p, f, o.incl) {
		if len(v.heads) == 1 && sameVal(v.heads[0], head) && leaf(v.bytes) {
			return true
		}
	}
	return false
}

func sameVal(a, b *Term) bool {
	return a != nil && b != nil && (a == b || canon(a) == canon(b))
}

// consistent: a and b were proven to be heads of one log, in either order.
func (o *clientOps) consistent(p *Path, f *Facts, a, b *Term) bool {
	if sameVal(a, b) {
		return true
	}
	for _, v := range o.verified(p, f, o.consist) {
		if len(v.heads) == 2 && (sameVal(v.heads[0], a) && sameVal(v.heads[1], b) || sameVal(v.heads[0], b) && sameVal(v.heads[1], a)) {
			return true
		}
	}
	return eqi(f, MF(a, "TreeSize"), MF(b, "TreeSize")) && eqv(f, MF(a, "RootHash"), MF(b, "RootHash"))
}

// methodName is the last part of a callee's name.
func methodName(callee string) string {
	return callee[strings.LastIndex(callee, ".")+1:]
}

func sizeParam(fn *ssa.Function) *Term {
	var size *Term
	for _, q := range fn.Params {
		if types.Identical(q.Type(), types.Typ[types.Int64]) {
			size = ParamSym(q)
		}
	}
	return size
}

// fieldPtr is the value of the named field of the object that t points to: a
// pointer as it is, not the content it points to.
func fieldPtr(e *exploration, p *Path, t *Term, typ types.Type, field string) *Term {
	s, ok := derefType(typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return e.ex.load(p.St, FieldAddr(t, field), s.Field(i).Type())
		}
	}
	return nil
}

// ofLog: the request is about the receiver's log or map (kind "Log", "Map"), or
// about one of the logs of the receiver's map (kind "mutation", "treehead").
func ofLog(f *Facts, ev *Event, recv *Term, kind string) bool {
	req := ev.Snap[2]
	if kind == "Log" || kind == "Map" {
		a, b := MF(req, kind), MF(recv, kind)
		if sameVal(a, b) || eqv(f, a, b) {
			return true
		}
		if !eqv(f, MF(a, "Name"), MF(b, "Name")) || !accountSame(f, MF(a, "Account"), MF(b, "Account")) {
			return false
		}
		return kind == "Map" || eqv(f, MF(a, "LogType"), MF(b, "LogType"))
	}
	a, b := MF(req, "Log"), MF(recv, "Map")
	lt := int64(ltMutation)
	if kind == "treehead" {
		lt = ltTreehead
	}
	return eqv(f, MF(a, "Name"), MF(b, "Name")) && accountSame(f, MF(a, "Account"), MF(b, "Account")) && eqi(f, MF(a, "LogType"), Int(lt))
}

func accountSame(f *Facts, a, b *Term) bool {
	return sameVal(a, b) || eqv(f, a, b) || eqv(f, MF(a, "Id"), MF(b, "Id")) && eqv(f, MF(a, "ApiKey"), MF(b, "ApiKey"))
}

// served: t is what a successful call of the service's operation returned.
// Given are also the object it has to be about (see ofLog) and the size asked for.
func (o *clientOps) served(p *Path, f *Facts, t *Term, op string, recv *Term, kind string, size *Term) *Event {
	for _, ev := range p.St.events {
		if ev.Kind != ECall || !isServiceCall(ev) || methodName(ev.Callee) != op || len(ev.Res) != 2 || !succeeded(f, ev) && !eqErr(p, ev) {
			continue
		}
		if (t == nil || sameVal(ev.Res[0], t)) && (recv == nil || ofLog(f, ev, recv, kind)) && (size == nil || eqi(f, MF(ev.Snap[2], "TreeSize"), size)) {
			return ev
		}
	}
	return nil
}

func checkC16(c *Check) {
	o := c.clientOps()
	type op struct {
		recv, name string
		use        func(fn *ssa.Function, e *exploration, p *Path, f *Facts)
	}
	for _, x := range []op{
		{"Log", "VerifyInclusion", o.verifyInclusion},
		{"Log", "VerifyConsistency", o.verifyConsistency},
		{"Log", "VerifiedTreeHead", o.verifiedTreeHead},
		{"Log", "VerifiedLatestTreeHead", o.verifiedLatestTreeHead},
		{"Log", "VerifySuppliedInclusionProof", o.suppliedProof},
		{"Log", "BlockUntilPresent", o.blockUntilPresent},
		{"Map", "VerifiedGet", o.verifiedGet},
		{"Map", "VerifiedMapState", o.verifiedMapState},
		{"Map", "VerifiedLatestMapState", o.verifiedLatestMapState},
	} {
		fn := c.fn("verifiable", x.recv+"."+x.name)
		if fn == nil {
			continue
		}
		c.count("verified operations")
		o.each(fn, x.use)
	}
	o.promises("LogUpdatePromise")
	o.promises("MapUpdatePromise")
	c.min("verified operations", 9)
	c.min("promises", 2)
	c.min("promises made", 4)
}

// each: the partitions of fn that may succeed.
func (o *clientOps) each(fn *ssa.Function, use func(fn *ssa.Function, e *exploration, p *Path, f *Facts)) {
	c := o.c
	o.over(fn, c.exploreWith(fn, o.conf), use)
}

func (o *clientOps) over(fn *ssa.Function, e *exploration, use func(fn *ssa.Function, e *exploration, p *Path, f *Facts)) {
	c, n := o.c, 0
	for _, p := range e.paths {
		if p.End != "return" || !p.maySucceed() {
			continue
		}
		f := p.facts()
		if f.dead || f.absurd() || noResponse(p, f) {
			continue
		}
		n++
		c.count("successful partitions")
		use(fn, e, p, f)
	}
	c.must(n > 0, "succeeds", shortFn(fn), fn.Pos(), "%s never succeeds", shortFn(fn))
}

// noResponse: a call of the service gave neither a response nor an error.
func noResponse(p *Path, f *Facts) bool {
	for _, ev := range p.St.events {
		if ev.Kind == ECall && isServiceCall(ev) && len(ev.Res) == 2 && succeeded(f, ev) && f.Implies(litNil(ev.Res[0])) {
			return true
		}
	}
	return false
}

func headParams(fn *ssa.Function) []*Term { return paramsOf(fn, "pb.LogTreeHashResponse") }

func (o *clientOps) verifyInclusion(fn *ssa.Function, e *exploration, p *Path, f *Facts) {
	h, l := headParams(fn), bytesParams(fn)
	if len(h) != 1 || len(l) != 1 {
		o.c.anchorFail("parameters of " + shortFn(fn))
		return
	}
	o.c.must(o.included(p, f, func(t *Term) bool { return sameVal(t, l[0]) }, h[0]), "inclusion-verified", shortFn(fn), p.Pos, "%s may succeed although no proof of the caller's leaf was verified against the caller's head", shortFn(fn))
}

func (o *clientOps) verifyConsistency(fn *ssa.Function, e *exploration, p *Path, f *Facts) {
	h := headParams(fn)
	if len(h) != 2 {
		o.c.anchorFail("parameters of " + shortFn(fn))
		return
	}
	name := shortFn(fn)
	o.c.must(o.consistent(p, f, h[0], h[1]), "consistency-verified", name, p.Pos, "%s may succeed although no proof was verified against both heads", name)
	for _, x := range h {
		o.c.must(f.Implies(litNil(x).Not()) && f.Implies(litLE(tOne, MF(x, "TreeSize"))), "consistency-verified", name, p.Pos, "%s may succeed for a missing or empty head", name)
	}
}

// trusted: head is consistent with the caller's earlier head, if there is one.
func (o *clientOps) trusted(p *Path, f *Facts, prev, head *Term) bool {
	return isNilVal(f, prev) || f.Implies(litNil(prev)) || o.consistent(p, f, prev, head)
}

func (o *clientOps) verifiedTreeHead(fn *ssa.Function, e *exploration, p *Path, f *Facts) {
	h := headParams(fn)
	size := sizeParam(fn)
	if len(h) != 1 || size == nil {
		o.c.anchorFail("parameters of " + shortFn(fn))
		return
	}
	name, rv := shortFn(fn), p.Results[0]
	if sameVal(rv, h[0]) {
		o.c.must(f.Implies(litNil(rv).Not()) && eqi(f, MF(rv, "TreeSize"), size), "head-verified", name, p.Pos, "%s may return the caller's head although it is not of the size asked for", name)
		return
	}
	o.c.must(o.served(p, f, rv, "LogTreeHash", ParamSym(fn.Params[0]), "Log", size) != nil, "head-verified", name, p.Pos, "%s may return %s, which is not an answer of the service for the log and size asked for", name, brief(rv))
	o.c.must(o.trusted(p, f, h[0], rv), "head-verified", name, p.Pos, "%s may return a head that was not verified to be consistent with the caller's", name)
}

// newest: on p a head was fetched for the latest size and is consistent with prev.
func (o *clientOps) newest(p *Path, f *Facts, prev, recv *Term, kind string) *Term {
	if ev := o.served(p, f, nil, "LogTreeHash", recv, kind, tZeroI); ev != nil && o.trusted(p, f, prev, ev.Res[0]) {
		return ev.Res[0]
	}
	return nil
}

func (o *clientOps) verifiedLatestTreeHead(fn *ssa.Function, e *exploration, p *Path, f *Facts) {
	h := headParams(fn)
	if len(h) != 1 {
		o.c.anchorFail("parameters of " + shortFn(fn))
		return
	}
	o.latestHead(shortFn(fn), p, f, h[0], p.Results[0], ParamSym(fn.Params[0]))
}

// latestHead: rv is the newest of the log's head and the caller's, which are consistent.
func (o *clientOps) latestHead(name string, p *Path, f *Facts, prev, rv, recv *Term) {
	got := o.newest(p, f, prev, recv, "Log")
	if !o.c.must(got != nil, "head-verified", name, p.Pos, "%s may succeed without a latest head that was verified to be consistent with the caller's", name) {
		return
	}
	if sameVal(rv, prev) {
		o.c.must(f.Implies(litNil(prev).Not()) && le(f, MF(got, "TreeSize"), MF(prev, "TreeSize")), "head-newest", name, p.Pos, "%s may return the caller's head although a newer one was verified", name)
		return
	}
	o.c.must(sameVal(rv, got), "head-verified", name, p.Pos, "%s may return %s, which was not verified", name, brief(rv))
	o.c.must(isNilVal(f, prev) || f.Implies(litNil(prev)) || le(f, MF(prev, "TreeSize"), MF(rv, "TreeSize")), "head-newest", name, p.Pos, "%s may return a head older than the caller's", name)
}

func (o *clientOps) suppliedProof(fn *ssa.Function, e *exploration, p *Path, f *Facts) {
	h, l, pr := headParams(fn), bytesParams(fn), paramsOf(fn, o.incl)
	name, rv := shortFn(fn), p.Results[0]
	if len(h) != 1 || len(l) != 1 || len(pr) != 1 {
		o.c.anchorFail("parameters of " + name)
		return
	}
	ok := false
	for _, v := range o.verified(p, f, o.incl) {
		ok = ok || sameVal(v.proof, pr[0]) && len(v.heads) == 1 && sameVal(v.heads[0], rv) && sameVal(v.bytes, l[0])
	}
	o.c.must(ok, "inclusion-verified", name, p.Pos, "%s may succeed although the caller's proof was not verified for the caller's leaf against the head returned", name)
	o.c.must(o.trusted(p, f, h[0], rv), "head-verified", name, p.Pos, "%s may rely on a head that was not verified to be consistent with the caller's", name)
}

func (o *clientOps) blockUntilPresent(fn *ssa.Function, e *exploration, p *Path, f *Facts) {
	l := bytesParams(fn)
	name, rv := shortFn(fn), p.Results[0]
	if len(l) != 1 {
		o.c.anchorFail("parameters of " + name)
		return
	}
	o.c.must(o.included(p, f, func(t *Term) bool { return sameVal(t, l[0]) }, rv), "inclusion-verified", name, p.Pos, "%s may return a head although no proof of the leaf was verified against it", name)
}

func (o *clientOps) verifiedGet(fn *ssa.Function, e *exploration, p *Path, f *Facts) {
	keys, st := bytesParams(fn), paramsOf(fn, "verifiable.MapTreeState")
	name, rv := shortFn(fn), p.Results[0]
	if len(keys) != 1 || len(st) != 1 {
		o.c.anchorFail("parameters of " + name)
		return
	}
	ok := false
	for _, v := range o.verified(p, f, o.get) {
		if len(v.heads) == 1 && sameVal(v.heads[0], MF(st[0], "MapTreeHead")) && sameVal(v.bytes, keys[0]) {
			ok = ok || sameVal(rv, MF(v.proof, "Value"))
		}
	}
	o.c.must(ok, "value-verified", name, p.Pos, "%s may return a value (%s) that was not verified for the caller's key against the caller's head", name, brief(rv))
}

func (o *clientOps) verifiedMapState(fn *ssa.Function, e *exploration, p *Path, f *Facts) {
	st := paramsOf(fn, "verifiable.MapTreeState")
	size := sizeParam(fn)
	name, rv := shortFn(fn), p.Results[0]
	if len(st) != 1 || size == nil {
		o.c.anchorFail("parameters of " + name)
		return
	}
	if sameVal(rv, st[0]) && !isNilVal(f, rv) {
		o.c.must(f.Implies(litNil(rv).Not()) && eqi(f, MF(rv, "MapTreeHead", "MutationLog", "TreeSize"), size), "state-verified", name, p.Pos, "%s may return the caller's state although it is not of the size asked for", name)
		return
	}
	o.mapState(name, fn, e, p, f, st[0], size, rv)
}

// mapState: rv is a state whose parts were verified, and consistent with prev.
func (o *clientOps) mapState(name string, fn *ssa.Function, e *exploration, p *Path, f *Facts, prev, size, rv *Term) {
	c := o.c
	recv := ParamSym(fn.Params[0])
	none := isNilVal(f, prev) || f.Implies(litNil(prev))
	if isNilVal(f, rv) {
		empty := false
		if ev := o.served(p, f, nil, "MapTreeHash", recv, "Map", size); ev != nil {
			m := MF(ev.Res[0], "MutationLog")
			empty = isNilVal(f, m) || eqi(f, MF(m, "TreeSize"), tZeroI)
		}
		c.must(none && empty, "state-verified", name, p.Pos, "%s may return no state although the map is not empty or the caller has an earlier state", name)
		return
	}
	st := c.typeNamed("verifiable", "MapTreeState")
	mp, tp := fieldPtr(e, p, rv, st, "MapTreeHead"), fieldPtr(e, p, rv, st, "TreeHeadLogTreeHead")
	if !c.must(mp != nil && tp != nil && o.served(p, f, mp, "MapTreeHash", recv, "Map", size) != nil, "state-verified", name, p.Pos, "%s may return a map head that is not an answer of the service: %s", name, brief(mp)) {
		return
	}
	leaf := func(x *Term) bool {
		a := sha256Arg(x)
		if a == nil || a.Op != OConcat || len(a.Args) != 2 || a.Args[0] != Str("\x00") {
			return false
		}
		j := treeHeadJSON(a.Args[1])
		return j != nil && msgEq(f, unwrap(j), canon(mp), c.typeNamed("pb", "MapTreeHashResponse")) == ""
	}
	c.must(o.included(p, f, leaf, tp), "state-verified", name, p.Pos, "%s may return a map head although no proof of its object hash was verified against the tree head log's head %s", name, brief(tp))
	c.must(none || o.consistent(p, f, MF(prev, "MapTreeHead", "MutationLog"), MF(mp, "MutationLog")), "state-verified", name, p.Pos, "%s may return a map head whose mutation log was not verified to be consistent with the caller's", name)
	pt := MF(prev, "TreeHeadLogTreeHead")
	c.must(!none && sameVal(tp, pt) || o.served(p, f, tp, "LogTreeHash", recv, "treehead", nil) != nil, "state-verified", name, p.Pos, "%s may rely on %s, which is neither the caller's head of the map's tree head log nor an answer of the service for it", name, brief(tp))
	c.must(none || f.Implies(litNil(pt)) || o.consistent(p, f, pt, tp), "state-verified", name, p.Pos, "%s may return a head of the tree head log that was not verified to be consistent with the caller's", name)
}

func (o *clientOps) verifiedLatestMapState(fn *ssa.Function, e *exploration, p *Path, f *Facts) {
	st := paramsOf(fn, "verifiable.MapTreeState")
	name, rv := shortFn(fn), p.Results[0]
	if len(st) != 1 {
		o.c.anchorFail("parameters of " + name)
		return
	}
	prev, req := st[0], o.served(p, f, nil, "MapTreeHash", ParamSym(fn.Params[0]), "Map", tZeroI)
	if !sameVal(rv, prev) || isNilVal(f, rv) {
		o.mapState(name, fn, e, p, f, prev, tZeroI, rv)
		if isNilVal(f, rv) || isNilVal(f, prev) || f.Implies(litNil(prev)) {
			return
		}
		m := fieldPtr(e, p, rv, o.c.typeNamed("verifiable", "MapTreeState"), "MapTreeHead")
		o.c.must(le(f, MF(prev, "MapTreeHead", "MutationLog", "TreeSize"), MF(m, "MutationLog", "TreeSize")), "state-newest", name, p.Pos, "%s may return a state older than the caller's", name)
		return
	}
	if !o.c.must(f.Implies(litNil(rv).Not()) && req != nil, "state-newest", name, p.Pos, "%s may return the caller's state without asking for the latest", name) {
		return
	}
	m := MF(req.Res[0], "MutationLog")
	o.c.must(o.consistent(p, f, MF(prev, "MapTreeHead", "MutationLog"), m), "state-verified", name, p.Pos, "%s may succeed although the latest mutation log was not verified to be consistent with the caller's", name)
	o.c.must(le(f, MF(m, "TreeSize"), MF(prev, "MapTreeHead", "MutationLog", "TreeSize")), "state-newest", name, p.Pos, "%s may return the caller's state although there is a newer one", name)
}

// promises: waiting succeeds only when the promised leaf was proven to be included.
func (o *clientOps) promises(iface string) {
	c := o.c
	for _, t := range c.implementers(c.typeNamed("verifiable", iface)) {
		wait, lh := c.method(t, "Wait"), c.method(t, "LeafHash")
		if wait == nil || lh == nil {
			c.anchorFail("methods of " + t.String())
			continue
		}
		var leaf *Term
		for _, p := range c.explore(lh).paths {
			if p.End != "return" {
				continue
			}
			x := Subst(p.Results[0], map[*Term]*Term{ParamSym(lh.Params[0]): ParamSym(wait.Params[0])})
			c.must(leaf == nil || sameVal(leaf, x), "promised-leaf", shortFn(lh), p.Pos, "%s does not always give the same hash", shortFn(lh))
			leaf = x
		}
		c.count("promises")
		o.each(wait, func(fn *ssa.Function, e *exploration, p *Path, f *Facts) {
			o.kept(fn, p, f, leaf, nil)
		})
		o.made(t, iface, wait, lh)
	}
}

// kept: the partition of Wait succeeds with the leaf included.
// Given recv, the log or map on which the promise was made, it is about that.
func (o *clientOps) kept(fn *ssa.Function, p *Path, f *Facts, hash, recv *Term) {
	name, rv := shortFn(fn), p.Results[0]
	leaf := func(x *Term) bool { return sameVal(x, hash) || eqv(f, x, hash) }
	about := func(h *Term, kind string) bool {
		return recv == nil || o.served(p, f, h, "LogTreeHash", recv, kind, nil) != nil
	}
	if isNamedType(fn.Signature.Results().At(0).Type(), "pb.LogTreeHashResponse") {
		o.c.must(o.included(p, f, leaf, rv) && about(rv, "Log"), "promise-kept", name, p.Pos, "%s may succeed although no proof of the promised leaf was verified against the head it returns", name)
		return
	}
	ok := false
	ev := o.served(p, f, rv, "MapTreeHash", recv, "Map", nil)
	for _, v := range o.verified(p, f, o.incl) {
		if len(v.heads) == 1 && leaf(v.bytes) && ev != nil && about(v.heads[0], "mutation") {
			ok = ok || eqi(f, MF(ev.Snap[2], "TreeSize"), MF(v.heads[0], "TreeSize"))
		}
	}
	o.c.must(ok, "promise-kept", name, p.Pos, "%s may succeed although no proof of the promised leaf was verified for the size of the map head that it returns", name)
}

// made: promises of the type are for the leaf that the service answered with.
func (o *clientOps) made(t types.Type, iface string, wait, lh *ssa.Function) {
	c := o.c
	for _, x := range []string{"Log", "Map"} {
		ms := c.w.Prog.MethodSets.MethodSet(types.NewPointer(c.typeNamed("verifiable", x)))
		for i := 0; i < ms.Len(); i++ {
			fn := c.w.Prog.MethodValue(ms.At(i))
			if fn == nil || fn.Signature.Results().Len() != 2 || !isNamedType(fn.Signature.Results().At(0).Type(), "verifiable."+iface) {
				continue
			}
			name := shortFn(fn)
			o.each(fn, func(fn *ssa.Function, e *exploration, p *Path, f *Facts) {
				v := p.Results[0]
				if v.Op == OIface {
					if !types.Identical(derefType(v.Type), derefType(t)) {
						return
					}
					v = v.Args[0]
				}
				c.count("promises made")
				var h *Term
				for _, q := range c.exploreFrom(lh, p, []*Term{v}, nil, nil).paths {
					if q.End == "return" {
						h = q.Results[0]
					}
				}
				ok := false
				for _, ev := range p.St.events {
					if ev.Kind == ECall && isServiceCall(ev) && succeeded(f, ev) && len(ev.Res) == 2 && sameVal(MF(ev.Res[0], "LeafHash"), h) {
						ok = true
					}
				}
				c.must(ok, "promised-leaf", name, p.Pos, "%s may promise %s, which is not the leaf hash that the service answered with", name, brief(h))
				o.over(wait, c.exploreFrom(wait, p, []*Term{v}, nil, o.conf), func(_ *ssa.Function, _ *exploration, q *Path, g *Facts) {
					o.kept(wait, q, g, h, ParamSym(fn.Params[0]))
				})
			})
		}
	}
}
