package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nextIn is the value variable v has after iteration it of its loop.
func nextIn(it *Path, v *PhiInfo) *Term {
	for i, w := range v.Inst.Vars {
		if w == v && i < len(it.Nexts) {
			return it.Nexts[i]
		}
	}
	return nil
}

// phiOf is the loop variable whose value at the start of an iteration (and after the
// loop) is t.
func phiOf(t *Term) *PhiInfo {
	if t == nil {
		return nil
	}
	if v, ok := t.Obj.(*PhiInfo); ok && t.Op == OSym && v.Inst != nil && v.Sym == t {
		return v
	}
	return nil
}

// elemAt: t is the element of list at position i.
func elemAt(f *Facts, t, list, i *Term) bool {
	return t != nil && t.Op == OElem && t.Args[0] == list && (Sub(t.Args[1], i) == tZeroI || eqi(f, t.Args[1], i))
}

// nodeHashOf gives the two halves of a node hash.
func nodeHashOf(t *Term) (l, r *Term, ok bool) {
	x := sha256Arg(t)
	if x == nil || x.Op != OConcat || len(x.Args) != 3 || x.Args[0] != Str("\x01") {
		return nil, nil, false
	}
	return x.Args[1], x.Args[2], true
}

// pushed: t = append(base, x)
func pushed(t *Term) (base, x *Term) {
	if t != nil && t.Op == OAppend && t.Args[1].Op == OList && len(t.Args[1].Args) == 1 {
		return t.Args[0], t.Args[1].Args[0]
	}
	return nil, nil
}

// carryNext: nx is what the stack s of subtree roots of a log with count entries
// becomes when one more leaf is added. It returns the leaf's hash.
func carryNext(it *Path, s, nx, count *Term) (leaf *Term, why string) {
	f := it.facts()
	v := phiOf(nx)
	if v == nil {
		if base, x := pushed(nx); base == s && bitKnown(f, count, tZeroI, false) {
			return x, ""
		}
		return nil, "the stack becomes " + brief(nx)
	}
	base, leaf := pushed(v.Init)
	if base != s {
		return nil, "the stack before merging is " + brief(v.Init)
	}
	if why := mergesOnes(f, v, count); why != "" {
		return nil, why
	}
	return leaf, ""
}

// mergesOnes: the loop of stack v merges the two last entries for every low one bit of
// count, and stops at the first zero bit.
func mergesOnes(f *Facts, v *PhiInfo, count *Term) string {
	l := v.Inst
	var bits *Term
	for _, z := range l.Vars {
		if z.Val == Shr(count, l.N) && z.Init == count {
			bits = z.Val
			for _, it := range l.Iters {
				if nextIn(it, z) != Shr(count, AddC(l.N, 1)) {
					bits = nil
				}
			}
		}
	}
	if bits == nil {
		return "the merging loop does not follow the bits of the number of entries"
	}
	if len(l.Iters) == 0 {
		return "nothing is merged"
	}
	for _, it := range l.Iters {
		g := it.facts()
		if !bitKnown(g, bits, tZeroI, true) {
			return "two subtrees are merged although the bit of the count may be 0"
		}
		rest, h := pushed(nextIn(it, v))
		n := LenOf(v.Sym)
		if rest == nil || rest.Op != OSlice || rest.Args[0] != v.Sym || rest.Args[1] != tZeroI || !eqi(g, rest.Args[2], AddC(n, -2)) {
			return "merging makes the stack " + brief(nextIn(it, v))
		}
		a, b, ok := nodeHashOf(h)
		if !ok || !elemAt(g, a, v.Sym, AddC(n, -2)) || !elemAt(g, b, v.Sym, AddC(n, -1)) {
			return "merging pushes " + brief(h)
		}
	}
	if !bitKnown(f, bits, tZeroI, false) {
		return "merging may stop early"
	}
	return ""
}

// foldsStack: x is the tree hash of the stack s of subtree roots.
func foldsStack(f *Facts, x, s *Term) bool {
	n := LenOf(s)
	if elemAt(f, x, s, AddC(n, -1)) && eqi(f, n, tOne) {
		return true
	}
	v := phiOf(x)
	if v != nil && isNilVal(f, v.Init) && eqi(f, v.Inst.N, n) && len(v.Inst.Iters) > 0 {
		for _, it := range v.Inst.Iters {
			g, nx := it.facts(), nextIn(it, v)
			at := Sub(AddC(n, -1), v.Inst.N)
			if elemAt(g, nx, s, at) && (g.Implies(litNil(x)) || g.Implies(litEQ0(v.Inst.N))) {
				continue
			}
			if a, b, ok := nodeHashOf(nx); !ok || b != x || !elemAt(g, a, s, at) {
				return false
			}
		}
		return true
	}
	if v == nil || !elemAt(f, v.Init, s, AddC(n, -1)) && !(s.Op == OAppend && v.Init == lastOf(s)) || !eqi(f, v.Inst.N, AddC(n, -1)) || len(v.Inst.Iters) == 0 {
		return false
	}
	for _, it := range v.Inst.Iters {
		a, b, ok := nodeHashOf(nextIn(it, v))
		if !ok || b != x || !elemAt(it.facts(), a, s, Sub(AddC(n, -2), v.Inst.N)) {
			return false
		}
	}
	return true
}

func lastOf(s *Term) *Term {
	_, x := pushed(s)
	return x
}

// foldsPath: x combines the nodes of path list from the smallest subtree to the
// largest: each next node is to the left of what was combined.
func foldsPath(f *Facts, x, list *Term) bool {
	v := phiOf(x)
	if v == nil || len(v.Inst.Iters) == 0 {
		return elemAt(f, x, list, tZeroI) && eqi(f, LenOf(list), tOne)
	}
	off := tZeroI
	switch {
	case isNilVal(f, v.Init):
	case elemAt(f, v.Init, list, tZeroI):
		off = tOne
	default:
		return false
	}
	if !eqi(f, v.Inst.N, Sub(LenOf(list), off)) {
		return false
	}
	for _, it := range v.Inst.Iters {
		g := it.facts()
		nx := nextIn(it, v)
		at := Add(v.Inst.N, off)
		if elemAt(g, nx, list, at) && off == tZeroI && (g.Implies(litNil(x)) || g.Implies(litEQ0(v.Inst.N))) {
			continue
		}
		a, b, ok := nodeHashOf(nx)
		if !ok || !elemAt(g, a, list, at) || b != x {
			return false
		}
	}
	return true
}

// full32: every element of list is known to be as long as a hash.
func full32(p *Path, list *Term) bool {
	f := p.facts()
	for _, e := range p.St.events {
		if e.Kind != ELoop || len(e.Loop.Iters) == 0 {
			continue
		}
		l := e.Loop
		for _, from := range []*Term{tZeroI, tOne} {
			if !eqi(f, l.N, Sub(LenOf(list), from)) {
				continue
			}
			all := true
			for _, it := range l.Iters {
				g := it.facts()
				has := false
				for _, t := range g.lenTerms() {
					if t.Op == OElem && t.Args[0] == list && (Sub(t.Args[1], Add(l.N, from)) == tZeroI || from == tZeroI && Sub(t.Args[1], Sub(AddC(LenOf(list), -1), l.N)) == tZeroI) && eqi(g, LenOf(t), Int(32)) {
						has = true
					}
				}
				all = all && has
			}
			if !all {
				continue
			}
			if from == tZeroI {
				return true
			}
			for _, t := range f.lenTerms() {
				if elemAt(f, t, list, tZeroI) && eqi(f, LenOf(t), Int(32)) {
					return true
				}
			}
		}
	}
	return false
}

// lenTerms are the sequences whose length the facts mention.
func (f *Facts) lenTerms() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, l := range f.lits {
		l.A.Any(func(t *Term) bool {
			if t.Op == OLen && !seen[t.Args[0]] {
				seen[t.Args[0]] = true
				out = append(out, t.Args[0])
			}
			return false
		})
	}
	return out
}

// auditFuncs are the functions that audit a log: they take a head (the last of their
// parameters of that type) and a function to call with every entry.
func (c *Check) auditFuncs() []*ssa.Function {
	var out []*ssa.Function
	t := c.typeNamed("verifiable", "LogAuditFunction")
	if t == nil {
		return nil
	}
	for _, fn := range c.w.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		for _, q := range fn.Params {
			if types.Identical(q.Type(), t) {
				out = append(out, fn)
			}
		}
	}
	if len(out) == 0 {
		c.anchorFail("the function that audits a log")
	}
	return out
}

// isEntries: the function hands out the entries of a log through a channel.
func isEntries(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 1 || f.Blocks == nil {
		return false
	}
	ch, ok := r.At(0).Type().Underlying().(*types.Chan)
	return ok && isNamedType(ch.Elem(), "pb.LeafData")
}

// logRun describes a verified pass over the entries of a log.
type logRun struct {
	loop    *LoopInst
	count   *Term // entries before a generic iteration
	entries *Event
}

// logRuns: the passes of p over the entries of a log.
func logRuns(p *Path) []*logRun {
	var out []*logRun
	for _, e := range p.St.events {
		if e.Kind != ECall || e.Fn == nil || !isEntries(e.Fn) || len(e.Res) == 0 {
			continue
		}
		r := &logRun{entries: e}
		for _, l := range p.since(e) {
			if l.Kind != ELoop {
				continue
			}
			for _, it := range l.Loop.Iters {
				for _, x := range iterEvents(l.Loop, it) {
					if x.Kind == ERecv && x.Loc == e.Res[0] && r.loop == nil {
						r.loop = l.Loop
					}
				}
			}
		}
		out = append(out, r)
	}
	return out
}

// ints are the arguments of type int64 of a call.
func intArgs(e *Event) []*Term {
	var out []*Term
	if e.Fn == nil {
		return nil
	}
	for i, q := range e.Fn.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 && i < len(e.Args) {
			out = append(out, e.Args[i])
		}
	}
	return out
}

// verifiedRun: "" if p passes exactly the entries between prev and head, of which the
// tree hash then equals head's. It returns the pass for further examination.
func (c *Check) verifiedRun(e *exploration, p *Path, log, prev, head *Term) (*logRun, string) {
	f := p.facts()
	rs := logRuns(p)
	if len(rs) != 1 {
		return nil, "the entries of the log are not fetched exactly once"
	}
	r := rs[0]
	if r.loop == nil {
		return r, "the entries fetched are not received"
	}
	if log != nil && len(r.entries.Args) > 0 && r.entries.Args[0] != log && !sameLog(e.ex, p, r.entries.Args[0], log) {
		return r, "the entries are those of " + brief(r.entries.Args[0])
	}
	ia := intArgs(r.entries)
	if len(ia) != 2 {
		return r, "the range of the entries fetched is not recognised"
	}
	start, end := ia[0], ia[1]
	size := MF(head, "TreeSize")
	if !eqi(f, end, size) {
		return r, "entries are fetched up to " + brief(end) + ", not up to the head's size"
	}
	r.count = Add(start, r.loop.N)
	// where it starts
	empty := f.Implies(litEQ0(start))
	if empty && !(f.Implies(litNil(prev)) || le(f, MF(prev, "TreeSize"), tZeroI)) {
		return r, "the pass starts at the first entry although there is an earlier head"
	}
	if !empty && !(f.Implies(litNil(prev).Not()) && eqi(f, start, MF(prev, "TreeSize"))) {
		return r, "the pass starts at " + brief(start)
	}
	// every entry, until the channel is closed
	for _, it := range r.loop.Iters {
		n := 0
		for _, x := range iterEvents(r.loop, it) {
			if x.Kind == ERecv && x.Loc == r.entries.Res[0] {
				n++
				if len(x.Res) < 2 || !it.facts().Implies(Lit{x.Res[1], false}) {
					return r, "an entry is used although the channel may be closed"
				}
			}
		}
		if n != 1 {
			return r, "an iteration does not receive one entry"
		}
	}
	if !eqi(f, r.count, size) {
		return r, "the pass may succeed without all entries (" + brief(r.count) + " instead of " + brief(size) + ")"
	}
	// the tree hash
	root := MF(head, "RootHash")
	why := "the computed tree hash is not compared with the head's"
	for _, l := range f.lits {
		if l.Neg || l.A.Op != OEQ {
			continue
		}
		for i := 0; i < 2; i++ {
			if l.A.Args[i] != root {
				continue
			}
			x := l.A.Args[1-i]
			for _, v := range r.loop.Vars {
				if !foldsStack(f, x, v.Sym) {
					continue
				}
				w := c.stackOf(e, p, r, v, prev, empty)
				if w == "" {
					return r, ""
				}
				why = w
			}
		}
	}
	return r, why
}

// sameLog: two references to a log are to the same one.
func sameLog(ex *Explorer, p *Path, a, b *Term) bool {
	x, y := ex.Snap(p.St, a, a.Type), ex.Snap(p.St, b, b.Type)
	return x == y || msgEq(p.facts(), x, y, a.Type) == ""
}

// stackOf: "" if v holds the roots of the complete subtrees of the entries so far.
func (c *Check) stackOf(e *exploration, p *Path, r *logRun, v *PhiInfo, prev *Term, empty bool) string {
	f := p.facts()
	if empty {
		if !(v.Init.IsNil() || v.Init.Op == OZero || eqi(f, LenOf(v.Init), tZeroI)) {
			return "a pass from the first entry starts with subtrees " + brief(v.Init)
		}
	} else if why := c.startStack(e, p, v.Init, prev); why != "" {
		return why
	}
	for _, it := range r.loop.Iters {
		leaf, why := carryNext(it, v.Sym, nextIn(it, v), r.count)
		if why != "" {
			return why
		}
		if !leafOfRecv(it, r, leaf) {
			return "the leaf hash added is " + brief(leaf)
		}
	}
	return ""
}

// leafOfRecv: h is the leaf hash of the entry received in the iteration.
func leafOfRecv(it *Path, r *logRun, h *Term) bool {
	f := it.facts()
	for _, x := range iterEvents(r.loop, it) {
		if x.Kind != ERecv || x.Loc != r.entries.Res[0] {
			continue
		}
		in := MF(x.Res[0], "LeafInput")
		if h == leafHashTerm(in) {
			return true
		}
		return h == leafHashTerm(tEmpty) && (f.Implies(litNil(x.Res[0])) || eqi(f, LenOf(in), tZeroI))
	}
	return false
}

// startStack: "" if s are the roots of the complete subtrees of prev's tree: those of a
// fetched path that has one hash for each of them and combines to prev's root.
func (c *Check) startStack(e *exploration, p *Path, s, prev *Term) string {
	f := p.facts()
	size := MF(prev, "TreeSize")
	for _, ev := range p.St.events {
		if !isServiceCall(ev) || !strings.HasSuffix(ev.Callee, ").LogInclusionProof") || len(ev.Res) == 0 {
			continue
		}
		if !succeeded(f, ev) {
			return "the starting path may not have been fetched"
		}
		list := MF(ev.Res[0], "AuditPath")
		lv := listOf(e.ex, p, s, nil)
		if lv.Why != "" || len(lv.Layers) != 1 || lv.Layers[0].Why != "" || !eqi(f, lv.Len, LenOf(list)) {
			return "the starting subtrees are not those of the fetched path: " + brief(s)
		}
		for _, x := range lv.Layers[0].Elems {
			if x.Kept || x.Idx == nil || !elemAt(x.F, x.Raw, list, Sub(AddC(LenOf(list), -1), x.Idx)) {
				return "the starting subtrees are not those of the fetched path, from the largest to the smallest"
			}
		}
		if !countsPeaks(f, LenOf(list), size) {
			return "the starting path may have more or fewer nodes than the earlier tree has complete subtrees"
		}
		if !full32(p, list) {
			return "the starting path may have nodes that are not hashes"
		}
		root := MF(prev, "RootHash")
		for _, l := range f.lits {
			if l.Neg || l.A.Op != OEQ {
				continue
			}
			for i := 0; i < 2; i++ {
				if l.A.Args[i] == root && foldsPath(f, l.A.Args[1-i], list) {
					return ""
				}
			}
		}
		return "the starting path is not combined to the earlier head's root"
	}
	return "no starting path is fetched"
}

// countsPeaks: n is known to be the number of one bits of size.
func countsPeaks(f *Facts, n, size *Term) bool {
	for _, l := range f.lits {
		ok := false
		l.A.Any(func(t *Term) bool {
			if (t.Op == ORes || t.Op == OApp) && t.Type != nil {
				if ev, o := t.Obj.(*Event); o && ev.Kind == ECall && strings.HasPrefix(ev.Callee, "math/bits.OnesCount") && len(ev.Args) == 1 && strip(ev.Args[0]) == size && eqi(f, n, t) {
					ok = true
				}
				if t.Op == OApp && strings.Contains(t.Aux, "bits.OnesCount") && len(t.Args) == 1 && strip(t.Args[0]) == size && eqi(f, n, t) {
					ok = true
				}
			}
			return ok
		})
		if ok {
			return true
		}
	}
	return false
}

func init() {
	register("C17", checkC17, "path-sensitive dataflow over the SSA form of the log audit, the map audit and the channel between fetching and auditing, with loop summaries for the subtree stack",
		"A log audit that succeeds either has an empty range or receives the entries from the earlier head's size (0 without one) up to the head's size, passes each with its index to the audit function, whose failure ends it, has received as many as there are, and compares with the head's root the fold of a stack that starts with the verified peaks of the earlier tree and takes each entry's leaf hash by the carry rule. The producer sends every fetched entry in order and asks for the next one from where it is. A map audit validates each entry, decodes its data, replays each mutation on its tree, keeps a map root and a mutation log root for every size, compares a published tree head with those of its size, and calls the map audit function exactly where the root changed.")
}

func auditConf(ex *Explorer) {
	ex.opaque = func(f *ssa.Function) bool { return isEntries(f) || treeFunc(f) || validator(f) }
}

// validator: the JSON validators, checked by C29.
func validator(f *ssa.Function) bool {
	return f.Object() != nil && strings.HasPrefix(f.Name(), "ValidateJSONLeafData") && f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/verifiable"
}

func checkC17(c *Check) {
	for _, fn := range c.auditFuncs() {
		c.logAudit(fn)
	}
	c.auditTree()
	c.auditNodeHash()
}

func (c *Check) logAudit(fn *ssa.Function) {
	e := c.exploreWith(fn, auditConf)
	var heads []*Term
	var audit, log *Term
	for _, q := range fn.Params {
		switch {
		case isNamedType(q.Type(), "pb.LogTreeHashResponse"):
			heads = append(heads, ParamSym(q))
		case isNamedType(q.Type(), "verifiable.LogAuditFunction"):
			audit = ParamSym(q)
		case isNamedType(q.Type(), "verifiable.Log"):
			log = ParamSym(q)
		}
	}
	if len(heads) != 2 || audit == nil || log == nil {
		c.anchorFail("parameters of " + shortFn(fn))
		return
	}
	prev, head := heads[0], heads[1]
	name := shortFn(fn)
	for _, p := range e.paths {
		if !p.maySucceed() {
			continue
		}
		f := p.facts()
		c.count("successful partitions")
		size := MF(head, "TreeSize")
		if le(f, size, tZeroI) || f.Implies(litNil(prev).Not()) && le(f, size, MF(prev, "TreeSize")) {
			c.ok("empty-range", name)
			continue
		}
		r, why := c.verifiedRun(e, p, log, prev, head)
		if !c.must(why == "", "audit-complete", name, p.Pos, "%s may succeed: %s", name, why) {
			continue
		}
		c.min("successful partitions", 1)
		for _, it := range r.loop.Iters {
			g := it.facts()
			calls := 0
			for _, x := range iterEvents(r.loop, it) {
				if x.Kind != ECall || x.Callee != "dyncall" || x.Loc != audit {
					continue
				}
				calls++
				c.must(len(x.Args) == 3 && eqi(g, x.Args[1], r.count), "audit-index", name, x.Pos, "%s passes entry number %s as %s", name, brief(r.count), brief(x.Args[1]))
				rv := false
				for _, y := range iterEvents(r.loop, it) {
					rv = rv || y.Kind == ERecv && y.Loc == r.entries.Res[0] && y.Res[0] == x.Args[2]
				}
				c.must(rv, "audit-entry", name, x.Pos, "%s passes %s to the audit function, not the entry received", name, brief(x.Args[2]))
				c.must(succeeded(g, x), "audit-failure", name, x.Pos, "%s goes on although the audit function may have failed", name)
			}
			c.must(calls == 1 || calls == 0 && g.Implies(litNil(audit)), "audit-called", name, it.Pos, "%s calls the audit function %d times for an entry", name, calls)
			c.count("entry partitions")
		}
	}
	c.min("entry partitions", 1)
	for _, f := range c.w.Funcs {
		if isEntries(f) && f.Parent() == nil && f.Synthetic == "" {
			c.producer(f)
		}
	}
	c.min("producers", 1)
	c.mapAudits()
}

// producer: the goroutine behind the channel of entries.
func (c *Check) producer(fn *ssa.Function) {
	c.count("producers")
	name := shortFn(fn)
	e := c.exploreWith(fn, func(ex *Explorer) { ex.goRun = true })
	var ints []*Term
	var log *Term
	for _, q := range fn.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
			ints = append(ints, ParamSym(q))
		}
		if isNamedType(q.Type(), "verifiable.Log") {
			log = ParamSym(q)
		}
	}
	if len(ints) != 2 || log == nil {
		c.anchorFail("parameters of " + name)
		return
	}
	start, end := ints[0], ints[1]
	fetches := 0
	for _, p := range e.paths {
		switch p.End {
		case "return":
			ch := p.Results[0]
			for ch.Op == OIface {
				ch = ch.Args[0]
			}
			n := 0
			for _, ev := range p.St.events {
				if ev.Kind == EGo {
					n++
				}
			}
			c.must(n == 1, "one-producer", name, p.Pos, "%s starts %d goroutines", name, n)
			continue
		case "goroutine":
		default:
			continue
		}
		closed := false
		for _, ev := range p.St.events {
			closed = closed || ev.Kind == EClose
		}
		c.must(closed, "producer-closes", name, p.Pos, "the goroutine of %s may end without closing the channel", name)
		inSend := map[*Event]bool{}
		allEvents(p, func(q *Path, ev *Event) {
			if ev.Kind == ELoop {
				for _, it := range ev.Loop.Iters {
					c.sendLoop(name, ev.Loop, it, inSend)
				}
			}
		})
		allEvents(p, func(q *Path, ev *Event) {
			if ev.Kind == ESend && !inSend[ev.orig()] {
				c.must(q != p, "producer-order", name, ev.Pos, "%s sends %s outside of the loop over what was fetched", name, brief(ev.Val))
			}
			if !isServiceCall(ev) || !strings.HasSuffix(ev.Callee, ").LogFetchEntries") || len(ev.Snap) < 3 {
				return
			}
			fetches++
			g := q.at(ev)
			req := ev.Snap[2]
			c.must(MF(req, "Log") == MF(log, "Log"), "producer-log", name, ev.Pos, "%s asks for the entries of %s", name, brief(MF(req, "Log")))
			c.must(le(g, MF(req, "Last"), end), "producer-range", name, ev.Pos, "%s asks for entries up to %s, beyond the end asked for", name, brief(MF(req, "Last")))
			first := MF(req, "First")
			v := phiOf(first)
			if !c.must(v != nil && v.Init == start, "producer-next", name, ev.Pos, "%s asks for entries from %s", name, brief(first)) {
				return
			}
			for _, it := range v.Inst.Iters {
				sent := tZeroI
				for _, x := range iterEvents(v.Inst, it) {
					if x.Kind != ELoop {
						continue
					}
					for _, j := range x.Loop.Iters {
						for _, y := range iterEvents(x.Loop, j) {
							if y.Kind == ESend {
								sent = x.Loop.N
							}
						}
					}
				}
				c.must(eqi(it.facts(), nextIn(it, v), Add(first, sent)), "producer-next", name, it.Pos, "%s continues at %s after sending %s entries from %s", name, brief(nextIn(it, v)), brief(sent), brief(first))
			}
		})
	}
	c.must(fetches > 0, "producer-fetches", name, fn.Pos(), "%s fetches nothing", name)
}

// sendLoop: a loop that sends, sends what was fetched, one after the other.
func (c *Check) sendLoop(name string, l *LoopInst, it *Path, in map[*Event]bool) {
	var sends []*Event
	for _, x := range iterEvents(l, it) {
		if x.Kind == ESend {
			sends = append(sends, x)
		}
		if x.Kind == ELoop {
			return // of an inner loop
		}
	}
	any := false
	for _, o := range l.Iters {
		for _, x := range iterEvents(l, o) {
			any = any || x.Kind == ESend
		}
	}
	if !any {
		return
	}
	if !c.must(len(sends) == 1, "producer-order", name, it.Pos, "%s may skip or repeat an entry it fetched", name) {
		return
	}
	x := sends[0]
	in[x.orig()] = true
	v := x.Val
	good := false
	if v.Op == OElem && Sub(v.Args[1], l.N) == tZeroI {
		v.Args[0].Any(func(t *Term) bool {
			ev, ok := t.Obj.(*Event)
			good = good || ok && isServiceCall(ev) && strings.HasSuffix(ev.Callee, ").LogFetchEntries") && len(ev.Res) > 0 && v.Args[0] == MF(ev.Res[0], "Values")
			return good
		})
	}
	c.must(good, "producer-order", name, x.Pos, "%s sends %s as the entry at position %s of what was fetched", name, brief(v), brief(l.N))
}
