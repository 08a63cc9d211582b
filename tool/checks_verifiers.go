package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", checkC15, "path-sensitive dataflow over the SSA form: path conditions and loop-carried values of the proof verifiers",
		"On every partition of a proof verifier that can return nil, the path condition must make the sizes in the proof those of the heads, the index and sizes lie in range, and equate (all 32 bytes) the root of every head with a loop-carried hash; every iteration of that loop must take the next node of the audit path, combine it on the side RFC 6962 prescribes for the current pair of node numbers (for maps, the bit of the key at that depth, with the default hash of the next level in place of an empty node), advance both numbers together, and refuse surplus nodes; the loop must have consumed the whole path and reached the root. Nodes of consistency proofs must be known to be 32 bytes.")
}

// verifierFuncs: exported functions of package verifiable that judge a proof of the type.
func (c *Check) verifierFuncs(proof string) []*ssa.Function {
	var out []*ssa.Function
	pkg := c.w.SSA[modPath+"/verifiable"]
	for _, fn := range c.w.Funcs {
		if fn.Pkg != pkg || fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if fn.Signature.Results().Len() != 1 || !isErrorType(fn.Signature.Results().At(0).Type()) {
			continue
		}
		for _, q := range fn.Params {
			if isNamedType(q.Type(), proof) {
				out = append(out, fn)
			}
		}
	}
	if len(out) == 0 {
		c.anchorFail("the verifier of " + proof)
	}
	return out
}

// paramsOf gives the parameters of the named type.
func paramsOf(fn *ssa.Function, named string) []*Term {
	var out []*Term
	for _, q := range fn.Params {
		if isNamedType(q.Type(), named) {
			out = append(out, ParamSym(q))
		}
	}
	return out
}

func bytesParams(fn *ssa.Function) []*Term {
	var out []*Term
	for _, q := range fn.Params {
		if isBytesLike(q.Type()) {
			out = append(out, ParamSym(q))
		}
	}
	return out
}

func checkC15(c *Check) {
	for _, fn := range c.verifierFuncs("pb.LogInclusionProofResponse") {
		c.inclusionVerifier(fn)
	}
	for _, fn := range c.verifierFuncs("pb.LogConsistencyProofResponse") {
		c.consistencyVerifier(fn)
	}
	for _, fn := range c.verifierFuncs("pb.MapGetValueResponse") {
		c.mapVerifier(fn)
	}
	c.min("accepting partitions", 3)
	c.min("steps along audit paths", 3)
}

// accepted: the partitions on which the verifier may return nil.
func (c *Check) accepted(e *exploration, use func(p *Path, f *Facts)) {
	n := 0
	for _, p := range e.paths {
		if p.End != "return" || !p.maySucceed() {
			continue
		}
		f := p.facts()
		if f.dead || f.absurd() {
			continue
		}
		n++
		c.count("accepting partitions")
		use(p, f)
	}
	c.must(n > 0, "verifier-accepts", shortFn(e.fn), e.fn.Pos(), "%s accepts nothing", shortFn(e.fn))
}

// equalTo gives the values that the path condition equates with x.
func equalTo(f *Facts, x *Term) []*Term {
	var out []*Term
	for _, l := range f.lits {
		if l.Neg || l.A.Op != OEQ {
			continue
		}
		for i := 0; i < 2; i++ {
			if l.A.Args[i] == x {
				out = append(out, l.A.Args[1-i])
			}
		}
	}
	return out
}

// loopEnds: the loop-carried hash that the path condition equates with the root.
func loopEnd(f *Facts, root *Term) *PhiInfo {
	for _, t := range equalTo(f, root) {
		if v := phiOf(t); v != nil && isBytesLike(v.Typ) {
			return v
		}
	}
	return nil
}

// intVar is the loop variable of the loop that starts as init.
func intVar(f *Facts, l *LoopInst, init func(t *Term) bool) *PhiInfo {
	for _, v := range l.Vars {
		b, ok := v.Typ.Underlying().(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 && init(v.Init) {
			return v
		}
	}
	return nil
}

// rfcStep judges one step from the nodes fn and sn of one level to those of the next that
// has a sibling: left tells on which side the path's node is.
func rfcStep(it *Path, fn, sn *PhiInfo) (left bool, why string) {
	g := it.facts()
	a, b := fn.Sym, sn.Sym
	if !g.Implies(litEQ0(b).Not()) {
		return false, "more nodes than the tree has levels are not refused"
	}
	same := litEQ0(Sub(a, b))
	switch {
	case bitKnown(g, a, tZeroI, true) || g.Implies(same):
		left = true
	case bitKnown(g, a, tZeroI, false) && g.Implies(same.Not()):
	default:
		return false, "the side of the node does not follow from the node's number"
	}
	na, nb := nextIn(it, fn), nextIn(it, sn)
	if na == nil || nb == nil || na.Op != OShr || nb.Op != OShr || na.Args[0] != a || nb.Args[0] != b || Sub(na.Args[1], nb.Args[1]) != tZeroI {
		return left, "the node numbers go on as " + brief(na) + " and " + brief(nb)
	}
	k := na.Args[1]
	if k == tOne {
		if left && !bitKnown(g, a, tZeroI, true) {
			return left, "levels without sibling are not skipped"
		}
		return left, ""
	}
	m := AddC(k, -1)
	var skip *LoopInst
	for _, e := range it.St.events {
		if e.Kind == ELoop && e.Loop.N == m {
			skip = e.Loop
		}
	}
	if skip == nil || !left {
		return left, "the node numbers go on as " + brief(na)
	}
	for _, q := range skip.Iters {
		if !bitKnown(q.facts(), a, m, false) {
			return left, "a level may be skipped although the node has a sibling there"
		}
	}
	if !bitKnown(g, a, m, true) && !g.Implies(litEQ0(Shr(a, m))) {
		return left, "not all levels without sibling are skipped"
	}
	return left, ""
}

// skipsOnes: t is x without the one bits at its low end.
func skipsOnes(p *Path, t, x *Term) (m *Term, ok bool) {
	f := p.facts()
	if t.Op != OShr || !eqi(f, t.Args[0], x) {
		if eqi(f, t, x) && bitKnown(f, x, tZeroI, false) {
			return tZeroI, true
		}
		return nil, false
	}
	m = t.Args[1]
	for _, e := range p.St.events {
		if e.Kind != ELoop || e.Loop.N != m {
			continue
		}
		for _, it := range e.Loop.Iters {
			if !bitKnown(it.facts(), t.Args[0], m, true) {
				return nil, false
			}
		}
		return m, bitKnown(f, t.Args[0], m, false)
	}
	return nil, false
}

func (c *Check) inclusionVerifier(fn *ssa.Function) {
	proof, heads, leaf := paramsOf(fn, "pb.LogInclusionProofResponse"), paramsOf(fn, "pb.LogTreeHashResponse"), bytesParams(fn)
	name := shortFn(fn)
	if len(proof) != 1 || len(heads) != 1 || len(leaf) != 1 {
		c.anchorFail("the parameters of " + name)
		return
	}
	self, head := proof[0], heads[0]
	path := MF(self, "AuditPath")
	e := c.explore(fn)
	c.accepted(e, func(p *Path, f *Facts) {
		idx, size := MF(self, "LeafIndex"), MF(self, "TreeSize")
		c.must(eqi(f, size, MF(head, "TreeSize")), "proof-size", name, p.Pos, "%s may accept a proof for another size than the head's", name)
		c.must(f.Implies(litLE(tZeroI, idx)) && f.Implies(litLT(idx, size)), "proof-range", name, p.Pos, "%s may accept a proof whose index is not in the tree", name)
		r := c.rootReached(f, p, name, MF(head, "RootHash"))
		if r == nil {
			return
		}
		l := r.Inst
		c.must(r.Init == leaf[0], "proof-start", name, p.Pos, "%s starts from %s", name, brief(r.Init))
		a := intVar(f, l, func(t *Term) bool { return eqi(f, t, idx) })
		b := intVar(f, l, func(t *Term) bool { return eqi(f, t, AddC(size, -1)) })
		if !c.must(a != nil && b != nil && a != b, "proof-start", name, p.Pos, "%s does not start from the leaf's number and the last leaf's", name) {
			return
		}
		c.must(f.Implies(litLE(LenOf(path), l.N)), "proof-consumed", name, p.Pos, "%s may accept without using the whole path", name)
		c.must(f.Implies(litEQ0(b.Sym)), "proof-top", name, p.Pos, "%s may accept a path that does not reach the root", name)
		for _, it := range l.Iters {
			c.count("steps along audit paths")
			g := it.facts()
			left, why := rfcStep(it, a, b)
			if !c.must(why == "", "proof-step", name, it.Pos, "%s: %s", name, why) {
				continue
			}
			c.combined(g, it, name, r, left, func(x *Term) bool { return elemAt(g, x, path, l.N) })
		}
	})
}

// rootReached: the loop-carried hash equal to the root, known to be a whole hash.
func (c *Check) rootReached(f *Facts, p *Path, name string, root *Term) *PhiInfo {
	r := loopEnd(f, root)
	if !c.must(r != nil, "proof-root", name, p.Pos, "%s may accept although the computed root was not compared with %s", name, brief(root)) {
		return nil
	}
	c.must(eqi(f, LenOf(r.Sym), Int(32)) || eqi(f, LenOf(root), Int(32)), "proof-root", name, p.Pos, "%s may accept a root that is not 32 bytes long", name)
	return r
}

// combined: the hash r goes on combined with the path's node on the side given.
func (c *Check) combined(g *Facts, it *Path, name string, r *PhiInfo, left bool, node func(x *Term) bool) {
	x, y, ok := nodeHashOf(nextIn(it, r))
	if left {
		c.must(ok && node(x) && y == r.Sym, "proof-combine", name, it.Pos, "%s does not put the path's node to the left of the hash: %s", name, brief(nextIn(it, r)))
	} else {
		c.must(ok && x == r.Sym && node(y), "proof-combine", name, it.Pos, "%s does not put the path's node to the right of the hash: %s", name, brief(nextIn(it, r)))
	}
}

func (c *Check) consistencyVerifier(fn *ssa.Function) {
	proof, heads := paramsOf(fn, "pb.LogConsistencyProofResponse"), paramsOf(fn, "pb.LogTreeHashResponse")
	name := shortFn(fn)
	if len(proof) != 1 || len(heads) != 2 {
		c.anchorFail("the parameters of " + name)
		return
	}
	self, first, second := proof[0], heads[0], heads[1]
	path := MF(self, "AuditPath")
	e := c.explore(fn)
	c.accepted(e, func(p *Path, f *Facts) {
		from, size := MF(self, "FromSize"), MF(self, "TreeSize")
		c.must(eqi(f, from, MF(first, "TreeSize")) && eqi(f, size, MF(second, "TreeSize")), "proof-size", name, p.Pos, "%s may accept a proof for other sizes than the heads'", name)
		c.must(f.Implies(litLE(tOne, from)) && f.Implies(litLT(from, size)), "proof-range", name, p.Pos, "%s may accept a proof from a size that is not between 1 and the later size", name)
		// the roots may be equal values; take the variables in order of their use
		fr, sr := loopEnd(f, MF(first, "RootHash")), loopEnd(f, MF(second, "RootHash"))
		if !c.must(fr != nil && sr != nil && fr.Inst == sr.Inst && fr != sr, "proof-root", name, p.Pos, "%s may accept although not both computed roots were compared with those of the heads", name) {
			return
		}
		l := fr.Inst
		whole := func(v *PhiInfo, root *Term) bool {
			return eqi(f, LenOf(v.Sym), Int(32)) || eqi(f, LenOf(root), Int(32))
		}
		c.must(whole(fr, MF(first, "RootHash")) && whole(sr, MF(second, "RootHash")), "proof-root", name, p.Pos, "%s may accept roots that are not 32 bytes long", name)
		off := tOne
		start := fr.Init
		switch {
		case start != sr.Init:
			c.fail("proof-start", name, p.Pos, "%s starts the two roots from %s and %s", name, brief(start), brief(sr.Init))
			return
		case elemAt(f, start, path, tZeroI):
		case start == MF(first, "RootHash"):
			off = tZeroI
			c.must(powerOfTwo(f, from), "proof-start", name, p.Pos, "%s starts from the earlier root although its tree may not be a whole subtree", name)
		default:
			c.fail("proof-start", name, p.Pos, "%s starts from %s", name, brief(start))
			return
		}
		c.must(eqi(f, LenOf(start), Int(32)), "proof-hashes", name, p.Pos, "%s may start from something that is not a hash", name)
		var ms []*Term
		find := func(n *Term) *PhiInfo {
			return intVar(f, l, func(t *Term) bool {
				m, ok := skipsOnes(p, t, AddC(n, -1))
				if !ok && t.Op == OShr && eqi(f, t.Args[0], AddC(n, -1)) && n == size {
					m, ok = t.Args[1], true
				} else if !ok && n == size && eqi(f, t, AddC(n, -1)) {
					m, ok = tZeroI, true
				}
				if ok {
					ms = append(ms, m)
				}
				return ok
			})
		}
		a, b := find(from), find(size)
		if !c.must(a != nil && b != nil && a != b && len(ms) == 2 && ms[0] == ms[1], "proof-start", name, p.Pos, "%s does not start from the numbers of the last leaves without the common low one bits", name) {
			return
		}
		c.must(f.Implies(litLE(LenOf(path), Add(l.N, off))), "proof-consumed", name, p.Pos, "%s may accept without using the whole path", name)
		c.must(f.Implies(litEQ0(b.Sym)), "proof-top", name, p.Pos, "%s may accept a path that does not reach the root", name)
		for _, it := range l.Iters {
			c.count("steps along audit paths")
			g := it.facts()
			left, why := rfcStep(it, a, b)
			if !c.must(why == "", "proof-step", name, it.Pos, "%s: %s", name, why) {
				continue
			}
			node := func(x *Term) bool { return elemAt(g, x, path, Add(l.N, off)) }
			var x *Term
			if q, y, ok := nodeHashOf(nextIn(it, sr)); ok {
				x = y
				if left {
					x = q
				}
			}
			c.combined(g, it, name, sr, left, node)
			if left {
				c.combined(g, it, name, fr, left, node)
			} else {
				c.must(nextIn(it, fr) == fr.Sym, "proof-combine", name, it.Pos, "%s changes the earlier root by a node that is not in the earlier tree", name)
			}
			c.must(x != nil && eqi(g, LenOf(x), Int(32)), "proof-hashes", name, it.Pos, "%s may combine a node that is not a hash", name)
		}
	})
}

// powerOfTwo: n is known to be a power of two.
func powerOfTwo(f *Facts, n *Term) bool {
	for _, l := range f.lits {
		if l.Neg || l.A.Op != OEQ0 {
			continue
		}
		t := l.A.Args[0]
		if t == And(n, AddC(n, -1)) || t == And(AddC(n, -1), n) {
			return true
		}
		if ks := termsOf(t, func(x *Term) bool { return x.Op == OApp && x.Aux == fCalcK }); len(ks) == 1 {
			if d := Sub(n, ks[0]); (t == d || Scale(d, -1) == t) && Sub(ks[0].Args[0], n) == tOne {
				return true
			}
		}
		if t.Op == OLin || t.Op == OApp {
			for _, x := range termsOf(t, func(x *Term) bool { return x.Op == OApp && strings.HasPrefix(x.Aux, "bits.OnesCount") }) {
				if len(x.Args) == 1 && x.Args[0] == n && AddC(x, -1) == t {
					return true
				}
			}
		}
	}
	return false
}

// termsOf collects the parts of t that satisfy pred.
func termsOf(t *Term, pred func(*Term) bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	t.Any(func(x *Term) bool {
		if pred(x) && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
		return false
	})
	return out
}

func (c *Check) mapVerifier(fn *ssa.Function) {
	proof, heads, keys := paramsOf(fn, "pb.MapGetValueResponse"), paramsOf(fn, "pb.MapTreeHashResponse"), bytesParams(fn)
	name := shortFn(fn)
	if len(proof) != 1 || len(heads) != 1 || len(keys) != 1 {
		c.anchorFail("the parameters of " + name)
		return
	}
	self, head := proof[0], heads[0]
	path := MF(self, "AuditPath")
	e := c.exploreWith(fn, func(ex *Explorer) { ex.opaque = keyPathFunc })
	c.accepted(e, func(p *Path, f *Facts) {
		c.must(eqi(f, MF(self, "TreeSize"), MF(head, "MutationLog", "TreeSize")) || isNilVal(f, MF(head, "MutationLog")) && eqi(f, MF(self, "TreeSize"), tZeroI), "proof-size", name, p.Pos, "%s may accept a proof for another size than the head's", name)
		var bits *Term
		for _, ev := range p.St.events {
			if ev.Kind == ECall && ev.Fn != nil && keyPathFunc(ev.Fn) && canon(ev.Args[0]) == keys[0] {
				bits = ev.Res[0]
			}
		}
		if !c.must(bits != nil, "proof-key", name, p.Pos, "%s may accept a proof that is not for the key", name) {
			return
		}
		c.must(eqi(f, LenOf(path), LenOf(bits)) || eqi(f, LenOf(path), Int(256)), "proof-consumed", name, p.Pos, "%s may accept a path whose length is not that of the key's", name)
		r := c.rootReached(f, p, name, MF(head, "RootHash"))
		if r == nil {
			return
		}
		l := r.Inst
		c.must(emptyOr(f, sha256Arg(r.Init), MF(self, "Value", "LeafInput"), MF(self, "Value")), "proof-start", name, p.Pos, "%s starts from %s, not the hash of the value", name, brief(r.Init))
		n := LenOf(bits)
		c.must(f.Implies(litLE(n, l.N)) || f.Implies(litLE(LenOf(path), l.N)) || f.Implies(litLE(Int(256), l.N)), "proof-consumed", name, p.Pos, "%s may accept without using the whole path", name)
		for _, it := range l.Iters {
			c.count("steps along audit paths")
			g := it.facts()
			i := AddC(Sub(n, l.N), -1) // the depth
			x, y, ok := nodeHashOf(nextIn(it, r))
			if !c.must(ok && (x == r.Sym) != (y == r.Sym), "proof-combine", name, it.Pos, "%s goes on with %s", name, brief(nextIn(it, r))) {
				continue
			}
			node, left := x, true
			if x == r.Sym {
				node, left = y, false
			}
			bit := func(one bool) bool { return keyBitKnown(g, bits, i, one) }
			c.must(bit(left), "proof-step", name, it.Pos, "%s: the side of the node does not follow from the key's bit", name)
			var at *Term
			if node.Op == OElem {
				at = node.Args[1]
			}
			switch {
			case at != nil && node.Args[0] == path:
				el := node
				c.must(eqi(g, at, i) && !g.Implies(litEQ0(LenOf(el))), "proof-combine", name, it.Pos, "%s takes %s at depth %s", name, brief(node), brief(i))
				c.must(g.Implies(litEQ0(LenOf(el)).Not()), "proof-default", name, it.Pos, "%s may use an empty node as a hash", name)
			case at != nil && isDefaultTable(node.Args[0]):
				empty := false
				for _, t := range g.lenTerms() {
					empty = empty || t.Op == OElem && t.Args[0] == path && eqi(g, t.Args[1], i) && g.Implies(litEQ0(LenOf(t)))
				}
				for _, lt := range g.lits {
					if !lt.Neg && lt.A.Op == OIsNil && lt.A.Args[0].Op == OElem && lt.A.Args[0].Args[0] == path && eqi(g, lt.A.Args[0].Args[1], i) {
						empty = true
					}
				}
				c.must(eqi(g, at, AddC(i, 1)), "proof-default", name, it.Pos, "%s takes the default hash %s for a sibling at depth %s", name, brief(node), brief(AddC(i, 1)))
				c.must(empty, "proof-default", name, it.Pos, "%s may use a default hash although the path has a node", name)
			default:
				c.fail("proof-combine", name, it.Pos, "%s combines %s", name, brief(node))
			}
		}
	})
}

// isDefaultTable: the table of default hashes (its content is decided by C18).
func isDefaultTable(t *Term) bool {
	_, ok := tableLens[t.Aux]
	return t.Op == OApp && ok && len(t.Args) == 0
}

// keyBitKnown: the bit of the key's path at depth i is known.
func keyBitKnown(g *Facts, bits, i *Term, one bool) bool {
	for _, l := range g.lits {
		t := l.A
		if t.Op == OElem && t.Args[0] == bits && eqi(g, t.Args[1], i) {
			return l.Neg != one
		}
	}
	return false
}

// emptyOr: x is the leaf input with its prefix.
func emptyOr(f *Facts, x, input, msg *Term) bool {
	if x == nil {
		return false
	}
	if x.Op == OConcat && len(x.Args) == 2 && x.Args[0] == Str("\x00") && eqv(f, canon(x.Args[1]), input) {
		return true
	}
	return x == Str("\x00") && (isNilVal(f, msg) || isNilVal(f, input) || eqi(f, LenOf(input), tZeroI))
}
