package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", checkC18, "path-sensitive dataflow over the SSA form: every partition, loop invariant and recursive step of the hash, range and path functions against the recurrences of RFC 6962",
		"LeafHash and NodeHash give SHA-256 of a 0 byte and the input, and of a 1 byte and the two hashes in order, on every partition, and no function of the merkle and verifiable packages computes SHA-256 of anything else but a map key for its path. The default hashes are the empty leaf's at 256 and node(d,d) below; the split point is a power of two k with k < n <= 2k; inclusion paths and consistency sub-proofs recurse as in RFC 6962 2.1.1 and 2.1.2 and append the sibling's range; bit paths hold, most significant bit first, the bits of SHA-256 of the key, and slicing and joining them moves every bit to its place; the hash of a map node and of the auditor's copy folds the default hashes to the side that the key's bit says, and the auditor's copy places, links and rehashes nodes as its key path says.")
}

func checkC18(c *Check) {
	c.domains()
	c.defaultTable()
	c.splitPoint()
	c.inclusionRanges()
	c.subProofRanges()
	c.bitPaths()
	c.keyPaths()
	c.mapNodeHash()
	c.auditNodeHash()
}

// returned: the partitions of the exploration that return normally.
func (c *Check) returned(e *exploration, use func(p *Path, f *Facts)) {
	for _, p := range e.paths {
		if p.End != "return" {
			continue
		}
		f := p.facts()
		if f.dead || f.absurd() {
			continue
		}
		c.count("partitions judged")
		use(p, f)
	}
}

// domains: what SHA-256 is computed of.
func (c *Check) domains() {
	for _, x := range []string{"LeafHash", "NodeHash"} {
		fn := c.fn("merkle", x)
		if fn == nil {
			continue
		}
		ps := bytesParams(fn)
		c.returned(c.explore(fn), func(p *Path, f *Facts) {
			a := sha256Arg(p.Results[0])
			switch {
			case x == "LeafHash" && len(ps) == 1:
				c.must(a != nil && emptyOr(f, a, ps[0], nil), "leaf-domain", shortFn(fn), p.Pos, "%s gives %s", shortFn(fn), brief(p.Results[0]))
			case x == "NodeHash" && len(ps) == 2:
				l, r, ok := nodeHashOf(p.Results[0])
				c.must(ok && eqv(f, l, ps[0]) && eqv(f, r, ps[1]), "node-domain", shortFn(fn), p.Pos, "%s gives %s", shortFn(fn), brief(p.Results[0]))
			default:
				c.anchorFail("the parameters of " + shortFn(fn))
			}
		})
	}
	seen := map[*ssa.Function]bool{}
	var users []*ssa.Function
	for _, fn := range c.w.Funcs {
		pk := fnPkg(fn)
		if pk == nil || pk.Pkg.Path() != modPath+"/merkle" && pk.Pkg.Path() != modPath+"/verifiable" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Name() == "init" || !hashPackage(g.Pkg.Pkg.Path()) {
					continue
				}
				c.count("uses of hash functions")
				c.must(g.Pkg.Pkg.Path() == "crypto/sha256" && (g.Name() == "New" || g.Name() == "Sum256"), "hash-function", shortFn(fn), in.Pos(), "%s uses %s", shortFn(fn), g)
				if !seen[fn] {
					seen[fn] = true
					users = append(users, fn)
				}
			}
		}
	}
	c.min("uses of hash functions", 3)
	for len(users) > 0 {
		fn := users[0]
		users = users[1:]
		bad := c.foreignHash(fn)
		if bad == nil {
			c.count("hashing functions")
			continue
		}
		// a part of a hash function: judged in what calls it
		up := c.staticCallers(fn)
		if len(up) == 0 {
			c.fail("hash-domain", shortFn(fn), fn.Pos(), "%s computes %s, which is neither a leaf's, a node's nor a key path's hash", shortFn(fn), brief(bad))
			continue
		}
		for _, g := range up {
			if !seen[g] {
				seen[g] = true
				users = append(users, g)
			}
		}
	}
}

func hashPackage(path string) bool {
	return strings.HasPrefix(path, "crypto/sha") || path == "crypto/md5" || path == "crypto/hmac" || strings.HasPrefix(path, "golang.org/x/crypto/")
}

// foreignHash: a SHA-256 hash that fn computes of something that is not prefixed
// as a leaf or node, unless fn is about key paths.
func (c *Check) foreignHash(fn *ssa.Function) *Term {
	e := c.explore(fn)
	var bad *Term
	look := func(t *Term) {
		if t == nil || bad != nil {
			return
		}
		for _, h := range termsOf(t, func(x *Term) bool { return x.Op == OApp && strings.HasPrefix(x.Aux, "sha256") }) {
			if len(h.Args) != 1 || !prefixed(h.Args[0]) && !c.aboutPaths(fn) {
				bad = h
			}
		}
	}
	for _, p := range e.paths {
		for _, r := range p.Results {
			look(r)
		}
		allEvents(p, func(_ *Path, ev *Event) {
			for _, x := range ev.Res {
				look(x)
			}
			look(ev.Val)
		})
	}
	return bad
}

// prefixed: the 0 byte and a leaf's input, or the 1 byte and two hashes.
func prefixed(t *Term) bool {
	if t == Str("\x00") {
		return true
	}
	if t.Op != OConcat {
		return false
	}
	return t.Args[0] == Str("\x00") && len(t.Args) == 2 || t.Args[0] == Str("\x01") && len(t.Args) == 3
}

// aboutPaths: fn turns a key into its path.
func (c *Check) aboutPaths(fn *ssa.Function) bool {
	return keyPathFunc(fn) || c.isPathFromKey(fn)
}

func (c *Check) isPathFromKey(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 && types.Identical(s.Params().At(0).Type(), types.NewSlice(types.Typ[types.Byte])) && isNamedType(s.Results().At(0).Type(), "verifiable.BPath")
}

// staticCallers of an unexported function that is only ever called.
func (c *Check) staticCallers(fn *ssa.Function) []*ssa.Function {
	out, ok := c.w.callers[fn]
	if !ok {
		if c.w.callers == nil {
			c.w.callers = map[*ssa.Function][]*ssa.Function{}
		}
		out = c.findCallers(fn)
		c.w.callers[fn] = out
	}
	return out
}

func (c *Check) findCallers(fn *ssa.Function) []*ssa.Function {
	if fn.Object() != nil && fn.Object().Exported() {
		return nil
	}
	var out []*ssa.Function
	for _, g := range c.w.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, _ := in.(ssa.CallInstruction)
				if call != nil && call.Common().StaticCallee() == fn {
					out = append(out, g)
				}
				for _, op := range in.Operands(nil) {
					if *op == fn && (call == nil || call.Common().Value != fn) {
						return nil
					}
				}
			}
		}
	}
	return out
}

func isEmptyLeafHash(t *Term) bool { return sha256Arg(t) == Str("\x00") }

// defaultTable: t[256] is the empty leaf's hash, t[i] the hash of a node of two t[i+1].
func (c *Check) defaultTable() {
	fn := c.fn("merkle", "GenerateMapDefaultLeafValues")
	if fn == nil {
		return
	}
	name := shortFn(fn)
	e := c.explore(fn)
	c.returned(e, func(p *Path, f *Facts) {
		t := p.Results[0]
		if !c.must(t.Op == OSliceV && t.Args[1] == tZeroI && eqi(f, t.Args[2], Int(257)), "default-table", name, p.Pos, "%s does not give 257 hashes: %s", name, brief(t)) {
			return
		}
		base := t.Args[0]
		var loops []*LoopInst
		for _, ev := range p.St.events {
			if ev.Kind != ELoop {
				continue
			}
			for _, s := range ev.Loop.Stores {
				if s.Base == base {
					loops = append(loops, ev.Loop)
				}
			}
		}
		if !c.must(len(loops) == 1, "default-table", name, p.Pos, "%s does not fill the table in one pass", name) {
			return
		}
		c.tableLoop(name, p, f, base, loops[0])
	})
}

func (c *Check) tableLoop(name string, p *Path, f *Facts, base *Term, l *LoopInst) {
	var first *Term // what the table holds at 256 before the loop
	for _, s := range l.Stores {
		for _, x := range s.Cells {
			if s.Base == base && x.Loc.Args[1] == Int(256) {
				first = x.Val
			}
		}
	}
	for _, it := range l.Iters {
		c.count("steps of the default table")
		var idx, val *Term
		n := 0
		for _, ev := range it.St.events {
			if ev.Kind == EStore && ev.Loc != nil && ev.Loc.Op == OIndexAd && ev.Loc.Args[0] == base {
				idx, val = ev.Loc.Args[1], ev.Val
				n++
			}
		}
		if n == 0 {
			for k, v := range it.St.heap.m {
				if k.Op == OIndexAd && k.Args[0] == base {
					idx, val = k.Args[1], v
					n++
				}
			}
		}
		if !c.must(n == 1, "default-table", name, it.Pos, "%s stores %d hashes in a step", name, n) {
			continue
		}
		g := it.facts()
		start := Subst(idx, map[*Term]*Term{l.N: tZeroI})
		down := Sub(Subst(idx, map[*Term]*Term{l.N: AddC(l.N, 1)}), idx) == Int(-1)
		c.must(down, "default-table", name, it.Pos, "%s does not go down the table one by one: %s", name, brief(idx))
		if v := phiOf(val); v != nil { // the hash is carried: store, then pair it
			x, y, ok := nodeHashOf(nextIn(it, v))
			c.must(ok && x == val && y == val && isEmptyLeafHash(v.Init) && eqi(g, start, Int(256)), "default-table", name, it.Pos, "%s goes on from %s with %s", name, brief(val), brief(nextIn(it, v)))
			continue
		}
		x, y, ok := nodeHashOf(val)
		if !c.must(ok && x == y, "default-table", name, it.Pos, "%s puts %s into the table, not a node of two equal hashes", name, brief(val)) {
			continue
		}
		if v := phiOf(x); v != nil && nextIn(it, v) == val {
			c.must(isEmptyLeafHash(v.Init) && eqi(g, start, Int(255)), "default-table", name, it.Pos, "%s starts with %s at %s", name, brief(v.Init), brief(start))
		} else {
			c.must(x.Op == OElem && eqi(g, x.Args[1], AddC(idx, 1)) && eqi(g, start, Int(255)), "default-table", name, it.Pos, "%s pairs %s for position %s", name, brief(x), brief(idx))
		}
		c.must(first != nil && isEmptyLeafHash(first), "default-table", name, it.Pos, "%s does not put the empty leaf's hash at 256", name)
	}
	// the pass ends after position 0
	var last *Term
	for _, it := range l.Iters {
		for k := range it.St.heap.m {
			if k.Op == OIndexAd && k.Args[0] == base {
				last = k.Args[1]
			}
		}
	}
	c.must(last != nil && f.Implies(litLT(last, tZeroI)), "default-table", name, p.Pos, "%s may leave position 0 unset", name)
}

// splitPoint: a power of two k with k < n <= 2k.
func (c *Check) splitPoint() {
	fn := c.fn("merkle", "CalcK")
	if fn == nil || len(fn.Params) != 1 {
		c.anchorFail("merkle.CalcK")
		return
	}
	name, n := shortFn(fn), ParamSym(fn.Params[0])
	c.returned(c.explore(fn), func(p *Path, f *Facts) {
		r := p.Results[0]
		if r == tOne {
			c.must(f.Implies(litLE(n, Int(2))), "split-point", name, p.Pos, "%s gives 1 although n may be more than 2", name)
			return
		}
		if r.Op == OShl && r.Args[0] == tOne {
			if t := AddC(r.Args[1], 1); t.Op == OApp && strings.HasPrefix(t.Aux, "bits.Len") && len(t.Args) == 1 && eqi(f, t.Args[0], AddC(n, -1)) {
				return
			}
		}
		var v *PhiInfo
		for _, ev := range p.St.events {
			if ev.Kind == ELoop {
				for _, x := range ev.Loop.Vars {
					if x.Val == r || x.Sym == r {
						v = x
					}
				}
			}
		}
		if !c.must(v != nil && Subst(v.Init, nil) == tOne, "split-point", name, p.Pos, "%s gives %s, which is not known to be a power of two", name, brief(r)) {
			return
		}
		c.must(f.Implies(litLE(n, doubled(r))), "split-point", name, p.Pos, "%s may give a power of two below half of n", name)
		for _, it := range v.Inst.Iters {
			nx := nextIn(it, v)
			c.must(nx == doubled(r) || nx == Add(r, r), "split-point", name, it.Pos, "%s goes on from %s to %s", name, brief(r), brief(nx))
			c.must(it.facts().Implies(litLT(nx, n)), "split-point", name, it.Pos, "%s may give a power of two that is not below n", name)
		}
	})
}

func doubled(t *Term) *Term {
	if t.Op == OShl {
		return Shl(t.Args[0], AddC(t.Args[1], 1))
	}
	return Shl(t, tOne)
}

// recursion: the partition appends one range to what the same function gives for
// other arguments.
func recursion(p *Path, fn *ssa.Function) (call *Event, lo, hi *Term) {
	base, x := pushed(p.Results[0])
	if base == nil {
		return nil, nil, nil
	}
	for _, ev := range p.St.events {
		if ev.Kind == ECall && ev.Fn == fn && len(ev.Res) == 1 && ev.Res[0] == base {
			lo, hi = pairOf(x)
			return ev, lo, hi
		}
	}
	return nil, nil, nil
}

func pairOf(x *Term) (lo, hi *Term) {
	if x != nil && (x.Op == OList || x.Op == OStruct) && len(x.Args) == 2 {
		return x.Args[0], x.Args[1]
	}
	return nil, nil
}

// selfCalls: the function is written as a recurrence.
func (c *Check) selfCalls(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	c.assumption(shortFn(fn) + " is not written as a recurrence: its ranges are not decided")
	return false
}

type rangeArgs struct {
	m, lo, hi *Term
	b         *Term
}

func (c *Check) rangeArgs(fn *ssa.Function) *rangeArgs {
	var ints []*Term
	a := &rangeArgs{}
	for _, q := range fn.Params {
		switch {
		case types.Identical(q.Type(), types.Typ[types.Int64]):
			ints = append(ints, ParamSym(q))
		case types.Identical(q.Type(), types.Typ[types.Bool]):
			a.b = ParamSym(q)
		}
	}
	if len(ints) != 3 {
		c.anchorFail("the parameters of " + shortFn(fn))
		return nil
	}
	a.m, a.lo, a.hi = ints[0], ints[1], ints[2]
	return a
}

// step judges one step of the recurrence: below the split point to the left.
func (c *Check) rangeStep(fn *ssa.Function, p *Path, f *Facts, a *rangeArgs, left func(k *Term) (in, out bool)) {
	name := shortFn(fn)
	call, lo, hi := recursion(p, fn)
	if !c.must(call != nil && lo != nil, "recurrence", name, p.Pos, "%s gives %s, which is not one range after those of a part", name, brief(p.Results[0])) {
		return
	}
	k := App(fCalcK, types.Typ[types.Int64], Sub(a.hi, a.lo))
	mid := Add(a.lo, k)
	isLeft, isRight := left(k)
	if !c.must(isLeft || isRight, "recurrence", name, p.Pos, "%s: the part is not chosen by the split point", name) {
		return
	}
	var got []*Term
	var gb *Term
	for i, q := range fn.Params {
		switch {
		case types.Identical(q.Type(), types.Typ[types.Int64]):
			got = append(got, call.Args[i])
		case types.Identical(q.Type(), types.Typ[types.Bool]):
			gb = call.Args[i]
		}
	}
	same := func(x, y *Term) bool { return eqi(f, x, y) }
	if isLeft {
		c.must(same(got[0], a.m) && same(got[1], a.lo) && same(got[2], mid) && (a.b == nil || boolSame(f, gb, a.b)), "recurrence", name, p.Pos, "%s goes on to the left with %s", name, briefs(call.Args))
		c.must(same(lo, mid) && same(hi, a.hi), "recurrence", name, p.Pos, "%s appends [%s,%s) although the right part is [%s,%s)", name, brief(lo), brief(hi), brief(mid), brief(a.hi))
		return
	}
	c.must(same(got[0], Sub(a.m, k)) && same(got[1], mid) && same(got[2], a.hi) && (a.b == nil || boolSame(f, gb, tFalse)), "recurrence", name, p.Pos, "%s goes on to the right with %s", name, briefs(call.Args))
	c.must(same(lo, a.lo) && same(hi, mid), "recurrence", name, p.Pos, "%s appends [%s,%s) although the left part is [%s,%s)", name, brief(lo), brief(hi), brief(a.lo), brief(mid))
}

func boolSame(f *Facts, x, y *Term) bool {
	if x == y {
		return true
	}
	for _, v := range []bool{true, false} {
		kx := x == Bool(v) || f.Implies(Lit{A: x, Neg: !v})
		ky := y == Bool(v) || f.Implies(Lit{A: y, Neg: !v})
		if kx && ky {
			return true
		}
	}
	return false
}

func briefs(ts []*Term) string {
	var out []string
	for _, t := range ts {
		out = append(out, brief(t))
	}
	return strings.Join(out, ", ")
}

// inclusionRanges: PATH(m, D[n]) of RFC 6962.
func (c *Check) inclusionRanges() {
	fn := c.fn("merkle", "Path")
	if fn == nil || !c.selfCalls(fn) {
		return
	}
	a := c.rangeArgs(fn)
	if a == nil {
		return
	}
	name := shortFn(fn)
	e := c.explore(fn)
	c.returned(e, func(p *Path, f *Facts) {
		c.count("steps of recurrences")
		if eqi(f, Sub(a.hi, a.lo), tOne) {
			c.must(eqi(f, LenOf(p.Results[0]), tZeroI) || isNilVal(f, p.Results[0]), "recurrence", name, p.Pos, "%s gives %s for a single leaf", name, brief(p.Results[0]))
			return
		}
		c.must(f.Implies(litEQ0(AddC(Sub(a.hi, a.lo), -1)).Not()), "recurrence", name, p.Pos, "%s does not tell a single leaf from more", name)
		c.rangeStep(fn, p, f, a, func(k *Term) (bool, bool) {
			return f.Implies(litLT(a.m, k)), f.Implies(litLE(k, a.m))
		})
	})
}

// subProofRanges: SUBPROOF(m, D[n], b) of RFC 6962.
func (c *Check) subProofRanges() {
	fn := c.fn("merkle", "SubProof")
	if fn == nil || !c.selfCalls(fn) {
		return
	}
	a := c.rangeArgs(fn)
	if a == nil || a.b == nil {
		c.anchorFail("the parameters of " + shortFn(fn))
		return
	}
	name := shortFn(fn)
	e := c.explore(fn)
	c.returned(e, func(p *Path, f *Facts) {
		c.count("steps of recurrences")
		r := p.Results[0]
		whole := litEQ0(Sub(a.m, Sub(a.hi, a.lo)))
		if f.Implies(whole) {
			if f.Implies(Lit{A: a.b}) {
				c.must(eqi(f, LenOf(r), tZeroI) || isNilVal(f, r), "recurrence", name, p.Pos, "%s gives %s for a tree that is already known", name, brief(r))
				return
			}
			lv := listOf(e.ex, p, r, nil)
			var lo, hi *Term
			if lv.Why == "" && lv.Len == tOne {
				for _, ly := range lv.Layers {
					for _, el := range ly.Elems {
						if el.Idx == tZeroI {
							lo, hi = pairOf(el.Raw)
						}
					}
				}
				if lo == nil && lv.Base != nil {
					at := mk(OIndexAd, "", 0, nil, []*Term{lv.Base, tZeroI}, nil)
					lo, hi = e.ex.load(p.St, mk(OIndexAd, "", 0, nil, []*Term{at, tZeroI}, nil), nil), e.ex.load(p.St, mk(OIndexAd, "", 0, nil, []*Term{at, tOne}, nil), nil)
				}
			}
			c.must(f.Implies(Lit{A: a.b, Neg: true}) && lo != nil && eqi(f, lo, a.lo) && eqi(f, hi, a.hi), "recurrence", name, p.Pos, "%s gives %s for a whole tree that is not known", name, brief(r))
			return
		}
		c.must(f.Implies(whole.Not()), "recurrence", name, p.Pos, "%s does not tell a whole tree from a part", name)
		c.rangeStep(fn, p, f, a, func(k *Term) (bool, bool) {
			return f.Implies(litLE(a.m, k)), f.Implies(litLT(k, a.m))
		})
	})
	c.min("steps of recurrences", 5)
}

// bitKnownAt: the value of the bit of x that shift s brings down: 1, 0, or -1.
func bitKnownAt(f *Facts, x, s *Term) int {
	forms := []*Term{And(Shr(x, s), tOne), And(x, Shl(tOne, s)), And(x, mk(OTrunc, "byte", 0, types.Typ[types.Byte], []*Term{Shl(tOne, s)}, nil))}
	if up := Sub(Int(7), s); up.Op == OAnd {
		forms = append(forms, And(x, Shr(Int(128), up)))
	}
	for _, b := range forms {
		if f.Implies(litEQ0(b)) {
			return 0
		}
		if f.Implies(litEQ0(b).Not()) {
			return 1
		}
	}
	return -1
}

// bitIs: the boolean t is bit s of x.
func bitIs(f *Facts, t, x, s *Term) bool {
	for _, one := range []bool{true, false} {
		g := f.clone()
		l := asLit(t)
		if !one {
			l = l.Not()
		}
		if t.IsBool() && (t == tTrue) != one || !g.add(l) {
			continue
		}
		if b := bitKnownAt(g, x, s); b < 0 || (b == 1) != one {
			return false
		}
	}
	return true
}

func highFirst(d *Term) *Term { return Sub(Int(7), And(d, Int(7))) }

// bitPaths: binary paths are a length byte (0 for 256) and bits, most significant first.
func (c *Check) bitPaths() {
	var length, at *ssa.Function
	var moved []*ssa.Function
	for _, fn := range c.w.Funcs {
		if fn.Synthetic != "" || fn.Blocks == nil || fn.Parent() != nil {
			continue
		}
		isPath := func(t types.Type) bool { return isNamedType(t, "verifiable.BPath") }
		var ps []types.Type
		for _, q := range fn.Params {
			ps = append(ps, q.Type())
		}
		rs := fn.Signature.Results()
		switch {
		case rs.Len() != 1 || len(ps) == 0 || !isPath(ps[0]):
		case len(ps) == 1 && isIntType(rs.At(0).Type()):
			length = fn
		case len(ps) == 2 && isIntType(ps[1]) && types.Identical(rs.At(0).Type(), types.Typ[types.Bool]):
			at = fn
		case isPath(rs.At(0).Type()) && (len(ps) == 3 && isIntType(ps[1]) && isIntType(ps[2]) || len(ps) == 2 && isPath(ps[1])):
			moved = append(moved, fn)
		}
	}
	if length == nil || at == nil || len(moved) < 2 {
		c.anchorFail("the functions of binary paths")
		return
	}
	b := ParamSym(length.Params[0])
	c.returned(c.explore(length), func(p *Path, f *Facts) {
		want := pathLength(f, b)
		c.must(want != nil && eqi(f, p.Results[0], want), "path-length", shortFn(length), p.Pos, "%s gives %s as the length of a path", shortFn(length), brief(p.Results[0]))
	})
	b, d := ParamSym(at.Params[0]), ParamSym(at.Params[1])
	c.returned(c.explore(at), func(p *Path, f *Facts) {
		c.must(bitIs(f, p.Results[0], ElemOf(b, AddC(Shr(d, Int(3)), 1), nil), highFirst(d)), "path-bit", shortFn(at), p.Pos, "%s gives %s, which is not the bit asked for", shortFn(at), brief(p.Results[0]))
	})
	for _, fn := range moved {
		c.movedBits(fn)
	}
	c.min("partitions of path operations", 8)
	c.min("steps that move a bit", 8)
	for name, want := range map[string][]int64{"BPathFalse": {1, 0}, "BPathTrue": {1, 128}, "BPathEmpty": {}} {
		g, _ := c.w.SSA[modPath+"/verifiable"].Members[name].(*ssa.Global)
		if g == nil {
			continue
		}
		if c.w.mutGlobal(g) {
			c.fail("path-constant", name, g.Pos(), "%s may change", name)
			continue
		}
		c.count("path constants")
		ok := true
		v := c.globalBytes(g)
		if len(want) == 0 {
			ok = v != nil && len(*v) == 0
		} else {
			ok = v != nil && len(*v) == len(want)
			for i := 0; ok && i < len(want); i++ {
				ok = int64((*v)[i]) == want[i]
			}
		}
		c.must(ok, "path-constant", name, g.Pos(), "%s is not the path its name says", name)
	}
}

// globalBytes: the bytes of a package variable that never changes.
func (c *Check) globalBytes(g *ssa.Global) *string {
	ex := c.w.explorer()
	st := &State{heap: &Heap{m: map[*Term]*Term{}, base: map[*Term]*Term{}}, facts: newFacts()}
	v := canon(ex.content(st, ex.load(st, globalTerm(g), nil)))
	if v.Op != OStr {
		return nil
	}
	return &v.Aux
}

// pathLength: the length of a path, when it is known which case it is.
func pathLength(f *Facts, b *Term) *Term {
	h := ElemOf(b, tZeroI, nil)
	switch {
	case f.Implies(litEQ0(LenOf(b))):
		return tZeroI
	case f.Implies(litEQ0(h)):
		return Int(256)
	case f.Implies(litEQ0(h).Not()):
		return h
	}
	return nil
}

// movedBits: slicing and joining put every bit of the operands to its place.
func (c *Check) movedBits(fn *ssa.Function) {
	name := shortFn(fn)
	e := c.explore(fn)
	a, x, y := ParamSym(fn.Params[0]), ParamSym(fn.Params[1]), (*Term)(nil)
	if len(fn.Params) == 3 {
		y = ParamSym(fn.Params[2])
	}
	c.returned(e, func(p *Path, f *Facts) {
		c.count("partitions of path operations")
		r := p.Results[0]
		var l, la *Term
		if y != nil {
			l = Sub(y, x)
			if f.Implies(litLE(y, x)) {
				l = tZeroI
			} else if !f.Implies(litLT(x, y)) {
				l = nil
			}
		} else {
			la = pathLength(f, a)
			if lb := pathLength(f, x); la != nil && lb != nil {
				l = Add(la, lb)
			}
		}
		if !c.must(l != nil, "path-operation", name, p.Pos, "%s does not tell the length of its result", name) {
			return
		}
		if f.Implies(litLT(Int(256), l)) {
			return // no path is that long
		}
		if f.Implies(litLE(l, tZeroI)) {
			c.must(isNilVal(f, r) || eqi(f, LenOf(r), tZeroI), "path-operation", name, p.Pos, "%s gives %s instead of the empty path", name, brief(r))
			return
		}
		bytes := LenOf(r)
		if !c.must(f.Implies(litLE(tOne, l)) && r.Op == OSliceV && r.Args[1] == tZeroI && (eqi(f, bytes, AddC(Shr(AddC(l, -1), Int(3)), 2)) || eqi(f, bytes, AddC(Shr(AddC(l, 7), Int(3)), 1))), "path-operation", name, p.Pos, "%s gives a path of %s bytes for %s bits", name, brief(bytes), brief(l)) {
			return
		}
		base := r.Args[0]
		loops, cells := fills(p, base)
		head := tZeroI
		for _, w := range cells {
			if i := w.Loc.Args[1]; i == tZeroI {
				head = w.Val
			} else {
				c.fail("path-operation", name, p.Pos, "%s stores %s outside its passes over the bits", name, brief(i))
			}
		}
		for head.Op == OTrunc {
			head = head.Args[0]
		}
		c.must(eqi(f, head, l) || head == tZeroI && eqi(f, l, Int(256)), "path-operation", name, p.Pos, "%s gives %s as the length of %s bits", name, brief(head), brief(l))
		pos := tZeroI
		for _, lp := range loops {
			ok := false
			for _, from := range []*Term{pos, la} {
				if from != nil && eqi(f, from, pos) && c.bitPass(name, p, lp, base, from, l, la, a, x, y) {
					pos, ok = Add(from, lp.N), true
					break
				}
			}
			if !c.must(ok, "path-operation", name, p.Pos, "%s has a pass that does not move each bit to its place", name) {
				return
			}
		}
		c.must(f.Implies(litLE(l, pos)), "path-operation", name, p.Pos, "%s may leave out bits from %s", name, brief(pos))
	})
}

// fills: the loops that store to base, and the cells stored outside of them.
func fills(p *Path, base *Term) (loops []*LoopInst, cells []LoopWrite) {
	for _, ev := range p.St.events {
		if ev.Kind != ELoop {
			continue
		}
		for _, s := range ev.Loop.Stores {
			if s.Base == base {
				loops = append(loops, ev.Loop)
				cells = append(cells, s.Cells...)
			}
		}
	}
	for k, v := range p.St.heap.m {
		if k.Op == OIndexAd && k.Args[0] == base {
			cells = append(cells, LoopWrite{k, v})
		}
	}
	return loops, cells
}

// bitPass: every step of the loop moves one bit, the first to position from.
func (c *Check) bitPass(name string, p *Path, lp *LoopInst, base, from, l, la, a, x, y *Term) bool {
	d := Add(from, lp.N)
	for _, it := range lp.Iters {
		g := it.facts()
		if g.dead || g.absurd() {
			continue
		}
		if it.End != "backedge" || !g.Implies(litLT(d, l)) {
			return false
		}
		src, i := a, d
		switch {
		case y != nil:
			i = Add(x, d)
		case g.Implies(litLT(d, la)):
		case g.Implies(litLE(la, d)):
			src, i = x, Sub(d, la)
		default:
			return false
		}
		bit := pathBit(g, src, i)
		at := mk(OIndexAd, "", 0, nil, []*Term{base, AddC(Shr(d, Int(3)), 1)}, nil)
		n := 0
		for k, v := range it.St.heap.m {
			if k.Op != OIndexAd || k.Args[0] != base {
				continue
			}
			n++
			if k.Args[1] != at.Args[1] || !setsBit(v, k, d) {
				return false
			}
		}
		c.count("steps that move a bit")
		if bit < 0 || n != bit {
			return false
		}
	}
	return len(lp.Iters) > 0
}

// setsBit: v is what was at k, with bit d of the path set.
func setsBit(v, k, d *Term) bool {
	for v.Op == OTrunc {
		v = v.Args[0]
	}
	if v.Op != OOr || len(v.Args) != 2 {
		return false
	}
	for i := range v.Args {
		m, old := v.Args[i], v.Args[1-i]
		for m.Op == OTrunc {
			m = m.Args[0]
		}
		if old.Op == OElem && old.Args[1] == k.Args[1] && (m == Shl(tOne, highFirst(d)) || m == Shr(Int(128), And(d, Int(7)))) {
			return true
		}
	}
	return false
}

// keyPaths: the path of a key is SHA-256 of the key, most significant bit first.
func (c *Check) keyPaths() {
	for _, fn := range c.w.Funcs {
		if fn.Synthetic != "" || fn.Blocks == nil || fn.Parent() != nil {
			continue
		}
		name := shortFn(fn)
		switch {
		case c.isPathFromKey(fn):
			e := c.explore(fn)
			key := ParamSym(fn.Params[0])
			c.returned(e, func(p *Path, f *Facts) {
				c.count("partitions of key paths")
				v := canon(e.ex.Snap(p.St, p.Results[0], nil))
				ok := v.Op == OConcat && len(v.Args) == 2 && v.Args[0] == Str("\x00")
				var h *Term
				if ok {
					h = v.Args[1]
				} else if r := p.Results[0]; r.Op == OSliceV && eqi(f, LenOf(r), Int(33)) {
					v = canon(e.ex.content(p.St, r))
					if v.Op == OConcat && len(v.Args) == 2 && v.Args[0] == Str("\x00") {
						h = v.Args[1]
					}
				}
				a := sha256Arg(h)
				c.must(a != nil && eqv(f, canon(a), key), "key-path", name, p.Pos, "%s gives %s", name, brief(v))
			})
		case keyPathFunc(fn):
			e := c.explore(fn)
			key := ParamSym(fn.Params[0])
			c.returned(e, func(p *Path, f *Facts) {
				c.count("partitions of key paths")
				c.keyBits(name, p, f, key)
			})
		}
	}
	c.min("partitions of key paths", 2)
}

func (c *Check) keyBits(name string, p *Path, f *Facts, key *Term) {
	r := p.Results[0]
	if !c.must(r.Op == OSliceV && r.Args[1] == tZeroI && eqi(f, LenOf(r), Int(256)), "key-path", name, p.Pos, "%s does not give 256 bits: %s", name, brief(r)) {
		return
	}
	base := r.Args[0]
	loops, cells := fills(p, base)
	if !c.must(len(loops) == 1 && len(cells) == 0, "key-path", name, p.Pos, "%s does not fill the path in one pass", name) {
		return
	}
	lp := loops[0]
	h := App("sha256", types.Typ[types.String], key)
	stride := int64(0)
	seen := map[int64]bool{}
	for _, it := range lp.Iters {
		for k := range it.St.heap.m {
			if k.Op == OIndexAd && k.Args[0] == base {
				i := k.Args[1]
				up := Sub(Subst(i, map[*Term]*Term{lp.N: AddC(lp.N, 1)}), i)
				first := Subst(i, map[*Term]*Term{lp.N: tZeroI})
				if !c.must(up.IsInt() && first.IsInt() && (stride == 0 || stride == up.I) && (up.I == 1 || up.I == 8) && first.I >= 0 && first.I < up.I, "key-path", name, it.Pos, "%s stores at %s", name, brief(i)) {
					return
				}
				stride = up.I
				seen[first.I] = true
			}
		}
	}
	if !c.must(stride > 0 && int64(len(seen)) == stride, "key-path", name, p.Pos, "%s does not fill every bit of the path", name) {
		return
	}
	for _, it := range lp.Iters {
		g := it.facts()
		if g.dead || g.absurd() {
			continue
		}
		c.count("steps over key bits")
		got := map[*Term]*Term{}
		for k, v := range it.St.heap.m {
			if k.Op == OIndexAd && k.Args[0] == base {
				got[k.Args[1]] = v
			}
		}
		for i := int64(0); i < stride; i++ {
			d := AddC(Scale(lp.N, stride), i)
			x, s := ElemOf(h, lp.N, nil), Int(7-i)
			if stride == 1 {
				x, s = ElemOf(h, Shr(d, Int(3)), nil), highFirst(d)
			}
			v := got[d]
			if v == nil {
				v = tFalse
			}
			if !c.must(bitIs(g, v, x, s), "key-path", name, it.Pos, "%s gives %s for bit %s of the path", name, brief(v), brief(d)) {
				return
			}
		}
	}
	c.must(f.Implies(litLE(Int(256), Scale(lp.N, stride))), "key-path", name, p.Pos, "%s may leave out bits of the path", name)
}

// mapNodeHash: the hash of a map node at its depth.
func (c *Check) mapNodeHash() {
	n := 0
	for _, fn := range c.w.Funcs {
		if c.w.pathRole(fn) != fNodeHash {
			continue
		}
		n++
		name := shortFn(fn)
		var node, depth *Term
		for _, q := range fn.Params {
			if isIntType(q.Type()) {
				depth = ParamSym(q)
			} else {
				node = ParamSym(q)
			}
		}
		e := c.explore(fn)
		c.returned(e, func(p *Path, f *Facts) {
			if er := p.retErr(); er != nil && !isNilVal(f, er) {
				return
			}
			fld := func(s string) *Term { return e.ex.load(p.St, FieldAddr(node, s), nil) }
			leaf := fld("LeafHash")
			c.nodeHashRule(name, p, f, p.Results[0], depth, leaf,
				func(f *Facts) int { return sign(f, litEQ0(LenOf(leaf)).Not()) },
				func(g *Facts, i *Term) int { return pathBit(g, fld("Path"), i) },
				func(x *Term, side int) bool {
					num, hash := fld("LeftNumber"), fld("LeftHash")
					if side == 1 {
						num, hash = fld("RightNumber"), fld("RightHash")
					}
					if f.Implies(litEQ0(num)) {
						return isDefaultAt(f, x, AddC(depth, 1))
					}
					return f.Implies(litEQ0(num).Not()) && eqv(f, x, hash)
				})
		})
	}
	if n == 0 {
		c.anchorFail("the hash of a map node")
	}
}

func sign(f *Facts, l Lit) int {
	switch {
	case f.Implies(l):
		return 1
	case f.Implies(l.Not()):
		return 0
	}
	return -1
}

// isDefaultAt: x is the default hash of depth d.
func isDefaultAt(f *Facts, x, d *Term) bool {
	return x.Op == OElem && isDefaultTable(x.Args[0]) && eqi(f, x.Args[1], d)
}

// nodeHashRule: a leaf's hash is folded with the default hashes from 256 up to
// the depth, on the side its path says; another node hashes its two sides.
func (c *Check) nodeHashRule(name string, p *Path, f *Facts, r, depth, leafHash *Term, isLeaf func(f *Facts) int, bit func(g *Facts, i *Term) int, side func(x *Term, s int) bool) {
	c.count("partitions of map node hashes")
	switch isLeaf(f) {
	case 0:
		l, x, ok := nodeHashOf(r)
		c.must(ok && side(l, 0) && side(x, 1), "map-node-hash", name, p.Pos, "%s gives %s for a node that is not a leaf", name, brief(r))
		return
	case -1:
		c.fail("map-node-hash", name, p.Pos, "%s does not tell a leaf from another node", name)
		return
	}
	v := phiOf(r)
	if v == nil && eqv(f, r, leafHash) && f.Implies(litLE(Int(256), depth)) {
		return
	}
	if !c.must(v != nil && eqv(f, v.Init, leafHash), "map-node-hash", name, p.Pos, "%s gives %s for a leaf, which does not start from its leaf hash", name, brief(r)) {
		return
	}
	lp := v.Inst
	at := Sub(Int(256), lp.N) // the depth of what has been folded so far
	for _, it := range lp.Iters {
		g := it.facts()
		if g.dead || g.absurd() {
			continue
		}
		c.count("steps of leaf hashes")
		nx := nextIn(it, v)
		x, y, ok := nodeHashOf(nx)
		b := bit(g, AddC(at, -1))
		if b == 1 {
			x, y = y, x
		}
		c.must(it.End == "backedge" && ok && b >= 0 && x == v.Sym && isDefaultAt(g, y, at) && g.Implies(litLT(depth, at)), "map-node-hash", name, it.Pos, "%s goes on from depth %s to %s", name, brief(at), brief(nx))
	}
	c.must(f.Implies(litLE(at, depth)), "map-node-hash", name, p.Pos, "%s may stop at depth %s", name, brief(at))
}
