package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// treeHasher: the function gives the hash of a node of a tree held in memory.
func treeHasher(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return fn.Synthetic == "" && fn.Blocks != nil && len(fn.Params) == 1 && selfRef(fn.Params[0].Type()) && rs.Len() == 1 && isBytesLike(rs.At(0).Type())
}

// treeChanger: the function performs a mutation on a tree held in memory.
func treeChanger(fn *ssa.Function) bool {
	return fn.Synthetic == "" && fn.Blocks != nil && fn.Parent() == nil && len(fn.Params) == 2 && selfRef(fn.Params[0].Type()) && isNamedType(derefType(fn.Params[1].Type()), "pb.MapMutation")
}

// before: the content of loc when the function or iteration began.
func (ex *Explorer) before(st *State, loc *Term) *Term { return ex.initial(st, loc, nil) }

// auditNodeHash: the hash of a node of the auditor's copy of the map.
func (c *Check) auditNodeHash() {
	n := 0
	for _, fn := range c.w.Funcs {
		if !treeHasher(fn) {
			continue
		}
		n++
		name := shortFn(fn)
		node := ParamSym(fn.Params[0])
		e := c.explore(fn)
		c.returned(e, func(p *Path, f *Facts) {
			r := p.Results[0]
			fld := func(s string) *Term { return e.ex.before(p.St, FieldAddr(node, s)) }
			allEvents(p, func(_ *Path, ev *Event) {
				if ev.Kind == EStore && ev.Loc != nil {
					c.must(ev.Loc == FieldAddr(node, "Hash"), "map-node-hash", name, ev.Pos, "%s stores to %s", name, brief(ev.Loc))
				}
			})
			if old := fld("Hash"); r == old {
				c.must(f.Implies(litNil(old).Not()) || f.Implies(litEQ0(LenOf(old)).Not()), "map-node-hash", name, p.Pos, "%s gives the hash found in a node although there may be none", name)
				return
			}
			if v, ok := p.St.heap.m[FieldAddr(node, "Hash")]; ok {
				c.must(v == r, "map-node-hash", name, p.Pos, "%s keeps %s and gives %s", name, brief(v), brief(r))
			}
			c.nodeHashRule(name, p, f, r, fld("Depth"), fld("LeafHash"),
				func(f *Facts) int { return sign(f, asLit(fld("Leaf"))) },
				func(g *Facts, i *Term) int {
					switch {
					case keyBitKnown(g, fld("KeyPath"), i, true):
						return 1
					case keyBitKnown(g, fld("KeyPath"), i, false):
						return 0
					}
					return -1
				},
				func(x *Term, side int) bool {
					child := fld([]string{"Left", "Right"}[side])
					if f.Implies(litNil(child)) {
						return isDefaultAt(f, x, AddC(fld("Depth"), 1))
					}
					for _, ev := range p.St.events {
						if ev.Kind == ECall && ev.Fn == fn && ev.Args[0] == child && len(ev.Res) == 1 && ev.Res[0] == x {
							return true
						}
					}
					return false
				})
		})
	}
	if n == 0 {
		c.anchorFail("the hash of an audited map's node")
	}
}

// auditTree: a mutation changes the auditor's copy of the map as its action says.
func (c *Check) auditTree() {
	n := 0
	for _, fn := range c.w.Funcs {
		if !treeChanger(fn) {
			continue
		}
		n++
		e := c.exploreWith(fn, func(ex *Explorer) {
			ex.opaque = func(f *ssa.Function) bool { return treeHasher(f) || keyPathFunc(f) }
		})
		t := &treeChange{c: c, e: e, name: shortFn(fn), root: ParamSym(fn.Params[0]), mut: ParamSym(fn.Params[1])}
		c.returned(e, func(p *Path, f *Facts) {
			if er := p.retErr(); er != nil && !isNilVal(f, er) {
				return
			}
			c.count("partitions of tree changes")
			t.judge(p, f)
		})
	}
	if n == 0 {
		c.anchorFail("the function that performs a mutation on an audited map")
	}
	c.min("partitions of tree changes", 10)
	c.min("steps down the tree", 2)
	c.min("splits of a leaf", 2)
}

type treeChange struct {
	c         *Check
	e         *exploration
	name      string
	root, mut *Term
	key       *Term // the bits of the mutation's key
}

func (t *treeChange) must(cond bool, p *Path, format string, args ...interface{}) bool {
	return t.c.must(cond, "tree-change", t.name, p.Pos, t.name+" "+format, args...)
}

// cell: what the field holds at the end of p; old: at its start.
func (t *treeChange) cell(p *Path, n *Term, field string) *Term {
	return t.e.ex.load(p.St, FieldAddr(n, field), nil)
}

func (t *treeChange) old(p *Path, n *Term, field string) *Term {
	return t.e.ex.before(p.St, FieldAddr(n, field))
}

// first: what the field held before anything was stored to such a field.
func (t *treeChange) first(n *Term, field string) *Term {
	st := &State{heap: &Heap{m: map[*Term]*Term{}, base: map[*Term]*Term{}}, facts: newFacts()}
	return t.e.ex.before(st, FieldAddr(n, field))
}

func (t *treeChange) bit(f *Facts, bits, i *Term) int {
	switch {
	case keyBitKnown(f, bits, i, true):
		return 1
	case keyBitKnown(f, bits, i, false):
		return 0
	}
	return -1
}

// stored: the fields of nodes that p stores to, outside of loops.
func (t *treeChange) stored(p *Path) map[*Term]bool {
	out := map[*Term]bool{}
	for _, ev := range p.St.events {
		if ev.Kind == EStore && ev.Loc != nil {
			out[ev.Loc] = true
		}
	}
	return out
}

// only: nothing but these fields was stored to.
func (t *treeChange) only(p *Path, locs ...*Term) {
	ok := map[*Term]bool{}
	for _, l := range locs {
		ok[l] = true
	}
	var bad []string
	for l := range t.stored(p) {
		if !ok[l] {
			bad = append(bad, brief(l))
		}
	}
	sort.Strings(bad)
	t.must(len(bad) == 0, p, "stores to %v", bad)
}

func isPtr(t types.Type) bool { return t != nil && selfRef(t) }

func (t *treeChange) judge(p *Path, f *Facts) {
	t.key = nil
	var loops []*LoopInst
	var hash *Event
	after := false
	for _, ev := range p.St.events {
		switch {
		case ev.Kind == ECall && ev.Fn != nil && keyPathFunc(ev.Fn) && len(ev.Res) == 1:
			k := canon(ev.Args[0])
			if k == canon(t.e.ex.load(p.St, FieldAddr(t.mut, "Key"), nil)) {
				t.key = ev.Res[0]
			}
		case ev.Kind == ECall && ev.Fn != nil && treeHasher(ev.Fn):
			if ev.Args[0] == t.root {
				hash, after = ev, false
			}
		case ev.Kind == EStore:
			after = true
		case ev.Kind == ELoop:
			after = true
			for _, v := range ev.Loop.Vars {
				if isPtr(v.Typ) {
					loops = append(loops, ev.Loop)
					break
				}
			}
		}
	}
	if !t.must(t.key != nil, p, "does not follow the path of the mutation's key") {
		return
	}
	t.must(hash != nil && !after && len(hash.Res) == 1 && hash.Res[0] == p.Results[0], p, "does not give the hash of the root after the change")
	var at *Term
	var allowed []*Term
	if b := t.bit(f, t.key, t.first(t.root, "Depth")); b >= 0 && f.Implies(litNil(t.first(t.root, []string{"Left", "Right"}[b]))) {
		at, allowed = t.root, []*Term{FieldAddr(t.root, "Hash")}
	} else {
		if !t.must(len(loops) > 0, p, "does not walk down the tree") {
			return
		}
		if at, allowed = t.walk(p, f, loops[0]); at == nil {
			return
		}
		loops = loops[1:]
	}
	if !t.must(len(loops) <= 1, p, "walks the tree in %d more passes", len(loops)) {
		return
	}
	if len(loops) == 0 {
		leaf := asLit(t.old(p, at, "Leaf"))
		same := litEQ(t.key, t.old(p, at, "KeyPath"))
		if f.Implies(leaf) && f.Implies(same) { // the key is there
			t.action(p, f, at, t.old(p, at, "LeafHash"))
			t.only(p, append(allowed, FieldAddr(at, "LeafHash"), FieldAddr(at, "Hash"))...)
			t.must(isNilVal(f, t.cell(p, at, "Hash")), p, "keeps the hash of a node it changed")
			return
		}
		t.must(f.Implies(leaf.Not()), p, "adds a leaf next to a leaf without telling their paths apart")
		t.attach(p, f, at, allowed)
		return
	}
	if last := t.split(p, f, loops[0], at); last != nil {
		t.attach(p, f, last, allowed)
	}
}

// walk judges the way down and gives the last node on it.
func (t *treeChange) walk(p *Path, f *Facts, l *LoopInst) (*Term, []*Term) {
	var v, tail *PhiInfo
	for _, x := range l.Vars {
		if !isPtr(x.Typ) {
			continue
		}
		down := len(l.Iters) > 0
		for _, it := range l.Iters {
			nx := nextIn(it, x)
			down = down && (nx == t.old(it, x.Sym, "Left") || nx == t.old(it, x.Sym, "Right"))
		}
		if down {
			v = x
		}
	}
	if !t.must(v != nil && (v.Init == t.root || t.firstStep(p, f, v.Init)), p, "does not walk down from the root") {
		return nil, nil
	}
	for _, x := range l.Vars {
		follows := isPtr(x.Typ) && x != v
		for _, it := range l.Iters {
			follows = follows && nextIn(it, x) == v.Sym
		}
		if follows && x.Init == t.root {
			tail = x
		}
	}
	reset, tailReset := true, tail != nil
	for _, it := range l.Iters {
		g := it.facts()
		if g.dead || g.absurd() {
			continue
		}
		t.c.count("steps down the tree")
		b := t.bit(g, t.key, t.old(it, v.Sym, "Depth"))
		nx := nextIn(it, v)
		t.must(b == 1 && nx == t.old(it, v.Sym, "Right") || b == 0 && nx == t.old(it, v.Sym, "Left"), it, "goes down to %s, which is not the side that the key's bit says", brief(nx))
		st := t.stored(it)
		allowed := []*Term{FieldAddr(v.Sym, "Hash")}
		reset = reset && st[allowed[0]] && isNilVal(g, t.cell(it, v.Sym, "Hash"))
		if tail != nil {
			h := FieldAddr(tail.Sym, "Hash")
			allowed = append(allowed, h)
			tailReset = tailReset && st[h] && isNilVal(g, t.cell(it, tail.Sym, "Hash"))
		}
		t.only(it, allowed...)
	}
	at := v.Sym
	if f.Implies(litNil(v.Sym)) {
		if !t.must(tail != nil, p, "loses the last node on the way down") {
			return nil, nil
		}
		at = tail.Sym
	} else {
		b := t.bit(f, t.key, t.old(p, at, "Depth"))
		t.must(b == 1 && f.Implies(litNil(t.first(at, "Right"))) || b == 0 && f.Implies(litNil(t.first(at, "Left"))), p, "may stop on the way down")
	}
	t.must(reset || tailReset, p, "keeps the hash of a node on the way down")
	return at, []*Term{FieldAddr(at, "Hash")}
}

// firstStep: n is the child of the root that the key's bit says.
func (t *treeChange) firstStep(p *Path, f *Facts, n *Term) bool {
	b := t.bit(f, t.key, t.first(t.root, "Depth"))
	return b == 1 && n == t.first(t.root, "Right") || b == 0 && n == t.first(t.root, "Left")
}

// split judges the steps that move a leaf down until the paths part.
func (t *treeChange) split(p *Path, f *Facts, l *LoopInst, at *Term) *Term {
	var v, tail *PhiInfo
	for _, x := range l.Vars {
		if !isPtr(x.Typ) || x.Init != at {
			continue
		}
		fresh := len(l.Iters) > 0
		for _, it := range l.Iters {
			fresh = fresh && nextIn(it, x) != nil && nextIn(it, x).Op == OAlloc
		}
		if fresh {
			v = x
		}
	}
	if !t.must(v != nil, p, "does not move a leaf down from where the way ends") {
		return nil
	}
	for _, x := range l.Vars {
		follows := isPtr(x.Typ) && x.Init == at && x != v
		for _, it := range l.Iters {
			follows = follows && nextIn(it, x) == v.Sym
		}
		if follows {
			tail = x
		}
	}
	if !t.must(tail != nil, p, "loses the node above the leaf that it moves down") {
		return nil
	}
	agree := func(q *Path, g *Facts) int {
		i := AddC(t.old(q, v.Sym, "Depth"), -1)
		kp := t.old(q, v.Sym, "KeyPath")
		x, y := ElemOf(t.key, i, nil), ElemOf(kp, i, nil)
		if s := sign(g, asLit(App("iff", types.Typ[types.Bool], x, y))); s >= 0 {
			return s
		}
		if s := sign(g, asLit(App("iff", types.Typ[types.Bool], y, x))); s >= 0 {
			return s
		}
		a, b := t.bit(g, t.key, i), t.bit(g, kp, i)
		if a < 0 || b < 0 {
			return -1
		}
		if a == b {
			return 1
		}
		return 0
	}
	for _, it := range l.Iters {
		g := it.facts()
		if g.dead || g.absurd() {
			continue
		}
		t.c.count("splits of a leaf")
		x, child := v.Sym, nextIn(it, v)
		d := t.old(it, x, "Depth")
		t.must(g.Implies(asLit(t.old(it, x, "Leaf"))) && agree(it, g) == 1, it, "moves down a node that is not a leaf on the key's path")
		t.newLeaf(it, g, child, d, t.old(it, x, "KeyPath"), t.old(it, x, "LeafHash"))
		t.link(it, g, x, child, t.old(it, x, "KeyPath"), d, true)
		t.must(t.cell(it, x, "Leaf") == tFalse, it, "leaves a node with children a leaf")
		t.must(isNilVal(g, t.cell(it, x, "Hash")), it, "keeps the hash of a node it splits")
		t.only(it, FieldAddr(x, "Leaf"), FieldAddr(x, "LeafHash"), FieldAddr(x, "KeyPath"), FieldAddr(x, "Left"), FieldAddr(x, "Right"), FieldAddr(x, "Hash"))
	}
	t.must(f.Implies(asLit(t.old(p, v.Sym, "Leaf")).Not()) || agree(p, f) == 0, p, "may stop splitting before the paths part")
	return tail.Sym
}

// newLeaf: child is a leaf one below depth d.
func (t *treeChange) newLeaf(p *Path, f *Facts, child, d, bits, hash *Term) {
	t.must(eqi(f, t.cell(p, child, "Depth"), AddC(d, 1)) && t.cell(p, child, "Leaf") == tTrue && t.cell(p, child, "KeyPath") == bits, p, "makes a leaf with another depth or path")
	if hash != nil {
		t.must(t.cell(p, child, "LeafHash") == hash, p, "makes a leaf with another hash")
	}
	for _, s := range []string{"Hash", "Left", "Right"} {
		if x, ok := p.St.heap.m[FieldAddr(child, s)]; ok {
			t.must(isNilVal(f, x), p, "makes a leaf with %s set", s)
		}
	}
}

// link: child hangs below n on the side that bit d of bits says.
func (t *treeChange) link(p *Path, f *Facts, n, child, bits, d *Term, alone bool) {
	b := t.bit(f, bits, d)
	one, other := "Right", "Left"
	if b == 0 {
		one, other = other, one
	}
	t.must(b >= 0 && t.cell(p, n, one) == child, p, "does not hang a leaf on the side that its path says")
	if x, ok := p.St.heap.m[FieldAddr(n, other)]; ok {
		t.must(alone && isNilVal(f, x) || !alone && x == t.old(p, n, other), p, "changes the other side of a node")
	}
}

// attach: a leaf for the key hangs below n.
func (t *treeChange) attach(p *Path, f *Facts, n *Term, allowed []*Term) {
	d := t.old(p, n, "Depth")
	b := t.bit(f, t.key, d)
	if !t.must(b >= 0, p, "does not look at the key's bit where it adds a leaf") {
		return
	}
	child := t.cell(p, n, []string{"Left", "Right"}[b])
	if !t.must(child.Op == OAlloc, p, "does not add a leaf where the key's way ends") {
		return
	}
	t.newLeaf(p, f, child, d, t.key, nil)
	t.link(p, f, n, child, t.key, d, false)
	t.must(isNilVal(f, t.cell(p, n, "Hash")), p, "keeps the hash of a node it adds a leaf to")
	t.action(p, f, child, nil)
	t.only(p, append(allowed, FieldAddr(n, "Left"), FieldAddr(n, "Right"), FieldAddr(n, "Hash"))...)
}

// action: the leaf's hash becomes what the mutation's action says. was is its
// hash before; nil for a leaf that is new.
func (t *treeChange) action(p *Path, f *Facts, leaf, was *Term) {
	m := func(s string) *Term { return t.e.ex.load(p.St, FieldAddr(t.mut, s), nil) }
	now := t.cell(p, leaf, "LeafHash")
	value := m("Value")
	input := SF(nodeOf(value), "LeafInput")
	if input == nil {
		input = t.e.ex.load(p.St, FieldAddr(value, "LeafInput"), nil)
	}
	set := func() bool { return emptyOr(f, sha256Arg(now), input, value) }
	empty := func(x *Term) bool { return x != nil && (isEmptyLeafHash(x) || isDefaultAt(f, x, Int(256))) }
	prior := func() []*Term {
		if was != nil {
			return []*Term{was}
		}
		out := []*Term{Sha256(Str("\x00"))}
		for g := range defaultTables(f) {
			out = append(out, ElemOf(g, Int(256), nil))
		}
		return out
	}
	switch knownAction(f, m("Action")) {
	case "set":
		t.must(set(), p, "sets %s", brief(now))
	case "delete":
		t.must(empty(now), p, "deletes by %s", brief(now))
	case "update":
		eq := -1
		for _, x := range prior() {
			for _, l := range []Lit{litEQ(x, m("PreviousLeafHash")), litEQ(m("PreviousLeafHash"), x)} {
				if s := sign(f, l); s >= 0 {
					eq = s
				}
			}
		}
		switch eq {
		case 1:
			t.must(set(), p, "updates to %s", brief(now))
		case 0:
			t.must(was != nil && now == was || was == nil && empty(now), p, "updates to %s although the leaf is not the one to update", brief(now))
		default:
			t.must(false, p, "updates without comparing the leaf's hash with the given one")
		}
	default:
		t.must(false, p, "succeeds for an unknown action")
	}
}

// defaultTables: the tables of default hashes that the facts mention.
func defaultTables(f *Facts) map[*Term]bool {
	out := map[*Term]bool{}
	for _, l := range f.lits {
		for _, x := range termsOf(l.A, isDefaultTable) {
			out[x] = true
		}
	}
	return out
}
