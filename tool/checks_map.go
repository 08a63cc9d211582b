package main

import (
	"strings"
)

func init() {
	register("C11", checkC11, "path-sensitive dataflow over the SSA form of ApplyMutation for mutation logs, joined calls expanded, with induction over the ancestor loop",
		"Every partition of ApplyMutation that grows a mutation log from n to n+1: all storage operations go to the given key writer and none failed; the mutation applied is the decoding of the entry's extra data, read at map root n and written as nodes n+1; the tree head log gets at index n (leaf node, leaf data, index record, tree hash n+1) an entry that is the object hash and JSON of a MapTreeHashResponse whose root hash is calcNodeHash of the very node written as root n+1 (directly, or by induction over the loop writing the ancestors) and whose mutation log head is size n+1 with the hash recorded for n+1.")
	register("C12", checkC12, "path-sensitive dataflow over the SSA form of ApplyMutation and MapSetValue: case analysis over the action, the node found for the key, and the nodes written",
		"Every partition of ApplyMutation on a mutation log that succeeds knows the action to be set, delete or update; it compared the key's path with the node reached by descending from root n along the bits of SHA-256 of the key; with prev = that node's leaf hash on a match, else the empty leaf hash, and next as the action demands, it either knows prev = next and rewrites root n as root n+1 only, or knows prev != next and writes the leaf (path, next) as a node n+1 with its value under next, ancestors n+1 keeping their other child. MapSetValue queues only mutations whose action is known to be one of the three.")
}

// nodeOf strips pointers from a message.
func nodeOf(t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == OIface, t.Op == ODeref:
			t = t.Args[0]
		case t.Op == OApp && t.Aux == "&":
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

// mapWrite is a map node written.
type mapWrite struct {
	e     *Event
	n     *Term
	depth *Term // nil: below a fork, see join
	path  *Term
	node  *Term
}

func mapWriteOf(f *Facts, e *Event, kp *Term) *mapWrite {
	if !isSet(e) {
		return nil
	}
	r := recordOf(e)
	if r == nil || r.msg != "pb.MapNode" || len(r.rest) == 0 || len(r.rest) > 2 {
		return nil
	}
	x, ok := be64s(r.rest[:1], 1)
	if !ok {
		return nil
	}
	w := &mapWrite{e: e, n: x[0], node: nodeOf(e.Snap[3])}
	if len(r.rest) == 1 {
		w.depth = tZeroI
		return w
	}
	w.path = r.rest[1]
	if w.path.Op == OApp && w.path.Aux == fPathSlice && w.path.Args[0] == kp && w.path.Args[1] == tZeroI {
		w.depth = w.path.Args[2]
	}
	return w
}

// since the loop started: the events of an iteration.
func iterEvents(l *LoopInst, it *Path) []*Event {
	if l.Entry != nil {
		for i, e := range it.St.events {
			if e.orig() == l.Entry.orig() {
				return it.St.events[i+1:]
			}
		}
	}
	return it.St.events
}

// rootHashOf: "" if h is the hash of the node written as map root number n.
func (c *Check) rootHashOf(p *Path, h, n, kp *Term) string {
	f := p.facts()
	if h == nil {
		return "no hash"
	}
	written := func(evs []*Event, f *Facts, node, depth *Term) string {
		for _, e := range evs {
			w := mapWriteOf(f, e, kp)
			if w == nil || w.depth == nil || !eqi(f, w.depth, depth) || w.node != nodeOf(node) {
				continue
			}
			if !eqi(f, w.n, n) {
				return "the node hashed is written as number " + brief(w.n)
			}
			return ""
		}
		return "the node hashed, " + brief(node) + " at depth " + brief(depth) + ", is not the one written"
	}
	if h.Op == OApp && h.Aux == fNodeHash {
		if !eqi(f, h.Args[1], tZeroI) {
			return "it is the hash of a node at depth " + brief(h.Args[1])
		}
		return written(p.St.events, f, h.Args[0], tZeroI)
	}
	v, _ := h.Obj.(*PhiInfo)
	if v == nil || v.Inst == nil || v.Sym != h {
		return "it is " + brief(h)
	}
	l := v.Inst
	in := v.Init
	if in == nil || in.Op != OApp || in.Aux != fNodeHash {
		return "it starts as " + brief(in)
	}
	d0 := in.Args[1]
	if w := written(p.St.events, f, in.Args[0], d0); w != "" {
		return w
	}
	if !eqi(f, d0, l.N) {
		return "the loop writing the ancestors is not known to reach the root"
	}
	vi := -1
	for i, x := range l.Vars {
		if x == v {
			vi = i
		}
	}
	if vi < 0 || len(l.Iters) == 0 {
		return "it is " + brief(h)
	}
	for _, it := range l.Iters {
		g := it.facts()
		if vi >= len(it.Nexts) {
			return "an iteration has no next hash"
		}
		nx := it.Nexts[vi]
		if nx.Op != OApp || nx.Aux != fNodeHash {
			return "an ancestor's hash is " + brief(nx)
		}
		d := AddC(Sub(d0, l.N), -1)
		if !eqi(g, nx.Args[1], d) {
			return "an ancestor is hashed for depth " + brief(nx.Args[1])
		}
		if w := written(it.St.events, g, nx.Args[0], d); w != "" {
			return w
		}
	}
	return ""
}

// mapApplications: the growing partitions of the application to a mutation log,
// with the joins chosen by want undone.
func (c *Check) growing(a *applyInfo, want func(r *record) bool) []*Path {
	var out []*Path
	for _, p0 := range a.e.paths {
		if p0.End != "return" || !p0.maySucceed() {
			continue
		}
		for _, p := range p0.expandIf(func(e *Event) bool {
			return e.merges(func(x *Event) bool {
				if !isSet(x) {
					return false
				}
				r := recordOf(x)
				return r != nil && want(r)
			})
		}) {
			if p.maySucceed() && !eqi(p.facts(), p.Results[0], a.n) {
				out = append(out, p)
			}
		}
	}
	return out
}

// treeHeadJSON: the MapTreeHashResponse whose object hash is leaf input li.
func treeHeadJSON(li *Term) *Term { return jsonMarshalled(decodedJSON(hashedObject(li))) }

// treeHeadOf finds the tree head entry that the partition appends, or finds
// appended already: its leaf hash and message.
func (c *Check) treeHeadOf(a *applyInfo, st *storageTable, p *Path) (h, msg *Term, dup bool) {
	f := p.facts()
	for _, e := range p.St.events {
		if isSet(e) {
			r := recordOf(e)
			if r != nil && r.msg == "pb.LeafNode" && r.bucket == st.bucket(ltTreehead, r.msg) {
				h = SF(e.Snap[3], "Mth")
				dup = false
			}
		}
		if isGet(e) && h == nil {
			r := recordOf(e)
			if r != nil && r.msg == "pb.EntryIndex" && r.bucket == st.bucket(ltTreehead, r.msg) && len(r.rest) == 1 && succeeded(f, e) && lt(f, SF(e.Outs[3], "Index"), a.n) {
				h, dup = r.rest[0], true
			}
		}
	}
	if h == nil {
		return nil, nil, false
	}
	// h = sha256(0 || objecthash(json(msg)))
	if h.Op == OApp && h.Aux == "sha256" {
		x := h.Args[0]
		if x.Op == OConcat && len(x.Args) == 2 {
			msg = treeHeadJSON(x.Args[1])
		}
	}
	return h, msg, dup
}

func checkC11(c *Check) {
	st := c.storage()
	as := c.applications()
	if len(as) < 3 {
		return
	}
	a := as[ltMutation]
	name := "ApplyMutation"
	var db *Term
	for _, p := range a.fn.Params {
		if isNamedType(p.Type(), "verifiable.KeyWriter") {
			db = ParamSym(p)
		}
	}
	if db == nil {
		c.anchorFail("the key writer parameter of ApplyMutation")
		return
	}
	for _, x := range as {
		setsOf(x.e, func(p *Path, e *Event) {
			c.must(e.Snap[0] == db, "same-namespace", name, e.Pos, "the application writes to %s, not to the key writer it was given", brief(e.Snap[0]))
		})
	}
	// the log parts
	heads := 0
	for _, p := range c.growing(a, func(r *record) bool { return r.msg == "pb.LeafNode" }) {
		f := p.facts()
		why := c.stepsSucceeded(p)
		c.must(why == "", "no-failed-step", name, p.Pos, "the application to a mutation log can succeed although %s", why)
		h, msg, dup := c.treeHeadOf(a, st, p)
		if !c.must(h != nil && msg != nil, "tree-head-entry", name, p.Pos, "a mutation can be applied without an entry in the tree head log (%s)", brief(h)) {
			continue
		}
		heads++
		ml := MF(msg, "MutationLog")
		c.must(eqv(f, MF(ml, "TreeSize"), AddC(a.n, 1)), "mutation-log-size", name, p.Pos, "the tree head entry gives the mutation log size %s, not n+1", brief(MF(ml, "TreeSize")))
		var root *Term
		for _, e := range p.St.events {
			if isSet(e) {
				r := recordOf(e)
				if r != nil && r.msg == "pb.LogTreeHash" && r.bucket == st.bucket(ltMutation, r.msg) {
					root = SF(e.Snap[3], "Mth")
				}
			}
		}
		c.must(root != nil && eqv(f, MF(ml, "RootHash"), root), "mutation-log-root", name, p.Pos, "the tree head entry gives the mutation log root %s, but %s is recorded", brief(MF(ml, "RootHash")), brief(root))
		if dup {
			continue // assumed impossible: the entry carries the size n+1
		}
		for _, m := range []string{"pb.LeafData", "pb.LeafNode", "pb.EntryIndex", "pb.LogTreeHash"} {
			why := "it is not written"
			for _, e := range p.St.events {
				if !isSet(e) {
					continue
				}
				r := recordOf(e)
				if r == nil || r.msg != m || r.bucket != st.bucket(ltTreehead, m) {
					continue
				}
				x, _ := be64s(r.rest, 1)
				w := ""
				switch m {
				case "pb.LeafData":
					if len(r.rest) != 1 || r.rest[0] != h {
						w = "it is written under " + brief(e.Snap[2])
					} else if jm := jsonMarshalled(MF(e.Snap[3], "ExtraData")); jm != msg {
						w = "its data is " + brief(MF(e.Snap[3], "ExtraData"))
					}
				case "pb.LeafNode":
					if len(x) != 1 || !eqi(f, x[0], a.n) {
						w = "it is written under " + brief(e.Snap[2])
					}
				case "pb.EntryIndex":
					if len(r.rest) != 1 || r.rest[0] != h || !eqv(f, SF(e.Snap[3], "Index"), a.n) {
						w = "it is " + brief(e.Snap[3]) + " under " + brief(e.Snap[2])
					}
				case "pb.LogTreeHash":
					if len(x) != 1 || !eqi(f, x[0], AddC(a.n, 1)) {
						w = "it is written under " + brief(e.Snap[2])
					}
				}
				if why = w; w == "" {
					break
				}
			}
			c.must(why == "", "tree-head-record", name+" "+m, p.Pos, "the tree head log's %s for the new head is wrong: %s", m, why)
		}
	}
	c.counts["log partitions"] = heads
	c.min("log partitions", 2)
	// the map part
	for _, p := range c.growing(a, func(r *record) bool { return r.msg == "pb.MapNode" }) {
		_, msg, _ := c.treeHeadOf(a, st, p)
		if msg == nil {
			// the entry is among what is still joined: find the message encoded
			for _, e := range p.St.events {
				if e.Kind == ECall && strings.HasSuffix(e.Callee, "json.Marshal") && len(e.Snap) > 0 && MF(e.Snap[0], "MutationLog") != nil {
					msg = unwrap(e.Snap[0])
				}
			}
		}
		d := mutationOf(p, a)
		if !c.must(msg != nil && d != nil, "map-part", name, p.Pos, "a mutation log can grow without the decoded mutation being applied to the map") {
			continue
		}
		c.count("map partitions")
		kp := keyPathTerm(d)
		why := c.rootHashOf(p, MF(msg, "RootHash"), AddC(a.n, 1), kp)
		c.must(why == "", "map-root", name, p.Pos, "the map root hash in the tree head entry is not that of the map root written for n+1: %s", why)
	}
	c.min("map partitions", 4)
	c.assumption("tree head entries of different sizes differ, so the duplicate check of the tree head log never applies to a new head")
}

// mutationOf is the mutation decoded from the entry's extra data.
func mutationOf(p *Path, a *applyInfo) *Term {
	ed := SF(a.val, "ExtraData")
	var d *Term
	for _, l := range p.facts().lits {
		l.A.Any(func(t *Term) bool {
			if t.Op == OField && t.Aux == "Action" {
				x := t.Args[0]
				for x.Op == ODeref {
					x = x.Args[0]
				}
				if x.Op == OApp && strings.HasPrefix(x.Aux, "unjson:") && len(x.Args) == 1 && x.Args[0] == ed {
					d = t.Args[0]
				}
			}
			return d != nil
		})
		if d != nil {
			return d
		}
	}
	return nil
}

// keyPathTerm is the bit path of a mutation's key.
func keyPathTerm(d *Term) *Term {
	return Concat(Str("\x00"), Sha256(SF(d, "Key")))
}

// keyBit: bit d of the key path is known: 1, 0, or -1.
func keyBit(f *Facts, kp, d *Term) int {
	for _, b := range keyBits(kp, d) {
		if f.Implies(litEQ0(b)) {
			return 0
		}
		if f.Implies(litEQ0(b).Not()) {
			return 1
		}
	}
	return -1
}

// keyBits: bit d of the key path, taken from the hash or from the path as a whole.
func keyBits(kp, d *Term) []*Term {
	bit := func(x *Term) *Term { return And(Shr(x, Sub(Int(7), And(d, Int(7)))), tOne) }
	whole := bit(mk(OElem, "", 0, nil, []*Term{kp, AddC(Shr(d, Int(3)), 1)}, nil))
	if kp.Op == OConcat && len(kp.Args) == 2 {
		return []*Term{bit(ElemOf(kp.Args[1], Shr(d, Int(3)), nil)), whole}
	}
	return []*Term{bit(ElemOf(kp, Shr(d, Int(3)), nil)), whole}
}

func knownAction(f *Facts, act *Term) string {
	for _, s := range []string{"set", "delete", "update"} {
		if f.Implies(litEQ(act, Str(s))) {
			return s
		}
	}
	return ""
}

// rootRead: node is the root of the map at size n on this path.
func (c *Check) rootRead(p *Path, f *Facts, node, n *Term) bool {
	node = nodeOf(node)
	if node == nil {
		return false
	}
	if node.Op == OStruct || node.Op == OZero {
		for _, x := range []string{"LeftNumber", "RightNumber", "LeftHash", "RightHash", "LeafHash", "Path"} {
			if v := SF(node, x); v == nil || !isZeroConst(v) {
				return false
			}
		}
		return f.Implies(litEQ0(n))
	}
	for _, e := range p.St.events {
		if !isGet(e) || e.Outs[3] == nil || nodeOf(e.Outs[3]) != node {
			continue
		}
		r := recordOf(e)
		if r == nil || r.msg != "pb.MapNode" || len(r.rest) != 1 {
			return false
		}
		x, ok := be64s(r.rest, 1)
		return ok && eqi(f, x[0], n) && succeeded(f, e)
	}
	return false
}

// descent: "" if head is the node reached from root n along the key's path.
func (c *Check) descent(p *Path, head, n, kp *Term) string {
	f := p.facts()
	head = nodeOf(head)
	v, _ := head.Obj.(*PhiInfo)
	if v == nil || v.Inst == nil || v.Sym != head {
		return "it is " + brief(head)
	}
	l := v.Inst
	ex := c.w.explorer()
	vi := -1
	for i, x := range l.Vars {
		if x == v {
			vi = i
		}
	}
	if vi < 0 {
		return "it is " + brief(head)
	}
	if init := ex.Snap(p.St, v.Init, v.Typ); !c.rootRead(p, f, init, n) {
		return "the descent starts at " + brief(init)
	}
	for _, it := range l.Iters {
		g := it.facts()
		nx := nodeOf(ex.Snap(it.St, it.Nexts[vi], v.Typ))
		var src *Event
		for _, e := range iterEvents(l, it) {
			if isGet(e) && e.Outs[3] != nil && nodeOf(e.Outs[3]) == nx {
				src = e
			}
		}
		if src == nil {
			return "the descent continues at " + brief(nx)
		}
		r := recordOf(src)
		if r == nil || r.msg != "pb.MapNode" || len(r.rest) != 2 || !succeeded(g, src) {
			return "the descent continues at " + brief(src.Snap[2])
		}
		x, ok := be64s(r.rest[:1], 1)
		side := map[int]string{0: "LeftNumber", 1: "RightNumber"}[keyBit(g, kp, l.N)]
		if !ok || side == "" || !eqi(g, x[0], SF(head, side)) {
			return "the descent follows " + brief(r.rest[0])
		}
		pt := r.rest[1]
		if pt.Op != OApp || pt.Aux != fPathSlice || pt.Args[0] != kp || pt.Args[1] != tZeroI || !eqi(g, pt.Args[2], AddC(l.N, 1)) {
			return "the descent reads the node at path " + brief(pt)
		}
	}
	side := map[int]string{0: "LeftNumber", 1: "RightNumber"}[keyBit(f, kp, l.N)]
	if side == "" || !f.Implies(litEQ0(SF(head, side))) {
		return "the descent may stop although the node has a child on the key's side"
	}
	return ""
}

var emptyLeafHash = leafHashTerm(tEmpty)

func checkC12(c *Check) {
	as := c.applications()
	if len(as) < 3 {
		return
	}
	c.mapNodeHash()
	st := c.storage()
	a := as[ltMutation]
	name := "ApplyMutation"
	seen := map[string]int{}
	for _, p := range c.growing(a, func(r *record) bool { return r.msg == "pb.MapNode" }) {
		f := p.facts()
		d := mutationOf(p, a)
		if !c.must(d != nil, "known-action", name, p.Pos, "a mutation can be applied without its action having been examined") {
			continue
		}
		act := knownAction(f, SF(d, "Action"))
		if !c.must(act != "", "known-action", name, p.Pos, "a mutation with an action other than set, delete and update can be applied") {
			continue
		}
		c.count("partitions")
		kp := keyPathTerm(d)
		// the node found for the key
		var head *Term
		match := false
		for _, l := range f.lits {
			if l.A.Op != OEQ {
				continue
			}
			for i := 0; i < 2; i++ {
				if x := l.A.Args[1-i]; l.A.Args[i] == kp && x.Op == OField && x.Aux == "Path" {
					if _, ok := nodeOf(x.Args[0]).Obj.(*PhiInfo); ok || head == nil {
						head, match = x.Args[0], !l.Neg
					}
				}
			}
		}
		if !c.must(head != nil, "key-compared", name+" "+act, p.Pos, "%s is applied without comparing the key's path with a node's", act) {
			continue
		}
		why := c.descent(p, head, a.n, kp)
		c.must(why == "", "descends-to-key", name+" "+act, p.Pos, "the node compared with the key is not the one that root n leads to along the key's bits: %s", why)
		prev := emptyLeafHash
		if match {
			prev = SF(head, "LeafHash")
		}
		value := MF(d, "Value")
		given := leafHashTerm(MF(value, "LeafInput"))
		if isNilVal(f, value) {
			given = emptyLeafHash
		}
		next := prev
		pl := SF(d, "PreviousLeafHash")
		switch act {
		case "set":
			next = given
		case "delete":
			next = emptyLeafHash
		case "update":
			switch {
			case eqv(f, prev, pl):
				next = given
			case f.Implies(litEQ(prev, pl).Not()):
			default:
				c.fail("update-compares", name, p.Pos, "update is applied without comparing the previous leaf hash with the key's current one")
				continue
			}
		}
		var mine, others []*mapWrite
		var rootW *mapWrite
		data := false
		var dataWhy string
		loopWrites := false
		for _, e := range p.St.events {
			if w := mapWriteOf(f, e, kp); w != nil {
				switch {
				case SF(w.node, "Path") == kp && w.node.Op == OStruct:
					mine = append(mine, w)
				default:
					others = append(others, w)
					if w.depth == tZeroI {
						rootW = w
					}
				}
			}
			if isSet(e) {
				if r := recordOf(e); r != nil && r.msg == "pb.LeafData" && e.Seq > headSeq(p, head) && r.bucket == st.bucket(ltMutation, r.msg) && len(r.rest) == 1 {
					if eqv(f, r.rest[0], next) || canon(r.rest[0]) == canon(next) {
						data = true
						dataWhy = msgEq(f, e.Snap[3], value, c.typeNamed("pb", "LeafData"))
					}
				}
			}
			if e.Kind == ELoop && e.Loop != nil {
				for _, it := range e.Loop.Iters {
					for _, x := range iterEvents(e.Loop, it) {
						loopWrites = loopWrites || mapWriteOf(f, x, kp) != nil
					}
				}
			}
		}
		if len(mine) == 0 {
			seen[act+" unchanged"]++
			c.must(eqv(f, prev, next) || canon(prev) == canon(next), "writes-when-changed", name+" "+act, p.Pos, "%s can leave the key as it is although the leaf hash it asks for is not known to be the current one", act)
			ok := len(others) == 1 && !loopWrites && rootW != nil && eqi(f, rootW.n, AddC(a.n, 1)) && c.rootRead(p, f, rootW.node, a.n)
			c.must(ok, "unchanged-keeps-root", name+" "+act, p.Pos, "a %s that changes nothing does not just record root n as root n+1", act)
			continue
		}
		seen[act+" changed"]++
		c.must(f.Implies(litEQ(prev, next).Not()), "keeps-when-unchanged", name+" "+act, p.Pos, "%s can rewrite the key's nodes although the leaf hash may be unchanged", act)
		if !c.must(len(mine) == 1, "one-leaf", name+" "+act, p.Pos, "%s writes %d leaves for the key", act, len(mine)) {
			continue
		}
		leaf := mine[0]
		lh := SF(leaf.node, "LeafHash")
		c.must(eqv(f, lh, next) || canon(lh) == canon(next), "leaf-hash", name+" "+act, leaf.e.Pos, "%s records the leaf hash %s for the key, not %s", act, brief(lh), brief(next))
		c.must(eqi(f, leaf.n, AddC(a.n, 1)) && leaf.depth != nil, "leaf-place", name+" "+act, leaf.e.Pos, "%s writes the key's leaf under %s", act, brief(leaf.e.Snap[2]))
		if !eqv(f, next, emptyLeafHash) {
			c.must(data && dataWhy == "", "value-stored", name+" "+act, p.Pos, "%s does not store its value under the leaf hash recorded (%s)", act, dataWhy)
		}
		why = c.ancestorsKept(p, a, kp, head, leaf)
		c.must(why == "", "other-keys-kept", name+" "+act, p.Pos, "%s does not keep the rest of the map: %s", act, why)
	}
	for _, s := range []string{"set", "delete", "update"} {
		c.must(seen[s+" changed"] > 0, "can-change", s, a.fn.Pos(), "%s never changes anything", s)
		c.must(seen[s+" unchanged"] > 0, "can-keep", s, a.fn.Pos(), "%s never leaves the root unchanged", s)
	}
	c.min("partitions", 10)
	// rejected before it is queued
	for _, o := range c.serviceOps() {
		if !o.IsMap {
			continue
		}
		for _, p := range o.e.paths {
			for _, e := range p.St.events {
				if !isQueue(e) {
					continue
				}
				c.count("queue sites")
				act := SF(SF(o.Req, "Mutation"), "Action")
				c.must(knownAction(p.at(e), act) != "", "rejected-before-queueing", o.Name, e.Pos, "%s queues a mutation whose action is not known to be set, delete or update", o.Name)
			}
		}
	}
	c.min("queue sites", 1)
	c.assumption("an absent value is the empty value")
}

// headSeq orders the storage writes of the map after the loop that found head.
func headSeq(p *Path, head *Term) int {
	if v, ok := nodeOf(head).Obj.(*PhiInfo); ok && v.Inst != nil {
		for _, e := range p.St.events {
			if e.Kind == ELoop && e.Loop == v.Inst {
				return e.Seq
			}
		}
	}
	return -1
}

// ancestorsKept: the nodes written above (and beside) the leaf keep what the map
// had besides the key.
func (c *Check) ancestorsKept(p *Path, a *applyInfo, kp, head *Term, leaf *mapWrite) string {
	f := p.facts()
	n1 := AddC(a.n, 1)
	var loop *LoopInst
	for _, e := range p.St.events {
		if e.Kind != ELoop || e.Loop == nil {
			continue
		}
		for _, it := range e.Loop.Iters {
			for _, x := range iterEvents(e.Loop, it) {
				if mapWriteOf(f, x, kp) != nil {
					loop = e.Loop
				}
			}
		}
	}
	if loop == nil {
		return "no ancestors are written"
	}
	if !eqi(f, loop.N, leaf.depth) {
		return "not every ancestor is written"
	}
	var seq *Term
	for _, it := range loop.Iters {
		g := it.facts()
		d := AddC(Sub(leaf.depth, loop.N), -1)
		var ws []*mapWrite
		for _, x := range iterEvents(loop, it) {
			if w := mapWriteOf(g, x, kp); w != nil {
				ws = append(ws, w)
			}
		}
		if len(ws) != 1 || ws[0].depth == nil || !eqi(g, ws[0].depth, d) || !eqi(g, ws[0].n, n1) {
			return "an iteration does not write the ancestor at its depth"
		}
		nd := ws[0].node
		mine, other := "", ""
		switch keyBit(g, kp, d) {
		case 0:
			mine, other = "Left", "Right"
		case 1:
			mine, other = "Right", "Left"
		default:
			return "an ancestor is written without regard to the key's bit"
		}
		if !eqi(g, SF(nd, mine+"Number"), n1) {
			return "an ancestor's child on the key's side is number " + brief(SF(nd, mine+"Number"))
		}
		mh, _ := SF(nd, mine+"Hash").Obj.(*PhiInfo)
		if mh == nil || mh.Inst != loop {
			return "an ancestor's hash on the key's side is " + brief(SF(nd, mine+"Hash"))
		}
		for _, x := range []string{"Number", "Hash"} {
			v := SF(nd, other+x)
			if v == nil || v.Op != OField || v.Aux != other+x {
				return "an ancestor's other child is " + brief(v)
			}
			el := nodeOf(v.Args[0])
			if el.Op != OElem || !eqi(g, el.Args[1], d) {
				return "an ancestor's other child is that of " + brief(el)
			}
			if seq != nil && seq != el.Args[0] {
				return "ancestors are taken from different sequences"
			}
			seq = el.Args[0]
		}
		for _, x := range []string{"LeafHash", "Path"} {
			if v := SF(nd, x); v == nil || !isZeroConst(v) {
				return "an ancestor has a " + x
			}
		}
	}
	if seq == nil || !eqi(f, LenOf(seq), leaf.depth) {
		return "the ancestors used are " + brief(seq) + ", not one per level above the leaf"
	}
	kept := ""
	if w := c.ancestorSeq(p, seq, a, kp, head, 0, &kept); w != "" {
		return w
	}
	// what becomes of the node that was there
	lh := SF(head, "LeafHash")
	noLeaf := f.Implies(litEQ0(LenOf(lh))) || f.Implies(litNil(lh)) || eqv(f, lh, emptyLeafHash) || eqv(f, lh, tEmpty)
	leafThere := f.Implies(litEQ0(LenOf(lh)).Not()) || f.Implies(litLE0(AddC(Scale(LenOf(lh), -1), 1)))
	// only leaves have a path
	hp := SF(head, "Path")
	noLeaf = noLeaf || f.Implies(litEQ0(LenOf(hp))) || f.Implies(litNil(hp)) || eqv(f, hp, tEmpty)
	leafThere = leafThere || f.Implies(litEQ0(LenOf(hp)).Not())
	match := f.Implies(litEQ(hp, kp))
	switch kept {
	case "above":
		if !noLeaf {
			return "the node that was there is put above the key although it may be a leaf"
		}
	case "beside":
		if !leafThere {
			return "the node that was there is moved beside the key although it may have children"
		}
	default:
		if !match && !(noLeaf && f.Implies(litEQ0(SF(head, "LeftNumber"))) && f.Implies(litEQ0(SF(head, "RightNumber")))) {
			return "the node that was there is replaced although it may hold other keys"
		}
	}
	return ""
}

// bitsAgree: bit d of the key and of a stored node's path are known to be equal
// (1), different (-1) or neither (0).
func bitsAgree(f *Facts, kp, path, d *Term) int {
	if x, y := keyBit(f, kp, d), pathBit(f, path, d); x >= 0 && y >= 0 {
		if x == y {
			return 1
		}
		return -1
	}
	if kp.Op != OConcat || len(kp.Args) != 2 {
		return 0
	}
	as := map[*Term]bool{}
	for _, x := range keyBits(kp, d) {
		as[litEQ0(x).A] = true
	}
	b := litEQ0(And(Shr(ElemOf(path, AddC(Shr(d, Int(3)), 1), nil), Sub(Int(7), And(d, Int(7)))), tOne)).A
	for _, l := range f.lits {
		if l.A.Op != OApp || l.A.Aux != "iff" || len(l.A.Args) != 2 {
			continue
		}
		neg := l.Neg
		var xs [2]*Term
		for i := range xs {
			k := asLit(l.A.Args[i])
			xs[i] = k.A
			neg = neg != k.Neg
		}
		if as[xs[0]] && xs[1] == b || xs[0] == b && as[xs[1]] {
			if neg {
				return -1
			}
			return 1
		}
	}
	return 0
}

// pathBit: bit d of a stored node's path is known: 1, 0, or -1.
func pathBit(f *Facts, path, d *Term) int {
	b := And(Shr(ElemOf(path, AddC(Shr(d, Int(3)), 1), nil), Sub(Int(7), And(d, Int(7)))), tOne)
	if f.Implies(litEQ0(b)) {
		return 0
	}
	if f.Implies(litEQ0(b).Not()) {
		return 1
	}
	return -1
}

// ancestorSeq: seq holds, level by level, the nodes passed on the way to head,
// then empty nodes or the node that joins the key's leaf with what was there.
func (c *Check) ancestorSeq(p *Path, seq *Term, a *applyInfo, kp, head *Term, d int, kept *string) string {
	f := p.facts()
	ex := c.w.explorer()
	hv, _ := nodeOf(head).Obj.(*PhiInfo)
	if d > 4 || seq == nil {
		return "unknown sequence of ancestors"
	}
	empty := func(st *State, x *Term) bool {
		s := nodeOf(ex.Snap(st, x, hv.Typ))
		for _, n := range []string{"LeftNumber", "RightNumber", "LeftHash", "RightHash", "LeafHash", "Path"} {
			if v := SF(s, n); v == nil || !isZeroConst(v) {
				return false
			}
		}
		return true
	}
	switch {
	case seq.IsNil() || seq.Op == OZero || seq.Op == OList && len(seq.Args) == 0 || seq.Op == OSliceV && seq.Args[2] == tZeroI:
		return ""
	case seq.Op == OAppend && seq.Args[1].Op == OList && len(seq.Args[1].Args) == 1:
		x := seq.Args[1].Args[0]
		lvl := LenOf(seq.Args[0])
		if w := c.ancestorSeq(p, seq.Args[0], a, kp, head, d+1, kept); w != "" {
			return w
		}
		if nodeOf(x) == nodeOf(head) {
			*kept = "above"
			return ""
		}
		if empty(p.St, x) {
			return ""
		}
		s := nodeOf(ex.Snap(p.St, x, hv.Typ))
		// what was there moves one level down, to the other side
		side, bit := "", ""
		switch keyBit(f, kp, lvl) {
		case 0:
			side, bit = "Right", "\x01\x80"
		case 1:
			side, bit = "Left", "\x01\x00"
		default:
			return "the fork is made without regard to the key's bit"
		}
		if !eqi(f, SF(s, side+"Number"), AddC(a.n, 1)) {
			return "the node moved beside the key is given number " + brief(SF(s, side+"Number")) + " on the " + side
		}
		h := SF(s, side+"Hash")
		if h == nil || h.Op != OApp || h.Aux != fNodeHash || nodeOf(h.Args[0]) != nodeOf(head) || !eqi(f, h.Args[1], AddC(lvl, 1)) {
			return "the node moved beside the key is given the hash " + brief(h)
		}
		for _, e := range p.St.events {
			w := mapWriteOf(f, e, kp)
			if w == nil || w.path == nil || w.path.Op != OApp || w.path.Aux != fPathJoin || nodeOf(w.node) != nodeOf(head) {
				continue
			}
			pre := w.path.Args[0]
			okPre := pre.Op == OApp && pre.Aux == fPathSlice && pre.Args[0] == kp && pre.Args[1] == tZeroI && eqi(f, pre.Args[2], lvl) ||
				(pre == tEmpty || isZeroConst(pre)) && f.Implies(litEQ0(lvl))
			if bitsAgree(f, kp, SF(head, "Path"), lvl) != -1 {
				return "the fork is made where the paths are not known to part"
			}
			if okPre && w.path.Args[1] == Str(bit) && eqi(f, w.n, AddC(a.n, 1)) {
				*kept = "beside"
				return ""
			}
			return "the node moved beside the key is written under " + brief(e.Snap[2])
		}
		return "the node that was there is not written beside the key"
	case seq.Op == OSym:
		v, _ := seq.Obj.(*PhiInfo)
		if v == nil || v.Inst == nil || v.Sym != seq {
			return "unknown sequence of ancestors " + brief(seq)
		}
		if w := c.ancestorSeq(p, v.Init, a, kp, head, d+1, kept); w != "" {
			return w
		}
		vi := -1
		for i, x := range v.Inst.Vars {
			if x == v {
				vi = i
			}
		}
		for _, it := range v.Inst.Iters {
			if vi < 0 || vi >= len(it.Nexts) {
				return "unknown sequence of ancestors"
			}
			nx := it.Nexts[vi]
			if nx.Op != OAppend || nx.Args[0] != seq || nx.Args[1].Op != OList || len(nx.Args[1].Args) != 1 {
				return "the ancestors become " + brief(nx)
			}
			x := nx.Args[1].Args[0]
			if v.Inst == hv.Inst && nodeOf(x) == nodeOf(head) {
				continue
			}
			if empty(it.St, x) {
				g, lvl := it.facts(), LenOf(seq)
				if bitsAgree(g, kp, SF(head, "Path"), lvl) != 1 {
					return "a level is added where the paths are not known to agree"
				}
				continue
			}
			return "an ancestor is " + brief(x)
		}
		return ""
	}
	return "unknown sequence of ancestors " + brief(seq)
}
