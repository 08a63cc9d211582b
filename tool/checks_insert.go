package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", checkC05, "effect analysis over the SSA form of ApplyMutation: every storage write of every partition is classified by record kind and key",
		"For each log type, every Set reached by ApplyMutation (inside joined calls and loop iterations too) stores a message, never nil, and is a leaf node at index n, a tree node ending at n+1, a tree hash for n+1, an entry index of value n written after looking up that very hash and finding it absent or at an index >= n, a map node numbered n+1, or leaf data whose key is the leaf hash of the stored message's own leaf input (n = size before).")
	register("C06", checkC06, "path-sensitive dataflow over the SSA form of ApplyMutation, joined calls expanded, with loop summaries",
		"Every partition of ApplyMutation that can succeed either found the entry's leaf hash at an index below n, wrote nothing and returns n; or found it absent or at an index >= n, returns n+1 and has written, all Sets known successful and all Gets successful, the unmodified value under its leaf hash, the leaf node n, the index record n, one tree node (n+1-2^(i+1), n+1) for every low one bit i of n, and the tree hash for n+1.")
}

// applyInfo is the application of a mutation to a log of one type.
type applyInfo struct {
	fn       *ssa.Function
	k        int
	n, mut   *Term
	req      *Term // the LogAddEntry message
	val, log *Term
	e        *exploration
}

func (c *Check) applications() []*applyInfo {
	fn := c.fn("verifiable", "ApplyMutation")
	if fn == nil {
		return nil
	}
	var n, mut *Term
	for _, p := range fn.Params {
		switch {
		case isNamedType(p.Type(), "pb.Mutation"):
			mut = ParamSym(p)
		case isIntType(p.Type()):
			n = ParamSym(p)
		}
	}
	if n == nil || mut == nil {
		c.anchorFail("the size and mutation parameters of ApplyMutation")
		return nil
	}
	req := SF(mut, "LogAddEntry")
	var out []*applyInfo
	for k := 0; k < 3; k++ {
		a := &applyInfo{fn: fn, k: k, n: n, mut: mut, req: req, val: SF(req, "Value"), log: SF(req, "Log")}
		a.e = c.exploreWith(fn, func(ex *Explorer) { ex.joinAbove = joinDefault }, litNil(req).Not(), litEQ0(AddC(SF(a.log, "LogType"), -int64(k))), litLE(tZeroI, n))
		out = append(out, a)
	}
	return out
}

var logTypeNames = [3]string{"user log", "mutation log", "tree head log"}

// setsOf calls f for every storage write of the exploration, once.
func setsOf(e *exploration, f func(p *Path, ev *Event)) {
	done := map[*Event]bool{}
	for _, p := range e.paths {
		for _, ev := range p.St.events {
			if isSet(ev) && !done[ev.orig()] {
				done[ev.orig()] = true
				f(p, ev)
			}
		}
	}
}

func checkC05(c *Check) {
	st := c.storage()
	for _, a := range c.applications() {
		setsOf(a.e, func(p *Path, ev *Event) {
			c.count("storage writes")
			f := p.at(ev)
			name := logTypeNames[a.k]
			val := ev.Snap[3]
			if !c.must(!val.IsNil() && !(ev.Args[3].IsNil()), "no-deletion", "ApplyMutation "+name, ev.Pos, "the application of a mutation deletes the record %s", brief(ev.Snap[2])) {
				return
			}
			r := recordOf(ev)
			if r == nil {
				c.fail("known-record", "ApplyMutation "+name, ev.Pos, "the application of a mutation writes under the key %s", brief(ev.Snap[2]))
				return
			}
			why := c.appendOnly(a, st, p, f, ev, r)
			c.must(why == "", "append-only", "ApplyMutation "+name+" "+r.msg, ev.Pos, "applying a mutation to a %s of size n writes a %s that may belong to published history: %s", name, r.msg, why)
		})
	}
	c.min("storage writes", 20)
	c.assumption("object sizes are never negative; distinct leaf inputs have distinct leaf hashes")
}

// appendOnly: "" if the record written is no part of the history up to size n.
func (c *Check) appendOnly(a *applyInfo, st *storageTable, p *Path, f *Facts, ev *Event, r *record) string {
	logKind := -1
	for k := 0; k < 3; k++ {
		if st.bucket(k, r.msg) == r.bucket {
			logKind = k
		}
	}
	if r.msg != "pb.MapNode" {
		if logKind < 0 {
			return "the bucket " + r.bucket + " is not one for such records"
		}
		if logKind != a.k && (a.k != ltMutation || logKind == ltLog) {
			return "the bucket " + r.bucket + " is that of a " + logTypeNames[logKind]
		}
	}
	v := ev.Snap[3]
	switch r.msg {
	case "pb.LeafNode":
		x, ok := be64s(r.rest, 1)
		if !ok || !eqi(f, x[0], a.n) {
			return "its index is " + brief(ev.Snap[2]) + ", not n"
		}
	case "pb.TreeNode":
		x, ok := be64s(r.rest, 2)
		if !ok || !eqi(f, x[1], AddC(a.n, 1)) {
			return "its range " + brief(ev.Snap[2]) + " does not end at n+1"
		}
	case "pb.LogTreeHash":
		x, ok := be64s(r.rest, 1)
		if !ok || !eqi(f, x[0], AddC(a.n, 1)) {
			return "its size is " + brief(ev.Snap[2]) + ", not n+1"
		}
	case "pb.EntryIndex":
		if i := SF(v, "Index"); i == nil || !eqi(f, i, a.n) {
			return "the index recorded is " + brief(SF(v, "Index")) + ", not n"
		}
		for _, g := range p.St.events {
			if g == ev {
				break
			}
			if !isGet(g) || g.Snap[2] != ev.Snap[2] || msgType(g, 3) != r.msg {
				continue
			}
			if isNoSuchKey(f, errOf(g)) || succeeded(f, g) && le(f, a.n, SF(g.Outs[3], "Index")) {
				return ""
			}
		}
		return "the hash is not known to be unrecorded, or recorded at or beyond n"
	case "pb.MapNode":
		if len(r.rest) == 0 {
			return "its key " + brief(ev.Snap[2]) + " has no number"
		}
		x, ok := be64s(r.rest[:1], 1)
		if !ok || !eqi(f, x[0], AddC(a.n, 1)) {
			return "its number in " + brief(ev.Snap[2]) + " is not n+1"
		}
	case "pb.LeafData":
		li := MF(v, "LeafInput")
		if len(r.rest) != 1 || li == nil {
			return "its key is " + brief(ev.Snap[2])
		}
		want := leafHashTerm(li)
		if canon(r.rest[0]) != canon(want) && !eqv(f, r.rest[0], want) && !(isNilVal(f, unwrap(v)) && eqv(f, r.rest[0], leafHashTerm(tEmpty))) {
			return "its key " + brief(r.rest[0]) + " is not the leaf hash of its leaf input " + brief(li)
		}
	default:
		return "no such record is part of a log or map"
	}
	return ""
}

// bitSet / bitClear: bit i of n is known to be one (zero).
func bitKnown(f *Facts, n, i *Term, one bool) bool {
	w := Shl(tOne, i)
	w2 := Shl(tOne, AddC(i, 1))
	b := And(Shr(n, i), tOne)
	zero := []Lit{litEQ0(b), litEQ0(And(n, w)), litEQ0(AddC(Mod(AddC(n, 1), w2), 0)).Not(), litEQ0(And(AddC(n, 1), AddC(w2, -1))).Not(), litEQ0(Mod(Shr(n, i), Int(2))), litEQ0(Mod(Div(n, w), Int(2)))}
	for _, l := range zero {
		if !one && f.Implies(l) || one && f.Implies(l.Not()) {
			return true
		}
	}
	return one && (f.Implies(litEQ0(AddC(b, -1))) || f.Implies(litEQ0(Sub(And(n, w), w)))) ||
		!one && f.Implies(litEQ0(AddC(b, -1)).Not())
}

func checkC06(c *Check) {
	st := c.storage()
	for _, a := range c.applications() {
		grow, dup := 0, 0
		name := "ApplyMutation " + logTypeNames[a.k]
		for _, p0 := range a.e.paths {
			if p0.End != "return" || !p0.maySucceed() {
				continue
			}
			for _, p := range p0.expandIf(func(e *Event) bool {
				return e.merges(func(x *Event) bool {
					r := (*record)(nil)
					if isSet(x) {
						r = recordOf(x)
					}
					return r != nil && r.msg == "pb.LeafNode" && r.bucket == st.bucket(a.k, r.msg)
				})
			}) {
				if !p.maySucceed() {
					continue
				}
				f := p.facts()
				r := p.Results[0]
				h := leafHashTerm(MF(a.val, "LeafInput"))
				key := func(x *Term) bool { return canon(x) == canon(h) || eqv(f, x, h) }
				// is it there already?
				var present, absent bool
				var nsets int
				for _, e := range p.St.events {
					if isSet(e) {
						nsets++
					}
					rc := (*record)(nil)
					if isGet(e) {
						rc = recordOf(e)
					}
					if rc == nil || rc.msg != "pb.EntryIndex" || rc.bucket != st.bucket(a.k, rc.msg) || len(rc.rest) != 1 || !key(rc.rest[0]) {
						continue
					}
					if isNoSuchKey(f, errOf(e)) || succeeded(f, e) && le(f, a.n, SF(e.Outs[3], "Index")) {
						absent = true
					}
					if succeeded(f, e) && lt(f, SF(e.Outs[3], "Index"), a.n) {
						present = true
					}
				}
				switch {
				case present:
					dup++
					c.must(eqi(f, r, a.n), "duplicate-same-size", name, p.Pos, "an entry that is already logged changes the size to %s", brief(r))
					c.must(nsets == 0, "duplicate-writes-nothing", name, p.Pos, "adding an entry that is already logged writes %d records", nsets)
					continue
				case !absent:
					c.fail("presence-checked", name, p.Pos, "the application can succeed (size %s) without having found the entry's leaf hash recorded below n, absent, or at or beyond n", brief(r))
					continue
				}
				grow++
				if !c.must(eqi(f, r, AddC(a.n, 1)), "grows-by-one", name, p.Pos, "the application of a new entry returns size %s, not n+1", brief(r)) {
					continue
				}
				why := c.stepsSucceeded(p)
				c.must(why == "", "no-failed-step", name, p.Pos, "the application can succeed although %s", why)
				for _, m := range []string{"pb.LeafData", "pb.LeafNode", "pb.EntryIndex", "pb.LogTreeHash"} {
					why := "no " + m + " is written"
					for _, e := range p.St.events {
						if !isSet(e) {
							continue
						}
						rc := recordOf(e)
						if rc == nil || rc.msg != m || rc.bucket != st.bucket(a.k, m) {
							continue
						}
						w := ""
						v := e.Snap[3]
						x, isNum := be64s(rc.rest, 1)
						switch m {
						case "pb.LeafData":
							if len(rc.rest) != 1 || !key(rc.rest[0]) {
								w = "it is written under " + brief(e.Snap[2])
							} else {
								w = msgEq(f, v, a.val, c.typeNamed("pb", "LeafData"))
							}
						case "pb.LeafNode":
							if !isNum || !eqi(f, x[0], a.n) {
								w = "it is written under " + brief(e.Snap[2])
							} else if g := SF(v, "Mth"); g == nil || !key(g) {
								w = "its hash is " + brief(g)
							}
						case "pb.EntryIndex":
							if len(rc.rest) != 1 || !key(rc.rest[0]) {
								w = "it is written under " + brief(e.Snap[2])
							} else if g := SF(v, "Index"); g == nil || !eqi(f, g, a.n) {
								w = "the index is " + brief(g)
							}
						case "pb.LogTreeHash":
							if !isNum || !eqi(f, x[0], AddC(a.n, 1)) {
								w = "it is written under " + brief(e.Snap[2])
							} else if g := SF(v, "Mth"); g == nil || isZeroConst(g) {
								w = "its hash is empty"
							}
						}
						why = w
						if w == "" {
							break
						}
					}
					c.must(why == "", "record-written", name+" "+m, p.Pos, "a new entry's %s is not recorded: %s", m, why)
				}
				why = c.treeNodes(a, st, p)
				c.must(why == "", "record-written", name+" pb.TreeNode", p.Pos, "the tree nodes that a new entry completes are not all recorded: %s", why)
			}
		}
		c.must(grow > 0, "can-grow", name, a.fn.Pos(), "no application of a new entry succeeds")
		c.must(dup > 0, "can-skip", name, a.fn.Pos(), "no application of a duplicate succeeds")
		c.counts["successful partitions"] += grow + dup
	}
	c.min("successful partitions", 6)
	c.assumption("object sizes are never negative")
}

// stepsSucceeded: every storage operation of the path, including those of the
// iterations of its loops, is known to have succeeded.
func (c *Check) stepsSucceeded(p *Path) string {
	why := ""
	allEvents(p, func(q *Path, e *Event) {
		if why != "" || !isSet(e) && !isGet(e) {
			return
		}
		f := q.facts()
		if succeeded(f, e) {
			return
		}
		r := recordOf(e)
		if isGet(e) && r != nil && r.msg == "pb.EntryIndex" && isNoSuchKey(f, errOf(e)) {
			return
		}
		verb := "writing"
		if isGet(e) {
			verb = "reading"
		}
		m := "a record"
		if r != nil {
			m = "a " + r.msg
		}
		why = fmt.Sprintf("%s %s (%s) may have failed", verb, m, c.pos(e.Pos))
	})
	return why
}

// treeNodes: a loop of the path writes the nodes for the trailing ones of n.
func (c *Check) treeNodes(a *applyInfo, st *storageTable, p *Path) string {
	why := "no loop writes tree nodes"
	for _, le := range p.St.events {
		if le.Kind != ELoop || le.Loop == nil {
			continue
		}
		l := le.Loop
		writes := false
		w := ""
		for _, it := range l.Iters {
			f := it.facts()
			var mine []*Event
			for _, e := range it.St.events {
				if !isSet(e) {
					continue
				}
				r := recordOf(e)
				if r == nil || r.msg != "pb.TreeNode" || r.bucket != st.bucket(a.k, r.msg) || !e.dependsOn(l) {
					continue
				}
				mine = append(mine, e)
			}
			if len(mine) == 0 {
				w = "an iteration writes none"
				continue
			}
			writes = true
			if len(mine) > 1 {
				w = "an iteration writes several"
				continue
			}
			x, ok := be64s(recordOf(mine[0]).rest, 2)
			end := AddC(a.n, 1)
			if !ok || !eqi(f, x[1], end) || !eqi(f, x[0], Sub(end, Shl(tOne, AddC(l.N, 1)))) {
				w = "an iteration writes the range " + brief(mine[0].Snap[2])
				continue
			}
			if g := SF(mine[0].Snap[3], "Mth"); g == nil || isZeroConst(g) {
				w = "a node's hash is empty"
				continue
			}
			if !bitKnown(f, a.n, l.N, true) {
				w = "a node is written although the range may be incomplete"
			}
		}
		if !writes {
			continue
		}
		if w == "" && !bitKnown(p.facts(), a.n, l.N, false) {
			w = "the loop may stop before the last completed range"
		}
		if w == "" {
			return ""
		}
		why = w
	}
	return why
}

// dependsOn: the event's key or value changes with the loop.
func (e *Event) dependsOn(l *LoopInst) bool {
	return e.Snap[2].Any(func(t *Term) bool { return t == l.N })
}
