package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", checkC07, "path-sensitive dataflow with transaction scopes over the SSA form of every mutator (the application of a mutation taken as one step) and of every backend's update",
		"Every application of a mutation starts from the size read from the same namespace (or returned by the application before it), inside the transaction; every update that can commit has recorded, through its own writer and in that namespace, the size the last application returned (or knows it unchanged), after every step of it succeeded; where applications were buffered, the same update replays the buffer. A backend whose function failed never commits and reports the failure.")
	register("C09", checkC09, "typestate of queued mutations (received, pending, applied) along the path-sensitive SSA partitions of the queue's consumer, with loop summaries; structural analysis of the buffering writer",
		"On every partition of the consumer, loop iterations included, at most one received mutation is pending; it is applied once, to the transaction of the namespace it was queued with, or carried by the loop to the next batch, and nothing else is applied; the buffer starts empty over that transaction's reader, is changed by applications only, answers reads from its own writes first, records each write once and in order; a batch that wrote is replayed completely and in order in one update of that namespace. Queueing sends exactly the namespace and mutation given; one consumer per queue.")
}

// queueElem is what an asynchronous mutator puts on its channel.
type queueElem struct {
	typ     types.Type
	ns, mut string // fields
	ch      string // the field holding the channel
}

// mutWalk follows the partitions of a function that applies mutations.
type mutWalk struct {
	c       *Check
	name    string
	fn      *ssa.Function
	e       *exploration
	q       *queueElem // nil: the mutation is a parameter
	ns, mut *Term
	bad     map[*PhiInfo]bool // variables that do not keep the current size
	quiet   bool
	changed bool
	lists   map[string]*opList
	applies int
	replays int
}

// opList: how a buffering writer keeps its writes.
type opList struct{ list, key, val string }

func (w *mutWalk) must(prop string, cond bool, rule string, ev *Event, p *Path, format string, a ...any) bool {
	if w.quiet || w.c.id != prop {
		return cond
	}
	pos := p.Pos
	if ev != nil {
		pos = ev.Pos
	}
	return w.c.must(cond, rule, w.name, pos, format, a...)
}

func (w *mutWalk) run() {
	w.bad = map[*PhiInfo]bool{}
	for w.quiet, w.changed = true, true; w.changed; {
		w.changed = false
		for _, p := range w.e.paths {
			w.walk(p)
		}
	}
	w.quiet = false
	for _, p := range w.e.paths {
		w.walk(p)
	}
}

// token: the queued element t is (part of).
func (w *mutWalk) token(t *Term) *Term {
	t = unIface(t)
	if w.q == nil {
		return t
	}
	if t.Op == OField && t.Aux == w.q.mut {
		x := t.Args[0]
		if x.Op == ODeref {
			x = x.Args[0]
		}
		return x
	}
	return nil
}

func (w *mutWalk) isElem(t types.Type) bool {
	return w.q != nil && t != nil && types.Identical(t, w.q.typ)
}

func within(f *Facts, t *Term, set []*Term) bool {
	for _, x := range set {
		if eqv(f, t, x) {
			return true
		}
	}
	return false
}

func (w *mutWalk) walk(p *Path) {
	c := w.c
	f := p.facts()
	var pending []*Term // queued elements received and not applied
	var before []*Term  // those pending outside the loop being analysed
	var cur []*Term     // values of the size so far
	var start *Term     // the size the batch started from
	var batchNs *Term
	var tx *Event // the open transaction
	var readTx *Event
	var content *Term
	var overlay *Term // the buffering writer
	applied, committed, replayed := false, false, false
	var replaying *Term // the list of writes being replayed
	var inTx []*Event
	lastApply := 0
	if w.q == nil {
		pending = []*Term{w.mut}
	}
	has := func(t *Term) bool {
		for _, x := range pending {
			if x == t {
				return true
			}
		}
		return false
	}
	drop := func(t *Term) {
		var r []*Term
		for _, x := range pending {
			if x != t {
				r = append(r, x)
			}
		}
		pending = r
	}
	tokens := func(vars []*PhiInfo, vals []*Term) (out []*Term) {
		for i, v := range vars {
			if !w.isElem(v.Typ) || i >= len(vals) || vals[i] == nil || vals[i].IsNil() || f.Implies(litNil(vals[i])) {
				continue
			}
			out = append(out, vals[i])
		}
		return out
	}
	for _, ev := range p.St.events {
		switch {
		case ev.Kind == ELoop:
			l := ev.Loop
			var init, val []*Term
			for _, v := range l.Vars {
				init, val = append(init, v.Init), append(val, v.Val)
			}
			in := tokens(l.Vars, init)
			for _, t := range in {
				if w.must("C09", has(t), "once", ev, p, "%s starts a loop with the mutation %s, which is not waiting to be applied", w.name, brief(t)) {
					drop(t)
				}
			}
			before = append([]*Term{}, pending...)
			pending = append(pending, tokens(l.Vars, val)...)
			// the size
			var nc []*Term
			for _, v := range l.Vars {
				if !w.bad[v] && within(f, v.Init, cur) {
					nc = append(nc, v.Val)
				}
			}
			if !appliesIn(l) {
				nc = append(nc, cur...)
			} else if tx != nil {
				applied, lastApply = true, ev.Seq
			} else { // over batches
				applied, committed, batchNs, start = false, false, nil, nil
			}
			cur = nc
			// the buffer
			for _, s := range l.Stores {
				if st, ok := derefType(nz(s.Base.Type)).(*types.Named); !ok || w.lists[st.String()] == nil {
					if s.Content.Type == nil || w.lists[s.Content.Type.String()] == nil {
						continue
					}
				}
				if overlay != nil && s.Base != overlay {
					continue
				}
				if !appliesIn(l) {
					w.must("C09", false, "buffer", ev, p, "%s changes the buffer of writes in a loop that applies nothing", w.name)
					continue
				}
				if content == nil {
					w.fresh(p, ev, tx, unwrap(s.Before), l)
					overlay = s.Base
				} else {
					w.must("C09", unwrap(s.Before) == content, "buffer", ev, p, "%s changes the buffer of writes between applications", w.name)
				}
				content = s.Content
				for _, wr := range s.Writes {
					x := outEvent(wr.Val)
					w.must("C09", wr.Loc == s.Base && x != nil && x.Callee == fApply, "buffer", ev, p, "%s changes %s besides applying mutations", w.name, wr.Loc)
				}
			}
			if tx != nil && tx.Callee == mUpdate && content != nil {
				replaying = w.replay(ev, tx, content)
				if replaying != nil && f.Implies(litLE(LenOf(replaying), l.N)) { // every element was visited
					replayed = true
					if !w.quiet {
						w.replays++
					}
				}
			}
		case ev.Kind == ERecv && len(ev.Res) > 0 && w.isElem(ev.Res[0].Type):
			if len(ev.Res) > 1 && f.Implies(Lit{ev.Res[1], true}) || f.Implies(litNil(ev.Res[0])) {
				break // closed
			}
			w.must("C09", len(pending) == 0, "order", ev, p, "%s receives a mutation while another waits to be applied", w.name)
			w.must("C09", chanField(ev.Loc) == w.q.ch, "queue", ev, p, "%s receives from %s, which is not the queue", w.name, ev.Loc)
			pending = append(pending, ev.Res[0])
		case ev.Kind == ETxBegin && (ev.Of.Callee == mUpdate || ev.Of.Callee == mReadOnly || ev.Of.Callee == mReadOnlyW):
			tx, inTx, replayed, replaying = ev.Of, nil, false, nil
		case ev.Kind == ETxEnd && tx != nil && ev.Of == tx:
			if ev.Callee == "committed" || ev.Callee == "commitfailed" {
				for _, x := range inTx {
					er := errOf(x)
					if er == nil || f.Implies(litNil(er)) {
						continue
					}
					w.must("C07", isGet(x) && isNoSuchKey(f, er), "abort", x, p, "%s may commit although %s failed", w.name, shortName(x.Callee))
				}
			}
			if tx.Callee == mUpdate && ev.OK && applied {
				w.must("C09", eqv(f, tx.Snap[2], batchNs), "namespace", tx, p, "%s commits to %s the batch of %s", w.name, brief(tx.Snap[2]), brief(batchNs))
				w.must("C07", eqv(f, tx.Snap[2], batchNs), "namespace", tx, p, "%s commits to %s what was applied to %s", w.name, brief(tx.Snap[2]), brief(batchNs))
				same := false
				for _, x := range cur {
					same = same || start != nil && eqv(f, x, start)
				}
				n := 0
				for _, x := range inTx {
					if !isSet(x) || x.Snap[2] != c.sizeKey() {
						continue
					}
					n++
					m := unwrap(x.Snap[3])
					w.must("C07", x.Seq > lastApply && m != nil && within(f, SF(m, "Size"), cur), "size", x, p, "%s records a size that is not the one the application of the mutations returned", w.name)
					w.must("C07", sameParam(x.Args[0], tx), "one transaction", x, p, "%s records the size through %s, not through the transaction that holds the records", w.name, brief(x.Args[0]))
				}
				w.must("C07", n > 0 || same, "size", tx, p, "%s commits without recording the size the application of the mutations returned", w.name)
				if overlay != nil {
					w.must("C07", replayed, "one transaction", tx, p, "%s commits without replaying the buffered records", w.name)
					w.must("C09", replayed, "replay", tx, p, "%s commits a batch without replaying all its writes in order", w.name)
				}
				committed = true
			}
			if ev.OK && tx.Callee == mUpdate && !applied {
				w.must("C07", false, "size", tx, p, "%s commits an update without having applied a mutation", w.name)
			}
			tx = nil
		case ev.Kind == ECall && ev.Callee == fApply:
			if !w.quiet {
				w.applies++
			}
			if !w.must("C07", tx != nil, "one transaction", ev, p, "%s applies a mutation outside a transaction", w.name) || tx == nil {
				break
			}
			inTx = append(inTx, ev)
			direct := sameParam(ev.Args[1], tx) && tx.Callee == mUpdate
			if !direct {
				base := unIface(ev.Args[1])
				known := base.Op == OAlloc && w.lists[derefType(nz(base.Type)).String()] != nil
				if base.Op == OAlloc && !known {
					if a, ok := base.Obj.(*AllocInfo); ok {
						known = w.lists[a.Type.String()] != nil
					}
				}
				w.must("C07", known, "one transaction", ev, p, "%s applies a mutation to %s, neither the transaction's writer nor a buffer of writes", w.name, brief(ev.Args[1]))
				w.must("C09", overlay == nil || overlay == base, "buffer", ev, p, "%s changes the buffer during a batch", w.name)
				snap := unwrap(ev.Snap[1])
				if content == nil {
					w.fresh(p, ev, tx, snap, nil)
				} else {
					w.must("C09", snap == content, "buffer", ev, p, "%s changes the buffer of writes between applications", w.name)
				}
				overlay = base
				content = ev.Outs[1]
			}
			w.must("C07", cur != nil && within(f, ev.Snap[2], cur), "size", ev, p, "%s applies a mutation from size %s, which is not the current size", w.name, brief(ev.Snap[2]))
			w.must("C07", readTx == tx, "one transaction", ev, p, "%s applies a mutation from a size read in another transaction", w.name)
			t := w.token(ev.Args[3])
			if w.must("C09", t != nil && has(t), "once", ev, p, "%s applies %s, which is not a mutation waiting to be applied", w.name, brief(ev.Args[3])) {
				want := w.ns
				if w.q != nil {
					want = SF(t, w.q.ns)
				}
				w.must("C09", eqv(f, tx.Snap[2], want), "namespace", ev, p, "%s applies a mutation to %s and not to the namespace it was queued for", w.name, brief(tx.Snap[2]))
				drop(t)
			}
			w.must("C07", batchNs == nil || eqv(f, tx.Snap[2], batchNs), "namespace", ev, p, "%s applies a mutation in a namespace whose size it did not read", w.name)
			if p.End != "exit" && f.Implies(litNil(errOf(ev)).Not()) {
				w.must("C09", w.q == nil && !p.maySucceed(), "once", ev, p, "%s goes on after a mutation could not be applied", w.name)
			}
			cur = []*Term{ev.Res[0]}
			applied, lastApply = true, ev.Seq
		case tx != nil && isGet(ev) && ev.Snap[2] == c.sizeKey():
			inTx = append(inTx, ev)
			if applied && !committed {
				break
			}
			if !sameParam(ev.Args[0], tx) {
				break
			}
			readTx = tx
			cur, start, batchNs, applied, committed, content, overlay = nil, nil, tx.Snap[2], false, false, nil, nil
			if succeeded(f, ev) {
				start = SF(ev.Outs[3], "Size")
			} else if isNoSuchKey(f, errOf(ev)) {
				start = tZeroI
			}
			if start != nil {
				cur = []*Term{start}
			}
		case tx != nil && ev.Kind == ECall && errOf(ev) != nil:
			inTx = append(inTx, ev)
			if isSet(ev) && ev.Snap[2] != c.sizeKey() && !(replaying != nil && ev.Snap[2].Contains(replaying)) {
				w.must("C07", false, "one transaction", ev, p, "%s writes %s besides what the application of the mutation writes", w.name, brief(ev.Snap[2]))
			}
		}
	}
	switch p.End {
	case "backedge":
		// what the loop carries into its next iteration
		var vals []*Term
		if p.Loop != nil {
			vals = p.Nexts
			next := tokens(p.Loop.Vars, vals)
			for _, t := range next {
				if w.must("C09", has(t), "once", nil, p, "%s carries %s into the next iteration, which was applied already or never received", w.name, brief(t)) {
					drop(t)
				}
			}
			for _, t := range pending {
				was := false
				for _, b := range before {
					was = was || b == t
				}
				w.must("C09", was, "dropped", nil, p, "%s drops the mutation %s", w.name, brief(t))
			}
			for i, v := range p.Loop.Vars {
				if w.bad[v] || !appliesIn(p.Loop) || i >= len(vals) || !isIntType(v.Typ) {
					continue
				}
				if !within(f, vals[i], cur) {
					w.bad[v] = true
					w.changed = true
				}
			}
		}
	case "return":
		if w.q != nil || p.maySucceed() {
			w.must("C09", len(pending) == 0, "dropped", nil, p, "%s ends without having applied a mutation it was given", w.name)
		}
	}
	if (p.End == "backedge" || p.End == "return") && tx == nil && applied && !committed && (w.q != nil || p.maySucceed()) {
		same := false
		for _, x := range cur {
			same = same || start != nil && f.Implies(litLE(x, start))
		}
		ended := false
		for _, x := range p.St.events {
			ended = ended || x.Kind == ETxEnd && x.OK && x.Seq > lastApply
		}
		w.must("C09", same && ended, "dropped", nil, p, "%s goes on without committing what it applied", w.name)
	}
}

// appliesIn: mutations are applied in the loop.
func appliesIn(l *LoopInst) bool {
	for _, it := range l.Iters {
		for _, e := range it.St.events {
			if e.Kind == ECall && e.Callee == fApply && (l.Entry == nil || e.Seq > l.Entry.Seq) {
				return true
			}
		}
	}
	return false
}

// sameParam: t is the reader or writer the transaction handed out.
func sameParam(t *Term, tx *Event) bool {
	cb, ok := unIface(t).Obj.(*cbParam)
	return ok && cb.ev == tx
}

func chanField(t *Term) string {
	if t != nil && t.Op == OField {
		return t.Aux
	}
	return ""
}

// fresh: the buffer is empty and reads through the transaction's reader.
func (w *mutWalk) fresh(p *Path, at *Event, tx *Event, s *Term, l *LoopInst) {
	if tx == nil {
		return
	}
	ok := s != nil && s.Op == OStruct
	why := "its content is not known"
	parent := false
	if ok {
		st := s.Type.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields() && i < len(s.Args); i++ {
			v := s.Args[i]
			switch st.Field(i).Type().Underlying().(type) {
			case *types.Map:
				ok2 := v.Op == OAlloc
				for _, e := range p.St.events {
					if (e.Kind == EMapSet || e.Kind == EMapDel) && e.Loc == v {
						ok2 = false
					}
					// made before a loop over batches
					if e.Kind == ELoop && e.Seq < tx.Seq && v.Op == OAlloc && v.ID < e.Loop.N.ID && tokensOf(w, e.Loop) {
						ok2 = false
					}
				}
				if !ok2 {
					ok, why = false, "its "+st.Field(i).Name()+" is not a new map"
				}
			case *types.Slice:
				if !v.IsNil() && !(v.Op == OZero) && !p.facts().Implies(litEQ0(LenOf(v))) {
					ok, why = false, "its "+st.Field(i).Name()+" is not empty"
				}
			case *types.Interface, *types.Pointer:
				if sameParam(v, tx) {
					parent = true
				}
			}
		}
		if ok && !parent {
			ok, why = false, "it does not read through the transaction"
		}
	}
	w.must("C09", ok, "buffer", at, p, "%s starts a batch with a buffer of writes that is not new: %s", w.name, why)
}

func tokensOf(w *mutWalk, l *LoopInst) bool {
	for _, v := range l.Vars {
		if w.isElem(v.Typ) {
			return true
		}
	}
	return false
}

// replay: the loop writes every buffered write, in order, through the
// transaction.
func (w *mutWalk) replay(ev, tx *Event, content *Term) *Term {
	l := ev.Loop
	var list *Term
	for _, it := range l.Iters {
		n := 0
		for _, e := range it.St.events {
			if e.Seq <= ev.Seq || !isSet(e) {
				continue
			}
			n++
			k, v := unIface(e.Args[2]), unIface(e.Args[3])
			if k.Op != OField || v.Op != OField || !sameParam(e.Args[0], tx) {
				return nil
			}
			var ol *opList
			for _, o := range w.lists {
				if o.key == k.Aux && o.val == v.Aux {
					ol = o
				}
			}
			el := k.Args[0]
			if el != v.Args[0] || ol == nil {
				return nil
			}
			if el.Op == ODeref {
				el = el.Args[0]
			}
			if el.Op != OElem || el.Args[1] != l.N || el.Args[0] != SF(content, ol.list) {
				return nil
			}
			if !it.facts().Implies(litNil(errOf(e))) {
				return nil
			}
			list = el.Args[0]
		}
		if n != 1 {
			return nil
		}
	}
	return list
}

// listsOf: the buffering writers, and how they keep their writes.
func (c *Check) bufferLists() map[string]*opList {
	out := map[string]*opList{}
	for _, k := range c.kvImpls() {
		if k.set == nil {
			continue
		}
		recv := ParamSym(k.setFn.Params[0])
		key, value := ParamSym(k.setFn.Params[2]), ParamSym(k.setFn.Params[3])
		construct := k.name + ".Set"
		var found *opList
		bad := false
		type app struct {
			p *Path
			n int
		}
		var apps []app
		for _, p := range k.set.paths {
			if p.End != "return" || !p.maySucceed() {
				continue
			}
			n := 0
			for _, e := range p.St.events {
				if e.Kind != EStore || e.Loc.Op != OFieldAd || e.Loc.Args[0] != recv {
					continue
				}
				s := e.Snap[0]
				if s.Op != OAppend || len(s.Args) < 2 || s.Args[1].Op != OList {
					if _, ok := derefType(nz(e.Val.Type)).Underlying().(*types.Slice); ok {
						bad = true
					}
					continue
				}
				el := s.Args[1]
				if len(el.Args) != 1 {
					bad = true
					continue
				}
				o := unwrap(el.Args[0])
				if o.Op != OStruct {
					bad = true
					continue
				}
				st := o.Type.Underlying().(*types.Struct)
				r := &opList{list: e.Loc.Aux}
				for i := 0; i < st.NumFields() && i < len(o.Args); i++ {
					if o.Args[i] == key {
						r.key = st.Field(i).Name()
					}
					if unIface(o.Args[i]) == value {
						r.val = st.Field(i).Name()
					}
				}
				if s.Args[0] != SF(recv, r.list) || r.key == "" || r.val == "" || found != nil && *found != *r {
					bad = true
					continue
				}
				found = r
				n++
			}
			apps = append(apps, app{p, n})
		}
		if found == nil && !bad {
			continue
		}
		ok := found != nil && !bad
		for _, a := range apps {
			ok = ok && a.n == 1
		}
		if c.id == "C09" {
			c.must(ok, "buffer", construct, k.setFn.Pos(), "%s does not record every write exactly once, key and value, at the end of its list", construct)
			places := map[string]bool{}
			c.kvSet(k, places, c.kvGet(k, places))
		}
		if found != nil {
			out[k.t.String()] = found
			if p, isPtr := k.t.(*types.Pointer); isPtr {
				out[p.Elem().String()] = found
			}
		}
		c.count("buffering writers")
	}
	return out
}

// copyOf: t is a message decoded from the encoding of m.
func copyOf(t, m *Term) bool {
	t = unwrap(t)
	if t == nil || t.Op != OApp || !strings.HasPrefix(t.Aux, "unproto:") || len(t.Args) == 0 {
		return false
	}
	t = unwrap(t.Args[0])
	return t != nil && t.Op == OApp && t.Aux == "proto.Marshal" && len(t.Args) > 0 && unwrap(t.Args[0]) == m
}

// queueOf: what an asynchronous QueueMutation sends.
func (c *Check) queueOf(fn *ssa.Function, e *exploration, name string) *queueElem {
	ns, mut := ParamSym(fn.Params[2]), ParamSym(fn.Params[3])
	var q *queueElem
	for _, p := range e.paths {
		if p.End != "return" {
			continue
		}
		n := 0
		for _, ev := range p.St.events {
			if ev.Kind != ESend {
				continue
			}
			n++
			s := unwrap(ev.Snap[0])
			r := &queueElem{ch: chanField(ev.Loc)}
			if ct, ok := nz(ev.Loc.Type).Underlying().(*types.Chan); ok {
				r.typ = ct.Elem()
			} else {
				r.typ = ev.Val.Type
			}
			if s != nil && s.Op == OStruct {
				st := s.Type.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields() && i < len(s.Args); i++ {
					if s.Args[i] == ns {
						r.ns = st.Field(i).Name()
					}
					if s.Args[i] == mut || copyOf(s.Args[i], mut) {
						r.mut = st.Field(i).Name()
					}
				}
			}
			if !c.must(r.ns != "" && r.mut != "" && r.ch != "", "queued", name, ev.Pos, "%s queues %s, not the namespace and the mutation given", name, brief(ev.Snap[0])) {
				return nil
			}
			if q != nil && (q.ns != r.ns || q.mut != r.mut || q.ch != r.ch) {
				c.fail("queued", name, ev.Pos, "%s uses more than one queue", name)
			}
			q = r
		}
		if p.maySucceed() {
			c.must(n == 1, "queued", name, p.Pos, "%s may report success having queued the mutation %d times", name, n)
		} else {
			c.must(n == 0, "queued", name, p.Pos, "%s may report a failure although the mutation is queued", name)
		}
	}
	return q
}

func (c *Check) walkMutators() {
	lists := c.bufferLists()
	for _, fn := range c.mutators() {
		e := c.exploreWith(fn, opaqueApply)
		name := strings.ReplaceAll(fn.RelString(nil), modPath+"/", "")
		direct := false
		for _, p := range e.paths {
			for _, x := range p.St.events {
				direct = direct || x.Kind == ECall && (x.Callee == fApply || x.Callee == mUpdate)
			}
		}
		w := &mutWalk{c: c, name: name, fn: fn, e: e, lists: lists}
		if direct {
			w.ns, w.mut = ParamSym(fn.Params[2]), ParamSym(fn.Params[3])
			w.run()
			c.must(w.applies > 0, "applies", name, fn.Pos(), "%s never applies the mutation", name)
			continue
		}
		w.q = c.queueOf(fn, e, name)
		if w.q == nil {
			c.must(false, "queued", name, fn.Pos(), "%s neither applies nor queues the mutation", name)
			continue
		}
		cons := c.consumers(fn, w.q, name)
		for _, cf := range cons {
			cw := *w
			cw.fn, cw.e = cf, c.exploreWith(cf, opaqueApply)
			cw.name = strings.ReplaceAll(cf.RelString(nil), modPath+"/", "")
			cw.run()
			c.must(cw.applies > 0, "applies", cw.name, cf.Pos(), "%s never applies a mutation", cw.name)
			if len(lists) > 0 {
				c.must(cw.replays > 0, "replay", cw.name, cf.Pos(), "%s never replays its buffer of writes", cw.name)
			}
			c.count("queue consumers")
		}
	}
	c.min("queue consumers", 1)
}

// consumers: the goroutines started for the queue.
func (c *Check) consumers(qfn *ssa.Function, q *queueElem, name string) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, fn := range c.w.Funcs {
		if fn.Pkg != qfn.Pkg && (fn.Parent() == nil || fn.Parent().Pkg != qfn.Pkg) {
			continue
		}
		starts := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					starts = true
				}
			}
		}
		if !starts || fn.Parent() != nil {
			continue
		}
		e := c.explore(fn)
		for _, p := range e.paths {
			n := 0
			var cf *ssa.Function
			for _, ev := range p.St.events {
				if ev.Kind == EGo {
					n++
					cf = ev.Fn
					if cf != nil && !seen[cf] {
						seen[cf] = true
						out = append(out, cf)
					}
					c.must(cf != nil, "consumer", name, ev.Pos, "%s starts a goroutine that is not known", fn.Name())
				}
			}
			if p.End == "return" && p.maySucceed() {
				c.must(n == 1, "consumer", name, p.Pos, "%s may start %d goroutines for the queue instead of one", fn.Name(), n)
			}
			if p.End == "backedge" {
				c.must(n == 0, "consumer", name, p.Pos, "%s starts goroutines in a loop", fn.Name())
			}
		}
	}
	if !c.must(len(out) > 0, "consumer", name, qfn.Pos(), "nothing receives what %s queues", name) {
		return nil
	}
	// nobody else receives
	cov := map[*ssa.Function]bool{}
	for _, cf := range out {
		var add func(f *ssa.Function, d int)
		add = func(f *ssa.Function, d int) {
			if f == nil || cov[f] || d > 12 || !c.w.InRepo(f) {
				return
			}
			cov[f] = true
			for _, a := range f.AnonFuncs {
				add(a, d+1)
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if cl, ok := in.(ssa.CallInstruction); ok {
						add(cl.Common().StaticCallee(), d+1)
					}
				}
			}
		}
		add(cf, 0)
	}
	isQ := func(t types.Type) bool {
		ct, ok := t.Underlying().(*types.Chan)
		return ok && types.Identical(ct.Elem(), q.typ)
	}
	for _, fn := range c.w.Funcs {
		if cov[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.UnOp:
					if isQ(i.X.Type()) {
						c.fail("consumer", name, i.Pos(), "%s also receives from the queue", fn.Name())
					}
				case *ssa.Select:
					for _, s := range i.States {
						if s.Dir == types.RecvOnly && isQ(s.Chan.Type()) {
							c.fail("consumer", name, i.Pos(), "%s also receives from the queue", fn.Name())
						}
					}
				}
			}
		}
	}
	return out
}

func checkC07(c *Check) {
	c.assumption("bolt's and badger's DB.Update roll back when the function fails; a pgx transaction not committed is rolled back; the in-memory backend is documented not to roll back; ReadObjectSize and WriteObjectSize use one size record (C19)")
	c.walkMutators()
	for _, b := range c.backends() {
		if b.update != nil {
			c.updateAborts(b)
		}
	}
}

func checkC09(c *Check) {
	c.assumption("Go channels deliver each value once and in order; errors end the process (fail-stop), so that nothing is applied after a failure; the reads of a batch and its replay are not interleaved with other writers of the namespace (single consumer)")
	c.walkMutators()
}
