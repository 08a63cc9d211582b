package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A call whose analysis ends in many partitions continues as one partition for
// each kind of result (an error, none): what the partitions agree on is kept,
// everything else becomes unknown. The partitions themselves stay available in
// the EJoin event.

// joinDefault is the number of partitions above which they are merged.
const joinDefault = 16

// runCall explores the frame on top of st to its returns.
func (ex *Explorer) runCall(st *State) []*Path {
	sub := &Explorer{w: ex.w, opaque: ex.opaque, readEv: ex.readEv, oblig: ex.oblig, init: ex.init, wire: ex.wire, parent: ex,
		stopDepth: len(st.frames), rec: ex.rec, recOrder: ex.recOrder, maxStep: ex.maxStep, maxPath: ex.maxPath}
	sub.Run(st)
	ex.recOrder = sub.recOrder
	var rets []*Path
	for _, p := range sub.paths {
		if p.End == "stop" {
			rets = append(rets, p)
		} else {
			ex.paths = append(ex.paths, p)
		}
	}
	return rets
}

// inlineJoined explores a call and continues after it.
func (ex *Explorer) inlineJoined(st *State, cs *callSite) []*State {
	pre := st.clone()
	dest := st.top().ret
	enter := st.top().enter
	fn := st.top().fn
	rets := ex.runCall(st)
	pop := func(s *State, res []*Term) *State {
		s.frames = s.frames[:len(s.frames)-1]
		if dest != nil {
			s.set(dest, tupleOf(dest.Type(), res))
		}
		return s
	}
	var out []*State
	if len(rets) <= ex.rootEx().joinAbove {
		for _, p := range rets {
			out = append(out, pop(p.St, p.Results))
		}
		return out
	}
	groups := map[string][]*Path{}
	var order []string
	for _, p := range rets {
		k := resultKind(p, fn)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], p)
	}
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			out = append(out, pop(g[0].St, g[0].Results))
			continue
		}
		s, res := ex.merge(pre.clone(), g, fn, enter)
		out = append(out, pop(s, res))
	}
	return out
}

// resultKind classifies a return.
func resultKind(p *Path, fn *ssa.Function) string {
	k := ""
	rs := fn.Signature.Results()
	for i, r := range p.Results {
		switch rs.At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			switch {
			case p.St.facts.Implies(litNil(r)):
				k += "n"
			case p.St.facts.Implies(litNil(r).Not()):
				k += "v"
			default:
				k += "?"
			}
		case *types.Basic:
			if r.IsBool() {
				k += fmt.Sprint(r.I)
			} else {
				k += "."
			}
		default:
			k += "."
		}
	}
	return k
}

func (ex *Explorer) merge(st *State, g []*Path, fn *ssa.Function, enter *Event) (*State, []*Term) {
	base := len(st.facts.lits)
	// heap
	keys := map[*Term]bool{}
	for _, p := range g {
		for k := range p.St.heap.m {
			keys[k] = true
		}
	}
	st.heap = g[0].St.heap.clone()
	var drop []*Term
	for k := range keys {
		v0, same := g[0].St.heap.m[k], true
		for _, p := range g {
			if v, ok := p.St.heap.m[k]; !ok || v != v0 {
				same = false
				break
			}
		}
		if !same {
			drop = append(drop, k)
		}
	}
	sortTerms(drop)
	cells := map[*Term]*Term{}
	forgot := map[*Term]*Term{}
	forget := func(k *Term, t types.Type) {
		forgot[k] = ex.fresh(st, "join", t)
		ex.forget(st, k, forgot[k])
	}
	for _, k := range drop {
		var t types.Type
		for _, p := range g {
			if v, ok := p.St.heap.m[k]; ok && v.Type != nil {
				t = v.Type
			}
		}
		if k.Op == OIndexAd {
			forget(k.Args[0], nil)
			continue
		}
		cells[k] = ex.fresh(st, "join", t)
		st.heap.wm()[k] = cells[k]
	}
	for _, p := range g[1:] {
		for k, v := range p.St.heap.base {
			if st.heap.base[k] != v {
				forget(k, v.Type)
			}
		}
		for f, v := range p.St.heap.epoch {
			if st.heap.epoch[f] != v {
				ex.w.seq++
				ex.forgetField(st, f, ex.w.seq)
			}
		}
		if p.St.alloc > st.alloc {
			st.alloc = p.St.alloc
		}
	}
	for k := range st.heap.base {
		for _, p := range g[1:] {
			if _, ok := p.St.heap.base[k]; !ok {
				forget(k, nil)
				break
			}
		}
	}
	// what is known in all of them
	common := g[0].St.facts.lits[base:]
	for _, p := range g[1:] {
		var keep []Lit
		for _, l := range common {
			if p.St.facts.knownFalse(l.Not()) || p.St.facts.Implies(l) {
				keep = append(keep, l)
			}
		}
		common = keep
	}
	for _, l := range common {
		st.facts.add(l)
	}
	// results
	res := make([]*Term, len(g[0].Results))
	for i := range res {
		res[i] = g[0].Results[i]
		same := true
		for _, p := range g[1:] {
			same = same && p.Results[i] == res[i]
		}
		if same {
			continue
		}
		typ := fn.Signature.Results().At(i).Type()
		r := ex.fresh(st, "join:"+fn.Name(), typ)
		res[i] = r
		all := func(f func(t *Term) Lit) {
			for _, p := range g {
				if !p.St.facts.Implies(f(p.Results[i])) {
					return
				}
			}
			st.facts.add(f(r))
		}
		switch u := typ.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map:
			all(func(t *Term) Lit { return litNil(t).Not() })
			all(func(t *Term) Lit { return litNil(t) })
		case *types.Slice:
			n := LenOf(g[0].Results[i])
			all(func(t *Term) Lit { return litEQ0(Sub(LenOf(t), n)) })
			all(func(t *Term) Lit { return litNil(t).Not() })
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				all(func(t *Term) Lit { return litLE0(Scale(t, -1)) })
			}
		}
	}
	j := st.emit(&Event{Kind: EJoin, Fn: fn, Callee: fullName(fn), Of: enter, Res: res, Instr: enter.Instr, Cells: cells, Forgot: forgot})
	for _, p := range g {
		p.End = "join"
		for i, r := range p.Results {
			if res[i] == r || r.Op != OAlloc {
				p.resSnap = append(p.resSnap, r)
				continue
			}
			p.resSnap = append(p.resSnap, ex.Snap(p.St, r, fn.Signature.Results().At(i).Type()))
		}
		j.Alts = append(j.Alts, p)
		ex.paths = append(ex.paths, p)
	}
	st.emit(&Event{Kind: ELeave, Fn: fn, Of: enter, Res: res, Pos: enter.Pos})
	return st, res
}

// origins are the partitions the result of a path comes from, when calls on its
// way were joined; otherwise the path itself.
func (p *Path) origins(res *Term) []*Path {
	for _, e := range p.St.events {
		if e.Kind != EJoin {
			continue
		}
		for i, r := range e.Res {
			if r == res && r.Op == OSym {
				var out []*Path
				for _, a := range e.Alts {
					out = append(out, a.origins(a.Results[i])...)
				}
				return out
			}
		}
	}
	return []*Path{p}
}

// expand undoes the joins of a path: one path for every combination of the
// partitions that were merged, with what they determine put back.
func (p *Path) expand() []*Path { return p.expandIf(func(*Event) bool { return true }) }

// expandIf undoes the joins chosen by want.
func (p *Path) expandIf(want func(e *Event) bool) []*Path {
	for i, e := range p.St.events {
		if e.Kind != EJoin || !want(e) {
			continue
		}
		var out []*Path
		for _, a := range e.Alts {
			if q := p.choose(i, e, a); q != nil {
				out = append(out, q.expandIf(want)...)
			}
		}
		return out
	}
	return []*Path{p}
}

// since are the events of the path after e.
func (p *Path) since(e *Event) []*Event {
	for i, x := range p.St.events {
		if x.orig() == e.orig() {
			return p.St.events[i+1:]
		}
	}
	return p.St.events
}

// merges: the partitions merged contain an event chosen by want.
func (e *Event) merges(want func(x *Event) bool) bool {
	if e.Kind != EJoin {
		return false
	}
	seen := map[*LoopInst]bool{}
	done := map[*Event]bool{}
	var walk func(q *Path) bool
	walk = func(q *Path) bool {
		for _, x := range q.since(e.Of) {
			if done[x.orig()] {
				continue
			}
			done[x.orig()] = true
			if want(x) {
				return true
			}
			if x.Kind == ELoop && x.Loop != nil && !seen[x.Loop] {
				seen[x.Loop] = true
				for _, it := range x.Loop.Iters {
					if walk(it) {
						return true
					}
				}
			}
			for _, a := range x.Alts {
				if walk(a) {
					return true
				}
			}
		}
		return false
	}
	for _, a := range e.Alts {
		if walk(a) {
			return true
		}
	}
	return false
}

// choose replaces the join event e, the i-th of the path, by its partition a.
func (p *Path) choose(i int, e *Event, a *Path) *Path {
	m := map[*Term]*Term{}
	for k, r := range e.Res {
		if r != a.Results[k] {
			m[r] = a.resSnap[k]
		}
	}
	h := p.St.heap
	if len(e.Cells) > 0 || len(e.Forgot) > 0 {
		h = h.clone()
		for k, s := range e.Forgot {
			v, ok := a.St.heap.base[k]
			if ok {
				m[s] = v
			}
			if isAddrOp(k) && addrBase(k) != k {
				if h.m[k] != s {
					continue
				}
				delete(h.wm(), k)
			} else if h.base[k] != s {
				continue
			} else if ok {
				h.wbase()[k] = v
			} else {
				delete(h.wbase(), k)
			}
			for x, v := range a.St.heap.m {
				if _, over := h.m[x]; !over && (x == k || isUnder(x, k)) {
					h.wm()[x] = v
				}
			}
		}
		for k, s := range e.Cells {
			v, ok := a.St.heap.m[k]
			if ok {
				m[s] = v
			}
			if h.m[k] != s {
				continue
			}
			if ok {
				h.wm()[k] = v
			} else {
				delete(h.wm(), k)
			}
		}
	}
	if len(m) > 0 {
		memo := map[*Term]*Term{}
		for k, v := range h.m {
			if n := substMemo(v, m, memo); n != v {
				if h == p.St.heap {
					h = h.clone()
				}
				h.wm()[k] = n
			}
		}
	}
	f := a.St.facts.clone()
	var known []int // how much is known after each literal of p learnt since
	for _, l := range p.St.facts.lits[e.NFacts:] {
		known = append(known, len(f.lits))
		if !f.add(substLit(l, m)) {
			return nil
		}
	}
	known = append(known, len(f.lits))
	st := &State{heap: h, facts: f, frames: p.St.frames}
	st.events = append(st.events, a.St.events...) // its own prefix is p's
	done := map[*Event]*Event{}
	for _, x := range p.St.events[i+1:] {
		st.events = append(st.events, substEvent(x, m, done, known[x.NFacts-e.NFacts]))
	}
	q := &Path{End: p.End, St: st, Pos: p.Pos, Instr: p.Instr, Loop: p.Loop, chosen: append(append([]*Path(nil), p.chosen...), a)}
	for _, r := range p.Results {
		q.Results = append(q.Results, Subst(r, m))
	}
	for _, r := range p.Nexts {
		q.Nexts = append(q.Nexts, Subst(r, m))
	}
	return q
}

func substTerms(ts []*Term, m map[*Term]*Term) ([]*Term, bool) {
	ch := false
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = t
		if t != nil {
			out[i] = Subst(t, m)
		}
		ch = ch || out[i] != t
	}
	return out, ch
}

func substEvent(e *Event, m map[*Term]*Term, done map[*Event]*Event, nf int) *Event {
	n := *e
	n.NFacts = nf
	n.Orig = e.orig()
	var c1, c2, c3 bool
	n.Args, c1 = substTerms(e.Args, m)
	n.Snap, c2 = substTerms(e.Snap, m)
	n.Res, c3 = substTerms(e.Res, m)
	if e.Val != nil {
		n.Val = Subst(e.Val, m)
	}
	if !c1 && !c2 && !c3 && n.Val == e.Val {
		n.Args, n.Snap, n.Res = e.Args, e.Snap, e.Res
	}
	if e.Of != nil && done[e.Of] != nil {
		n.Of = done[e.Of]
	}
	done[e] = &n
	return &n
}

// orig is the event as it was recorded.
func (e *Event) orig() *Event {
	if e.Orig != nil {
		return e.Orig
	}
	return e
}

func substMemo(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = substMemo(a, m, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}
