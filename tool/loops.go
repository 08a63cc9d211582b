package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopShape is a natural loop.
type loopShape struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

// PhiInfo is a value that changes between iterations.
type PhiInfo struct {
	Phi   *ssa.Phi // nil for memory
	Loc   *Term    // memory cell
	Typ   types.Type
	Sym   *Term // its value at the start of a generic iteration
	Init  *Term
	Val   *Term // closed form of Sym, or Sym
	Step  *Term // for counters: the increment
	Nexts []*Term
	Inst  *LoopInst
}

// LoopStore summarises writes to indexed memory.
type LoopStore struct {
	Base    *Term
	Content *Term // symbol standing for the content at the start of an iteration
	Init    *Term
	Before  *Term // of an object made on the path: its content before the loop
	Writes  []LoopWrite
	Cells   []LoopWrite // of an array made on the path: its cells set before the loop
	Inst    *LoopInst
}

// LoopWrite is one address and the values stored there.
type LoopWrite struct{ Loc, Val *Term }

// LoopInst is one analysed execution of a loop.
type LoopInst struct {
	ID     int
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Shape  *loopShape
	N      *Term
	Vars   []*PhiInfo
	Stores []*LoopStore
	Iters  []*Path // completed generic iterations
	Facts  []Lit   // invariants established
	Unroll bool
	count  int
	Entry  *Event
}

func (w *World) loopShape(fn *ssa.Function, b *ssa.BasicBlock) *loopShape {
	if w.shapes == nil {
		w.shapes = map[*ssa.BasicBlock]*loopShape{}
		w.shapeFn = map[*ssa.Function]bool{}
	}
	if !w.shapeFn[fn] {
		w.shapeFn[fn] = true
		for _, h := range fn.Blocks {
			var sh *loopShape
			for _, p := range h.Preds {
				if h.Dominates(p) {
					if sh == nil {
						sh = &loopShape{fn, h, map[*ssa.BasicBlock]bool{h: true}}
					}
					stack := []*ssa.BasicBlock{p}
					for len(stack) > 0 {
						x := stack[len(stack)-1]
						stack = stack[:len(stack)-1]
						if sh.body[x] {
							continue
						}
						sh.body[x] = true
						stack = append(stack, x.Preds...)
					}
				}
			}
			if sh != nil {
				w.shapes[h] = sh
			}
		}
	}
	return w.shapes[b]
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

func (ex *Explorer) phiVals(st *State, from, to *ssa.BasicBlock) []*Term {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	var vals []*Term
	for _, p := range phisOf(to) {
		vals = append(vals, ex.val(st, p.Edges[idx]))
	}
	return vals
}

func (ex *Explorer) setPhis(st *State, to *ssa.BasicBlock, vals []*Term) {
	fr := st.top()
	for i, p := range phisOf(to) {
		fr.wenv()[p] = vals[i]
		if vals[i].Type == nil && vals[i].Op != OStruct {
			vals[i].Type = p.Type()
		}
	}
	fr.block = to
	fr.pc = len(vals)
}

const maxUnroll = 16

// enter moves control along an edge. false: the partition ended.
func (ex *Explorer) enter(st *State, from, to *ssa.BasicBlock) bool {
	fr := st.top()
	vals := ex.phiVals(st, from, to)
	if ex.stopLoop != nil && len(st.frames) == ex.stopDepth {
		if to == ex.stopLoop.header {
			ex.finish(st, &Path{End: "probe", Nexts: vals})
			return false
		}
		if !ex.stopLoop.body[to] {
			ex.finish(st, &Path{End: "stop"})
			return false
		}
	}
	for h, inst := range fr.loops {
		if !inst.Shape.body[to] {
			delete(fr.loops, h)
		}
	}
	sh := ex.w.loopShape(fr.fn, to)
	if sh == nil {
		ex.setPhis(st, to, vals)
		return true
	}
	if inst := fr.loops[to]; inst != nil && sh.body[from] {
		if inst.Unroll {
			n := *inst
			n.count++
			fr.loops[to] = &n
			if n.count > maxUnroll+4 {
				ex.undecided(st, "unrolled loop does not end")
				return false
			}
			ex.setPhis(st, to, vals)
			return true
		}
		p := &Path{End: "backedge", Nexts: vals, Loop: inst, Pos: inst.Entry.Pos}
		ex.finish(st, p)
		inst.Iters = append(inst.Iters, p)
		for i, v := range inst.Vars {
			if v.Phi != nil {
				v.Nexts = append(v.Nexts, vals[i])
			} else {
				n := ex.load(st, v.Loc, v.Typ)
				v.Nexts = append(v.Nexts, n)
				p.Nexts = append(p.Nexts[:i:i], n)
			}
		}
		return false
	}
	if ex.unrollable(st, to, vals) {
		fr.loops[to] = &LoopInst{Unroll: true, Shape: sh, Header: to, Fn: fr.fn}
		ex.setPhis(st, to, vals)
		return true
	}
	return ex.summarise(st, from, to, sh, vals)
}

// unrollable: a counting loop over a small constant range.
func (ex *Explorer) unrollable(st *State, h *ssa.BasicBlock, vals []*Term) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	phis := phisOf(h)
	isIV := func(v ssa.Value) (bool, *Term) {
		for k := 0; k < 2; k++ {
			for i, p := range phis {
				if p == v {
					return vals[i].IsInt(), vals[i]
				}
			}
			b, ok := v.(*ssa.BinOp)
			if !ok || b.Block() != h || (b.Op != token.ADD && b.Op != token.SUB) {
				return false, nil
			}
			if _, ok := b.Y.(*ssa.Const); !ok {
				return false, nil
			}
			v = b.X
		}
		return false, nil
	}
	bound := func(v ssa.Value) *Term {
		if c, ok := v.(*ssa.Const); ok {
			return constTerm(c)
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() == h {
			if call, ok := v.(*ssa.Call); ok && len(call.Call.Args) == 1 {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if x, ok := st.top().env[call.Call.Args[0]]; ok {
						if xi, ok := call.Call.Args[0].(ssa.Instruction); !ok || xi.Block() != h {
							return LenOf(x)
						}
					}
				}
			}
			return nil
		}
		if t, ok := st.top().env[v]; ok {
			return t
		}
		return nil
	}
	try := func(a, b ssa.Value) bool {
		iv, init := isIV(a)
		if !iv {
			return false
		}
		t := bound(b)
		if t == nil || !t.IsInt() {
			return false
		}
		d := t.I - init.I
		return d <= maxUnroll && d >= -maxUnroll
	}
	switch c.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
		return try(c.X, c.Y) || try(c.Y, c.X)
	}
	return false
}

// variantSince: t mentions a symbol created after a point in time.
func variantSince(t *Term, id int) bool {
	return t.Any(func(x *Term) bool {
		switch x.Op {
		case OSym:
			return x.ID > id && !strings.HasPrefix(x.Aux, "@")
		case OIter, ORes, OAlloc:
			return x.ID > id
		}
		return false
	})
}

// invariantPrefix is the largest prefix of an address that does not vary.
func invariantPrefix(loc *Term, id int) *Term {
	t := loc
	for variantSince(t, id) {
		switch t.Op {
		case OFieldAd, OIndexAd, OMapAd:
			t = t.Args[0]
		default:
			return nil
		}
	}
	return t
}

func (ex *Explorer) summarise(st *State, from, to *ssa.BasicBlock, sh *loopShape, inits []*Term) bool {
	fr := st.top()
	ex.w.seq++
	id := ex.w.seq
	entryID := termCount() - 1
	n := mk(OIter, fmt.Sprintf("n%d", id), 0, types.Typ[types.Int], nil, nil)
	inst := &LoopInst{ID: id, Fn: fr.fn, Header: to, Shape: sh, N: n}
	for i, p := range phisOf(to) {
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		s := Sym(fmt.Sprintf("φ%d.%s", id, nm+"."+p.Name()), p.Type())
		inst.Vars = append(inst.Vars, &PhiInfo{Inst: inst, Phi: p, Typ: p.Type(), Sym: s, Init: inits[i], Val: s})
		s.Obj = inst.Vars[len(inst.Vars)-1]
	}
	nphi := len(inst.Vars)
	cells := map[*Term]*PhiInfo{}
	bases := map[*Term]*LoopStore{}
	fields := map[string]bool{}
	apply := func(s *State) {
		vals := make([]*Term, nphi)
		for i := range vals {
			vals[i] = inst.Vars[i].Val
		}
		for _, b := range inst.Stores {
			ex.forget(s, b.Base, b.Content)
		}
		for f := range fields {
			ex.forgetField(s, f, id)
		}
		for _, v := range inst.Vars[nphi:] {
			for k := range s.heap.m {
				if isUnder(k, v.Loc) {
					delete(s.heap.wm(), k)
				}
			}
			s.heap.wm()[v.Loc] = v.Val
		}
		ex.setPhis(s, to, vals)
	}
	probe := func(assume []Lit) *Explorer {
		ps := st.clone()
		apply(ps)
		p := &Explorer{w: ex.w, opaque: ex.opaque, init: ex.init, wire: ex.wire, parent: ex, stopDepth: len(st.frames), stopLoop: sh,
			rec: map[*Term][]recWrite{}, maxStep: ex.maxStep, maxPath: 20000}
		ok := true
		for _, l := range assume {
			ok = ps.facts.add(l) && ok
		}
		if ok {
			p.Run(ps)
		}
		return p
	}
	// discover what the body writes
	var p *Explorer
	for round := 0; ; round++ {
		p = probe(nil)
		changed := false
		for _, loc := range p.recOrder {
			ws := p.rec[loc]
			b := addrBase(loc)
			if b.Op == OAlloc && b.ID > entryID {
				continue // allocated in the iteration
			}
			if !variantSince(loc, entryID) && loc.Aux != "seg" && !(loc == b && ws[0].whole) {
				if _, ok := cells[loc]; !ok {
					// covered by a forgotten base?
					cov := false
					for k := range bases {
						if k == loc || isUnder(loc, k) {
							cov = true
						}
					}
					if cov {
						continue
					}
					s := Sym(fmt.Sprintf("φ%d.[%s]", id, loc), ws[0].typ)
					var init *Term
					if loc.Op == OMapAd {
						init = s
						if v, ok := ex.lookup(st, loc); ok {
							init = v
						}
					} else {
						init = ex.load(st, loc, ws[0].typ)
					}
					v := &PhiInfo{Inst: inst, Loc: loc, Typ: ws[0].typ, Sym: s, Init: init, Val: s}
					s.Obj = v
					cells[loc] = v
					inst.Vars = append(inst.Vars, v)
					changed = true
				}
				continue
			}
			pre := invariantPrefix(loc, entryID)
			if pre != nil && pre.Aux == "seg" {
				pre = pre.Args[0]
			}
			if pre == nil {
				if loc.Op == OFieldAd {
					if !fields[loc.Aux] {
						fields[loc.Aux] = true
						changed = true
					}
				} else if ix := indexPart(loc); ix != nil {
					// elements of a slice held in a loop variable: forget what
					// the variable started from
					for _, v := range inst.Vars {
						if ix.Args[0].Contains(v.Sym) && v.Init.Op == OSliceV && bases[v.Init.Args[0]] == nil {
							ls := &LoopStore{Inst: inst, Base: v.Init.Args[0], Content: Sym(fmt.Sprintf("φ%d.mem.%s", id, v.Init.Args[0]), nil)}
							ls.Content.Obj = ls
							bases[ls.Base] = ls
							inst.Stores = append(inst.Stores, ls)
							changed = true
						}
					}
				}
				continue
			}
			if bases[pre] == nil {
				var typ types.Type
				if pre.Op == OAlloc {
					typ = pre.Obj.(*AllocInfo).Type
				} else {
					typ = pre.Type
				}
				ls := &LoopStore{Inst: inst, Base: pre, Content: Sym(fmt.Sprintf("φ%d.mem.%s", id, pre), typ), Init: ex.initial(st, pre, typ)}
				ls.Content.Obj = ls
				bases[pre] = ls
				inst.Stores = append(inst.Stores, ls)
				changed = true
			}
		}
		if !changed {
			break
		}
		if round > 10 {
			ex.undecided(st, "memory written by a loop does not stabilise")
			return false
		}
	}
	// closed forms
	nexts := func(p *Explorer) [][]*Term { // per variable, over back edges
		out := make([][]*Term, len(inst.Vars))
		for _, q := range p.paths {
			if q.End != "probe" {
				continue
			}
			for i, v := range inst.Vars {
				if v.Phi != nil {
					out[i] = append(out[i], q.Nexts[i])
				} else {
					out[i] = append(out[i], ex.load(q.St, v.Loc, v.Typ))
				}
			}
		}
		return out
	}
	nx := nexts(p)
	for i, v := range inst.Vars {
		if len(nx[i]) == 0 {
			continue
		}
		same := true
		for _, t := range nx[i][1:] {
			if t != nx[i][0] {
				same = false
			}
		}
		if !same {
			continue
		}
		t := nx[i][0]
		if t == v.Sym {
			v.Val = v.Init
			continue
		}
		if v.Typ != nil && isIntType(v.Typ) {
			d := Sub(t, v.Sym)
			if d.IsInt() {
				v.Val = Add(v.Init, Scale(n, d.I))
				v.Step = d
				continue
			}
			if t == Shl(v.Sym, tOne) {
				v.Val = Shl(v.Init, n)
			} else if t == Shr(v.Sym, tOne) || (t == Div(v.Sym, Int(2)) || t.Op == ODiv && t.Args[0] == v.Sym && t.Args[1] == Int(2)) && st.facts.Implies(litLE0(Scale(v.Init, -1))) {
				v.Val = Shr(v.Init, n)
			}
		}
	}
	// invariants: candidates are kept while they hold on every way round
	var cands []Lit
	addC := func(l Lit, atInit Lit) {
		if l.A.IsBool() {
			return
		}
		if st.facts.Implies(atInit) {
			cands = append(cands, l)
		}
	}
	for _, v := range inst.Vars {
		if v.Val != v.Sym {
			continue
		}
		s, i0 := v.Sym, v.Init
		switch u := nzt(v.Typ).Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
			addC(litNil(s).Not(), litNil(i0).Not())
			addC(litNil(s), litNil(i0))
		case *types.Slice:
			l0 := LenOf(i0)
			addC(litEQ0(Sub(LenOf(s), Add(l0, n))), Lit{tTrue, false})
			addC(litEQ0(Sub(LenOf(s), l0)), Lit{tTrue, false})
			addC(litLE(l0, LenOf(s)), Lit{tTrue, false})
			addC(litLE(LenOf(s), l0), Lit{tTrue, false})
			addC(litLE0(AddC(Scale(LenOf(s), -1), 1)), litLE0(AddC(Scale(l0, -1), 1)))
			addC(litNil(s).Not(), litNil(i0).Not())
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				addC(litLE0(Scale(s, -1)), litLE0(Scale(i0, -1)))
				addC(litLE0(AddC(Scale(s, -1), 1)), litLE0(AddC(Scale(i0, -1), 1)))
				if !isUnsigned(v.Typ) {
					addC(litLE(i0, s), Lit{tTrue, false})
					addC(litLE(s, i0), Lit{tTrue, false})
				}
			}
		}
	}
	seenGuard := map[*Term]bool{}
	for round := 0; round < 12; round++ {
		p = probe(cands)
		before := len(cands)
		if round < 6 {
			// bounds kept by the guard: g(n) <= 0 on every way round gives g(n-1) <= 0
			for _, q := range p.paths {
				if q.End != "probe" {
					continue
				}
				for _, l := range q.St.facts.lits[len(st.facts.lits):] {
					if l.Neg || l.A.Op != OLE0 || !l.A.Contains(n) || seenGuard[l.A] {
						continue
					}
					seenGuard[l.A] = true
					rest := Subst(l.A.Args[0], map[*Term]*Term{n: tZeroI})
					if variantSince(rest, entryID) {
						continue
					}
					c := substLit(l, map[*Term]*Term{n: AddC(n, -1)})
					addC(c, substLit(l, map[*Term]*Term{n: Int(-1)}))
				}
			}
		}
		nx = nexts(p)
		var keep []Lit
		k := 0
		ok := make([]bool, len(cands))
		for i := range ok {
			ok[i] = true
		}
		for _, q := range p.paths {
			if q.End != "probe" {
				continue
			}
			m := map[*Term]*Term{n: AddC(n, 1)}
			for i, v := range inst.Vars {
				if v.Val == v.Sym {
					m[v.Sym] = nx[i][k]
				}
			}
			k++
			for i, c := range cands {
				if ok[i] && !q.St.facts.Implies(substLit(c, m)) {
					ok[i] = false
				}
			}
		}
		for i, c := range cands {
			if ok[i] {
				keep = append(keep, c)
			}
		}
		stable := len(keep) == len(cands) && len(cands) == before
		cands = keep
		if stable && round > 0 {
			break
		}
		if round == 11 {
			cands = nil
		}
	}
	for _, ls := range inst.Stores {
		for _, loc := range p.recOrder {
			if loc == ls.Base || isUnder(loc, ls.Base) {
				for _, wr := range p.rec[loc] {
					ls.Writes = append(ls.Writes, LoopWrite{loc, wr.val})
				}
			}
		}
	}
	inst.Facts = cands
	// the generic iteration, and everything after the loop
	for _, v := range inst.Vars[nphi:] {
		ex.noteWrite(v.Loc, v.Typ, v.Sym, false)
	}
	for _, ls := range inst.Stores {
		ex.noteWrite(ls.Base, ls.Content.Type, ls.Content, true)
	}
	for _, ls := range inst.Stores {
		if ls.Base.Op == OAlloc && ls.Content.Type != nil {
			if _, ok := ls.Content.Type.Underlying().(*types.Struct); ok {
				ls.Before = ex.Snap(st, ls.Base, types.NewPointer(ls.Content.Type))
			}
			if _, ok := ls.Content.Type.Underlying().(*types.Array); ok {
				for k, v := range st.heap.m {
					if k.Op == OIndexAd && k.Args[0] == ls.Base {
						ls.Cells = append(ls.Cells, LoopWrite{k, v})
					}
				}
			}
		}
	}
	inst.Entry = st.emit(&Event{Kind: ELoop, Loop: inst, Fn: fr.fn, Pos: loopPos(to)})
	apply(st)
	for _, l := range cands {
		if !st.facts.add(l) {
			return false
		}
	}
	st.top().loops[to] = inst
	r := ex.rootEx()
	r.loops = append(r.loops, inst)
	return true
}

func loopPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func nzt(t types.Type) types.Type {
	if t == nil {
		return types.NewTuple()
	}
	return t
}

func substLit(l Lit, m map[*Term]*Term) Lit {
	r := asLit(Subst(l.A, m))
	if l.Neg {
		r = r.Not()
	}
	return r
}

// forgetField forgets a field of every object reachable through pointers.
func (ex *Explorer) forgetField(st *State, f string, id int) {
	for k := range st.heap.m {
		for t := k; t.Op == OFieldAd || t.Op == OIndexAd || t.Op == OMapAd; t = t.Args[0] {
			if t.Op == OFieldAd && t.Aux == f {
				delete(st.heap.wm(), k)
				break
			}
		}
	}
	if st.heap.epoch == nil {
		st.heap.epoch = map[string]int{}
	} else {
		n := make(map[string]int, len(st.heap.epoch)+1)
		for k, v := range st.heap.epoch {
			n[k] = v
		}
		st.heap.epoch = n
	}
	st.heap.epoch[f] = id
	if ex.rec != nil { // an enclosing loop must forget it too
		ex.noteWrite(FieldAddr(Sym(fmt.Sprintf("φ%d.*", id), nil), f), nil, nil, false)
	}
}

// ---- package level ----

// recursive reports whether fn can call itself.
func (w *World) recursive(fn *ssa.Function) bool {
	if w.rec == nil {
		w.rec = map[*ssa.Function]int{}
		idx := map[*ssa.Function]int{}
		low := map[*ssa.Function]int{}
		on := map[*ssa.Function]bool{}
		var stack []*ssa.Function
		c := 0
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			c++
			idx[f], low[f] = c, c
			stack = append(stack, f)
			on[f] = true
			self := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Function)
						if !ok || !w.InRepo(g) || len(g.Blocks) == 0 {
							continue
						}
						if g == f {
							self = true
						}
						if idx[g] == 0 {
							visit(g)
							if low[g] < low[f] {
								low[f] = low[g]
							}
						} else if on[g] && idx[g] < low[f] {
							low[f] = idx[g]
						}
					}
				}
			}
			if low[f] == idx[f] {
				var comp []*ssa.Function
				for {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[x] = false
					comp = append(comp, x)
					if x == f {
						break
					}
				}
				if len(comp) > 1 || self {
					for _, x := range comp {
						w.rec[x] = idx[f]
					}
				}
			}
		}
		for _, f := range w.Funcs {
			if idx[f] == 0 {
				visit(f)
			}
		}
	}
	return w.rec[fn] != 0
}

// sameCycle: fn is part of a recursion whose head is being analysed; fn itself is not.
func (ex *Explorer) sameCycle(st *State, fn *ssa.Function) bool {
	in := false
	for _, fr := range st.frames {
		if fr.fn == fn {
			return false
		}
		in = in || ex.w.rec[fr.fn] == ex.w.rec[fn]
	}
	return in
}

func (w *World) nextInit() int {
	w.initSeq++
	return w.initSeq
}

func (w *World) isInitAlloc(t *Term) bool {
	return t.Op == OAlloc && strings.HasPrefix(t.Aux, "init")
}

// globalValue is the content of a package variable that no analysed
// initialiser determined.
func (w *World) globalValue(g *ssa.Global) *Term {
	t := derefType(g.Type())
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		n := g.Name()
		if g.Pkg != nil {
			n = g.Pkg.Pkg.Name() + "." + n
		}
		if isErrorType(t) {
			return Sym("@"+n, t)
		}
		return Sym("g:"+n, t)
	}
	if w.mutGlobal(g) || w.inInit {
		if w.inInit && !w.mutGlobal(g) {
			return ZeroOf(t)
		}
		return Sym("g:"+g.Pkg.Pkg.Name()+"."+g.Name(), t)
	}
	return ZeroOf(t)
}

// mutGlobal: the variable is assigned outside package initialisation.
func (w *World) mutGlobal(g *ssa.Global) bool {
	if w.mutG == nil {
		w.mutG = map[*ssa.Global]bool{}
		for _, f := range w.Funcs {
			if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						a := s.Addr
						for a != nil {
							switch x := a.(type) {
							case *ssa.Global:
								w.mutG[x] = true
								a = nil
							case *ssa.FieldAddr:
								a = x.X
							case *ssa.IndexAddr:
								a = x.X
							default:
								a = nil
							}
						}
						continue
					}
					if _, ok := in.(*ssa.UnOp); ok {
						continue
					}
					for _, op := range in.Operands(nil) {
						if gg, ok := (*op).(*ssa.Global); ok {
							switch in.(type) {
							case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.DebugRef:
							default:
								w.mutG[gg] = true // address escapes
							}
						}
					}
				}
			}
		}
	}
	return w.mutG[g]
}

// evalInit analyses the package initialisers so that tables and sentinel
// errors are known.
func (w *World) evalInit() {
	w.initHeap = &Heap{m: map[*Term]*Term{}, base: map[*Term]*Term{}}
	w.inInit = true
	defer func() { w.inInit = false }()
	var order []*ssa.Package
	for _, p := range w.Pkgs {
		if sp := w.SSA[p.PkgPath]; sp != nil && !strings.HasSuffix(p.PkgPath, "/pb") {
			order = append(order, sp)
		}
	}
	for _, sp := range order {
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		ex := w.explorer()
		ex.init = true
		st := ex.Start(fn, nil, nil)
		paths := ex.Run(st)
		var ret []*Path
		for _, p := range paths {
			if p.End == "return" {
				ret = append(ret, p)
			}
		}
		// the path that runs the initialisers is the one with the most stores
		var best *Path
		for _, p := range ret {
			if best == nil || len(p.St.heap.m) > len(best.St.heap.m) {
				best = p
			}
		}
		if best == nil {
			continue
		}
		for k, v := range best.St.heap.m {
			if g := addrBase(k); g.Op == OGlobal && w.mutGlobal(g.Obj.(*ssa.Global)) {
				continue
			}
			w.initHeap.m[k] = v
		}
		for k, v := range best.St.heap.base {
			w.initHeap.base[k] = v
		}
		w.initUndec = append(w.initUndec, ex.Undec...)
	}
}
