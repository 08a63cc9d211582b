package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// EvKind classifies what happened on a path.
type EvKind int

const (
	ECall    EvKind = iota // call that is not analysed inline
	EStore                 // store to memory that existed before the entry (or global)
	EGo                    // go statement
	ESend                  // channel send
	ERecv                  // channel receive
	EClose                 // channel close
	EMapSet                // map update
	EMapDel                // map delete
	EMapGet                // map lookup
	ETxBegin               // a callback handed to a call starts
	ETxEnd                 // that callback returned
	ELoop                  // a loop summarised by a generic iteration
	EOblig                 // operation that panics unless shown safe
	EEnter                 // inlined call starts
	ELeave                 // inlined call returns
	EReadFld               // read of a field of pre-existing memory
	EJoin                  // partitions of an inlined call merged into one
)

// Event is one abstract action of a path.
type Event struct {
	Seq    int
	Kind   EvKind
	Callee string // full name of the callee, or kind of obligation
	Fn     *ssa.Function
	Args   []*Term // values
	Snap   []*Term // values with the memory they point to, at this moment
	Res    []*Term
	Loc    *Term
	Val    *Term
	OK     bool
	Pos    token.Pos
	Instr  ssa.Instruction
	Stack  []*ssa.Function
	NFacts int
	Loop   *LoopInst
	Of     *Event // ETxEnd: the begin; ELeave: the enter
	Defer  bool
	Outs   map[int]*Term
	Iface  string          // dynamic interface the method was called through
	Alts   []*Path         // EJoin: the partitions merged
	Cells  map[*Term]*Term // EJoin: memory replaced by unknowns
	Forgot map[*Term]*Term // EJoin: objects replaced by unknowns
	Orig   *Event          // of a copy made when a join was undone
}

// Heap is memory: cells that differ from their initial content.
type Heap struct {
	m     map[*Term]*Term
	base  map[*Term]*Term // address base -> content symbol replacing the initial content
	epoch map[string]int  // fields forgotten wholesale

	shared, sharedB bool
}

func (h *Heap) clone() *Heap {
	h.shared, h.sharedB = true, true
	return &Heap{m: h.m, base: h.base, epoch: h.epoch, shared: true, sharedB: true}
}

func (h *Heap) wm() map[*Term]*Term {
	if h.shared {
		n := make(map[*Term]*Term, len(h.m)+4)
		for k, v := range h.m {
			n[k] = v
		}
		h.m, h.shared = n, false
	}
	return h.m
}

func (h *Heap) wbase() map[*Term]*Term {
	if h.sharedB {
		n := make(map[*Term]*Term, len(h.base)+4)
		for k, v := range h.base {
			n[k] = v
		}
		h.base, h.sharedB = n, false
	}
	return h.base
}

type deferred struct {
	instr *ssa.Defer
	call  *callSite
}

// Frame is an activation of a function.
type Frame struct {
	fn      *ssa.Function
	block   *ssa.BasicBlock
	pc      int
	env     map[ssa.Value]*Term
	defers  []*deferred
	loops   map[*ssa.BasicBlock]*LoopInst
	ret     ssa.Value // in caller
	cont    func(ex *Explorer, st *State, res []*Term) []*State
	enter   *Event
	free    []*Term
	running bool // running defers
	retVals []*Term
	retDone bool
	shared  bool // env is shared with a clone
}

func (f *Frame) wenv() map[ssa.Value]*Term {
	if f.shared {
		n := make(map[ssa.Value]*Term, len(f.env)+4)
		for k, v := range f.env {
			n[k] = v
		}
		f.env, f.shared = n, false
	}
	return f.env
}

func (f *Frame) clone() *Frame {
	n := *f
	f.shared, n.shared = true, true
	n.defers = append([]*deferred(nil), f.defers...)
	n.loops = make(map[*ssa.BasicBlock]*LoopInst, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return &n
}

// State is one partition of the abstract execution.
type State struct {
	frames  []*Frame
	heap    *Heap
	facts   *Facts
	events  []*Event
	alloc   int
	loopSeq int
	resSeq  int
	steps   int
}

func (s *State) clone() *State {
	n := &State{heap: s.heap.clone(), facts: s.facts.clone(), events: s.events[:len(s.events):len(s.events)], alloc: s.alloc, loopSeq: s.loopSeq, resSeq: s.resSeq, steps: s.steps}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) emit(e *Event) *Event {
	e.Seq = len(s.events)
	e.NFacts = len(s.facts.lits)
	if e.Stack == nil {
		for _, f := range s.frames {
			e.Stack = append(e.Stack, f.fn)
		}
	}
	if e.Pos == token.NoPos && e.Instr != nil {
		e.Pos = instrPos(e.Instr)
	}
	s.events = append(s.events, e)
	return e
}

func instrPos(i ssa.Instruction) token.Pos {
	if i == nil {
		return token.NoPos
	}
	if p := i.Pos(); p.IsValid() {
		return p
	}
	if v, ok := i.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if r.Pos().IsValid() {
					return r.Pos()
				}
			}
		}
	}
	b := i.Block()
	if b == nil {
		return token.NoPos
	}
	for _, o := range b.Instrs {
		if o.Pos().IsValid() {
			return o.Pos()
		}
	}
	return i.Parent().Pos()
}

// addrBase strips field and index selections.
func addrBase(t *Term) *Term {
	for t.Op == OFieldAd || t.Op == OIndexAd || t.Op == OMapAd {
		t = t.Args[0]
	}
	return t
}

func fieldName(t types.Type, i int) (string, types.Type) {
	st := t.Underlying().(*types.Struct)
	return st.Field(i).Name(), st.Field(i).Type()
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// FieldAddr builds the address of a field.
func FieldAddr(p *Term, name string) *Term { return mk(OFieldAd, name, 0, nil, []*Term{p}, nil) }

// IndexAddr builds the address of an element.
func IndexAddr(b, i *Term) *Term {
	if b.Op == OSliceV {
		return mk(OIndexAd, "", 0, nil, []*Term{b.Args[0], Add(b.Args[1], i)}, nil)
	}
	return mk(OIndexAd, "", 0, nil, []*Term{b, i}, nil)
}

var tDeleted = Sym("<deleted>", nil)

// initial content of an address with nothing stored
func (ex *Explorer) initial(st *State, loc *Term, typ types.Type) *Term {
	switch loc.Op {
	case OFieldAd:
		if e, ok := st.heap.epoch[loc.Aux]; ok {
			return mk(ODeref, fmt.Sprintf("e%d", e), 0, typ, []*Term{loc}, nil)
		}
		return FieldOf(ex.initial(st, loc.Args[0], nil), loc.Aux, typ)
	case OIndexAd:
		p := loc.Args[0]
		if isAddrOp(p) {
			return ElemOf(ex.initial(st, p, nil), loc.Args[1], typ)
		}
		if b, ok := st.heap.base[p]; ok {
			return ElemOf(b, loc.Args[1], typ)
		}
		return ElemOf(p, loc.Args[1], typ)
	case OMapAd:
		return mk(OMapElem, "", 0, typ, []*Term{loc.Args[0], loc.Args[1]}, nil)
	}
	if b, ok := st.heap.base[loc]; ok {
		return b
	}
	if b, ok := ex.w.initHeap.base[loc]; ok {
		return b
	}
	switch loc.Op {
	case OAlloc:
		ai := loc.Obj.(*AllocInfo)
		return ZeroOf(ai.Type)
	case OGlobal:
		return ex.w.globalValue(loc.Obj.(*ssa.Global))
	}
	return mk(ODeref, "", 0, typ, []*Term{loc}, nil)
}

// isAddrOp: the term is an address whose content is memory (as opposed to a
// sequence value indexed directly).
func isAddrOp(t *Term) bool {
	switch t.Op {
	case OAlloc, OGlobal, OFieldAd, OIndexAd:
		return true
	}
	if t.Type != nil {
		if _, ok := t.Type.Underlying().(*types.Pointer); ok {
			return true
		}
	}
	return false
}

func (ex *Explorer) lookup(st *State, loc *Term) (*Term, bool) {
	if v, ok := st.heap.m[loc]; ok {
		return v, true
	}
	if v, ok := ex.w.initHeap.m[loc]; ok {
		if _, replaced := st.heap.base[addrBase(loc)]; !replaced {
			return v, true
		}
	}
	return nil, false
}

// load reads memory.
func (ex *Explorer) load(st *State, loc *Term, typ types.Type) *Term {
	if v, ok := ex.lookup(st, loc); ok {
		return v
	}
	// an enclosing object was stored whole
	for up, path := loc, []*Term{}; ; {
		if up.Op != OFieldAd && up.Op != OIndexAd {
			break
		}
		path = append(path, up)
		up = up.Args[0]
		if v, ok := ex.lookup(st, up); ok && !ex.hasSub(st, up, loc) {
			for i := len(path) - 1; i >= 0; i-- {
				var ft types.Type
				if i == 0 {
					ft = typ
				}
				if path[i].Op == OFieldAd {
					v = FieldOf(v, path[i].Aux, ft)
				} else {
					v = ElemOf(v, path[i].Args[1], ft)
				}
			}
			return v
		}
	}
	// parts were stored: assemble
	if typ != nil && ex.anySub(st, loc) {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = ex.load(st, FieldAddr(loc, u.Field(i).Name()), u.Field(i).Type())
			}
			return mk(OStruct, typ.String(), 0, typ, args, nil)
		case *types.Array:
			if isBytesLike(typ) {
				return ex.content(st, mk(OSliceV, "", 0, nil, []*Term{loc, tZeroI, Int(u.Len())}, nil))
			}
			if u.Len() <= 64 {
				args := make([]*Term, u.Len())
				for i := range args {
					args[i] = ex.load(st, IndexAddr(loc, Int(int64(i))), u.Elem())
				}
				return mk(OList, "", 0, typ, args, nil)
			}
		}
	}
	// a store through an index that may be the same one
	if ix := indexPart(loc); ix != nil {
		if segv := ex.segLoad(st, loc, typ); segv != nil {
			return segv
		}
		for k := range st.heap.m {
			if mayAlias(st, k, loc) {
				return Sym(fmt.Sprintf("?%s@%d", loc, len(st.events)), typ)
			}
		}
	}
	return ex.initial(st, loc, typ)
}

func indexPart(loc *Term) *Term {
	for t := loc; t.Op == OFieldAd || t.Op == OIndexAd; t = t.Args[0] {
		if t.Op == OIndexAd {
			return t
		}
	}
	return nil
}

// mayAlias: same shape, but some index differs without being provably different
func mayAlias(st *State, a, b *Term) bool {
	for x, y := a, b; x != y; x, y = x.Args[0], y.Args[0] {
		if x.Op != y.Op || x.Aux != y.Aux || (x.Op != OFieldAd && x.Op != OIndexAd) {
			return false
		}
	}
	for {
		if a == b {
			return true
		}
		if a.Op != b.Op {
			return false
		}
		switch a.Op {
		case OFieldAd:
			if a.Aux != b.Aux {
				return false
			}
			a, b = a.Args[0], b.Args[0]
		case OIndexAd:
			if a.Args[1] != b.Args[1] {
				if st.facts.Implies(litEQ0(Sub(a.Args[1], b.Args[1])).Not()) {
					return false
				}
			}
			a, b = a.Args[0], b.Args[0]
		default:
			return false
		}
	}
}

func isUnder(k, loc *Term) bool {
	for t := k; t.Op == OFieldAd || t.Op == OIndexAd || t.Op == OMapAd; {
		t = t.Args[0]
		if t == loc {
			return true
		}
	}
	return false
}

func (ex *Explorer) anySub(st *State, loc *Term) bool {
	for k := range st.heap.m {
		if isUnder(k, loc) {
			return true
		}
	}
	for k := range ex.w.initHeap.m {
		if isUnder(k, loc) {
			return true
		}
	}
	return false
}

// hasSub: something under up that may cover loc was stored separately
func (ex *Explorer) hasSub(st *State, up, loc *Term) bool {
	for k := range st.heap.m {
		if k != up && isUnder(k, up) && (k == loc || isUnder(loc, k) || mayAlias(st, k, loc)) {
			return true
		}
	}
	return false
}

// store writes memory.
func (ex *Explorer) store(st *State, loc, val *Term, typ types.Type) {
	for k := range st.heap.m {
		if isUnder(k, loc) {
			delete(st.heap.wm(), k)
		}
	}
	// a struct value known by parts is stored by parts
	if val.Op == OStruct && val.Type != nil {
		if s, ok := val.Type.Underlying().(*types.Struct); ok {
			delete(st.heap.wm(), loc)
			for i, a := range val.Args {
				ex.store(st, FieldAddr(loc, s.Field(i).Name()), a, s.Field(i).Type())
			}
			return
		}
	}
	// forget cells that may be the same one
	if indexPart(loc) != nil {
		for k := range st.heap.m {
			if k != loc && mayAlias(st, k, loc) {
				st.heap.wm()[k] = Sym(fmt.Sprintf("?%s@%d", k, len(st.events)), nil)
			}
		}
	}
	st.heap.wm()[loc] = val
}

// forget replaces everything below base by an unknown content.
func (ex *Explorer) forget(st *State, base, content *Term) {
	for k := range st.heap.m {
		if k == base || isUnder(k, base) {
			delete(st.heap.wm(), k)
		}
	}
	if isAddrOp(base) && addrBase(base) != base {
		st.heap.wm()[base] = content
		return
	}
	st.heap.wbase()[base] = content
}

// ---- byte buffers ----

// segments written by copy or PutUint64 are kept as cells addressed by
// (base, offset, length).
func segAddr(base, off, n *Term) *Term {
	return mk(OIndexAd, "seg", 0, nil, []*Term{base, off, n}, nil)
}

func (ex *Explorer) writeSeg(st *State, base, off, n, val *Term) {
	for k := range st.heap.m {
		if k.Op == OIndexAd && k.Args[0] == base {
			if k.Aux == "seg" {
				if !disjoint(st, k.Args[1], k.Args[2], off, n) {
					if k.Args[1] == off && k.Args[2] == n {
						delete(st.heap.wm(), k)
					} else {
						st.heap.wm()[k] = Sym(fmt.Sprintf("?seg@%d", len(st.events)), nil)
					}
				}
			} else if !disjoint(st, k.Args[1], tOne, off, n) {
				if st.facts.Implies(litLE(off, k.Args[1])) && st.facts.Implies(litLT(k.Args[1], Add(off, n))) {
					delete(st.heap.wm(), k)
				} else {
					st.heap.wm()[k] = Sym(fmt.Sprintf("?seg@%d", len(st.events)), nil)
				}
			}
		}
	}
	st.heap.wm()[segAddr(base, off, n)] = val
}

func disjoint(st *State, o1, n1, o2, n2 *Term) bool {
	return st.facts.Implies(litLE(Add(o1, n1), o2)) || st.facts.Implies(litLE(Add(o2, n2), o1))
}

func (ex *Explorer) segLoad(st *State, loc *Term, typ types.Type) *Term {
	if loc.Op != OIndexAd || loc.Aux == "seg" {
		return nil
	}
	for k, v := range st.heap.m {
		if k.Op == OIndexAd && k.Aux == "seg" && k.Args[0] == loc.Args[0] {
			i := loc.Args[1]
			if st.facts.Implies(litLE(k.Args[1], i)) && st.facts.Implies(litLT(i, Add(k.Args[1], k.Args[2]))) {
				return ElemOf(v, Sub(i, k.Args[1]), typ)
			}
			if !disjoint(st, i, tOne, k.Args[1], k.Args[2]) {
				return Sym(fmt.Sprintf("?%s@%d", loc, len(st.events)), typ)
			}
		}
	}
	return nil
}

// content is the value of a byte sequence.
func (ex *Explorer) content(st *State, v *Term) *Term {
	switch v.Op {
	case ONil, OZero:
		if v.Op == OZero && v.Type != nil {
			if a, ok := v.Type.Underlying().(*types.Array); ok {
				return Str(string(make([]byte, a.Len())))
			}
		}
		return tEmpty
	case OSliceV:
		base, off, n := v.Args[0], v.Args[1], v.Args[2]
		return ex.memContent(st, base, off, n)
	case OIface:
		return ex.content(st, v.Args[0])
	case OList:
		parts := make([]*Term, len(v.Args))
		for i, a := range v.Args {
			parts[i] = mk(OByte, "", 0, nil, []*Term{a}, nil)
		}
		return Concat(parts...)
	case OAppend:
		return Concat(ex.content(st, v.Args[0]), ex.content(st, v.Args[1]))
	}
	if hasOverride(st, v) {
		return ex.memContent(st, v, tZeroI, LenOf(v))
	}
	return v
}

func hasOverride(st *State, v *Term) bool {
	for k := range st.heap.m {
		if k.Op == OIndexAd && k.Args[0] == v {
			return true
		}
	}
	_, ok := st.heap.base[v]
	return ok
}

func (ex *Explorer) memContent(st *State, base, off, n *Term) *Term {
	if n == tZeroI {
		return tEmpty
	}
	if v, ok := ex.lookup(st, base); ok { // stored whole
		if !hasOverride(st, base) {
			return SliceTerm(v, off, Add(off, n))
		}
	}
	type cell struct{ off, n, val *Term }
	var cells []cell
	for _, h := range []*Heap{ex.w.initHeap, st.heap} {
		for k, v := range h.m {
			if k.Op == OIndexAd && k.Args[0] == base {
				if k.Aux == "seg" {
					cells = append(cells, cell{k.Args[1], k.Args[2], v})
				} else {
					cells = append(cells, cell{k.Args[1], tOne, mk(OByte, "", 0, nil, []*Term{v}, nil)})
				}
			}
		}
	}
	init := ex.initial(st, base, nil)
	end := Add(off, n)
	if len(cells) == 0 {
		if init.Op == OZero {
			if n.IsInt() && n.I <= 4096 {
				return Str(string(make([]byte, n.I)))
			}
			return App("zeros", nil, n)
		}
		return SliceTerm(init, off, end)
	}
	var parts []*Term
	cur := off
	for guard := 0; cur != end && guard < 4096; guard++ {
		found := false
		for _, c := range cells {
			if c.off == cur && c.n != tZeroI {
				rest := Sub(end, cur)
				if c.n != rest && c.n.IsInt() && rest.IsInt() && rest.I < c.n.I {
					parts = append(parts, SliceTerm(c.val, tZeroI, rest))
					cur = end
				} else {
					parts = append(parts, c.val)
					cur = Add(cur, c.n)
				}
				found = true
				break
			}
		}
		if found {
			continue
		}
		// a gap of constant size up to the next cell or the end
		gap := int64(-1)
		d := Sub(end, cur)
		if d.IsInt() && d.I > 0 {
			gap = d.I
		}
		symEnd := true
		for _, c := range cells {
			d := Sub(c.off, cur)
			if d.IsInt() && d.I > 0 && (gap < 0 || d.I < gap) {
				gap = d.I
			}
			if !d.IsInt() && !st.facts.Implies(litLT(c.off, cur)) {
				symEnd = false
			}
			if d.IsInt() && d.I > 0 {
				symEnd = false
			}
		}
		if gap < 0 && !symEnd {
			return Sym(fmt.Sprintf("?bytes(%s)@%d", base, len(st.events)), nil)
		}
		gl := Int(gap)
		if gap < 0 {
			gl = Sub(end, cur)
		}
		if init.Op == OZero {
			if gap >= 0 {
				parts = append(parts, Str(string(make([]byte, gap))))
			} else {
				parts = append(parts, App("zeros", nil, gl))
			}
		} else {
			parts = append(parts, SliceTerm(init, cur, Add(cur, gl)))
		}
		cur = Add(cur, gl)
	}
	if cur != end {
		return Sym(fmt.Sprintf("?bytes(%s)@%d", base, len(st.events)), nil)
	}
	return Concat(parts...)
}

// Snap renders a value together with the memory it refers to.
func (ex *Explorer) Snap(st *State, t *Term, typ types.Type) *Term { return ex.snap(st, t, typ, 0) }

func (ex *Explorer) snap(st *State, t *Term, typ types.Type, d int) *Term {
	if t == nil || d > 8 {
		return t
	}
	if typ == nil {
		typ = t.Type
	}
	switch t.Op {
	case OIface:
		s := ex.snap(st, t.Args[0], t.Type, d+1)
		if s == t.Args[0] {
			return t
		}
		return mk(OIface, t.Aux, 0, t.Type, []*Term{s}, nil)
	case OSliceV:
		if typ != nil {
			if s, ok := typ.Underlying().(*types.Slice); ok {
				if isBytesLike(typ) {
					return ex.content(st, t)
				}
				if t.Args[2].IsInt() && t.Args[2].I <= 64 {
					args := make([]*Term, t.Args[2].I)
					for i := range args {
						args[i] = ex.snap(st, ex.load(st, IndexAddr(t, Int(int64(i))), s.Elem()), s.Elem(), d+1)
					}
					return mk(OList, "", 0, typ, args, nil)
				}
				if !hasOverride(st, t.Args[0]) { // unmodified
					if b, ok := st.heap.base[t.Args[0]]; ok && t.Args[1] == tZeroI {
						return b
					}
				}
			}
		} else {
			return ex.content(st, t)
		}
		return t
	case OAlloc:
		ai := t.Obj.(*AllocInfo)
		if ai.Type == nil {
			return t
		}
		if ai.Type.String() == "bytes.Buffer" {
			return App("bytes.NewReader", nil, ex.bufferContent(st, t))
		}
		switch ai.Type.Underlying().(type) {
		case *types.Struct:
			v := ex.load(st, t, ai.Type)
			if v.Op == OStruct {
				args := make([]*Term, len(v.Args))
				s := v.Type.Underlying().(*types.Struct)
				for i, a := range v.Args {
					args[i] = ex.snap(st, a, s.Field(i).Type(), d+1)
				}
				v = mk(OStruct, v.Aux, 0, v.Type, args, nil)
			} else if e := ex.expandModified(st, v, ai.Type, d); e != nil {
				v = e
			}
			return mk(OApp, "&", 0, nil, []*Term{v}, nil)
		case *types.Map, *types.Chan:
			return t
		default:
			return mk(OApp, "&", 0, nil, []*Term{ex.snap(st, ex.load(st, t, ai.Type), ai.Type, d+1)}, nil)
		}
	case OStruct:
		s := t.Type.Underlying().(*types.Struct)
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = ex.snap(st, a, s.Field(i).Type(), d+1)
		}
		return mk(OStruct, t.Aux, 0, t.Type, args, nil)
	case OAppend:
		args := make([]*Term, 2)
		for i, a := range t.Args {
			args[i] = ex.snap(st, a, typ, d+1)
		}
		if args[0].Op == OList && args[1].Op == OList {
			return mk(OList, "", 0, typ, append(append([]*Term(nil), args[0].Args...), args[1].Args...), nil)
		}
		return mk(OAppend, "", 0, typ, args, nil)
	case OList:
		var et types.Type
		if typ != nil {
			if s, ok := typ.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = ex.snap(st, a, et, d+1)
		}
		return mk(OList, "", 0, t.Type, args, nil)
	}
	if isBytesLike(typ) {
		return ex.content(st, t)
	}
	if typ != nil {
		if _, ok := typ.Underlying().(*types.Struct); ok {
			if e := ex.expandModified(st, t, typ, d); e != nil {
				return e
			}
		}
	}
	// symbolic pointer to a struct with modified fields
	if typ != nil {
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			if s, ok := p.Elem().Underlying().(*types.Struct); ok && (ex.anySubState(st, t) || ex.modifiedBelow(st, t, s, 0)) {
				args := make([]*Term, s.NumFields())
				for i := range args {
					args[i] = ex.snap(st, ex.load(st, FieldAddr(t, s.Field(i).Name()), s.Field(i).Type()), s.Field(i).Type(), d+1)
				}
				return mk(OApp, "&", 0, nil, []*Term{mk(OStruct, p.Elem().String(), 0, p.Elem(), args, nil)}, nil)
			}
		}
	}
	return t
}

// modifiedBelow: a pointer field of the struct t points to leads to memory that
// was modified.
func (ex *Explorer) modifiedBelow(st *State, t *Term, s *types.Struct, d int) bool {
	if len(st.heap.m) == 0 || d > 2 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		p, ok := f.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		q, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		v := ex.load(st, FieldAddr(t, f.Name()), f.Type())
		if v.IsNil() || v.Op == OAlloc {
			continue
		}
		if ex.anySubState(st, v) || ex.modifiedBelow(st, v, q, d+1) {
			return true
		}
	}
	return false
}

// expandModified renders a symbolic struct value one of whose pointer fields
// leads to memory that was modified; nil if there is none.
func (ex *Explorer) expandModified(st *State, v *Term, typ types.Type, d int) *Term {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	hit := false
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if p, ok := f.Type().Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok && ex.anySubState(st, FieldOf(v, f.Name(), f.Type())) {
				hit = true
			}
		}
	}
	if !hit {
		return nil
	}
	args := make([]*Term, s.NumFields())
	for i := range args {
		args[i] = ex.snap(st, FieldOf(v, s.Field(i).Name(), s.Field(i).Type()), s.Field(i).Type(), d+1)
	}
	return mk(OStruct, typ.String(), 0, typ, args, nil)
}

func (ex *Explorer) anySubState(st *State, loc *Term) bool {
	for k := range st.heap.m {
		if isUnder(k, loc) {
			return true
		}
	}
	return false
}

// SF selects field name of a snapshot (through & and interfaces).
func SF(t *Term, name string) *Term {
	for t != nil {
		if t.Op == OIface || (t.Op == OApp && t.Aux == "&") {
			t = t.Args[0]
			continue
		}
		break
	}
	if t == nil {
		return nil
	}
	if t.Op == OStruct {
		s := t.Type.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return t.Args[i]
			}
		}
		return nil
	}
	if t.Op == OZero && t.Type != nil {
		if s, ok := t.Type.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					return ZeroOf(s.Field(i).Type())
				}
			}
		}
		return nil
	}
	// a symbolic pointer or struct value
	var ft types.Type
	if t.Type != nil {
		tp := derefType(t.Type)
		if s, ok := tp.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					ft = s.Field(i).Type()
				}
			}
		}
		if _, ok := t.Type.Underlying().(*types.Pointer); ok {
			return mk(OField, name, 0, ft, []*Term{mk(ODeref, "", 0, nil, []*Term{t}, nil)}, nil)
		}
	}
	return mk(OField, name, 0, ft, []*Term{t}, nil)
}
