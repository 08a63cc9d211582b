package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path is one completed partition.
type Path struct {
	End     string // return, panic, exit, backedge, stop
	Results []*Term
	St      *State
	Pos     token.Pos
	Nexts   []*Term // backedge: next values of the loop variables
	Instr   ssa.Instruction
	Loop    *LoopInst // backedge: of which loop
	chosen  []*Path   // partitions put in place of joins
	resSnap []*Term   // of a joined partition: results with the memory they point to
}

type recWrite struct {
	typ   types.Type
	val   *Term
	whole bool // everything at and below the address
}

// Explorer enumerates the partitions of a function's abstract executions.
type Explorer struct {
	w       *World
	opaque  func(fn *ssa.Function) bool
	goRun   bool // also follow what a go statement starts
	readEv  bool // record reads of pre-existing memory
	oblig   bool // record panic obligations
	init    bool // evaluating package initialisers
	paths   []*Path
	work    []*State
	steps   int
	maxStep int
	maxPath int
	Undec   []string
	loops   []*LoopInst
	// probing a loop body
	parent    *Explorer
	stopDepth int
	stopLoop  *loopShape
	rec       map[*Term][]recWrite
	recOrder  []*Term
	covered   map[*ssa.Function]bool
	blocks    map[*ssa.BasicBlock]bool // blocks whose end some partition reached
	nIter     int
	joinAbove int // merge the partitions of a call when there are more (0: never)
	wire      *wire
}

type callSite struct {
	instr  ssa.Instruction
	common *ssa.CallCommon
	callee *Term   // function value (nil for invoke)
	recv   *Term   // interface receiver for invoke
	args   []*Term // without the receiver for invoke
	dest   ssa.Value
	isDef  bool
}

func (w *World) explorer() *Explorer {
	return &Explorer{w: w, maxStep: 3000000, maxPath: 60000, covered: map[*ssa.Function]bool{}, blocks: map[*ssa.BasicBlock]bool{}}
}

func (ex *Explorer) undecided(st *State, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if st != nil && len(st.frames) > 0 {
		msg = st.top().fn.String() + ": " + msg
	}
	for p := ex; p != nil; p = p.parent {
		if p.parent == nil {
			if len(p.Undec) < 50 {
				p.Undec = append(p.Undec, msg)
			}
		}
	}
}

func (ex *Explorer) rootEx() *Explorer {
	for ex.parent != nil {
		ex = ex.parent
	}
	return ex
}

// ParamSym is the symbol of a root parameter.
func ParamSym(p *ssa.Parameter) *Term { return typedSym("p:"+p.Name(), p.Type()) }

var symTypes = map[string][]types.Type{}

// typedSym keeps symbols of one name and different types apart.
func typedSym(name string, t types.Type) *Term {
	for i, u := range symTypes[name] {
		if types.Identical(t, u) {
			return mk(OSym, name, int64(i), t, nil, nil)
		}
	}
	symTypes[name] = append(symTypes[name], t)
	return mk(OSym, name, int64(len(symTypes[name])-1), t, nil, nil)
}

// Start begins the exploration of fn with given arguments (nil: symbolic).
func (ex *Explorer) Start(fn *ssa.Function, args []*Term, free []*Term, facts ...Lit) *State {
	st := &State{heap: &Heap{m: map[*Term]*Term{}, base: map[*Term]*Term{}}, facts: newFacts()}
	if args == nil {
		for _, p := range fn.Params {
			args = append(args, ParamSym(p))
		}
	}
	if free == nil {
		for _, fv := range fn.FreeVars {
			free = append(free, typedSym("fv:"+fv.Name(), fv.Type()))
		}
	}
	for _, l := range facts {
		st.facts.add(l)
	}
	// the receiver and free variables of a root are never nil
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			st.facts.add(litNil(args[0]).Not())
		}
	}
	for _, fv := range free {
		st.facts.add(litNil(fv).Not())
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]*LoopInst{}}
	for i, p := range fn.Params {
		fr.wenv()[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.wenv()[fv] = free[i]
	}
	st.frames = []*Frame{fr}
	fr.block = fn.Blocks[0]
	ex.covered[fn] = true
	return st
}

// Run explores everything reachable from st.
func (ex *Explorer) Run(st *State) []*Path {
	ex.work = append(ex.work, st)
	for len(ex.work) > 0 {
		s := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		ex.runState(s)
		r := ex.rootEx()
		if r.steps > r.maxStep || len(ex.paths) > ex.maxPath {
			ex.undecided(nil, "exploration budget exhausted (%d steps, %d partitions)", r.steps, len(ex.paths))
			break
		}
	}
	return ex.paths
}

// Explore runs fn with symbolic parameters.
func (ex *Explorer) Explore(fn *ssa.Function, facts ...Lit) []*Path {
	return ex.Run(ex.Start(fn, nil, nil, facts...))
}

func (ex *Explorer) push(st *State) { ex.work = append(ex.work, st) }

func (ex *Explorer) finish(st *State, p *Path) {
	p.St = st
	ex.paths = append(ex.paths, p)
}

// fork continues in both outcomes of a literal; it returns the states that are
// feasible (true first).
func (ex *Explorer) fork(st *State, l Lit) (t, f *State) {
	if st.facts.Implies(l) {
		return st, nil
	}
	if st.facts.Implies(l.Not()) {
		return nil, st
	}
	f = st.clone()
	t = st
	if !t.facts.add(l) {
		t = nil
	}
	if !f.facts.add(l.Not()) {
		f = nil
	}
	return t, f
}

func (ex *Explorer) val(st *State, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return constTerm(c)
	case *ssa.Function:
		t := mk(OFunc, c.String(), 0, c.Type(), nil, nil)
		t.Fn = c
		return t
	case *ssa.Global:
		return globalTerm(c)
	case *ssa.Builtin:
		return Sym("builtin:"+c.Name(), nil)
	}
	t, ok := st.top().env[v]
	if !ok {
		return Sym("?undef:"+v.Name(), v.Type())
	}
	return t
}

func globalTerm(g *ssa.Global) *Term {
	n := g.Name()
	if g.Pkg != nil {
		n = g.Pkg.Pkg.Path() + "." + n
	}
	t := mk(OGlobal, n, 0, g.Type(), nil, nil)
	t.Obj = g
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return ZeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Sym("float:"+c.Value.String(), c.Type())
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return Int(i)
		}
		return Sym("big:"+c.Value.String(), c.Type())
	}
	return Sym("const:"+c.Value.String(), c.Type())
}

func (st *State) set(v ssa.Value, t *Term) { st.top().wenv()[v] = t }

// newAlloc creates an allocation instance.
func (ex *Explorer) newAlloc(st *State, typ types.Type, site ssa.Value, fn *ssa.Function) *Term {
	ex.w.seq++
	st.alloc++
	name := fmt.Sprintf("new%d", ex.w.seq)
	if ex.init {
		name = fmt.Sprintf("init%d", ex.w.nextInit())
	}
	if typ != nil {
		name += ":" + types.TypeString(typ, func(p *types.Package) string { return p.Name() })
	}
	t := mk(OAlloc, name, 0, nil, nil, nil)
	t.Obj = &AllocInfo{Seq: st.alloc, Type: typ, Site: site, Fn: fn}
	return t
}

// fresh makes an unknown value.
func (ex *Explorer) fresh(st *State, hint string, typ types.Type) *Term {
	ex.w.seq++
	return Sym(fmt.Sprintf("%s%%%d", hint, ex.w.seq), typ)
}

// obligation requires l; it is recorded unless it follows, then assumed. It
// returns false when the partition cannot continue.
func (ex *Explorer) require(st *State, kind string, l Lit, instr ssa.Instruction, subj *Term) bool {
	if st.facts.Implies(l) {
		if ex.oblig {
			st.emit(&Event{Kind: EOblig, Callee: kind, OK: true, Instr: instr, Val: litTerm(l), Loc: subj})
		}
		return true
	}
	if ex.oblig {
		st.emit(&Event{Kind: EOblig, Callee: kind, OK: false, Instr: instr, Val: litTerm(l), Loc: subj})
	}
	if !st.facts.add(l) {
		ex.finish(st, &Path{End: "panic", Pos: instrPos(instr), Instr: instr})
		return false
	}
	return true
}

func (ex *Explorer) requireNonNil(st *State, p *Term, instr ssa.Instruction) bool {
	return ex.require(st, "nil-deref", litNil(p).Not(), instr, p)
}

// runState advances one partition until it ends or forks.
func (ex *Explorer) runState(st *State) {
	root := ex.rootEx()
	for {
		root.steps++
		st.steps++
		if root.steps > root.maxStep {
			return
		}
		fr := st.top()
		if fr.pc >= len(fr.block.Instrs) {
			ex.undecided(st, "fell off block")
			return
		}
		in := fr.block.Instrs[fr.pc]
		if ex.rec == nil && fr.pc == len(fr.block.Instrs)-1 {
			root.blocks[fr.block] = true
		}
		switch i := in.(type) {
		case *ssa.If:
			c := asLit(ex.val(st, i.Cond))
			t, f := ex.fork(st, c)
			b := fr.block
			if f != nil && t != nil {
				if ex.enter(f, b, b.Succs[1]) {
					ex.push(f)
				}
				if !ex.enter(t, b, b.Succs[0]) {
					return
				}
				st = t
				continue
			}
			if t != nil {
				if !ex.enter(t, b, b.Succs[0]) {
					return
				}
				st = t
				continue
			}
			if f != nil {
				if !ex.enter(f, b, b.Succs[1]) {
					return
				}
				st = f
				continue
			}
			return
		case *ssa.Jump:
			if !ex.enter(st, fr.block, fr.block.Succs[0]) {
				return
			}
			continue
		case *ssa.Return:
			res := make([]*Term, len(i.Results))
			for k, r := range i.Results {
				res[k] = ex.val(st, r)
			}
			if !ex.doReturn(st, res, i) {
				return
			}
			continue
		case *ssa.RunDefers:
			if len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				// pc is not advanced: RunDefers runs again for the next one
				d.call.isDef = true
				states := ex.call(st, d.call)
				if len(states) == 0 {
					return
				}
				for _, s := range states[1:] {
					ex.push(s)
				}
				st = states[0]
				continue
			}
			fr.pc++
			continue
		case *ssa.Panic:
			ex.finish(st, &Path{End: "panic", Pos: i.Pos(), Instr: i, Results: []*Term{ex.val(st, i.X)}})
			return
		}
		fr.pc++
		states := ex.step(st, in)
		if len(states) == 0 {
			return
		}
		for _, s := range states[1:] {
			ex.push(s)
		}
		st = states[0]
	}
}

// doReturn pops a frame. false: partition ended.
func (ex *Explorer) doReturn(st *State, res []*Term, in *ssa.Return) bool {
	fr := st.top()
	if fr.enter != nil {
		st.emit(&Event{Kind: ELeave, Fn: fr.fn, Of: fr.enter, Res: res, Pos: in.Pos()})
	}
	if len(st.frames) == 1 {
		ex.finish(st, &Path{End: "return", Results: res, Pos: in.Pos(), Instr: in})
		return false
	}
	if ex.parent != nil && len(st.frames) == ex.stopDepth {
		ex.finish(st, &Path{End: "stop", Results: res, Pos: in.Pos()})
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	if fr.cont != nil {
		for _, s := range fr.cont(ex, st, res) {
			ex.push(s)
		}
		return false
	}
	if fr.ret != nil {
		st.set(fr.ret, tupleOf(fr.ret.Type(), res))
	}
	return true
}

func tupleOf(t types.Type, res []*Term) *Term {
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 1 {
			return res[0]
		}
		return mk(OTuple, "", 0, nil, res, nil)
	}
	if len(res) == 1 {
		return res[0]
	}
	return mk(OTuple, "", 0, nil, res, nil)
}

func one(st *State) []*State { return []*State{st} }

// step executes a non-control instruction.
func (ex *Explorer) step(st *State, in ssa.Instruction) []*State {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		st.set(i, ex.newAlloc(st, derefType(i.Type()), i, i.Parent()))
	case *ssa.BinOp:
		return ex.binop(st, i)
	case *ssa.UnOp:
		return ex.unop(st, i)
	case *ssa.ChangeType:
		st.set(i, ex.val(st, i.X))
	case *ssa.ChangeInterface:
		st.set(i, ex.val(st, i.X))
	case *ssa.Convert:
		st.set(i, ex.convert(st, ex.val(st, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		st.set(i, ex.convert(st, ex.val(st, i.X), i.X.Type(), i.Type()))
	case *ssa.SliceToArrayPointer:
		st.set(i, ex.val(st, i.X))
	case *ssa.MakeInterface:
		x := ex.val(st, i.X)
		t := mk(OIface, i.X.Type().String(), 0, i.X.Type(), []*Term{x}, nil)
		st.set(i, t)
	case *ssa.MakeClosure:
		b := make([]*Term, len(i.Bindings))
		for k, v := range i.Bindings {
			b[k] = ex.val(st, v)
		}
		f := i.Fn.(*ssa.Function)
		op := OClos
		t := mk(op, f.String(), 0, i.Type(), b, nil)
		t.Fn = f
		st.set(i, t)
	case *ssa.MakeMap:
		st.set(i, ex.newAlloc(st, i.Type(), i, i.Parent()))
	case *ssa.MakeChan:
		t := ex.newAlloc(st, i.Type(), i, i.Parent())
		st.emit(&Event{Kind: ECall, Callee: "makechan", Args: []*Term{ex.val(st, i.Size)}, Res: []*Term{t}, Instr: i})
		st.set(i, t)
	case *ssa.MakeSlice:
		n := ex.val(st, i.Len)
		c := ex.val(st, i.Cap)
		if !ex.require(st, "makeslice-len", litLE0(Scale(n, -1)), i, n) {
			return nil
		}
		if c != n && !ex.require(st, "makeslice-cap", litLE(n, c), i, c) {
			return nil
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		a := ex.newAlloc(st, types.NewArray(et, -1), i, i.Parent())
		st.set(i, mk(OSliceV, "", 0, i.Type(), []*Term{a, tZeroI, n}, nil))
	case *ssa.Slice:
		return ex.slice(st, i)
	case *ssa.FieldAddr:
		p := ex.val(st, i.X)
		if !ex.requireNonNil(st, p, i) {
			return nil
		}
		n, ft := fieldName(derefType(i.X.Type()), i.Field)
		a := FieldAddr(p, n)
		_ = ft
		st.set(i, a)
	case *ssa.Field:
		n, ft := fieldName(i.X.Type(), i.Field)
		st.set(i, FieldOf(ex.val(st, i.X), n, ft))
	case *ssa.IndexAddr:
		return ex.indexAddr(st, i)
	case *ssa.Index:
		x, ix := ex.val(st, i.X), ex.val(st, i.Index)
		n := LenOf(x)
		if a, ok := i.X.Type().Underlying().(*types.Array); ok {
			n = Int(a.Len())
		}
		if !ex.boundIndex(st, ix, n, i) {
			return nil
		}
		st.set(i, ElemOf(x, ix, i.Type()))
	case *ssa.Lookup:
		return ex.mapLookup(st, i)
	case *ssa.Select:
		return ex.selectStmt(st, i)
	case *ssa.Range:
		x := ex.val(st, i.X)
		st.set(i, mk(OTuple, "range", 0, i.X.Type(), []*Term{x}, nil))
	case *ssa.Next:
		return ex.next(st, i)
	case *ssa.TypeAssert:
		return ex.typeAssert(st, i)
	case *ssa.Extract:
		t := ex.val(st, i.Tuple)
		if t.Op == OTuple && i.Index < len(t.Args) {
			st.set(i, t.Args[i.Index])
		} else {
			st.set(i, Sym(fmt.Sprintf("?extract(%s,%d)", t, i.Index), i.Type()))
		}
	case *ssa.Store:
		return ex.storeInstr(st, i)
	case *ssa.MapUpdate:
		m, k, v := ex.val(st, i.Map), ex.val(st, i.Key), ex.val(st, i.Value)
		if !ex.require(st, "nil-map-write", litNil(m).Not(), i, m) {
			return nil
		}
		k = ex.mapKey(st, k)
		st.emit(&Event{Kind: EMapSet, Loc: m, Args: []*Term{m, k}, Val: v, Snap: []*Term{m, k, ex.Snap(st, v, i.Value.Type())}, Instr: i})
		mt := i.Map.Type().Underlying().(*types.Map)
		loc := mk(OMapAd, "", 0, nil, []*Term{m, k}, nil)
		ex.mapStore(st, loc, v, mt.Elem())
	case *ssa.Send:
		ch, x := ex.val(st, i.Chan), ex.val(st, i.X)
		st.emit(&Event{Kind: ESend, Loc: ch, Val: x, Snap: []*Term{ex.Snap(st, x, i.X.Type())}, Instr: i})
	case *ssa.Go:
		cs := ex.makeCall(st, i.Common(), i, nil)
		ex.emitCallLike(st, EGo, cs)
		if ex.goRun {
			if fn, args, name, _ := ex.resolve(cs); ex.inlinable(st, fn) {
				run := st.clone()
				var free []*Term
				if cs.callee != nil && cs.callee.Op == OClos {
					free = cs.callee.Args
				}
				ex.inline(run, cs, fn, args, free, name, func(ex *Explorer, st *State, res []*Term) []*State {
					ex.finish(st, &Path{End: "goroutine", Pos: i.Pos(), Instr: i})
					return nil
				})
				return []*State{st, run}
			}
		}
	case *ssa.Defer:
		cs := ex.makeCall(st, i.Common(), i, nil)
		fr := st.top()
		fr.defers = append(fr.defers, &deferred{i, cs})
	case *ssa.Call:
		cs := ex.makeCall(st, i.Common(), i, i)
		return ex.call(st, cs)
	default:
		ex.undecided(st, "unmodelled instruction %T", in)
		if v, ok := in.(ssa.Value); ok {
			st.set(v, ex.fresh(st, "?", v.Type()))
		}
	}
	return one(st)
}

func (ex *Explorer) noteWrite(loc *Term, typ types.Type, val *Term, whole bool) {
	if ex.rec == nil {
		return
	}
	ws, ok := ex.rec[loc]
	if !ok {
		ex.recOrder = append(ex.recOrder, loc)
	}
	for _, w := range ws {
		if w.val == val && w.whole == whole {
			return
		}
	}
	ex.rec[loc] = append(ws, recWrite{typ, val, whole})
}

func (ex *Explorer) storeInstr(st *State, i *ssa.Store) []*State {
	p, v := ex.val(st, i.Addr), ex.val(st, i.Val)
	if !ex.requireNonNil(st, p, i) {
		return nil
	}
	ex.doStore(st, p, v, i.Val.Type(), i)
	return one(st)
}

func (ex *Explorer) doStore(st *State, p, v *Term, typ types.Type, in ssa.Instruction) {
	base := addrBase(p)
	if ex.init && p.Op == OGlobal && isErrorType(typ) && v.Op == OApp {
		v = Sym("@"+shortGlobal(p), typ)
	}
	if base.Op != OAlloc || ex.w.isInitAlloc(base) || st.escaped(base) {
		st.emit(&Event{Kind: EStore, Loc: p, Val: v, Instr: in, Snap: []*Term{ex.Snap(st, v, typ)}})
	}
	ex.noteWrite(p, typ, v, false)
	ex.store(st, p, v, typ)
}

func (st *State) escaped(*Term) bool { return false }

func shortGlobal(g *Term) string {
	n := g.Aux
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func isErrorType(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok2 := t.(*types.Alias); ok2 {
			return isErrorType(types.Unalias(a))
		}
		return false
	}
	return n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func (ex *Explorer) boundIndex(st *State, ix, n *Term, in ssa.Instruction) bool {
	if !ex.require(st, "index-neg", litLE0(Scale(ix, -1)), in, ix) {
		return false
	}
	return ex.require(st, "index-range", litLT(ix, n), in, ix)
}

func (ex *Explorer) indexAddr(st *State, i *ssa.IndexAddr) []*State {
	x, ix := ex.val(st, i.X), ex.val(st, i.Index)
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		if !ex.requireNonNil(st, x, i) {
			return nil
		}
		if !ex.boundIndex(st, ix, Int(p.Elem().Underlying().(*types.Array).Len()), i) {
			return nil
		}
	} else {
		if !ex.boundIndex(st, ix, LenOf(x), i) {
			return nil
		}
	}
	st.set(i, IndexAddr(x, ix))
	return one(st)
}

func intWidth(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Uint8:
		return 8, true
	case types.Int16:
		return 16, false
	case types.Uint16:
		return 16, true
	case types.Int32:
		return 32, false
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func (ex *Explorer) truncTo(st *State, v *Term, t types.Type) *Term {
	bits, uns := intWidth(t)
	if bits >= 64 {
		return v
	}
	if v.IsInt() {
		if uns {
			return Int(v.I & (int64(1)<<uint(bits) - 1))
		}
		sh := uint(64 - bits)
		return Int(v.I << sh >> sh)
	}
	max := int64(1)<<uint(bits) - 1
	min := int64(0)
	if !uns {
		max = int64(1)<<uint(bits-1) - 1
		min = -max - 1
	}
	if vt := v.Type; vt != nil && v.Op != OLin && v.Op != OShl {
		b2, u2 := intWidth(vt)
		if isIntType(vt) && (b2 < bits && (u2 || !uns) || b2 == bits && u2 == uns) {
			return v
		}
	}
	if st.facts.Implies(litLE(v, Int(max))) && st.facts.Implies(litLE(Int(min), v)) {
		return v
	}
	return mk(OTrunc, fmt.Sprintf("%s", t), 0, t, []*Term{v}, nil)
}

func (ex *Explorer) convert(st *State, v *Term, from, to types.Type) *Term {
	fi, ti := isIntType(from), isIntType(to)
	if fi && ti {
		if v.Type == nil {
			v.Type = from
		}
		return ex.truncTo(st, v, to)
	}
	if isBytesLike(from) && isBytesLike(to) {
		c := ex.content(st, v)
		if c.Type == nil {
			c.Type = to
		}
		if isStringType(to) {
			return c
		}
		// a fresh buffer with this content
		return c
	}
	if fi && isStringType(to) {
		return App("runeToString", to, v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if isIntType(from) || isIntType(to) {
		return mk(OConvT, to.String(), 0, to, []*Term{v}, nil)
	}
	return mk(OConvT, to.String(), 0, to, []*Term{v}, nil)
}

func (ex *Explorer) binop(st *State, i *ssa.BinOp) []*State {
	a, b := ex.val(st, i.X), ex.val(st, i.Y)
	t := i.X.Type()
	if isIntType(t) {
		if a.Type == nil {
			a.Type = t
		}
		wrap := func(v *Term) {
			st.set(i, ex.wrap(st, v, i.Type()))
		}
		switch i.Op {
		case token.ADD:
			wrap(Add(a, b))
		case token.SUB:
			wrap(Sub(a, b))
		case token.MUL:
			wrap(Mul(a, b))
		case token.QUO, token.REM:
			if !ex.require(st, "div-zero", litEQ0(b).Not(), i, b) {
				return nil
			}
			nn := st.facts.Implies(litLE0(Scale(a, -1)))
			if i.Op == token.QUO {
				if nn || !b.IsInt() {
					st.set(i, Div(a, b))
				} else {
					st.set(i, mk(ODiv, "", 0, t, []*Term{a, b}, nil))
				}
			} else {
				if nn || !b.IsInt() {
					st.set(i, Mod(a, b))
				} else {
					st.set(i, mk(OMod, "", 0, t, []*Term{a, b}, nil))
				}
			}
		case token.AND:
			st.set(i, And(a, b))
		case token.OR:
			st.set(i, bin(OOr, a, b))
		case token.XOR:
			st.set(i, bin(OXor, a, b))
		case token.AND_NOT:
			st.set(i, bin(OAndNot, a, b))
		case token.SHL:
			wrap(Shl(a, b))
		case token.SHR:
			st.set(i, Shr(a, b))
		case token.EQL:
			st.set(i, litTerm(litEQ0(Sub(a, b))))
		case token.NEQ:
			st.set(i, litTerm(litEQ0(Sub(a, b)).Not()))
		case token.LSS:
			st.set(i, litTerm(litLT(a, b)))
		case token.LEQ:
			st.set(i, litTerm(litLE(a, b)))
		case token.GTR:
			st.set(i, litTerm(litLT(b, a)))
		case token.GEQ:
			st.set(i, litTerm(litLE(b, a)))
		}
		return one(st)
	}
	switch i.Op {
	case token.EQL, token.NEQ:
		a, b = ex.cmpVal(st, a, t), ex.cmpVal(st, b, i.Y.Type())
		l := litEQ(a, b)
		if isBoolType(t) && !a.IsBool() && !b.IsBool() {
			l = Lit{App("iff", types.Typ[types.Bool], a, b), false}
		}
		if i.Op == token.NEQ {
			l = l.Not()
		}
		st.set(i, litTerm(l))
	case token.ADD:
		if isStringType(t) {
			c := Concat(a, b)
			if c.Type == nil {
				c.Type = t
			}
			st.set(i, c)
			return one(st)
		}
		st.set(i, App("add", t, a, b))
	case token.LSS:
		st.set(i, App("lt", types.Typ[types.Bool], a, b))
	case token.GTR:
		st.set(i, App("lt", types.Typ[types.Bool], b, a))
	case token.LEQ:
		st.set(i, App("!", types.Typ[types.Bool], App("lt", types.Typ[types.Bool], b, a)))
	case token.GEQ:
		st.set(i, App("!", types.Typ[types.Bool], App("lt", types.Typ[types.Bool], a, b)))
	default:
		st.set(i, App(i.Op.String(), i.Type(), a, b))
	}
	return one(st)
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// wrap models the narrowing of results of 8 to 32 bit arithmetic.
func (ex *Explorer) wrap(st *State, v *Term, t types.Type) *Term {
	if bits, _ := intWidth(t); bits < 64 {
		return ex.truncTo(st, v, t)
	}
	return v
}

// cmpVal prepares an operand of ==.
func (ex *Explorer) cmpVal(st *State, v *Term, t types.Type) *Term {
	if v.Op == OZero && v.Type != nil {
		if _, ok := v.Type.Underlying().(*types.Interface); ok {
			return tNil
		}
	}
	if isStringType(t) {
		return v
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return ex.content(st, v)
	}
	return v
}

func (ex *Explorer) unop(st *State, i *ssa.UnOp) []*State {
	x := ex.val(st, i.X)
	switch i.Op {
	case token.NOT:
		st.set(i, litTerm(asLit(x).Not()))
	case token.SUB:
		if isIntType(i.Type()) {
			st.set(i, Scale(x, -1))
		} else {
			st.set(i, App("neg", i.Type(), x))
		}
	case token.XOR:
		st.set(i, App("^", i.Type(), x))
	case token.MUL:
		if !ex.requireNonNil(st, x, i) {
			return nil
		}
		v := ex.load(st, x, i.Type())
		if v.Type == nil && v.Op != OStruct {
			v.Type = i.Type()
		}
		if ex.readEv {
			b := addrBase(x)
			if b.Op != OAlloc {
				st.emit(&Event{Kind: EReadFld, Loc: x, Val: v, Instr: i})
			}
		}
		st.set(i, v)
	case token.ARROW:
		ct := i.X.Type().Underlying().(*types.Chan)
		v := ex.fresh(st, "recv", ct.Elem())
		ev := st.emit(&Event{Kind: ERecv, Loc: x, Instr: i, Res: []*Term{v}})
		v.Obj = ev
		if i.CommaOk {
			ok := ex.fresh(st, "recvok", types.Typ[types.Bool])
			ev.Res = append(ev.Res, ok)
			f := st.clone()
			st.facts.add(Lit{ok, false})
			st.set(i, mk(OTuple, "", 0, nil, []*Term{v, tTrue}, nil))
			f.facts.add(Lit{ok, true})
			f.set(i, mk(OTuple, "", 0, nil, []*Term{ZeroOf(ct.Elem()), tFalse}, nil))
			return []*State{st, f}
		}
		st.set(i, v)
	default:
		ex.undecided(st, "unop %s", i.Op)
	}
	return one(st)
}

func (ex *Explorer) slice(st *State, i *ssa.Slice) []*State {
	x := ex.val(st, i.X)
	var n *Term
	isArr := false
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		if !ex.requireNonNil(st, x, i) {
			return nil
		}
		n = Int(p.Elem().Underlying().(*types.Array).Len())
		isArr = true
	} else {
		n = LenOf(x)
	}
	lo, hi := tZeroI, n
	if i.Low != nil {
		lo = ex.val(st, i.Low)
	}
	if i.High != nil {
		hi = ex.val(st, i.High)
	}
	if lo != tZeroI && !ex.require(st, "slice-low", litLE0(Scale(lo, -1)), i, lo) {
		return nil
	}
	if (i.Low != nil && lo != tZeroI || i.High != nil) && !ex.require(st, "slice-order", litLE(lo, hi), i, hi) {
		return nil
	}
	if i.High != nil && hi != n {
		// slicing up to the capacity is legal for slices; requiring the length
		// is stricter and holds for all code that does not re-extend slices
		if !ex.require(st, "slice-high", litLE(hi, n), i, hi) {
			return nil
		}
	}
	if i.Max != nil {
		_ = i.Max
	}
	if isArr && onlySliced(i) {
		if v := ex.load(st, x, nil); v.Op == OApp && strings.HasPrefix(v.Aux, "sha256") {
			v = SliceTerm(v, lo, hi)
			st.set(i, v)
			return one(st)
		}
	}
	if isArr {
		st.set(i, mk(OSliceV, "", 0, i.Type(), []*Term{x, lo, Sub(hi, lo)}, nil))
		return one(st)
	}
	if x.Op == OSliceV {
		st.set(i, mk(OSliceV, "", 0, i.Type(), []*Term{x.Args[0], Add(x.Args[1], lo), Sub(hi, lo)}, nil))
		return one(st)
	}
	if !isStringType(i.X.Type()) && hasOverride(st, x) {
		st.set(i, mk(OSliceV, "", 0, i.Type(), []*Term{x, lo, Sub(hi, lo)}, nil))
		return one(st)
	}
	v := SliceTerm(x, lo, hi)
	if v.Type == nil {
		v.Type = i.Type()
	}
	st.set(i, v)
	return one(st)
}

// onlySliced: the array is stored to once, as a whole, and then only this slice of
// it is used: the slice is as good as the value.
func onlySliced(i *ssa.Slice) bool {
	a, ok := i.X.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return false
	}
	stores := 0
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != a || r.Val == a {
				return false
			}
			stores++
		case *ssa.Slice:
			if r != i {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return stores == 1
}

func (ex *Explorer) mapKey(st *State, k *Term) *Term {
	if k.Op == OAlloc || k.Op == OSliceV {
		return k
	}
	return k
}

func (ex *Explorer) mapStore(st *State, loc, v *Term, typ types.Type) {
	ex.noteWrite(loc, typ, v, false)
	// other keys may be equal
	for k := range st.heap.m {
		if k.Op == OMapAd && k != loc && k.Args[0] == loc.Args[0] && !distinctKey(st, k.Args[1], loc.Args[1]) {
			st.heap.wm()[k] = Sym(fmt.Sprintf("?%s@%d", k, len(st.events)), nil)
		}
	}
	st.heap.wm()[loc] = v
}

func distinctKey(st *State, a, b *Term) bool {
	if a == b {
		return false
	}
	if distinctConst(a, b) {
		return true
	}
	if a.IsInt() || b.IsInt() {
		return st.facts.Implies(litEQ0(Sub(a, b)).Not())
	}
	return st.facts.Implies(litEQ(a, b).Not())
}

// known entries of a map allocated by analysed code, and whether that is all
func (ex *Explorer) mapEntries(st *State, m *Term) (keys []*Term, complete bool) {
	seen := map[*Term]bool{}
	for _, h := range []*Heap{st.heap, ex.w.initHeap} {
		for k := range h.m {
			if k.Op == OMapAd && k.Args[0] == m && !seen[k.Args[1]] {
				seen[k.Args[1]] = true
				keys = append(keys, k.Args[1])
			}
		}
	}
	sortTerms(keys)
	if m.Op != OAlloc {
		return keys, false
	}
	if _, ok := st.heap.base[m]; ok {
		return keys, false
	}
	if _, ok := ex.w.initHeap.base[m]; ok {
		return keys, false
	}
	return keys, true
}

func (ex *Explorer) mapLookup(st *State, i *ssa.Lookup) []*State {
	m, k := ex.val(st, i.X), ex.val(st, i.Index)
	if isStringType(i.X.Type()) { // string index
		if !ex.boundIndex(st, k, LenOf(m), i) {
			return nil
		}
		st.set(i, ElemOf(m, k, i.Type()))
		return one(st)
	}
	mt := i.X.Type().Underlying().(*types.Map)
	k = ex.mapKey(st, k)
	ge := st.emit(&Event{Kind: EMapGet, Loc: m, Args: []*Term{m, k}, Instr: i})
	setRes := func(s *State, v, ok *Term) {
		if i.CommaOk {
			s.set(i, mk(OTuple, "", 0, nil, []*Term{v, ok}, nil))
		} else {
			s.set(i, v)
		}
	}
	if m.IsNil() {
		setRes(st, ZeroOf(mt.Elem()), tFalse)
		return one(st)
	}
	if v, ok, known := ex.wireLookup(m, k, mt.Elem()); known {
		setRes(st, v, ok)
		return one(st)
	}
	keys, complete := ex.mapEntries(st, m)
	var out []*State
	cur := st
	for _, kk := range keys {
		v, _ := ex.lookup(cur, mk(OMapAd, "", 0, nil, []*Term{m, kk}, nil))
		l := litEQ(kk, k)
		if kk.IsInt() || k.IsInt() || isIntType(mt.Key()) {
			l = litEQ0(Sub(kk, k))
		}
		t, f := ex.fork(cur, l)
		if t != nil {
			if v == tDeleted {
				setRes(t, ZeroOf(mt.Elem()), tFalse)
			} else {
				setRes(t, v, tTrue)
			}
			out = append(out, t)
		}
		if f == nil {
			return out
		}
		cur = f
	}
	if complete {
		setRes(cur, ZeroOf(mt.Elem()), tFalse)
		return append(out, cur)
	}
	// unknown content
	mc := m
	if b, ok := cur.heap.base[m]; ok {
		mc = b
	}
	has := mk(OMapHas, "", 0, types.Typ[types.Bool], []*Term{mc, k}, nil)
	el := mk(OMapElem, "", 0, mt.Elem(), []*Term{mc, k}, nil)
	ge.Res = []*Term{el, has}
	if !i.CommaOk {
		// present and absent differ only in the value
		f := cur.clone()
		if cur.facts.add(Lit{has, false}) {
			setRes(cur, el, tTrue)
			out = append(out, cur)
		}
		if f.facts.add(Lit{has, true}) {
			setRes(f, ZeroOf(mt.Elem()), tFalse)
			out = append(out, f)
		}
		return out
	}
	t, f := ex.fork(cur, Lit{has, false})
	if t != nil {
		setRes(t, el, tTrue)
		out = append(out, t)
	}
	if f != nil {
		setRes(f, ZeroOf(mt.Elem()), tFalse)
		out = append(out, f)
	}
	return out
}

func (ex *Explorer) selectStmt(st *State, i *ssa.Select) []*State {
	var out []*State
	tp := i.Type().(*types.Tuple)
	build := func(s *State, idx int, ok *Term, recvIdx int, v *Term) {
		args := []*Term{Int(int64(idx)), ok}
		r := 0
		for k := 2; k < tp.Len(); k++ {
			if r == recvIdx && v != nil {
				args = append(args, v)
			} else {
				args = append(args, ZeroOf(tp.At(k).Type()))
			}
			r++
		}
		s.set(i, mk(OTuple, "", 0, nil, args, nil))
	}
	r := 0
	for k, c := range i.States {
		s := st.clone()
		ch := ex.val(s, c.Chan)
		if c.Dir == types.SendOnly {
			x := ex.val(s, c.Send)
			s.emit(&Event{Kind: ESend, Loc: ch, Val: x, Snap: []*Term{ex.Snap(s, x, c.Send.Type())}, Instr: i, Pos: c.Pos})
			build(s, k, tFalse, -1, nil)
			out = append(out, s)
			continue
		}
		ct := c.Chan.Type().Underlying().(*types.Chan)
		v := ex.fresh(s, "recv", ct.Elem())
		ev := s.emit(&Event{Kind: ERecv, Loc: ch, Instr: i, Pos: c.Pos, Res: []*Term{v}})
		v.Obj = ev
		s2 := s.clone()
		okS := ex.fresh(s, "recvok", types.Typ[types.Bool])
		ex.fresh(s2, "recvok", nil)
		ev.Res = append(ev.Res, okS)
		s.facts.add(Lit{okS, false})
		build(s, k, tTrue, r, v)
		s2.facts.add(Lit{okS, true})
		build(s2, k, tFalse, r, ZeroOf(ct.Elem()))
		out = append(out, s, s2)
		r++
	}
	if !i.Blocking {
		build(st, -1, tFalse, -1, nil)
		out = append(out, st)
	} else if len(i.States) == 0 {
		ex.finish(st, &Path{End: "block", Pos: i.Pos(), Instr: i})
	}
	return out
}

func (ex *Explorer) next(st *State, i *ssa.Next) []*State {
	it := ex.val(st, i.Iter)
	tp := i.Type().(*types.Tuple)
	f := st.clone()
	zero := []*Term{tFalse, ZeroOf(nz(tp.At(1).Type())), ZeroOf(nz(tp.At(2).Type()))}
	f.set(i, mk(OTuple, "", 0, nil, zero, nil))
	if i.IsString {
		k := ex.fresh(st, "ri", types.Typ[types.Int])
		r := ex.fresh(st, "rune", types.Typ[types.Rune])
		st.set(i, mk(OTuple, "", 0, nil, []*Term{tTrue, k, r}, nil))
		return []*State{st, f}
	}
	x := it
	if it.Op == OTuple {
		x = it.Args[0]
	}
	if x.IsNil() {
		return one(f)
	}
	e := Event{Kind: EMapGet, Loc: x, Args: []*Term{x}, Instr: i}
	e1, e2 := e, e
	st.emit(&e1)
	f.emit(&e2)
	k := ex.fresh(st, "rangekey", tp.At(1).Type())
	st.facts.add(Lit{mk(OMapHas, "", 0, types.Typ[types.Bool], []*Term{x, k}, nil), false})
	v := mk(OMapElem, "", 0, tp.At(2).Type(), []*Term{x, k}, nil)
	st.set(i, mk(OTuple, "", 0, nil, []*Term{tTrue, k, v}, nil))
	return []*State{st, f}
}

func nz(t types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return types.Typ[types.Int]
	}
	return t
}

func (ex *Explorer) typeAssert(st *State, i *ssa.TypeAssert) []*State {
	x := ex.val(st, i.X)
	set := func(s *State, v *Term, ok bool) {
		if i.CommaOk {
			s.set(i, mk(OTuple, "", 0, nil, []*Term{v, Bool(ok)}, nil))
		} else {
			s.set(i, v)
		}
	}
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	if x.Op == OIface && x.Type != nil {
		if toIface {
			if types.AssignableTo(x.Type, i.AssertedType) {
				set(st, x, true)
				return one(st)
			}
		} else if types.Identical(x.Type, i.AssertedType) {
			set(st, x.Args[0], true)
			return one(st)
		}
		if i.CommaOk {
			set(st, ZeroOf(i.AssertedType), false)
			return one(st)
		}
		ex.require(st, "type-assert", Lit{tFalse, false}, i, x)
		return nil
	}
	if x.IsNil() {
		if i.CommaOk {
			set(st, ZeroOf(i.AssertedType), false)
			return one(st)
		}
		ex.require(st, "type-assert", Lit{tFalse, false}, i, x)
		return nil
	}
	is := Lit{App("is:"+i.AssertedType.String(), types.Typ[types.Bool], x), false}
	v := x
	if !toIface {
		v = App("as:"+i.AssertedType.String(), i.AssertedType, x)
	}
	if !i.CommaOk {
		if !ex.require(st, "type-assert", is, i, x) {
			return nil
		}
		set(st, v, true)
		return one(st)
	}
	t, f := ex.fork(st, is)
	var out []*State
	if t != nil {
		t.facts.add(litNil(x).Not())
		set(t, v, true)
		out = append(out, t)
	}
	if f != nil {
		set(f, ZeroOf(i.AssertedType), false)
		out = append(out, f)
	}
	return out
}

// deadBlocks lists blocks of entered functions that no partition completed.
func (ex *Explorer) deadBlocks() []string {
	var out []string
	for fn := range ex.covered {
		for _, b := range fn.Blocks {
			if !ex.blocks[b] && b != fn.Recover {
				out = append(out, fmt.Sprintf("%s block %d (%s)", fn, b.Index, ex.w.Prog.Fset.Position(loopPos(b))))
			}
		}
	}
	sort.Strings(out)
	return out
}
