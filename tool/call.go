package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
}

func (ex *Explorer) makeCall(st *State, c *ssa.CallCommon, in ssa.Instruction, dest ssa.Value) *callSite {
	cs := &callSite{instr: in, common: c, dest: dest}
	if c.IsInvoke() {
		cs.recv = ex.val(st, c.Value)
	} else {
		cs.callee = ex.val(st, c.Value)
	}
	for _, a := range c.Args {
		cs.args = append(cs.args, ex.val(st, a))
	}
	return cs
}

// ifaceMethodName is the full name of an interface method.
func ifaceMethodName(c *ssa.CallCommon) string {
	return "(" + c.Value.Type().String() + ")." + c.Method.Name()
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// resolve finds the function a call goes to.
func (ex *Explorer) resolve(cs *callSite) (fn *ssa.Function, args []*Term, name string, iface string) {
	if cs.recv != nil {
		iface = ifaceMethodName(cs.common)
		if cs.recv.Op == OIface && cs.recv.Type != nil {
			if m := ex.w.Prog.LookupMethod(cs.recv.Type, cs.common.Method.Pkg(), cs.common.Method.Name()); m != nil {
				return m, append([]*Term{cs.recv.Args[0]}, cs.args...), fullName(m), iface
			}
		}
		return nil, append([]*Term{cs.recv}, cs.args...), iface, iface
	}
	c := cs.callee
	switch c.Op {
	case OFunc:
		return c.Fn, cs.args, fullName(c.Fn), ""
	case OClos:
		return c.Fn, cs.args, fullName(c.Fn), ""
	}
	if strings.HasPrefix(c.Aux, "builtin:") && c.Op == OSym {
		return nil, cs.args, c.Aux, ""
	}
	return nil, cs.args, "dyncall", ""
}

func (ex *Explorer) inlinable(st *State, fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || !ex.w.InRepo(fn) {
		if fn != nil && len(fn.Blocks) > 0 && fn.Synthetic != "" { // bound method and wrapper thunks
			if p := fnPkg(fn); p == nil || strings.HasPrefix(p.Pkg.Path(), modPath) {
				return len(st.frames) < 60
			}
		}
		return false
	}
	if ex.opaque != nil && ex.opaque(fn) {
		return false
	}
	if strings.HasSuffix(fnPkg(fn).Pkg.Path(), "/pb") && !strings.HasPrefix(fn.Name(), "Get") {
		return false
	}
	if ex.w.recursive(fn) && !ex.sameCycle(st, fn) {
		return false
	}
	for _, f := range st.frames {
		if f.fn == fn && !ex.w.InRepo(fn) {
			return false
		}
	}
	return len(st.frames) < 60
}

// call performs a call; the returned states continue after it (or inside it).
func (ex *Explorer) call(st *State, cs *callSite) []*State {
	if cs.recv != nil {
		if cs.recv.Op != OIface && !ex.require(st, "nil-iface-call", litNil(cs.recv).Not(), cs.instr, cs.recv) {
			return nil
		}
	}
	fn, args, name, iface := ex.resolve(cs)
	if fn == nil && iface == "" && name == "dyncall" {
		if cs.callee.Op == OBound {
			fn, name = cs.callee.Fn, fullName(cs.callee.Fn)
		} else if !ex.require(st, "nil-func-call", litNil(cs.callee).Not(), cs.instr, cs.callee) {
			return nil
		}
	}
	if strings.HasPrefix(name, "builtin:") {
		return ex.builtin(st, cs, name[8:], args)
	}
	if r, ok := ex.model(st, cs, name, fn, args); ok {
		return r
	}
	if ex.inlinable(st, fn) {
		var free []*Term
		if cs.callee != nil && cs.callee.Op == OClos {
			free = cs.callee.Args
		}
		ex.inline(st, cs, fn, args, free, name, nil)
		if ex.rootEx().joinAbove > 0 && len(fn.Blocks) > 1 && !cs.isDef {
			return ex.inlineJoined(st, cs)
		}
		return one(st)
	}
	return ex.opaqueCall(st, cs, fn, name, iface, args)
}

// inline pushes a frame for fn.
func (ex *Explorer) inline(st *State, cs *callSite, fn *ssa.Function, args, free []*Term, name string, cont func(*Explorer, *State, []*Term) []*State) {
	ex.rootEx().covered[fn] = true
	enter := st.emit(&Event{Kind: EEnter, Callee: name, Fn: fn, Args: args, Instr: cs.instr, Defer: cs.isDef})
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]*LoopInst{}, enter: enter, cont: cont}
	if cont == nil && !cs.isDef {
		fr.ret = cs.dest
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.wenv()[p] = args[i]
			if args[i] != nil && args[i].Type == nil && args[i].Op != OStruct {
				args[i].Type = p.Type()
			}
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			fr.wenv()[fv] = free[i]
		} else {
			fr.wenv()[fv] = typedSym("fv:"+fv.Name(), fv.Type())
		}
	}
	fr.block = fn.Blocks[0]
	st.frames = append(st.frames, fr)
}

func (ex *Explorer) snapArgs(st *State, sig *types.Signature, args []*Term, hasRecv bool) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		var t types.Type
		k := i
		if hasRecv {
			k--
		}
		if k >= 0 && sig != nil && k < sig.Params().Len() {
			t = sig.Params().At(k).Type()
		}
		out[i] = ex.Snap(st, a, t)
	}
	return out
}

// emitCallLike records a call event with argument snapshots.
func (ex *Explorer) emitCallLike(st *State, kind EvKind, cs *callSite) *Event {
	fn, args, name, iface := ex.resolve(cs)
	sig := cs.common.Signature()
	hasRecv := iface != "" || (fn != nil && fn.Signature.Recv() != nil)
	ev := &Event{Kind: kind, Callee: name, Fn: fn, Args: args, Instr: cs.instr, Iface: iface, Defer: cs.isDef}
	if cs.callee != nil {
		ev.Loc = cs.callee
	}
	if fn != nil && hasRecv {
		sig = fn.Signature
	}
	ev.Snap = ex.snapArgs(st, sig, args, hasRecv)
	return st.emit(ev)
}

func (ex *Explorer) setDest(st *State, cs *callSite, res []*Term) {
	if cs.dest == nil || cs.isDef {
		return
	}
	if _, ok := cs.dest.Type().(*types.Tuple); ok || len(res) > 0 {
		st.set(cs.dest, tupleOf(cs.dest.Type(), res))
	}
}

// resSyms creates the results of an opaque call.
func (ex *Explorer) resSyms(st *State, sig *types.Signature, ev *Event, name string) []*Term {
	ex.w.seq++
	short := name
	if i := strings.LastIndex(short, "/"); i >= 0 {
		short = short[i+1:]
	}
	var res []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := mk(ORes, fmt.Sprintf("%s#%d%%%d", short, i, ex.w.seq), int64(i), sig.Results().At(i).Type(), nil, nil)
		t.Obj = ev
		res = append(res, t)
	}
	return res
}

// opaqueCall records the call and invents its results.
func (ex *Explorer) opaqueCall(st *State, cs *callSite, fn *ssa.Function, name, iface string, args []*Term) []*State {
	sig := cs.common.Signature()
	ev := ex.emitCallLike(st, ECall, cs)
	// callbacks that report an error run at most once, inside the call
	if sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) && !cs.isDef {
		for _, a := range args {
			if a.Op == OClos && a.Fn != nil && len(a.Fn.Blocks) > 0 {
				rs := a.Fn.Signature.Results()
				if rs.Len() == 1 && isErrorType(rs.At(0).Type()) && ex.inlinable(st, a.Fn) {
					return ex.callback(st, cs, ev, a, sig)
				}
			}
		}
	}
	var res []*Term
	if name != "dyncall" && iface == "" && fn != nil && ex.w.pureExternal(fn, name) {
		c := make([]*Term, len(ev.Snap))
		for i, a := range ev.Snap {
			c[i] = a
		}
		for i := 0; i < sig.Results().Len(); i++ {
			n := name
			if i > 0 {
				n = fmt.Sprintf("%s#%d", name, i)
			}
			res = append(res, App(n, sig.Results().At(i).Type(), c...))
		}
		ev.OK = true // pure
	} else {
		res = ex.resSyms(st, sig, ev, name)
		ex.havocArgs(st, ev, name, fn, args)
	}
	ev.Res = res
	ex.setDest(st, cs, res)
	return one(st)
}

// havocArgs forgets the memory an unknown callee may write.
func (ex *Explorer) havocArgs(st *State, ev *Event, name string, fn *ssa.Function, args []*Term) {
	if nonMutating(name) {
		return
	}
	known := fn != nil && fn.Blocks != nil && ex.w.InRepo(fn) && len(fn.Params) == len(args)
	for i, a := range args {
		if known {
			if _, writes := ex.w.effects().writesTo(fn, i); !writes {
				continue
			}
		}
		for a.Op == OIface {
			a = a.Args[0]
		}
		switch a.Op {
		case OAlloc:
			ai := a.Obj.(*AllocInfo)
			if ai.Type != nil {
				switch ai.Type.Underlying().(type) {
				case *types.Chan:
					continue
				}
			}
			c := ex.fresh(st, fmt.Sprintf("%s!out%d", shortName(name), i), ai.Type)
			c.Obj = &outParam{ev, i}
			ev.setOut(i, c)
			ex.noteWrite(a, ai.Type, c, true)
			ex.forget(st, a, c)
		case OSliceV:
			if addrBase(a.Args[0]).Op == OAlloc {
				b := a.Args[0]
				ex.havocElems(st, ev, name, i, a)
				c := ex.fresh(st, fmt.Sprintf("%s!out%d", shortName(name), i), nil)
				c.Obj = &outParam{ev, i}
				ev.setOut(i, c)
				ex.noteWrite(b, nil, c, true)
				ex.forget(st, b, c)
			}
		}
	}
}

// havocElems forgets what the elements of a short argument list point to.
func (ex *Explorer) havocElems(st *State, ev *Event, name string, i int, a *Term) {
	if !a.Args[2].IsInt() || a.Args[2].I > 32 {
		return
	}
	for k := int64(0); k < a.Args[2].I; k++ {
		x, ok := ex.lookup(st, IndexAddr(a, Int(k)))
		if !ok {
			continue
		}
		for x.Op == OIface {
			x = x.Args[0]
		}
		if x.Op != OAlloc {
			continue
		}
		ai := x.Obj.(*AllocInfo)
		if ai.Type == nil {
			continue
		}
		if _, ok := ai.Type.Underlying().(*types.Chan); ok {
			continue
		}
		c := ex.fresh(st, fmt.Sprintf("%s!out%d.%d", shortName(name), i, k), ai.Type)
		c.Obj = &outParam{ev, 100*(i+1) + int(k)}
		ev.setOut(100*(i+1)+int(k), c)
		ex.noteWrite(x, ai.Type, c, true)
		ex.forget(st, x, c)
	}
}

// setOut records the content an opaque call left behind argument i.
func (e *Event) setOut(i int, c *Term) {
	if e.Outs == nil {
		e.Outs = map[int]*Term{}
	}
	e.Outs[i] = c
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// callback models an opaque call that runs its function argument at most once
// and reports either its own failure or the function's.
func (ex *Explorer) callback(st *State, cs *callSite, ev *Event, f *Term, sig *types.Signature) []*State {
	// 1: not run, own error
	nr := st.clone()
	e0 := ex.resSyms(nr, sig, ev, shortName(ev.Callee)+"!norun")[0]
	nr.facts.add(litNil(e0).Not())
	nr.emit(&Event{Kind: ETxEnd, Of: ev, Callee: "notrun", Res: []*Term{e0}, Instr: cs.instr})
	ex.setDest(nr, cs, []*Term{e0})
	// 2: run
	st.emit(&Event{Kind: ETxBegin, Of: ev, Callee: ev.Callee, Args: ev.Args, Snap: ev.Snap, Instr: cs.instr})
	var args []*Term
	for _, p := range f.Fn.Params {
		args = append(args, ex.fresh(st, "cb:"+p.Name(), p.Type()))
	}
	for i, a := range args {
		a.Obj = &cbParam{ev, i}
		if _, ok := f.Fn.Params[i].Type().Underlying().(*types.Basic); !ok {
			if !isSliceType(f.Fn.Params[i].Type()) {
				st.facts.add(litNil(a).Not())
			}
		}
	}
	// parameters of callback passed to View/Update of a database are not nil
	ex.inline(st, cs, f.Fn, args, f.Args, fullName(f.Fn), func(ex *Explorer, s *State, res []*Term) []*State {
		e := res[0]
		t, fl := ex.fork(s, litNil(e))
		var out []*State
		if fl != nil { // error returned by f is returned by the call
			fl.emit(&Event{Kind: ETxEnd, Of: ev, Callee: "failed", Res: []*Term{e}, Instr: cs.instr})
			ex.setDest(fl, cs, []*Term{e})
			out = append(out, fl)
		}
		if t != nil {
			c := t.clone()
			ce := ex.resSyms(c, sig, ev, shortName(ev.Callee)+"!commit")[0]
			c.facts.add(litNil(ce).Not())
			c.emit(&Event{Kind: ETxEnd, Of: ev, Callee: "commitfailed", Res: []*Term{ce}, Instr: cs.instr})
			ex.setDest(c, cs, []*Term{ce})
			out = append(out, c)
			t.emit(&Event{Kind: ETxEnd, Of: ev, Callee: "committed", Res: []*Term{tNil}, OK: true, Instr: cs.instr})
			ex.setDest(t, cs, []*Term{tNil})
			out = append(out, t)
		}
		return out
	})
	return []*State{st, nr}
}

// outParam marks content written by a call through an argument.
type outParam struct {
	ev  *Event
	idx int
}

type cbParam struct {
	ev  *Event
	idx int
}

// seqValue is the value of a slice for append.
func (ex *Explorer) seqValue(st *State, v *Term, typ types.Type) *Term {
	if isBytesLike(typ) {
		return ex.content(st, v)
	}
	switch v.Op {
	case ONil, OZero:
		return mk(OList, "", 0, typ, nil, nil)
	case OSliceV:
		var et types.Type
		if s, ok := typ.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		if v.Args[2].IsInt() && v.Args[2].I <= 64 {
			args := make([]*Term, v.Args[2].I)
			for i := range args {
				args[i] = ex.load(st, IndexAddr(v, Int(int64(i))), et)
			}
			return mk(OList, "", 0, typ, args, nil)
		}
		if !hasOverrideCells(st, v.Args[0]) {
			if b, ok := st.heap.base[v.Args[0]]; ok {
				return SliceTerm(b, v.Args[1], Add(v.Args[1], v.Args[2]))
			}
		}
		return v
	}
	if hasOverrideCells(st, v) {
		return ex.fresh(st, "?seq", typ)
	}
	return v
}

func hasOverrideCells(st *State, v *Term) bool {
	for k := range st.heap.m {
		if k.Op == OIndexAd && k.Args[0] == v {
			return true
		}
	}
	return false
}

func (ex *Explorer) builtin(st *State, cs *callSite, name string, args []*Term) []*State {
	ret := func(t *Term) []*State {
		if t != nil {
			ex.setDest(st, cs, []*Term{t})
		}
		return one(st)
	}
	at := func(i int) types.Type { return cs.common.Args[i].Type() }
	switch name {
	case "len":
		x := args[0]
		if m, ok := at(0).Underlying().(*types.Map); ok {
			_ = m
			if keys, complete := ex.mapEntries(st, x); complete {
				del := false
				for _, k := range keys {
					if v, _ := ex.lookup(st, mk(OMapAd, "", 0, nil, []*Term{x, k}, nil)); v == tDeleted {
						del = true
					}
				}
				if !del {
					return ret(Int(int64(len(keys))))
				}
			}
			return ret(mk(OLen, fmt.Sprint(len(st.events)), 0, types.Typ[types.Int], []*Term{x}, nil))
		}
		return ret(LenOf(x))
	case "cap":
		c := mk(OCap, "", 0, types.Typ[types.Int], []*Term{args[0]}, nil)
		return ret(c)
	case "append":
		a := args[0]
		if len(args) == 1 {
			return ret(a)
		}
		typ := cs.dest.Type()
		ev := st.emit(&Event{Kind: ECall, Callee: "append", Args: args, Instr: cs.instr, OK: true})
		va, vb := ex.seqValue(st, a, typ), ex.seqValue(st, args[1], at(1))
		var r *Term
		if isBytesLike(typ) {
			r = Concat(va, vb)
			if r == tEmpty {
				r = a // append(nil) of nothing
			}
			if r.Type == nil {
				r.Type = typ
			}
		} else if va.Op == OList && vb.Op == OList {
			r = mk(OList, "", 0, typ, append(append([]*Term(nil), va.Args...), vb.Args...), nil)
		} else if vb.Op == OList && len(vb.Args) == 0 {
			r = a
		} else if va.Op == OList && len(va.Args) == 0 {
			r = vb
		} else if va.Op == OAppend && va.Args[1].Op == OList && vb.Op == OList {
			r = mk(OAppend, "", 0, typ, []*Term{va.Args[0], mk(OList, "", 0, typ, append(append([]*Term(nil), va.Args[1].Args...), vb.Args...), nil)}, nil)
		} else {
			r = mk(OAppend, "", 0, typ, []*Term{va, vb}, nil)
		}
		ev.Res = []*Term{r}
		return ret(r)
	case "copy":
		return ex.copyBuiltin(st, cs, args)
	case "delete":
		m, k := args[0], ex.mapKey(st, args[1])
		st.emit(&Event{Kind: EMapDel, Loc: m, Args: []*Term{m, k}, Instr: cs.instr})
		ex.mapStore(st, mk(OMapAd, "", 0, nil, []*Term{m, k}, nil), tDeleted, nil)
		return one(st)
	case "close":
		st.emit(&Event{Kind: EClose, Loc: args[0], Instr: cs.instr, Defer: cs.isDef})
		return one(st)
	case "print", "println":
		return one(st)
	case "panic":
		ex.finish(st, &Path{End: "panic", Pos: cs.instr.Pos(), Instr: cs.instr})
		return nil
	case "recover":
		return ret(ex.fresh(st, "recover", cs.common.Signature().Results().At(0).Type()))
	case "min", "max":
		if isIntType(at(0)) && len(args) == 2 {
			l := litLE(args[0], args[1])
			if name == "max" {
				l = litLE(args[1], args[0])
			}
			t, f := ex.fork(st, l)
			var out []*State
			if t != nil {
				ex.setDest(t, cs, []*Term{args[0]})
				out = append(out, t)
			}
			if f != nil {
				ex.setDest(f, cs, []*Term{args[1]})
				out = append(out, f)
			}
			return out
		}
		return ret(App(name, at(0), args...))
	case "clear":
		c := ex.fresh(st, "cleared", at(0))
		ex.forget(st, args[0], c)
		ex.noteWrite(args[0], at(0), c, true)
		return one(st)
	case "ssa:wrapnilchk":
		if !ex.requireNonNil(st, args[0], cs.instr) {
			return nil
		}
		return ret(args[0])
	}
	ex.undecided(st, "builtin %s", name)
	if cs.dest != nil {
		return ret(ex.fresh(st, name, cs.dest.Type()))
	}
	return one(st)
}

func (ex *Explorer) copyBuiltin(st *State, cs *callSite, args []*Term) []*State {
	dst, src := args[0], args[1]
	ld, ls := LenOf(dst), LenOf(src)
	do := func(s *State, n, full *Term) {
		if dst.Op == OSliceV && n != tZeroI {
			var v *Term
			if isBytesLike(cs.common.Args[1].Type()) {
				v = ex.content(s, src)
			} else {
				v = ex.seqValue(s, src, cs.common.Args[1].Type())
			}
			if n != full {
				v = SliceTerm(v, tZeroI, n)
			}
			loc := segAddr(dst.Args[0], dst.Args[1], n)
			ex.noteWrite(loc, nil, v, false)
			b := addrBase(dst.Args[0])
			if b.Op != OAlloc {
				s.emit(&Event{Kind: EStore, Loc: loc, Val: v, Instr: cs.instr})
			}
			ex.writeSeg(s, dst.Args[0], dst.Args[1], n, v)
		} else if dst.Op != OSliceV && n != tZeroI {
			s.emit(&Event{Kind: EStore, Loc: segAddr(dst, tZeroI, n), Val: src, Instr: cs.instr})
			ex.noteWrite(segAddr(dst, tZeroI, n), nil, src, false)
			ex.writeSeg(s, dst, tZeroI, n, ex.content(s, src))
		}
		ex.setDest(s, cs, []*Term{n})
	}
	t, f := ex.fork(st, litLE(ls, ld))
	var out []*State
	if t != nil {
		do(t, ls, ls)
		out = append(out, t)
	}
	if f != nil {
		do(f, ld, ls)
		out = append(out, f)
	}
	return out
}
