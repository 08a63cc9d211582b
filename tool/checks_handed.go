package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C38", checkC38, "interprocedural effect and alias analysis over the SSA form: what is kept after a call returns (sent to a goroutine, stored in an object or variable that lives on) traced back to the callers' parameters, and the writes reachable after a value was handed over",
		"Nothing the library sends to a goroutine, starts one with, or stores in an object or variable that outlives the call gives access to memory of the request or bytes an operation was given; a key and value handed to a store's writer, and a mutation handed to a mutator, are not written to afterwards by the function that handed them over.")
}

type handing struct {
	c       *Check
	a       *effectsOf
	effs    map[*ssa.Function]*fnEffects
	callers map[*ssa.Function][]ssa.CallInstruction
	made    map[*ssa.Function][]*ssa.MakeClosure
	ops     map[*ssa.Function]bool
	iface   *types.Interface // KeyReader
	keeps   map[*ssa.Function]map[int]string
}

// contentType: values of the type hold what callers give: bytes and messages.
func contentType(t types.Type) bool {
	switch u := types.Unalias(t).(type) {
	case *types.Slice:
		return types.Identical(u.Elem(), types.Typ[types.Byte]) || contentType(u.Elem())
	case *types.Pointer:
		return contentType(u.Elem())
	case *types.Named:
		if p := u.Obj().Pkg(); p != nil && (strings.HasSuffix(p.Path(), "/pb") || strings.HasSuffix(p.Path(), "/proto") || strings.HasSuffix(p.Path(), "protoreflect")) {
			return true
		}
		return contentType(u.Underlying())
	}
	return false
}

func (h *handing) eff(f *ssa.Function) *fnEffects {
	x := h.effs[f]
	if x == nil {
		x = h.a.analyse(f)
		h.effs[f] = x
	}
	return x
}

// gives: the parameters and captured variables of f that v gives access to.
func (h *handing) gives(f *ssa.Function, v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	if !holdsMemory(v.Type()) {
		return out
	}
	x := h.eff(f)
	for _, m := range []marks{x.of(v), x.within(v)} {
		for k := range m {
			switch k.src.(type) {
			case *ssa.Parameter, *ssa.FreeVar:
				out[k.src] = true
			}
		}
	}
	return out
}

func (h *handing) scope(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && h.c.w.InRepo(f) && !generated(p) && !strings.Contains(p.Pkg.Path(), "/cmd/") && f.Synthetic == "" && f.Blocks != nil
}

func checkC38(c *Check) {
	c.assumption("what a store's writer is given it may hold until its transaction ends; functions of other packages do not keep what they are given beyond that, and copies made by proto.Clone, proto.Marshal, append to a new slice and conversions share nothing with the original")
	h := &handing{c: c, a: c.w.effects(), effs: map[*ssa.Function]*fnEffects{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, made: map[*ssa.Function][]*ssa.MakeClosure{}, ops: map[*ssa.Function]bool{}, keeps: map[*ssa.Function]map[int]string{}}
	for _, op := range c.serviceOps() {
		h.ops[op.Fn] = true
	}
	kr := c.typeNamed("verifiable", "KeyReader")
	if kr != nil {
		h.iface, _ = kr.Underlying().(*types.Interface)
	}
	if h.iface == nil {
		c.anchorFail("KeyReader is not an interface")
		return
	}
	for _, f := range c.w.Funcs {
		if !h.scope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeClosure:
					g := in.Fn.(*ssa.Function)
					h.made[g] = append(h.made[g], in)
				case ssa.CallInstruction:
					for _, g := range h.a.targets(in.Common()) {
						h.callers[g] = append(h.callers[g], in)
					}
				}
			}
		}
	}
	for _, f := range c.w.Funcs {
		if h.scope(f) {
			h.sites(f)
		}
	}
	h.writers()
	h.later()
	c.min("values kept after a call", 1)
	c.min("keys and values handed to writers", 12)
	c.min("mutations handed over", 2)
}

// sites: what f keeps beyond its return.
func (h *handing) sites(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Send:
				h.kept(f, in.X, in.Pos(), "sends")
			case *ssa.Select:
				for _, st := range in.States {
					if st.Dir == types.SendOnly {
						h.kept(f, st.Send, st.Pos, "sends")
					}
				}
			case *ssa.Go:
				for _, a := range in.Call.Args {
					h.kept(f, a, in.Pos(), "starts a goroutine with")
				}
				if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
					for _, a := range mc.Bindings {
						h.kept(f, a, in.Pos(), "starts a goroutine with")
					}
				}
			case *ssa.Store:
				if h.outlives(f, in.Addr) {
					h.kept(f, in.Val, in.Pos(), "stores")
				}
			case *ssa.MapUpdate:
				if h.outlives(f, in.Map) {
					h.kept(f, in.Value, in.Pos(), "stores")
				}
			}
		}
	}
}

// outlives: the address is in a package-level variable or in the receiver of a method
// of an object that is not a transaction's.
func (h *handing) outlives(f *ssa.Function, addr ssa.Value) bool {
	for k := range h.eff(f).of(addr) {
		switch s := k.src.(type) {
		case *ssa.Global:
			return !strings.HasPrefix(f.Name(), "init")
		case *ssa.Parameter:
			fn := s.Parent()
			if fn.Signature.Recv() == nil || fn.Params[0] != s || contentType(s.Type()) {
				continue
			}
			if types.Implements(s.Type(), h.iface) {
				continue
			}
			return true
		case *ssa.FreeVar:
			for _, mc := range h.made[f] {
				for i, fv := range f.FreeVars {
					if fv == s && h.outlives(mc.Parent(), mc.Bindings[i]) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (h *handing) kept(f *ssa.Function, v ssa.Value, pos token.Pos, how string) {
	if !holdsMemory(v.Type()) {
		return
	}
	c := h.c
	c.count("values kept after a call")
	type at struct {
		f *ssa.Function
		v ssa.Value
	}
	seen := map[at]bool{}
	bad := ""
	var up func(f *ssa.Function, v ssa.Value, d int)
	up = func(f *ssa.Function, v ssa.Value, d int) {
		if seen[at{f, v}] || d > 12 || bad != "" {
			return
		}
		seen[at{f, v}] = true
		switch v := v.(type) {
		case *ssa.FreeVar:
			for _, mc := range h.made[f] {
				for i, fv := range f.FreeVars {
					if fv == v {
						for s := range h.gives(mc.Parent(), mc.Bindings[i]) {
							up(mc.Parent(), s, d+1)
						}
						// the captured variable's content
						x := h.eff(mc.Parent())
						for k := range x.within(mc.Bindings[i]) {
							switch k.src.(type) {
							case *ssa.Parameter, *ssa.FreeVar:
								up(mc.Parent(), k.src, d+1)
							}
						}
					}
				}
			}
		case *ssa.Parameter:
			if !contentType(v.Type()) {
				return
			}
			if f.Name() == "init" || !h.scope(f) {
				return
			}
			if h.ops[f] || len(h.callers[f]) == 0 && f.Object() != nil && f.Object().Exported() && !h.taken(f) {
				bad = fmt.Sprintf("memory of %s, which %s was given", v.Name(), shortFn(f))
				return
			}
			n := -1
			for i, p := range f.Params {
				if p == v {
					n = i
				}
			}
			for _, ci := range h.callers[f] {
				g := ci.Parent()
				args := ci.Common().Args
				if ci.Common().IsInvoke() {
					args = append([]ssa.Value{ci.Common().Value}, args...)
				}
				if n < 0 || n >= len(args) {
					continue
				}
				for s := range h.gives(g, args[n]) {
					up(g, s, d+1)
				}
			}
		}
	}
	for s := range h.gives(f, v) {
		up(f, s, 0)
	}
	c.must(bad == "", "kept", shortFn(f), pos, "%s %s what gives access to %s: its caller can change it afterwards", shortFn(f), how, bad)
}

// taken: the function is used as a value.
func (h *handing) taken(f *ssa.Function) bool {
	for _, g := range h.a.taken {
		if g == f {
			return true
		}
	}
	return false
}

// writers: the parameters that are handed to a store's writer or to a mutator.
func (h *handing) writers() {
	set := func(f *ssa.Function, i int, why string) bool {
		if h.keeps[f] == nil {
			h.keeps[f] = map[int]string{}
		}
		if h.keeps[f][i] != "" {
			return false
		}
		h.keeps[f][i] = why
		return true
	}
	for changed := true; changed; {
		changed = false
		for _, f := range h.c.w.Funcs {
			if !h.scope(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for i, why := range h.handedBy(ci) {
						v := h.arg(ci, i)
						if v == nil {
							continue
						}
						for j, p := range f.Params {
							if object(v) == p && set(f, j, why) {
								changed = true
							}
						}
					}
				}
			}
		}
	}
}

func (h *handing) arg(ci ssa.CallInstruction, i int) ssa.Value {
	args := ci.Common().Args
	if ci.Common().IsInvoke() {
		if i == 0 {
			return ci.Common().Value
		}
		i--
	}
	if i < len(args) {
		return args[i]
	}
	return nil
}

// handedBy: the arguments (counted with the receiver) of a call that a writer or mutator keeps.
func (h *handing) handedBy(ci ssa.CallInstruction) map[int]string {
	cc := ci.Common()
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "Set":
			if len(cc.Args) == 3 && types.Implements(cc.Value.Type(), h.iface) {
				return map[int]string{2: "a writer's key", 3: "a writer's value"}
			}
		case "QueueMutation":
			if len(cc.Args) == 3 {
				return map[int]string{2: "a mutator's namespace", 3: "a mutation"}
			}
		}
		return nil
	}
	if g := cc.StaticCallee(); g != nil {
		if g.Name() == "Set" && len(g.Params) == 4 && types.Implements(g.Params[0].Type(), h.iface) {
			return map[int]string{2: "a writer's key", 3: "a writer's value"}
		}
		return h.keeps[g]
	}
	return nil
}

// object: the value that identifies the memory v is in or points to; nil where that is
// not one value.
func object(v ssa.Value) ssa.Value {
	var phi *ssa.Phi
	found := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			walk(x.X)
		case *ssa.IndexAddr:
			walk(x.X)
		case *ssa.Slice:
			walk(x.X)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.TypeAssert:
			walk(x.X)
		case *ssa.Phi:
			if phi == nil {
				phi = x
			}
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Const:
			if phi == nil {
				found[v] = true
			}
		case *ssa.Call:
			if inPlace(x) {
				walk(x.Call.Args[0])
				return
			}
			found[v] = true
		default:
			found[v] = true
		}
	}
	walk(v)
	switch {
	case len(found) > 1:
		return nil
	case len(found) == 0:
		if phi != nil {
			return phi
		}
		return nil
	}
	for o := range found {
		return o
	}
	return nil
}

// inPlace: an append to the front part of a slice, which writes over the rest of it.
func inPlace(x *ssa.Call) bool {
	b, ok := x.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	s, ok := x.Call.Args[0].(*ssa.Slice)
	return ok && s.High != nil && s.Max == nil
}

// later: nothing that was handed over is written to afterwards.
func (h *handing) later() {
	c := h.c
	for _, f := range c.w.Funcs {
		if !h.scope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for i, why := range h.handedBy(ci) {
					v := h.arg(ci, i)
					if v == nil || !holdsMemory(v.Type()) {
						continue
					}
					if strings.Contains(why, "writer") {
						c.count("keys and values handed to writers")
					} else {
						c.count("mutations handed over")
					}
					pos := h.writtenAfter(f, ci, h.parts(f, v))
					c.must(pos == token.NoPos, "changed later", shortFn(f), pos, "%s is given to %s by %s, which then writes to it", why, what(ci.Common()), shortFn(f))
				}
			}
		}
	}
}

// parts: the objects that v is made of, in f.
func (h *handing) parts(f *ssa.Function, v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		o := object(v)
		switch o.(type) {
		case *ssa.Const, *ssa.Function, nil:
			return
		}
		if out[o] || d > 4 {
			return
		}
		out[o] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && holdsMemory(st.Val.Type()) && st.Addr != o && object(st.Addr) == o {
					walk(st.Val, d+1)
				}
			}
		}
	}
	walk(v, 0)
	return out
}

// writtenAfter: where an object of the parts is written to on a path from the call that
// does not make the object anew.
func (h *handing) writtenAfter(f *ssa.Function, call ssa.CallInstruction, parts map[ssa.Value]bool) token.Pos {
	for o := range parts {
		if pos := h.writtenTo(f, call, o); pos != token.NoPos {
			return pos
		}
	}
	return token.NoPos
}

func (h *handing) writtenTo(f *ssa.Function, call ssa.CallInstruction, o ssa.Value) token.Pos {
	def, _ := o.(ssa.Instruction)
	if _, ok := o.(*ssa.Phi); ok {
		def = nil // carried from one iteration to the next
	}
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int) token.Pos
	scan = func(b *ssa.BasicBlock, from int) token.Pos {
		for _, in := range b.Instrs[from:] {
			if in == def {
				return token.NoPos
			}
			if h.writes(f, in, o) {
				if in.Pos() == token.NoPos {
					return call.Pos()
				}
				return in.Pos()
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if p := scan(s, 0); p != token.NoPos {
					return p
				}
			}
		}
		return token.NoPos
	}
	for i, in := range call.Block().Instrs {
		if in == call.(ssa.Instruction) {
			return scan(call.Block(), i+1)
		}
	}
	return token.NoPos
}

// writes: the instruction writes to the object.
func (h *handing) writes(f *ssa.Function, in ssa.Instruction, o ssa.Value) bool {
	switch in := in.(type) {
	case *ssa.Store:
		return in.Addr != o && object(in.Addr) == o || in.Addr == o && !isCell(o)
	case *ssa.MapUpdate:
		return object(in.Map) == o
	case ssa.CallInstruction:
		cc := in.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				x, ok := in.(*ssa.Call)
				return ok && inPlace(x) && object(cc.Args[0]) == o
			case "copy":
				return object(cc.Args[0]) == o
			}
			return false
		}
		for i := 0; ; i++ {
			v := h.arg(in, i)
			if v == nil {
				break
			}
			if !holdsMemory(v.Type()) || object(v) != o {
				continue
			}
			if g := cc.StaticCallee(); g != nil && h.c.w.InRepo(g) {
				if g.Blocks != nil && !generated(fnPkg(g)) {
					for e := range h.a.sum(g).writes {
						if e.src == ssa.Value(g.Params[i]) && !e.appends {
							return true
						}
					}
				}
				continue
			}
			for _, w := range writers[callName(cc)] {
				if w == i || w < 0 && -1-w == i {
					return true
				}
			}
		}
	}
	return false
}

// isCell: the alloc is a variable that holds one reference.
func isCell(o ssa.Value) bool {
	al, ok := o.(*ssa.Alloc)
	if !ok {
		return false
	}
	switch al.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}
