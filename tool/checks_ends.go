package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C39", checkC39, "progress analysis of every loop over the SSA form (paths of an iteration that change nothing its tests look at, direction and overflow of the counters in the tests), with path-sensitive dataflow for the values that are shifted",
		"No path through the body of a loop leads back to its start with every loop-carried value as it was and nothing done that could change the outcome (a wait, a write, a call that changes its arguments); a counter in the test that keeps a loop going moves towards the test's bound, a doubling one cannot overflow past it, an unsigned one is not tested against being negative, and a value that is shifted right until a bit is clear starts out not negative.")
}

type loopEnds struct {
	c    *Check
	a    *effectsOf
	fn   *ssa.Function
	sh   *loopShape
	back []*ssa.BasicBlock
	// what the tests depend on
	looked   map[*ssa.Phi]bool
	loads    []types.Type
	anything bool
}

func checkC39(c *Check) {
	c.assumption("waiting (receiving, sending, selecting, sleeping) and functions of other packages return; recursion ends where the shapes of the tree functions (C18) make it end; a loop that waits for the world to change is meant to wait; integers are 64 bits wide")
	a := c.w.effects()
	for _, f := range c.w.Funcs {
		p := fnPkg(f)
		if p == nil || !c.w.InRepo(f) || generated(p) || strings.Contains(p.Pkg.Path(), "/cmd/") || strings.HasSuffix(p.Pkg.Path(), "/assets") || f.Synthetic != "" || f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			sh := c.w.loopShape(f, b)
			if sh == nil {
				continue
			}
			l := &loopEnds{c: c, a: a, fn: f, sh: sh}
			for _, p := range b.Preds {
				if sh.body[p] && b.Dominates(p) {
					l.back = append(l.back, p)
				}
			}
			c.count("loops")
			l.progress()
			l.tests()
		}
		recurses(c, f)
	}
	c.min("loops", 40)
	c.min("counters in tests", 25)
}

func (l *loopEnds) pos() token.Pos {
	for _, b := range append([]*ssa.BasicBlock{l.sh.header}, l.back...) {
		for _, in := range b.Instrs {
			if in.Pos() != token.NoPos {
				return in.Pos()
			}
		}
	}
	return l.fn.Pos()
}

// progress: every iteration changes something its tests look at.
func (l *loopEnds) progress() {
	h := l.sh.header
	l.looksAt()
	found := false
	steps := 0
	var walk func(b *ssa.BasicBlock, k *known, onPath map[*ssa.BasicBlock]int)
	walk = func(b *ssa.BasicBlock, k *known, onPath map[*ssa.BasicBlock]int) {
		steps++
		if found || steps > 50000 {
			return
		}
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && k.same(st.Val) == "*("+k.same(st.Addr)+")" {
				continue // stored what was there
			}
			if l.changes(in) {
				return // something happened: this iteration is not the same again
			}
		}
		iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for i, s := range b.Succs {
			if !l.sh.body[s] {
				continue
			}
			n := k.clone()
			if isIf && !n.assume(iff.Cond, i == 0) {
				continue
			}
			if s == h {
				same := true
				for _, ph := range phisOf(h) {
					if !l.looked[ph] {
						continue
					}
					for i, p := range h.Preds {
						if p == b && n.same(ph.Edges[i]) != n.same(ph) {
							same = false
						}
					}
				}
				if same {
					found = true
				}
				continue
			}
			if onPath[s] > 1 {
				continue // once round an inner loop is enough
			}
			vals := map[ssa.Value]ssa.Value{}
			for _, ph := range phisOf(s) {
				for i, p := range s.Preds {
					if p == b {
						vals[ph] = n.resolve(ph.Edges[i])
					}
				}
			}
			for ph, v := range vals {
				n.env[ph] = v
			}
			onPath[s]++
			walk(s, n, onPath)
			onPath[s]--
		}
	}
	walk(h, &known{env: map[ssa.Value]ssa.Value{}, is: map[string]bool{}, iv: map[string][2]int64{}}, map[*ssa.BasicBlock]int{h: 1})
	construct := shortFn(l.fn)
	l.c.must(!found, "progress", construct, l.pos(), "an iteration of a loop in %s can end as it began: nothing its tests look at has changed, so it runs without end", construct)
}

// looksAt: the loop-carried values and the kinds of memory the tests in the loop depend on.
func (l *loopEnds) looksAt() {
	l.looked = map[*ssa.Phi]bool{}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		in, ok := v.(ssa.Instruction)
		if !ok || seen[v] || !l.sh.body[in.Block()] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if v.Block() == l.sh.header {
				l.looked[v] = true
			}
			// what decides between its values is a test in the loop too
		case *ssa.UnOp:
			if v.Op == token.MUL {
				l.loads = append(l.loads, v.Type())
			}
		case *ssa.Lookup, *ssa.Next:
			l.anything = true
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); !ok {
				l.anything = true
			} else if b.Name() != "len" && b.Name() != "cap" && b.Name() != "append" && b.Name() != "min" && b.Name() != "max" {
				l.anything = true
			} else if _, ok := v.Call.Args[0].Type().Underlying().(*types.Map); ok {
				l.anything = true
			}
		}
		for _, o := range in.Operands(nil) {
			if *o != nil {
				visit(*o)
			}
		}
	}
	for b := range l.sh.body {
		if t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			visit(t.Cond)
		}
	}
}

// known: what holds on a path through an iteration on which nothing that the tests look
// at is written, so that a load finds the same as the one before it.
type known struct {
	env map[ssa.Value]ssa.Value // phis passed: what they stand for
	is  map[string]bool
	iv  map[string][2]int64
}

func (k *known) clone() *known {
	n := &known{env: map[ssa.Value]ssa.Value{}, is: map[string]bool{}, iv: map[string][2]int64{}}
	for a, b := range k.env {
		n.env[a] = b
	}
	for a, b := range k.is {
		n.is[a] = b
	}
	for a, b := range k.iv {
		n.iv[a] = b
	}
	return n
}

func (k *known) resolve(v ssa.Value) ssa.Value {
	for i := 0; i < 30; i++ {
		r, ok := k.env[v]
		if !ok || r == v {
			break
		}
		v = r
	}
	return v
}

// key: values with the same key are equal.
func (k *known) key(v ssa.Value) string { return k.keyAt(v, 0, false) }

// same is key where adding nothing is known to change nothing.
func (k *known) same(v ssa.Value) string { return k.keyAt(v, 0, true) }

func (k *known) keyAt(v ssa.Value, d int, zeros bool) string {
	v = k.resolve(v)
	id := fmt.Sprintf("%s@%p", v.Name(), v)
	if d > 8 {
		return id
	}
	sub := func(x ssa.Value) string { return k.keyAt(x, d+1, zeros) }
	switch v := v.(type) {
	case *ssa.Const:
		return v.String()
	case *ssa.UnOp:
		if v.Op != token.ARROW {
			return v.Op.String() + "(" + sub(v.X) + ")"
		}
	case *ssa.FieldAddr:
		return fmt.Sprintf("&%s.%d", sub(v.X), v.Field)
	case *ssa.Field:
		return fmt.Sprintf("%s.%d", sub(v.X), v.Field)
	case *ssa.IndexAddr:
		return "&" + sub(v.X) + "[" + sub(v.Index) + "]"
	case *ssa.BinOp:
		if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil && (v.Op == token.ADD || v.Op == token.SUB) {
			if x, ok := k.resolve(v.X).(*ssa.Const); ok && x.Value != nil && x.Value.Kind() == constant.Int && c.Value.Kind() == constant.Int {
				return constant.BinaryOp(x.Value, v.Op, c.Value).ExactString() + ":" + v.Type().String()
			}
			if constant.Sign(c.Value) == 0 && c.Value.Kind() == constant.Int {
				return sub(v.X)
			}
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && zeros && b.Info()&types.IsInteger != 0 && (v.Op == token.ADD || v.Op == token.SUB) {
			if y := k.interval(v.Y, 0); y[0] == 0 && y[1] == 0 {
				return sub(v.X)
			}
			if x := k.interval(v.X, 0); v.Op == token.ADD && x[0] == 0 && x[1] == 0 {
				return sub(v.Y)
			}
		}
		return "(" + sub(v.X) + v.Op.String() + sub(v.Y) + ")"
	case *ssa.Convert:
		return v.Type().String() + "(" + sub(v.X) + ")"
	case *ssa.ChangeType:
		return sub(v.X)
	case *ssa.Extract:
		return fmt.Sprintf("%s#%d", sub(v.Tuple), v.Index)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return b.Name() + "(" + sub(v.Call.Args[0]) + ")"
		}
	}
	return id
}

const ivMax = int64(1) << 61

func (k *known) interval(v ssa.Value, d int) [2]int64 {
	v = k.resolve(v)
	r := [2]int64{-ivMax, ivMax}
	if x, ok := k.iv[k.key(v)]; ok {
		r = x
	}
	narrow := func(lo, hi int64) {
		if lo > r[0] {
			r[0] = lo
		}
		if hi < r[1] {
			r[1] = hi
		}
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(v.Value); ok && n > -ivMax && n < ivMax {
				return [2]int64{n, n}
			}
		}
	case *ssa.BinOp:
		if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && (v.Op == token.ADD || v.Op == token.SUB) && d < 6 {
			n, ok := constant.Int64Val(c.Value)
			if v.Op == token.SUB {
				n = -n
			}
			x := k.interval(v.X, d+1)
			if b, isB := v.Type().Underlying().(*types.Basic); ok && n > -1<<40 && n < 1<<40 && isB && b.Info()&types.IsUnsigned == 0 {
				if x[0] > -ivMax {
					narrow(x[0]+n, ivMax)
				}
				if x[1] < ivMax {
					narrow(-ivMax, x[1]+n)
				}
			}
		}
	case *ssa.Convert:
		from, ok := v.X.Type().Underlying().(*types.Basic)
		to, ok2 := v.Type().Underlying().(*types.Basic)
		if ok && ok2 && d < 6 && from.Info()&types.IsInteger != 0 && (to.Kind() == types.Int64 || to.Kind() == types.Int) {
			x := k.interval(v.X, d+1)
			if x[1] < ivMax && x[0] > -ivMax {
				narrow(x[0], x[1])
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			narrow(0, ivMax)
		}
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		narrow(0, ivMax)
	}
	return r
}

// assume takes the condition to be t; false when it cannot be.
func (k *known) assume(cond ssa.Value, t bool) bool {
	cond = k.resolve(cond)
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, t = k.resolve(u.X), !t
	}
	if c, ok := cond.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
		return constant.BoolVal(c.Value) == t
	}
	kk := k.key(cond)
	if was, ok := k.is[kk]; ok {
		return was == t
	}
	k.is[kk] = t
	op, ok := cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	o := op.Op
	if !t {
		o = negated(o)
	}
	x, y := k.key(op.X), k.key(op.Y)
	if x == y {
		switch o {
		case token.EQL, token.LEQ, token.GEQ:
			return true
		case token.NEQ, token.LSS, token.GTR:
			return false
		}
	}
	if c, ok := k.resolve(op.Y).(*ssa.Const); ok && c.IsNil() && o == token.EQL {
		k.iv["len("+x+")"] = [2]int64{0, 0}
		return true
	}
	if b, ok := op.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return true
	}
	a, b := k.interval(op.X, 0), k.interval(op.Y, 0)
	set := func(key string, lo, hi int64, is [2]int64) bool {
		if lo > is[0] {
			is[0] = lo
		}
		if hi < is[1] {
			is[1] = hi
		}
		k.iv[key] = is
		return is[0] <= is[1]
	}
	switch o {
	case token.LSS:
		return set(x, -ivMax, b[1]-1, a) && set(y, a[0]+1, ivMax, b)
	case token.LEQ:
		return set(x, -ivMax, b[1], a) && set(y, a[0], ivMax, b)
	case token.GTR:
		return set(x, b[0]+1, ivMax, a) && set(y, -ivMax, a[1]-1, b)
	case token.GEQ:
		return set(x, b[0], ivMax, a) && set(y, -ivMax, a[1], b)
	case token.EQL:
		return set(x, b[0], b[1], a) && set(y, a[0], a[1], b)
	case token.NEQ:
		if b[0] == b[1] {
			if a[0] == b[0] {
				return set(x, b[0]+1, ivMax, a)
			}
			if a[1] == b[0] {
				return set(x, -ivMax, b[0]-1, a)
			}
		}
	}
	return true
}

// changes: the instruction waits, or may change what a later iteration finds.
func (l *loopEnds) changes(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Store:
		return !isErrorCell(in.Addr.Type()) && l.matters(in.Val.Type()) && !l.within(in.Addr)
	case *ssa.MapUpdate:
		return l.anything && !l.within(in.Map)
	case *ssa.Send, *ssa.Select, *ssa.Next, *ssa.RunDefers, *ssa.Panic:
		return true
	case *ssa.UnOp:
		return in.Op == token.ARROW
	case *ssa.Go, *ssa.Defer:
		return true
	case *ssa.Call:
		cc := in.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy":
				return l.matters(types.Typ[types.Byte]) || !types.Identical(in.Call.Args[0].Type().Underlying(), types.NewSlice(types.Typ[types.Byte]))
			case "delete", "clear", "close":
				return true
			}
			return false
		}
		n := callName(cc)
		if strings.HasPrefix(n, "time.Sleep") || strings.Contains(n, "sync.") {
			return true
		}
		if cc.IsInvoke() || cc.StaticCallee() == nil {
			// asking a service or a store again, with the same question
			if cc.IsInvoke() && len(cc.Args) > 0 && isCtxType(cc.Args[0].Type()) {
				switch cc.Method.Name() {
				case "Set", "QueueMutation":
					return true
				}
				for _, v := range cc.Args {
					if l.callback(v) {
						return true
					}
				}
				return false
			}
			return true
		}
		g := cc.StaticCallee()
		if l.c.w.InRepo(g) && g.Blocks != nil {
			if l.waits(g, map[*ssa.Function]bool{}) {
				return true
			}
			asks := l.asks(g)
			for e := range l.a.sum(g).writes {
				for i, p := range g.Params {
					if e.deep && asks {
						continue // what a store notes for itself when it is read
					}
					if e.src == ssa.Value(p) && i < len(cc.Args) && !l.within(cc.Args[i]) {
						return true
					}
				}
				if _, ok := e.src.(*ssa.Global); ok {
					return true
				}
			}
			return false
		}
		for _, a := range cc.Args {
			if isCtxType(a.Type()) {
				continue
			}
			switch a.Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Signature:
				if !l.within(a) {
					return true
				}
			}
		}
	}
	return false
}

// asks: the function puts a question to a service with a context, and neither it nor what
// it calls in the repository changes anything there.
func (l *loopEnds) asks(g *ssa.Function) bool {
	ctx := false
	for _, p := range g.Params {
		ctx = ctx || isCtxType(p.Type())
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return false
		}
	}
	seen := map[*ssa.Function]bool{}
	asked := false
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] || g.Blocks == nil || !l.c.w.InRepo(g) {
			return true
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if !cc.IsInvoke() {
					if f := cc.StaticCallee(); f != nil && !walk(f) {
						return false
					}
					continue
				}
				if len(cc.Args) == 0 || !isCtxType(cc.Args[0].Type()) {
					continue
				}
				switch cc.Method.Name() {
				case "Set", "QueueMutation", "ExecuteUpdate", "LogAddEntry", "MapSetValue":
					return false
				}
				asked = true
			}
		}
		return true
	}
	return walk(g) && ctx && asked
}

// isErrorCell: what is kept there is an error, which is not what makes the next iteration another one.
func isErrorCell(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), types.Universe.Lookup("error").Type())
}

// callback: a function given that waits, or changes what was there before this iteration.
func (l *loopEnds) callback(v ssa.Value) bool {
	for {
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
			continue
		}
		break
	}
	if _, ok := v.Type().Underlying().(*types.Signature); !ok {
		return false
	}
	mc, ok := v.(*ssa.MakeClosure)
	if !ok {
		_, isFn := v.(*ssa.Function)
		return !isFn
	}
	g := mc.Fn.(*ssa.Function)
	if l.waits(g, map[*ssa.Function]bool{}) {
		return true
	}
	for e := range l.a.sum(g).writes {
		for i, fv := range g.FreeVars {
			if e.src == ssa.Value(fv) && i < len(mc.Bindings) && !isErrorCell(mc.Bindings[i].Type()) && !l.within(mc.Bindings[i]) {
				return true
			}
		}
	}
	return false
}

// matters: the tests look at memory of the type, or at what calls may find there.
func (l *loopEnds) matters(t types.Type) bool {
	if l.anything {
		return true
	}
	for _, x := range l.loads {
		if types.Identical(x, t) {
			return true
		}
		for _, y := range []types.Type{x, t} {
			switch y.Underlying().(type) {
			case *types.Struct, *types.Array:
				return true
			}
		}
	}
	return false
}

func (l *loopEnds) waits(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] || g == nil || g.Blocks == nil || !l.c.w.InRepo(g) {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Send, *ssa.Select:
				return true
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return true
				}
			case ssa.CallInstruction:
				n := callName(in.Common())
				if n == "time.Sleep" || strings.HasSuffix(n, "WaitGroup).Wait") || l.waits(in.Common().StaticCallee(), seen) {
					return true
				}
			}
		}
	}
	return false
}

// within: the memory was made in this iteration.
func (l *loopEnds) within(v ssa.Value) bool {
	o := object(v)
	if o == nil {
		return false
	}
	if k, ok := o.(*ssa.Const); ok {
		return k.IsNil()
	}
	in, ok := o.(ssa.Instruction)
	if !ok || !l.sh.body[in.Block()] {
		return false
	}
	switch o := o.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Call:
		b, ok := o.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append"
	}
	return false
}

// tests: the counters in the test at the loop's start (or its end) move the right way.
func (l *loopEnds) tests() {
	for b := range l.sh.body {
		t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.sh.body[b.Succs[0]] == l.sh.body[b.Succs[1]] {
			continue
		}
		for _, p := range l.back { // passed in every iteration
			if !b.Dominates(p) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		stay := l.sh.body[b.Succs[0]]
		cond := t.Cond
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, stay = u.X, !stay
				continue
			}
			break
		}
		op, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		o := op.Op
		if !stay {
			o = negated(o)
		}
		l.test(op, o, op.X, op.Y)
		l.test(op, flipped(o), op.Y, op.X)
	}
}

func negated(o token.Token) token.Token {
	switch o {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

func flipped(o token.Token) token.Token {
	switch o {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return o
}

// about: the loop-carried value x is computed from, and how: "" itself or shifted by a
// constant, "<<" doubled, "&" its low bit.
func (l *loopEnds) about(x ssa.Value) (*ssa.Phi, string) {
	how := ""
	for i := 0; i < 10; i++ {
		switch v := x.(type) {
		case *ssa.Phi:
			if v.Block() == l.sh.header {
				return v, how
			}
			return nil, ""
		case *ssa.Convert:
			x = v.X
		case *ssa.ChangeType:
			x = v.X
		case *ssa.BinOp:
			k, isConst := v.Y.(*ssa.Const)
			y := v.X
			if !isConst {
				if k, isConst = v.X.(*ssa.Const); isConst && (v.Op == token.ADD || v.Op == token.AND || v.Op == token.MUL) {
					y = v.Y
				} else {
					return nil, ""
				}
			}
			switch v.Op {
			case token.ADD, token.SUB:
			case token.SHL, token.MUL:
				how = "<<"
			case token.AND:
				if k.Value == nil || k.Int64() != 1 || how != "" {
					return nil, ""
				}
				how = "&"
			case token.REM:
				if k.Value == nil || k.Int64() != 2 || how != "" || y != v.X {
					return nil, ""
				}
				how = "%"
			default:
				return nil, ""
			}
			x = y
		default:
			return nil, ""
		}
	}
	return nil, ""
}

// step: how the loop-carried value changes: "+", "-", "<<", ">>", "" not known.
func (l *loopEnds) step(p *ssa.Phi) string {
	kind := ""
	for i, pr := range p.Block().Preds {
		isBack := false
		for _, b := range l.back {
			isBack = isBack || b == pr
		}
		if !isBack {
			continue
		}
		k := l.stepOf(p, p.Edges[i], 0, map[ssa.Value]bool{})
		if k == "=" {
			continue // judged by progress
		}
		if k == "" || kind != "" && kind != k {
			return ""
		}
		kind = k
	}
	return kind
}

func (l *loopEnds) stepOf(p *ssa.Phi, v ssa.Value, d int, seen map[ssa.Value]bool) string {
	if v == ssa.Value(p) {
		return "="
	}
	if seen[v] {
		return "="
	}
	seen[v] = true
	if d > 8 {
		return ""
	}
	join := func(a, b string) string {
		if a == "=" {
			return b
		}
		if b == "=" || a == b {
			return a
		}
		return ""
	}
	switch v := v.(type) {
	case *ssa.Phi:
		k := "="
		for _, e := range v.Edges {
			x := l.stepOf(p, e, d+1, seen)
			if x == "" {
				return ""
			}
			if k = join(k, x); k == "" {
				return ""
			}
		}
		return k
	case *ssa.BinOp:
		k, isConst := v.Y.(*ssa.Const)
		if !isConst || k.Value == nil || k.Value.Kind() != constant.Int {
			return ""
		}
		n := constant.Sign(k.Value)
		base := l.stepOf(p, v.X, d+1, seen)
		if base == "" {
			return ""
		}
		switch {
		case n == 0:
			return base
		case v.Op == token.ADD && n > 0, v.Op == token.SUB && n < 0:
			return join(base, "+")
		case v.Op == token.SUB && n > 0, v.Op == token.ADD && n < 0:
			return join(base, "-")
		case v.Op == token.SHL, v.Op == token.MUL && n > 0 && k.Int64() > 1:
			return join(base, "<<")
		case v.Op == token.SHR, v.Op == token.QUO && n > 0 && k.Int64() > 1:
			return join(base, ">>")
		}
	}
	return ""
}

func (l *loopEnds) test(op *ssa.BinOp, o token.Token, x, y ssa.Value) {
	p, how := l.about(x)
	if p == nil {
		return
	}
	bt, ok := p.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return
	}
	c := l.c
	construct := shortFn(l.fn)
	step := l.step(p)
	pos := op.Pos()
	if pos == token.NoPos {
		pos = l.pos()
	}
	c.count("counters in tests")
	if step == "<<" && o != token.ILLEGAL {
		l.startsPositive(p, construct, pos)
	}
	if step == "" && how == "" && (o == token.NEQ || o == token.LSS || o == token.LEQ || o == token.GTR || o == token.GEQ) {
		l.advances(p, o, construct, pos)
	}
	kc, isConst := y.(*ssa.Const)
	switch {
	case o == token.GEQ && isConst && kc.Value != nil && constant.Sign(kc.Value) <= 0 && bt.Info()&types.IsUnsigned != 0 && how == "":
		if u, ok := x.Type().Underlying().(*types.Basic); ok && u.Info()&types.IsUnsigned != 0 {
			c.must(false, "bound", construct, pos, "a loop in %s goes on while an unsigned number is not negative, which it never is", construct)
		}
	case how == "&" || how == "%":
		if how == "&" && step == ">>" && bt.Info()&types.IsUnsigned == 0 && (o == token.EQL && isConst && constant.Sign(kc.Value) > 0 || o == token.NEQ && isConst && constant.Sign(kc.Value) == 0) {
			l.startsNotNegative(p, construct, pos)
		}
		if step == ">>" && !l.endsAtZero(p) && (o == token.EQL && isConst && constant.Sign(kc.Value) == 0 || o == token.NEQ && isConst && constant.Sign(kc.Value) > 0) {
			l.startsNotZero(p, construct, pos)
		}
	case (o == token.LSS || o == token.LEQ) && (step == "-" || step == ">>"):
		c.must(false, "direction", construct, pos, "a loop in %s goes on while a number is below a bound, and makes it smaller", construct)
	case (o == token.GTR || o == token.GEQ) && (step == "+" || step == "<<"):
		c.must(false, "direction", construct, pos, "a loop in %s goes on while a number is above a bound, and makes it larger", construct)
	case (o == token.LSS || o == token.LEQ) && (step == "<<" || how == "<<"):
		c.count("doubling counters")
		c.must(l.roomToDouble(y, p, how, 0), "overflow", construct, pos, "a loop in %s doubles a number while it is below a bound that may be so large that the number overflows to nothing first", construct)
	case (o == token.GTR || o == token.GEQ || o == token.NEQ) && step == ">>" && isConst:
		if o == token.GEQ && constant.Sign(kc.Value) <= 0 {
			c.must(false, "bound", construct, pos, "a loop in %s halves a number while it is at least 0, which it stays", construct)
		}
	}
}

// roomToDouble: doubling below the bound cannot overflow.
func (l *loopEnds) roomToDouble(y ssa.Value, p *ssa.Phi, how string, d int) bool {
	if d > 6 {
		return false
	}
	switch v := y.(type) {
	case *ssa.Const:
		return true
	case *ssa.Convert:
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int32, types.Int16, types.Int8, types.Uint32, types.Uint16, types.Uint8:
				return true
			}
		}
		return l.roomToDouble(v.X, p, how, d+1)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" // lengths are far below
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.SHR:
			return how == ""
		case token.QUO:
			k, ok := v.Y.(*ssa.Const)
			return how == "" && ok && k.Int64() >= 2
		case token.SUB: // k < n-k
			if how == "" && l.from(v.Y, p) {
				return true
			}
			return l.roomToDouble(v.X, p, how, d+1)
		case token.ADD:
			return l.roomToDouble(v.X, p, how, d+1) && l.roomToDouble(v.Y, p, how, d+1)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !l.roomToDouble(e, p, how, d+1) {
				return false
			}
		}
		return true
	}
	// a guard that bounds the value before the loop
	for _, b := range l.fn.Blocks {
		t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(l.sh.header) || l.sh.body[b] {
			continue
		}
		cmp, ok := t.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, s := range []bool{true, false} {
			o := cmp.Op
			next := b.Succs[0]
			if !s {
				o, next = negated(o), b.Succs[1]
			}
			if len(next.Preds) != 1 || !next.Dominates(l.sh.header) {
				continue
			}
			if k, ok := cmp.Y.(*ssa.Const); ok && cmp.X == y && (o == token.LSS || o == token.LEQ) && k.Value != nil && k.Int64() <= 1<<62 {
				return true
			}
			if k, ok := cmp.X.(*ssa.Const); ok && cmp.Y == y && (o == token.GTR || o == token.GEQ) && k.Value != nil && k.Int64() <= 1<<62 {
				return true
			}
		}
	}
	return false
}

func (l *loopEnds) from(v ssa.Value, p *ssa.Phi) bool {
	for i := 0; i < 5; i++ {
		if v == ssa.Value(p) {
			return true
		}
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
			continue
		}
		break
	}
	return false
}

// recurses: a function does not call itself with what it was called with.
func recurses(c *Check, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok || call.Common().StaticCallee() != f {
				continue
			}
			c.count("functions that call themselves")
			if otherwise(f, b) && actsBeyond(f) {
				continue
			}
			same := true
			for i, a := range call.Common().Args {
				for {
					if ct, ok := a.(*ssa.ChangeType); ok {
						a = ct.X
						continue
					}
					break
				}
				if a != ssa.Value(f.Params[i]) {
					same = false
				}
			}
			c.must(!same, "recursion", shortFn(f), in.Pos(), "%s calls itself with what it was called with", shortFn(f))
		}
	}
}

// otherwise: the function can return without going through the block.
func otherwise(f *ssa.Function, b *ssa.BasicBlock) bool {
	for _, r := range f.Blocks {
		if len(r.Instrs) == 0 {
			continue
		}
		if _, ok := r.Instrs[len(r.Instrs)-1].(*ssa.Return); ok && r != f.Recover && !b.Dominates(r) {
			return true
		}
	}
	return false
}

// actsBeyond: the function may change, or be told, what its next call goes by.
func actsBeyond(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Store:
				return true
			case *ssa.UnOp:
				if v.Op == token.ARROW {
					return true
				}
			case ssa.CallInstruction:
				if _, builtin := v.Common().Value.(*ssa.Builtin); !builtin && v.Common().StaticCallee() != f {
					return true
				}
			}
		}
	}
	return false
}

// startsPositive: what is doubled is not 0, which it would stay.
func (l *loopEnds) startsPositive(p *ssa.Phi, construct string, pos token.Pos) {
	for i, pr := range p.Block().Preds {
		if l.sh.body[pr] {
			continue
		}
		if k, ok := p.Edges[i].(*ssa.Const); ok {
			l.c.must(k.Value != nil && constant.Sign(k.Value) > 0, "starts", construct, pos, "%s doubles a number that starts at %s", construct, k)
		}
	}
}

// advances: a counter that moves by a computed distance moves, and in one direction.
func (l *loopEnds) advances(p *ssa.Phi, o token.Token, construct string, pos token.Pos) {
	var d ssa.Value
	for i, pr := range p.Block().Preds {
		if !l.sh.body[pr] {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) || b.X != ssa.Value(p) {
			return
		}
		d = b.Y
	}
	if d == nil {
		return
	}
	l.c.count("counters that move by a computed distance")
	seen := map[*LoopInst]bool{}
	for _, path := range l.c.explore(l.fn).paths {
		allEvents(path, func(q *Path, ev *Event) {
			if ev.Kind != ELoop || ev.Loop == nil || ev.Loop.Header != l.sh.header || seen[ev.Loop] {
				return
			}
			seen[ev.Loop] = true
			for i, vr := range ev.Loop.Vars {
				if vr.Phi != p {
					continue
				}
				for _, it := range ev.Loop.Iters {
					if i >= len(it.Nexts) || it.facts().absurd() {
						continue
					}
					f := it.facts()
					up, down := f.Implies(litLT(vr.Sym, it.Nexts[i])), f.Implies(litLT(it.Nexts[i], vr.Sym))
					ok := up || down
					switch o {
					case token.LSS, token.LEQ:
						ok = up
					case token.GTR, token.GEQ:
						ok = down
					}
					l.c.must(ok, "advances", construct, pos, "%s moves on from %s to %s, which may be no nearer to its end", construct, brief(vr.Sym), brief(it.Nexts[i]))
				}
			}
		})
	}
}

// endsAtZero: the loop is left when the value is 0.
func (l *loopEnds) endsAtZero(p *ssa.Phi) bool {
	for b := range l.sh.body {
		t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		op, ok := t.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := op.X, op.Y
		o := op.Op
		if _, ok := x.(*ssa.Const); ok {
			x, y, o = y, x, flipped(o)
		}
		k, ok := y.(*ssa.Const)
		if q, how := l.about(x); !ok || q != p || how != "" || k.Value == nil || k.Value.Kind() != constant.Int {
			continue
		}
		leaves := func(t bool) bool { // when the value is 0
			i := 0
			if !t {
				i = 1
			}
			return !l.sh.body[b.Succs[i]]
		}
		if leaves(constant.Compare(constant.MakeInt64(0), o, k.Value)) {
			return true
		}
	}
	return false
}

// starts: the loop-carried value's first value, on every path that gets to the loop: from
// the callers, where the function is a helper of theirs.
func (l *loopEnds) starts(p *ssa.Phi, worth func(h *ssa.Function, cc *ssa.CallCommon, g *ssa.Function) bool, f func(q *Path, ev *Event, init *Term)) {
	seen := map[*LoopInst]bool{}
	done := map[*ssa.Function]bool{}
	var from func(g *ssa.Function, d int)
	from = func(g *ssa.Function, d int) {
		if done[g] {
			return
		}
		done[g] = true
		if o := g.Object(); o != nil && !o.Exported() && d < 4 {
			called := false
			for _, h := range l.c.w.Funcs {
				for _, b := range h.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && h != g && ci.Common().StaticCallee() == g {
							called = true
							if worth(h, ci.Common(), g) {
								from(h, d+1)
							}
						}
					}
				}
			}
			if called {
				return
			}
		}
		for _, path := range l.c.explore(g).paths {
			allEvents(path, func(q *Path, ev *Event) {
				if ev.Kind != ELoop || ev.Loop == nil || ev.Loop.Header != l.sh.header || seen[ev.Loop] {
					return
				}
				seen[ev.Loop] = true
				for _, vr := range ev.Loop.Vars {
					if vr.Phi == p {
						f(q, ev, vr.Init)
					}
				}
			})
		}
	}
	from(l.fn, 0)
}

// startsNotZero: what is shifted right until its low bit is set has a bit to find.
func (l *loopEnds) startsNotZero(p *ssa.Phi, construct string, pos token.Pos) {
	l.c.count("values shifted until a bit is set")
	l.starts(p, func(*ssa.Function, *ssa.CallCommon, *ssa.Function) bool { return true }, func(q *Path, ev *Event, init *Term) {
		f := q.at(ev)
		ok := f.Implies(litEQ0(init).Not()) || f.Implies(litEQ0(And(init, tOne)).Not())
		for k, v := range f.bool_ {
			if k.Op == OEQ0 && !v && f.Implies(litEQ(k.Args[0], init)) {
				ok = true
			}
		}
		l.c.must(ok, "starts", construct, pos, "%s shifts %s right until its low bit is set, which never happens if it is 0", construct, brief(init))
	})
}

// startsNotNegative: what is shifted right until its low bit is clear is not -1. A number
// that is given to an operation is a size or an index, which C09 and C27 judge; it is the
// subtractions that need a reason.
func (l *loopEnds) startsNotNegative(p *ssa.Phi, construct string, pos token.Pos) {
	l.c.count("values shifted until a bit is clear")
	subtracted := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && (b.Op == token.SUB || b.Op == token.ADD)
	}
	here := false
	for i, pr := range p.Block().Preds {
		if !l.sh.body[pr] {
			_, param := p.Edges[i].(*ssa.Parameter)
			here = here || param || subtracted(p.Edges[i])
		}
	}
	if !here {
		return
	}
	l.starts(p, func(h *ssa.Function, cc *ssa.CallCommon, g *ssa.Function) bool {
		for _, a := range cc.Args {
			if _, ok := a.(*ssa.Parameter); ok && h.Object() != nil && !h.Object().Exported() || subtracted(a) {
				if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return true
				}
			}
		}
		return false
	}, func(q *Path, ev *Event, init *Term) {
		if init.Op != OLin || init.I >= 0 {
			return // a number given: sizes and indexes are not negative
		}
		l.c.must(q.at(ev).Implies(litLE(tZeroI, init)), "starts", construct, pos, "%s shifts %s right until its low bit is clear, which never happens if it is negative", construct, brief(init))
	})
}
