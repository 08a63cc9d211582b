package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", checkC36, "typestate over the explored paths of every function that acquires something (opened by which call, released by which, on which path), and a dataflow over the SSA form of every goroutine that produces for a channel",
		"Every call that acquires something - the body of an HTTP response, a database transaction, a query's rows, a database or file handle, a cancel function, a ticker, a connection - is followed, on every path on which it succeeded, by the call that releases it, or its result is handed to the caller (whose paths are then followed) or kept where the owner's Close finds it; where a caller's function runs in between, the release is deferred. Close of a type that keeps handles closes each of them. A goroutine sends on a channel only in a select that also waits for the end of the context its starter was given, and a function that may stop receiving gives the producer a context that it cancels on every path.")
}

// acquirer: a call that acquires something which another call has to release.
type acquirer struct {
	what    string
	release []string // methods
	field   string   // of the result, on which they are called
	result  int
	fun     bool // the result is itself the function to call
}

// acquires classifies a call by the full name of its callee.
func acquires(n string) *acquirer {
	m := methodName(n)
	switch {
	case strings.HasSuffix(n, "context.WithCancel"), strings.HasSuffix(n, "context.WithTimeout"), strings.HasSuffix(n, "context.WithDeadline"), strings.HasSuffix(n, "context.WithCancelCause"), strings.HasSuffix(n, "context.WithTimeoutCause"), strings.HasSuffix(n, "context.WithDeadlineCause"), strings.HasSuffix(n, "os/signal.NotifyContext"):
		return &acquirer{what: "context", result: 1, fun: true}
	case strings.HasPrefix(n, "(*net/http.Client).") && (m == "Do" || m == "Get" || m == "Head" || m == "Post" || m == "PostForm"), n == "net/http.Get", n == "net/http.Head", n == "net/http.Post", n == "net/http.PostForm", strings.HasSuffix(n, ").RoundTrip"):
		return &acquirer{what: "response body", release: []string{"Close"}, field: "Body"}
	case strings.Contains(n, "jackc/pgx") && (m == "Begin" || m == "BeginTx"), strings.HasPrefix(n, "(*database/sql.") && strings.HasPrefix(m, "Begin"), n == "(*"+boltPkg+"DB).Begin":
		return &acquirer{what: "transaction", release: []string{"Commit", "Rollback"}}
	case n == "(*"+badgerPkg+"DB).NewTransaction", n == "(*"+badgerPkg+"DB).NewTransactionAt":
		return &acquirer{what: "transaction", release: []string{"Discard", "Commit", "CommitWith"}}
	case n == "(*"+badgerPkg+"Txn).NewIterator", n == "(*"+badgerPkg+"Txn).NewKeyIterator":
		return &acquirer{what: "iterator", release: []string{"Close"}}
	case strings.Contains(n, "jackc/pgx") && m == "Acquire":
		return &acquirer{what: "connection", release: []string{"Release", "Hijack"}}
	case strings.Contains(n, "jackc/pgx") && m == "QueryRow":
		return &acquirer{what: "query", release: []string{"Scan"}}
	case (strings.Contains(n, "jackc/pgx") || strings.HasPrefix(n, "(*database/sql.")) && (m == "Query" || m == "SendBatch"):
		return &acquirer{what: "query", release: []string{"Close"}}
	case n == boltPkg+"Open", n == badgerPkg+"Open", n == badgerPkg+"OpenManaged", n == "os.Open", n == "os.Create", n == "os.OpenFile", n == "os.CreateTemp", n == "net.Listen", n == "net.Dial", n == "net.DialTimeout", strings.HasSuffix(n, "google.golang.org/grpc.Dial"), strings.HasSuffix(n, "google.golang.org/grpc.NewClient"), strings.HasSuffix(n, "google.golang.org/grpc.DialContext"), strings.HasSuffix(n, "pgxpool.New"), strings.HasSuffix(n, "pgx/v5.Connect"), n == "database/sql.Open":
		return &acquirer{what: "handle", release: []string{"Close", "Release"}}
	case n == "time.NewTicker":
		return &acquirer{what: "ticker", release: []string{"Stop"}}
	case n == "(*net/http.Request).FormFile":
		return &acquirer{what: "form file", release: []string{"Close"}}
	}
	return nil
}

func callName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func checkC36(c *Check) {
	c.assumption("a response, transaction, handle or row set whose opening reported an error needs no release; a pool of connections, and processes of the cmd directory, last as long as the process")
	r := &releases{c: c, seen: map[ssa.Instruction]bool{}, done: map[*ssa.Function]bool{}, deferred: map[ssa.Instruction]map[ssa.Instruction]bool{}, kept: map[keptIn]bool{}}
	var roots []*ssa.Function
	sites := map[ssa.Instruction]string{}
	for _, f := range c.w.Funcs {
		if !r.inScope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if n := callName(ci.Common()); n != "" {
					if a := acquires(n); a != nil {
						sites[in] = n
						c.count("acquisitions in the source")
						roots = append(roots, outermost(f))
					}
				}
			}
		}
	}
	c.streams(r)
	for len(roots) > 0 {
		f := roots[0]
		roots = roots[1:]
		if r.done[f] {
			continue
		}
		r.done[f] = true
		c.count("functions followed")
		if r.follow(f) {
			// the callers have to release it
			for _, g := range c.w.Funcs {
				if !r.inScope(g) {
					continue
				}
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
							roots = append(roots, outermost(g))
						}
					}
				}
			}
		}
	}
	for in, n := range sites {
		if !r.seen[in] {
			// reached only where a goroutine or a callback runs
			f := in.Parent()
			if !r.done[f] {
				r.done[f] = true
				r.follow(f)
			}
			c.must(r.seen[in], "reached", shortFn(f), in.Pos(), "the call of %s is on no path that the analysis follows", n)
		}
	}
	for rel, by := range r.deferred {
		for call, ok := range by {
			c.must(ok, "panic", shortFn(outermost(rel.Parent())), rel.Pos(), "what is acquired here is not released when the caller's function, run at line %d, panics: nothing that releases it is deferred", c.w.Prog.Fset.Position(call.Pos()).Line)
		}
	}
	for k := range r.kept {
		c.closes(k)
	}
	c.min("acquisitions in the source", 5)
	c.min("acquired on a path", 20)
	c.min("functions followed", 5)
	c.min("types that keep handles", 2)
	c.min("producers", 1)
	c.min("consumers", 1)
}

type keptIn struct {
	typ   *types.TypeName
	field string
}

type releases struct {
	c        *Check
	seen     map[ssa.Instruction]bool
	done     map[*ssa.Function]bool
	deferred map[ssa.Instruction]map[ssa.Instruction]bool // acquisition -> caller's function run meanwhile -> a release is deferred
	kept     map[keptIn]bool
}

func (r *releases) inScope(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && r.c.w.InRepo(f) && !generated(p) && !strings.Contains(p.Pkg.Path(), "/cmd/") && f.Synthetic == ""
}

// follow examines the paths of f; it reports whether something acquired is handed to the caller.
func (r *releases) follow(f *ssa.Function) bool {
	c := r.c
	name := shortFn(f)
	e := c.explore(f)
	handed := false
	for _, p := range e.paths {
		if p.facts().dead {
			continue
		}
		in := p.St.events
		if p.End == "backedge" && p.Loop != nil {
			for i, x := range in {
				if x.Kind == ELoop && x.Loop == p.Loop {
					in = in[i:]
					break
				}
			}
		}
		for _, x := range in {
			if x.Kind == EJoin {
				for _, alt := range x.Alts {
					for _, y := range alt.St.events {
						r.event(e, p, alt, y, name, &handed)
					}
				}
			}
			r.event(e, p, p, x, name, &handed)
		}
	}
	return handed
}

// event: x, of q, which is p or was merged into p.
func (r *releases) event(e *exploration, p, q *Path, x *Event, name string, handed *bool) {
	c := r.c
	if x.Kind != ECall || x.Instr == nil {
		return
	}
	a := acquires(x.Callee)
	if a == nil || len(x.Res) <= a.result {
		return
	}
	r.seen[x.Instr] = true
	c.count("acquired on a path")
	res := x.Res[a.result]
	f := p.facts()
	if er := errOf(x); er != nil && f.Implies(litNil(er).Not()) || f.Implies(litNil(res)) {
		return
	}
	switch p.End {
	case "return", "backedge", "goroutine", "panic":
	default:
		return
	}
	later := p.St.events
	if q != p {
		later = append(append([]*Event{}, q.St.events...), p.St.events...)
	}
	on := func(t *Term) bool {
		t = unIface(t)
		return t == res || a.field != "" && t.Contains(res)
	}
	var holds func(t *Term, d int) bool
	holds = func(t *Term, d int) bool {
		return t != nil && d < 4 && t.Any(func(s *Term) bool {
			if s == res {
				return true
			}
			made, ok := s.Obj.(*Event)
			if !ok || s.Op != ORes || made == nil || !strings.HasPrefix(methodName(made.Callee), "New") {
				return false
			}
			for _, g := range made.Args {
				if holds(g, d+1) {
					return true
				}
			}
			return false
		})
	}
	released, kept := false, false
	var meanwhile []ssa.Instruction
	inDefer := 0
	for _, y := range later {
		if q == p && y.Seq <= x.Seq && y.orig() != x.orig() {
			continue
		}
		switch y.Kind {
		case EEnter:
			if y.Defer || inDefer > 0 {
				inDefer++
			}
		case ELeave:
			if inDefer > 0 {
				inDefer--
			}
		case ECall:
			rel := false
			switch {
			case a.fun:
				rel = y.Callee == "dyncall" && y.Loc == res
			case len(y.Args) > 0 && on(y.Args[0]):
				for _, m := range a.release {
					rel = rel || methodName(y.Callee) == m
				}
			}
			for i, g := range y.Args {
				// functions that take it over
				if i > 0 || !strings.HasPrefix(y.Callee, "(") {
					if on(g) {
						m := methodName(y.Callee)
						rel = rel || strings.HasPrefix(m, "Serve") || strings.HasPrefix(m, "Collect") || m == "ForEachRow"
					}
				}
			}
			if rel {
				released = true
				if y.Defer || inDefer > 0 {
					for _, k := range meanwhile {
						r.note(x.Instr, k, true)
					}
				}
				continue
			}
			if y.Callee == "dyncall" && y.Loc != nil && !released && !kept && y.Loc.Op == OSym && strings.HasPrefix(y.Loc.Aux, "p:") && y.Instr != nil {
				meanwhile = append(meanwhile, y.Instr)
				r.note(x.Instr, y.Instr, false)
			}
		case EMapSet, EStore, ESend:
			v := y.Val
			if v == nil || !on(v) && !(len(y.Snap) > 0 && holds(y.Snap[len(y.Snap)-1], 0)) {
				continue
			}
			kept = true
			r.keptAt(p, y)
		case EGo:
			for _, g := range append([]*Term{y.Loc}, y.Args...) {
				if g != nil && g.Contains(res) {
					kept = true
				}
			}
		}
	}
	if p.End == "return" && !released {
		for i, v := range p.Results {
			if on(v) || i < e.fn.Signature.Results().Len() && holds(e.ex.Snap(p.St, v, e.fn.Signature.Results().At(i).Type()), 0) {
				kept = true
				*handed = true
			}
		}
	}
	if a.fun && !released && p.End == "return" {
		for _, v := range p.Results {
			kept = kept || v.Contains(x.Res[1])
		}
	}
	pos := x.Pos
	c.must(released || kept, "released", name, pos, "%s acquires a %s (%s) that is not released on the path that ends at line %d", name, a.what, methodName(x.Callee), c.w.Prog.Fset.Position(p.Pos).Line)
}

func (r *releases) note(acq, call ssa.Instruction, ok bool) {
	m := r.deferred[acq]
	if m == nil {
		m = map[ssa.Instruction]bool{}
		r.deferred[acq] = m
	}
	m[call] = m[call] || ok
}

// keptAt: the field of a type that the value is kept in.
func (r *releases) keptAt(p *Path, y *Event) {
	loc := y.Loc
	if y.Kind == EMapSet {
		if loc.Op == OAlloc {
			for _, z := range p.St.events {
				if z.Kind == EStore && z.Val == loc {
					loc = z.Loc
				}
			}
		}
		if loc.Op == ODeref {
			loc = loc.Args[0]
		}
	}
	if loc.Op != OFieldAd {
		return
	}
	base := loc.Args[0]
	if base.Type == nil {
		return
	}
	if nt, ok := derefType(base.Type).(*types.Named); ok {
		r.kept[keptIn{nt.Obj(), loc.Aux}] = true
	}
}

// closes: the type has a method that closes all that the field keeps.
func (c *Check) closes(k keptIn) {
	c.count("types that keep handles")
	name := k.typ.Pkg().Name() + "." + k.typ.Name()
	var m *ssa.Function
	for _, n := range []string{"Close", "Shutdown", "Stop"} {
		if g := c.method(k.typ.Type(), n); g != nil {
			m = g
			break
		}
	}
	if !c.must(m != nil, "close", name, k.typ.Pos(), "%s keeps handles in its field %s and has no method to close them", name, k.field) {
		return
	}
	e := c.explore(m)
	mn := shortFn(m)
	fieldOf := func(t *Term) bool {
		return t != nil && t.Any(func(x *Term) bool {
			return (x.Op == OFieldAd || x.Op == OField) && x.Aux == k.field
		})
	}
	isClose := func(y *Event) bool {
		return y.Kind == ECall && methodName(y.Callee) == "Close" && len(y.Args) > 0 && fieldOf(y.Args[0])
	}
	for _, p := range e.paths {
		f := p.facts()
		if f.dead {
			continue
		}
		switch p.End {
		case "backedge":
			n := false
			other := true
			for _, y := range p.St.events {
				n = n || isClose(y)
				if y.Kind == ELoop {
					other = !loopOver(y.Loop, k.field)
				}
			}
			c.must(n || other, "close", mn, p.Pos, "%s passes over a handle without closing it", mn)
		case "return":
			loops, early, empty := false, false, false
			for _, y := range p.St.events {
				loops = loops || y.Kind == ELoop && loopOver(y.Loop, k.field)
				early = early || isClose(y)
			}
			for _, l := range f.lits {
				if !l.Neg && fieldOf(l.A) && (strings.HasPrefix(l.String(), "isnil(") || strings.HasPrefix(l.String(), "eq0(len(")) {
					empty = true
				}
			}
			c.must(loops && !early || empty, "close", mn, p.Pos, "%s may return before it has closed every handle kept in %s", mn, k.field)
		}
	}
}

// loopOver: the loop ranges over the field.
func loopOver(l *LoopInst, field string) bool {
	if l == nil || l.Header == nil {
		return false
	}
	for _, in := range l.Header.Instrs {
		nx, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		if rg, ok := nx.Iter.(*ssa.Range); ok {
			v := rg.X
			if u, ok := v.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					return derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == field
				}
			}
			return true // a copy of it, or what a helper returned
		}
	}
	return false
}

// ---- producers of streams

// streams: goroutines that send to a channel end when their context does, and who starts one and
// may stop receiving cancels that context.
func (c *Check) streams(r *releases) {
	producers := map[*ssa.Function]bool{}
	for _, f := range c.w.Funcs {
		if !r.inScope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				c.count("goroutines")
				t := g.Call.StaticCallee()
				if t == nil || t.Blocks == nil {
					continue
				}
				if c.sends(t, map[*ssa.Function]bool{}, outermost(f)) {
					producers[outermost(f)] = true
				}
			}
		}
	}
	for f := range producers {
		c.count("producers")
		for _, g := range c.w.Funcs {
			if !r.inScope(g) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						c.consumer(outermost(g), f)
					}
				}
			}
		}
	}
}

// sends: the goroutine sends on a channel; each send can be abandoned.
func (c *Check) sends(f *ssa.Function, seen map[*ssa.Function]bool, starter *ssa.Function) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	found := false
	name := shortFn(starter)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				found = true
				c.count("sends of goroutines")
				c.must(roomy(x.Chan, 0), "abandoned", name, x.Pos(), "the goroutine of %s sends without waiting for the end of its context as well: if nobody receives it never ends", name)
			case *ssa.Select:
				snd, done := false, !x.Blocking
				for _, s := range x.States {
					if s.Dir == types.SendOnly {
						snd = true
						continue
					}
					done = done || c.doneOf(s.Chan, starter, 0)
				}
				if snd {
					found = true
					c.count("sends of goroutines")
					c.must(done, "abandoned", name, x.Pos(), "the goroutine of %s waits to send without waiting for the end of the context it was given: if nobody receives it never ends", name)
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && g.Blocks != nil && c.w.InRepo(g) && !generated(fnPkg(g)) {
					if c.sends(g, seen, starter) {
						found = true
					}
				}
			}
		}
	}
	return found
}

// roomy: a channel with room.
func roomy(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.MakeChan:
		k, ok := x.Size.(*ssa.Const)
		return ok && k.Value != nil && constant.Sign(k.Value) > 0
	case *ssa.ChangeType:
		return roomy(x.X, d)
	case *ssa.FreeVar, *ssa.UnOp:
		if d > 4 {
			return false
		}
		for _, s := range bound(v) {
			if !roomy(s, d+1) {
				return false
			}
		}
		return len(bound(v)) > 0
	}
	return false
}

// bound: the values that a captured variable, or a load from a local one, may have.
func bound(v ssa.Value) []ssa.Value {
	stores := func(al ssa.Value) []ssa.Value {
		var out []ssa.Value
		if al.Referrers() == nil {
			return nil
		}
		for _, q := range *al.Referrers() {
			if s, ok := q.(*ssa.Store); ok && s.Addr == al {
				out = append(out, s.Val)
			}
		}
		return out
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		switch y := x.X.(type) {
		case *ssa.Alloc:
			return stores(y)
		case *ssa.FreeVar:
			var out []ssa.Value
			for _, a := range bound(y) {
				if al, ok := a.(*ssa.Alloc); ok {
					out = append(out, stores(al)...)
				}
			}
			return out
		}
	case *ssa.FreeVar:
		f := x.Parent()
		i := -1
		for k, fv := range f.FreeVars {
			if fv == x {
				i = k
			}
		}
		if f.Parent() == nil || i < 0 {
			return nil
		}
		var out []ssa.Value
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					out = append(out, mc.Bindings[i])
				}
			}
		}
		return out
	}
	return nil
}

// doneOf: the channel is that of the end of a context given to starter, or derived from one.
func (c *Check) doneOf(v ssa.Value, starter *ssa.Function, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		n := callName(x.Common())
		if strings.HasSuffix(n, "ontext).Done") || strings.HasSuffix(n, "context.Context).Done") {
			return c.givenCtx(x.Common().Value, starter, 0)
		}
	case *ssa.UnOp, *ssa.FreeVar:
		bs := bound(v)
		for _, b := range bs {
			if !c.doneOf(b, starter, d+1) {
				return false
			}
		}
		return len(bs) > 0
	case *ssa.Phi:
		for _, b := range x.Edges {
			if !c.doneOf(b, starter, d+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return c.fromCallers(x, func(a ssa.Value) bool { return c.doneOf(a, starter, d+1) })
	}
	return false
}

func (c *Check) givenCtx(v ssa.Value, starter *ssa.Function, d int) bool {
	if d > 8 {
		return false
	}
	all := func(vs []ssa.Value) bool {
		for _, b := range vs {
			if !c.givenCtx(b, starter, d+1) {
				return false
			}
		}
		return len(vs) > 0
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if x.Parent() == starter {
			return true
		}
		return c.fromCallers(x, func(a ssa.Value) bool { return c.givenCtx(a, starter, d+1) })
	case *ssa.UnOp, *ssa.FreeVar:
		return all(bound(v))
	case *ssa.Phi:
		return all(x.Edges)
	case *ssa.ChangeInterface:
		return c.givenCtx(x.X, starter, d+1)
	case *ssa.MakeInterface:
		return c.givenCtx(x.X, starter, d+1)
	case *ssa.Extract:
		return c.givenCtx(x.Tuple, starter, d+1)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && strings.Contains(f.String(), "context.With") && !strings.HasSuffix(f.String(), "WithoutCancel") && len(x.Call.Args) > 0 {
			return c.givenCtx(x.Call.Args[0], starter, d+1)
		}
	}
	return false
}

// fromCallers: every call in the repository passes a value that satisfies ok.
func (c *Check) fromCallers(q *ssa.Parameter, ok func(ssa.Value) bool) bool {
	f := q.Parent()
	i := -1
	for k, p := range f.Params {
		if p == q {
			i = k
		}
	}
	n := 0
	for _, g := range c.w.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, is := in.(ssa.CallInstruction); is && ci.Common().StaticCallee() == f && i < len(ci.Common().Args) {
					n++
					if !ok(ci.Common().Args[i]) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// consumer: f receives from the stream that producer starts.
func (c *Check) consumer(f, producer *ssa.Function) {
	name := shortFn(f)
	c.count("consumers")
	e := c.explore(f)
	for _, p := range e.paths {
		if p.End != "return" || p.facts().dead {
			continue
		}
		var made []*Event // contexts that can be cancelled
		for _, x := range p.St.events {
			if a := acquires(x.Callee); x.Kind == ECall && a != nil && a.fun && len(x.Res) > 1 {
				made = append(made, x)
			}
			if x.Kind != EGo || x.Fn == nil || outermost(x.Fn) != producer && !startedIn(x, producer) {
				continue
			}
			c.count("streams started")
			ok := false
			args := append([]*Term{}, x.Args...)
			if x.Loc != nil {
				args = append(args, x.Loc.Args...)
			}
			for _, g := range args {
				if cell := p.St.heap.m[g]; cell != nil {
					g = cell
				}
				for _, w := range made {
					ok = ok || g.Contains(w.Res[0])
				}
			}
			// or the stream is handed on, or has been received to its end
			for _, v := range p.Results {
				v = unIface(v)
				for _, g := range args {
					ok = ok || v == g || p.St.heap.m[g] != nil && p.St.heap.m[g] == v
				}
			}
			for _, y := range p.St.events {
				if y.Kind == ERecv && y.Seq > x.Seq && len(y.Res) > 1 && p.facts().Implies(Lit{y.Res[1], true}) {
					ok = true
				}
			}
			c.must(ok, "cancelled", name, p.Pos, "%s may return while the goroutine that it had %s start still has entries to send, and cannot end it", name, shortFn(producer))
		}
	}
}

func startedIn(x *Event, f *ssa.Function) bool {
	for _, s := range x.Stack {
		if s == f {
			return true
		}
	}
	return false
}
