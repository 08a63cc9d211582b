package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", checkC35, "whole-program lockset analysis over the SSA form: places that hold state shared between requests (fields of services, policies, mutators, backends, servers, clients, variables captured by handlers and goroutines, package-level variables) are followed through loads, calls and closures to every instruction that reads or writes them, with the locks that are certainly held there",
		"Every place shared between concurrent requests that is written after construction is accessed only while one and the same lock is held, exclusively where it writes, or only with atomic operations; calls of methods that modify a shared hash, buffer, encoder or random source are writes. A variable captured by a goroutine is not accessed by its creator after the start if one of the two writes it, unless the creator waited in between.")
}

type access struct {
	fn    *ssa.Function
	in    ssa.Instruction
	write bool
	what  string
	locks map[string]bool // lock -> exclusively
}

type races struct {
	c       *Check
	a       *effectsOf
	shared  map[*types.TypeName]bool
	scoped  map[*types.TypeName]bool // the readers and writers given to functions of updates
	vals    map[ssa.Value]map[string]bool
	results map[*ssa.Function]map[int]map[string]bool
	changed bool
	acc     map[string][]*access
	entry   map[*ssa.Function]map[string]bool // nil: not known yet
	at      map[ssa.Instruction]map[string]bool
	exempt  map[*ssa.Function]bool
}

func checkC35(c *Check) {
	c.assumption("handles of badger and bolt, pools of pgx, HTTP and gRPC clients, loggers, channels, sync and sync/atomic types may be shared between goroutines; the function of an update or read is run under what C21 and C31 establish")
	r := &races{c: c, a: c.w.effects(), shared: map[*types.TypeName]bool{}, scoped: map[*types.TypeName]bool{}, vals: map[ssa.Value]map[string]bool{}, results: map[*ssa.Function]map[int]map[string]bool{}, acc: map[string][]*access{}, entry: map[*ssa.Function]map[string]bool{}, at: map[ssa.Instruction]map[string]bool{}, exempt: map[*ssa.Function]bool{}}
	r.types()
	r.constructors()
	for i := 0; i < 20; i++ {
		r.changed = false
		for _, f := range c.w.Funcs {
			if f.Blocks != nil && !generated(f.Pkg) {
				r.follow(f, false)
			}
		}
		if !r.changed {
			break
		}
	}
	r.locks()
	for _, f := range c.w.Funcs {
		if f.Blocks != nil && !generated(f.Pkg) && !r.exempt[f] {
			r.follow(f, true)
			c.count("functions")
			r.goroutines(f)
		}
	}
	r.judge()
	c.min("shared types", 10)
	c.min("functions", 150)
	c.min("goroutines", 2)
}

// types: whose values are used by several requests at a time.
func (r *races) types() {
	var ifs []types.Type
	for _, n := range []string{"StorageReader", "StorageWriter", "AuthorizationOracle", "MutatorService"} {
		if t := r.c.typeNamed("verifiable", n); t != nil {
			ifs = append(ifs, t)
		}
	}
	for _, n := range []string{"VerifiableDataStructuresServiceServer", "VerifiableDataStructuresServiceClient"} {
		if t := r.c.typeNamed("pb", n); t != nil {
			ifs = append(ifs, t)
		}
	}
	same := func(t types.Type) bool {
		for _, i := range ifs {
			if types.Identical(t, i) {
				return true
			}
		}
		return false
	}
	for _, n := range []string{"KeyReader", "KeyWriter"} {
		if t := r.c.typeNamed("verifiable", n); t != nil {
			for _, m := range r.c.implementers(t) {
				if nt, ok := m.(*types.Named); ok {
					r.scoped[nt.Obj()] = true
				}
			}
		}
	}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch u := t.(type) {
		case *types.Pointer:
			add(u.Elem())
			return
		case *types.Slice:
			add(u.Elem())
			return
		case *types.Array:
			add(u.Elem())
			return
		case *types.Map:
			add(u.Elem())
			return
		}
		nt, ok := t.(*types.Named)
		if !ok || nt.Obj().Pkg() == nil || !strings.HasPrefix(nt.Obj().Pkg().Path(), modPath) || strings.HasSuffix(nt.Obj().Pkg().Path(), "/pb") || r.shared[nt.Obj()] || r.scoped[nt.Obj()] {
			return
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			return
		}
		r.shared[nt.Obj()] = true
		r.c.count("shared types")
		for i := 0; i < st.NumFields(); i++ {
			add(st.Field(i).Type())
		}
	}
	for _, i := range ifs {
		for _, t := range r.c.implementers(i) {
			add(t)
		}
	}
	for _, p := range r.c.w.Pkgs {
		if strings.HasSuffix(p.PkgPath, "/pb") || strings.Contains(p.PkgPath, "/cmd/") {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			for i := 0; ok && i < st.NumFields(); i++ {
				if same(st.Field(i).Type()) {
					add(tn.Type())
				}
			}
		}
	}
}

// constructors: what they touch is not shared yet.
func (r *races) constructors() {
	once := r.c.calledInInitOnly()
	for _, f := range r.c.w.Funcs {
		if isInit(f) || once[f] || r.c.onceOnly(f) {
			r.exempt[f] = true
			continue
		}
		rv := f.Signature.Recv()
		if rv != nil {
			if nt, ok := derefType(rv.Type()).(*types.Named); ok && r.scoped[nt.Obj()] {
				r.exempt[f] = true
				continue
			}
		}
		if n := f.Name(); f.Parent() == nil && (strings.HasPrefix(n, "Create") || strings.HasPrefix(n, "MustCreate") || strings.HasPrefix(n, "New") || strings.HasPrefix(n, "Must")) {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				t := f.Signature.Results().At(i).Type()
				nt, ok := derefType(t).(*types.Named)
				_, isIf := t.Underlying().(*types.Interface)
				if isIf && !isErrorType(t) || ok && r.shared[nt.Obj()] {
					r.exempt[f] = true
				}
			}
		}
	}
}

func (r *races) typeKey(t types.Type) *types.TypeName {
	if nt, ok := derefType(t).(*types.Named); ok && r.shared[nt.Obj()] {
		return nt.Obj()
	}
	return nil
}

// refLike: values of the type give access to memory.
func refLike(t types.Type) bool {
	return holdsMemory(t)
}

// selfSynced: the type takes care of itself.
func selfSynced(t types.Type) bool {
	s := types.TypeString(derefType(t), nil)
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.")
}

// fresh: the object was made by this function.
func fresh(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return fresh(x.X, d)
	case *ssa.IndexAddr:
		return fresh(x.X, d)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if d > 4 || !fresh(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || f.Blocks == nil || d > 4 {
			return false
		}
		n := 0
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				n++
				if !fresh(ret.Results[0], d+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

func (r *races) taint(v ssa.Value, ks map[string]bool) {
	if len(ks) == 0 || v == nil {
		return
	}
	m := r.vals[v]
	if m == nil {
		m = map[string]bool{}
		r.vals[v] = m
	}
	for k := range ks {
		if !m[k] {
			m[k] = true
			r.changed = true
		}
	}
}

// keysOf: the shared places that v is the address of, or gives access to.
func (r *races) keysOf(v ssa.Value) map[string]bool {
	switch x := v.(type) {
	case *ssa.Global:
		if r.c.w.inRepoPkg(x.Pkg) && !generated(x.Pkg) && !strings.HasPrefix(x.Name(), "init$") {
			return map[string]bool{"the package-level variable " + x.Name(): true}
		}
	case *ssa.FieldAddr:
		if tn := r.typeKey(x.X.Type()); tn != nil {
			if fresh(x.X, 0) {
				return nil
			}
			st := tn.Type().Underlying().(*types.Struct)
			return map[string]bool{tn.Pkg().Name() + "." + tn.Name() + "." + st.Field(x.Field).Name(): true}
		}
	}
	return r.vals[v]
}

func handlerLike(f *ssa.Function) bool {
	s := f.Signature
	for i := 0; i < s.Params().Len(); i++ {
		t := types.TypeString(s.Params().At(i).Type(), nil)
		if t == "*net/http.Request" || strings.HasSuffix(t, "grpc.UnaryServerInfo") {
			return true
		}
	}
	return false
}

// changing: methods of other packages that modify their receiver.
func changing(n string) bool {
	for _, p := range []string{"(hash.Hash).", "(hash.Hash32).", "(hash.Hash64).", "(*bytes.Buffer).", "(*strings.Builder).", "(*bufio.", "(*encoding/json.Encoder).", "(*encoding/json.Decoder).", "(*math/rand.Rand).", "(*math/big.Int).Set", "(*container/", "(io.Writer).Write", "(io.Reader).Read", "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del", "(*math/rand/v2.", "(*github.com/jackc/pgx/v5.Conn).", "(*github.com/jackc/pgx/v5/pgxpool.Conn).", "(*github.com/jackc/pgx/v5/pgconn.PgConn).", "(*database/sql.Tx)."} {
		if strings.HasPrefix(n, p) {
			return n != "(hash.Hash).Size" && n != "(hash.Hash).BlockSize"
		}
	}
	return false
}

func (r *races) follow(f *ssa.Function, report bool) {
	hit := func(in ssa.Instruction, ks map[string]bool, write bool, what string) {
		if !report {
			return
		}
		for k := range ks {
			r.acc[k] = append(r.acc[k], &access{f, in, write, what, r.at[in]})
		}
	}
	pass := func(v, to ssa.Value) {
		if ks := r.keysOf(v); len(ks) > 0 && refLike(to.Type()) && !selfSynced(to.Type()) {
			r.taint(to, ks)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					continue
				}
				if al, ok := x.X.(*ssa.Alloc); ok {
					if r.typeKey(x.Type()) == nil {
						pass(al, x)
					}
					continue
				}
				if ks := r.keysOf(x.X); len(ks) > 0 && !selfSynced(x.Type()) {
					hit(in, ks, false, "reads")
					if refLike(x.Type()) && r.typeKey(x.Type()) == nil {
						r.taint(x, ks)
					}
				}
			case *ssa.Store:
				if ks := r.keysOf(x.Addr); len(ks) > 0 {
					if _, local := x.Addr.(*ssa.Alloc); !local {
						hit(in, ks, true, "writes")
					}
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok && r.typeKey(x.Val.Type()) == nil && refLike(x.Val.Type()) {
					if ks := r.keysOf(x.Val); len(ks) > 0 {
						r.taintCell(al, ks)
					}
				}
			case *ssa.FieldAddr:
				if r.typeKey(x.X.Type()) == nil {
					if _, local := x.X.(*ssa.Alloc); !local {
						r.taint(x, r.keysOf(x.X))
					}
				}
			case *ssa.IndexAddr:
				if _, local := x.X.(*ssa.Alloc); !local {
					r.taint(x, r.keysOf(x.X))
				}
			case *ssa.Slice:
				if _, local := x.X.(*ssa.Alloc); !local {
					pass(x.X, x)
				}
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					hit(in, r.keysOf(x.X), false, "looks in")
					if t, ok := x.Type().(*types.Tuple); ok && refLike(t.At(0).Type()) || !ok && refLike(x.Type()) {
						r.taint(x, r.keysOf(x.X))
					}
				}
			case *ssa.MapUpdate:
				hit(in, r.keysOf(x.Map), true, "writes")
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					r.taint(x, r.keysOf(x.X))
				}
			case *ssa.Next:
				hit(in, r.keysOf(x.Iter), false, "goes over")
				r.taint(x, r.keysOf(x.Iter))
			case *ssa.Extract:
				pass(x.Tuple, x)
			case *ssa.Phi:
				for _, e := range x.Edges {
					pass(e, x)
				}
			case *ssa.ChangeType:
				pass(x.X, x)
			case *ssa.ChangeInterface:
				pass(x.X, x)
			case *ssa.MakeInterface:
				pass(x.X, x)
			case *ssa.TypeAssert:
				pass(x.X, x)
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, bd := range x.Bindings {
					ks := r.keysOf(bd)
					if al, ok := bd.(*ssa.Alloc); ok {
						ks = nil
						if handlerLike(g) && !selfSynced(al.Type()) {
							ks = map[string]bool{"the variable " + al.Comment + " of " + shortFn(f) + " that handlers share": true}
						}
						// what the variable holds
						if m := r.vals[al]; len(m) > 0 {
							r.taintCellOf(g.FreeVars[i], m)
						}
					}
					if len(ks) > 0 && !selfSynced(g.FreeVars[i].Type()) {
						r.taint(g.FreeVars[i], ks)
					}
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if ks := r.keysOf(v); len(ks) > 0 && refLike(v.Type()) {
						if _, local := v.(*ssa.Alloc); local {
							continue
						}
						m := r.results[f]
						if m == nil {
							m = map[int]map[string]bool{}
							r.results[f] = m
						}
						if m[i] == nil {
							m[i] = map[string]bool{}
						}
						for k := range ks {
							if !m[i][k] {
								m[i][k] = true
								r.changed = true
							}
						}
					}
				}
			case ssa.CallInstruction:
				r.callOf(f, x, hit)
			}
		}
	}
}

// cells: what local variables hold is kept under the variable itself and passed on to what
// is loaded from it.
func (r *races) taintCell(al ssa.Value, ks map[string]bool) { r.taint(al, ks) }

func (r *races) taintCellOf(fv ssa.Value, ks map[string]bool) {
	if fv.Referrers() == nil {
		return
	}
	for _, q := range *fv.Referrers() {
		if u, ok := q.(*ssa.UnOp); ok && u.Op == token.MUL && refLike(u.Type()) && r.typeKey(u.Type()) == nil {
			r.taint(u, ks)
		}
	}
}

func (r *races) callOf(f *ssa.Function, ci ssa.CallInstruction, hit func(ssa.Instruction, map[string]bool, bool, string)) {
	cc := ci.Common()
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	keys := func(v ssa.Value) map[string]bool {
		if _, ok := v.(*ssa.Alloc); ok {
			return nil // a variable of this call
		}
		return r.keysOf(v)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if cl, _ := capped(args[0]); !cl && !r.storedBack(ci, args[0]) {
				hit(ci, keys(args[0]), true, "appends in place to")
			}
			if v := ci.Value(); v != nil {
				r.taint(v, keys(args[0]))
			}
		case "copy":
			hit(ci, keys(args[0]), true, "copies into")
			hit(ci, keys(args[1]), false, "copies from")
		case "delete", "clear":
			hit(ci, keys(args[0]), true, "deletes from")
		case "len":
			if _, ok := args[0].Type().Underlying().(*types.Map); ok {
				hit(ci, keys(args[0]), false, "looks in")
			}
		}
		return
	}
	name := ""
	if g := cc.StaticCallee(); g != nil {
		name = fullName(g)
	} else if cc.IsInvoke() {
		name = "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
	}
	ts := r.a.targets(cc)
	for _, g := range ts {
		off := 0
		for i, a := range args {
			if i+off >= len(g.Params) {
				break
			}
			p := g.Params[i+off]
			if ks := keys(a); len(ks) > 0 && refLike(p.Type()) && !selfSynced(p.Type()) && r.typeKey(p.Type()) == nil {
				r.taint(p, ks)
			}
		}
		if v := ci.Value(); v != nil {
			m := r.results[g]
			if g.Signature.Results().Len() == 1 {
				if r.typeKey(v.Type()) == nil {
					r.taint(v, m[0])
				}
			} else if v.Referrers() != nil {
				for _, q := range *v.Referrers() {
					if ex, ok := q.(*ssa.Extract); ok && r.typeKey(ex.Type()) == nil {
						r.taint(ex, m[ex.Index])
					}
				}
			}
		}
	}
	if len(ts) > 0 {
		return
	}
	switch {
	case len(args) == 0:
	case strings.HasPrefix(name, "sync/atomic."):
		w := !strings.HasPrefix(name, "sync/atomic.Load")
		hit(ci, keys(args[0]), w, "atomically")
	case changing(name):
		hit(ci, keys(args[0]), true, "modifies ("+name+")")
	case strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Reverse"):
		hit(ci, keys(args[0]), true, "sorts")
	default:
		for _, i := range writers[name] {
			if i >= 0 && i < len(args) {
				hit(ci, keys(args[i]), true, "overwrites ("+name+")")
			}
		}
	}
}

// storedBack: the result of append replaces the list, which is a write of its own.
func (r *races) storedBack(ci ssa.CallInstruction, list ssa.Value) bool {
	v := ci.Value()
	u, ok := list.(*ssa.UnOp)
	if v == nil || !ok || v.Referrers() == nil {
		return false
	}
	for _, q := range *v.Referrers() {
		if st, ok := q.(*ssa.Store); ok && st.Val == v {
			a, ok1 := st.Addr.(*ssa.FieldAddr)
			b, ok2 := u.X.(*ssa.FieldAddr)
			if ok1 && ok2 && a.Field == b.Field && a.X == b.X || st.Addr == u.X {
				return true
			}
		}
	}
	return false
}

// ---- locks that are certainly held

func (r *races) lockKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if nt, ok := derefType(x.X.Type()).(*types.Named); ok {
			if st, ok := nt.Underlying().(*types.Struct); ok {
				return nt.String() + "." + st.Field(x.Field).Name()
			}
		}
	case *ssa.UnOp:
		return r.lockKey(x.X)
	case *ssa.Global:
		return x.String()
	case *ssa.Alloc:
		return x.Parent().String() + "." + x.Comment
	case *ssa.FreeVar:
		return x.Parent().Parent().String() + "." + x.Name()
	case *ssa.Parameter:
		return "param " + x.Parent().String() + "." + x.Name()
	case *ssa.MakeInterface:
		return r.lockKey(x.X)
	case *ssa.ChangeInterface:
		return r.lockKey(x.X)
	case *ssa.Call: // mu.RLocker()
		if g := x.Call.StaticCallee(); g != nil && g.Name() == "RLocker" {
			return r.lockKey(x.Call.Args[0])
		}
	}
	return ""
}

func copyLocks(m map[string]bool) map[string]bool {
	o := map[string]bool{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

// meetLocks: held on both ways, exclusively if so on both.
func meetLocks(a, b map[string]bool) map[string]bool {
	if a == nil {
		return copyLocks(b)
	}
	if b == nil {
		return copyLocks(a)
	}
	o := map[string]bool{}
	for k, x := range a {
		if y, ok := b[k]; ok {
			o[k] = x && y
		}
	}
	return o
}

func sameLocks(a, b map[string]bool) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (r *races) locks() {
	type net struct {
		gen  map[string]bool
		kill map[string]bool
	}
	nets := map[*ssa.Function]*net{}
	// dynamic targets and uses of function values
	open := map[*ssa.Function]bool{} // may be called from anywhere
	for _, f := range r.c.w.Funcs {
		if f.Parent() == nil && (f.Object() == nil || f.Object().Exported()) {
			open[f] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				ci, isCall := in.(ssa.CallInstruction)
				if isCall {
					callee = ci.Common().Value
					if g := ci.Common().StaticCallee(); g != nil {
						if _, ok := in.(*ssa.Call); !ok {
							open[g] = true // deferred or in a goroutine
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						if _, mc := in.(*ssa.MakeClosure); !mc {
							if !(isCall && r.inside(ci, g)) {
								open[g] = true
							}
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					for _, q := range *mc.Referrers() {
						qc, ok := q.(*ssa.Call)
						if !ok || qc.Call.Value != ssa.Value(mc) && !r.inside(qc, mc) {
							open[g] = true
						}
					}
				}
			}
		}
	}
	flow := func(f *ssa.Function, start map[string]bool, record bool, each func(in ssa.CallInstruction, held map[string]bool)) (map[string]bool, map[string]bool) {
		ins := map[*ssa.BasicBlock]map[string]bool{f.Blocks[0]: copyLocks(start)}
		kill := map[string]bool{}
		deferred := map[string]bool{}
		var exit map[string]bool
		step := func(b *ssa.BasicBlock, held map[string]bool) map[string]bool {
			for _, in := range b.Instrs {
				if record {
					r.at[in] = copyLocks(held)
				}
				switch x := in.(type) {
				case *ssa.Defer:
					if g := x.Call.StaticCallee(); g != nil {
						if m, acq := lockCall(fullName(g)); m != "" && !acq && len(x.Call.Args) > 0 {
							deferred[r.lockKey(x.Call.Args[0])] = true
						}
					} else if x.Call.IsInvoke() && x.Call.Method.Name() == "Unlock" {
						deferred[r.lockKey(x.Call.Value)] = true
					}
				case *ssa.Call:
					if each != nil {
						each(x, held)
					}
					name, arg := "", ssa.Value(nil)
					if g := x.Call.StaticCallee(); g != nil {
						name = fullName(g)
						if len(x.Call.Args) > 0 {
							arg = x.Call.Args[0]
						}
						if n := nets[g]; n != nil {
							for k := range n.kill {
								delete(held, k)
							}
							for k, w := range n.gen {
								held[k] = w
							}
						}
					} else if x.Call.IsInvoke() {
						name = "(" + types.TypeString(x.Call.Value.Type(), nil) + ")." + x.Call.Method.Name()
						arg = x.Call.Value
					}
					if m, _ := lockCall(name); m != "" && arg != nil {
						k := r.lockKey(arg)
						switch m {
						case "Lock":
							rl := false
							if mi, ok := arg.(*ssa.Call); ok && mi.Call.StaticCallee() != nil && mi.Call.StaticCallee().Name() == "RLocker" {
								rl = true
							}
							held[k] = !rl
						case "RLock":
							held[k] = false
						case "Unlock", "RUnlock":
							if _, ok := held[k]; !ok {
								kill[k] = true
							}
							delete(held, k)
						}
					}
				case *ssa.Return:
					out := copyLocks(held)
					for k := range deferred {
						delete(out, k)
					}
					exit = meetLocks(exit, out)
				}
			}
			return held
		}
		todo := []*ssa.BasicBlock{f.Blocks[0]}
		for n := 0; len(todo) > 0 && n < 10000; n++ {
			b := todo[0]
			todo = todo[1:]
			out := step(b, copyLocks(ins[b]))
			for _, s := range b.Succs {
				m := meetLocks(ins[s], out)
				if ins[s] == nil || !sameLocks(ins[s], m) {
					ins[s] = m
					todo = append(todo, s)
				}
			}
		}
		return exit, kill
	}
	fns := []*ssa.Function{}
	for _, f := range r.c.w.Funcs {
		if f.Blocks != nil && !generated(f.Pkg) {
			fns = append(fns, f)
		}
	}
	for i := 0; i < 3; i++ {
		for _, f := range fns {
			exit, kill := flow(f, nil, false, nil)
			if len(exit) > 0 || len(kill) > 0 {
				nets[f] = &net{exit, kill}
			} else {
				delete(nets, f)
			}
		}
	}
	for _, f := range fns {
		if open[f] {
			r.entry[f] = map[string]bool{}
		}
	}
	for i := 0; i < 10; i++ {
		next := map[*ssa.Function]map[string]bool{}
		for _, f := range fns {
			if r.entry[f] == nil && i > 0 {
				continue
			}
			flow(f, r.entry[f], false, func(in ssa.CallInstruction, held map[string]bool) {
				for _, g := range r.a.targets(in.Common()) {
					if !open[g] {
						next[g] = meetLocks(next[g], held)
					}
				}
			})
		}
		changed := false
		for _, f := range fns {
			if !open[f] && !sameLocks(r.entry[f], next[f]) {
				r.entry[f] = next[f]
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	for _, f := range fns {
		flow(f, r.entry[f], true, nil)
	}
}

// inside: the function is given to a function of the repository.
func (r *races) inside(ci ssa.CallInstruction, v ssa.Value) bool {
	if _, ok := ci.(*ssa.Call); !ok {
		return false
	}
	g := ci.Common().StaticCallee()
	return g != nil && g.Blocks != nil && r.c.w.InRepo(g)
}

// ---- verdicts

func (r *races) judge() {
	var ks []string
	for k := range r.acc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.c.count("places examined")
		as := r.acc[k]
		var common map[string]bool
		wr, atomic := false, true
		for _, a := range as {
			wr = wr || a.write
			atomic = atomic && a.what == "atomically"
		}
		if !wr || atomic {
			r.c.ok("shared", k)
			continue
		}
		r.c.count("places written")
		for _, a := range as {
			m := map[string]bool{}
			for l, w := range a.locks {
				if l != "" && (w || !a.write) {
					m[l] = true
				}
			}
			if common == nil {
				common = m
			} else {
				for l := range common {
					if !m[l] {
						delete(common, l)
					}
				}
			}
		}
		if len(common) > 0 {
			r.c.ok("shared", k)
			continue
		}
		// the access to name: a write with no lock, or else one with the fewest
		best := as[0]
		better := func(a, b *access) bool {
			if len(a.locks) != len(b.locks) {
				return len(a.locks) < len(b.locks)
			}
			return a.write && !b.write
		}
		for _, a := range as {
			if better(a, best) {
				best = a
			}
		}
		how := "with no lock held"
		if len(best.locks) > 0 {
			var ls []string
			for l, w := range best.locks {
				s := strings.ReplaceAll(l, modPath+"/", "")
				if !w {
					s += " (shared)"
				}
				ls = append(ls, s)
			}
			sort.Strings(ls)
			how = "with only " + strings.Join(ls, ", ") + " held"
		}
		w := ""
		for _, a := range as {
			if a.write {
				w = fmt.Sprintf("; it is written in %s", shortFn(a.fn))
				break
			}
		}
		r.c.fail("shared", shortFn(best.fn), best.in.Pos(), "%s %s %s, which concurrent requests share, %s%s", shortFn(best.fn), best.what, k, how, w)
	}
}

// ---- goroutines

func (r *races) goroutines(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			r.c.count("goroutines")
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				r.c.ok("goroutine", shortFn(f))
				continue
			}
			cl := mc.Fn.(*ssa.Function)
			for i, bd := range mc.Bindings {
				al, ok := bd.(*ssa.Alloc)
				if !ok || selfSynced(al.Type()) {
					continue
				}
				rd, wr := r.uses(cl, cl.FreeVars[i], 0)
				if !rd && !wr {
					continue
				}
				r.after(f, g, al, wr)
				if wr && r.again(g, al) {
					r.c.fail("goroutine", shortFn(f), g.Pos(), "%s starts several goroutines that write the variable %s", shortFn(f), al.Comment)
				}
			}
			r.c.ok("goroutine", shortFn(f))
		}
	}
}

// uses: whether a function literal reads or writes the variable.
func (r *races) uses(f *ssa.Function, v ssa.Value, d int) (rd, wr bool) {
	if v.Referrers() == nil || d > 4 {
		return
	}
	for _, q := range *v.Referrers() {
		switch x := q.(type) {
		case *ssa.Store:
			if x.Addr == v {
				wr = true
			} else {
				rd, wr = true, true // its address goes elsewhere
			}
		case *ssa.UnOp:
			rd = true
		case *ssa.FieldAddr:
			a, b := r.uses(f, x, d+1)
			rd, wr = rd || a, wr || b
		case *ssa.IndexAddr:
			a, b := r.uses(f, x, d+1)
			rd, wr = rd || a, wr || b
		case *ssa.MakeClosure:
			for i, bd := range x.Bindings {
				if bd == v {
					g := x.Fn.(*ssa.Function)
					a, b := r.uses(g, g.FreeVars[i], d+1)
					rd, wr = rd || a, wr || b
				}
			}
		case *ssa.DebugRef:
		case *ssa.Call:
			if selfSynced(v.Type()) {
				continue
			}
			rd, wr = true, true
		default:
			rd = true
		}
	}
	return
}

// after: the creator's accesses of the variable once the goroutine runs.
func (r *races) after(f *ssa.Function, g *ssa.Go, al *ssa.Alloc, wr bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == ssa.Instruction(al) {
				return // another variable
			}
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return
				}
				if x.X == ssa.Value(al) && wr && len(r.at[in]) == 0 {
					r.c.fail("goroutine", shortFn(f), x.Pos(), "%s reads the variable %s, which a goroutine it started may write at the same time", shortFn(f), al.Comment)
				}
			case *ssa.Select:
				return
			case *ssa.Next:
			case *ssa.Store:
				if x.Addr == ssa.Value(al) && len(r.at[in]) == 0 {
					r.c.fail("goroutine", shortFn(f), x.Pos(), "%s writes the variable %s, which a goroutine it started uses", shortFn(f), al.Comment)
				}
			case *ssa.Call:
				n := ""
				if c := x.Call.StaticCallee(); c != nil {
					n = fullName(c)
				}
				if n == "(*sync.WaitGroup).Wait" || strings.HasSuffix(n, "errgroup.Group).Wait") {
					return
				}
				for _, a := range x.Call.Args {
					if a == ssa.Value(al) && wr {
						r.c.fail("goroutine", shortFn(f), x.Pos(), "%s passes on the variable %s, which a goroutine it started may write at the same time", shortFn(f), al.Comment)
					}
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for i, in := range g.Block().Instrs {
		if in == ssa.Instruction(g) {
			walk(g.Block(), i+1)
		}
	}
}

// again: the statement may run twice for the same variable.
func (r *races) again(g *ssa.Go, al *ssa.Alloc) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == al.Block() && b != g.Block() {
			return false
		}
		if b == g.Block() {
			return al.Block() != b
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	for _, s := range g.Block().Succs {
		if !seen[s] {
			seen[s] = true
			if walk(s) {
				return true
			}
		}
	}
	return false
}
