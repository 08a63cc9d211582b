package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", checkC33, "call graph closure over the SSA form from the application of a mutation, the reading operations, the verifiers and the leaf constructors, with every source of non-determinism in it followed forward to where its value goes",
		"No function reachable from the application of a queued mutation, from a reading operation, from a proof verifier or from a leaf constructor or validator may use the clock, randomness, the environment, files, the network, the scheduler, an output format that is documented as unstable, the iteration order of a map, a goroutine, a choice between channels, or a package-level variable that is written after initialisation, unless the value only ends in log lines or error texts.")
}

// pureRoots: function -> what it is.
func (c *Check) pureRoots() map[*ssa.Function]string {
	out := map[*ssa.Function]string{}
	for _, o := range c.serviceOps() {
		if isAdd := strings.Contains(o.Name, "Add") || strings.Contains(o.Name, "Set"); !isAdd {
			out[o.Fn] = "reading operation"
			c.count("reading operations")
		}
	}
	if fn := c.fn("verifiable", "ApplyMutation"); fn != nil {
		out[fn] = "application of mutations"
	}
	for _, fn := range c.w.Funcs {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Pkg == nil || fn.Blocks == nil {
			continue
		}
		n := fn.Name()
		switch {
		case strings.HasSuffix(fn.Pkg.Pkg.Path(), "/merkle"):
			out[fn] = "hashing"
			c.count("hash and range functions")
		case !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/verifiable"):
		case fn.Signature.Recv() == nil && (strings.HasPrefix(n, "Create") && strings.Contains(n, "Leaf") || strings.HasPrefix(n, "Validate") || strings.HasPrefix(n, "Verify")):
			if !c.entersClient(fn) {
				out[fn] = "leaf construction and verification"
				c.count("leaf constructors, validators and verifiers")
			}
		case strings.HasPrefix(n, "BPath"):
			out[fn] = "map paths"
		}
	}
	return out
}

// entersClient: the function takes part in asking a service.
func (c *Check) entersClient(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if t := types.TypeString(p.Type(), nil); strings.HasSuffix(t, "context.Context") {
			return true
		}
	}
	return false
}

func checkC33(c *Check) {
	a := c.w.effects()
	c.assumption("encoding/json, proto.Marshal of messages without map fields, objecthash and the hash functions are functions of their arguments; what the storage and the policy answer is an input")
	roots := c.pureRoots()
	from := map[*ssa.Function]string{}
	var todo []*ssa.Function
	add := func(f *ssa.Function, why string) {
		if f.Blocks == nil || generated(f.Pkg) || from[f] != "" {
			return
		}
		from[f] = why
		todo = append(todo, f)
	}
	var rs []*ssa.Function
	for f := range roots {
		rs = append(rs, f)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].String() < rs[j].String() })
	for _, f := range rs {
		add(f, roots[f])
	}
	outside := c.inputs()
	written := c.writtenGlobals()
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		c.count("functions reached")
		c.pure(f, from[f], written)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function), from[f])
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && c.w.InRepo(g) {
						add(g, from[f])
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() && outside[cc.Method.Name()] {
					continue
				}
				if cc.StaticCallee() == nil && !cc.IsInvoke() {
					continue // functions given or made here, which are reached where they are made
				}
				for _, g := range a.targets(cc) {
					add(g, from[f])
				}
			}
		}
	}
	c.min("reading operations", 6)
	c.min("hash and range functions", 3)
	c.min("leaf constructors, validators and verifiers", 4)
	c.min("functions reached", 30)
}

// inputs: the methods of the interfaces whose answers are inputs.
func (c *Check) inputs() map[string]bool {
	out := map[string]bool{}
	for _, n := range []string{"KeyReader", "KeyWriter", "StorageReader", "StorageWriter", "AuthorizationOracle", "MutatorService"} {
		if t := c.typeNamed("verifiable", n); t != nil {
			if it, ok := t.Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					out[it.Method(i).Name()] = true
				}
			}
		}
	}
	return out
}

// writtenGlobals: package-level variables assigned outside initialisation.
func (c *Check) writtenGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	a := c.w.effects()
	once := c.calledInInitOnly()
	for _, f := range c.w.Funcs {
		if isInit(f) || once[f] || generated(f.Pkg) || c.onceOnly(f) {
			continue
		}
		for e := range a.sum(f).writes {
			if g, ok := e.src.(*ssa.Global); ok && c.w.inRepoPkg(g.Pkg) && !generated(g.Pkg) {
				out[g] = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						out[g] = true
					}
				}
			}
		}
	}
	return out
}

// onceOnly: a function literal that is only given to sync.Once.Do, sync.OnceFunc or OnceValue.
func (c *Check) onceOnly(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	n := 0
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if mc, ok := v.(*ssa.MakeClosure); ok {
					v = mc.Fn
				}
				if v != ssa.Value(f) {
					continue
				}
				if _, ok := in.(*ssa.MakeClosure); ok {
					continue
				}
				n++
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				g := ci.Common().StaticCallee()
				if g == nil || !(fullName(g) == "(*sync.Once).Do" || strings.HasPrefix(fullName(g), "sync.Once")) {
					return false
				}
			}
		}
	}
	return n > 0
}

var unstable = []string{
	"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.AfterFunc",
	"math/rand.", "(*math/rand.", "math/rand/v2.", "(*math/rand/v2.", "crypto/rand.", "hash/maphash.", "(*hash/maphash.",
	"os.", "(*os.", "os/user.", "net.", "(*net.", "net/http.", "(*net/http.", "runtime.", "runtime/debug.", "syscall.", "io/ioutil.",
	"(reflect.Value).MapKeys", "(reflect.Value).MapRange", "maps.Keys", "maps.Values", "maps.All",
	"google.golang.org/protobuf/encoding/protojson.Marshal", "(google.golang.org/protobuf/encoding/protojson.MarshalOptions)", "google.golang.org/protobuf/encoding/protojson.Format",
	"google.golang.org/protobuf/encoding/prototext.Marshal", "(google.golang.org/protobuf/encoding/prototext.MarshalOptions)", "google.golang.org/protobuf/encoding/prototext.Format",
	"github.com/google/uuid.", "(time.Time).Local", "time.LoadLocation",
}

// notUnstable: of the packages above, functions of their arguments.
var notUnstable = map[string]bool{
	"net/http.StatusText": true, "net/http.CanonicalHeaderKey": true, "os.IsNotExist": true, "os.IsExist": true, "runtime.KeepAlive": true,
	"net.ParseIP": true, "net.SplitHostPort": true, "net.JoinHostPort": true,
}

func unstableCall(cc *ssa.CallCommon) string {
	n := ""
	if f := cc.StaticCallee(); f != nil {
		n = fullName(f)
	} else if cc.IsInvoke() && cc.Method.Name() == "String" {
		n = "(" + types.TypeString(cc.Value.Type(), nil) + ").String"
	}
	if notUnstable[n] {
		return ""
	}
	for _, u := range unstable {
		if strings.HasPrefix(n, u) {
			return n
		}
	}
	if f := cc.StaticCallee(); f != nil && generated(f.Pkg) && f.Name() == "String" && f.Signature.Recv() != nil {
		if _, ok := derefType(f.Signature.Recv().Type()).Underlying().(*types.Struct); ok {
			return n // the text of a message is unstable on purpose
		}
	}
	return ""
}

// telling: functions whose effects are texts for people, and errors.
func telling(n string) bool {
	return strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.") || strings.HasPrefix(n, "fmt.Errorf") || strings.HasPrefix(n, "errors.") ||
		strings.HasPrefix(n, "google.golang.org/grpc/status.") || strings.HasPrefix(n, "log/slog.") || strings.HasPrefix(n, "(*log/slog.")
}

func (c *Check) pure(f *ssa.Function, why string, written map[*ssa.Global]bool) {
	name := shortFn(f)
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				c.fail("order", name, x.Pos(), "%s (%s) starts a goroutine", name, why)
			case *ssa.Select:
				for _, s := range x.States {
					if !ctxDone(s.Chan) {
						c.fail("order", name, x.Pos(), "%s (%s) chooses between channels", name, why)
						break
					}
				}
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && written[g] && flows(x) {
					c.fail("state", name, x.Pos(), "%s (%s) depends on the package-level variable %s, which changes while the program runs", name, why, g.Name())
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					n++
					c.must(orderFree(f, x), "map-order", name, x.Pos(), "%s (%s) depends on the iteration order of a map", name, why)
				}
			case *ssa.Call:
				n++
				if s := unstableCall(&x.Call); s != "" && flows(x) {
					c.fail("source", name, x.Pos(), "%s (%s) uses the result of %s", name, why, s)
				}
				if g := x.Call.StaticCallee(); g != nil && strings.HasPrefix(fullName(g), "fmt.Sprint") && formatsMessage(x) && flows(x) {
					c.fail("source", name, x.Pos(), "%s (%s) uses the text of a protocol message, which is unstable", name, why)
				}
			}
		}
	}
	c.ok("source", name)
	for i := 0; i < n; i++ {
		c.count("calls examined")
	}
}

func ctxDone(v ssa.Value) bool {
	x, ok := v.(*ssa.Call)
	return ok && x.Call.IsInvoke() && x.Call.Method.Name() == "Done"
}

func formatsMessage(x *ssa.Call) bool {
	found := false
	for _, a := range x.Call.Args {
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok || al.Referrers() == nil {
			continue
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok {
					if mi, ok := st.Val.(*ssa.MakeInterface); ok && types.NewMethodSet(mi.X.Type()).Lookup(nil, "ProtoReflect") != nil {
						found = true
					}
				}
			}
		}
	}
	return found
}

// flows: the value, or something made of it, leaves the function or decides something.
func flows(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var go1 func(v ssa.Value) bool
	go1 = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if x.Addr == v {
					continue
				}
				root := x.Addr
				for {
					if ia, ok := root.(*ssa.IndexAddr); ok {
						root = ia.X
						continue
					}
					if fa, ok := root.(*ssa.FieldAddr); ok {
						root = fa.X
						continue
					}
					break
				}
				al, ok := root.(*ssa.Alloc)
				if !ok || go1(al) {
					return true
				}
			case *ssa.Call:
				n := ""
				if f := x.Call.StaticCallee(); f != nil {
					n = fullName(f)
					if telling(n) {
						continue
					}
					if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
						return true
					}
				}
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok && n == "" {
					return true
				}
				if go1(x) {
					return true
				}
			case *ssa.Defer:
				if f := x.Call.StaticCallee(); f == nil || !telling(fullName(f)) {
					return true
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v && go1(x.Fn.(*ssa.Function).FreeVars[i]) {
						return true
					}
				}
			case *ssa.Return, *ssa.If, *ssa.MapUpdate, *ssa.Send, *ssa.Panic, *ssa.Select, *ssa.Go:
				return true
			case ssa.Value:
				if go1(x) {
					return true
				}
			}
		}
		return false
	}
	return go1(v)
}

// orderFree: what the loop over the map does is the same in every order.
func orderFree(f *ssa.Function, r *ssa.Range) bool {
	var head *ssa.BasicBlock
	for _, q := range *r.Referrers() {
		if n, ok := q.(*ssa.Next); ok {
			head = n.Block()
		}
	}
	if head == nil {
		return true
	}
	// the loop: blocks that reach the head from below it
	in := map[*ssa.BasicBlock]bool{head: true}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			up(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			up(p)
		}
	}
	leaves := ""
	leave := func(s string) bool {
		if leaves != "" && leaves != s {
			return false
		}
		leaves = s
		return true
	}
	var bad func(x ssa.Instruction) bool
	bad = func(x ssa.Instruction) bool {
		switch y := x.(type) {
		case *ssa.Next, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.Lookup, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.DebugRef, *ssa.BinOp:
			return false
		case *ssa.Alloc:
			return false
		case *ssa.Store:
			ia, ok := y.Addr.(*ssa.IndexAddr)
			if !ok {
				return true
			}
			al, ok := ia.X.(*ssa.Alloc)
			return !(ok && in[al.Block()])
		case *ssa.MapUpdate:
			// only under the key of this round
			k, ok := y.Key.(*ssa.Extract)
			return !(ok && k.Tuple.(ssa.Instruction).Block() == head)
		case *ssa.Phi:
			if y.Block() != head {
				return false
			}
			// a sum, or a list that is sorted afterwards
			for i, e := range y.Edges {
				if !in[y.Block().Preds[i]] || e == y {
					continue
				}
				if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.OR || b.Op == token.AND || b.Op == token.XOR) {
					if t, ok := b.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
						continue
					}
				}
				if cst, ok := e.(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.Bool {
					continue
				}
				if !sortedLater(y) {
					return true
				}
			}
			return false
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "append" || b.Name() == "delete") {
				return false
			}
			if g := y.Call.StaticCallee(); g != nil {
				n := fullName(g)
				return !(n == "bytes.Equal" || strings.HasPrefix(n, "strings.") && !strings.HasPrefix(n, "strings.New"))
			}
			return true
		}
		return true
	}
	for b := range in {
		for _, x := range b.Instrs {
			if bad(x) {
				return false
			}
		}
		for _, s := range b.Succs {
			if in[s] || b == head {
				continue
			}
			// an early way out must always give the same
			t := s
			for len(t.Succs) == 1 && len(t.Instrs) == 1 {
				t = t.Succs[0]
			}
			ret, ok := t.Instrs[len(t.Instrs)-1].(*ssa.Return)
			if !ok {
				return false
			}
			txt := ""
			for _, v := range ret.Results {
				cst, ok := v.(*ssa.Const)
				if ok {
					txt += cst.String() + ";"
					continue
				}
				if l, ok := v.(*ssa.UnOp); ok {
					if g, ok := l.X.(*ssa.Global); ok {
						txt += g.String() + ";"
						continue
					}
				}
				return false
			}
			if !leave(txt) {
				return false
			}
		}
	}
	return true
}

// sortedLater: the list collected in the loop is sorted before anything else is done with it.
func sortedLater(p *ssa.Phi) bool {
	for _, r := range *p.Referrers() {
		x, ok := r.(*ssa.Call)
		v := ssa.Value(p)
		if mi, ok2 := r.(*ssa.MakeInterface); ok2 {
			v = mi
			for _, q := range *mi.Referrers() {
				if y, ok3 := q.(*ssa.Call); ok3 {
					x, ok = y, true
				}
			}
		}
		_ = v
		if !ok {
			continue
		}
		if g := x.Call.StaticCallee(); g != nil && (strings.HasPrefix(fullName(g), "sort.") || strings.HasPrefix(fullName(g), "slices.Sort")) {
			return true
		}
	}
	return false
}
