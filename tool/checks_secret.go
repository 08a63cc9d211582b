package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"net/textproto"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34", checkC34, "whole-program flow analysis over the SSA form: the API keys read from references, policies and the Authorization header are followed through locals, fields, containers, calls and closures to a fixpoint, and every place that takes a value out of the program is examined",
		"Sources are the fields holding API keys and the Authorization header of requests. Text made from them may be compared, hashed, cut and joined, kept in fields that hold keys, handed to the access policy and sent as the Authorization header. It may not reach anything else outside the repository's code (logs, formatting of errors, statuses, URLs, other headers, answers, files), nor a namespace, key or value of the storage, a queued mutation, another field of a protocol message, a package-level variable, or a panic. Values whose type holds a key (references, requests, policies, HTTP requests and headers) may not be formatted, logged, encoded or stored.")
}

// secrets is the analysis of where API keys go.
type secrets struct {
	c       *Check
	a       *effectsOf
	vals    map[ssa.Value]bool  // holds a key, or points to something that does
	fields  map[*types.Var]bool // fields in which keys are kept
	results map[*ssa.Function]map[int]bool
	globals map[*ssa.Global]bool
	changed bool
	holding map[types.Type]bool
	msgs    bool // follow messages that hold keys, in interfaces, instead of keys
}

func isKeyField(v *types.Var) bool {
	n := strings.ToLower(v.Name())
	return (n == "apikey" || n == "api_key") && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), modPath)
}

// holds: values of the type have an API key in them, or point to one.
func (s *secrets) holds(t types.Type) bool {
	if h, ok := s.holding[t]; ok {
		return h
	}
	s.holding[t] = false
	r := false
	switch u := t.(type) {
	case *types.Named:
		p := u.Obj().Pkg()
		if p != nil && p.Path() == "net/http" {
			r = u.Obj().Name() == "Request" || u.Obj().Name() == "Header"
		} else if p != nil && strings.HasPrefix(p.Path(), modPath) {
			r = s.holds(u.Underlying())
		}
	case *types.Alias:
		r = s.holds(types.Unalias(t))
	case *types.Pointer:
		r = s.holds(u.Elem())
	case *types.Slice:
		r = s.holds(u.Elem())
	case *types.Array:
		r = s.holds(u.Elem())
	case *types.Map:
		r = s.holds(u.Elem()) || s.holds(u.Key())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r = r || isKeyField(u.Field(i)) || s.holds(u.Field(i).Type())
		}
	}
	s.holding[t] = r
	return r
}

func fieldVar(t types.Type, i int) *types.Var {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(i)
}

func (s *secrets) mark(v ssa.Value) {
	if v == nil || s.vals[v] {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	s.vals[v] = true
	s.changed = true
}

// into marks the object that an address or container lies in.
func (s *secrets) into(addr ssa.Value) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		if f := fieldVar(x.X.Type(), x.Field); f != nil && !s.fields[f] {
			s.fields[f] = true
			s.changed = true
		}
	case *ssa.IndexAddr:
		s.mark(x)
		s.into(x.X)
	case *ssa.Slice:
		s.mark(x)
		s.into(x.X)
	case *ssa.UnOp:
		s.mark(x)
		if x.Op == token.MUL {
			s.into(x.X)
		}
	case *ssa.Global:
		if !s.globals[x] {
			s.globals[x] = true
			s.changed = true
		}
	case *ssa.Phi:
		if !s.vals[x] {
			s.mark(x)
			for _, e := range x.Edges {
				s.into(e)
			}
		}
	case *ssa.FreeVar:
		s.mark(x)
		fn := x.Parent()
		for i, v := range fn.FreeVars {
			if v != x {
				continue
			}
			if p := fn.Parent(); p != nil {
				for _, b := range p.Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && !s.vals[mc.Bindings[i]] {
							s.into(mc.Bindings[i])
						}
					}
				}
			}
		}
	default:
		s.mark(addr)
	}
}

func isFlag(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsNumeric) != 0 && b.Kind() != types.Uint8
}

// pureText: functions whose results are made from their arguments and that do nothing
// else with them.
func pureText(name string) bool {
	for _, p := range []string{"strings.", "bytes.", "strconv.", "unicode/utf8.", "encoding/hex.", "(*encoding/base64.Encoding).", "crypto/sha256.", "crypto/subtle.", "crypto/hmac.", "slices.", "maps.", "sort.", "net/textproto.", "fmt.Sprint", "fmt.Append", "(*strings.", "(*bytes.", "cmp."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func constText(v ssa.Value) (string, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

func isAuthHeader(v ssa.Value) (known, is bool) {
	t, ok := constText(v)
	return ok, ok && textproto.CanonicalMIMEHeaderKey(t) == "Authorization"
}

func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		return f.String()
	}
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "a function value"
}

// actuals are the arguments in the order of the callee's parameters.
func actuals(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func (s *secrets) step(fn *ssa.Function, in ssa.Instruction) {
	v, _ := in.(ssa.Value)
	any := func(vs ...ssa.Value) bool {
		for _, x := range vs {
			if s.vals[x] {
				return true
			}
		}
		return false
	}
	switch x := in.(type) {
	case *ssa.FieldAddr:
		if f := fieldVar(x.X.Type(), x.Field); f != nil && (isKeyField(f) && !s.msgs || s.fields[f]) {
			s.mark(v)
		}
	case *ssa.Field:
		if f := fieldVar(x.X.Type(), x.Field); f != nil && (isKeyField(f) && !s.msgs || s.fields[f]) {
			s.mark(v)
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && s.globals[g] || any(x.X) {
			s.mark(v)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && any(x.X, x.Y) {
			s.mark(v)
		}
	case *ssa.Phi:
		if any(x.Edges...) {
			s.mark(v)
		}
	case *ssa.MakeInterface:
		if s.msgs && s.holds(x.X.Type()) || any(x.X) {
			s.mark(v)
		}
	case *ssa.TypeAssert:
		// only what stays in an interface is followed
		if any(x.X) && (!s.msgs || isInterface(x.AssertedType)) {
			s.mark(v)
		}
	case *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Slice, *ssa.Range, *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		if any(*in.Operands(nil)[0]) {
			s.mark(v)
		}
	case *ssa.Index:
		if any(x.X) {
			s.mark(v)
		}
	case *ssa.IndexAddr:
		if any(x.X) {
			s.mark(v)
		}
	case *ssa.Lookup:
		if known, is := isAuthHeader(x.Index); known && is && !s.msgs && isHTTPHeader(x.X.Type()) {
			s.mark(v)
		}
		if any(x.X) {
			s.mark(v)
		}
	case *ssa.Next:
		if any(x.Iter) {
			s.mark(v)
		}
	case *ssa.Extract:
		if s.vals[x.Tuple] && !isFlag(x.Type()) && !isErrorType(x.Type()) {
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if ts := s.a.targets(&c.Call); len(ts) > 0 {
					ok := false
					for _, t := range ts {
						ok = ok || s.results[t][x.Index]
					}
					if !ok {
						return
					}
				}
			}
			s.mark(v)
		}
	case *ssa.Store:
		if any(x.Val) {
			s.into(x.Addr)
		}
	case *ssa.MapUpdate:
		if any(x.Key, x.Value) && !isHTTPHeader(x.Map.Type()) {
			s.into(x.Map)
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if any(b) {
				s.mark(f.FreeVars[i])
			}
		}
	case *ssa.Return:
		for i, r := range x.Results {
			if any(r) && !s.results[fn][i] {
				if s.results[fn] == nil {
					s.results[fn] = map[int]bool{}
				}
				s.results[fn][i] = true
				s.changed = true
			}
		}
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	c := ci.Common()
	args := actuals(c)
	name := calleeName(c)
	call, _ := in.(*ssa.Call)
	if s.msgs {
	} else if (name == "(net/http.Header).Get" || name == "(net/http.Header).Values" || name == "(net/textproto.MIMEHeader).Get") && call != nil {
		if _, is := isAuthHeader(args[1]); is {
			s.mark(call)
		}
		return
	}
	if name == "(*net/http.Request).BasicAuth" && call != nil && !s.msgs {
		s.mark(call)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if any(args...) {
				s.mark(call)
			}
		case "copy":
			if any(args[1]) {
				s.into(args[0])
			}
		case "min", "max":
			if any(args...) && call != nil && !isFlag(call.Type()) {
				s.mark(call)
			}
		}
		return
	}
	ts := s.a.targets(c)
	for _, t := range ts {
		for i, p := range t.Params {
			if i < len(args) && any(args[i]) {
				s.mark(p)
			}
		}
		if call != nil && len(s.results[t]) > 0 {
			for i := range s.results[t] {
				rt := t.Signature.Results().At(i).Type()
				if t.Signature.Results().Len() > 1 || !isFlag(rt) {
					s.mark(call)
				}
			}
		}
	}
	if len(ts) == 0 && any(args...) && pureText(name) && call != nil {
		// writers into their receiver
		if strings.Contains(name, ".Write") || strings.Contains(name, ".Encode") && len(args) > 1 {
			if !s.vals[args[0]] {
				s.into(args[0])
			}
		}
		if !isFlag(call.Type()) && !isErrorType(call.Type()) {
			s.mark(call)
		}
	}
}

func isHTTPHeader(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "net/http.Header" || s == "net/textproto.MIMEHeader"
}

// leaves: the name of the place outside that a call brings its arguments to.
func formats(name string) bool {
	for _, p := range []string{"fmt.", "log.", "(*log.", "log/slog.", "(*log/slog.", "errors.", "google.golang.org/grpc/status.", "google.golang.org/grpc/grpclog.", "os.", "(*os.", "io.", "encoding/json.Marshal", "(*encoding/json.Encoder).", "encoding/gob", "encoding/xml", "google.golang.org/protobuf/proto.Marshal", "(google.golang.org/protobuf/proto.MarshalOptions).", "google.golang.org/protobuf/encoding/prototext.Format", "google.golang.org/protobuf/encoding/prototext.Marshal", "(google.golang.org/protobuf/encoding/prototext.MarshalOptions).", "google.golang.org/protobuf/encoding/protojson.Format", "google.golang.org/protobuf/encoding/protojson.Marshal", "(google.golang.org/protobuf/encoding/protojson.MarshalOptions).", "net/http/httputil.", "github.com/golang/protobuf/proto.Marshal", "github.com/golang/protobuf/jsonpb", "runtime/debug."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var storageIfaces = []string{"StorageReader", "StorageWriter", "KeyReader", "KeyWriter", "MutatorService"}

func (s *secrets) storageCall(c *ssa.CallCommon) bool {
	if !c.IsInvoke() {
		return false
	}
	n, ok := types.Unalias(c.Value.Type()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/verifiable" {
		return false
	}
	for _, x := range storageIfaces {
		if n.Obj().Name() == x {
			return true
		}
	}
	return false
}

// spread: the values that make up an argument: those put into a variadic list, and
// what was put into an interface.
func spread(v ssa.Value, d int) []ssa.Value {
	if d > 4 {
		return []ssa.Value{v}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return spread(x.X, d+1)
	case *ssa.ChangeInterface:
		return spread(x.X, d+1)
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range x.Edges {
			out = append(out, spread(e, d+1)...)
		}
		return out
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			break
		}
		if _, ok := derefType(al.Type()).Underlying().(*types.Array); !ok {
			break
		}
		var out []ssa.Value
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
						out = append(out, spread(st.Val, d+1)...)
					}
				}
			}
		}
		return append(out, v)
	}
	return []ssa.Value{v}
}

func newSecrets(c *Check, msgs bool) *secrets {
	s := &secrets{c: c, a: c.w.effects(), vals: map[ssa.Value]bool{}, fields: map[*types.Var]bool{}, results: map[*ssa.Function]map[int]bool{}, globals: map[*ssa.Global]bool{}, holding: map[types.Type]bool{}, msgs: msgs}
	for round := 0; round < 50; round++ {
		s.changed = false
		for _, fn := range c.w.Funcs {
			if msgs && generated(fn.Pkg) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s.step(fn, in)
				}
			}
		}
		if !s.changed {
			break
		}
	}
	return s
}

func checkC34(c *Check) {
	c.assumption("the functions of strings, bytes, hex and base64, hashes and comparisons keep nothing of their arguments; HTTP clients send headers to the server they were asked to call only")
	s, m := newSecrets(c, false), newSecrets(c, true)
	for _, fn := range c.w.Funcs {
		if generated(fn.Pkg) || fn.Blocks == nil {
			continue
		}
		c.count("functions")
		name := shortFn(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s.leaks(fn, name, in, m)
			}
		}
	}
	// what is kept or answered has no place for a key
	for _, m := range []string{"LogAddEntryResponse", "LogFetchEntriesResponse", "LogTreeHashResponse", "LogInclusionProofResponse", "LogConsistencyProofResponse", "MapSetValueResponse", "MapGetValueResponse", "MapTreeHashResponse"} {
		if t := c.typeNamed("pb", m); t != nil {
			c.must(!s.holds(t), "message", m, token.NoPos, "messages of type %s, which is answered, hold an API key", m)
		}
	}
	var fs []string
	for f := range s.fields {
		if generated(c.w.SSA[f.Pkg().Path()]) && !isKeyField(f) {
			c.fail("message", f.Name(), f.Pos(), "the field %s of a protocol message is given an API key", f.Name())
		} else if f.Pkg() != nil && !strings.HasPrefix(f.Pkg().Path(), modPath) {
			c.fail("leak", f.Name(), f.Pos(), "the field %s of %s is given an API key", f.Name(), f.Pkg().Path())
		}
		fs = append(fs, f.Name())
	}
	sort.Strings(fs)
	for g := range s.globals {
		c.fail("leak", g.Name(), g.Pos(), "the package-level variable %s keeps an API key", g.Name())
	}
	for v := range s.vals {
		_ = v
		c.count("values holding a key")
	}
	c.min("functions", 100)
	c.min("values holding a key", 10)
	c.min("Authorization headers sent", 1)
	c.min("keys given to the access policy", 1)
	c.min("messages of key-holding types passed on", 5)
}

func (s *secrets) leaks(fn *ssa.Function, name string, in ssa.Instruction, m *secrets) {
	c := s.c
	switch x := in.(type) {
	case *ssa.Panic:
		for _, v := range spread(x.X, 0) {
			c.must(!s.vals[v] && !s.holds(v.Type()), "leak", name, in.Pos(), "%s panics with an API key", name)
		}
	case *ssa.Send:
		c.must(!s.vals[x.X], "leak", name, in.Pos(), "%s sends an API key over a channel", name)
	case *ssa.MapUpdate:
		if isHTTPHeader(x.Map.Type()) && (s.vals[x.Value] || s.vals[x.Key]) {
			_, is := isAuthHeader(x.Key)
			c.must(is, "leak", name, in.Pos(), "%s puts an API key into another header than Authorization", name)
			if is {
				c.count("Authorization headers sent")
			}
		}
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	cc := ci.Common()
	args := actuals(cc)
	callee := calleeName(cc)
	var bare []ssa.Value // those that are keys, or text made from them
	holder := ssa.Value(nil)
	for _, a := range args {
		for _, v := range spread(a, 0) {
			if s.vals[v] {
				bare = append(bare, v)
			}
			if s.holds(v.Type()) || m.vals[v] {
				holder = v
			}
		}
	}
	if holder != nil {
		c.count("messages of key-holding types passed on")
		switch {
		case formats(callee):
			c.fail("leak", name, in.Pos(), "%s gives %s, which holds an API key, to %s", name, types.TypeString(holder.Type(), nil), callee)
		case s.storageCall(cc) && cc.Method.Name() == "Set":
			c.fail("leak", name, in.Pos(), "%s stores %s, which holds an API key (%s)", name, types.TypeString(holder.Type(), nil), callee)
		case cc.StaticCallee() != nil && generated(cc.StaticCallee().Pkg) && (cc.StaticCallee().Name() == "String" || cc.StaticCallee().Name() == "GoString"):
			c.fail("leak", name, in.Pos(), "%s makes text of %s, which holds an API key", name, types.TypeString(holder.Type(), nil))
		case cc.IsInvoke() && (cc.Method.Name() == "Write" || cc.Method.Name() == "WriteString"):
			c.fail("leak", name, in.Pos(), "%s writes %s, which holds an API key", name, types.TypeString(holder.Type(), nil))
		}
		c.ok("leak", name)
	}
	if len(bare) == 0 {
		return
	}
	c.count("calls given a key")
	switch {
	case s.storageCall(cc):
		c.fail("leak", name, in.Pos(), "%s gives an API key to the storage or the queue (%s)", name, callee)
	case len(s.a.targets(cc)) > 0:
		if cc.IsInvoke() && cc.Method.Name() == "VerifyAllowed" {
			c.count("keys given to the access policy")
		}
		c.ok("leak", name)
	case strings.HasPrefix(callee, "builtin."):
		c.must(callee != "builtin.print" && callee != "builtin.println" && callee != "builtin.panic", "leak", name, in.Pos(), "%s gives an API key to %s", name, callee)
	case callee == "(net/http.Header).Set" || callee == "(net/http.Header).Add":
		known, is := isAuthHeader(args[1])
		c.must(!known || is, "leak", name, in.Pos(), "%s puts an API key into another header than Authorization", name)
		if !known || is {
			c.count("Authorization headers sent")
		}
	case pureText(callee):
		c.ok("leak", name)
	case cc.IsInvoke() && cc.Method.Name() == "VerifyAllowed":
		c.count("keys given to the access policy")
		c.ok("leak", name)
	case strings.HasPrefix(callee, "(*strings.Builder)") || strings.HasPrefix(callee, "(*bytes.Buffer)"):
		c.ok("leak", name)
	default:
		c.fail("leak", name, in.Pos(), "%s gives an API key to %s", name, callee)
	}
}
