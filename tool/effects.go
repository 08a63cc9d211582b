package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An effect analysis: which functions write to memory that is reachable from their
// parameters or from package-level variables, and what their results share with them.
//
// It is flow-insensitive inside a function and computes summaries to a fixpoint over the
// functions of the repository.

// mark says that a value gives access to memory of src: a parameter or free variable of
// the function under analysis, or a package-level variable. Without deep it is the memory
// the value of src itself points to, with deep any memory found from there.
type mark struct {
	src  ssa.Value
	deep bool
	typ  string // of the value that gives the access
}

type marks map[mark]bool

func (m marks) add(o marks) (changed bool) {
	for k := range o {
		if !m[k] {
			m[k] = true
			changed = true
		}
	}
	return
}

// loaded: what a value of type t found in the memory of the marks gives access to.
func (a *effectsOf) loaded(m marks, t types.Type) marks {
	out := marks{}
	for k := range m {
		if a.findable(k.typ, a.name(t)) {
			out[mark{k.src, true, a.name(t)}] = true
		}
	}
	return out
}

// findable: a value of type n, or the address of a location, can be found from one of type t.
func (a *effectsOf) findable(t, n string) bool {
	c := a.cells(t)
	return c[n] || c["*"] || strings.HasPrefix(n, "*") && c[n[1:]]
}

// held: the marks of a value of type t among those of what was stored somewhere.
func (a *effectsOf) held(m marks, t types.Type) marks {
	out := marks{}
	n := a.name(t)
	_, any := t.Underlying().(*types.Interface)
	for k := range m {
		switch {
		case k.typ == n || any:
			out[k] = true
		case isInterface(a.types[k.typ]):
			out[mark{k.src, k.deep, n}] = true
		case a.findable(k.typ, n) || a.partOf(k.typ, n):
			out[mark{k.src, true, n}] = true
		}
	}
	return out
}

// narrowed: the marks of a part, of type t, of a value.
func (a *effectsOf) narrowed(m marks, t types.Type) marks {
	out := marks{}
	for k := range m {
		out[mark{k.src, k.deep, a.name(t)}] = true
	}
	return out
}

func isInterface(t types.Type) bool {
	if t == nil {
		return true
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// partOf: values of type t have parts of type n.
func (a *effectsOf) partOf(t, n string) bool {
	st, ok := a.types[t].Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := a.name(st.Field(i).Type())
		if f == n || a.partOf(f, n) || a.cells(f)[n] {
			return true
		}
	}
	return false
}

func (a *effectsOf) name(t types.Type) string {
	if b, ok := a.names[t]; ok {
		return b
	}
	n := types.TypeString(t, nil)
	if n == "byte" {
		n = "uint8"
	}
	a.names[t] = n
	if a.types[n] == nil {
		a.types[n] = t
	}
	return n
}

// cells are the types of the locations that can be found from a value of the type.
func (a *effectsOf) cells(n string) map[string]bool {
	if c, ok := a.reach[n]; ok {
		return c
	}
	out := map[string]bool{}
	seen := map[string]bool{}
	var value, location func(t types.Type)
	value = func(t types.Type) {
		k := a.name(t)
		if seen["v"+k] {
			return
		}
		seen["v"+k] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			location(u.Elem())
		case *types.Slice:
			location(u.Elem())
		case *types.Map:
			out[a.name(t)] = true
			location(u.Elem())
			value(u.Key())
		case *types.Interface:
			if !isErrorType(t) {
				out["*"] = true
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				value(u.Field(i).Type())
			}
		case *types.Array:
			value(u.Elem())
		}
	}
	location = func(t types.Type) {
		k := a.name(t)
		if seen["l"+k] {
			return
		}
		seen["l"+k] = true
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "google.golang.org/protobuf") {
			return // bookkeeping of the library
		}
		out[k] = true
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				location(u.Field(i).Type())
			}
		case *types.Array:
			location(u.Elem())
		}
		value(t)
	}
	value(a.types[n])
	a.reach[n] = out
	return out
}

// effect is one place that writes.
type effect struct {
	mark
	cell    string // type of what is overwritten; "*" is any
	appends bool   // writes only behind the end of a slice
}

type effectSum struct {
	writes  map[effect]token.Pos
	results []marks             // what each result gives access to
	inside  []marks             // what memory reachable from each result gives access to
	stored  map[ssa.Value]marks // what is stored in the memory of a parameter
}

type effectsOf struct {
	w       *World
	sums    map[*ssa.Function]*effectSum
	byName  map[string][]*ssa.Function
	taken   []*ssa.Function
	names   map[types.Type]string
	types   map[string]types.Type
	reach   map[string]map[string]bool
	changed bool
}

// effects computes the summaries of all functions of the repository.
func (w *World) effects() *effectsOf {
	if w.eff != nil {
		return w.eff
	}
	a := &effectsOf{w: w, sums: map[*ssa.Function]*effectSum{}, byName: map[string][]*ssa.Function{}, names: map[types.Type]string{}, types: map[string]types.Type{}, reach: map[string]map[string]bool{}}
	w.eff = a
	seen := map[*ssa.Function]bool{}
	for _, fn := range w.Funcs {
		if fn.Signature.Recv() != nil {
			a.byName[fn.Name()] = append(a.byName[fn.Name()], fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callee && !seen[f] {
						seen[f] = true
						a.taken = append(a.taken, f)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if f := mc.Fn.(*ssa.Function); !seen[f] {
						seen[f] = true
						a.taken = append(a.taken, f)
					}
				}
			}
		}
	}
	for round := 0; round < 20; round++ {
		a.changed = false
		for _, fn := range w.Funcs {
			if fn.Blocks != nil {
				a.analyse(fn)
			}
		}
		if !a.changed {
			break
		}
	}
	return a
}

func (a *effectsOf) sum(fn *ssa.Function) *effectSum {
	s := a.sums[fn]
	if s == nil {
		s = &effectSum{writes: map[effect]token.Pos{}, stored: map[ssa.Value]marks{}}
		n := fn.Signature.Results().Len()
		for i := 0; i < n; i++ {
			s.results = append(s.results, marks{})
			s.inside = append(s.inside, marks{})
		}
		a.sums[fn] = s
	}
	return s
}

// holdsMemory: values of the type can give access to memory that can be written.
func holdsMemory(t types.Type) bool { return holdsMem(t, 0) }

func holdsMem(t types.Type, d int) bool {
	if isErrorType(t) || d > 5 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsMem(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return holdsMem(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsMem(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

type fnEffects struct {
	a        *effectsOf
	fn       *ssa.Function
	s        *effectSum
	vals     map[ssa.Value]marks
	contents map[ssa.Value]marks
	inner    map[ssa.Value]map[ssa.Value]bool
	tuples   map[ssa.Value][]marks
	changed  bool
}

func (a *effectsOf) analyse(fn *ssa.Function) *fnEffects {
	x := &fnEffects{a: a, fn: fn, s: a.sum(fn), vals: map[ssa.Value]marks{}, contents: map[ssa.Value]marks{}, inner: map[ssa.Value]map[ssa.Value]bool{}, tuples: map[ssa.Value][]marks{}}
	for i := 0; i < 30; i++ {
		x.changed = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x.instr(in)
			}
		}
		if !x.changed {
			break
		}
	}
	return x
}

func (x *fnEffects) of(v ssa.Value) marks {
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		if holdsMemory(v.Type()) {
			return marks{{v, false, x.a.name(v.Type())}: true}
		}
		return nil
	case *ssa.Global:
		return marks{{v, false, x.a.name(v.Type())}: true}
	}
	return x.vals[v]
}

func (x *fnEffects) set(v ssa.Value, m marks) {
	if len(m) == 0 || !holdsMemory(v.Type()) {
		return
	}
	t := x.vals[v]
	if t == nil {
		t = marks{}
		x.vals[v] = t
	}
	if t.add(m) {
		x.changed = true
	}
}

// roots are the values whose memory v points into.
func (x *fnEffects) roots(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.FieldAddr:
			walk(v.X)
		case *ssa.IndexAddr:
			walk(v.X)
		case *ssa.Field:
			walk(v.X)
		case *ssa.Index:
			walk(v.X)
		case *ssa.UnOp:
			if v.Op == token.MUL {
				walk(v.X)
			} else {
				out = append(out, v)
			}
		case *ssa.Slice:
			walk(v.X)
		case *ssa.ChangeType:
			walk(v.X)
		case *ssa.ChangeInterface:
			walk(v.X)
		case *ssa.MakeInterface:
			walk(v.X)
		case *ssa.TypeAssert:
			walk(v.X)
		case *ssa.SliceToArrayPointer:
			walk(v.X)
		case *ssa.Lookup:
			walk(v.X)
		case *ssa.Extract:
			switch v.Tuple.(type) {
			case *ssa.Call:
				out = append(out, v)
			default:
				walk(v.Tuple)
			}
		case *ssa.Next:
			walk(v.Iter)
		case *ssa.Range:
			walk(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
		case *ssa.Const:
		default:
			out = append(out, v)
		}
	}
	walk(v)
	return out
}

// within: what memory found from v gives access to.
func (x *fnEffects) within(v ssa.Value) marks {
	out := marks{}
	seen := map[ssa.Value]bool{}
	var walk func(r ssa.Value)
	walk = func(r ssa.Value) {
		if seen[r] {
			return
		}
		seen[r] = true
		out.add(x.contents[r])
		for i := range x.inner[r] {
			walk(i)
		}
	}
	for _, r := range x.roots(v) {
		walk(r)
	}
	return out
}

func (x *fnEffects) put(r ssa.Value, m marks) {
	if len(m) == 0 {
		return
	}
	t := x.contents[r]
	if t == nil {
		t = marks{}
		x.contents[r] = t
	}
	if t.add(m) {
		x.changed = true
	}
	switch r.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		s := x.s.stored[r]
		if s == nil {
			s = marks{}
			x.s.stored[r] = s
		}
		if s.add(m) {
			x.a.changed = true
		}
	}
}

// store: the memory addr points to gets v.
func (x *fnEffects) store(addr, v ssa.Value) {
	if !holdsMemory(v.Type()) {
		return
	}
	m := marks{}
	m.add(x.of(v))
	for _, r := range x.roots(addr) {
		x.put(r, m)
		for _, i := range x.roots(v) {
			if i == r {
				continue
			}
			if x.inner[r] == nil {
				x.inner[r] = map[ssa.Value]bool{}
			}
			if !x.inner[r][i] {
				x.inner[r][i] = true
				x.changed = true
			}
		}
	}
}

func (x *fnEffects) write(m marks, cell string, appends bool, pos token.Pos) {
	for k := range m {
		if c := x.a.cells(k.typ); cell != "*" && !c[cell] && !c["*"] {
			continue
		}
		e := effect{k, cell, appends}
		if _, ok := x.s.writes[e]; !ok {
			x.s.writes[e] = pos
			x.a.changed = true
		}
	}
}

func (x *fnEffects) instr(in ssa.Instruction) {
	switch v := in.(type) {
	case *ssa.FieldAddr:
		x.set(v, x.a.narrowed(x.of(v.X), v.Type()))
	case *ssa.IndexAddr:
		x.set(v, x.a.narrowed(x.of(v.X), v.Type()))
	case *ssa.Field:
		x.set(v, x.a.narrowed(x.of(v.X), v.Type()))
	case *ssa.Index:
		x.set(v, x.a.narrowed(x.of(v.X), v.Type()))
	case *ssa.UnOp:
		if v.Op == token.MUL {
			x.set(v, x.a.loaded(x.of(v.X), v.Type()))
			x.set(v, x.a.held(x.within(v.X), v.Type()))
		}
	case *ssa.Slice:
		x.set(v, x.of(v.X))
	case *ssa.ChangeType:
		x.set(v, x.of(v.X))
	case *ssa.ChangeInterface:
		x.set(v, x.of(v.X))
	case *ssa.MakeInterface:
		x.set(v, x.of(v.X))
	case *ssa.TypeAssert:
		x.set(v, x.of(v.X))
	case *ssa.SliceToArrayPointer:
		x.set(v, x.of(v.X))
	case *ssa.Convert:
		if _, ok := v.X.Type().Underlying().(*types.Basic); !ok {
			x.set(v, x.of(v.X))
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			x.set(v, x.of(e))
		}
	case *ssa.Lookup:
		x.lookup(v, v.X)
	case *ssa.Extract:
		if nx, ok := v.Tuple.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				x.lookup(v, r.X)
			}
		} else if lk, ok := v.Tuple.(*ssa.Lookup); ok {
			x.lookup(v, lk.X)
		} else if t := x.tuples[v.Tuple]; t != nil {
			if v.Index < len(t) {
				x.set(v, t[v.Index])
			}
		} else {
			x.set(v, x.vals[v.Tuple])
		}
	case *ssa.Store:
		x.write(x.of(v.Addr), x.a.name(v.Val.Type()), false, v.Pos())
		x.store(v.Addr, v.Val)
	case *ssa.MapUpdate:
		x.write(x.of(v.Map), x.a.name(v.Map.Type()), false, v.Pos())
		x.store(v.Map, v.Value)
		x.store(v.Map, v.Key)
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		var actual []ssa.Value
		var formal []ssa.Value
		for i, fv := range f.FreeVars {
			formal = append(formal, fv)
			actual = append(actual, v.Bindings[i])
		}
		x.apply(f, formal, actual, v.Pos(), nil)
	case ssa.CallInstruction:
		x.call(v)
	case *ssa.Return:
		for i, r := range v.Results {
			if !holdsMemory(r.Type()) || i >= len(x.s.results) {
				continue
			}
			if x.s.results[i].add(x.of(r)) {
				x.a.changed = true
			}
			if x.s.inside[i].add(x.within(r)) {
				x.a.changed = true
			}
		}
	}
}

// lookup: v is found in map m.
func (x *fnEffects) lookup(v, m ssa.Value) {
	if _, ok := v.Type().(*types.Tuple); ok {
		return
	}
	x.set(v, x.a.loaded(x.of(m), v.Type()))
	x.set(v, x.a.held(x.within(m), v.Type()))
}

func (x *fnEffects) set2(v ssa.Value, m marks) {
	if len(m) == 0 {
		return
	}
	t := x.vals[v]
	if t == nil {
		t = marks{}
		x.vals[v] = t
	}
	if t.add(m) {
		x.changed = true
	}
}

// translate gives what marks of a callee mean here.
func (x *fnEffects) translate(m marks, formal, actual []ssa.Value) marks {
	out := marks{}
	for k := range m {
		if g, ok := k.src.(*ssa.Global); ok {
			_ = g
			out[k] = true
			continue
		}
		for i, f := range formal {
			if f != k.src || i >= len(actual) {
				continue
			}
			if t := x.a.types[k.typ]; k.deep {
				out.add(x.a.loaded(x.of(actual[i]), t))
				out.add(x.a.held(x.within(actual[i]), t))
			} else {
				out.add(x.of(actual[i]))
			}
		}
	}
	return out
}

// apply the summary of f to a call.
func (x *fnEffects) apply(f *ssa.Function, formal, actual []ssa.Value, pos token.Pos, res ssa.Value) {
	s := x.a.sum(f)
	for e, p := range s.writes {
		if pos == token.NoPos {
			pos = p
		}
		if _, ok := e.src.(*ssa.Global); ok {
			continue // reported where it happens
		}
		x.write(x.translate(marks{e.mark: true}, formal, actual), e.cell, e.appends, pos)
	}
	for p, m := range s.stored {
		for i, q := range formal {
			if q == p && i < len(actual) {
				for _, r := range x.roots(actual[i]) {
					x.put(r, x.translate(m, formal, actual))
				}
			}
		}
	}
	if res == nil {
		return
	}
	if tup, ok := res.Type().(*types.Tuple); ok {
		t := x.tuples[res]
		if t == nil {
			t = make([]marks, tup.Len())
			for i := range t {
				t[i] = marks{}
			}
			x.tuples[res] = t
		}
		for i := range s.results {
			if i < len(t) && t[i].add(x.translate(s.results[i], formal, actual)) {
				x.changed = true
			}
			for _, r := range *res.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == i {
					x.put(e, x.translate(s.inside[i], formal, actual))
				}
			}
		}
		return
	}
	if len(s.results) == 1 {
		x.set(res, x.translate(s.results[0], formal, actual))
		x.put(res, x.translate(s.inside[0], formal, actual))
	}
}

// targets are the functions of the repository a call may reach.
func (a *effectsOf) targets(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if f.Blocks != nil && a.w.InRepo(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	var out []*ssa.Function
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range a.byName[c.Method.Name()] {
			if it != nil && f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	for _, f := range a.taken {
		if f.Signature.Recv() == nil && types.Identical(f.Signature, c.Signature()) && f.Blocks != nil {
			out = append(out, f)
		}
	}
	return out
}

// writers: arguments of functions of other packages that are written. Negative numbers
// are arguments that are appended to: -1-i.
var writers = map[string][]int{
	"encoding/json.Unmarshal": {1}, "(*encoding/json.Decoder).Decode": {1},
	"google.golang.org/protobuf/proto.Unmarshal": {1}, "(google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal": {2},
	"google.golang.org/protobuf/proto.Merge": {0}, "google.golang.org/protobuf/proto.Reset": {0},
	"github.com/golang/protobuf/proto.Unmarshal": {1}, "github.com/golang/protobuf/proto.Merge": {0}, "github.com/golang/protobuf/proto.UnmarshalText": {1},
	"github.com/golang/protobuf/proto.Reset":                  {0},
	"google.golang.org/protobuf/encoding/protojson.Unmarshal": {1}, "google.golang.org/protobuf/encoding/prototext.Unmarshal": {1},
	"io.ReadFull": {1}, "io.ReadAtLeast": {1}, "(io.Reader).Read": {1}, "crypto/rand.Read": {0}, "math/rand.Read": {0},
	"(encoding/binary.bigEndian).PutUint64": {1}, "(encoding/binary.bigEndian).PutUint32": {1}, "(encoding/binary.bigEndian).PutUint16": {1},
	"(encoding/binary.littleEndian).PutUint64": {1}, "(encoding/binary.littleEndian).PutUint32": {1}, "(encoding/binary.littleEndian).PutUint16": {1},
	"(encoding/binary.bigEndian).AppendUint64": {-2}, "(encoding/binary.bigEndian).AppendUint32": {-2}, "(encoding/binary.littleEndian).AppendUint64": {-2},
	"encoding/binary.PutUvarint": {0}, "encoding/binary.PutVarint": {0}, "encoding/binary.Read": {2}, "encoding/binary.AppendUvarint": {-1}, "encoding/binary.AppendVarint": {-1},
	"encoding/hex.Encode": {0}, "encoding/hex.Decode": {0}, "encoding/hex.AppendEncode": {-1},
	"(*encoding/base64.Encoding).Encode": {1}, "(*encoding/base64.Encoding).Decode": {1},
	"(hash.Hash).Sum": {-2}, "strconv.AppendInt": {-1}, "strconv.AppendUint": {-1}, "strconv.AppendQuote": {-1}, "fmt.Append": {-1}, "fmt.Appendf": {-1}, "fmt.Appendln": {-1},
	"sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0}, "sort.Strings": {0}, "sort.Ints": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0}, "slices.Delete": {0}, "slices.Insert": {0}, "slices.Replace": {0}, "slices.Compact": {0},
	"maps.Copy": {0}, "maps.DeleteFunc": {0}, "bytes.NewBuffer": {-1}, "(*math/big.Int).FillBytes": {1},
}

// sharers: results of functions of other packages that share memory with an argument.
func sharedArg(name string) int {
	switch {
	case strings.HasPrefix(name, "bytes.Trim"), strings.HasPrefix(name, "bytes.Split"), strings.HasPrefix(name, "bytes.Cut"), strings.HasPrefix(name, "bytes.Fields"), strings.HasPrefix(name, "bytes.NewBuffer"):
		return 0
	case strings.HasPrefix(name, "slices.") && name != "slices.Clone" && name != "slices.Concat":
		return 0
	case strings.HasSuffix(name, "objecthash.Filtered"):
		return 0
	case strings.HasPrefix(name, "(encoding/binary.") && strings.Contains(name, ").Append"), name == "(hash.Hash).Sum":
		return 1
	case strings.HasPrefix(name, "strconv.Append"), strings.HasPrefix(name, "fmt.Append"), strings.HasPrefix(name, "encoding/hex.Append"), strings.HasPrefix(name, "encoding/binary.Append"):
		return 0
	}
	return -1
}

func (x *fnEffects) call(ci ssa.CallInstruction) {
	c := ci.Common()
	res := ci.Value()
	var rv ssa.Value
	if res != nil {
		rv = res
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if cl, _ := capped(args[0]); !cl {
				x.write(x.of(args[0]), x.a.elem(args[0]), true, ci.Pos())
			}
			if rv != nil {
				x.set(rv, x.of(args[0]))
				if len(args) > 1 {
					if sl, ok := args[1].Type().Underlying().(*types.Slice); ok && holdsMemory(sl.Elem()) {
						m := x.a.loaded(x.of(args[1]), sl.Elem())
						m.add(x.a.held(x.within(args[1]), sl.Elem()))
						for _, r := range x.roots(args[0]) {
							x.put(r, m)
						}
						x.put(rv, m)
					}
				}
				x.put(rv, x.within(args[0]))
			}
		case "copy":
			x.write(x.of(args[0]), x.a.elem(args[0]), false, ci.Pos())
			if sl, ok := args[1].Type().Underlying().(*types.Slice); ok && holdsMemory(sl.Elem()) {
				m := x.a.loaded(x.of(args[1]), sl.Elem())
				m.add(x.a.held(x.within(args[1]), sl.Elem()))
				for _, r := range x.roots(args[0]) {
					x.put(r, m)
				}
			}
		case "delete", "clear":
			x.write(x.of(args[0]), x.a.elem(args[0]), false, ci.Pos())
		}
		return
	}
	ts := x.a.targets(c)
	for _, f := range ts {
		var formal []ssa.Value
		for _, p := range f.Params {
			formal = append(formal, p)
		}
		x.apply(f, formal, args, ci.Pos(), rv)
	}
	if len(ts) > 0 && c.StaticCallee() != nil {
		return
	}
	name := ""
	if f := c.StaticCallee(); f != nil {
		name = fullName(f)
		if i := strings.Index(name, "["); i > 0 {
			name = name[:i]
		}
	} else if c.IsInvoke() {
		name = "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
		if c.Method.Name() == "Sum" && len(args) == 2 {
			name = "(hash.Hash).Sum"
		}
		if c.Method.Name() == "Read" && len(args) == 2 {
			name = "(io.Reader).Read"
		}
	}
	for _, i := range writers[name] {
		if i >= 0 && i < len(args) {
			m := marks{}
			m.add(x.of(args[i]))
			x.write(m, "*", false, ci.Pos())
		} else if i < 0 && -1-i < len(args) {
			if cl, _ := capped(args[-1-i]); !cl {
				x.write(x.of(args[-1-i]), "*", true, ci.Pos())
			}
		}
	}
	if i := sharedArg(name); i >= 0 && i < len(args) && rv != nil {
		x.set2(rv, x.of(args[i]))
		x.put(rv, x.within(args[i]))
	}
}

// elem is the type of the locations of a slice or map.
func (a *effectsOf) elem(v ssa.Value) string {
	switch u := v.Type().Underlying().(type) {
	case *types.Slice:
		return a.name(u.Elem())
	case *types.Map:
		return a.name(v.Type())
	}
	return "*"
}

// capped: the slice has no room behind its end.
func capped(v ssa.Value) (bool, string) {
	if s, ok := v.(*ssa.Slice); ok && s.Max != nil && s.High != nil && sameInt(s.Max, s.High) {
		return true, ""
	}
	return false, ""
}

// writesTo: the function may write memory reachable from the parameter.
func (a *effectsOf) writesTo(fn *ssa.Function, i int) (token.Pos, bool) {
	if i >= len(fn.Params) {
		return token.NoPos, false
	}
	for e, pos := range a.sum(fn).writes {
		if e.src == fn.Params[i] {
			return pos, true
		}
	}
	return token.NoPos, false
}

func (s *effectSum) sorted() []effect {
	var out []effect
	for e := range s.writes {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if s.writes[a] != s.writes[b] {
			return s.writes[a] < s.writes[b]
		}
		return a.src.Name() < b.src.Name()
	})
	return out
}

// sameInt: two values of integer type are equal wherever both are defined.
func sameInt(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	if x, ok := a.(*ssa.Const); ok {
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Int64() == y.Int64()
	}
	x, ok := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok || !ok2 {
		return false
	}
	f, ok := x.Call.Value.(*ssa.Builtin)
	g, ok2 := y.Call.Value.(*ssa.Builtin)
	return ok && ok2 && f.Name() == "len" && g.Name() == "len" && x.Call.Args[0] == y.Call.Args[0]
}
