package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// purePkgs: functions of these packages are deterministic and leave their
// arguments alone.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "path/filepath": true, "bytes": true, "encoding/hex": true,
	"unicode": true, "unicode/utf8": true, "math/bits": true, "math": true, "slices": true, "maps": true,
	"encoding/base64": true, "net/url": true, "errors": true, "net/textproto": true,
	"github.com/continusec/objecthash": true, "cmp": true,
}

const fCalcK = modPath + "/merkle.CalcK"

const (
	fPathSlice = "(" + modPath + "/verifiable.BPath).Slice"
	fPathJoin  = modPath + "/verifiable.BPathJoin"
	fNodeHash  = modPath + "/verifiable.calcNodeHash"
)

// Functions without effects that have their own property: other analyses take
// their results as uninterpreted functions of what they are given.
// pathRole names the function by what it is for.
func (w *World) pathRole(fn *ssa.Function) string {
	if fn == nil || !w.InRepo(fn) {
		return ""
	}
	if r, ok := w.roles[fn]; ok {
		return r
	}
	r := ""
	switch n := fullName(fn); {
	case n == fPathSlice || n == fPathJoin:
		r = n
	case fn.Signature.Recv() == nil && fn.Parent() == nil && fnPkg(fn) != nil && fnPkg(fn).Pkg.Path() == modPath+"/verifiable" && len(fn.Params) == 2:
		if p := fn.Params[0].Type(); p.String() == "*"+modPath+"/pb.MapNode" && types.Identical(fn.Params[1].Type(), types.Typ[types.Uint]) {
			if rs := fn.Signature.Results(); rs.Len() == 2 && isBytesLike(rs.At(0).Type()) && isErrorType(rs.At(1).Type()) {
				r = fNodeHash
			}
		}
	}
	if w.roles == nil {
		w.roles = map[*ssa.Function]string{}
	}
	w.roles[fn] = r
	return r
}

func (ex *Explorer) pathModel(st *State, cs *callSite, name string, fn *ssa.Function, args []*Term) ([]*State, bool) {
	sum := ex.w.pureSummary(fn)
	if sum == nil {
		return nil, false
	}
	if name == fPathSlice && len(args) == 3 && st.facts.Implies(litLE(args[2], args[1])) {
		return nil, false
	}
	if ex.oblig { // what its body requires here
		in := st.clone()
		ex.inline(in, cs, fn, args, nil, name, nil)
		for _, p := range ex.runCall(in) {
			p.End = "pure"
			ex.paths = append(ex.paths, p)
		}
	}
	snap := make([]*Term, len(args))
	for i, a := range args {
		snap[i] = ex.Snap(st, a, fn.Params[i].Type())
		if _, ok := fn.Params[i].Type().Underlying().(*types.Pointer); ok {
			st.facts.add(litNil(a).Not())
			snap[i] = ex.Snap(st, a, fn.Params[i].Type())
			if snap[i].Op != OApp || snap[i].Aux != "&" {
				snap[i] = mk(OApp, "&", 0, nil, []*Term{ex.load(st, a, derefType(fn.Params[i].Type()))}, nil)
			}
		}
	}
	res := make([]*Term, len(sum.res))
	for i, r := range sum.res {
		typ := fn.Signature.Results().At(i).Type()
		switch {
		case r.always != nil:
			res[i] = r.always
			continue
		case len(sum.res) == 1 || i == 0:
			res[i] = App(name, typ, snap...)
		default:
			res[i] = App(fmt.Sprintf("%s#%d", name, i), typ, snap...)
		}
		if r.nonNil {
			st.facts.add(litNil(res[i]).Not())
		}
		if r.len != nil {
			st.facts.add(litEQ0(Sub(LenOf(res[i]), r.len)))
		}
	}
	ev := ex.emitCallLike(st, ECall, cs)
	ev.OK = true
	ev.Res = res
	ex.setDest(st, cs, res)
	return one(st), true
}

type pureRes struct {
	always *Term // every return gives this constant
	nonNil bool
	len    *Term
}

type pureSum struct{ res []pureRes }

// pureSummary explores fn and describes its results; nil when it has effects.
func (w *World) pureSummary(fn *ssa.Function) *pureSum {
	if s, ok := w.pureSums[fn]; ok {
		return s
	}
	if w.pureSums == nil {
		w.pureSums = map[*ssa.Function]*pureSum{}
	}
	w.pureSums[fn] = nil
	ex := w.explorer()
	ps := ex.Explore(fn)
	if len(ex.Undec) > 0 {
		return nil
	}
	sum := &pureSum{}
	first := true
	for _, p := range ps {
		for _, e := range p.St.events {
			switch e.Kind {
			case EEnter, ELeave, ELoop, EJoin, EOblig, EReadFld:
			case ECall:
				if !e.OK && !strings.HasPrefix(e.Callee, "(hash.Hash)") && !strings.HasPrefix(e.Callee, "crypto/") {
					return nil
				}
			default:
				return nil
			}
		}
		if p.End != "return" {
			continue
		}
		for i, r := range p.Results {
			if first {
				x := pureRes{nonNil: true, len: nil}
				if r.Op == ONil || r.IsInt() || r.IsBool() {
					x.always = r
				}
				if isSliceType(r.Type) || isSliceType(fn.Signature.Results().At(i).Type()) {
					x.len = LenOf(r)
				}
				sum.res = append(sum.res, x)
			}
			x := &sum.res[i]
			if x.always != r {
				x.always = nil
			}
			if !p.St.facts.Implies(litNil(r).Not()) {
				x.nonNil = false
			}
			if x.len != nil {
				if n := LenOf(r); n != x.len || !n.IsInt() {
					if !(x.len.IsInt() && p.St.facts.Implies(litEQ0(Sub(n, x.len)))) {
						x.len = nil
					}
				}
			}
		}
		first = false
	}
	if first {
		return nil
	}
	w.pureSums[fn] = sum
	return sum
}

var pureFuncs = map[string]bool{
	"net/http.CanonicalHeaderKey": true, "(net/http.Header).Get": true, "github.com/gorilla/mux.Vars": true,
	"(net/http.Header).Values": true, "net/http.DetectContentType": true,
	"fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Sprintf": true, "fmt.Errorf": true,
	"(time.Duration).Seconds": true, "(time.Time).Sub": true, "(time.Time).Format": true, "(time.Time).UTC": true, "(time.Time).Local": true, "(time.Time).Unix": true, "(time.Time).UnixNano": true, "(time.Time).UnixMilli": true, "(time.Time).UnixMicro": true, "(time.Time).Truncate": true, "(time.Time).Round": true, "(time.Time).String": true,
	"google.golang.org/grpc/status.Error": true, "google.golang.org/grpc/status.Errorf": true,
	"google.golang.org/grpc/status.Code": true, "google.golang.org/grpc/status.New": true,
	"google.golang.org/protobuf/proto.Marshal": true, "encoding/json.Marshal": true,
	"(*google.golang.org/grpc/internal/status.Status).Code":    true,
	"(*google.golang.org/grpc/internal/status.Status).Message": true,
	"(*google.golang.org/grpc/internal/status.Status).Err":     true,
	"(google.golang.org/grpc/codes.Code).String":               true,
	"encoding/json.Valid": true, "net/http.StatusText": true,
}

func (w *World) pureExternal(fn *ssa.Function, name string) bool {
	if pureFuncs[name] {
		return true
	}
	p := fnPkg(fn)
	if p == nil || w.InRepo(fn) {
		return false
	}
	if purePkgs[p.Pkg.Path()] {
		if fn.Signature.Recv() != nil {
			return false
		}
		return true
	}
	return false
}

// nonMutating: the callee does not write through its arguments.
func nonMutating(name string) bool {
	for _, p := range []string{"log.", "(*log.", "fmt.P", "(*sync.", "time.", "(time.", "os.", "net.", "net/http.Listen",
		"(net/http.ResponseWriter).", "google.golang.org/grpc", "(*google.golang.org/grpc", "context.", "golang.org/x/net/context.", "(golang.org/x/net/context.", "(context.",
		"github.com/gorilla/", "(*github.com/gorilla/", "crypto/", "(*github.com/dgraph-io/badger.Txn).", "(*go.etcd.io/bbolt."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	if strings.HasPrefix(name, "("+modPath+"/") { // interface methods of the repository
		return !strings.HasSuffix(name, ".KeyReader).Get") && !strings.HasSuffix(name, ".KeyWriter).Get")
	}
	return false
}

func (ex *Explorer) isHasher(t *Term) *Term {
	for t != nil && t.Op == OIface {
		t = t.Args[0]
	}
	if t != nil && t.Op == OAlloc && strings.Contains(t.Aux, "hasher") {
		return t
	}
	return nil
}

func (ex *Explorer) appRes(st *State, cs *callSite, name string, args ...*Term) []*Term {
	sig := cs.common.Signature()
	var res []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		n := name
		if i > 0 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		res = append(res, App(n, sig.Results().At(i).Type(), args...))
	}
	return res
}

// model gives the meaning of library functions.
func (ex *Explorer) model(st *State, cs *callSite, name string, fn *ssa.Function, args []*Term) ([]*State, bool) {
	ret := func(res ...*Term) ([]*State, bool) {
		ex.setDest(st, cs, res)
		return one(st), true
	}
	retEv := func(res ...*Term) ([]*State, bool) {
		ev := ex.emitCallLike(st, ECall, cs)
		ev.OK = true
		ev.Res = res
		ex.setDest(st, cs, res)
		return one(st), true
	}
	c := func(i int) *Term { return ex.content(st, args[i]) }
	sn := func(i int) *Term {
		var t types.Type
		if i < len(cs.common.Args) {
			t = cs.common.Args[i].Type()
		}
		return ex.Snap(st, args[i], t)
	}
	bothInt := func(l Lit, a, b *Term) ([]*State, bool) {
		t, f := ex.fork(st, l)
		var out []*State
		if t != nil {
			ex.setDest(t, cs, []*Term{a})
			out = append(out, t)
		}
		if f != nil {
			ex.setDest(f, cs, []*Term{b})
			out = append(out, f)
		}
		return out, true
	}
	if ex.init {
		// initialisers of other packages, and computed tables
		if fn != nil && fn.Name() == "init" && fn.Signature.Recv() == nil && len(st.frames) > 0 && fn != st.frames[0].fn {
			return one(st), true
		}
		if fn != nil && ex.w.InRepo(fn) && len(args) == 0 && ex.w.hasLoop(fn) && !ex.w.constTable(fn) {
			res := ex.appRes(st, cs, fullName(fn))
			for _, r := range res {
				if r.Op == OApp && len(res) == 1 {
					ex.w.tableLen(r, fn)
				}
			}
			return ret(res...)
		}
	}
	if _, acquire := lockCall(name); acquire && len(args) == 1 {
		ex.acquired(st, args[0])
	}
	if name == fCalcK && !args[0].IsInt() && !ex.init {
		// the largest power of two below n, decided by C18
		k := App(fCalcK, types.Typ[types.Int64], args[0])
		st.facts.add(litLE(tOne, k))
		if st.facts.Implies(litLE(Int(2), args[0])) {
			st.facts.add(litLT(k, args[0]))
		}
		return ret(k)
	}
	if role := ex.w.pathRole(fn); role != "" && !ex.init {
		if r, ok := ex.pathModel(st, cs, role, fn, args); ok {
			return r, true
		}
	}
	if ex.wire != nil {
		if r, ok := ex.wireModel(st, cs, name, args); ok {
			return r, true
		}
	}
	switch name {
	case "bytes.Equal", "reflect.DeepEqual", "google.golang.org/protobuf/proto.Equal":
		var a, b *Term
		if name == "bytes.Equal" {
			a, b = c(0), c(1)
		} else {
			a, b = unIface(sn(0)), unIface(sn(1))
		}
		return ret(litTerm(litEQ(a, b)))
	case "slices.Equal":
		if isBytesLike(cs.common.Args[0].Type()) {
			return ret(litTerm(litEQ(c(0), c(1))))
		}
	case "crypto/hmac.Equal":
		return ret(litTerm(litEQ(c(0), c(1))))
	case "crypto/subtle.ConstantTimeCompare":
		return bothInt(litEQ(c(0), c(1)), tOne, tZeroI)
	case "bytes.Compare", "strings.Compare", "cmp.Compare":
		if name == "bytes.Compare" || isStringType(cs.common.Args[0].Type()) {
			x := App("compare", types.Typ[types.Int], c(0), c(1))
			t, f := ex.fork(st, litEQ(c(0), c(1)))
			var out []*State
			if t != nil {
				ex.setDest(t, cs, []*Term{tZeroI})
				out = append(out, t)
			}
			if f != nil && f.facts.add(litEQ0(x).Not()) {
				ex.setDest(f, cs, []*Term{x})
				out = append(out, f)
			}
			return out, true
		}
	case "bytes.Clone", "slices.Clone":
		if isBytesLike(cs.common.Args[0].Type()) {
			return ret(c(0))
		}
		return ret(ex.seqValue(st, args[0], cs.common.Args[0].Type()))
	case "errors.Is":
		return ret(litTerm(litEQ(args[0], args[1])))
	case "errors.New":
		return ret(App("errors.New", nil, args[0]))
	case "fmt.Errorf":
		return ret(App("fmt.Errorf", nil, args[0], ex.Snap(st, args[1], cs.common.Args[1].Type())))
	case "google.golang.org/grpc/status.Errorf", "google.golang.org/grpc/status.Error",
		"google.golang.org/grpc/internal/status.Errorf", "google.golang.org/grpc/internal/status.Error":
		var msg *Term
		if len(args) > 2 {
			msg = App("fmt.Sprintf", types.Typ[types.String], args[1], ex.Snap(st, args[2], cs.common.Args[2].Type()))
		} else {
			msg = args[1]
		}
		if args[0].IsInt() && args[0].I == 0 {
			return ret(tNil)
		}
		return retEv(App("google.golang.org/grpc/status.Error", nil, args[0], msg))
	case "google.golang.org/grpc/status.FromError":
		e := args[0]
		switch {
		case e.IsNil():
			return ret(tNil, tTrue)
		case e.Op == OApp && e.Aux == "google.golang.org/grpc/status.Error":
			return ret(App("google.golang.org/grpc/status.New", nil, e.Args[0], e.Args[1]), tTrue)
		case e.Op == OSym && strings.HasPrefix(e.Aux, "@"), e.Op == OApp && (e.Aux == "errors.New" || e.Aux == "fmt.Errorf"):
			return ret(App("google.golang.org/grpc/status.New", nil, Int(2), App("error.Error", types.Typ[types.String], e)), tFalse)
		}
		s := App("statusOf", cs.common.Signature().Results().At(0).Type(), e)
		is := Lit{App("isStatus", types.Typ[types.Bool], e), false}
		f := st.clone()
		var out []*State
		if st.facts.add(is) {
			st.facts.add(litNil(s).Not())
			ex.setDest(st, cs, []*Term{s, tTrue})
			out = append(out, st)
		}
		if f.facts.add(is.Not()) {
			f.facts.add(litNil(s).Not())
			ex.setDest(f, cs, []*Term{s, tFalse})
			out = append(out, f)
		}
		return out, true
	case "(*google.golang.org/grpc/internal/status.Status).Code":
		if args[0].Op == OApp && args[0].Aux == "google.golang.org/grpc/status.New" {
			return ret(args[0].Args[0])
		}
		if args[0].IsNil() {
			return ret(tZeroI)
		}
		return ret(App("statusCode", cs.common.Signature().Results().At(0).Type(), args[0]))
	case "google.golang.org/grpc/status.Code":
		e := args[0]
		switch {
		case e.IsNil():
			return ret(tZeroI)
		case e.Op == OApp && e.Aux == "google.golang.org/grpc/status.Error":
			return ret(e.Args[0])
		}
		return ret(App("statusCode", cs.common.Signature().Results().At(0).Type(), App("statusOf", nil, e)))
	case "(*google.golang.org/grpc/internal/status.Status).Err":
		if args[0].Op == OApp && args[0].Aux == "google.golang.org/grpc/status.New" {
			return ret(App("google.golang.org/grpc/status.Error", nil, args[0].Args...))
		}
	case "(error).Error":
		return ret(App("error.Error", types.Typ[types.String], args[0]))
	case "crypto/sha256.New":
		ex.w.seq++
		h := mk(OAlloc, fmt.Sprintf("new%d:hasher", ex.w.seq), 0, nil, nil, nil)
		h.Obj = &AllocInfo{Seq: ex.w.seq}
		st.heap.wm()[FieldAddr(h, "content")] = tEmpty
		return ret(mk(OIface, "hasher", 0, nil, []*Term{h}, nil))
	case "crypto/sha256.Sum256":
		r := Sha256(c(0))
		return retEv(r)
	case "(hash.Hash).Write", "(io.Writer).Write", "io.WriteString":
		if h := ex.isHasher(args[0]); h != nil {
			loc := FieldAddr(h, "content")
			old := ex.load(st, loc, nil)
			v := Concat(old, c(1))
			st.heap.wm()[loc] = v
			ex.noteWrite(loc, nil, v, false)
			return ret(LenOf(c(1)), tNil)
		}
	case "(hash.Hash).Sum":
		if h := ex.isHasher(args[0]); h != nil {
			r := Concat(c(1), Sha256(ex.load(st, FieldAddr(h, "content"), nil)))
			return retEv(r)
		}
	case "(hash.Hash).Reset":
		if h := ex.isHasher(args[0]); h != nil {
			loc := FieldAddr(h, "content")
			st.heap.wm()[loc] = tEmpty
			ex.noteWrite(loc, nil, tEmpty, false)
			return ret()
		}
	case "(hash.Hash).Size":
		if ex.isHasher(args[0]) != nil {
			return ret(Int(32))
		}
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte",
		"(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte":
		if args[0].Op == OAlloc {
			loc := FieldAddr(args[0], "content")
			x := c(1)
			n := LenOf(x)
			if strings.HasSuffix(name, "Byte") {
				x, n = mk(OByte, "", 0, nil, []*Term{args[1]}, nil), nil
			}
			v := Concat(ex.bufferContent(st, args[0]), x)
			ex.noteWrite(loc, nil, v, false)
			st.heap.wm()[loc] = v
			if n == nil {
				return ret(tNil)
			}
			return ret(n, tNil)
		}
	case "encoding/binary.Write":
		w, d := args[0], args[2]
		if w.Op == OIface && w.Args[0].Op == OAlloc && strings.HasSuffix(nz(w.Type).String(), "*bytes.Buffer") && args[1].Op == OIface && strings.HasSuffix(nz(args[1].Type).String(), "bigEndian") && d.Op == OIface {
			if b, ok := nz(d.Type).Underlying().(*types.Basic); ok && (b.Kind() == types.Uint64 || b.Kind() == types.Int64) {
				loc := FieldAddr(w.Args[0], "content")
				v := Concat(ex.bufferContent(st, w.Args[0]), BE64(d.Args[0]))
				ex.noteWrite(loc, nil, v, false)
				st.heap.wm()[loc] = v
				return ret(tNil)
			}
		}
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
		if args[0].Op == OAlloc {
			return ret(ex.bufferContent(st, args[0]))
		}
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		if args[0].Op == OAlloc {
			return ret(LenOf(ex.bufferContent(st, args[0])))
		}
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		if args[0].Op == OAlloc {
			loc := FieldAddr(args[0], "content")
			ex.noteWrite(loc, nil, tEmpty, false)
			st.heap.wm()[loc] = tEmpty
			return ret()
		}
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		if args[0].Op == OAlloc && ex.require(st, "non-negative", litLE(tZeroI, args[1]), cs.instr, args[1]) {
			return ret()
		}
	case "bytes.NewBuffer", "bytes.NewBufferString":
		ex.w.seq++
		b := mk(OAlloc, fmt.Sprintf("new%d:bytes.Buffer", ex.w.seq), 0, nil, nil, nil)
		b.Obj = &AllocInfo{Seq: ex.w.seq, Type: derefType(cs.dest.Type())}
		st.heap.wm()[FieldAddr(b, "content")] = c(0)
		return ret(b)
	case "(encoding/binary.bigEndian).PutUint64", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint16",
		"(encoding/binary.littleEndian).PutUint64", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint16":
		b, val := args[1], fixedWidth(name, args[2])
		n := LenOf(val)
		if !ex.require(st, "index-range", litLE(n, LenOf(b)), cs.instr, b) {
			return nil, true
		}
		base, off := b, tZeroI
		if b.Op == OSliceV {
			base, off = b.Args[0], b.Args[1]
		}
		if addrBase(base).Op != OAlloc {
			st.emit(&Event{Kind: EStore, Loc: segAddr(base, off, n), Val: val, Instr: cs.instr})
		}
		ex.noteWrite(segAddr(base, off, n), nil, val, false)
		ex.writeSeg(st, base, off, n, val)
		return ret()
	case "(encoding/binary.bigEndian).AppendUint64", "(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint16",
		"(encoding/binary.littleEndian).AppendUint64", "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.littleEndian).AppendUint16":
		return ret(Concat(c(1), fixedWidth(name, args[2])))
	case "encoding/hex.EncodeToString":
		return ret(App("hex", types.Typ[types.String], c(0)))
	case "encoding/hex.DecodeString":
		x := c(0)
		if x.Op == OApp && x.Aux == "hex" {
			return ret(x.Args[0], tNil)
		}
		return ret(ex.appRes(st, cs, "unhex", x)...)
	case "fmt.Sprintf":
		if t := ex.sprintf(st, args, cs); t != nil {
			return ret(t)
		}
		return ret(App("fmt.Sprintf", types.Typ[types.String], args[0], ex.Snap(st, args[1], cs.common.Args[1].Type())))
	case "fmt.Sprint":
		if l := ex.seqValue(st, args[0], cs.common.Args[0].Type()); l.Op == OList && len(l.Args) == 1 && l.Args[0].Op == OIface && l.Args[0].Type != nil {
			switch a := l.Args[0]; {
			case types.Identical(a.Type, types.Typ[types.Int]), types.Identical(a.Type, types.Typ[types.Int64]), types.Identical(a.Type, types.Typ[types.Uint64]):
				return ret(itoa(a.Args[0]))
			case types.Identical(a.Type, types.Typ[types.String]):
				return ret(a.Args[0])
			}
		}
	case "strconv.Itoa":
		return ret(itoa(args[0]))
	case "strconv.FormatInt", "strconv.FormatUint":
		if args[1].IsInt() && args[1].I == 10 {
			return ret(itoa(args[0]))
		}
	case "strings.Join":
		l := ex.Snap(st, args[0], cs.common.Args[0].Type())
		if l.Op == OList {
			var parts []*Term
			for i, a := range l.Args {
				if i > 0 {
					parts = append(parts, args[1])
				}
				parts = append(parts, a)
			}
			return ret(Concat(parts...))
		}
	case "bytes.Join":
		l := ex.Snap(st, args[0], cs.common.Args[0].Type())
		if l.Op == OList {
			var parts []*Term
			for i, a := range l.Args {
				if i > 0 {
					parts = append(parts, c(1))
				}
				parts = append(parts, a)
			}
			return ret(Concat(parts...))
		}
	case "slices.Concat":
		if v := args[0]; v.Op == OSliceV && v.Args[2].IsInt() && isBytesLike(cs.dest.Type()) {
			var parts []*Term
			for i := int64(0); i < v.Args[2].I; i++ {
				parts = append(parts, ex.content(st, ex.load(st, IndexAddr(v, Int(i)), nil)))
			}
			return ret(Concat(parts...))
		}
	case "(google.golang.org/protobuf/proto.MarshalOptions).Marshal":
		if o := unIface(args[0]); isZeroConst(SF(o, "AllowPartial")) {
			ev := ex.emitCallLike(st, ECall, cs)
			ev.OK = true
			ev.Res = ex.appRes(st, cs, "proto.Marshal", unIface(ex.Snap(st, args[1], nil)))
			ex.setDest(st, cs, ev.Res)
			return one(st), true
		}
	case "google.golang.org/protobuf/proto.Marshal":
		return retEv(ex.appRes(st, cs, "proto.Marshal", unIface(sn(0)))...)
	case "encoding/json.Marshal":
		return retEv(ex.appRes(st, cs, "json.Marshal", unIface(sn(0)))...)
	case "google.golang.org/protobuf/proto.Clone":
		if a := args[0]; a.Op == OIface && a.Type != nil {
			if _, ok := a.Type.Underlying().(*types.Pointer); ok {
				et := derefType(a.Type)
				t, f := ex.fork(st, litNil(a.Args[0]))
				var out []*State
				if f != nil {
					n := ex.newAlloc(f, et, nil, f.top().fn)
					ex.store(f, n, App("unproto:"+et.String(), et, App("proto.Marshal", nil, unIface(sn(0)))), et)
					ex.setDest(f, cs, []*Term{mk(OIface, a.Aux, 0, a.Type, []*Term{n}, nil)})
					out = append(out, f)
				}
				if t != nil {
					ex.setDest(t, cs, []*Term{a})
					out = append(out, t)
				}
				return out, true
			}
		}
	case "google.golang.org/protobuf/proto.Unmarshal", "encoding/json.Unmarshal", "google.golang.org/protobuf/encoding/prototext.Unmarshal",
		"(google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal":
		short := "proto"
		if len(args) == 3 {
			if o := unIface(args[0]); !isFalse(SF(o, "Merge")) || !isFalse(SF(o, "DiscardUnknown")) {
				break
			}
			args = args[1:]
		}
		if strings.HasPrefix(name, "encoding/json") {
			short = "json"
		} else if strings.Contains(name, "prototext") {
			short = "prototext"
		}
		data := ex.content(st, args[0])
		tgt := args[1]
		tt := cs.common.Args[len(cs.common.Args)-1].Type()
		for tgt.Op == OIface {
			tt = tgt.Type
			tgt = tgt.Args[0]
		}
		ev := ex.emitCallLike(st, ECall, cs)
		content := App("un"+short+":"+derefType(tt).String(), derefType(tt), data)
		errT := App("un"+short+"Err:"+derefType(tt).String(), cs.common.Signature().Results().At(0).Type(), data)
		if isAddrOp(tgt) || tgt.Type != nil {
			base := tgt
			if addrBase(tgt).Op != OAlloc {
				st.emit(&Event{Kind: EStore, Loc: tgt, Val: content, Instr: cs.instr})
			}
			ex.noteWrite(base, derefType(tt), content, true)
			ex.forget(st, base, content)
		}
		ev.Res = []*Term{errT}
		ev.Val = content
		ex.setDest(st, cs, ev.Res)
		return one(st), true
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "runtime.Goexit":
		ex.emitCallLike(st, ECall, cs)
		ex.finish(st, &Path{End: "exit", Pos: cs.instr.Pos(), Instr: cs.instr})
		return nil, true
	case "log.Print", "log.Printf", "log.Println", "fmt.Println", "fmt.Printf", "fmt.Print", "(*log.Logger).Println", "(*log.Logger).Printf", "(*log.Logger).Print":
		if cs.dest != nil && cs.common.Signature().Results().Len() > 0 {
			return ret(ex.fresh(st, "n", types.Typ[types.Int]), tNil)
		}
		return one(st), true
	}
	return nil, false
}

func unIface(t *Term) *Term {
	for t != nil && t.Op == OIface {
		t = t.Args[0]
	}
	return t
}

func itoa(x *Term) *Term {
	if x.IsInt() {
		return Str(fmt.Sprint(x.I))
	}
	return App("itoa", types.Typ[types.String], x)
}

// sprintf gives the text of a constant format as a concatenation.
func (ex *Explorer) sprintf(st *State, args []*Term, cs *callSite) *Term {
	if args[0].Op != OStr {
		return nil
	}
	l := ex.seqValue(st, args[1], cs.common.Args[1].Type())
	if l.Op != OList {
		return nil
	}
	f := args[0].Aux
	var parts []*Term
	k := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if k >= len(l.Args) {
			return nil
		}
		a := l.Args[k]
		k++
		if a.Op != OIface || a.Type == nil {
			return nil
		}
		t, v := a.Type, a.Args[0]
		var p *Term
		switch f[i] {
		case 'd':
			if isIntType(t) {
				p = itoa(v)
			}
		case 's', 'v':
			if isStringType(t) {
				p = v
			} else if isIntType(t) && f[i] == 'v' {
				p = itoa(v)
			} else if f[i] == 's' && isBytesLike(t) {
				p = ex.content(st, v)
			}
		case 'x':
			if isBytesLike(t) {
				p = App("hex", types.Typ[types.String], ex.content(st, v))
			}
		}
		if p == nil {
			return nil
		}
		parts = append(parts, Str(lit), p)
		lit = ""
	}
	if k != len(l.Args) {
		return nil
	}
	parts = append(parts, Str(lit))
	r := Concat(parts...)
	if r.Type == nil {
		r.Type = types.Typ[types.String]
	}
	return r
}

func (w *World) hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if w.loopShape(fn, b) != nil {
			return true
		}
	}
	return false
}

// constTable: the function builds a table by loops that are fully unrolled.
func (w *World) constTable(fn *ssa.Function) bool {
	if v, ok := w.constTab[fn]; ok {
		return v
	}
	if w.constTab == nil {
		w.constTab = map[*ssa.Function]bool{}
	}
	w.constTab[fn] = true
	ex := w.explorer()
	ex.init = true
	ex.maxStep = 200000
	ps := ex.Explore(fn)
	ok := len(ex.Undec) == 0 && len(ex.loops) == 0
	n := 0
	for _, p := range ps {
		if p.End == "return" {
			n++
		} else {
			ok = false
		}
		for _, e := range p.St.events {
			if e.Kind == ELoop {
				ok = false
			}
		}
	}
	w.constTab[fn] = ok && n == 1
	return w.constTab[fn]
}

// bufferContent is what was written to a bytes.Buffer or strings.Builder.
func (ex *Explorer) bufferContent(st *State, b *Term) *Term {
	if v, ok := st.heap.m[FieldAddr(b, "content")]; ok {
		return v
	}
	if v, ok := st.heap.base[b]; ok {
		return SF(v, "content")
	}
	return tEmpty
}

// lockCall recognises the methods of mutexes.
func lockCall(name string) (method string, acquire bool) {
	for _, p := range []string{"(*sync.RWMutex).", "(*sync.Mutex).", "(sync.Locker)."} {
		if strings.HasPrefix(name, p) {
			m := name[len(p):]
			return m, m == "Lock" || m == "RLock"
		}
	}
	return "", false
}

// acquired: while no lock was held others may have changed the maps beside it.
func (ex *Explorer) acquired(st *State, mu *Term) {
	if mu.Op != OFieldAd {
		return
	}
	b := mu.Args[0]
	if b.Type == nil {
		return
	}
	s, ok := derefType(b.Type).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		fd := s.Field(i)
		if _, ok := fd.Type().Underlying().(*types.Map); !ok {
			continue
		}
		loc := FieldAddr(b, fd.Name())
		ex.w.seq++
		v := mk(ODeref, fmt.Sprintf("locked%d", ex.w.seq), 0, fd.Type(), []*Term{loc}, nil)
		ex.noteWrite(loc, fd.Type(), v, false)
		st.heap.wm()[loc] = v
	}
}

func isFalse(t *Term) bool { return t == nil || t == tFalse || t.Op == OZero }

// tableLens are the lengths of computed tables, by the name of the function.
var tableLens = map[string]int64{}

// tableLen finds out how long the table is that fn computes.
func (w *World) tableLen(t *Term, fn *ssa.Function) {
	if _, ok := tableLens[t.Aux]; ok {
		return
	}
	ex := w.explorer()
	n, same := int64(-1), true
	for _, p := range ex.Run(ex.Start(fn, nil, nil)) {
		if p.End != "return" || len(p.Results) != 1 {
			continue
		}
		l := LenOf(p.Results[0])
		if !l.IsInt() || n >= 0 && l.I != n {
			same = false
			continue
		}
		n = l.I
	}
	if same && n >= 0 {
		tableLens[t.Aux] = n
	}
}

// fixedWidth: the bytes an encoding/binary byte order writes for v.
func fixedWidth(name string, v *Term) *Term {
	n := 8
	if strings.HasSuffix(name, "32") {
		n = 4
	} else if strings.HasSuffix(name, "16") {
		n = 2
	}
	big := strings.Contains(name, "bigEndian")
	if n == 8 && big {
		return BE64(v)
	}
	bs := make([]*Term, n)
	for i := range bs {
		k := 8 * i
		if big {
			k = 8 * (n - 1 - i)
		}
		bs[i] = mk(OByte, "", 0, nil, []*Term{mk(OTrunc, "byte", 0, types.Typ[types.Uint8], []*Term{Shr(v, Int(int64(k)))}, nil)}, nil)
	}
	return Concat(bs...)
}
