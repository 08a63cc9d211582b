package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vpkg = modPath + "/verifiable."

// Interface calls by resolved interface and method.
const (
	mVerifyAllowed = "(" + modPath + "/verifiable.AuthorizationOracle).VerifyAllowed"
	mReadOnly      = "(" + modPath + "/verifiable.StorageReader).ExecuteReadOnly"
	mReadOnlyW     = "(" + modPath + "/verifiable.StorageWriter).ExecuteReadOnly"
	mUpdate        = "(" + modPath + "/verifiable.StorageWriter).ExecuteUpdate"
	mQueue         = "(" + modPath + "/verifiable.MutatorService).QueueMutation"
	mGet           = "(" + modPath + "/verifiable.KeyReader).Get"
	mGetW          = "(" + modPath + "/verifiable.KeyWriter).Get"
	mSet           = "(" + modPath + "/verifiable.KeyWriter).Set"
	fObjectHash    = "github.com/continusec/objecthash.ObjectHash"
	fStatusErrorf  = "google.golang.org/grpc/status.Errorf"
	fStatusError   = "google.golang.org/grpc/status.Error"
)

func isGet(e *Event) bool { return e.Kind == ECall && (e.Callee == mGet || e.Callee == mGetW) }
func isSet(e *Event) bool { return e.Kind == ECall && e.Callee == mSet }
func isRead(e *Event) bool {
	return e.Kind == ECall && (e.Callee == mReadOnly || e.Callee == mReadOnlyW)
}
func isQueue(e *Event) bool { return e.Kind == ECall && e.Callee == mQueue }

// Op is one operation of the service with all its partitions.
type OpInfo struct {
	Name  string
	Fn    *ssa.Function
	Recv  *Term
	Req   *Term
	Ref   *Term // the log or map reference of the request
	IsMap bool
	e     *exploration
}

// serviceImpl is the type that (*Service).Create hands out.
func (c *Check) serviceImpl() types.Type {
	cr := c.fn("verifiable", "Service.Create")
	if cr == nil {
		return nil
	}
	e := c.explore(cr)
	var t types.Type
	for _, p := range e.paths {
		if p.End == "return" && len(p.Results) == 2 && p.Results[0].Op == OIface {
			t = p.Results[0].Type
		}
	}
	if t == nil {
		c.anchorFail("the implementation returned by Service.Create")
	}
	return t
}

func (c *Check) serviceOps() []*OpInfo {
	t := c.serviceImpl()
	it := c.typeNamed("pb", "VerifiableDataStructuresServiceServer")
	if t == nil || it == nil {
		return nil
	}
	var ops []*OpInfo
	i := it.Underlying().(*types.Interface)
	for k := 0; k < i.NumMethods(); k++ {
		m := i.Method(k)
		if !m.Exported() {
			continue
		}
		fn := c.w.Prog.LookupMethod(t, nil, m.Name())
		if fn != nil && fn.Synthetic != "" {
			if g := c.method(derefType(t), m.Name()); g != nil {
				fn = g
			}
		}
		if fn == nil || !c.w.InRepo(fn) || len(fn.Params) != 3 || strings.HasSuffix(fnPkg(fn).Pkg.Path(), "/pb") {
			c.anchorFail("operation " + m.Name())
			continue
		}
		o := &OpInfo{Name: m.Name(), Fn: fn, Recv: ParamSym(fn.Params[0]), Req: ParamSym(fn.Params[2])}
		st, ok := derefType(fn.Params[2].Type()).Underlying().(*types.Struct)
		if !ok {
			c.anchorFail("request type of " + m.Name())
			continue
		}
		for f := 0; f < st.NumFields(); f++ {
			switch derefType(st.Field(f).Type()).String() {
			case modPath + "/pb.LogRef":
				o.Ref = SF(o.Req, st.Field(f).Name())
			case modPath + "/pb.MapRef":
				o.Ref, o.IsMap = SF(o.Req, st.Field(f).Name()), true
			}
		}
		if o.Ref == nil {
			c.anchorFail("object reference of " + m.Name())
			continue
		}
		o.e = c.explore(fn)
		ops = append(ops, o)
		c.count("operations")
	}
	c.min("operations", 8)
	return ops
}

func (o *OpInfo) refField(names ...string) *Term {
	t := o.Ref
	for _, n := range names {
		t = SF(t, n)
	}
	return t
}

// isNil / notNil at an event (facts known then).
func (p *Path) at(e *Event) *Facts { return p.St.facts.prefix(e.NFacts) }
func (p *Path) facts() *Facts      { return p.St.facts }

func isZeroConst(t *Term) bool {
	return t.IsNil() || t == tEmpty || t == tZeroI || t == tFalse || t.Op == OZero || (t.Op == OStr && t.Aux == "")
}

// eqv: the two values are the same on every execution described by the facts;
// a field of an absent message has its zero value.
func eqv(f *Facts, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	if isZeroConst(a) && isZeroConst(b) && (a.Op == b.Op || a.Op == OZero || b.Op == OZero) {
		return true
	}
	if isZeroConst(b) {
		a, b = b, a
	}
	if isZeroConst(a) {
		for x := b; ; {
			if x.Op == OField {
				x = x.Args[0]
				continue
			}
			if x.Op == ODeref {
				if f.Implies(litNil(x.Args[0])) {
					return true
				}
				x = x.Args[0]
				continue
			}
			break
		}
		if a == tEmpty || a.IsNil() {
			if f.Implies(litEQ0(LenOf(b))) || f.Implies(litEQ(b, tEmpty)) {
				return true
			}
		}
		if a.IsNil() && f.Implies(litNil(b)) {
			return true
		}
	}
	if a.IsInt() || b.IsInt() || isIntType(nz(a.Type)) && isIntType(nz(b.Type)) {
		return f.Implies(litEQ0(Sub(a, b)))
	}
	return f.Implies(litEQ(a, b))
}

// intFacts: value k is possible / certain for t.
func mayBe(f *Facts, t *Term, k int64) bool { return !f.Implies(litEQ0(AddC(t, -k)).Not()) }
func mustBe(f *Facts, t *Term, k int64) bool {
	return f.Implies(litEQ0(AddC(t, -k)))
}

// statusCode extracts the gRPC status code of an error value.
func statusCode(t *Term) (int64, bool) {
	for t != nil && t.Op == OIface {
		t = t.Args[0]
	}
	if t != nil && t.Op == OApp && (t.Aux == fStatusErrorf || t.Aux == fStatusError) && len(t.Args) > 0 && t.Args[0].IsInt() {
		return t.Args[0].I, true
	}
	return 0, false
}

// nsContent gives the key/value pairs hashed into a namespace.
func nsContent(p *Path, ns *Term) (map[string]*Term, bool) {
	if ns.Op != OApp || ns.Aux != fObjectHash || len(ns.Args) != 1 {
		return nil, false
	}
	m := ns.Args[0]
	for m.Op == OIface {
		m = m.Args[0]
	}
	out := map[string]*Term{}
	for _, e := range p.St.events {
		if e.Kind == EMapSet && e.Loc == m {
			if len(e.Args) < 2 || e.Args[1].Op != OStr {
				return nil, false
			}
			v := e.Val
			for v.Op == OIface {
				v = v.Args[0]
			}
			out[e.Args[1].Aux] = v
		}
		if e.Kind == EMapDel && e.Loc == m {
			return nil, false
		}
	}
	return out, len(out) > 0
}

// errOf is the error result of a call event.
func errOf(e *Event) *Term {
	for i := len(e.Res) - 1; i >= 0; i-- {
		if e.Res[i].Type != nil && isErrorType(e.Res[i].Type) {
			return e.Res[i]
		}
	}
	return nil
}

// succeeded: the facts at the end of p (or at event at) say the call did not fail.
func succeeded(f *Facts, e *Event) bool {
	er := errOf(e)
	return er != nil && f.Implies(litNil(er))
}
func failed(f *Facts, e *Event) bool {
	er := errOf(e)
	return er != nil && f.Implies(litNil(er).Not())
}

// retErr / retVal: results of a returning path with a trailing error.
func (p *Path) retErr() *Term {
	if p.End != "return" || len(p.Results) == 0 {
		return nil
	}
	return p.Results[len(p.Results)-1]
}

// isSuccess: the path may return a nil error.
func (p *Path) maySucceed() bool {
	e := p.retErr()
	return e != nil && !p.St.facts.Implies(litNil(e).Not())
}

func (c *Check) snapResult(o *exploration, p *Path, i int, fn *ssa.Function) *Term {
	return o.ex.Snap(p.St, p.Results[i], fn.Signature.Results().At(i).Type())
}

// keyParts splits a storage key into its constant prefix up to and including
// the slash, and the rest.
func keyParts(k *Term) (bucket string, rest []*Term, ok bool) {
	switch {
	case k.Op == OStr:
		if i := strings.Index(k.Aux, "/"); i >= 0 {
			b, r := k.Aux[:i+1], k.Aux[i+1:]
			if r == "" {
				return b, nil, true
			}
			return b, []*Term{Str(r)}, true
		}
		return "", nil, false
	case k.Op == OConcat && k.Args[0].Op == OStr:
		s := k.Args[0].Aux
		i := strings.Index(s, "/")
		if i < 0 {
			return "", nil, false
		}
		var r []*Term
		if s[i+1:] != "" {
			r = append(r, Str(s[i+1:]))
		}
		return s[:i+1], append(r, k.Args[1:]...), true
	}
	return "", nil, false
}

// msgType is the proto message type of a Get destination or Set value.
func msgType(ev *Event, i int) string {
	a := ev.Args[i]
	var t types.Type
	for a.Op == OIface {
		t = a.Type
		a = a.Args[0]
	}
	if t == nil {
		t = a.Type
	}
	if a.Op == OAlloc && t == nil {
		t = a.Obj.(*AllocInfo).Type
	}
	if t == nil {
		return ""
	}
	s := derefType(t).String()
	return s[strings.LastIndex(s, "/")+1:]
}

// getContent is the message read by a Get event (the content after the call).
func getContent(p *Path, e *Event) *Term {
	a := e.Args[3]
	for a.Op == OIface {
		a = a.Args[0]
	}
	return a
}
