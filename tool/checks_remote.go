package main

import (
	"go/types"
	"strings"
)

// C25: what statuses the REST server answers errors with, what the REST client
// makes of them, and that the gRPC client forwards everything.

func init() {
	register("C25", checkC25,
		"path-sensitive dataflow over SSA: the status written on every partition of every route against the facts about the service's error, the error returned on every client partition against the facts about the status code, forwarding identity of the gRPC methods",
		"on every partition of every route the status written is the one of the error's code (401, 400, 404, else 500) and 200 only without an error; a request that fails before the service is called is answered 400; the REST client succeeds only on 200 and returns permission denied, invalid argument, not found exactly on 401, 400, 404 and an error on any other status; every gRPC client operation makes the same call once with the same request and returns its response and error")
}

func isServiceCall(ev *Event) bool {
	return ev.Kind == ECall && strings.Contains(ev.Iface, "VerifiableDataStructuresServiceServer")
}

// errClass: what the facts say the error may be.
type errClass struct {
	f   *Facts
	err *Term
}

func (x errClass) code() *Term {
	var r *Term
	for _, l := range x.f.lits {
		l.A.Any(func(t *Term) bool {
			if t.Op == OApp && t.Aux == "statusCode" && len(t.Args) == 1 && t.Args[0].Op == OApp && t.Args[0].Aux == "statusOf" && t.Args[0].Args[0] == x.err {
				r = t
			}
			return r != nil
		})
		if r != nil {
			break
		}
	}
	return r
}

// codeIs: it certainly is a status error of code k.
func (x errClass) codeIs(k int64) bool {
	if c, ok := statusCode(x.err); ok {
		return c == k
	}
	c := x.code()
	return c != nil && x.f.Implies(litEQ0(AddC(c, -k)))
}

// codeNot: it certainly is not a status error of code k.
func (x errClass) codeNot(k int64) bool {
	if c, ok := statusCode(x.err); ok {
		return c != k
	}
	if x.f.Implies(Lit{App("isStatus", types.Typ[types.Bool], x.err), true}) || x.sentinel("") {
		return true
	}
	c := x.code()
	return c != nil && x.f.Implies(litEQ0(AddC(c, -k)).Not())
}

// sentinel: it certainly is the named variable (any, when the name is empty).
func (x errClass) sentinel(name string) bool {
	if x.err.Op == OSym && strings.HasPrefix(x.err.Aux, "@") {
		return name == "" || x.err.Aux == name
	}
	return name != "" && x.f.Implies(litEQ(x.err, Sym(name, nil)))
}

func (x errClass) notSentinel(name string) bool {
	if x.err.Op == OSym && strings.HasPrefix(x.err.Aux, "@") {
		return x.err.Aux != name
	}
	if _, ok := statusCode(x.err); ok {
		return true
	}
	return x.f.Implies(litEQ(x.err, Sym(name, nil)).Not())
}

const (
	sInvalid  = "@verifiable.ErrInvalidRequest"
	sNotFound = "@verifiable.ErrNotFound"
)

// wrongStatus: "" when the status is the one for every error the facts allow.
func (x errClass) wrongStatus(st int64) string {
	switch st {
	case 401:
		if x.codeIs(7) {
			return ""
		}
		return "unauthorised, for an error that need not be permission denied"
	case 400:
		if x.codeIs(3) || x.sentinel(sInvalid) {
			return ""
		}
		return "bad request, for an error that need not be an invalid argument"
	case 404:
		if x.codeIs(5) || x.sentinel(sNotFound) {
			return ""
		}
		return "not found, for an error that need not be a missing object"
	case 500:
		for k, n := range map[int64]string{3: "invalid argument", 5: "not found", 7: "permission denied"} {
			if !x.codeNot(k) {
				return "internal error, for an error that may be " + n
			}
		}
		if !x.notSentinel(sInvalid) || !x.notSentinel(sNotFound) {
			return "internal error, for an error that may be an invalid request or a missing object"
		}
		return ""
	}
	return "a status that is none of 400, 401, 404 and 500"
}

// written gives the first status sent, and how many headers were sent.
func written(p *Path) (st *Term, n int, body bool, ev *Event) {
	for _, e := range p.St.events {
		if e.Kind != ECall || !strings.HasPrefix(e.Callee, "(net/http.ResponseWriter).") && !(e.Iface != "" && strings.Contains(e.Iface, "http.ResponseWriter")) && e.Callee != "net/http.Error" {
			continue
		}
		switch {
		case e.Callee == "net/http.Error":
			n++
			if st == nil {
				st, ev = e.Args[2], e
			}
		case strings.HasSuffix(e.Callee, ".WriteHeader"):
			n++
			if st == nil {
				st, ev = e.Args[1], e
			}
		case strings.HasSuffix(e.Callee, ".Write"):
			if st == nil {
				st, ev = Int(200), e
			}
			body = true
		}
	}
	return
}

func checkC25(c *Check) {
	for _, rs := range c.restRoutes() {
		for _, r := range rs {
			c.routeStatuses(r)
		}
	}
	c.min("service routes", 30)
	c.min("failures answered", 100)
	c.min("malformed requests", 20)
	c.restClientErrors()
	c.grpcForwards()
}

func (c *Check) routeStatuses(r *route) {
	e := c.exploreRoute(r, nil)
	name := strings.Join(r.Methods, "|") + " " + r.Pattern
	serves := false
	for _, p := range e.paths {
		for _, ev := range p.St.events {
			serves = serves || isServiceCall(ev)
		}
	}
	if !serves {
		return
	}
	c.count("service routes")
	for _, p := range e.paths {
		f := p.facts()
		if f.dead || p.End != "return" {
			continue
		}
		st, n, _, ev := written(p)
		pos := p.Pos
		if ev != nil {
			pos = ev.Pos
		}
		var call *Event
		for _, x := range p.St.events {
			if isServiceCall(x) {
				if call != nil {
					c.fail("one-service-call", name, x.Pos, "%s can call the service twice for one request", name)
				}
				call = x
			}
		}
		if !c.must(st != nil, "status-sent", name, pos, "%s can finish without sending a status: the caller sees success", name) {
			continue
		}
		if !c.must(st.IsInt() && n <= 1, "status-sent", name, pos, "%s sends an unknown or a second status: %s", name, brief(st)) {
			continue
		}
		switch {
		case call == nil:
			c.count("malformed requests")
			c.must(st.I == 400, "malformed-is-400", name, pos, "%s answers a request it does not pass on with status %d", name, st.I)
		case f.Implies(litNil(errOf(call))):
			c.count("successes answered")
			if st.I != 200 {
				ok := failedStep(p, f, func(x *Event) bool { return x != call })
				if strings.HasSuffix(call.Callee, ".LogFetchEntries") && f.Implies(litEQ0(AddC(LenOf(SF(call.Res[0], "Values")), -1)).Not()) {
					ok = true
				}
				c.must(ok, "success-is-200", name, pos, "%s answers a successful service call with status %d", name, st.I)
			}
		default:
			c.count("failures answered")
			if !c.must(f.Implies(litNil(errOf(call)).Not()), "error-looked-at", name, pos, "%s answers with status %d without having looked at the service's error", name, st.I) {
				continue
			}
			why := errClass{f, errOf(call)}.wrongStatus(st.I)
			c.must(why == "", "error-status", name, pos, "%s answers a failing service call with %s (status %d)", name, why, st.I)
		}
	}
}

// dialled gives the type a client's Dial returns.
func (c *Check) dialled(pkg string) types.Type {
	fn := c.fn(pkg, "Client.Dial")
	if fn == nil {
		return nil
	}
	for _, p := range c.explore(fn).paths {
		if p.End == "return" && len(p.Results) == 2 && p.Results[0].Op == OIface {
			return p.Results[0].Type
		}
	}
	c.anchorFail("type of the client dialled by " + pkg)
	return nil
}

var serviceOpNames = []string{"LogAddEntry", "LogFetchEntries", "LogTreeHash", "LogInclusionProof", "LogConsistencyProof", "MapSetValue", "MapGetValue", "MapTreeHash"}

func (c *Check) restClientErrors() {
	t := c.dialled("server/httprest")
	if t == nil {
		return
	}
	for _, op := range serviceOpNames {
		fn := c.method(derefType(t), op)
		if fn == nil || fn.Synthetic != "" {
			c.fail("client-implements", op, 0, "the REST client does not implement %s", op)
			continue
		}
		c.count("REST client operations")
		e := c.explore(fn)
		for _, p := range e.paths {
			f := p.facts()
			if f.dead || p.End != "return" {
				continue
			}
			var do *Event
			for _, ev := range p.St.events {
				if ev.Callee == "(*net/http.Client).Do" {
					do = ev
				}
			}
			err := p.retErr()
			if do == nil {
				c.must(f.Implies(litNil(err).Not()), "no-request-no-success", op, p.Pos, "the REST client's %s can succeed without having asked the server", op)
				continue
			}
			code := SF(do.Res[0], "StatusCode")
			is := func(k int64) bool { return f.Implies(litEQ0(AddC(code, -k))) }
			not := func(k int64) bool { return f.Implies(litEQ0(AddC(code, -k)).Not()) }
			if p.maySucceed() {
				c.count("client successes")
				c.must(succeeded(f, do) && is(200), "success-only-on-200", op, p.Pos, "the REST client's %s can succeed although the server did not answer with status 200", op)
				continue
			}
			if !succeeded(f, do) || is(200) {
				continue
			}
			// the answer could not even be read
			if failedStep(p, f, func(x *Event) bool { return x != do }) {
				continue
			}
			c.count("client failures")
			k, known := statusCode(err)
			for st, want := range map[int64]int64{401: 7, 400: 3, 404: 5} {
				if !not(st) {
					c.must(known && k == want, "status-keeps-meaning", op, p.Pos, "the REST client's %s may turn status %d into %s", op, st, brief(err))
				}
				if known && k == want {
					c.must(is(st), "status-keeps-meaning", op, p.Pos, "the REST client's %s may turn a status other than %d into %s", op, st, brief(err))
				}
			}
		}
	}
	c.min("REST client operations", 8)
	c.min("client successes", 8)
	c.min("client failures", 32)
}

func (c *Check) grpcForwards() {
	t := c.dialled("server/grpc")
	if t == nil {
		return
	}
	for _, op := range serviceOpNames {
		fn := c.method(derefType(t), op)
		if fn == nil || fn.Synthetic != "" {
			c.fail("client-implements", op, 0, "the gRPC client does not implement %s", op)
			continue
		}
		c.count("gRPC client operations")
		recv, ctx, req := ParamSym(fn.Params[0]), ParamSym(fn.Params[1]), ParamSym(fn.Params[2])
		e := c.explore(fn, litNil(recv).Not())
		for _, p := range e.paths {
			f := p.facts()
			if f.dead || p.End != "return" {
				continue
			}
			var calls []*Event
			for _, ev := range p.St.events {
				if ev.Kind == ECall && strings.Contains(ev.Iface, "VerifiableDataStructuresServiceClient") {
					calls = append(calls, ev)
				}
			}
			if !c.must(len(calls) == 1 && strings.HasSuffix(calls[0].Callee, ")."+op), "grpc-same-call", op, p.Pos, "the gRPC client's %s does not make exactly the same call of the service", op) {
				continue
			}
			call := calls[0]
			c.count("gRPC calls")
			c.must(call.Args[0] == SF(recv, "Client") || strip(call.Args[0]) == strip(SF(recv, "Client")), "grpc-same-call", op, call.Pos, "the gRPC client's %s is sent elsewhere than to the dialled connection", op)
			c.must(call.Args[1] == ctx, "grpc-same-context", op, call.Pos, "the gRPC client's %s is sent under another context", op)
			c.must(call.Args[2] == req && !p.wrote(req, call), "grpc-same-request", op, call.Pos, "the gRPC client's %s sends another request: %s", op, brief(call.Args[2]))
			c.must(eqv(f, p.Results[1], call.Res[1]), "grpc-same-error", op, p.Pos, "the gRPC client's %s does not return the call's error: %s", op, brief(p.Results[1]))
			if !f.Implies(litNil(call.Res[1]).Not()) {
				c.must(p.Results[0] == call.Res[0] && !p.wrote(call.Res[0], nil), "grpc-same-response", op, p.Pos, "the gRPC client's %s does not return the call's response: %s", op, brief(p.Results[0]))
			}
		}
	}
	c.min("gRPC client operations", 8)
	c.min("gRPC calls", 8)
}

// wrote: something under the object was stored to (before the event).
func (p *Path) wrote(root *Term, before *Event) bool {
	for _, ev := range p.St.events {
		if before != nil && ev.Seq > before.Seq {
			break
		}
		if ev.Kind == EStore && addrBase(ev.Loc) == root {
			return true
		}
	}
	return false
}
