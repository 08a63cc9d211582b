package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C32", checkC32, "path-sensitive dataflow over the SSA form of the client's unverified operations: terms of every field of the request sent on each partition that may succeed; ghost position of the entries sent to the caller's channel across loop iterations and the goroutine",
		"On every partition of a client operation that may succeed, a call of the right operation of the service was made whose request's every field is the caller's argument, the receiver's reference or zero, writes exactly once, and reads return that call's answer; references handed out name the account, key, name and log type of their receiver; Entries sends, in order and without gaps, the values of the positions start, start+1, ..., asks for no position outside [start, end), ends only at end, at a failed or empty answer or when the context is done, and closes the channel once after the last value.")
}

// clientCall is what an operation has to send: request field -> expected value, in
// terms of the positional parameters ($0 is the context).
type clientCall struct {
	recv, name, op string
	fields         map[string]string
	write          bool
}

var clientCalls = []clientCall{
	{"Log", "TreeHead", "LogTreeHash", map[string]string{"Log": "=", "TreeSize": "$1"}, false},
	{"Log", "Add", "LogAddEntry", map[string]string{"Log": "=", "Value": "$1"}, true},
	{"Log", "InclusionProof", "LogInclusionProof", map[string]string{"Log": "=", "TreeSize": "$1", "MtlHash": "$2"}, false},
	{"Log", "InclusionProofByIndex", "LogInclusionProof", map[string]string{"Log": "=", "TreeSize": "$1", "LeafIndex": "$2"}, false},
	{"Log", "ConsistencyProof", "LogConsistencyProof", map[string]string{"Log": "=", "FromSize": "$1", "TreeSize": "$2"}, false},
	{"Log", "Entry", "LogFetchEntries", map[string]string{"Log": "=", "First": "$1", "Last": "$1+1"}, false},
	{"Map", "Get", "MapGetValue", map[string]string{"Map": "=", "Key": "$1", "TreeSize": "$2"}, false},
	{"Map", "TreeHead", "MapTreeHash", map[string]string{"Map": "=", "TreeSize": "$1"}, false},
	{"Map", "Set", "MapSetValue", map[string]string{"Map": "=", "Mutation.Action": "set", "Mutation.Key": "$1", "Mutation.Value": "$2"}, true},
	{"Map", "Delete", "MapSetValue", map[string]string{"Map": "=", "Mutation.Action": "delete", "Mutation.Key": "$1"}, true},
	{"Map", "Update", "MapSetValue", map[string]string{"Map": "=", "Mutation.Action": "update", "Mutation.Key": "$1", "Mutation.Value": "$2", "Mutation.PreviousLeafHash": "$3"}, true},
}

func checkC32(c *Check) {
	c.assumption("services give a response or an error")
	for _, x := range clientCalls {
		fn := c.fn("verifiable", x.recv+"."+x.name)
		if fn == nil {
			continue
		}
		c.count("client operations")
		c.clientRequest(x, fn)
	}
	c.references()
	c.entriesStream()
	c.min("client operations", 11)
	c.min("requests compared", 11)
	c.min("references handed out", 5)
	c.min("entries sent", 1)
}

func (c *Check) clientRequest(x clientCall, fn *ssa.Function) {
	name := shortFn(fn)
	e := c.explore(fn)
	n := 0
	for _, p := range e.paths {
		if p.End != "return" || !p.maySucceed() {
			continue
		}
		f := p.facts()
		if f.dead || f.absurd() || noResponse(p, f) {
			continue
		}
		n++
		var sent []*Event
		allEvents(p, func(q *Path, ev *Event) {
			if isServiceCall(ev) {
				sent = append(sent, ev)
			}
		})
		var good *Event
		why := "no request is sent"
		for _, ev := range sent {
			if methodName(ev.Callee) != x.op {
				why = "it calls " + methodName(ev.Callee)
				continue
			}
			c.count("requests compared")
			if w := c.requestDiffers(x, fn, e, p, ev); w != "" {
				why = w
				continue
			}
			if !succeeded(f, ev) && !eqErr(p, ev) {
				why = "the call may have failed"
				continue
			}
			good = ev
		}
		if !c.must(good != nil, "request", name, p.Pos, "%s may succeed without a %s request for exactly what its caller asked: %s", name, x.op, why) {
			continue
		}
		if x.write {
			c.must(len(sent) == 1, "once", name, p.Pos, "%s sends %d requests", name, len(sent))
			continue
		}
		if x.name == "Entry" {
			k := elemIndex(MF(good.Res[0], "Values"), p.Results[0])
			c.must(k != nil && eqi(f, k, tZeroI), "answer", name, p.Pos, "%s may return %s, which is not the entry the service answered with", name, brief(p.Results[0]))
			continue
		}
		c.must(sameVal(p.Results[0], good.Res[0]) || eqErr(p, good) && f.Implies(litNil(good.Res[0])), "answer", name, p.Pos, "%s may return %s, which is not the answer of the service", name, brief(p.Results[0]))
	}
	c.must(n > 0, "request", name, fn.Pos(), "%s never succeeds", name)
}

// requestDiffers says in which field the request is not what was asked for.
func (c *Check) requestDiffers(x clientCall, fn *ssa.Function, e *exploration, p *Path, ev *Event) string {
	f := p.facts()
	req := ev.Snap[2]
	arg := func(s string) *Term {
		switch {
		case s == "":
			return nil
		case strings.HasPrefix(s, "$"):
			i := int(s[1]-'0') + 1
			if i >= len(fn.Params) {
				return nil
			}
			t := ParamSym(fn.Params[i])
			if strings.HasSuffix(s, "+1") {
				t = AddC(t, 1)
			}
			return t
		}
		return Str(s)
	}
	var walk func(t *Term, typ types.Type, prefix string) string
	walk = func(t *Term, typ types.Type, prefix string) string {
		s, ok := derefType(typ).Underlying().(*types.Struct)
		if !ok {
			return prefix + " is not a message"
		}
		for i := 0; i < s.NumFields(); i++ {
			fl := s.Field(i)
			if !fl.Exported() {
				continue
			}
			key := prefix + fl.Name()
			v := MF(t, fl.Name())
			want, given := x.fields[key]
			switch {
			case want == "=":
				if !ofLog(f, ev, ParamSym(fn.Params[0]), x.recv) {
					return key + " is not the receiver's"
				}
			case given:
				a := arg(want)
				if a == nil {
					return "the parameters are not the expected ones"
				}
				if _, ok := fl.Type().Underlying().(*types.Pointer); ok {
					if w := msgEq(f, canon(v), canon(a), derefType(fl.Type())); w != "" {
						return key + ": " + w
					}
				} else if !eqv(f, v, a) && !sameVal(v, a) && !(isIntType(fl.Type()) && eqi(f, v, a)) {
					return key + " is " + brief(v)
				}
			default:
				sub := false
				for k := range x.fields {
					sub = sub || strings.HasPrefix(k, key+".")
				}
				if sub {
					if w := walk(v, fl.Type(), key+"."); w != "" {
						return w
					}
					continue
				}
				if v == nil || !isZeroConst(v) && !eqv(f, v, tNil) && !(isIntType(fl.Type()) && eqi(f, v, tZeroI)) {
					return key + " is " + brief(v)
				}
			}
		}
		return ""
	}
	rt := c.typeNamed("pb", x.op+"Request")
	if rt == nil {
		return "no request type"
	}
	return walk(req, rt, "")
}

// references: the objects handed out refer to what their receiver refers to.
func (c *Check) references() {
	for _, x := range []struct {
		recv, name, field string
		account           []string // of the receiver; nil: parameters
		text              string   // Name: "$0" or a path of the receiver
		kind              int64
	}{
		{"Client", "Account", "Account", nil, "", -1},
		{"Account", "VerifiableMap", "Map", []string{"Account"}, "$0", -1},
		{"Account", "VerifiableLog", "Log", []string{"Account"}, "$0", 0},
		{"Map", "MutationLog", "Log", []string{"Map", "Account"}, "", ltMutation},
		{"Map", "TreeHeadLog", "Log", []string{"Map", "Account"}, "", ltTreehead},
	} {
		fn := c.fn("verifiable", x.recv+"."+x.name)
		if fn == nil {
			continue
		}
		c.count("references handed out")
		name := shortFn(fn)
		e := c.explore(fn)
		n := 0
		for _, p := range e.paths {
			if p.End != "return" {
				continue
			}
			f := p.facts()
			n++
			rv := p.Results[0]
			typ := fn.Signature.Results().At(0).Type()
			ref := fieldPtr(e, p, rv, typ, x.field)
			svc := fieldPtr(e, p, rv, typ, "Service")
			if !c.must(ref != nil && svc != nil, "reference", name, p.Pos, "%s gives something that is not understood", name) {
				continue
			}
			recv := ParamSym(fn.Params[0])
			rs := fieldPtr(e, p, recv, fn.Params[0].Type(), "Service")
			c.must(sameVal(svc, rs), "reference", name, p.Pos, "%s gives an object that uses another service", name)
			var ft types.Type
			st := derefType(typ).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == x.field {
					ft = st.Field(i).Type()
				}
			}
			m := e.ex.Snap(p.St, ref, ft)
			if x.account == nil {
				if !c.must(len(fn.Params) == 3, "reference", name, p.Pos, "parameters of %s", name) {
					continue
				}
				c.must(eqv(f, MF(m, "Id"), ParamSym(fn.Params[1])) && eqv(f, MF(m, "ApiKey"), ParamSym(fn.Params[2])), "reference", name, p.Pos, "%s gives an account other than the one named, or with another key", name)
				continue
			}
			c.must(accountSame(f, MF(m, "Account"), MF(recv, x.account...)), "reference", name, p.Pos, "%s gives a reference to another account", name)
			want := MF(recv, "Map", "Name")
			if x.text != "" {
				want = ParamSym(fn.Params[1])
			}
			c.must(eqv(f, MF(m, "Name"), want), "reference", name, p.Pos, "%s gives a reference with the name %s", name, brief(MF(m, "Name")))
			if x.kind >= 0 {
				c.must(eqi(f, MF(m, "LogType"), Int(x.kind)) || x.kind == 0 && isZeroConst(MF(m, "LogType")), "reference", name, p.Pos, "%s gives a reference of type %s", name, brief(MF(m, "LogType")))
			}
		}
		c.must(n > 0, "reference", name, fn.Pos(), "%s gives nothing", name)
	}
}

// entriesStream: what Log.Entries sends.
func (c *Check) entriesStream() {
	fn := c.fn("verifiable", "Log.Entries")
	if fn == nil {
		return
	}
	name := shortFn(fn)
	if len(fn.Params) != 4 {
		c.anchorFail("parameters of " + name)
		return
	}
	recv, ctx, start, end := ParamSym(fn.Params[0]), ParamSym(fn.Params[1]), ParamSym(fn.Params[2]), ParamSym(fn.Params[3])
	e := c.exploreWith(fn, func(ex *Explorer) { ex.goRun = true })
	var ch *Term
	for _, p := range e.paths {
		if p.End == "return" {
			c.must(ch == nil || ch == p.Results[0], "stream", name, p.Pos, "%s gives different channels", name)
			ch = p.Results[0]
		}
	}
	if !c.must(ch != nil, "stream", name, fn.Pos(), "%s never returns", name) {
		return
	}
	ends := 0
	pos := &streamPos{c: c, ch: ch, at: map[*LoopInst]*PhiInfo{}, start: start}
	for _, p := range e.paths {
		f := p.facts()
		if f.dead {
			continue
		}
		at := start
		var last *Event
		closed := false
		started := false
		for _, ev := range p.St.events {
			switch {
			case ev.Kind == EGo:
				started = true
			case ev.Kind == ELoop:
				at = pos.after(ev.Loop, at, f)
				if at == nil {
					c.fail("order", name, ev.Pos, "%s: the position of the entries sent is not determined after a loop", name)
				}
			case isServiceCall(ev):
				g := p.at(ev)
				last = ev
				ok := methodName(ev.Callee) == "LogFetchEntries" && ofLog(g, ev, recv, "Log")
				c.must(ok, "request", name, ev.Pos, "%s asks for something else than entries of its log", name)
				first, to := MF(ev.Snap[2], "First"), MF(ev.Snap[2], "Last")
				c.must(ok && le(g, start, first) && le(g, to, end) && lt(g, first, to), "request", name, ev.Pos, "%s asks for the entries from %s to %s, which may be outside its range", name, brief(first), brief(to))
			case ev.Kind == ESend && ev.Loc == ch:
				c.count("entries sent")
				c.must(started, "stream", name, ev.Pos, "%s sends before it returns", name)
				c.must(!closed, "closed", name, ev.Pos, "%s sends after closing", name)
				ok := false
				if at != nil {
					for q := range allCalls(p) {
						if isServiceCall(q) && succeeded(p.at(ev), q) {
							if k := elemIndex(MF(q.Res[0], "Values"), ev.Val); k != nil && eqi(p.at(ev), Add(MF(q.Snap[2], "First"), k), at) {
								ok = true
							}
						}
					}
					at = AddC(at, 1)
				}
				c.must(ok, "order", name, ev.Pos, "%s may send %s, which is not the entry at the next position", name, brief(ev.Val))
			case ev.Kind == EClose && ev.Loc == ch:
				c.must(!closed, "closed", name, ev.Pos, "%s closes twice", name)
				closed = true
			}
		}
		switch p.End {
		case "backedge":
			c.must(at != nil && pos.carried(p, at, f), "order", name, p.Pos, "%s: after an iteration the position of the entries sent is not the one the loop goes on from", name)
			c.must(!closed, "closed", name, p.Pos, "%s closes the channel within a loop", name)
		case "goroutine":
			ends++
			c.must(closed, "closed", name, p.Pos, "%s may end without closing the channel", name)
			f = noIterations(p, f)
			done := at != nil && le(f, end, at) || le(f, end, start)
			if last != nil {
				done = done || failed(f, last) || le(f, LenOf(MF(last.Res[0], "Values")), tZeroI) || isNilVal(f, MF(last.Res[0], "Values"))
			}
			for _, ev := range p.St.events {
				if ev.Kind == ERecv && isDoneChannel(p, ev.Loc, ctx) {
					done = true
				}
				if ev.Kind == ECall && methodName(ev.Callee) == "Err" && len(ev.Args) > 0 && ev.Args[0] == ctx && f.Implies(litNil(ev.Res[0]).Not()) {
					done = true
				}
			}
			c.must(done, "complete", name, p.Pos, "%s may stop before the end although the context is not done and the last answer had entries", name)
		case "return":
			c.must(!closed, "closed", name, p.Pos, "%s returns a closed channel", name)
		default:
			c.must(p.End == "probe" || p.End == "block" || p.End == "stop" || p.End == "pure", "stream", name, p.Pos, "%s may end by %s", name, p.End)
		}
	}
	c.must(ends > 0, "complete", name, fn.Pos(), "%s starts no goroutine that sends", name)
}

func isDoneChannel(p *Path, ch, ctx *Term) bool {
	for _, ev := range p.St.events {
		if ev.Kind == ECall && methodName(ev.Callee) == "Done" && len(ev.Args) > 0 && ev.Args[0] == ctx && len(ev.Res) == 1 && ev.Res[0] == ch {
			return true
		}
	}
	return false
}

// noIterations adds that a loop ran not even once where a flag says so that every
// iteration sets.
func noIterations(p *Path, f *Facts) *Facts {
	f = f.clone()
	for _, ev := range p.St.events {
		if ev.Kind != ELoop || ev.Loop.N == nil {
			continue
		}
		for k, v := range ev.Loop.Vars {
			if !isBoolVar(v) || v.Init == nil {
				continue
			}
			for _, up := range []bool{true, false} {
				is := func(t *Term) Lit {
					if up {
						return asLit(t)
					}
					return asLit(t).Not()
				}
				set := len(ev.Loop.Iters) > 0
				for _, it := range ev.Loop.Iters {
					if k >= len(it.Nexts) || !it.facts().Implies(is(it.Nexts[k])) {
						set = false
					}
				}
				if set && f.Implies(is(v.Sym).Not()) {
					f.add(litEQ0(ev.Loop.N))
				}
			}
		}
	}
	return f
}

// allCalls: the calls on the way.
func allCalls(p *Path) map[*Event]bool {
	m := map[*Event]bool{}
	for _, ev := range p.St.events {
		if ev.Kind == ECall {
			m[ev] = true
		}
	}
	return m
}

// elemIndex: v is the element of the list at the index returned.
func elemIndex(list, v *Term) *Term {
	l, x := canon(list), canon(v)
	if x != nil && x.Op == OElem && len(x.Args) == 2 && canon(x.Args[0]) == l {
		return x.Args[1]
	}
	return nil
}

// streamPos follows how many entries were sent: the position of the next one after
// each loop, by a variable that is proven to advance by one per entry sent.
type streamPos struct {
	c     *Check
	ch    *Term
	at    map[*LoopInst]*PhiInfo
	start *Term
	n     map[*LoopInst]*Term // position in terms of the count of iterations
}

// after: the position at the head of the loop, given the one before it.
func (s *streamPos) after(l *LoopInst, before *Term, f *Facts) *Term {
	if before == nil {
		return nil
	}
	if v := s.at[l]; v != nil {
		return v.Val
	}
	if s.n[l] != nil {
		return s.n[l]
	}
	// a variable that starts at the position
	for _, v := range l.Vars {
		if v.Typ != nil && isIntType(v.Typ) && v.Init != nil && eqi(f, v.Init, before) && s.advances(l, v) {
			s.at[l] = v
			return v.Val
		}
	}
	// nothing is sent within
	sends := false
	for _, it := range l.Iters {
		for _, ev := range iterEvents(l, it) {
			if ev.Kind == ESend && ev.Loc == s.ch || ev.Kind == ELoop {
				sends = true
			}
		}
	}
	if !sends && l.N != nil {
		return before
	}
	// one entry an iteration
	one := l.N != nil
	for _, it := range l.Iters {
		if k, ok := s.sent(l, it); !ok || k != tOne {
			one = false
		}
	}
	if one {
		if s.n == nil {
			s.n = map[*LoopInst]*Term{}
		}
		s.n[l] = Add(before, l.N)
		return s.n[l]
	}
	return nil
}

// sent: how many entries the iteration sends.
func (s *streamPos) sent(l *LoopInst, it *Path) (*Term, bool) {
	n := tZeroI
	for _, ev := range iterEvents(l, it) {
		switch {
		case ev.Kind == ESend && ev.Loc == s.ch:
			n = AddC(n, 1)
		case ev.Kind == ELoop:
			x := s.after(ev.Loop, n, it.facts())
			if x == nil {
				// in terms of a position
				return nil, false
			}
			n = x
		}
	}
	return n, true
}

// advances: every iteration adds to v as many as it sends.
func (s *streamPos) advances(l *LoopInst, v *PhiInfo) bool {
	vi := -1
	for i, w := range l.Vars {
		if w == v {
			vi = i
		}
	}
	for _, it := range l.Iters {
		if vi >= len(it.Nexts) {
			return false
		}
		at := v.Val
		for _, ev := range iterEvents(l, it) {
			switch {
			case ev.Kind == ESend && ev.Loc == s.ch:
				at = AddC(at, 1)
			case ev.Kind == ELoop:
				if at = s.after(ev.Loop, at, it.facts()); at == nil {
					return false
				}
			}
		}
		nx := it.Nexts[vi]
		if !eqi(it.facts(), nx, at) {
			return false
		}
	}
	return true
}

// carried: at the end of an iteration the position is the one the next begins with.
func (s *streamPos) carried(p *Path, at *Term, f *Facts) bool {
	l := p.Loop
	if l == nil {
		return false
	}
	if v := s.at[l]; v != nil {
		for i, w := range l.Vars {
			if w == v && i < len(p.Nexts) {
				return eqi(f, p.Nexts[i], at)
			}
		}
		return false
	}
	if x := s.n[l]; x != nil {
		return eqi(f, AddC(x, 1), at)
	}
	return true
}
