package main

import "go/constant"

import "strings"

import "go/types"

// C03: what the static policy grants, what it refuses, and with which filter.

func init() {
	register("C03", checkC03,
		"path-sensitive dataflow over SSA: every granting partition names one rule element whose tests all hold, every refusing partition exhausts the rules with each element failing a test (loop element rules)",
		"on every partition of the static policy that allows, one rule element of one account element has passed the account, permission, key and name tests against the caller's own arguments and its fields are the returned filter; on every partition that refuses, the loops cover all accounts, rules and permissions and each element is known to fail one of those tests")
}

// policyScope is the part of a rule that has been fixed.
type policyScope struct{ acc, pol, perm *Term }

type policyCtx struct {
	c                              *Check
	recv, account, key, name, perm *Term
	all                            *Term
}

func checkC03(c *Check) {
	it := c.typeNamed("verifiable", "AuthorizationOracle")
	fn := c.fn("oracle/policy", "Static.VerifyAllowed")
	if it == nil || fn == nil {
		return
	}
	all, ok := c.constOf("pb", "Permission_PERM_ALL_PERMISSIONS")
	if !ok {
		return
	}
	if len(fn.Params) != 6 {
		c.anchorFail("parameters of Static.VerifyAllowed")
		return
	}
	x := &policyCtx{c: c, recv: ParamSym(fn.Params[0]), account: ParamSym(fn.Params[2]), key: ParamSym(fn.Params[3]), name: ParamSym(fn.Params[4]), perm: ParamSym(fn.Params[5]), all: Int(all)}
	e := c.explore(fn, litNil(x.recv).Not())
	for _, p := range e.paths {
		f := p.facts()
		if p.End != "return" || f.dead {
			continue
		}
		err := p.retErr()
		switch {
		case err != nil && f.Implies(litNil(err)):
			c.count("grants")
			why := x.granted(e, p, f)
			c.must(why == "", "grant-needs-rule", "VerifyAllowed", p.Pos, "the static policy can allow a request %s", why)
		case err != nil && f.Implies(litNil(err).Not()):
			c.count("refusals")
			code, _ := statusCode(err)
			c.must(code == 7 || err.String() == "@verifiable.ErrNotAuthorized", "refusal-is-not-authorised", "VerifyAllowed", p.Pos, "the static policy can refuse with an error other than the not-authorised one: %s", brief(err))
			c.must(x.refuted(f, p, policyScope{}, 0), "refusal-exhausts-rules", "VerifyAllowed", p.Pos, "the static policy can refuse although a rule that matches may exist: not every rule is known to fail a test on this path")
		default:
			c.fail("outcome-unknown", "VerifyAllowed", p.Pos, "the static policy returns an error that may or may not be nil")
		}
	}
	c.min("grants", 1)
	c.min("refusals", 1)
}

// granted looks for the one rule that passed every test; "" when there is one.
func (x *policyCtx) granted(e *exploration, p *Path, f *Facts) string {
	mod := x.c.snapResult(e, p, 0, e.fn)
	if mod == nil || mod.IsNil() {
		return "without a field filter"
	}
	elems := map[*Term][]*Term{}
	seen := map[*Term]bool{}
	var note func(t *Term)
	note = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OElem {
			elems[t.Args[0]] = append(elems[t.Args[0]], t)
		}
		for _, a := range t.Args {
			note(a)
		}
	}
	for _, l := range f.lits {
		note(l.A)
	}
	best := "without any rule of the policy having been looked at"
	rank := 0
	say := func(r int, s string) {
		if r > rank {
			rank, best = r, s
		}
	}
	for _, acc := range elems[SF(x.recv, "Policy")] {
		if !f.Implies(litEQ(SF(acc, "Id"), x.account)) {
			say(1, "of an account other than the requested one")
			continue
		}
		say(1, "without a rule of the account")
		for _, pol := range elems[SF(acc, "Policy")] {
			k := SF(pol, "ApiKey")
			if !(f.Implies(litEQ(k, Str("*"))) || f.Implies(litEQ(k, x.key)) && (f.Implies(litEQ0(LenOf(k)).Not()) || f.Implies(litEQ0(LenOf(x.key)).Not()))) {
				say(2, "whose API key the rule does not name")
				continue
			}
			if m := x.match(p, pol); m == nil || !f.Implies(asLit(m.Res[0])) {
				say(3, "whose object name the rule's pattern need not match")
				continue
			}
			okp := x.listed(f, p, SF(pol, "Permissions"), true)
			for _, pm := range elems[SF(pol, "Permissions")] {
				if eqi(f, pm, x.perm) || eqi(f, pm, x.all) {
					okp = true
				}
			}
			// a flag that only an element with the permission sets
			for _, ev := range p.St.events {
				okp = okp || ev.Kind == ELoop && ev.Loop != nil && x.flagged(f, ev.Loop, SF(pol, "Permissions"))
			}
			if !okp {
				say(4, "for a permission the rule does not list")
				continue
			}
			if SF(mod, "FieldFilter") != App("strings.Join", nil, SF(pol, "AllowedFields"), Str(",")) {
				say(5, "with a field filter other than the rule's fields: "+brief(SF(mod, "FieldFilter")))
				continue
			}
			return ""
		}
	}
	return best
}

// match finds the test of the rule's name pattern.
func (x *policyCtx) match(p *Path, pol *Term) *Event {
	for _, ev := range p.St.events {
		if ev.Callee == "path.Match" && len(ev.Args) == 2 && len(ev.Res) == 2 && ev.Args[0] == SF(pol, "NameMatch") && ev.Args[1] == x.name {
			return ev
		}
	}
	return nil
}

// refuted: no rule within the scope can match on this path.
func (x *policyCtx) refuted(f *Facts, p *Path, s policyScope, depth int) bool {
	if f.absurd() {
		return true
	}
	ne := func(a, b *Term) bool { return f.Implies(litEQ(a, b).Not()) }
	if s.acc != nil && ne(SF(s.acc, "Id"), x.account) {
		return true
	}
	if s.pol != nil {
		k := SF(s.pol, "ApiKey")
		if ne(k, Str("*")) && (ne(k, x.key) || f.Implies(litEQ0(LenOf(k))) || f.Implies(litEQ(k, Str("")))) {
			return true
		}
		if m := x.match(p, s.pol); m != nil && (f.Implies(asLit(m.Res[0]).Not()) || f.Implies(litNil(m.Res[1]).Not())) {
			return true
		}
	}
	if s.perm != nil {
		nei := func(a, b *Term) bool { return f.Implies(litEQ0(Sub(a, b)).Not()) }
		return nei(s.perm, x.all) && nei(s.perm, x.perm)
	}
	var seq *Term
	switch {
	case s.acc == nil:
		seq = SF(x.recv, "Policy")
	case s.pol == nil:
		seq = SF(s.acc, "Policy")
	default:
		seq = SF(s.pol, "Permissions")
	}
	if s.pol != nil && x.listed(f, p, seq, false) {
		return true
	}
	n := LenOf(seq)
	if f.Implies(litEQ0(n)) {
		return true
	}
	for _, ev := range p.St.events {
		l := ev.Loop
		if ev.Kind != ELoop || l == nil || !f.Implies(litLE(n, l.N)) {
			continue
		}
		for _, idx := range []*Term{l.N, AddC(Sub(n, l.N), -1)} {
			in := s
			el := ElemOf(seq, idx, nil)
			switch {
			case s.acc == nil:
				in.acc = el
			case s.pol == nil:
				in.pol = el
			default:
				in.perm = el
			}
			good := len(l.Iters) > 0
			for i, it := range l.Iters {
				if !flagWouldShow(f, l, i) && !x.refuted(it.facts(), it, in, depth+1) {
					good = false
					break
				}
			}
			if good {
				x.c.count("exhausted loops")
				return true
			}
		}
	}
	return false
}

// constOf gives the value of a package level integer constant.
func (c *Check) constOf(pkg, name string) (int64, bool) {
	if sp := c.w.SSA[modPath+"/"+pkg]; sp != nil {
		if k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(k.Val()); ok {
				return v, true
			}
		}
	}
	c.anchorFail(pkg + "." + name)
	return 0, false
}

// listed: a library search of the permissions has found the requested or the
// wildcard permission (want), or has found neither of them (!want).
func (x *policyCtx) listed(f *Facts, p *Path, seq *Term, want bool) bool {
	n := map[*Term]bool{}
	for _, ev := range p.St.events {
		if !strings.HasPrefix(ev.Callee, "slices.Contains") || len(ev.Args) != 2 || ev.Args[0] != seq || len(ev.Res) != 1 {
			continue
		}
		if a := ev.Args[1]; a == x.perm || a == x.all {
			l := asLit(ev.Res[0])
			if want && f.Implies(l) {
				return true
			}
			if !want && f.Implies(l.Not()) {
				n[a] = true
			}
		}
	}
	return len(n) == 2
}

// flagged: a flag, false before the loop, is true now, and every way round that
// sets it has seen an element that is the requested or the wildcard permission.
func (x *policyCtx) flagged(f *Facts, l *LoopInst, seq *Term) bool {
	for i, v := range l.Vars {
		if !isBoolVar(v) || !f.Implies(asLit(v.Init).Not()) || !f.Implies(asLit(v.Sym)) {
			continue
		}
		good := true
		for _, it := range l.Iters {
			g := it.facts()
			if i >= len(it.Nexts) || it.Nexts[i] != v.Sym && !g.Implies(asLit(it.Nexts[i]).Not()) {
				el := ElemOf(seq, l.N, nil)
				if !eqi(g, el, x.perm) && !eqi(g, el, x.all) {
					good = false
				}
			}
		}
		if good {
			return true
		}
	}
	return false
}

func isBoolVar(v *PhiInfo) bool {
	if v.Typ == nil {
		return false
	}
	b, ok := v.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// flagWouldShow: the i-th way round sets a flag that nothing clears and that is
// known not to be set, so this way was not taken.
func flagWouldShow(f *Facts, l *LoopInst, i int) bool {
	for k, v := range l.Vars {
		if !isBoolVar(v) || !f.Implies(asLit(v.Sym).Not()) || k >= len(l.Iters[i].Nexts) {
			continue
		}
		up := l.Iters[i].facts().Implies(asLit(l.Iters[i].Nexts[k]))
		for _, it := range l.Iters {
			if k >= len(it.Nexts) || it.Nexts[k] != v.Sym && !it.facts().Implies(asLit(it.Nexts[k])) {
				up = false
			}
		}
		if up {
			return true
		}
	}
	return false
}
