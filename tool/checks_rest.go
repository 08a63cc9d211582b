package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: each request of the REST client, as the dataflow builds it, is given to
// the route it reaches, and the answer back to the client.

func init() {
	register("C24", checkC24,
		"path-sensitive dataflow over SSA of both ends: the method, URL, headers and body each client operation builds are matched against the route table read off the code, the matched route is analysed on them, and the client on what the route answers",
		"for each operation, log type and mutation action: exactly one route takes the request the client builds; on every partition that route makes one call of the same operation whose request has, field by field, the values of the client's request; and from the body and headers the route sends for the service's response the client returns that response")
}

type seg struct {
	lit  string
	name string
	re   *syntax.Regexp
	src  string
}

// parseRoute cuts a pattern into its path segments.
func parseRoute(p string) ([][]seg, error) {
	var out [][]seg
	var cur []seg
	lit := ""
	flush := func() {
		if lit != "" {
			cur = append(cur, seg{lit: lit})
			lit = ""
		}
	}
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '/':
			flush()
			out = append(out, cur)
			cur = nil
		case '{':
			flush()
			d, j := 1, i+1
			for ; j < len(p) && d > 0; j++ {
				switch p[j] {
				case '{':
					d++
				case '}':
					d--
				}
			}
			body := p[i+1 : j-1]
			i = j - 1
			name, src, ok := strings.Cut(body, ":")
			if !ok {
				src = "[^/]+"
			}
			re, err := syntax.Parse(src, syntax.Perl)
			if err != nil {
				return nil, err
			}
			cur = append(cur, seg{name: name, re: re.Simplify(), src: src})
		default:
			lit += p[i : i+1]
		}
	}
	flush()
	return append(out, cur), nil
}

// urlSegments cuts the symbolic path of a request at its slashes.
func urlSegments(t *Term) [][]*Term {
	var out [][]*Term
	var cur []*Term
	for _, p := range textParts(t) {
		if p.Op != OStr {
			cur = append(cur, p)
			continue
		}
		for i, s := range strings.Split(p.Aux, "/") {
			if i > 0 {
				out = append(out, cur)
				cur = nil
			}
			if s != "" {
				cur = append(cur, Str(s))
			}
		}
	}
	return append(out, cur)
}

const (
	mNo = iota
	mMaybe
	mYes
)

// covers: every non-empty text over the characters is matched.
func covers(re *syntax.Regexp, chars string) bool {
	switch re.Op {
	case syntax.OpCapture:
		return covers(re.Sub[0], chars)
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if covers(s, chars) {
				return true
			}
		}
	case syntax.OpPlus, syntax.OpStar:
		return inClass(re.Sub[0], chars)
	}
	return false
}

func inClass(re *syntax.Regexp, chars string) bool {
	if chars == clKey {
		chars = ""
		for r := rune('!'); r < 0x7f; r++ {
			chars += string(r)
		}
	}
	switch re.Op {
	case syntax.OpCapture:
		return inClass(re.Sub[0], chars)
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return true
	case syntax.OpCharClass:
		for _, r := range chars {
			ok := false
			for i := 0; i+1 < len(re.Rune); i += 2 {
				ok = ok || re.Rune[i] <= r && r <= re.Rune[i+1]
			}
			if !ok {
				return false
			}
		}
		return true
	case syntax.OpLiteral:
		return len(re.Rune) == 1 && chars == string(re.Rune)
	}
	return false
}

// matchSeg matches one segment of the URL with one of the pattern.
func (w *wire) matchSeg(url []*Term, pat []seg, bind map[string]*Term) int {
	allLit := ""
	for _, u := range url {
		if u.Op != OStr {
			allLit = "\x00"
			break
		}
		allLit += u.Aux
	}
	if allLit != "\x00" {
		src := "^"
		for i, s := range pat {
			if s.re == nil {
				src += regexp.QuoteMeta(s.lit)
			} else {
				src += fmt.Sprintf("(?P<v%d>%s)", i, s.src)
			}
		}
		re, err := regexp.Compile(src + "$")
		if err != nil {
			return mMaybe
		}
		m := re.FindStringSubmatch(allLit)
		if m == nil {
			return mNo
		}
		for i, s := range pat {
			if s.re != nil {
				bind[s.name] = Str(m[re.SubexpIndex(fmt.Sprintf("v%d", i))])
			}
		}
		return mYes
	}
	if len(url) == len(pat) {
		res := mYes
		for i, u := range url {
			s := pat[i]
			switch {
			case s.re == nil && u.Op == OStr:
				if s.lit != u.Aux {
					res = mMaybe
				}
			case s.re == nil:
				res = mMaybe
				if cl, _ := w.classOf(u); len(url) == 1 && cl != "" && cl != clKey && strings.Trim(s.lit, cl) != "" {
					return mNo
				}
			case u.Op == OStr:
				if ok, _ := regexp.MatchString("^(?:"+s.src+")$", u.Aux); !ok {
					res = mMaybe
				}
				bind[s.name] = u
			default:
				cl, _ := w.classOf(u)
				if cl == "" || !covers(s.re, cl) {
					res = mMaybe
				}
				bind[s.name] = u
			}
			if res != mYes {
				break
			}
		}
		if res == mYes {
			return mYes
		}
	}
	// a character of the URL that nothing in the pattern can take
	for _, u := range url {
		if u.Op != OStr {
			continue
		}
		for _, r := range u.Aux {
			can := false
			for _, s := range pat {
				can = can || s.re == nil && strings.ContainsRune(s.lit, r) || s.re != nil && canHave(s.re, r)
			}
			if !can {
				return mNo
			}
		}
	}
	// one that the pattern needs and the URL cannot have
	for _, s := range pat {
		for _, r := range s.lit {
			can := false
			for _, u := range url {
				if u.Op == OStr {
					can = can || strings.ContainsRune(u.Aux, r)
				} else {
					cl, _ := w.classOf(u)
					can = can || hasAny(cl, string(r))
				}
			}
			if !can {
				return mNo
			}
		}
	}
	return mMaybe
}

func canHave(re *syntax.Regexp, r rune) bool {
	switch re.Op {
	case syntax.OpLiteral:
		return strings.ContainsRune(string(re.Rune), r)
	case syntax.OpCharClass:
		return inClass(re, string(r))
	}
	if len(re.Sub) == 0 {
		return re.Op == syntax.OpAnyChar || re.Op == syntax.OpAnyCharNotNL
	}
	for _, s := range re.Sub {
		if canHave(s, r) {
			return true
		}
	}
	return false
}

// takes: whether the route's pattern matches the URL.
func (w *wire) takes(r *route, url [][]*Term, bind map[string]*Term) int {
	if r.Pattern == "" {
		return mYes
	}
	pat, err := parseRoute(r.Pattern)
	if err != nil {
		return mMaybe
	}
	for _, s := range pat {
		for _, x := range s {
			if x.re != nil && canHave(x.re, '/') {
				return mMaybe
			}
		}
	}
	if len(pat) != len(url) {
		return mNo
	}
	res := mYes
	for i := range pat {
		switch w.matchSeg(url[i], pat[i], bind) {
		case mNo:
			return mNo
		case mMaybe:
			res = mMaybe
		}
	}
	return res
}

// routeOf gives the route that answers a request.
func (w *wire) routeOf(rs []*route, method string, url [][]*Term) (*route, map[string]*Term, string) {
	why := "no route matches it"
	for _, r := range rs {
		if len(r.Methods) > 0 {
			ok := false
			for _, m := range r.Methods {
				ok = ok || m == method
			}
			if !ok {
				continue
			}
		}
		bind := map[string]*Term{}
		switch w.takes(r, url, bind) {
		case mYes:
			return r, bind, ""
		case mMaybe:
			return nil, nil, "the route " + strings.Join(r.Methods, "|") + " " + r.Pattern + " takes it for some values only"
		}
	}
	return nil, nil, why
}

// sent is a request the client makes.
type sent struct {
	method string
	url    *Term // after the base URL
	body   *Term
	heads  map[string][]*Term
	do     *Event
	p      *Path
	facts  []Lit
}

func (c *Check) exploreArgs(fn *ssa.Function, args []*Term, conf func(*Explorer), facts ...Lit) *exploration {
	ex := c.w.explorer()
	if conf != nil {
		conf(ex)
	}
	e := &exploration{ex: ex, fn: fn}
	e.paths = ex.Run(ex.Start(fn, args, nil, facts...))
	c.account(ex, len(e.paths))
	for _, u := range ex.Undec {
		c.fail("undecided", u, fn.Pos(), "the analysis of %s could not decide: %s", fn, u)
	}
	return e
}

// headerSets collects the headers set on h before an event: by name, with the
// loops that add more.
func headerSets(p *Path, isH func(*Term) bool, until *Event) (map[string][]*Term, string) {
	heads := map[string][]*Term{}
	for _, ev := range p.St.events {
		if ev == until {
			break
		}
		if ev.Kind == EMapSet && isH(ev.Loc) {
			return nil, "a header is set in a way the analysis does not follow"
		}
		if ev.Kind != ECall || !strings.HasPrefix(ev.Callee, "(net/http.Header).") || len(ev.Args) < 2 || !isH(ev.Args[0]) {
			continue
		}
		m := strings.TrimPrefix(ev.Callee, "(net/http.Header).")
		if m == "Get" || m == "Values" {
			continue
		}
		if ev.Args[1].Op != OStr {
			return nil, "a header's name is not constant"
		}
		n := canonicalHeader(ev.Args[1].Aux)
		switch m {
		case "Set":
			heads[n] = []*Term{ev.Args[2]}
		case "Add":
			heads[n] = append(heads[n], ev.Args[2])
		case "Del":
			delete(heads, n)
		default:
			return nil, "a header is changed in a way the analysis does not follow"
		}
	}
	return heads, ""
}

// requestOf reads the request off a client partition.
func (c *Check) requestOf(op string, p *Path, recv *Term) (*sent, string) {
	var nr, do *Event
	for _, ev := range p.St.events {
		switch ev.Callee {
		case "net/http.NewRequest", "net/http.NewRequestWithContext":
			nr = ev
		case "(*net/http.Client).Do":
			if do != nil {
				return nil, "two requests are made"
			}
			do = ev
		}
	}
	if do == nil {
		return nil, ""
	}
	if nr == nil || do.Args[1] != nr.Res[0] {
		return nil, "the request is not the one built by http.NewRequest"
	}
	a := nr.Args
	if len(a) == 4 {
		a = a[1:]
	}
	s := &sent{do: do, p: p}
	if a[0].Op != OStr {
		return nil, "the method is not constant"
	}
	if s.method = a[0].Aux; s.method == "" {
		s.method = "GET"
	}
	parts := textParts(a[1])
	if len(parts) == 0 || parts[0] != SF(recv, "BaseURL") {
		return nil, "the URL does not start with the base URL"
	}
	s.url = text(parts[1:])
	b := unIface(nr.Snap[len(nr.Snap)-1])
	switch {
	case b.IsNil() || b.Op == OGlobal:
		s.body = Str("")
	case b.Op == OApp && (b.Aux == "bytes.NewReader" || b.Aux == "strings.NewReader"):
		s.body = b.Args[0]
	default:
		return nil, "the body is not built from known bytes: " + brief(b)
	}
	for _, ev := range p.St.events {
		if ev == do {
			break
		}
		if ev.Kind == EStore && addrBase(ev.Loc) == nr.Res[0] {
			return nil, "the request is changed after it was built"
		}
		if ev.Kind == ELoop {
			for _, it := range ev.Loop.Iters {
				for _, x := range iterEvents(ev.Loop, it) {
					if strings.HasPrefix(x.Callee, "(net/http.Header).") {
						return nil, "headers are set in a loop"
					}
				}
			}
		}
	}
	var why string
	if s.heads, why = headerSets(p, func(t *Term) bool {
		return t == SF(nr.Res[0], "Header") || isHTTP(t, "Header") && t.Any(func(x *Term) bool { return x == nr.Res[0] })
	}, do); why != "" {
		return nil, why
	}
	return s, ""
}

func (s *sent) key() string {
	k := s.method + " " + s.url.String() + " " + s.body.String()
	var ns []string
	for n := range s.heads {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		k += "\n" + n
		for _, v := range s.heads[n] {
			k += ":" + v.String()
		}
	}
	return k
}

type restCase struct {
	name  string
	facts []Lit
}

func checkC24(c *Check) {
	t := c.dialled("server/httprest")
	routes := c.restRoutes()
	if t == nil || len(routes) == 0 {
		return
	}
	for _, op := range serviceOpNames {
		fn := c.method(derefType(t), op)
		if fn == nil || fn.Synthetic != "" {
			c.fail("client-implements", op, 0, "the REST client does not implement %s", op)
			continue
		}
		recv := typedSym("p:the client", fn.Params[0].Type())
		ctx := typedSym("p:the client's context", fn.Params[1].Type())
		req := typedSym("p:the client's request", fn.Params[2].Type())
		base := []Lit{litNil(recv).Not(), litNil(req).Not(), litNil(ctx).Not()}
		class := map[*Term]string{}
		ref := SF(req, "Map")
		isLog := strings.HasPrefix(op, "Log")
		if isLog {
			ref = SF(req, "Log")
		}
		acc := SF(ref, "Account")
		base = append(base, litNil(ref).Not(), litNil(acc).Not())
		class[SF(acc, "Id")], class[SF(acc, "ApiKey")], class[SF(ref, "Name")] = clDigits, clKey, clName
		st := derefType(req.Type).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Exported() {
				continue
			}
			x := SF(req, f.Name())
			switch {
			case isIntType(f.Type()):
				base = append(base, litLE(tZeroI, x))
			case f.Name() == "Key":
				base = append(base, litLE(Int(1), LenOf(x)))
			case f.Name() == "Value":
				base = append(base, litNil(x).Not())
			}
		}
		cases := []restCase{{"", nil}}
		if isLog {
			cases = nil
			for k, n := range logTypeNames {
				cases = append(cases, restCase{n, []Lit{litEQ0(AddC(SF(ref, "LogType"), -int64(k)))}})
			}
		}
		if op == "MapSetValue" {
			mut := SF(req, "Mutation")
			cases = nil
			for _, a := range []string{"set", "delete", "update"} {
				fs := []Lit{litNil(mut).Not(), litEQ(SF(mut, "Action"), Str(a)), litLE(Int(1), LenOf(SF(mut, "Key")))}
				if a != "delete" {
					fs = append(fs, litNil(SF(mut, "Value")).Not())
				}
				cases = append(cases, restCase{a, fs})
			}
		}
		for _, cs := range cases {
			name := strings.TrimSpace(op + " " + cs.name)
			facts := append(append([]Lit(nil), base...), cs.facts...)
			c.restAgree(name, op, fn, []*Term{recv, ctx, req}, facts, class, routes)
		}
	}
	c.min("requests matched", 20)
	c.min("calls compared", 80)
	c.min("answers decoded", 20)
}

func (c *Check) restAgree(name, op string, fn *ssa.Function, args []*Term, facts []Lit, class map[*Term]string, routes [][]*route) {
	e := c.exploreArgs(fn, args, nil, facts...)
	recv, req := args[0], args[2]
	done := map[string]bool{}
	for _, p := range e.paths {
		f := p.facts()
		if f.dead || p.End != "return" {
			continue
		}
		s, why := c.requestOf(op, p, recv)
		if why != "" {
			c.fail("client-request", name, p.Pos, "the REST client's request for %s is not understood: %s", name, why)
			continue
		}
		if s == nil {
			c.must(failedStep(p, f, func(*Event) bool { return true }), "client-sends", name, p.Pos, "the REST client can return from %s without having sent a request", name)
			continue
		}
		k := s.key()
		if done[k] {
			continue
		}
		done[k] = true
		for _, l := range f.lits {
			if l.A.Any(func(t *Term) bool { return t == req }) && !l.A.Any(func(t *Term) bool { return t.Op == ORes }) {
				s.facts = append(s.facts, l)
			}
		}
		c.count("requests matched")
		answers := map[string]bool{}
		for _, rs := range routes {
			w := &wire{heads: s.heads, body: s.body, class: class}
			r, bind, why := w.routeOf(rs, s.method, urlSegments(s.url))
			if !c.must(r != nil, "route-matches", name, s.do.Pos, "the REST client's request for %s, %s %s: %s", name, s.method, brief(s.url), why) {
				continue
			}
			w.vars = bind
			q := *r.P
			qs := *r.P.St
			q.St = &qs
			qs.facts = qs.facts.clone()
			for _, l := range s.facts {
				qs.facts.add(l)
			}
			re := c.exploreFrom(r.Fn, &q, r.Args, r.Free, func(ex *Explorer) { ex.wire = w })
			rn := strings.Join(r.Methods, "|") + " " + r.Pattern
			for _, sp := range re.paths {
				sf := sp.facts()
				if sf.dead || sp.End != "return" {
					continue
				}
				var call *Event
				n := 0
				for _, ev := range sp.St.events {
					if isServiceCall(ev) {
						call, n = ev, n+1
					}
				}
				if !c.must(n == 1, "request-accepted", name, sp.Pos, "%s can finish without a call of the service for the client's %s", rn, name) {
					continue
				}
				if !c.must(strings.HasSuffix(call.Callee, ")."+op), "same-operation", name, call.Pos, "%s calls %s for the client's %s", rn, call.Callee, name) {
					continue
				}
				c.count("calls compared")
				c.sameRequest(name, rn, call, sf, call.Snap[2], req, "")
				if !sf.Implies(litNil(errOf(call))) {
					continue
				}
				c.answerDecoded(name, op, rn, fn, args, facts, s, sp, re, call, answers)
			}
		}
	}
	c.must(len(done) > 0, "client-sends", name, fn.Pos(), "the REST client never sends a request for %s", name)
}

// sameRequest compares, field by field, what the service is given with what the
// client was given.
func (c *Check) sameRequest(name, rn string, call *Event, f *Facts, got, want *Term, path string) {
	st, ok := derefType(want.Type).Underlying().(*types.Struct)
	if !ok {
		return
	}
	isMut := isNamedType(want.Type, "pb.MapMutation")
	for i := 0; i < st.NumFields(); i++ {
		fd := st.Field(i)
		if !fd.Exported() {
			continue
		}
		fp := strings.TrimPrefix(path+"."+fd.Name(), ".")
		g, w := SF(got, fd.Name()), SF(want, fd.Name())
		switch {
		case fd.Name() == "LeafIndex" && f.Implies(litLE(Int(1), LenOf(SF(want, "MtlHash")))):
			continue // the hash decides
		case isMut && fd.Name() == "Timestamp":
			continue // set by the service
		case isMut && fd.Name() == "Value" && f.Implies(litEQ(SF(want, "Action"), Str("delete"))),
			isMut && fd.Name() == "PreviousLeafHash" && !f.Implies(litEQ(SF(want, "Action"), Str("update"))):
			continue // not used by the action
		}
		if g == nil {
			c.fail("same-field", name+" "+fp, call.Pos, "%s gives the service no known %s for %s", rn, fp, name)
			continue
		}
		if pt, ok := fd.Type().Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
				if !c.must(f.Implies(litNil(g).Not()) || g.Op == OApp && g.Aux == "&", "same-field", name+" "+fp, call.Pos, "%s can give the service no %s for %s", rn, fp, name) {
					continue
				}
				if g.Op == OApp && g.Aux == "&" && g.Args[0].Op == ODeref && g.Args[0].Args[0] == w {
					continue
				}
				c.sameRequest(name, rn, call, f, g, w, fp)
				continue
			}
		}
		c.count("fields compared")
		c.must(sameValue(f, g, w), "same-field", name+" "+fp, call.Pos, "%s gives the service %s as %s for the client's %s of %s", rn, brief(g), fp, brief(w), name)
	}
}

func sameValue(f *Facts, g, w *Term) bool {
	if g == w || eqv(f, g, w) {
		return true
	}
	empty := func(t *Term) bool {
		return isZeroConst(t) || t.IsNil() || t.Op == OList && len(t.Args) == 0 || (t.Type == nil || !isIntType(t.Type)) && !t.IsInt() && f.Implies(litEQ0(LenOf(t)))
	}
	if isIntType(w.Type) {
		return f.Implies(litEQ0(Sub(g, w)))
	}
	return empty(g) && empty(w)
}

// answerDecoded gives the route's answer to the client.
func (c *Check) answerDecoded(name, op, rn string, fn *ssa.Function, args []*Term, facts []Lit, s *sent, sp *Path, re *exploration, call *Event, done map[string]bool) {
	st, _, _, first := written(sp)
	if st == nil || !st.IsInt() || st.I != 200 {
		return // C25
	}
	resp := call.Res[0]
	isH := func(t *Term) bool {
		ev, ok := t.Obj.(*Event)
		return ok && t.Op == ORes && strings.HasSuffix(ev.Callee, "ResponseWriter).Header")
	}
	heads, why := headerSets(sp, isH, first)
	if why != "" {
		c.fail("answer-headers", name, first.Pos, "the headers %s sends are not understood: %s", rn, why)
		return
	}
	// headers added for each element of a list of the response
	type adder struct {
		name        string
		list        string
		val         *Term
		index, elem *Term
	}
	var adds []adder
	for _, ev := range sp.St.events {
		if ev == first {
			break
		}
		if ev.Kind != ELoop {
			continue
		}
		for _, it := range ev.Loop.Iters {
			var add []*Event
			for _, x := range iterEvents(ev.Loop, it) {
				if strings.HasPrefix(x.Callee, "(net/http.Header).") && len(x.Args) > 2 {
					add = append(add, x)
				}
			}
			// the element of this iteration
			var seq, el *Term
			look := func(t *Term) bool {
				if t.Op == OElem && t.Args[1] == ev.Loop.N {
					seq, el = t.Args[0], t
				}
				return false
			}
			for _, l := range it.facts().lits {
				l.A.Any(look)
			}
			for _, x := range add {
				x.Args[2].Any(look)
			}
			if seq == nil {
				if len(add) > 0 {
					c.fail("answer-headers", name, add[0].Pos, "%s sends headers in a loop that is not over a list of the response", rn)
				}
				continue
			}
			if len(add) == 0 {
				if it.End != "return" && it.End != "backedge" && it.End != "probe" && it.End != "stop" {
					continue
				}
				c.must(it.facts().dead || it.facts().Implies(litEQ0(LenOf(el))), "answer-elements", name, it.Pos, "%s can leave a non-empty element of the response's list out of the headers", rn)
				continue
			}
			x := add[0]
			if !c.must(len(add) == 1 && x.Callee == "(net/http.Header).Add" && x.Args[1].Op == OStr && isH(x.Args[0]) && seq.Op == OField, "answer-headers", name, x.Pos, "%s does not send one header value for each element: %s", rn, brief(x.Args[2])) {
				continue
			}
			adds = append(adds, adder{canonicalHeader(x.Args[1].Aux), seq.Aux, x.Args[2], ev.Loop.N, el})
		}
	}
	if len(adds) > 1 {
		for _, a := range adds[1:] {
			if a.val != adds[0].val || a.name != adds[0].name {
				c.fail("answer-headers", name, first.Pos, "%s sends the elements of a list in different ways", rn)
				return
			}
		}
	}
	// the body
	var body *Term
	for _, ev := range sp.St.events {
		if ev.Kind != ECall {
			continue
		}
		switch {
		case ev.Callee == "(*encoding/json.Encoder).Encode":
			if body != nil {
				body = nil
				goto out
			}
			body = App("json.Marshal", nil, unIface(ev.Snap[1]))
		case strings.HasSuffix(ev.Callee, "http.ResponseWriter).Write"):
			if body != nil {
				body = nil
				goto out
			}
			body = ev.Snap[1]
		}
	}
	if body == nil && failedStep(sp, sp.facts(), func(x *Event) bool { return x.Callee == "encoding/json.Marshal" }) {
		return // the response could not be encoded
	}
out:
	if !c.must(body != nil, "answer-body", name, first.Pos, "%s does not send one body with the service's response to %s", rn, name) {
		return
	}
	k := body.String()
	var ns []string
	for n, vs := range heads {
		ns = append(ns, fmt.Sprint(n, vs))
	}
	sort.Strings(ns)
	k += strings.Join(ns, "\n")
	for _, a := range adds {
		k += a.name + a.val.String()
	}
	if done[k] {
		return
	}
	done[k] = true
	c.count("answers decoded")
	I, J, K := typedSym("p:one index", types.Typ[types.Int]), typedSym("p:another index", types.Typ[types.Int]), typedSym("p:any other index", types.Typ[types.Int])
	bs := types.NewSlice(types.Typ[types.Byte])
	P, Q := typedSym("p:one element", bs), typedSym("p:another element", bs)
	more := append(append([]Lit(nil), facts...), s.facts...)
	for _, l := range sp.facts().lits {
		if l.A.Any(func(t *Term) bool { return t == resp }) && !l.A.Any(func(t *Term) bool { return t.Op == ORes && t != resp }) {
			more = append(more, l)
		}
	}
	for _, x := range []*Term{I, J, K} {
		more = append(more, litLE(tZeroI, x), litLT(x, Int(256)))
	}
	more = append(more, litEQ0(Sub(I, J)).Not(), litEQ0(Sub(I, K)).Not(), litEQ0(Sub(J, K)).Not(), litLE(Int(1), LenOf(P)), litLE(Int(1), LenOf(Q)))
	rounds := 1
	if len(adds) > 0 {
		rounds = 3
	}
	for n := 0; n < rounds; n++ {
		w := &wire{heads: map[string][]*Term{}, body: body, class: map[*Term]string{}}
		for h, vs := range heads {
			w.heads[h] = vs
		}
		var sentEls [][2]*Term
		if n > 0 {
			a := adds[0]
			for _, x := range [][2]*Term{{I, P}, {J, Q}}[:n] {
				v := Subst(a.val, map[*Term]*Term{a.elem: x[1]})
				v = Subst(v, map[*Term]*Term{a.index: x[0]})
				w.heads[a.name] = append(append([]*Term(nil), w.heads[a.name]...), v)
				sentEls = append(sentEls, x)
			}
		}
		ce := c.exploreArgs(fn, args, func(ex *Explorer) { ex.wire = w }, more...)
		seen := false
		for _, p := range ce.paths {
			f := p.facts()
			if f.dead || p.End != "return" {
				continue
			}
			r, why := c.requestOf(op, p, args[0])
			if why != "" || r == nil || r.key() != s.key() || !succeeded(f, r.do) || !f.Implies(litEQ0(AddC(SF(r.do.Res[0], "StatusCode"), -200))) {
				continue
			}
			if !c.must(f.Implies(litNil(p.retErr())), "answer-accepted", name, p.Pos, "the REST client's %s fails on the answer %s sends: %s", name, rn, brief(p.retErr())) {
				continue
			}
			seen = true
			got := c.snapResult(ce, p, 0, fn)
			st := derefType(resp.Type).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				fd := st.Field(i)
				if !fd.Exported() {
					continue
				}
				c.count("answer fields compared")
				if len(adds) > 0 && adds[0].list == fd.Name() {
					v := ce.ex.load(p.St, FieldAddr(p.Results[0], fd.Name()), fd.Type())
					at := func(i *Term) *Term { return ce.ex.content(p.St, ce.ex.load(p.St, IndexAddr(v, i), bs)) }
					for _, x := range sentEls {
						c.must(at(x[0]) == x[1], "answer-elements", name+" "+fd.Name(), p.Pos, "the REST client's %s returns %s where the response's %s has an element", name, brief(at(x[0])), fd.Name())
					}
					k := at(K)
					c.must(k.IsNil() || k.Op == OZero || isZeroConst(k) || k == tEmpty, "answer-elements", name+" "+fd.Name(), p.Pos, "the REST client's %s returns %s where the response's %s is empty", name, brief(k), fd.Name())
					continue
				}
				g, w := SF(got, fd.Name()), SF(resp, fd.Name())
				ok := g != nil && (sameValue(f, g, w) || g.Op == OApp && g.Aux == "&" && sameContent(g.Args[0], w))
				c.must(ok, "answer-field", name+" "+fd.Name(), p.Pos, "the REST client's %s returns %s as %s of the response", name, brief(g), fd.Name())
			}
		}
		c.must(seen, "answer-accepted", name, fn.Pos(), "the REST client's %s never accepts the answer %s sends", name, rn)
	}
}

// sameContent: v is what the pointer p points to.
func sameContent(v, p *Term) bool {
	if v.Op == ODeref {
		return v.Args[0] == p
	}
	return false
}
