package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C13", checkC13, "path-sensitive dataflow over the SSA form of each read operation: linear bounds between every size, index and storage key and the published size read on the same path",
		"On every partition of the six read operations: a success has read the size record and resolved size 0 to it; every size of the request is known to be >= 0 and <= the published size on success; every log or map record read is addressed by an index or size known to be within the published size at that point (or a range of merkle.Path/SubProof for such a size, or a child link of a node of such a map); a request known to be out of range ends in InvalidArgument (an entry index or leaf hash in NotFound) and InvalidArgument is never answered without such a reason.")
}

var readOps = map[string][]string{
	"LogTreeHash":         {"TreeSize"},
	"LogFetchEntries":     {"First", "Last"},
	"LogInclusionProof":   {"TreeSize"},
	"LogConsistencyProof": {"FromSize", "TreeSize"},
	"MapGetValue":         {"TreeSize"},
	"MapTreeHash":         {"TreeSize"},
}

// reqSize is the size field meant by a read operation ("last" for fetches).
func sizeField(op string) string {
	if op == "LogFetchEntries" {
		return "Last"
	}
	return "TreeSize"
}

func le(f *Facts, a, b *Term) bool { return f.Implies(litLE(a, b)) }
func lt(f *Facts, a, b *Term) bool { return f.Implies(litLT(a, b)) }
func eqi(f *Facts, a, b *Term) bool {
	return a != nil && b != nil && (a == b || f.Implies(litEQ0(Sub(a, b))))
}

// withNonNeg: sizes recorded in storage are not negative (they are written by the
// application of mutations only).
func withNonNeg(f *Facts, pub *Term) *Facts {
	if pub == nil {
		return f
	}
	g := f.clone()
	g.add(litLE(tZeroI, pub))
	return g
}

// absurd: no execution satisfies the facts.
func (f *Facts) absurd() bool { return f.dead || f.Implies(litLE(tOne, tZeroI)) }

// resolvedSize: the size the path serves: the requested one, or the published
// one for 0. "" if n is that.
func resolvedSize(f *Facts, n, req, pub *Term) string {
	if n == nil || pub == nil {
		return "no published size was read"
	}
	zero, non := litEQ0(req), litEQ0(req).Not()
	if !f.Implies(zero) && !eqi(f, n, req) {
		return fmt.Sprintf("the size is %s, not the requested %s", brief(n), brief(req))
	}
	if !f.Implies(non) && !eqi(f, n, pub) {
		// zero is possible: then the size must be the published one
		g := f.clone()
		if g.add(zero) && !eqi(g, n, pub) {
			return fmt.Sprintf("for a request of 0 the size is %s, not the published %s", brief(n), brief(pub))
		}
	}
	return ""
}

// boundedRange: t is an end point of a range produced by merkle.Path or SubProof
// for a tree of at most pub entries.
func boundedRange(p *Path, f *Facts, t, pub *Term) bool {
	if t == nil || t.Op != OElem || t.Args[0].Op != OElem {
		return false
	}
	r := t.Args[0].Args[0]
	if r.Op != ORes {
		return false
	}
	e, _ := r.Obj.(*Event)
	if e == nil || len(e.Args) < 3 {
		return false
	}
	switch {
	case strings.HasSuffix(e.Callee, "/merkle.Path"):
		i, lo, n := e.Args[0], e.Args[1], e.Args[2]
		return mustBe(f, lo, 0) && le(f, n, pub) && le(f, tZeroI, i) && lt(f, i, n)
	case strings.HasSuffix(e.Callee, "/merkle.SubProof"):
		m, lo, n := e.Args[0], e.Args[1], e.Args[2]
		return mustBe(f, lo, 0) && le(f, n, pub) && le(f, Int(1), m) && le(f, m, n)
	}
	return false
}

func checkC13(c *Check) {
	st := c.storage()
	for _, o := range c.serviceOps() {
		fields, isRead := readOps[o.Name]
		if !isRead {
			for _, p := range o.e.paths {
				for _, e := range p.St.events {
					c.must(!isGet(e), "writes-do-not-read", o.Name, e.Pos, "%s reads stored records", o.Name)
				}
			}
			continue
		}
		served := false
		for _, p := range o.e.paths {
			f := p.facts()
			// records read
			for _, e := range p.St.events {
				if !isGet(e) {
					continue
				}
				r := recordOf(e)
				fa := p.at(e)
				if r == nil {
					c.fail("storage-key", o.Name, e.Pos, "%s reads under the key %s", o.Name, brief(e.Snap[2]))
					continue
				}
				c.count("records read")
				if e.Snap[2] == c.sizeKey() {
					continue
				}
				pub, ok := c.published(p, fa)
				if !c.must(ok || r.msg == "pb.EntryIndex", "size-first", o.Name+" "+r.msg, e.Pos, "%s reads a %s before it knows the published size", o.Name, r.msg) {
					continue
				}
				why := c.boundedRead(p, withNonNeg(fa, pub), e, r, pub)
				c.must(why == "", "bounded-read", o.Name+" "+r.msg, e.Pos, "%s reads a %s that may lie beyond the published size: %s", o.Name, r.msg, why)
			}
			if p.End != "return" {
				continue
			}
			pub, okp := c.published(p, f)
			f = withNonNeg(f, pub)
			if f.absurd() {
				continue // only with a negative size in storage
			}
			reqS := func(n string) *Term { return SF(o.Req, n) }
			if p.maySucceed() {
				served = true
				c.count("successes")
				if !c.must(okp, "size-read", o.Name, p.Pos, "%s can succeed without having read the published size", o.Name) {
					continue
				}
				for _, n := range fields {
					c.must(le(f, tZeroI, reqS(n)), "not-negative", o.Name+" "+n, p.Pos, "%s can succeed with a negative %s", o.Name, n)
					c.must(le(f, reqS(n), pub), "within-published", o.Name+" "+n, p.Pos, "%s can succeed with %s beyond the published size", o.Name, n)
				}
				c.servedSize(o, p, f, pub)
				continue
			}
			code, isStatus := statusCode(p.retErr())
			granted := false
			for _, v := range consults(p) {
				granted = granted || succeeded(f, v)
			}
			if !granted {
				continue
			}
			// known out of range: must be InvalidArgument
			for _, n := range fields {
				if f.Implies(litLT(reqS(n), tZeroI)) {
					c.count("negative")
					c.must(isStatus && code == 3, "negative-invalid", o.Name+" "+n, p.Pos, "%s answers a negative %s with %s", o.Name, n, brief(p.retErr()))
				} else if okp && f.Implies(litLT(pub, reqS(n))) {
					c.must(isStatus && code == 3, "beyond-invalid", o.Name+" "+n, p.Pos, "%s answers a %s beyond the published size with %s", o.Name, n, brief(p.retErr()))
				}
			}
			if isStatus && code == 3 {
				c.count("InvalidArgument answers")
				why := c.invalidReason(o, p, f, pub, okp)
				c.must(why, "invalid-needs-reason", o.Name, p.Pos, "%s answers InvalidArgument although nothing about the request is known to be out of range", o.Name)
			}
			if isStatus && code == 5 {
				c.count("NotFound answers")
				c.must(c.notFoundReason(o, p, f, pub, okp), "notfound-needs-reason", o.Name, p.Pos, "%s answers NotFound although the entry is not known to be beyond the published size or unrecorded", o.Name)
			}
		}
		c.must(served, "serves", o.Name, o.Fn.Pos(), "%s never succeeds", o.Name)
	}
	_ = st
	c.min("records read", 20)
	c.min("successes", 6)
	c.min("negative", 6)
}

// boundedRead: "" if the record read belongs to the published tree.
func (c *Check) boundedRead(p *Path, f *Facts, e *Event, r *record, pub *Term) string {
	num := func(t *Term, max *Term, what string) string {
		if le(f, tZeroI, t) && le(f, t, max) || boundedRange(p, f, t, pub) || c.walked(p, f, t, pub) {
			return ""
		}
		return what + " " + brief(t) + " is not known to be within " + brief(max)
	}
	switch r.msg {
	case "pb.LeafNode":
		n, ok := be64s(r.rest, 1)
		if !ok {
			return "unreadable key " + brief(e.Snap[2])
		}
		return num(n[0], AddC(pub, -1), "index")
	case "pb.TreeNode":
		n, ok := be64s(r.rest, 2)
		if !ok {
			return "unreadable key " + brief(e.Snap[2])
		}
		if w := num(n[0], pub, "range start"); w != "" {
			return w
		}
		return num(n[1], pub, "range end")
	case "pb.LogTreeHash":
		n, ok := be64s(r.rest, 1)
		if !ok {
			return "unreadable key " + brief(e.Snap[2])
		}
		return num(n[0], pub, "size")
	case "pb.MapNode":
		if len(r.rest) == 0 {
			return "unreadable key " + brief(e.Snap[2])
		}
		n, ok := be64s(r.rest[:1], 1)
		if !ok {
			return "unreadable key " + brief(e.Snap[2])
		}
		if c.mapLink(p, n[0]) {
			return ""
		}
		return num(n[0], pub, "map number")
	case "pb.LeafData":
		if len(r.rest) != 1 {
			return "unreadable key " + brief(e.Snap[2])
		}
		h := r.rest[0]
		for _, t := range c.valuesOf(p, h, 0) {
			if g := getField(t, "Mth"); g != nil {
				if gr := recordOf(g); gr != nil && gr.msg == "pb.LeafNode" {
					continue // bounded where it is read
				}
			}
			if isMapNodeField(t, "LeafHash") {
				continue
			}
			return "the hash " + brief(t) + " does not come from a published leaf"
		}
		return ""
	case "pb.EntryIndex":
		return "" // only an index; it is bounded before it is used
	}
	return "unknown record"
}

func isMapNodeField(t *Term, name string) bool {
	if t == nil || t.Op != OField || t.Aux != name {
		return false
	}
	x := t.Args[0]
	for x.Op == ODeref || x.Op == OField || x.Op == OApp && x.Aux == "&" {
		x = x.Args[0]
	}
	if x.Type != nil && strings.HasSuffix(x.Type.String(), "pb.MapNode") {
		return true
	}
	if e := outEvent(x); e != nil && isGet(e) && msgType(e, 3) == "pb.MapNode" {
		return true
	}
	return false
}

// mapLink: t is a child number of a map node read before.
func (c *Check) mapLink(p *Path, t *Term) bool {
	return isMapNodeField(t, "LeftNumber") || isMapNodeField(t, "RightNumber")
}

// valuesOf resolves a value read back from a sequence a loop built to the values
// put there.
func (c *Check) valuesOf(p *Path, t *Term, d int) []*Term {
	if t == nil || d > 4 {
		return []*Term{t}
	}
	if t.Op == OElem {
		if cs, _, ok := elemCases(c.w.explorer(), t, types.Typ[types.Byte]); ok {
			var out []*Term
			for _, e := range cs {
				if e.Kept {
					continue
				}
				out = append(out, c.valuesOf(p, e.Raw, d+1)...)
			}
			return out
		}
	}
	return []*Term{t}
}

// walked: t is a position start, start+k of a walk from the start of a bounded
// range to its end.
func (c *Check) walked(p *Path, f *Facts, t, pub *Term) bool {
	if t == nil || t.Op != OElem || t.Args[0].Op != OElem {
		return false
	}
	cs, _, ok := elemCases(c.w.explorer(), t.Args[0], nil)
	if !ok || len(cs) == 0 {
		return false
	}
	for _, e := range cs {
		if e.Kept || e.Raw == nil || e.Raw.Op != OList || len(e.Raw.Args) != 2 {
			return false
		}
		s, end, ok := c.walkOf(e)
		if !ok {
			return false
		}
		if !(boundedRange(p, f, s, pub) || le(f, tZeroI, s)) || !(boundedRange(p, f, end, pub) || le(f, end, pub)) {
			return false
		}
	}
	return true
}

// walkOf: the element [s, s+k] of a loop that walks s from start to end with k
// no larger than what is left.
func (c *Check) walkOf(e *Elem) (start, end *Term, ok bool) {
	s := e.Raw.Args[0]
	v, _ := s.Obj.(*PhiInfo)
	if v == nil || v.Sym != s || v.Inst != e.Loop {
		return nil, nil, false
	}
	k := Sub(e.Raw.Args[1], s)
	// the next start is the end of this range, on the same way round
	var nx *Term
	for i, w := range v.Inst.Vars {
		if w == v && i < len(e.Path.Nexts) {
			nx = e.Path.Nexts[i]
		}
	}
	if nx == nil || Sub(nx, s) != k || k.Op != OApp || k.Aux != fCalcK {
		return nil, nil, false
	}
	// k is the largest power of two not above what is left, and something is left
	end = AddC(Add(k.Args[0], s), -1)
	if end.Contains(s) || !e.F.Implies(litEQ0(Sub(end, s)).Not()) {
		return nil, nil, false
	}
	return v.Init, end, true
}

// servedSize checks what a success is about.
func (c *Check) servedSize(o *OpInfo, p *Path, f *Facts, pub *Term) {
	resp := c.snapResult(o.e, p, 0, o.Fn)
	req := SF(o.Req, sizeField(o.Name))
	switch o.Name {
	case "LogTreeHash", "LogInclusionProof", "LogConsistencyProof", "MapGetValue":
		n := SF(resp, "TreeSize")
		m := resolvedSize(f, n, req, pub)
		c.must(m == "", "resolved-size", o.Name, p.Pos, "%s: %s", o.Name, m)
	case "MapTreeHash":
		n := SF(SF(resp, "MutationLog"), "TreeSize")
		m := resolvedSize(f, n, req, pub)
		c.must(m == "", "resolved-size", o.Name, p.Pos, "%s: %s", o.Name, m)
	case "LogFetchEntries":
		first := SF(o.Req, "First")
		c.must(lt(f, first, pub), "first-published", o.Name, p.Pos, "%s can succeed with a first entry at or beyond the published size", o.Name)
		if !f.Implies(litEQ0(req)) {
			c.must(lt(f, first, req) || f.Implies(litEQ0(req)), "range-not-empty", o.Name, p.Pos, "%s can succeed with an empty or inverted range", o.Name)
		}
	}
	if o.Name == "LogInclusionProof" {
		i, n := SF(resp, "LeafIndex"), SF(resp, "TreeSize")
		c.must(i != nil && n != nil && le(f, tZeroI, i) && lt(f, i, n) && le(f, n, pub), "index-published", o.Name, p.Pos, "%s proves an index that may lie outside the published tree: %s", o.Name, brief(i))
	}
	if o.Name == "LogConsistencyProof" {
		a, b := SF(resp, "FromSize"), SF(resp, "TreeSize")
		c.must(a != nil && b != nil && le(f, Int(1), a) && lt(f, a, b) && le(f, b, pub), "sizes-published", o.Name, p.Pos, "%s proves sizes that may lie outside the published tree", o.Name)
	}
}

// makesError: the call only builds an error value.
func makesError(e *Event) bool {
	return strings.HasPrefix(e.Callee, "google.golang.org/grpc/status.") || strings.HasPrefix(e.Callee, "google.golang.org/grpc/internal/status.") ||
		strings.HasPrefix(e.Callee, "fmt.") || strings.HasPrefix(e.Callee, "errors.")
}

// failedStep: some step of the path reported an error.
func failedStep(p *Path, f *Facts, allow func(e *Event) bool) bool {
	for _, e := range p.St.events {
		if e.Kind == ECall && !makesError(e) && allow(e) && failed(f, e) {
			return true
		}
		if e.Kind == ETxEnd && (e.Callee == "notrun" || e.Callee == "commitfailed") {
			return true
		}
	}
	return false
}

func (c *Check) invalidReason(o *OpInfo, p *Path, f *Facts, pub *Term, okp bool) bool {
	fs := readOps[o.Name]
	rq := func(n string) *Term { return SF(o.Req, n) }
	for _, n := range fs {
		if f.Implies(litLT(rq(n), tZeroI)) || okp && f.Implies(litLT(pub, rq(n))) {
			return true
		}
	}
	if failedStep(p, f, func(e *Event) bool { return !strings.Contains(e.Callee, "VerifyAllowed") }) {
		return true
	}
	if o.Name == "LogConsistencyProof" && le(f, rq("FromSize"), tZeroI) {
		return true
	}
	size := rq(sizeField(o.Name))
	isZero, nonZero := f.Implies(litEQ0(size)), f.Implies(litEQ0(size).Not())
	// the size in force
	var n *Term
	switch {
	case isZero && okp:
		n = pub
	case nonZero:
		n = size
	}
	if n == nil {
		return false
	}
	switch o.Name {
	case "LogFetchEntries":
		return le(f, n, rq("First"))
	case "LogConsistencyProof":
		return le(f, rq("FromSize"), tZeroI) || le(f, n, rq("FromSize")) || le(f, n, tZeroI)
	case "LogInclusionProof":
		if !okp {
			return false
		}
		for _, i := range c.leafIndexes(o, p, f) {
			// an index beyond the published tree is a NotFound
			if le(f, n, i) && lt(f, i, pub) {
				return true
			}
		}
	}
	return false
}

// leafIndexes: the index the inclusion proof request means on this path.
func (c *Check) leafIndexes(o *OpInfo, p *Path, f *Facts) []*Term {
	h := SF(o.Req, "MtlHash")
	if eqv(f, h, tEmpty) {
		return []*Term{SF(o.Req, "LeafIndex")}
	}
	var out []*Term
	for _, e := range p.St.events {
		if isGet(e) && succeeded(f, e) {
			if r := recordOf(e); r != nil && r.msg == "pb.EntryIndex" && len(r.rest) == 1 && eqv(f, r.rest[0], h) {
				out = append(out, SF(e.Outs[3], "Index"))
			}
		}
	}
	return out
}

func (c *Check) notFoundReason(o *OpInfo, p *Path, f *Facts, pub *Term, okp bool) bool {
	for _, e := range p.St.events {
		if isGet(e) && failed(f, e) {
			return true
		}
	}
	if o.Name == "LogInclusionProof" && okp {
		for _, i := range c.leafIndexes(o, p, f) {
			if f.Implies(litLT(i, tZeroI)) || le(f, pub, i) {
				return true
			}
		}
	}
	// a record that has to be there is blank
	for _, l := range f.lits {
		if l.A.Op == OEQ0 && !l.Neg && l.A.Args[0].Op == OLen {
			return true
		}
	}
	return false
}
