package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C14", checkC14, "path-sensitive dataflow over the SSA form of each read operation: provenance terms of every response field and element rules for the lists built in loops",
		"On every partition of the six read operations that can succeed: a root hash is the Mth of the root record of the response's log type and size (empty for size 0), a map root is the hash of the root node read for the size; value i of a fetch has the leaf input stored under the hash of leaf first+i and the list has one value per index up to last; a proof names the requested (or looked up) index and resolved sizes, and its audit path has one element per range of merkle.Path or SubProof for exactly those, each the Mth of the leaf or tree node record of that range known not to be blank, or the fold of the records of the pieces of that range; a map value is the stored data of the leaf found by descending the key's path, or empty when that leaf is absent, of another key or the null leaf, and its proof holds the other child of every node passed and of the node reached, or the hash of the other key's leaf below the first differing bit.")
}

// stored: the Get of a record of the given kind for log type k under numbers nums.
func (c *Check) storedAt(f *Facts, g *Event, k int, msg string, nums ...*Term) string {
	if g == nil {
		return "it is not read from storage"
	}
	r := recordOf(g)
	if r == nil || r.msg != msg {
		return "it is read from " + brief(g.Snap[2])
	}
	if b := c.storage().bucket(k, msg); b == "" || r.bucket != b {
		return "it is read from bucket " + r.bucket
	}
	if !succeeded(f, g) {
		return "the read of " + brief(g.Snap[2]) + " may have failed"
	}
	x, ok := be64s(r.rest, len(nums))
	if !ok {
		return "it is read under " + brief(g.Snap[2])
	}
	for i := range nums {
		if !eqi(f, x[i], nums[i]) {
			return "it is read under " + brief(g.Snap[2]) + " and not for " + brief(nums[i])
		}
	}
	return ""
}

// rootOfLog: "" if h is the recorded root of log type k at size n.
func (c *Check) rootOfLog(p *Path, f *Facts, h *Term, k int, n *Term) string {
	if h == nil {
		return "there is no root hash"
	}
	if g := getField(h, "Mth"); g != nil {
		return c.storedAt(f, g, k, "pb.LogTreeHash", n)
	}
	if isZeroConst(h) && f.Implies(litEQ0(n)) {
		return ""
	}
	return "the root hash is " + brief(h)
}

// logTypeOn: the log type the path is about.
func logTypeOn(o *OpInfo, f *Facts) int {
	t := SF(o.Ref, "LogType")
	for k := 0; k < 3; k++ {
		if mustBe(f, t, int64(k)) {
			return k
		}
	}
	return -1
}

func checkC14(c *Check) {
	for _, o := range c.serviceOps() {
		if _, isRead := readOps[o.Name]; !isRead {
			continue
		}
		n := 0
		for _, p := range o.e.paths {
			if p.End != "return" || !p.maySucceed() {
				continue
			}
			n++
			f := p.facts()
			pub, ok := c.published(p, f)
			if !c.must(ok, "published-size", o.Name, p.Pos, "%s can succeed without the published size", o.Name) {
				continue
			}
			if f = withNonNeg(f, pub); f.absurd() {
				continue
			}
			c.response(o, p, f, pub)
		}
		c.must(n > 0, "serves", o.Name, o.Fn.Pos(), "%s never succeeds", o.Name)
	}
	c.min("tree hashes", 2)
	c.min("proofs", 2)
	c.min("fetched values", 3)
	c.min("map values", 3)
	c.assumption("records in storage are those the application of mutations wrote (C05, C06, C11, C12)")
}

func (c *Check) response(o *OpInfo, p *Path, f *Facts, pub *Term) {
	resp := c.snapResult(o.e, p, 0, o.Fn)
	req := SF(o.Req, sizeField(o.Name))
	say := func(w, rule, what string) bool {
		return c.must(w == "", rule, o.Name, p.Pos, "%s: %s: %s", o.Name, what, w)
	}
	k := ltMutation
	if !o.IsMap {
		if k = logTypeOn(o, f); !c.must(k >= 0, "log-type", o.Name, p.Pos, "%s succeeds for a log type not known", o.Name) {
			return
		}
	}
	switch o.Name {
	case "LogTreeHash":
		c.count("tree hashes")
		n := SF(resp, "TreeSize")
		say(resolvedSize(f, n, req, pub), "size", "size")
		say(c.rootOfLog(p, f, SF(resp, "RootHash"), k, n), "root", "root hash")
	case "MapTreeHash":
		c.count("tree hashes")
		ml := SF(resp, "MutationLog")
		n := SF(ml, "TreeSize")
		say(resolvedSize(f, n, req, pub), "size", "size")
		say(c.rootOfLog(p, f, SF(ml, "RootHash"), ltMutation, n), "root", "mutation log root hash")
		h := SF(resp, "RootHash")
		w := ""
		if h == nil || h.Op != OApp || h.Aux != fNodeHash || !mustBe(f, h.Args[1], 0) {
			w = "it is " + brief(h)
		} else if !c.rootRead(p, f, h.Args[0], n) {
			w = "it is the hash of " + brief(h.Args[0])
		}
		say(w, "map-root", "map root hash")
	case "LogFetchEntries":
		say(c.fetched(o, p, f, pub, k, SF(resp, "Values")), "values", "values")
	case "LogInclusionProof", "LogConsistencyProof":
		c.count("proofs")
		n := SF(resp, "TreeSize")
		say(resolvedSize(f, n, req, pub), "size", "size")
		var first *Term
		fname := ""
		if o.Name == "LogInclusionProof" {
			first, fname = SF(resp, "LeafIndex"), "merkle.Path"
			w := "the index is " + brief(first)
			for _, i := range c.leafIndexes(o, p, f) {
				if eqi(f, first, i) {
					w = ""
				}
			}
			say(w, "index", "leaf index")
		} else {
			first, fname = SF(resp, "FromSize"), "merkle.SubProof"
			w := ""
			if !eqi(f, first, SF(o.Req, "FromSize")) {
				w = "it is " + brief(first)
			}
			say(w, "index", "from size")
		}
		say(c.auditPath(o.e.ex, p, f, k, SF(resp, "AuditPath"), fname, first, n), "audit-path", "audit path")
	case "MapGetValue":
		c.count("map values")
		n := SF(resp, "TreeSize")
		say(resolvedSize(f, n, req, pub), "size", "size")
		c.mapValue(o, p, f, resp, n)
	}
}

var bytesType = types.NewSlice(types.Typ[types.Byte])

// auditPath: "" if the list holds the hash of every range of fname(first, 0, n).
func (c *Check) auditPath(ex *Explorer, p *Path, f *Facts, k int, list *Term, fname string, first, n *Term) string {
	lv := listOf(ex, p, list, bytesType)
	if lv.Why != "" {
		return lv.Why
	}
	// the ranges
	var rs *Term
	for _, e := range p.St.events {
		if e.Kind != ECall || !strings.HasSuffix(e.Callee, "/"+fname) || len(e.Outs) == 0 && len(e.Res) == 0 {
			continue
		}
		if eqi(f, e.Args[0], first) && mustBe(f, e.Args[1], 0) && eqi(f, e.Args[2], n) && (len(e.Args) < 4 || f.Implies(asLit(e.Args[3]))) {
			rs = e.Res[0]
		}
	}
	if rs == nil {
		return "the ranges of " + fname + " for " + brief(first) + " and " + brief(n) + " are not computed"
	}
	if !eqi(f, lv.Len, LenOf(rs)) {
		return "it has " + brief(lv.Len) + " elements"
	}
	if len(lv.Layers) == 0 {
		return "it is never filled"
	}
	var cover func(li int, g *Facts, at *Term) string
	cover = func(li int, g *Facts, at *Term) string {
		if li < 0 {
			return "a position may be left blank"
		}
		ly := lv.Layers[li]
		if ly.Why != "" {
			return ly.Why
		}
		for _, e := range ly.Elems {
			if ly.Loop == nil {
				return "positions are changed outside the loops"
			}
			if e.Kept {
				if li == 0 {
					if g == nil {
						return "a position may be left blank"
					}
					continue // known not to be blank where the list was completed
				}
				if !c.knownNonBlank(e, lv.Base) {
					return "a position is not looked at again"
				}
				if w := cover(li-1, e.F, ly.Loop.N); w != "" {
					return w
				}
				continue
			}
			r := ElemOf(rs, e.Idx, nil)
			if w := c.rangeHash(ex, e, k, ElemOf(r, tZeroI, nil), ElemOf(r, tOne, nil), g == nil); w != "" {
				return w
			}
		}
		return ""
	}
	return cover(len(lv.Layers)-1, nil, nil)
}

// knownNonBlank: the iteration knows the element it keeps not to be empty.
func (c *Check) knownNonBlank(e *Elem, base *Term) bool {
	for _, l := range e.F.lits {
		for _, t := range subLens(l.A) {
			x := t.Args[0]
			if x.Op != OElem || !eqi(e.F, x.Args[1], e.Loop.N) {
				continue
			}
			ls, ok := x.Args[0].Obj.(*LoopStore)
			if ok && ls.Base == base && e.F.Implies(litEQ0(t).Not()) {
				return true
			}
		}
	}
	return false
}

// subLens: the lengths a condition is about.
func subLens(t *Term) []*Term {
	var out []*Term
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if t == nil || d > 6 {
			return
		}
		if t.Op == OLen {
			out = append(out, t)
			return
		}
		for _, a := range t.Args {
			walk(a, d+1)
		}
	}
	walk(t, 0)
	return out
}

// rangeHash: "" if the element is the recorded hash of [a, b), or computed from
// the records of its pieces.
func (c *Check) rangeHash(ex *Explorer, e *Elem, k int, a, b *Term, last bool) string {
	g := getField(e.Raw, "Mth")
	if g == nil {
		g = getField(e.Val, "Mth")
	}
	if g != nil {
		if last {
			return "the hash may be blank"
		}
		return c.nodeRecord(e.F, g, k, a, b)
	}
	return c.foldedHash(ex, e, k, a, b)
}

func (c *Check) nodeRecord(f *Facts, g *Event, k int, a, b *Term) string {
	r := recordOf(g)
	if r == nil {
		return "it is read under " + brief(g.Snap[2])
	}
	switch r.msg {
	case "pb.LeafNode":
		if !f.Implies(litEQ0(AddC(Sub(b, a), -1))) {
			return "the hash of a leaf stands for a range of several"
		}
		return c.storedAt(f, g, k, r.msg, a)
	case "pb.TreeNode":
		return c.storedAt(f, g, k, r.msg, a, b)
	}
	return "it is read from a " + r.msg
}

// foldedHash: the hash computed over the pieces of [a, b) from right to left.
func (c *Check) foldedHash(ex *Explorer, e *Elem, k int, a, b *Term) string {
	v, _ := e.Raw.Obj.(*PhiInfo)
	if v == nil || v.Inst == nil || v.Sym != e.Raw {
		return "it is " + brief(e.Raw)
	}
	l := v.Inst
	f := e.F
	in := v.Init
	if in.Op != OElem {
		return "the computation starts with " + brief(in)
	}
	list := in.Args[0]
	length := c.builtLen(list)
	if length == nil || !eqi(f, in.Args[1], AddC(length, -1)) {
		return "the computation starts with " + brief(in)
	}
	if !eqi(f, l.N, AddC(length, -1)) {
		return "the computation may not use every piece"
	}
	vi := varIndex(l, v)
	for _, it := range l.Iters {
		if vi < 0 || vi >= len(it.Nexts) {
			return "unknown computation"
		}
		g := it.facts()
		want := AddC(Sub(AddC(length, -2), l.N), 0)
		nx := it.Nexts[vi]
		okv := false
		if x := sha256Arg(nx); x != nil && x.Op == OConcat && len(x.Args) == 3 && x.Args[0] == Str("\x01") && x.Args[2] == v.Sym {
			if p := x.Args[1]; p.Op == OElem && p.Args[0] == list && eqi(g, p.Args[1], want) {
				okv = true
			}
		}
		if !okv {
			return "a step of the computation is " + brief(nx)
		}
	}
	// the pieces: one record per range of a walk from a to b
	cs, _, ok := elemCases(ex, in, bytesType)
	if !ok || len(cs) == 0 {
		return "the pieces are " + brief(list)
	}
	for _, x := range cs {
		if x.Kept || x.Idx == nil || !eqi(x.F, x.Idx, x.Loop.N) {
			return "a piece may be blank"
		}
		g := getField(x.Raw, "Mth")
		if g == nil {
			return "a piece is " + brief(x.Raw)
		}
		r := recordOf(g)
		if r == nil || len(r.rest) == 0 {
			return "a piece is read under " + brief(g.Snap[2])
		}
		ns, ok := be64s(r.rest, len(r.rest))
		if !ok || ns[0].Op != OElem || ns[0].Args[0].Op != OElem || !eqi(x.F, ns[0].Args[0].Args[1], x.Idx) {
			return "a piece is read under " + brief(g.Snap[2])
		}
		rg := ns[0].Args[0]
		if w := c.nodeRecord(x.F, g, k, ElemOf(rg, tZeroI, nil), ElemOf(rg, tOne, nil)); w != "" {
			return w
		}
		rc, _, ok := elemCases(ex, rg, nil)
		if !ok || len(rc) == 0 {
			return "the pieces are read for " + brief(rg)
		}
		for _, y := range rc {
			if y.Kept || y.Raw == nil || y.Raw.Op != OList || len(y.Raw.Args) != 2 {
				return "the pieces are read for " + brief(rg)
			}
			s, end, ok := c.walkOf(y)
			if !ok || !eqi(f, s, a) || !eqi(f, end, b) {
				return "the pieces do not make up the range"
			}
		}
	}
	return ""
}

func varIndex(l *LoopInst, v *PhiInfo) int {
	for i, x := range l.Vars {
		if x == v {
			return i
		}
	}
	return -1
}

// sha256Arg: the input of a SHA-256 term.
func sha256Arg(t *Term) *Term {
	if t != nil && t.Op == OApp && t.Aux == "sha256" && len(t.Args) == 1 {
		return t.Args[0]
	}
	return nil
}

// builtLen: the length of a sequence a loop filled or grew.
func (c *Check) builtLen(t *Term) *Term {
	switch o := t.Obj.(type) {
	case *LoopStore:
		if o.Inst != nil {
			return o.Inst.N // one position per iteration, see the cases
		}
	case *PhiInfo:
		return LenOf(t)
	}
	return nil
}

// fetched: "" if the list holds the data of leaf first+i at every i up to last.
func (c *Check) fetched(o *OpInfo, p *Path, f *Facts, pub *Term, k int, list *Term) string {
	ex := o.e.ex
	et := types.Type(nil)
	if st, ok := derefType(o.Fn.Signature.Results().At(0).Type()).Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Values" {
				et = st.Field(i).Type().Underlying().(*types.Slice).Elem()
			}
		}
	}
	lv := listOf(ex, p, list, et)
	if lv.Why != "" {
		return lv.Why
	}
	first, last := SF(o.Req, "First"), SF(o.Req, "Last")
	if f.Implies(litEQ0(last)) {
		last = pub
	} else if !f.Implies(litEQ0(last).Not()) {
		return "the last index may be 0 or not"
	}
	if !eqi(f, lv.Len, Sub(last, first)) {
		return "there are " + brief(lv.Len) + " values"
	}
	if len(lv.Layers) != 1 || lv.Layers[0].Why != "" || lv.Layers[0].Loop == nil {
		for _, l := range lv.Layers {
			if l.Why != "" {
				return l.Why
			}
		}
		return "values are not filled in one pass"
	}
	for _, e := range lv.Layers[0].Elems {
		if e.Kept {
			return "a value may be left out"
		}
		c.count("fetched values")
		li := SF(e.Val, "LeafInput")
		g := getField(li, "LeafInput")
		if g == nil {
			return "the leaf input of a value is " + brief(li)
		}
		if w := c.leafData(ex, e.F, g, k, Add(first, e.Idx), e.Idx); w != "" {
			return w
		}
	}
	return ""
}

// leafData: "" if the record read is the data of leaf i of log type k.
func (c *Check) leafData(ex *Explorer, f *Facts, g *Event, k int, leaf, pos *Term) string {
	r := recordOf(g)
	if r == nil || r.msg != "pb.LeafData" || len(r.rest) != 1 || !succeeded(f, g) {
		return "a value is read from " + brief(g.Snap[2])
	}
	if b := c.storage().bucket(k, r.msg); b == "" || b != r.bucket {
		return "a value is read from bucket " + r.bucket
	}
	h := r.rest[0]
	if m := getField(h, "Mth"); m != nil {
		return c.storedAt(f, m, k, "pb.LeafNode", leaf)
	}
	cs, idx, ok := elemCases(ex, h, bytesType)
	if !ok || len(cs) == 0 || !eqi(f, idx, pos) {
		return "a value is read under the hash " + brief(h)
	}
	for _, x := range cs {
		if x.Kept {
			return "a hash may be left out"
		}
		m := getField(x.Raw, "Mth")
		if m == nil {
			return "a value is read under the hash " + brief(x.Raw)
		}
		if w := c.storedAt(x.F, m, k, "pb.LeafNode", Add(x.Idx, Sub(leaf, pos))); w != "" {
			return w
		}
	}
	return ""
}

// mapValue: value and proof of a map get on one successful partition.
func (c *Check) mapValue(o *OpInfo, p *Path, f *Facts, resp, n *Term) {
	say := func(w, rule, what string) bool {
		return c.must(w == "", rule, o.Name, p.Pos, "%s: %s: %s", o.Name, what, w)
	}
	kp := Concat(Str("\x00"), Sha256(SF(o.Req, "Key")))
	// the node the key's path leads to
	var head *Term
	var dl *LoopInst
	why := "the map is not searched"
	for _, e := range p.St.events {
		if e.Kind != ELoop || e.Loop == nil {
			continue
		}
		for _, v := range e.Loop.Vars {
			if !isNamedType(v.Typ, "pb.MapNode") {
				continue
			}
			if w := c.descent(p, v.Sym, n, kp); w == "" {
				head, dl = nodeOf(v.Sym), e.Loop
			} else {
				why = w
			}
		}
	}
	if head == nil {
		say(why, "descent", "the node found for the key")
		return
	}
	c.ok("descent", o.Name)
	lh, hp := SF(head, "LeafHash"), SF(head, "Path")
	noLeaf := f.Implies(litEQ0(LenOf(lh))) || f.Implies(litNil(lh)) || eqv(f, lh, tEmpty)
	leafThere := f.Implies(litEQ0(LenOf(lh)).Not()) || f.Implies(litLE0(AddC(Scale(LenOf(lh), -1), 1)))
	null := eqv(f, lh, emptyLeafHash) || f.Implies(litEQ(lh, emptyLeafHash))
	match, differ := f.Implies(litEQ(hp, kp)), f.Implies(litEQ(hp, kp).Not())
	// value
	val := SF(resp, "Value")
	li := SF(val, "LeafInput")
	w := ""
	switch g := getField(li, "LeafInput"); {
	case g != nil:
		r := recordOf(g)
		switch {
		case r == nil || r.msg != "pb.LeafData" || !succeeded(f, g):
			w = "it is read under " + brief(g.Snap[2])
		case r.bucket != c.storage().bucket(ltMutation, r.msg):
			w = "it is read from bucket " + r.bucket
		case len(r.rest) != 1 || !eqv(f, r.rest[0], lh):
			w = "it is read under " + brief(g.Snap[2]) + ", not under the hash of the leaf found"
		case !match || !leafThere:
			w = "the leaf found may be of another key"
		}
	case li != nil && isZeroConst(li):
		if !(noLeaf || differ && leafThere || match && null) {
			w = "it is empty although the key may have a value"
		}
		if ed := SF(val, "ExtraData"); ed == nil || !isZeroConst(ed) && !filteredForm(ed) {
			w = "its extra data is " + brief(ed)
		}
	default:
		w = "its leaf input is " + brief(li)
	}
	say(w, "value", "value")
	// proof
	lv := listOf(o.e.ex, p, SF(resp, "AuditPath"), bytesType)
	if !say(lv.Why, "proof", "proof") {
		return
	}
	if !c.must(mustBe(f, lv.Len, 256), "proof", o.Name, p.Pos, "%s: the proof has %s elements", o.Name, brief(lv.Len)) {
		return
	}
	other := func(g *Facts, d *Term) string {
		return map[int]string{0: "RightHash", 1: "LeftHash"}[keyBit(g, kp, d)]
	}
	above := false
	var rest []*Elem
	w = ""
	for _, ly := range lv.Layers {
		if ly.Loop == nil {
			rest = ly.Elems
			continue
		}
		if above {
			w = "it is filled twice"
		}
		above = true
		var seq *Term
		for _, e := range ly.Elems {
			if e.Kept {
				w = "a node passed may be left out"
				continue
			}
			v := e.Raw
			if !eqi(e.F, e.Idx, ly.Loop.N) || v.Op != OField || v.Aux != other(e.F, e.Idx) {
				w = "for a node passed it holds " + brief(v)
				continue
			}
			el := nodeOf(v.Args[0])
			if el.Op != OElem || !eqi(e.F, el.Args[1], e.Idx) || seq != nil && seq != el.Args[0] {
				w = "for a node passed it holds " + brief(v)
				continue
			}
			seq = el.Args[0]
		}
		if w == "" && seq == nil {
			w = "the nodes passed are not used"
		}
		if w == "" {
			if !eqi(f, ly.Loop.N, LenOf(seq)) {
				w = "it does not use every node passed"
			} else {
				kept := ""
				w = c.ancestorSeq(p, seq, nil, kp, head, 0, &kept)
				if w == "" && !passedOnly(seq, dl) {
					w = "the nodes passed are " + brief(seq)
				}
			}
		}
	}
	if !above {
		w = "it does not hold the other children of the nodes passed"
	}
	say(w, "proof-above", "proof")
	w = ""
	depthOK := func(d *Term) bool { return eqi(f, d, dl.N) }
	for _, e := range rest {
		if depthOK(e.Idx) && keyBit(f, kp, e.Idx)+keyBit(f, kp, dl.N) == 1 && keyBit(f, kp, e.Idx)*keyBit(f, kp, dl.N) == 0 {
			return // the same bit cannot be both: no execution takes this path
		}
	}
	switch {
	case match && leafThere:
		if len(rest) != 0 {
			w = "it holds " + brief(rest[0].Raw) + " below the leaf"
		}
	case noLeaf:
		if len(rest) != 1 || !depthOK(rest[0].Idx) || rest[0].Raw.Op != OField || rest[0].Raw.Aux != other(f, dl.N) || nodeOf(rest[0].Raw.Args[0]) != head {
			w = "for the node found it does not hold the other child"
			for _, e := range rest {
				w += " (" + brief(e.Idx) + ": " + brief(e.Raw) + ")"
			}
		}
	case leafThere && differ:
		if len(rest) != 1 {
			w = "it does not hold the leaf of the other key"
			break
		}
		d, v := rest[0].Idx, rest[0].Raw
		if v.Op != OApp || v.Aux != fNodeHash || nodeOf(v.Args[0]) != head || !eqi(f, v.Args[1], AddC(d, 1)) {
			w = "for the other key's leaf it holds " + brief(v)
			break
		}
		if bitsAgree(f, kp, hp, d) != -1 {
			w = "the paths are not known to part where the other key's leaf is put"
			break
		}
		if depthOK(d) {
			break
		}
		w = "the position of the other key's leaf is " + brief(d)
		for _, e := range p.St.events {
			if e.Kind != ELoop || e.Loop == nil {
				continue
			}
			// a loop that goes on from the depth reached while the bits agree
			i0 := Sub(d, e.Loop.N)
			if !depthOK(i0) {
				continue
			}
			w = ""
			for _, it := range e.Loop.Iters {
				if bitsAgree(it.facts(), kp, hp, Add(i0, e.Loop.N)) != 1 {
					w = "levels are passed where the paths are not known to agree"
				}
			}
		}
	default:
		w = "the kind of node found is not known"
	}
	say(w, "proof-end", "proof")
}

// passedOnly: the sequence has exactly the nodes the descent passed.
func passedOnly(seq *Term, dl *LoopInst) bool {
	v, _ := seq.Obj.(*PhiInfo)
	return v != nil && v.Inst == dl && v.Sym == seq
}

// filteredForm: the JSON of a filtered object.
func filteredForm(t *Term) bool {
	x := jsonMarshalled(t)
	return x != nil && filteredOf(x) != nil
}

// filteredOf: the call that filtered the object.
func filteredOf(x *Term) *Term {
	for x != nil && x.Op == OIface {
		x = x.Args[0]
	}
	if x != nil && x.Op == OApp && strings.HasSuffix(x.Aux, "objecthash.Filtered") && len(x.Args) == 2 {
		return x
	}
	return nil
}

func init() {
	register("C04", checkC04, "path-sensitive dataflow over the SSA form of fetch-entries and map-get: provenance terms of the data returned, by what is known about the policy's field filter",
		"On every partition of fetch-entries and map-get that can succeed, and every case of the loops that fill the response, it is known whether the field filter of the consultation that allowed the access is all-fields: if it is, the extra data (for mutation logs that of the contained value, every other field of the mutation re-encoded as decoded) is the stored one; if not, it is the JSON of objecthash.Filtered(the decoded stored JSON, that filter), or there is no value. The leaf input is the stored one. Tree head log entries carry no user data and are returned as stored.")
}

// filterTerm: the field filter of the consultation that allowed the access.
func filterTerm(p *Path, f *Facts) *Term {
	for _, v := range consults(p) {
		if !succeeded(f, v) || len(v.Res) == 0 {
			continue
		}
		var found *Term
		var walk func(t *Term, d int)
		walk = func(t *Term, d int) {
			if t == nil || d > 6 || found != nil {
				return
			}
			if t.Op == OField && t.Aux == "FieldFilter" && nodeOf(t.Args[0]) == v.Res[0] {
				found = t
				return
			}
			for _, a := range t.Args {
				walk(a, d+1)
			}
		}
		for _, l := range f.lits {
			walk(l.A, 0)
		}
		if found != nil {
			return found
		}
	}
	return nil
}

const allFields = "*"

// redacted: "" if ed is the stored extra data as the filter demands.
func redacted(f *Facts, filter, ed, stored *Term) string {
	if filter == nil {
		return "the policy's field filter was not looked at"
	}
	all := litEQ(filter, Str(allFields))
	switch {
	case f.Implies(all):
		if !eqv(f, ed, stored) {
			return "with all fields allowed the extra data is " + brief(ed)
		}
		return ""
	case f.Implies(all.Not()):
		if ed == nil {
			return "there is no extra data"
		}
		x := filteredOf(jsonMarshalled(ed))
		if x == nil {
			return "although fields are to be filtered the extra data is " + brief(ed)
		}
		if x.Args[1] != filter && !eqv(f, x.Args[1], filter) {
			return "the filter used is " + brief(x.Args[1])
		}
		if d := decodedJSON(x.Args[0]); d == nil || !eqv(f, d, stored) {
			return "what is filtered is " + brief(x.Args[0])
		}
		return ""
	}
	return "it is not known whether fields are to be filtered"
}

func checkC04(c *Check) {
	for _, o := range c.serviceOps() {
		if o.Name != "LogFetchEntries" && o.Name != "MapGetValue" {
			continue
		}
		n := 0
		for _, p := range o.e.paths {
			if p.End != "return" || !p.maySucceed() {
				continue
			}
			f := p.facts()
			if pub, ok := c.published(p, f); ok && withNonNeg(f, pub).absurd() {
				continue
			}
			n++
			resp := c.snapResult(o.e, p, 0, o.Fn)
			if o.IsMap {
				w := c.filteredLeaf(f, filterTerm(p, f), SF(resp, "Value"))
				c.must(w == "", "redaction", o.Name, p.Pos, "%s: %s", o.Name, w)
				c.count("values")
				continue
			}
			k := logTypeOn(o, f)
			if !c.must(k >= 0, "log-type", o.Name, p.Pos, "%s succeeds for a log type not known", o.Name) {
				continue
			}
			lv := listOf(o.e.ex, p, SF(resp, "Values"), elemTypeOf(o, "Values"))
			if !c.must(lv.Why == "", "redaction", o.Name, p.Pos, "%s: %s", o.Name, lv.Why) {
				continue
			}
			for _, ly := range lv.Layers {
				for _, e := range ly.Elems {
					if e.Kept {
						continue
					}
					w := ""
					switch fl := filterTerm(p, e.F); k {
					case ltLog:
						w = c.filteredLeaf(e.F, fl, e.Val)
					case ltMutation:
						w = c.filteredMutation(e.F, fl, e.Val)
					}
					c.must(w == "", "redaction", o.Name+" "+logTypeNames[k], p.Pos, "%s (%s): %s", o.Name, logTypeNames[k], w)
					c.count("values")
				}
			}
		}
		c.must(n > 0, "serves", o.Name, o.Fn.Pos(), "%s never succeeds", o.Name)
	}
	c.min("values", 10)
}

func elemTypeOf(o *OpInfo, field string) types.Type {
	if st, ok := derefType(o.Fn.Signature.Results().At(0).Type()).Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && st.Field(i).Name() == field {
				return s.Elem()
			}
		}
	}
	return nil
}

// filteredLeaf: the value returned is the stored one, filtered.
func (c *Check) filteredLeaf(f *Facts, filter, val *Term) string {
	li, ed := SF(val, "LeafInput"), SF(val, "ExtraData")
	if li == nil || ed == nil {
		return "the value is " + brief(val)
	}
	if isZeroConst(li) && isZeroConst(ed) {
		return "" // nothing is returned
	}
	g := getField(li, "LeafInput")
	if g == nil {
		return "the leaf input is " + brief(li)
	}
	stored := SF(g.Outs[3], "ExtraData")
	if w := redacted(f, filter, ed, stored); w != "" {
		return w
	}
	if f.Implies(litEQ(filter, Str(allFields))) && !eqv(f, SF(val, "Format"), SF(g.Outs[3], "Format")) {
		return "with all fields allowed the format is " + brief(SF(val, "Format"))
	}
	return ""
}

// filteredMutation: the entry returned is the stored mutation with its value filtered.
func (c *Check) filteredMutation(f *Facts, filter, val *Term) string {
	li, ed := SF(val, "LeafInput"), SF(val, "ExtraData")
	g := getField(li, "LeafInput")
	if g == nil || ed == nil {
		return "the leaf input is " + brief(li)
	}
	stored := SF(g.Outs[3], "ExtraData")
	all := filter != nil && f.Implies(litEQ(filter, Str(allFields)))
	if all && !eqv(f, SF(val, "Format"), SF(g.Outs[3], "Format")) {
		return "with all fields allowed the format is " + brief(SF(val, "Format"))
	}
	if all && eqv(f, ed, stored) {
		return ""
	}
	m := jsonMarshalled(ed)
	if m == nil {
		return "the extra data is " + brief(ed)
	}
	aux := "unjson:" + modPath + "/pb.MapMutation"
	of := func(name string) *Term {
		x := SF(m, name)
		if x != nil && x.Op == OField && x.Aux == name {
			if d := nodeOf(x.Args[0]); d.Op == OApp && d.Aux == aux && eqv(f, d.Args[0], stored) {
				return d
			}
		}
		return nil
	}
	var d *Term
	for _, n := range []string{"Timestamp", "Action", "Key", "PreviousLeafHash"} {
		x := of(n)
		if x == nil {
			return "the mutation's " + n + " is " + brief(SF(m, n))
		}
		d = x
	}
	v := SF(m, "Value")
	if v == nil {
		return "the mutation has no value field"
	}
	if of("Value") != nil {
		if !all && !f.Implies(litNil(v)) {
			return "the value of the mutation is returned without regard to the filter"
		}
		return ""
	}
	dv := SF(d, "Value")
	if v.IsNil() {
		if f.Implies(litNil(dv)) {
			return ""
		}
		return "the value of the mutation is left out"
	}
	if !eqv(f, SF(v, "LeafInput"), MF(dv, "LeafInput")) {
		return "the leaf input of the mutation's value is " + brief(SF(v, "LeafInput"))
	}
	if all && !eqv(f, SF(v, "Format"), MF(dv, "Format")) {
		return "with all fields allowed the format of the mutation's value is " + brief(SF(v, "Format"))
	}
	return redacted(f, filter, SF(v, "ExtraData"), MF(dv, "ExtraData"))
}
