package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", checkC29, "path-sensitive dataflow with value numbering over the SSA form of the leaf data constructors and validators",
		"Every success partition of every exported constructor of leaf data in package verifiable must return format JSON and a leaf input that is ObjectHashWithStdRedaction of the decoding of exactly the bytes returned as extra data (mutations: of the same mutation with the value's extra data and format cleared); every accepting partition of the validators must carry the established equality of that recomputed hash with the entry's leaf input, and every rejecting one a reason.")
	register("C30", checkC30, "path-sensitive dataflow with value numbering over the SSA form of LogAddEntry and MapSetValue",
		"On every success partition exactly one mutation is queued, its queueing succeeded, the returned hash is the leaf hash of the queued leaf input, and the queued message is field for field (modulo deep copies) the caller's value, respectively the caller's mutation with a timestamp read from the clock, in fractions of a second that set apart mutations made one after the other, addressed to the caller's account and name.")
}

const fHashRedact = "github.com/continusec/objecthash.ObjectHashWithStdRedaction"

// hashedObject: t = ObjectHashWithStdRedaction(obj) -> obj
func hashedObject(t *Term) *Term {
	t = unwrap(t)
	if t != nil && t.Op == OApp && t.Aux == fHashRedact && len(t.Args) == 1 {
		return unwrap(t.Args[0])
	}
	return nil
}

// decodedJSON: t = the generic decoding of bytes b -> b
func decodedJSON(t *Term) *Term {
	t = unwrap(t)
	if t != nil && t.Op == OApp && strings.HasPrefix(t.Aux, "unjson:interface{}") || t != nil && t.Op == OApp && strings.HasPrefix(t.Aux, "unjson:any") {
		return t.Args[0]
	}
	return nil
}

func jsonMarshalled(t *Term) *Term {
	t = unwrap(t)
	if t != nil && t.Op == OApp && t.Aux == "json.Marshal" && len(t.Args) == 1 {
		return t.Args[0]
	}
	return nil
}

// mutationStripped: a is mutation b with Value.ExtraData and Value.Format cleared.
func mutationStripped(c *Check, f *Facts, a, b *Term) string {
	mt := c.typeNamed("pb", "MapMutation")
	if mt == nil {
		return "no MapMutation"
	}
	s := mt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		fl := s.Field(i)
		if !fl.Exported() {
			continue
		}
		av, bv := MF(a, fl.Name()), MF(b, fl.Name())
		if fl.Name() != "Value" {
			if !eqv(f, av, bv) {
				return "the hashed mutation's " + fl.Name() + " is " + brief(av) + ", not " + brief(bv)
			}
			continue
		}
		if isNilVal(f, bv) {
			if !isNilVal(f, av) && !absentMsg(f, av) {
				return "the hashed mutation has a value although the mutation has none"
			}
			continue
		}
		if isNilVal(f, av) {
			return "the hashed mutation lost its value"
		}
		if !eqv(f, MF(av, "LeafInput"), MF(bv, "LeafInput")) {
			return "the hashed value's leaf input is " + brief(MF(av, "LeafInput")) + ", not " + brief(MF(bv, "LeafInput"))
		}
		for _, n := range []string{"ExtraData", "Format"} {
			x := MF(av, n)
			if x == nil || !isZeroConst(x) && !eqv(f, x, tEmpty) && !(n == "Format" && eqv(f, x, tZeroI)) {
				return "the hashed value's " + n + " is not cleared: " + brief(x) + " in " + brief(a)
			}
		}
	}
	return ""
}

// decodedMutation: the decoded message that mutation m has its action and key
// from, if that is a decoding of ed.
func decodedMutation(m, ed *Term) *Term {
	a := MF(m, "Action")
	if a == nil || a.Op != OField {
		return nil
	}
	b := a.Args[0]
	x := b
	for x.Op == ODeref {
		x = x.Args[0]
	}
	if x.Op == OApp && strings.HasPrefix(x.Aux, "unjson:") && len(x.Args) == 1 && x.Args[0] == ed {
		return b
	}
	return nil
}

// canonFacts states the same facts modulo deep copies.
func canonFacts(f *Facts) *Facts {
	r := newFacts()
	for _, l := range f.lits {
		r.add(l)
		if a := canon(l.A); a != l.A {
			r.add(Lit{A: a, Neg: l.Neg})
		}
	}
	return r
}

func isNilVal(f *Facts, t *Term) bool {
	if t == nil {
		return false
	}
	return t.IsNil() || t.Op == OZero || f.Implies(litNil(t))
}
func absentMsg(f *Facts, t *Term) bool { return eqv(f, t, tNil) }

func checkC29(c *Check) {
	sp := c.w.SSA[modPath+"/verifiable"]
	if sp == nil {
		c.anchorFail("package verifiable")
		return
	}
	jsonFmt, ok := c.pbConst("DataFormat", "JSON")
	if !ok {
		return
	}
	var creators []*ssa.Function
	for _, m := range sp.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		r := fn.Signature.Results()
		if r.Len() == 2 && r.At(0).Type().String() == "*"+modPath+"/pb.LeafData" && isErrorType(r.At(1).Type()) && len(fn.Params) == 1 {
			creators = append(creators, fn)
		}
	}
	for _, fn := range creators {
		o := c.explore(fn)
		n := 0
		for _, p := range o.paths {
			if p.End != "return" || !p.maySucceed() {
				continue
			}
			n++
			f := p.facts()
			r := c.snapResult(o, p, 0, fn)
			name := fn.Name()
			li, ed := SF(r, "LeafInput"), SF(r, "ExtraData")
			if fm := SF(r, "Format"); !c.must(fm != nil && eqv(f, fm, Int(jsonFmt)), "format-json", name, p.Pos, "%s returns leaf data whose format is %v, not JSON", name, brief(fm)) {
				continue
			}
			obj := hashedObject(li)
			if !c.must(obj != nil, "object-hash", name, p.Pos, "%s returns leaf input %s, which is not the object hash (with redaction) of anything", name, brief(li)) {
				continue
			}
			in := ParamSym(fn.Params[0])
			param := unwrap(in)
			src := decodedJSON(obj)
			switch {
			case src != nil && src == ed:
				c.ok("hash-of-data", name)
			case src == nil && jsonMarshalled(ed) != nil && unwrap(jsonMarshalled(ed)) == obj:
				c.ok("hash-of-data", name) // the very object that was encoded
			case src != nil && jsonMarshalled(src) != nil && jsonMarshalled(ed) != nil && strings.HasSuffix(fn.Params[0].Type().String(), "pb.MapMutation"):
				m := mutationStripped(c, canonFacts(f), jsonMarshalled(src), jsonMarshalled(ed))
				c.must(m == "", "hash-of-data", name, p.Pos, "%s: %s", name, m)
			default:
				c.fail("hash-of-data", name, p.Pos, "%s hashes %s but carries %s", name, brief(obj), brief(ed))
			}
			// what it carries is what was given
			switch {
			case ed == in || ed == param:
				c.ok("carries-input", name)
			case jsonMarshalled(ed) != nil && (unwrap(jsonMarshalled(ed)) == param || msgEq(f, jsonMarshalled(ed), in, fn.Params[0].Type()) == ""):
				c.ok("carries-input", name)
			case jsonMarshalled(ed) != nil && jsonMarshalled(ed).Any(func(x *Term) bool { return x == in }) && unwrap(jsonMarshalled(ed)) == obj:
				c.ok("carries-input", name)
			default:
				c.fail("carries-input", name, p.Pos, "%s carries %s instead of its input", name, brief(ed))
			}
		}
		c.counts["constructor success partitions"] += n
		c.must(n > 0, "can-succeed", fn.Name(), fn.Pos(), "%s never succeeds", fn.Name())
		c.count("constructors")
	}
	c.min("constructors", 5)

	for _, v := range []struct {
		name string
		mut  bool
	}{{"ValidateJSONLeafData", false}, {"ValidateJSONLeafDataFromMutation", true}} {
		fn := c.fn("verifiable", v.name)
		if fn == nil {
			continue
		}
		var entry *Term
		for _, p := range fn.Params {
			if strings.HasSuffix(p.Type().String(), "pb.LeafData") {
				entry = ParamSym(p)
			}
		}
		if entry == nil {
			c.anchorFail("entry parameter of " + v.name)
			continue
		}
		li, ed := SF(entry, "LeafInput"), SF(entry, "ExtraData")
		acc := 0
		for _, p := range c.explore(fn).paths {
			if p.End != "return" {
				continue
			}
			f := p.facts()
			if p.maySucceed() {
				acc++
				why := "it accepts without having compared a recomputed hash with the leaf input"
				good := false
				for _, l := range f.lits {
					if l.Neg || l.A.Op != OEQ {
						continue
					}
					h := l.A.Args[0]
					if h == li {
						h = l.A.Args[1]
					} else if l.A.Args[1] != li {
						continue
					}
					obj := hashedObject(h)
					src := decodedJSON(obj)
					if src == nil {
						continue
					}
					if !v.mut {
						good = src == ed
						why = "the hash compared is that of " + brief(src)
						continue
					}
					jm := jsonMarshalled(src)
					if jm == nil {
						continue
					}
					dec := decodedMutation(jm, ed)
					if dec == nil {
						why = "what is hashed does not come from a decoding of the entry's data"
						continue
					}
					why = mutationStripped(c, canonFacts(f), jm, dec)
					good = why == ""
				}
				c.must(good, "accept-needs-hash", v.name, p.Pos, "%s: %s", v.name, why)
				continue
			}
			reason := false
			for _, l := range f.lits {
				switch l.A.Op {
				case OIsNil:
					x := l.A.Args[0]
					if l.Neg && x.Type != nil && isErrorType(x.Type) || !l.Neg && (x.Type == nil || !isErrorType(x.Type)) {
						reason = true
					}
				case OEQ:
					if l.Neg && (l.A.Args[0] == li || l.A.Args[1] == li) {
						reason = true
					}
				}
			}
			c.must(reason, "reject-needs-reason", v.name, p.Pos, "%s rejects an entry without a failed decoding or a hash mismatch", v.name)
		}
		c.must(acc > 0, "can-succeed", v.name, fn.Pos(), "%s never accepts", v.name)
		c.count("validators")
	}
	c.min("validators", 2)
}

func checkC30(c *Check) {
	leaf := c.typeNamed("pb", "LeafData")
	if leaf == nil {
		return
	}
	for _, o := range c.serviceOps() {
		if o.Name != "LogAddEntry" && o.Name != "MapSetValue" {
			for _, p := range o.e.paths {
				for _, e := range p.St.events {
					c.must(!isQueue(e), "reads-do-not-queue", o.Name, e.Pos, "%s queues a mutation", o.Name)
				}
			}
			c.ok("reads-do-not-queue", o.Name)
			continue
		}
		for _, p := range o.e.paths {
			if p.End != "return" || !p.maySucceed() {
				continue
			}
			c.count(o.Name + " successes")
			f := p.facts()
			var qs []*Event
			for _, e := range p.St.events {
				if isQueue(e) {
					qs = append(qs, e)
				}
			}
			if !c.must(len(qs) == 1, "one-mutation", o.Name, p.Pos, "%s succeeds having queued %d mutations", o.Name, len(qs)) {
				continue
			}
			q := qs[0]
			c.must(succeeded(f, q), "queued", o.Name, q.Pos, "%s can succeed although queueing failed", o.Name)
			add := MF(q.Snap[3], "LogAddEntry")
			ref, val := MF(add, "Log"), MF(add, "Value")
			if !c.must(ref != nil && val != nil, "mutation-shape", o.Name, q.Pos, "%s queues %s", o.Name, brief(q.Snap[3])) {
				continue
			}
			resp := c.snapResult(o.e, p, 0, o.Fn)
			lh := SF(resp, "LeafHash")
			want := leafHashTerm(MF(val, "LeafInput"))
			c.must(lh != nil && (canon(lh) == canon(want) || eqv(f, lh, want)), "promised-hash", o.Name, p.Pos, "%s returns %s, not the leaf hash of the queued leaf input %s", o.Name, brief(lh), brief(MF(val, "LeafInput")))
			c.must(eqv(f, MF(ref, "Account", "Id"), o.refField("Account", "Id")), "addressed-account", o.Name, q.Pos, "%s queues a mutation for account %s", o.Name, brief(MF(ref, "Account", "Id")))
			c.must(eqv(f, MF(ref, "Name"), o.refField("Name")), "addressed-name", o.Name, q.Pos, "%s queues a mutation for object %s", o.Name, brief(MF(ref, "Name")))
			wantType := int64(ltLog)
			if o.IsMap {
				wantType = ltMutation
			}
			c.must(eqv(f, MF(ref, "LogType"), Int(wantType)), "addressed-type", o.Name, q.Pos, "%s queues a mutation for log type %s", o.Name, brief(MF(ref, "LogType")))
			if !o.IsMap {
				m := msgEq(f, val, SF(o.Req, "Value"), leaf)
				c.must(m == "", "data-unmodified", o.Name, q.Pos, "%s queues other data than the caller's: %s", o.Name, m)
				continue
			}
			jm := jsonMarshalled(MF(val, "ExtraData"))
			if !c.must(jm != nil, "mutation-json", o.Name, q.Pos, "the queued entry's data %s is not the JSON of a mutation", brief(MF(val, "ExtraData"))) {
				continue
			}
			mt := c.typeNamed("pb", "MapMutation")
			st := mt.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i)
				if !fl.Exported() {
					continue
				}
				got, wantF := MF(jm, fl.Name()), SF(SF(o.Req, "Mutation"), fl.Name())
				if fl.Name() == "Timestamp" {
					c.must(got != nil && got.Any(func(x *Term) bool { return strings.HasPrefix(x.Aux, "time.Now#") }), "fresh-timestamp", o.Name, q.Pos, "the queued mutation's timestamp %s is not read from the clock", brief(got))
					why := coarse(got)
					c.must(why == "", "fresh-timestamp", o.Name, q.Pos, "the queued mutation's timestamp %s tells the time only %s: the same mutation made again soon after is taken for a duplicate", brief(got), why)
					continue
				}
				m := msgEq(f, got, wantF, fl.Type())
				c.must(m == "", "mutation-unmodified", o.Name+" "+fl.Name(), q.Pos, "%s changes the mutation's %s: %s", o.Name, fl.Name(), m)
			}
		}
	}
	c.min("LogAddEntry successes", 1)
	c.min("MapSetValue successes", 1)
}

var fraction = regexp.MustCompile("[.,](0{6,}|9{6,})")

// coarse: the text of a time does not distinguish moments that are close together.
func coarse(t *Term) string {
	why := ""
	if t == nil {
		return why
	}
	t.Any(func(x *Term) bool {
		switch n := x.Aux; {
		case strings.HasPrefix(n, "(time.Time).Format") && len(x.Args) == 2:
			l := unwrap(x.Args[1])
			if l != nil && l.Op == OStr && !fraction.MatchString(l.Aux) {
				why = "as " + l.Aux
			}
		case strings.HasPrefix(n, "(time.Time).Truncate"), strings.HasPrefix(n, "(time.Time).Round"):
			why = "rounded"
		case strings.HasPrefix(n, "(time.Time).Unix#"), n == "(time.Time).Unix", strings.HasPrefix(n, "(time.Time).UnixMilli"):
			why = "in seconds or milliseconds"
		}
		return false
	})
	return why
}
