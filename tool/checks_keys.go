package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", checkC19, "path-sensitive dataflow: the key term of every storage access of the verifiable package, per log type, reduced to prefix and component layout; pairwise comparison of the layouts",
		"The key of every Get and Set in the functions of the verifiable package that are given a key reader or writer is a constant prefix followed by components that are fixed-width big-endian numbers or, only in last place, a hash or path. For every record kind (log type, message), map nodes and the size there is one prefix, no prefix is a prefix of another, and every read uses a component layout that the kind is written with. A kind of record written in an application without the leaf node that log entries have is a different kind from the log's entries.")
}

// keyUse is a storage access and the layout of its key.
type keyUse struct {
	fn     *ssa.Function
	ev     *Event
	msg    string
	bucket string
	sig    string
	set    bool
}

// keySig: "n" for a fixed-width number, "v" for bytes.
func keySig(f *Facts, rest []*Term) string {
	s := ""
	for i := 0; i < len(rest); i++ {
		r := rest[i]
		switch {
		case r.Op == OByte:
			k := 1
			for ; i+1 < len(rest) && rest[i+1].Op == OByte; i++ {
				k++
			}
			s += strings.Repeat("n", k/8) + strings.Repeat("b", k%8)
		case r.Op == OBE64:
			s += "n"
		case r.Op == OStr && len(r.Aux)%8 == 0 && numberLike(r.Aux):
			s += strings.Repeat("n", len(r.Aux)/8)
		case r == tEmpty || isZeroConst(r):
		case r.Op == OStr && printable(r.Aux):
			s += "'" + r.Aux + "'"
		default:
			s += "v"
		}
	}
	return s
}

// numberLike: constants encoded as numbers are small.
func numberLike(s string) bool {
	for i := 0; i < len(s); i += 8 {
		if s[i] != 0 && s[i] != 0xff {
			return false
		}
	}
	return true
}

func printable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return false
		}
	}
	return true
}

// keyLoss: how the components of a key can be equal for different numbers or
// hashes; empty if they cannot.
func keyLoss(f *Facts, rest []*Term) string {
	for i := 0; i < len(rest); i++ {
		r := rest[i]
		switch {
		case r.Op == OBE64:
			switch x := r.Args[0]; x.Op {
			case OTrunc, OAnd, OShr, ODiv, OMod:
				if x.Args[0].Op != OLin && !(len(x.Args) > 1 && x.Args[1].Op == OLin) {
					return "keeps only part of a number, " + brief(x) + ","
				}
			}
		case r.Op == OByte: // a run of bytes
			shifts := map[int64]bool{}
			var of *Term
			for ; i < len(rest) && rest[i].Op == OByte; i++ {
				x, k := rest[i].Args[0], int64(0)
				if x.Op == OTrunc || x.Op == OAnd {
					x = x.Args[0]
				}
				if x.Op == OShr && x.Args[1].IsInt() {
					x, k = x.Args[0], x.Args[1].I
				}
				if of == nil {
					of = x
				}
				if x != of || k%8 != 0 {
					return "uses bytes that are not those of one number"
				}
				shifts[k] = true
			}
			i--
			if len(shifts) != 8 {
				return "keeps only part of a number, " + brief(of) + ","
			}
		case r.Op == OSlice && !r.Args[2].IsInt() && f.Implies(litEQ0(Sub(r.Args[2], LenOf(r.Args[0])))) && r.Args[1] == tZeroI:
		case r.Op == OSlice && !(r.Args[1] == tZeroI && f.Implies(litEQ0(Sub(r.Args[2], LenOf(r.Args[0]))))):
			return "keeps only part of " + brief(r.Args[0])
		case r.Op == OApp && (r.Aux == "itoa" || strings.HasPrefix(r.Aux, "strconv.") || strings.HasPrefix(r.Aux, "fmt.")):
			return "writes a number of no fixed width, " + brief(r) + ","
		case r.Op == OSym && (strings.Contains(r.Aux, "!out") || strings.HasPrefix(r.Aux, "?seg")):
			return "uses bytes of unknown content"
		}
	}
	return ""
}

// undetermined: a number or byte string given to an accessor of one record
// that the key of its only access does not determine.
func undetermined(fn *ssa.Function, p *Path) *Term {
	var ps []*Term
	for _, x := range fn.Params {
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Kind() == types.Int64 || isByteSlice(x.Type()) {
			ps = append(ps, ParamSym(x))
		}
	}
	var ev *Event
	for _, e := range p.St.events {
		switch {
		case isGet(e) || isSet(e):
			if ev != nil {
				return nil
			}
			ev = e
		case e.Kind == ELoop || e.Kind == EGo:
			return nil
		}
	}
	if ev == nil {
		return nil
	}
	_, rest, ok := keyParts(ev.Snap[2])
	if !ok {
		return nil
	}
	known := map[*Term]bool{}
	for _, x := range ps { // part of the record itself
		if isSet(ev) && ev.Snap[3].Contains(x) {
			known[x] = true
		}
	}
	for _, l := range p.facts().lits {
		for _, x := range ps {
			if l.A.Contains(x) {
				known[x] = true
			}
		}
	}
	var eqs []linForm
	for _, r := range rest {
		if r.Op == OBE64 {
			l := toLin(r.Args[0])
			lin := true
			for t := range l.m {
				lin = lin && t.Op == OSym
			}
			if lin {
				eqs = append(eqs, l)
				continue
			}
		}
		for _, x := range ps { // not a linear form: taken as determining what it is made of
			if r.Contains(x) {
				known[x] = true
			}
		}
	}
	for again := true; again; {
		again = false
		for _, l := range eqs {
			var open []*Term
			for t := range l.m {
				if !known[t] {
					open = append(open, t)
				}
			}
			if len(open) == 1 {
				known[open[0]], again = true, true
			}
		}
	}
	for _, x := range ps {
		if !known[x] {
			return x
		}
	}
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8])
}

// keyUses: the storage accesses of fn under the facts given.
func (c *Check) keyUses(fn *ssa.Function, facts ...Lit) []keyUse {
	var out []keyUse
	e := c.exploreWith(fn, nil, facts...)
	seen := map[string]bool{}
	for _, p := range e.paths {
		if x := undetermined(fn, p); x != nil {
			c.fail("own-record", shortFn(fn), p.Pos, "%s uses the same key for records of different %s", shortFn(fn), x)
		}
		allEvents(p, func(q *Path, ev *Event) {
			if !isGet(ev) && !isSet(ev) {
				return
			}
			b, rest, ok := keyParts(ev.Snap[2])
			if !ok {
				c.fail("storage-key", shortFn(fn), ev.Pos, "%s uses a storage key without a constant prefix: %s", shortFn(fn), brief(ev.Snap[2]))
				return
			}
			if why := keyLoss(q.facts(), rest); why != "" {
				c.fail("whole-components", shortFn(fn), ev.Pos, "%s %s in the storage key %s", shortFn(fn), why, brief(ev.Snap[2]))
			}
			u := keyUse{fn: fn, ev: ev, msg: msgType(ev, 3), bucket: b, sig: keySig(q.facts(), rest), set: isSet(ev)}
			k := fmt.Sprint(u.msg, u.bucket, u.sig, u.set)
			if !seen[k] {
				seen[k] = true
				out = append(out, u)
			}
		})
	}
	return out
}

func checkC19(c *Check) {
	lt := c.typeNamed("pb", "LogType")
	rd, wr := c.typeNamed("verifiable", "KeyReader"), c.typeNamed("verifiable", "KeyWriter")
	if lt == nil || rd == nil || wr == nil {
		return
	}
	kinds := map[string][]keyUse{} // kind -> uses
	var others []keyUse
	for _, fn := range c.w.Funcs {
		if fnPkg(fn) == nil || fnPkg(fn).Pkg.Path() != modPath+"/verifiable" || fn.Parent() != nil {
			continue
		}
		var kv, whole bool
		var lp *Term
		for _, p := range fn.Params {
			if types.Identical(p.Type(), lt) {
				lp = ParamSym(p)
			}
			kv = kv || types.Identical(p.Type(), rd) || types.Identical(p.Type(), wr)
			whole = whole || isNamedType(p.Type(), "pb.LogRef") || isNamedType(p.Type(), "pb.LogAddEntryRequest") || isNamedType(p.Type(), "pb.Mutation")
		}
		switch {
		case !kv:
			continue
		case lp == nil && whole:
			continue // taken per log type below, as part of what calls it
		case lp == nil:
			for _, u := range c.keyUses(fn) {
				if u.msg == "pb.MapNode" || u.msg == "pb.ObjectSize" {
					c.count("access kinds")
					kinds[u.msg] = append(kinds[u.msg], u)
				} else {
					others = append(others, u)
				}
			}
			continue
		}
		for k := 0; k < 3; k++ {
			for _, u := range c.keyUses(fn, litEQ0(AddC(lp, -int64(k)))) {
				c.count("access kinds")
				kind := fmt.Sprintf("%s of log type %d", u.msg, k)
				if u.msg == "pb.MapNode" || u.msg == "pb.ObjectSize" {
					kind = u.msg
				}
				kinds[kind] = append(kinds[kind], u)
			}
		}
	}
	use := func(fn *ssa.Function, p *Path, ev *Event) {
		if isGet(ev) || isSet(ev) {
			b, rest, ok := keyParts(ev.Snap[2])
			if !ok {
				c.fail("storage-key", shortFn(fn), ev.Pos, "%s uses a storage key without a constant prefix: %s", shortFn(fn), brief(ev.Snap[2]))
				return
			}
			others = append(others, keyUse{fn: fn, ev: ev, msg: msgType(ev, 3), bucket: b, sig: keySig(p.facts(), rest), set: isSet(ev)})
		}
	}
	for _, o := range c.serviceOps() {
		for _, p := range o.e.paths {
			allEvents(p, func(q *Path, ev *Event) { use(o.Fn, q, ev) })
		}
	}
	as := c.applications()
	for _, a := range as {
		for _, p := range a.e.paths {
			allEvents(p, func(q *Path, ev *Event) { use(a.fn, q, ev) })
		}
	}
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	prefix := map[string]string{}
	for _, k := range names {
		us := kinds[k]
		bs := map[string]bool{}
		for _, u := range us {
			full := u.bucket
			if i := strings.Index(u.sig, "'"); i == 0 { // constant name after the prefix
				full += strings.Trim(u.sig, "'")
			}
			bs[full] = true
			body := strings.TrimLeft(u.sig, "nb")
			c.must(body == "" || body == "v" || body[0] == '\'', "unambiguous-layout", k, u.ev.Pos, "%s uses keys of the layout %q for %s: a number or several byte strings after a byte string of unknown width", shortFn(u.fn), u.sig, k)
		}
		var l []string
		for b := range bs {
			l = append(l, b)
		}
		sort.Strings(l)
		if !c.must(len(l) == 1, "one-prefix", k, us[0].ev.Pos, "%s is kept under different prefixes: %s", k, strings.Join(l, ", ")) {
			continue
		}
		prefix[k] = l[0]
		written := map[string]bool{}
		for _, u := range us {
			if u.set {
				written[u.sig] = true
			}
		}
		for _, u := range us {
			if !u.set {
				c.must(written[u.sig], "read-as-written", k+" "+shortFn(u.fn), u.ev.Pos, "%s reads %s under a key of the layout %q, which is never written", shortFn(u.fn), k, u.sig)
			}
		}
		c.must(len(written) > 0, "written", k, us[0].ev.Pos, "%s is read but never written", k)
	}
	c.counts["record kinds"] = len(prefix)
	c.min("record kinds", 17)
	for i, a := range names {
		for _, b := range names[i+1:] {
			x, y := prefix[a], prefix[b]
			if x == "" || y == "" {
				continue
			}
			c.must(!strings.HasPrefix(x, y) && !strings.HasPrefix(y, x), "disjoint-prefixes", a+" / "+b, kinds[a][0].ev.Pos, "%s and %s are kept under prefixes %q and %q, one of which begins with the other", a, b, x, y)
		}
	}
	// everything else that is accessed
	for _, u := range others {
		ok := false
		for k, us := range kinds {
			if k != u.msg && !strings.HasPrefix(k, u.msg+" of ") {
				continue
			}
			for _, v := range us {
				ok = ok || v.bucket == u.bucket && v.sig == u.sig
			}
		}
		c.must(ok, "known-layout", shortFn(u.fn)+" "+u.msg, u.ev.Pos, "%s accesses %s under a key that is none of that record's: %s", shortFn(u.fn), u.msg, brief(u.ev.Snap[2]))
	}
	c.counts["accesses of operations"] = len(others)
	// records that are not log entries among log entries
	for _, a := range as {
		setsOf(a.e, func(p *Path, e *Event) {
			r := recordOf(e)
			if r == nil || r.msg != "pb.LeafData" || len(r.rest) != 1 {
				return
			}
			entry := false
			for _, x := range p.St.events {
				if isSet(x) && !failed(p.facts(), x) {
					if q := recordOf(x); q != nil && q.msg == "pb.LeafNode" && SF(x.Snap[3], "Mth") == r.rest[0] {
						entry = true
					}
				}
			}
			if entry || len(p.St.events) == 0 {
				return
			}
			// later in a partition that fails before the leaf node is written?
			if p.End == "return" && !p.maySucceed() {
				return
			}
			c.count("data of other kinds")
			c.fail("shared-bucket", r.bucket, e.Pos, "data that is not a log entry's is kept in %s, among the entries' data, under a hash that does not determine its extra data", r.bucket)
		})
	}
}
