package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", checkC10, "path-sensitive dataflow over the SSA form of every implementation of KeyReader.Get and KeyWriter.Set, with models of the database libraries' lookups and a token-level reading of the SQL text",
		"Get: a partition returns ErrNoSuchKey exactly when the library's answer for the (injectively encoded) key says absent, any other failure leads to another error, and every other partition returns the outcome of decoding exactly the bytes looked up into the caller's message. Set: a partition that may succeed with nil has deleted exactly that key and otherwise has stored exactly the encoding of the value under it; reader and writer use the same place and encoding of the key. A writer over another reader asks it exactly for the keys its own lookup says were never written, and answers that there is no such key exactly for those it keeps as deleted.")
}

// ---- injective encodings

// injective gives the shape of an encoding of x that keeps distinct values of x
// apart, with x replaced by a hole; safe asks for text without separators.
func injective(t, x *Term, safe bool) (string, bool) {
	t = unIface(t)
	switch {
	case t == x:
		return "x", !safe
	case t.Op == OApp && t.Aux == "hex" && len(t.Args) == 1:
		s, ok := injective(t.Args[0], x, false)
		return "hex(" + s + ")", ok
	case t.Op == OApp && strings.HasPrefix(t.Aux, "sha256") && len(t.Args) == 1:
		s, ok := injective(t.Args[0], x, false)
		return "sha256(" + s + ")", ok && !safe
	case t.Op == OSlice && len(t.Args) == 3 && t.Args[0].Op == OApp && strings.HasPrefix(t.Args[0].Aux, "sha256") && t.Args[1].IsInt() && t.Args[2].IsInt():
		if t.Args[2].I-t.Args[1].I >= 16 {
			s, ok := injective(t.Args[0], x, false)
			return fmt.Sprintf("%s[%d:%d]", s, t.Args[1].I, t.Args[2].I), ok && !safe
		}
	case t.Op == OConcat:
		s, n := "", 0
		for _, a := range t.Args {
			if !a.Contains(x) {
				if a.Op != OStr {
					return "", false
				}
				s += a.String()
				continue
			}
			k, ok := injective(a, x, safe)
			if !ok {
				return "", false
			}
			n++
			s += k
		}
		return s, n == 1
	}
	return "", false
}

// ---- SQL

type sqlTok struct {
	kw string
	id *Term // identifier
}

func sqlTokens(t *Term) []sqlTok {
	parts := []*Term{t}
	if t.Op == OConcat {
		parts = t.Args
	}
	var out []sqlTok
	var cur []*Term
	var buf strings.Builder
	flushBuf := func() {
		if buf.Len() > 0 {
			cur = append(cur, Str(buf.String()))
			buf.Reset()
		}
	}
	flush := func() {
		flushBuf()
		if len(cur) == 0 {
			return
		}
		c := Concat(cur...)
		tk := sqlTok{id: c}
		if c.Op == OStr {
			tk.kw = strings.ToUpper(c.Aux)
		}
		out = append(out, tk)
		cur = nil
	}
	for _, p := range parts {
		if p.Op != OStr {
			flushBuf()
			cur = append(cur, p)
			continue
		}
		for _, r := range p.Aux {
			switch {
			case r == ' ' || r == '\n' || r == '\t' || r == '\r' || r == ';':
				flush()
			case r == '"':
			case strings.ContainsRune("(),=.", r):
				flush()
				out = append(out, sqlTok{kw: string(r)})
			default:
				buf.WriteRune(r)
			}
		}
	}
	flush()
	return out
}

// sqlMatch matches tokens against a pattern: upper case words are keywords,
// <name> binds an identifier (equal when repeated).
func sqlMatch(toks []sqlTok, pat string, bind map[string]*Term) bool {
	ps := strings.Fields(pat)
	if len(ps) != len(toks) {
		return false
	}
	for i, p := range ps {
		if strings.HasPrefix(p, "<") {
			if toks[i].id == nil {
				return false
			}
			if b := bind[p]; b != nil && b != toks[i].id {
				return false
			}
			bind[p] = toks[i].id
			continue
		}
		if toks[i].kw != p {
			return false
		}
	}
	return true
}

type sqlStmt struct {
	kind       string // select, delete, put, create, lock
	table      *Term
	kcol, vcol *Term
	key, val   *Term
}

func sqlOf(e *Event) *sqlStmt {
	i := strings.LastIndex(e.Callee, ".")
	m := e.Callee[i+1:]
	if m != "Exec" && m != "QueryRow" && m != "Query" || !strings.Contains(e.Callee, "jackc/pgx") {
		return nil
	}
	s := &sqlStmt{}
	var text, args *Term
	for k, a := range e.Args {
		if a.Op == OStr || a.Op == OConcat {
			text = e.Args[k]
			if k+1 < len(e.Snap) {
				args = e.Snap[k+1]
			}
			break
		}
	}
	if text == nil {
		return &sqlStmt{kind: "?"}
	}
	arg := func(ref *Term) *Term {
		if ref == nil || ref.Op != OStr || !strings.HasPrefix(ref.Aux, "$") || args == nil || args.Op != OList {
			return nil
		}
		var n int
		if _, err := fmt.Sscanf(ref.Aux, "$%d", &n); err != nil || n < 1 || n > len(args.Args) {
			return nil
		}
		return unIface(args.Args[n-1])
	}
	toks := sqlTokens(text)
	try := func(kind, pat string) bool {
		b := map[string]*Term{}
		if !sqlMatch(toks, pat, b) {
			return false
		}
		s.kind, s.table, s.kcol, s.vcol = kind, b["<t>"], b["<k>"], b["<v>"]
		s.key, s.val = arg(b["<ka>"]), arg(b["<va>"])
		return true
	}
	for _, x := range [][2]string{
		{"select", "SELECT <v> FROM <t> WHERE <k> = <ka>"},
		{"select", "SELECT <v> FROM <t> WHERE <k> = <ka> LIMIT 1"},
		{"delete", "DELETE FROM <t> WHERE <k> = <ka>"},
		{"put", "INSERT INTO <t> ( <k> , <v> ) VALUES ( <ka> , <va> ) ON CONFLICT ( <k> ) DO UPDATE SET <v> = <va>"},
		{"put", "INSERT INTO <t> ( <k> , <v> ) VALUES ( <ka> , <va> ) ON CONFLICT ( <k> ) DO UPDATE SET <v> = EXCLUDED . <v>"},
		{"put", "INSERT INTO <t> ( <v> , <k> ) VALUES ( <va> , <ka> ) ON CONFLICT ( <k> ) DO UPDATE SET <v> = <va>"},
		{"put", "INSERT INTO <t> ( <v> , <k> ) VALUES ( <va> , <ka> ) ON CONFLICT ( <k> ) DO UPDATE SET <v> = EXCLUDED . <v>"},
		{"create", "CREATE TABLE IF NOT EXISTS <t> ( <k> BYTEA PRIMARY KEY , <v> BYTEA )"},
		{"create", "CREATE TABLE IF NOT EXISTS <t> ( <k> BYTEA PRIMARY KEY , <v> BYTEA NOT NULL )"},
		{"create", "CREATE TABLE IF NOT EXISTS <t> ( <k> BYTEA NOT NULL PRIMARY KEY , <v> BYTEA NOT NULL )"},
		{"create", "CREATE TABLE IF NOT EXISTS <t> ( <k> BYTEA , <v> BYTEA , PRIMARY KEY ( <k> ) )"},
		{"lock", "LOCK TABLE <t> IN EXCLUSIVE MODE"},
		{"lock", "LOCK <t> IN EXCLUSIVE MODE"},
		{"lock", "LOCK TABLE <t>"},
		{"lock", "LOCK TABLE ONLY <t> IN EXCLUSIVE MODE"},
		{"lock", "LOCK TABLE <t> IN ACCESS EXCLUSIVE MODE"},
		{"lock", "LOCK TABLE <t> IN SHARE ROW EXCLUSIVE MODE"},
	} {
		if try(x[0], x[1]) {
			return s
		}
	}
	s.kind = "?"
	return s
}

// ---- accesses of a key-value implementation

type kvAccess struct {
	kind  string // get, put, del, other
	ev    *Event
	place string // where the key is looked up, in terms of the receiver
	via   *Term  // the handle or container reached from the receiver
	key   *Term
	data  *Term
	err   *Term
	table *sqlStmt
}

const (
	boltPkg   = "go.etcd.io/bbolt."
	badgerPkg = "github.com/dgraph-io/badger."
	pgxPkg    = "github.com/jackc/pgx/v5."
)

// bucketOf: a bolt bucket value -> its name and the call that opened it.
func bucketOf(t *Term) (*Event, string) {
	if t.Op != ORes {
		return nil, ""
	}
	e, _ := t.Obj.(*Event)
	if e == nil || !strings.HasPrefix(e.Callee, "(*"+boltPkg+"Tx).") || len(e.Snap) < 2 || e.Snap[1].Op != OStr {
		return nil, ""
	}
	return e, e.Snap[1].Aux
}

func kvAccesses(p *Path) []*kvAccess {
	var out []*kvAccess
	for _, e := range p.St.events {
		a := &kvAccess{ev: e}
		switch {
		case e.Kind == EMapGet && len(e.Args) == 2:
			a.kind, a.via, a.key = "get", e.Loc, e.Args[1]
			if len(e.Res) == 2 {
				a.data = e.Res[0]
			}
			a.place = e.Loc.String()
		case e.Kind == EMapGet:
			a.kind, a.via = "other", e.Loc
		case e.Kind == EMapSet:
			a.kind, a.via, a.key, a.data, a.place = "put", e.Loc, e.Args[1], e.Val, e.Loc.String()
		case e.Kind == EMapDel:
			a.kind, a.via, a.key, a.place = "del", e.Loc, e.Args[1], e.Loc.String()
		case e.Kind != ECall:
			continue
		case strings.HasPrefix(e.Callee, "(*"+boltPkg+"Bucket)."):
			m := strings.TrimPrefix(e.Callee, "(*"+boltPkg+"Bucket).")
			be, name := bucketOf(e.Args[0])
			if be == nil {
				a.kind = "other"
				break
			}
			a.via, a.place = be.Args[0], be.Args[0].String()+"/"+name
			a.err = errOf(e)
			switch m {
			case "Get":
				a.kind, a.key, a.data = "get", e.Snap[1], e.Res[0]
			case "Put":
				a.kind, a.key, a.data = "put", e.Snap[1], e.Snap[2]
			case "Delete":
				a.kind, a.key = "del", e.Snap[1]
			default:
				a.kind = "other"
			}
		case strings.HasPrefix(e.Callee, "(*"+boltPkg+"Tx)."):
			if m := strings.TrimPrefix(e.Callee, "(*"+boltPkg+"Tx)."); m == "DeleteBucket" {
				a.kind = "other"
				break
			}
			continue
		case strings.HasPrefix(e.Callee, "(*"+badgerPkg+"Txn)."):
			m := strings.TrimPrefix(e.Callee, "(*"+badgerPkg+"Txn).")
			a.via, a.place, a.err = e.Args[0], e.Args[0].String(), errOf(e)
			switch m {
			case "Get":
				a.kind, a.key = "get", e.Snap[1]
				for _, v := range p.St.events { // the content of the item found
					if v.Kind != ECall && v.Kind != ETxBegin {
						continue
					}
					switch {
					case v.Callee == "(*"+badgerPkg+"Item).ValueCopy" && v.Args[0] == e.Res[0] && v.Kind == ECall:
						a.data = v.Res[0]
					case v.Callee == "(*"+badgerPkg+"Item).Value" && v.Args[0] == e.Res[0] && v.Kind == ETxBegin:
						a.data = nil
						a.table = &sqlStmt{kind: "item"}
					}
				}
			case "Set":
				a.kind, a.key, a.data = "put", e.Snap[1], e.Snap[2]
			case "Delete":
				a.kind, a.key = "del", e.Snap[1]
			case "SetEntry":
				a.kind = "other"
				if n, ok := unwrap(e.Args[1]).Obj.(*Event); ok && n.Callee == badgerPkg+"NewEntry" {
					a.kind, a.key, a.data = "put", n.Snap[0], n.Snap[1]
				}
			default:
				a.kind = "other"
			}
		case isGet(e):
			a.kind, a.via, a.key, a.place, a.err = "parent", e.Args[0], e.Snap[2], e.Args[0].String(), errOf(e)
		case isSet(e):
			a.kind, a.via = "other", e.Args[0]
		default:
			s := sqlOf(e)
			if s == nil {
				continue
			}
			a.table, a.via, a.err = s, e.Args[0], errOf(e)
			if s.table != nil {
				a.place = e.Args[0].String() + "/" + s.table.String()
			}
			a.key, a.data = s.key, s.val
			switch s.kind {
			case "select":
				a.kind = "get"
				if len(e.Res) != 1 {
					a.kind = "other"
					break
				}
				for _, v := range p.St.events {
					if v.Kind == ECall && strings.HasSuffix(v.Callee, ".Scan") && v.Args[0] == e.Res[0] {
						a.err = errOf(v)
						a.data = v.Outs[200]
					}
				}
			case "put":
				a.kind = "put"
			case "delete":
				a.kind = "del"
			default:
				a.kind = "other"
			}
		}
		out = append(out, a)
	}
	return out
}

// sentinel: the error is known to be (is / is known not to be) the library's
// "no such record" value.
func sentinel(f *Facts, err *Term, neg bool) bool {
	if err == nil {
		return false
	}
	if neg && f.Implies(litNil(err)) {
		return true
	}
	for _, l := range f.lits {
		if l.Neg != neg || l.A.Op != OEQ {
			continue
		}
		o := l.A.Args[0]
		if o == err {
			o = l.A.Args[1]
		} else if l.A.Args[1] != err {
			continue
		}
		for _, s := range []string{"badger.ErrKeyNotFound", "pgx.ErrNoRows", "sql.ErrNoRows"} {
			if o.Op == OSym && strings.HasSuffix(o.Aux, s) {
				return true
			}
		}
	}
	return false
}

// absent / present according to the library's answer.
func (a *kvAccess) absent(f *Facts) bool {
	e := a.ev
	switch {
	case e.Kind == EMapGet:
		if f.Implies(litNil(e.Loc)) {
			return true
		}
		return len(e.Res) == 2 && (f.Implies(Lit{e.Res[1], true}) || f.Implies(litNil(e.Res[0])))
	case strings.HasPrefix(e.Callee, "(*"+boltPkg):
		return f.Implies(litNil(e.Res[0]))
	}
	return sentinel(f, a.err, false)
}

func (a *kvAccess) notAbsent(f *Facts) bool {
	e := a.ev
	switch {
	case e.Kind == EMapGet:
		return len(e.Res) == 2 && f.Implies(Lit{e.Res[1], false})
	case strings.HasPrefix(e.Callee, "(*"+boltPkg):
		return f.Implies(litNil(e.Res[0]).Not())
	}
	return sentinel(f, a.err, true)
}

// holds: data are the bytes the lookup found.
func (a *kvAccess) holds(data *Term) bool {
	if a.data != nil && a.data == data {
		return true
	}
	if cb, ok := data.Obj.(*cbParam); ok && a.table != nil && a.table.kind == "item" {
		return cb.idx == 0 && len(cb.ev.Args) > 0 && cb.ev.Args[0] == a.ev.Res[0]
	}
	return false
}

func isErrNoSuchKey(f *Facts, t *Term) bool {
	return t != nil && (t.Op == OSym && strings.HasSuffix(t.Aux, "verifiable.ErrNoSuchKey") || isNoSuchKey(f, t))
}

// kvImpl is an implementation of KeyReader, with what its operations access.
type kvImpl struct {
	t        types.Type
	name     string
	get, set *exploration
	getFn    *ssa.Function
	setFn    *ssa.Function
}

func (c *Check) kvImpls() []*kvImpl {
	rt := c.typeNamed("verifiable", "KeyReader")
	if rt == nil {
		return nil
	}
	var out []*kvImpl
	for _, t := range c.implementers(rt) {
		g := c.method(t, "Get")
		if g == nil || len(g.Blocks) == 0 || !c.w.InRepo(g) || len(g.Params) != 4 {
			continue
		}
		k := &kvImpl{t: t, name: types.TypeString(t, func(p *types.Package) string { return p.Name() }), getFn: g, get: c.explore(g)}
		if s := c.method(t, "Set"); s != nil && c.w.InRepo(s) && len(s.Params) == 4 {
			k.setFn, k.set = s, c.explore(s)
		}
		out = append(out, k)
		c.count("key-value implementations")
	}
	c.min("key-value implementations", 5)
	return out
}

func checkC10(c *Check) {
	c.assumption("bolt, badger and postgres look up, store and delete exactly the record of the key given; bolt answers nil, badger ErrKeyNotFound and pgx ErrNoRows exactly for absent keys; protobuf encodings of messages are never nil")
	for _, k := range c.kvImpls() {
		places := map[string]bool{}
		overlay := c.kvGet(k, places)
		if k.set == nil {
			continue
		}
		c.kvSet(k, places, overlay)
		var ps []string
		for p := range places {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		c.must(len(ps) == 1, "one place", k.name, k.getFn.Pos(), "reading and writing use different places or encodings of the key: %s", strings.Join(ps, " and "))
	}
}

func (c *Check) kvGet(k *kvImpl, places map[string]bool) (overlay bool) {
	key, value := ParamSym(k.getFn.Params[2]), ParamSym(k.getFn.Params[3])
	n := 0
	for _, p := range k.get.paths {
		for _, a := range kvAccesses(p) {
			overlay = overlay || a.kind == "parent"
		}
	}
	for _, p := range k.get.paths {
		if p.End != "return" {
			continue
		}
		f := p.facts()
		ret := p.retErr()
		construct := k.name + ".Get"
		acc := kvAccesses(p)
		bad := func(rule, s string, a ...any) {
			c.fail(rule, construct, p.Pos, "%s: %s", construct, fmt.Sprintf(s, a...))
		}
		isAbsent, known := false, true
		unwritten, deleted := true, false // of an overlay, where a deleted key is kept with nil
		var parent *kvAccess
		for _, a := range acc {
			if a.kind == "get" && a.ev.Kind == EMapGet {
				two := len(a.ev.Res) == 2
				unwritten = unwritten && (f.Implies(litNil(a.ev.Loc)) || two && f.Implies(Lit{a.ev.Res[1], true}))
				deleted = deleted || two && f.Implies(Lit{a.ev.Res[1], false}) && f.Implies(litNil(a.ev.Res[0]))
			}
			switch a.kind {
			case "get":
				sh, ok := injective(a.key, key, false)
				if a.key == nil || !ok {
					bad("own key", "looks up %s, which is not an encoding of the key asked for", a.key)
					continue
				}
				places[a.place+" "+sh] = true
			case "parent":
				parent = a
				if a.key != key || a.ev.Args[3] != value {
					bad("own key", "asks the underlying reader for %s", a.key)
				}
				continue
			default:
				bad("read only", "reading has effects: %s %s", a.kind, a.ev.Callee)
				continue
			}
			if a.absent(f) {
				isAbsent = true
			}
			if !a.absent(f) && !a.notAbsent(f) {
				known = false
			}
		}
		// the bucket itself may be missing
		for _, e := range p.St.events {
			if e.Kind == ECall && e.Callee == "(*"+boltPkg+"Tx).Bucket" && f.Implies(litNil(e.Res[0])) {
				isAbsent = true
			}
		}
		if len(acc) == 0 && !isAbsent { // an empty map that was never made
			rt := ParamSym(k.getFn.Params[0])
			if st, ok := derefType(rt.Type).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok && f.Implies(litNil(SF(rt, st.Field(i).Name()))) {
						isAbsent = true
					}
				}
			}
		}
		n++
		switch {
		case isErrNoSuchKey(f, ret):
			c.must(isAbsent && parent == nil, "absence", construct, p.Pos, "%s reports no such key without the store having said so (facts %s)", construct, factsBrief(f))
			c.must(!overlay || deleted || parent != nil, "absence", construct, p.Pos, "%s reports no such key although the underlying reader may have it (facts %s)", construct, factsBrief(f))
		case parent != nil:
			c.must(unwritten, "deletion", construct, p.Pos, "%s asks the underlying reader for a key that may have been deleted here (facts %s)", construct, factsBrief(f))
			c.must(ret == parent.err && !hasDecode(p), "delegation", construct, p.Pos, "%s does not pass on the answer of the underlying reader", construct)
		case isAbsent:
			c.fail("absence", construct, p.Pos, "%s: the key is absent and the answer is %s, not ErrNoSuchKey", construct, brief(ret))
		case !known:
			c.fail("absence", construct, p.Pos, "%s answers %s without telling absent keys from others (facts %s)", construct, brief(ret), factsBrief(f))
		case f.Implies(litNil(ret).Not()):
			c.ok("failure", construct)
		default:
			// outcome of the decoding of the bytes found
			ok := false
			why := "nothing is decoded into the caller's message"
			for _, e := range p.St.events {
				if !isDecode(e) || e.Args[len(e.Args)-1] != value {
					continue
				}
				data := e.Snap[len(e.Snap)-2]
				for _, a := range acc {
					if a.kind != "get" {
						continue
					}
					if !a.holds(data) {
						why = "the bytes decoded are " + brief(data)
						continue
					}
					if a.err != nil && !f.Implies(litNil(a.err)) {
						why = "the failure of the lookup is not reported"
						continue
					}
					if er := errOf(e); er == nil || (ret != er && !(f.Implies(litNil(er)) && ret.IsNil())) {
						if lib, isLib := ret.Obj.(*Event); !isLib || lib.Kind != ECall || !f.Implies(litNil(er)) {
							why = "a failure to decode is not reported"
							continue
						}
					}
					ok = true
				}
			}
			c.must(ok, "decoded", construct, p.Pos, "%s may succeed but %s", construct, why)
		}
	}
	if n == 0 {
		c.anchorFail(k.name + ".Get")
	}
	return overlay
}

func isDecode(e *Event) bool {
	return e.Kind == ECall && (e.Callee == "google.golang.org/protobuf/proto.Unmarshal" || e.Callee == "(google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal")
}

func hasDecode(p *Path) bool {
	for _, e := range p.St.events {
		if isDecode(e) {
			return true
		}
	}
	return false
}

func factsBrief(f *Facts) string {
	var s []string
	for _, l := range f.lits {
		s = append(s, l.String())
	}
	r := strings.Join(s, ", ")
	if len(r) > 300 {
		r = r[:300] + "..."
	}
	return r
}

func (c *Check) kvSet(k *kvImpl, places map[string]bool, overlay bool) {
	key, value := ParamSym(k.setFn.Params[2]), ParamSym(k.setFn.Params[3])
	construct := k.name + ".Set"
	dels, puts := 0, 0
	for _, p := range k.set.paths {
		if p.End != "return" || !p.maySucceed() {
			continue
		}
		f := p.facts()
		ret := p.retErr()
		isDel, isPut := f.Implies(litNil(value)), f.Implies(litNil(value).Not())
		if !isDel && !isPut {
			c.fail("nil deletes", construct, p.Pos, "%s treats nil values like others", construct)
			continue
		}
		var eff []*kvAccess
		for _, a := range kvAccesses(p) {
			if a.kind != "get" {
				eff = append(eff, a)
			}
		}
		if len(eff) != 1 {
			c.fail("one effect", construct, p.Pos, "%s may succeed after %d accesses of the store instead of one", construct, len(eff))
			continue
		}
		a := eff[0]
		sh, inj := "", false
		if a.key != nil {
			sh, inj = injective(a.key, key, false)
		}
		if !c.must(inj, "own key", construct, p.Pos, "%s changes %s, which is not an encoding of the key given", construct, a.key) {
			continue
		}
		places[a.place+" "+sh] = true
		if a.err != nil && ret != a.err && !f.Implies(litNil(a.err)) {
			c.fail("failure", construct, p.Pos, "%s does not report the failure of %s", construct, a.ev.Callee)
			continue
		}
		if isDel {
			dels++
			if overlay {
				c.must(a.kind == "put" && a.ev.Kind == EMapSet && (a.data.IsNil() || isNilVal(f, a.data)), "deletion", construct, p.Pos,
					"%s with nil does not hide the key of the underlying reader", construct)
			} else {
				c.must(a.kind == "del", "deletion", construct, p.Pos, "%s with nil does not delete the key (%s)", construct, a.kind)
			}
			continue
		}
		puts++
		if !c.must(a.kind == "put" && a.data != nil, "stored", construct, p.Pos, "%s with a value deletes the key", construct) {
			continue
		}
		d := unIface(a.data)
		okd := a.kind == "put" && d != nil && d.Op == OApp && d.Aux == "proto.Marshal" && d.Args[0] == value
		c.must(okd, "stored", construct, p.Pos, "%s stores %s, not the encoding of the value", construct, brief(a.data))
		if okd {
			er := App("proto.Marshal#1", nil, d.Args...)
			found := false
			for _, e := range p.St.events {
				if e.Kind == ECall && len(e.Res) == 2 && e.Res[0] == d && f.Implies(litNil(e.Res[1])) {
					found = true
				}
			}
			c.must(found || f.Implies(litNil(er)), "failure", construct, p.Pos, "%s stores the result of an encoding that may have failed", construct)
		}
	}
	c.must(dels > 0, "deletion", construct, k.setFn.Pos(), "%s never deletes", construct)
	c.must(puts > 0, "stored", construct, k.setFn.Pos(), "%s never stores", construct)
}
