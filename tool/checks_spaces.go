package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", checkC20, "path-sensitive dataflow over the SSA form of the service operations and of every storage backend: terms of the namespaces used, and of the places a backend derives from a namespace",
		"Every read and queueing of an operation addresses the object hash of exactly account id, name and one constant kind; user logs have one kind, a map and its two logs another, and no API key takes part. Every partition of a backend's transactions hands out a store reached from the namespace by an injective encoding of all of it (or 128 bits of its SHA-256): cache entries, files, tables and maps are looked up, created and kept under the same encoding.")
	register("C08", checkC08, "path-sensitive dataflow over the SSA form of every backend's update, every mutator and the two queueing operations; scan of database options on those partitions",
		"Every partition of an update that may report success ran the function once to success inside the transaction whose commit it knows to have succeeded (the result is the commit's own, or the commit's error is known nil). A synchronous mutator's success partitions carry a committed update, and an operation's success partitions a successful queueing. No option or statement on these partitions weakens synchronous commits.")
	register("C21", checkC21, "lockset analysis on the path-sensitive event sequences of every exported method of the storage backends (lock state per mutex along each partition)",
		"On every partition of every exported method, each lookup, update, deletion, iteration or assignment of the backend's maps happens with the mutex beside them held (exclusively for modifications), locks are paired with unlocks of the same kind and none is held at the end or taken twice; a database is opened only under the exclusive lock after a lookup of its key made under that lock found nothing, and is then recorded; a function given a plain map of the backend runs with the lock held.")
}

// backend is a storage implementation.
type backend struct {
	t            types.Type
	name         string
	recv, ns, fp *Term
	update, read *exploration
	updFn        *ssa.Function
	methods      []*exploration // every exported method
}

func (c *Check) backends() []*backend {
	rt := c.typeNamed("verifiable", "StorageReader")
	if rt == nil {
		return nil
	}
	var out []*backend
	for _, t := range c.implementers(rt) {
		b := &backend{t: t, name: types.TypeString(t, func(p *types.Package) string { return p.Name() })}
		ms := c.w.Prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			o := ms.At(i).Obj().(*types.Func)
			fn := c.w.Prog.FuncValue(o)
			if !o.Exported() || fn == nil || !c.w.InRepo(fn) {
				continue
			}
			e := c.exploreWith(fn, func(ex *Explorer) { ex.readEv = true })
			e.fn = fn
			b.methods = append(b.methods, e)
			switch {
			case o.Name() == "ExecuteReadOnly" && len(fn.Params) == 4:
				b.read = e
			case o.Name() == "ExecuteUpdate" && len(fn.Params) == 4:
				b.update, b.updFn = e, fn
			}
		}
		if b.read == nil {
			c.anchorFail(b.name + ".ExecuteReadOnly")
			continue
		}
		out = append(out, b)
		c.count("backends")
	}
	c.min("backends", 4)
	return out
}

// runs lists the calls of the function a transaction was given.
func runs(fn *ssa.Function, p *Path) []*Event {
	f := ParamSym(fn.Params[len(fn.Params)-1])
	var out []*Event
	for _, e := range p.St.events {
		if (e.Kind == ECall || e.Kind == EGo) && e.Callee == "dyncall" && e.Loc == f {
			out = append(out, e)
		}
	}
	return out
}

// ---- namespaces of backends

// ownField: t is a map kept in a field of the receiver.
func ownField(recv, t *Term) string {
	switch {
	case t.Op == ODeref && t.Args[0].Op == OFieldAd && t.Args[0].Args[0] == recv:
		return t.Args[0].Aux
	case t.Op == OField && t.Args[0].Op == ODeref && t.Args[0].Args[0] == recv:
		return t.Aux
	}
	return ""
}

// spaceOf decides how a value is tied to the namespace.
type spaceOf struct {
	c     *Check
	b     *backend
	fn    *ssa.Function
	p     *Path
	recv  *Term
	ns    *Term
	uses  map[string]map[string]bool // field of the receiver -> shapes of its keys
	place map[string]bool            // shapes of files and tables
}

func (s *spaceOf) use(field, shape string) {
	if s.uses[field] == nil {
		s.uses[field] = map[string]bool{}
	}
	s.uses[field][shape] = true
}

// fieldOfMap: the receiver's map t is (also when it was made on this path).
func (s *spaceOf) fieldOfMap(t *Term) string {
	if n := ownField(s.recv, t); n != "" {
		return n
	}
	for _, e := range s.p.St.events {
		if e.Kind == EStore && e.Val == t && e.Loc.Op == OFieldAd && e.Loc.Args[0] == s.recv {
			return e.Loc.Aux
		}
	}
	return ""
}

// location: text naming a file or table that only this namespace has.
func (s *spaceOf) location(t *Term) bool {
	t = unIface(t)
	if !t.Contains(s.ns) {
		return false
	}
	if t.Op == OApp && strings.HasPrefix(t.Aux, "path") && strings.HasSuffix(t.Aux, ".Join") && len(t.Args) == 1 && t.Args[0].Op == OList {
		sh, n := "", 0
		for _, a := range t.Args[0].Args {
			if !a.Contains(s.ns) {
				if !a.Contains(s.recv) && a.Op != OStr {
					return false
				}
				sh += "/" + a.String()
				continue
			}
			k, ok := injective(a, s.ns, true)
			if !ok { // further parts only have to be determined by it
				sh += "/" + a.String()
				continue
			}
			n++
			sh += "/" + k
		}
		if n == 0 {
			return false
		}
		s.place[sh] = true
		return true
	}
	// parts of the receiver, constants and the encoded namespace
	parts := []*Term{t}
	if t.Op == OConcat {
		parts = t.Args
	}
	sh, n := "", 0
	for _, a := range parts {
		if !a.Contains(s.ns) {
			if a.Op != OStr && !a.Contains(s.recv) {
				return false
			}
			sh += a.String()
			continue
		}
		k, ok := injective(a, s.ns, true)
		if !ok {
			return false
		}
		n++
		sh += k
	}
	if n != 1 {
		return false
	}
	s.place[sh] = true
	return true
}

// keyed: t is something only this namespace reaches.
func (s *spaceOf) keyed(t *Term, d int) bool {
	t = unIface(t)
	if d > 6 || t == nil {
		return false
	}
	f := s.p.facts()
	switch {
	case t.Op == OMapElem:
		fl := s.fieldOfMap(t.Args[0])
		sh, ok := injective(t.Args[1], s.ns, false)
		if fl != "" && ok {
			s.use(fl, sh)
			return true
		}
		return false
	case t.Op == OAlloc:
		for _, e := range s.p.St.events {
			if e.Kind == EMapSet && e.Val == t {
				fl := s.fieldOfMap(e.Loc)
				sh, ok := injective(e.Args[1], s.ns, false)
				if fl != "" && ok {
					s.use(fl, sh)
					return true
				}
			}
		}
		return false
	case t.Op == ONil || t.Op == OZero: // nothing stored yet
		for _, e := range s.p.St.events {
			if e.Kind == EMapGet && len(e.Args) == 2 && s.fieldOfMap(e.Loc) != "" {
				sh, ok := injective(e.Args[1], s.ns, false)
				if ok && (f.Implies(litNil(e.Loc)) || len(e.Res) == 2 && f.Implies(Lit{e.Res[1], true})) {
					s.use(s.fieldOfMap(e.Loc), sh)
					return true
				}
			}
		}
		// the map of namespaces itself was never made
		if st, ok := derefType(s.recv.Type).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Map); !ok {
					continue
				}
				for _, l := range f.lits {
					if l.A.Op == OIsNil && !l.Neg && ownField(s.recv, l.A.Args[0]) == st.Field(i).Name() {
						return true
					}
				}
			}
		}
		return false
	}
	if cb, ok := t.Obj.(*cbParam); ok && len(cb.ev.Args) > 0 {
		return s.keyed(cb.ev.Args[0], d+1)
	}
	if e, ok := t.Obj.(*Event); ok && t.Op == ORes {
		for i, a := range e.Args {
			if s.location(a) || i == 0 && s.keyed(a, d+1) {
				return true
			}
		}
		return false
	}
	return s.location(t)
}

func (s *spaceOf) isText(t *Term) bool { return isStringType(nz(t.Type)) || t.Op == OConcat }

func checkC20(c *Check) {
	c.assumption("namespaces are object hashes (32 bytes); filepath.Join of a directory and a name without separators names one file of that directory; 128 bits of SHA-256 do not collide")
	c.operationSpaces()
	for _, b := range c.backends() {
		uses, place := map[string]map[string]bool{}, map[string]bool{}
		handed := map[string]map[string]bool{} // type of store -> fields tied to the namespace
		n := 0
		for _, e := range b.methods {
			fn := e.fn
			if len(fn.Params) < 1 {
				continue
			}
			var nsT *Term
			if len(fn.Params) == 4 {
				nsT = ParamSym(fn.Params[2])
			}
			for _, p := range e.paths {
				construct := b.name + "." + fn.Name()
				s := &spaceOf{c: c, b: b, fn: fn, p: p, recv: ParamSym(fn.Params[0]), ns: nsT, uses: uses, place: place}
				if nsT == nil {
					for _, ev := range p.St.events {
						if ev.Kind == EMapSet && s.fieldOfMap(ev.Loc) != "" {
							c.fail("cache", construct, ev.Pos, "%s changes the map %s outside a transaction", construct, s.fieldOfMap(ev.Loc))
						}
					}
					continue
				}
				for _, ev := range p.St.events {
					switch {
					case ev.Kind == EMapSet && s.fieldOfMap(ev.Loc) != "":
						fl := s.fieldOfMap(ev.Loc)
						sh, ok := injective(ev.Args[1], nsT, false)
						if c.must(ok, "cache", construct, ev.Pos, "%s keeps an entry of %s under %s, which is not an encoding of the whole namespace", construct, fl, ev.Args[1]) {
							s.use(fl, sh)
						}
						c.must(s.keyed(ev.Val, 0), "cache", construct, ev.Pos, "%s records %s in %s, which is not reached from the namespace alone", construct, brief(ev.Val), fl)
					case ev.Kind == EMapGet && len(ev.Args) == 2 && s.fieldOfMap(ev.Loc) != "":
						fl := s.fieldOfMap(ev.Loc)
						sh, ok := injective(ev.Args[1], nsT, false)
						if c.must(ok, "cache", construct, ev.Pos, "%s looks %s up in %s, which is not an encoding of the whole namespace", construct, ev.Args[1], fl) {
							s.use(fl, sh)
						}
					case ev.Kind == ECall && sqlOf(ev) != nil:
						q := sqlOf(ev)
						if q.kind == "create" || q.kind == "lock" {
							c.must(s.keyed(q.table, 0), "place", construct, ev.Pos, "%s: the table %s is not derived from the whole namespace", construct, brief(q.table))
						} else {
							c.fail("place", construct, ev.Pos, "%s: statement not understood", construct)
						}
					}
				}
				for _, r := range runs(fn, p) {
					n++
					kv := r.Snap[1]
					w := unwrap(kv)
					tied := 0
					if w != nil && w.Op == OStruct {
						st := w.Type.Underlying().(*types.Struct)
						for i := 0; i < st.NumFields(); i++ {
							if s.keyed(w.Args[i], 0) {
								tied++
								k := w.Type.String()
								if handed[k] == nil {
									handed[k] = map[string]bool{}
								}
								handed[k][st.Field(i).Name()] = true
							}
						}
					} else if w != nil && s.keyed(w, 0) {
						tied++
					}
					c.must(tied > 0, "own store", construct, r.Pos, "%s runs the function on %s, which is not reached from the namespace given", construct, brief(kv))
				}
			}
		}
		if n == 0 {
			c.anchorFail(b.name + " transactions")
		}
		for fl, sh := range uses {
			c.must(len(sh) == 1, "one encoding", b.name+" "+fl, b.updPos(), "%s uses different keys for one namespace in %s: %s", b.name, fl, joinKeys(sh))
		}
		c.must(len(place) <= 1, "one encoding", b.name, b.updPos(), "%s derives different places from one namespace: %s", b.name, joinKeys(place))
		// the store's operations go through what is tied to the namespace
		for _, k := range c.kvImpls() {
			fields := handed[k.t.String()]
			if fields == nil {
				continue
			}
			for _, e := range []*exploration{k.get, k.set} {
				if e == nil {
					continue
				}
				fn := k.getFn
				if e == k.set {
					fn = k.setFn
				}
				recv := ParamSym(fn.Params[0])
				for _, p := range e.paths {
					for _, a := range kvAccesses(p) {
						ok := false
						for fl := range fields {
							ft := SF(recv, fl)
							if a.via == ft || a.via != nil && a.via.Contains(ft) || a.table != nil && a.table.table != nil && a.table.table.Contains(ft) {
								ok = true
							}
						}
						c.must(ok, "own store", k.name+"."+fn.Name(), p.Pos, "%s.%s reaches records through something not tied to the namespace", k.name, fn.Name())
					}
				}
			}
		}
	}
}

func (b *backend) updPos() (p token.Pos) {
	if b.updFn != nil {
		return b.updFn.Pos()
	}
	return 0
}

func joinKeys(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, " and ")
}

// operationSpaces: the namespaces the operations address.
func (c *Check) operationSpaces() {
	shape := map[string]map[string]bool{} // group -> constant part and keys
	for _, o := range c.serviceOps() {
		for _, p := range o.e.paths {
			f := p.facts()
			for _, ev := range p.St.events {
				if !isRead(ev) && !isQueue(ev) {
					continue
				}
				ns := unIface(ev.Snap[2])
				construct := o.Name + " " + shortName(ev.Callee)
				m, ok := nsContent(p, ns)
				if !c.must(ok, "namespace", construct, ev.Pos, "%s addresses %s, which is not the object hash of the account, name and kind", o.Name, brief(ns)) {
					continue
				}
				c.count("namespaces used")
				group := "map"
				if !o.IsMap {
					lt := o.refField("LogType")
					switch {
					case mustBe(f, lt, 0):
						group = "log"
					case !mayBe(f, lt, 0):
					default:
						c.fail("kind", construct, ev.Pos, "%s addresses a namespace without knowing the kind of the log", o.Name)
						continue
					}
				}
				var acct, name, kind string
				bad := ""
				var keys []string
				for k, v := range m {
					keys = append(keys, k)
					switch {
					case eqv(f, v, o.refField("Account", "Id")):
						acct = k
					case eqv(f, v, o.refField("Name")):
						name = k
					case v.Op == OStr:
						kind = k + "=" + v.Aux
					default:
						bad = fmt.Sprintf("%s=%s", k, brief(v))
					}
				}
				sort.Strings(keys)
				if !c.must(bad == "" && acct != "" && name != "" && kind != "" && len(keys) == 3, "namespace", construct, ev.Pos,
					"%s: the namespace is the hash of %s%s, not of account id, name and kind", o.Name, strings.Join(keys, ","), bad) {
					continue
				}
				if shape[group] == nil {
					shape[group] = map[string]bool{}
				}
				shape[group][fmt.Sprintf("%s/%s/%s", acct, name, kind)] = true
			}
		}
	}
	for _, g := range []string{"log", "map"} {
		c.must(len(shape[g]) == 1, "kind", g, 0, "objects of kind %s use several namespaces: %s", g, joinKeys(shape[g]))
	}
	same := false
	for k := range shape["log"] {
		if shape["map"][k] {
			same = true
		}
	}
	c.must(!same, "kind", "log and map", 0, "logs and maps share namespaces")
	c.min("namespaces used", 9)
}

// ---- C08

// committing transaction functions: commit when the function succeeds, roll
// back otherwise, report failures of either.
var committing = map[string]bool{
	"(*" + boltPkg + "DB).Update":       true,
	"(*" + badgerPkg + "DB).Update":     true,
	"github.com/jackc/pgx/v5.BeginFunc": true,
}

func (c *Check) updateCommits(b *backend) {
	e, fn := b.update, b.updFn
	construct := b.name + ".ExecuteUpdate"
	succ := 0
	for _, p := range e.paths {
		if p.End != "return" || p.retErr() == nil {
			continue
		}
		f := p.facts()
		ret := p.retErr()
		rs := runs(fn, p)
		if !p.maySucceed() {
			c.ok("failure", construct)
			continue
		}
		succ++
		if !c.must(len(rs) == 1, "inside", construct, p.Pos, "%s may report success having run the function %d times", construct, len(rs)) {
			continue
		}
		r := rs[0]
		plain := plainStore(r.Snap[1])
		switch {
		case ret == errOf(r) && plain:
			c.ok("commit", construct)
			continue
		case ret == errOf(r):
			c.fail("commit", construct, p.Pos, "%s reports the function's own result without a commit", construct)
			continue
		}
		c.must(succeeded(f, r), "commit", construct, p.Pos, "%s may report success although the function failed", construct)
		if plain {
			continue
		}
		done := false
		for _, x := range p.St.events {
			switch {
			case x.Kind == ETxEnd && x.OK && x.Of != nil && committing[x.Of.Callee]:
				for _, y := range p.St.events {
					if y.Kind == ETxBegin && y.Of == x.Of && y.Seq < r.Seq && r.Seq < x.Seq && cbIn(r.Snap[1], x.Of) {
						done = true
					}
				}
			case isCommit(x) && x.Seq > r.Seq && snapHas(r.Snap[1], x.Args[0]):
				if ret == errOf(x) || f.Implies(litNil(errOf(x))) {
					done = true
				}
			}
		}
		c.must(done, "commit", construct, p.Pos, "%s may report success without a successful commit of the transaction the function wrote to", construct)
	}
	c.must(succ > 0, "commit", construct, fn.Pos(), "%s never succeeds", construct)
}

// updateAborts: an unsuccessful function never has its transaction committed.
func (c *Check) updateAborts(b *backend) {
	e, fn := b.update, b.updFn
	construct := b.name + ".ExecuteUpdate"
	for _, p := range e.paths {
		if p.End != "return" || p.retErr() == nil {
			continue
		}
		f := p.facts()
		ret := p.retErr()
		rs := runs(fn, p)
		// an unsuccessful function never has its transaction committed
		for _, r := range rs {
			if r.Kind == EGo {
				c.fail("inside", construct, r.Pos, "%s runs the function in another goroutine", construct)
			}
			for _, x := range p.St.events {
				if x.Seq <= r.Seq {
					continue
				}
				if isCommit(x) && !succeeded(p.at(x), r) {
					c.fail("abort", construct, x.Pos, "%s commits although the function may have failed", construct)
				}
				if x.Kind == ETxEnd && x.OK && !succeeded(f, r) {
					c.fail("abort", construct, x.Pos, "%s hides a failure of the function from the transaction", construct)
				}
			}
			if failed(f, r) {
				c.must(f.Implies(litNil(ret).Not()), "abort", construct, p.Pos, "%s does not report that the function failed", construct)
			}
		}
		for _, x := range p.St.events {
			if isCommit(x) && (len(rs) == 0 || x.Seq < rs[0].Seq) {
				if len(rs) > 0 && x.Args[0].Op == ORes && snapHas(rs[0].Snap[1], x.Args[0]) {
					c.fail("inside", construct, x.Pos, "%s commits before the function ran", construct)
				}
			}
		}
		c.count("partitions of updates")
	}
}

func isCommit(e *Event) bool {
	return e.Kind == ECall && strings.HasSuffix(e.Callee, ").Commit") && errOf(e) != nil && len(e.Args) > 0
}

func snapHas(s, t *Term) bool { return s != nil && s.Contains(t) }

func cbIn(s *Term, of *Event) bool {
	return s != nil && s.Any(func(t *Term) bool {
		cb, ok := t.Obj.(*cbParam)
		return ok && cb.ev == of
	})
}

// plainStore: the store handed out is a plain Go map.
func plainStore(s *Term) bool {
	w := unwrap(s)
	if w == nil || w.Op != OStruct {
		return false
	}
	st := w.Type.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Map); !ok {
			return false
		}
	}
	return st.NumFields() > 0
}

// durable: nothing on the partition switches synchronous commits off.
func (c *Check) durable(b *backend, e *exploration) {
	construct := b.name
	for _, p := range e.paths {
		for _, x := range p.St.events {
			switch {
			case x.Kind == EStore && x.Loc.Op == OFieldAd && noSync(x.Loc.Aux, x.Val):
				c.fail("durability", construct, x.Pos, "%s sets %s of its database to %s", b.name, x.Loc.Aux, brief(x.Val))
			case x.Kind == ECall && strings.Contains(x.Callee, "WithSyncWrites") || x.Kind == ECall && strings.HasSuffix(x.Callee, "WithInMemory"):
				want := tTrue
				if strings.HasSuffix(x.Callee, "WithInMemory") {
					want = tFalse
				}
				c.must(x.Args[len(x.Args)-1] == want, "durability", construct, x.Pos, "%s weakens the database's durability", b.name)
			case x.Kind == ECall:
				for _, s := range x.Snap {
					s.Any(func(t *Term) bool {
						if t.Op == OStruct && t.Type != nil {
							st, ok := t.Type.Underlying().(*types.Struct)
							if !ok || !strings.Contains(t.Type.String(), "bolt") && !strings.Contains(t.Type.String(), "badger") {
								return false
							}
							for i := 0; i < st.NumFields() && i < len(t.Args); i++ {
								if noSync(st.Field(i).Name(), t.Args[i]) {
									c.fail("durability", construct, x.Pos, "%s opens its database with %s", b.name, st.Field(i).Name())
								}
							}
						}
						if t.Op == OStr {
							u := strings.ToLower(t.Aux)
							if strings.Contains(u, "synchronous_commit") || strings.Contains(u, "unlogged") || strings.Contains(u, "fsync") || strings.Contains(u, "temporary table") || strings.Contains(u, "temp table") {
								c.fail("durability", construct, x.Pos, "%s issues the statement %q", b.name, t.Aux)
							}
						}
						return false
					})
				}
				c.ok("durability", construct)
			}
		}
	}
}

func noSync(field string, v *Term) bool {
	switch field {
	case "NoSync", "NoGrowSync", "InMemory":
		return !isFalse(v)
	case "SyncWrites":
		return v != tTrue
	}
	return false
}

func (c *Check) mutators() []*ssa.Function {
	mt := c.typeNamed("verifiable", "MutatorService")
	if mt == nil {
		return nil
	}
	var out []*ssa.Function
	for _, t := range c.implementers(mt) {
		if fn := c.method(t, "QueueMutation"); fn != nil && c.w.InRepo(fn) && len(fn.Params) == 4 {
			out = append(out, fn)
			c.count("mutators")
		}
	}
	c.min("mutators", 2)
	return out
}

const fApply = modPath + "/verifiable.ApplyMutation"

func opaqueApply(ex *Explorer) {
	ex.opaque = func(fn *ssa.Function) bool { return fullName(fn) == fApply }
}

func checkC08(c *Check) {
	c.assumption("bolt's and badger's DB.Update commit, synchronously, exactly when the function returns nil and report the commit's failure; a pgx transaction's Commit returns nil only once committed")
	for _, b := range c.backends() {
		if b.update == nil {
			continue
		}
		c.updateCommits(b)
		c.updateAborts(b)
		for _, e := range b.methods {
			c.durable(b, e)
		}
	}
	sync := 0
	for _, fn := range c.mutators() {
		e := c.exploreWith(fn, opaqueApply)
		name := fn.RelString(nil)
		name = strings.ReplaceAll(name, modPath+"/", "")
		isSync := false
		for _, p := range e.paths {
			for _, x := range p.St.events {
				if x.Kind == ECall && x.Callee == mUpdate {
					isSync = true
				}
			}
		}
		for _, p := range e.paths {
			if p.End != "return" || !p.maySucceed() {
				continue
			}
			ok := false
			for _, x := range p.St.events {
				if isSync && x.Kind == ETxEnd && x.OK && x.Of.Callee == mUpdate {
					ok = true
				}
				if !isSync && x.Kind == ESend {
					ok = true
				}
			}
			what := "without having queued the mutation"
			if isSync {
				what = "without a committed update"
			}
			c.must(ok, "mutator", name, p.Pos, "%s may report success %s", name, what)
		}
		if isSync {
			sync++
		}
	}
	c.must(sync > 0, "mutator", "synchronous mutator", 0, "no mutator applies its mutation in an update before it returns")
	for _, o := range c.serviceOps() {
		queues := false
		for _, p := range o.e.paths {
			for _, x := range p.St.events {
				queues = queues || isQueue(x)
			}
		}
		if !queues {
			continue
		}
		c.count("queueing operations")
		for _, p := range o.e.paths {
			if p.End != "return" || !p.maySucceed() {
				continue
			}
			ok := false
			for _, x := range p.St.events {
				if isQueue(x) && succeeded(p.facts(), x) {
					ok = true
				}
			}
			c.must(ok, "operation", o.Name, p.Pos, "%s may report success although queueing the mutation failed", o.Name)
		}
	}
	c.min("queueing operations", 2)
}

// ---- C21

func checkC21(c *Check) {
	c.assumption("sync.Mutex and sync.RWMutex exclude as documented; database handles of bolt and badger and pools of pgx may be shared between goroutines")
	for _, b := range c.backends() {
		c.lockset(b)
	}
	c.min("accesses of shared maps", 10)
	c.min("databases opened", 2)
}

type lockState struct {
	mode string // "", "R", "W"
	at   int
}

func (c *Check) lockset(b *backend) {
	// the maps of the receiver and the mutexes beside them
	st, ok := derefType(b.t).Underlying().(*types.Struct)
	if !ok {
		return
	}
	maps := map[string]bool{}
	mutexes := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		if _, ok := fl.Type().Underlying().(*types.Map); ok {
			maps[fl.Name()] = true
		}
		if s := derefType(fl.Type()).String(); s == "sync.RWMutex" || s == "sync.Mutex" {
			mutexes[fl.Name()] = true
		}
	}
	if len(maps) == 0 {
		c.must(false, "anchor", b.name, b.updPos(), "%s keeps no map the analysis recognises", b.name)
		return
	}
	for _, e := range b.methods {
		fn := e.fn
		construct := b.name + "." + fn.Name()
		recv := ParamSym(fn.Params[0])
		for _, p := range e.paths {
			held := map[*Term]*lockState{}
			s := &spaceOf{c: c, b: b, fn: fn, p: p, recv: recv}
			best := func() *lockState {
				r := &lockState{}
				for mu, h := range held {
					if mu.Op == OFieldAd && mu.Args[0] == recv && mutexes[mu.Aux] && (r.mode == "" || h.mode == "W") && h.mode != "" {
						r = h
					}
				}
				return r
			}
			need := func(w bool, ev *Event, what string) {
				c.count("accesses of shared maps")
				h := best()
				ok := h.mode == "W" || h.mode == "R" && !w
				m := "held"
				if w {
					m = "held exclusively"
				}
				c.must(ok, "locked", construct, ev.Pos, "%s %s without its lock %s", construct, what, m)
			}
			inner := map[*Term]bool{}
			isShared := func(t *Term) string {
				if n := s.fieldOfMap(t); n != "" && maps[n] {
					return n
				}
				if t.Op == OMapElem {
					if n := s.fieldOfMap(t.Args[0]); maps[n] {
						return n
					}
				}
				if inner[t] {
					return "an entry"
				}
				return ""
			}
			for _, ev := range p.St.events {
				if ev.Kind == ECall || ev.Kind == EGo {
					if m, _ := lockCall(ev.Callee); m != "" {
						mu := ev.Args[0]
						h := held[mu]
						if h == nil {
							h = &lockState{}
							held[mu] = h
						}
						switch m {
						case "Lock", "RLock":
							c.must(h.mode == "", "released", construct, ev.Pos, "%s takes a lock it already holds", construct)
							h.mode, h.at = map[string]string{"Lock": "W", "RLock": "R"}[m], ev.Seq
							if strings.HasPrefix(ev.Callee, "(*sync.Mutex)") {
								h.mode = "W"
							}
						case "Unlock", "RUnlock":
							want := map[string]string{"Unlock": "W", "RUnlock": "R"}[m]
							c.must(h.mode == want, "released", construct, ev.Pos, "%s calls %s without holding the lock so", construct, m)
							h.mode = ""
						default:
							c.fail("locked", construct, ev.Pos, "%s uses %s", construct, m)
						}
						continue
					}
				}
				switch {
				case ev.Kind == EGo:
					if ev.Fn != nil || ev.Callee == "dyncall" {
						c.fail("locked", construct, ev.Pos, "%s starts a goroutine", construct)
					}
				case ev.Kind == EReadFld:
					if ev.Loc.Op == OFieldAd && ev.Loc.Args[0] == recv && maps[ev.Loc.Aux] {
						need(false, ev, "reads "+ev.Loc.Aux)
					}
				case ev.Kind == EStore:
					if ev.Loc.Op == OFieldAd && ev.Loc.Args[0] == recv && maps[ev.Loc.Aux] {
						need(true, ev, "assigns "+ev.Loc.Aux)
					}
				case ev.Kind == EMapGet:
					if n := isShared(ev.Loc); n != "" {
						need(false, ev, "reads "+n)
					}
				case ev.Kind == EMapSet || ev.Kind == EMapDel:
					if n := isShared(ev.Loc); n != "" {
						need(true, ev, "changes "+n)
						if ev.Val != nil && ev.Val.Op == OAlloc {
							inner[ev.Val] = true
						}
						c.opened(construct, s, p, ev, best())
					}
				case ev.Kind == ECall && ev.Callee == "dyncall":
					// the function works on a map of the backend
					uses := false
					for _, a := range ev.Snap {
						w := unwrap(a)
						if w == nil {
							continue
						}
						for _, x := range append([]*Term{w}, fieldsOf(w)...) {
							if x.Type != nil && isShared(x) != "" {
								if _, ok := x.Type.Underlying().(*types.Map); ok {
									uses = true
								}
							}
						}
					}
					if uses || plainStore(ev.Snap[1]) {
						need(e == b.update, ev, "runs the function on its data")
					}
				case ev.Kind == ECall && opens(ev):
					c.openOnce(construct, s, p, ev, best())
				}
			}
			if p.End == "return" || p.End == "panic" || p.End == "exit" {
				for _, h := range held {
					c.must(h.mode == "" || p.End == "exit", "released", construct, p.Pos, "%s ends with the lock held", construct)
				}
			}
			if p.End == "backedge" && p.Loop != nil {
				c.loopBalance(construct, p)
			}
		}
	}
}

// loopBalance: an iteration releases what it took.
func (c *Check) loopBalance(construct string, p *Path) {
	n := map[*Term]int{}
	for i := len(p.St.events) - 1; i >= 0; i-- {
		e := p.St.events[i]
		if e.Kind == ELoop && e.Loop == p.Loop {
			break
		}
		if e.Kind != ECall {
			continue
		}
		switch m, _ := lockCall(e.Callee); m {
		case "Lock", "RLock":
			n[e.Args[0]]++
		case "Unlock", "RUnlock":
			n[e.Args[0]]--
		}
	}
	for _, k := range n {
		c.must(k == 0, "released", construct, p.Pos, "%s: an iteration changes the lock's state", construct)
	}
}

// opens: the call opens a database.
func opens(e *Event) bool {
	return e.Callee == boltPkg+"Open" || e.Callee == badgerPkg+"Open" || strings.HasPrefix(e.Callee, badgerPkg+"OpenManaged")
}

// openOnce: the database is opened under the exclusive lock, after a lookup under
// that lock.
func (c *Check) openOnce(construct string, s *spaceOf, p *Path, ev *Event, h *lockState) {
	c.count("databases opened")
	if !c.must(h.mode == "W", "opened once", construct, ev.Pos, "%s opens a database without the exclusive lock", construct) {
		return
	}
	f := p.at(ev)
	checked := false
	for _, x := range p.St.events {
		if x.Seq <= h.at || x.Seq >= ev.Seq {
			continue
		}
		if x.Kind == EMapGet && len(x.Args) == 2 && s.fieldOfMap(x.Loc) != "" {
			if x.Loc.Op == OAlloc || f.Implies(litNil(x.Loc)) || len(x.Res) == 2 && (f.Implies(Lit{x.Res[1], true}) || f.Implies(litNil(x.Res[0]))) {
				checked = true
			}
		}
		if x.Kind == EStore && x.Val != nil && x.Val.Op == OAlloc && s.fieldOfMap(x.Val) != "" {
			checked = true // all new
		}
	}
	c.must(checked, "opened once", construct, ev.Pos, "%s opens a database without looking again whether it is open, having obtained the exclusive lock", construct)
	if er := errOf(ev); er != nil && p.facts().Implies(litNil(er)) {
		kept := false
		for _, x := range p.St.events {
			if x.Kind == EMapSet && x.Seq > ev.Seq && s.fieldOfMap(x.Loc) != "" && unIface(x.Val) == ev.Res[0] {
				held := true
				for _, y := range p.St.events {
					if m, _ := lockCall(y.Callee); m == "Unlock" && y.Kind == ECall && y.Seq > ev.Seq && y.Seq < x.Seq {
						held = false
					}
				}
				kept = kept || held
			}
		}
		c.must(kept, "opened once", construct, ev.Pos, "%s opens a database and does not record it under the lock", construct)
	}
}

func (c *Check) opened(construct string, s *spaceOf, p *Path, ev *Event, h *lockState) {
	e, ok := unIface(ev.Val).Obj.(*Event)
	if !ok || e.Kind != ECall || ev.Val.Op != ORes {
		return
	}
	if er := errOf(e); er != nil {
		c.must(p.at(ev).Implies(litNil(er)), "opened once", construct, ev.Pos, "%s records a database whose opening failed", construct)
	}
}

func fieldsOf(t *Term) []*Term {
	if t.Op == OStruct {
		return t.Args
	}
	return nil
}
