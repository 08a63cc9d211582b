package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C40", checkC40, "syntactic and dataflow rules over the SSA form of every use of a database library or of the file system: options of opened databases, where their paths come from, the text of the SQL statements, and every call that removes something",
		"A database is opened with syncing on, not in memory, not read-only, and at a place that is computed from the configuration and the namespace and is the same at every start; tables are permanent ones with the columns the statements use, a unique key and types that take any bytes; no record is given an expiry; and nothing removes what is stored: records are deleted only by a writer's Set, no part of the library sets a record to nothing, and no table, bucket, database or file is dropped, truncated, renamed or overwritten. The server serves from the store that its mutator writes to, at the configured place.")
}

func checkC40(c *Check) {
	c.assumption("the database libraries keep what they say they keep with these options; what the configuration names is permanent storage; the in-memory store keeps nothing and is excluded, as are the load generator and the example")
	d := &durable{c: c, set: map[*ssa.Function]bool{}}
	if kw := c.typeNamed("verifiable", "KeyWriter"); kw != nil {
		for _, t := range c.implementers(kw) {
			ms := c.w.Prog.MethodSets.MethodSet(types.NewPointer(t))
			for i := 0; i < ms.Len(); i++ {
				if fn := c.w.Prog.FuncValue(ms.At(i).Obj().(*types.Func)); fn != nil && fn.Name() == "Set" {
					d.set[fn] = true
				}
			}
		}
	}
	d.callers = map[*ssa.Function][]*ssa.Function{}
	d.closures = map[*ssa.Function]*ssa.MakeClosure{}
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					d.closures[mc.Fn.(*ssa.Function)] = mc
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						d.callers[g] = append(d.callers[g], f)
					}
				}
			}
		}
	}
	for _, f := range c.w.Funcs {
		p := fnPkg(f)
		if p == nil || !c.w.InRepo(f) || generated(p) || f.Blocks == nil {
			continue
		}
		if strings.HasSuffix(p.Pkg.Path(), "/cmd/vdbload") || strings.HasSuffix(p.Pkg.Path(), "/cmd/vdbexample") || strings.HasSuffix(p.Pkg.Path(), "/storage/memory") {
			continue
		}
		c.count("functions")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				d.option(f, in)
				if ci, ok := in.(ssa.CallInstruction); ok {
					d.call(f, in, ci.Common())
				}
			}
		}
	}
	d.tables()
	d.served()
	c.min("databases opened", 2)
	c.min("SQL statements", 4)
	c.min("records deleted", 2)
	c.min("records set", 5)
}

type durable struct {
	c        *Check
	set      map[*ssa.Function]bool
	callers  map[*ssa.Function][]*ssa.Function
	closures map[*ssa.Function]*ssa.MakeClosure
	sql      []sqlUse
}

type sqlUse struct {
	fn   *ssa.Function
	pos  token.Pos
	text string
}

// libOf: the database library a type or function belongs to.
func libOf(path string) string {
	switch {
	case strings.HasPrefix(path, "go.etcd.io/bbolt"):
		return "bbolt"
	case strings.HasPrefix(path, "github.com/dgraph-io/badger"):
		return "badger"
	case strings.HasPrefix(path, "github.com/jackc/pgx"), path == "database/sql":
		return "sql"
	}
	return ""
}

// optionWants: the options that decide whether what is committed is kept, and what they have to be.
var optionWants = map[string]bool{
	"bbolt.NoSync": false, "bbolt.NoGrowSync": false, "bbolt.ReadOnly": false,
	"badger.SyncWrites": true, "badger.InMemory": false, "badger.ReadOnly": false, "badger.BypassLockGuard": false,
}

func (d *durable) option(f *ssa.Function, in ssa.Instruction) {
	st, ok := in.(*ssa.Store)
	if !ok {
		return
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return
	}
	lib := libOf(n.Obj().Pkg().Path())
	s, ok := n.Underlying().(*types.Struct)
	if lib == "" || !ok {
		return
	}
	name := s.Field(fa.Field).Name()
	if name == "ExpiresAt" {
		d.c.must(zeroConst(st.Val), "expiry", shortFn(f), st.Pos(), "%s gives a record a time at which it disappears", shortFn(f))
	}
	d.setOption(f, st.Pos(), lib, name, st.Val)
}

func zeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) == 0
}

func (d *durable) setOption(f *ssa.Function, pos token.Pos, lib, name string, v ssa.Value) {
	want, ok := optionWants[lib+"."+name]
	if !ok {
		return
	}
	d.c.count("options")
	k, ok := v.(*ssa.Const)
	d.c.must(ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) == want, "option", shortFn(f), pos,
		"%s opens the database with %s other than %v, so that what was acknowledged may be lost or not be stored at all", shortFn(f), name, want)
}

func (d *durable) call(f *ssa.Function, in ssa.Instruction, cc *ssa.CallCommon) {
	c := d.c
	me := shortFn(f)
	if cc.IsInvoke() {
		if cc.Method.Name() == "Set" && len(cc.Args) == 3 && isCtxType(cc.Args[0].Type()) {
			c.count("records set")
			k, ok := unIfaceValue(cc.Args[2]).(*ssa.Const)
			c.must(!(ok && k.IsNil()), "deleted", me, in.Pos(), "%s deletes a record", me)
		}
		if cc.Method.Pkg() != nil && libOf(cc.Method.Pkg().Path()) == "sql" {
			d.statement(f, in.Pos(), cc.Args)
		}
		return
	}
	g := cc.StaticCallee()
	if g == nil || g.Pkg == nil && g.Object() == nil {
		return
	}
	path := ""
	if o := g.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	lib := libOf(path)
	name := g.Name()
	switch {
	case lib == "sql":
		d.statement(f, in.Pos(), cc.Args)
	case lib != "" && strings.HasPrefix(name, "With") && len(cc.Args) == 2:
		d.setOption(f, in.Pos(), lib, strings.TrimPrefix(name, "With"), cc.Args[1])
		if name == "WithTTL" {
			c.must(false, "expiry", me, in.Pos(), "%s gives a record a time at which it disappears", me)
		}
	}
	switch {
	case lib == "badger" && (name == "DefaultOptions" || name == "Open"), lib == "bbolt" && name == "Open":
		if lib == "bbolt" || name == "DefaultOptions" {
			c.count("databases opened")
			d.place(f, in.Pos(), cc.Args[0])
		}
	case lib != "" && (name == "SetWithTTL"):
		c.must(false, "expiry", me, in.Pos(), "%s gives a record a time at which it disappears", me)
	case lib != "" && (name == "DropAll" || name == "DropPrefix" || name == "DeleteBucket" || name == "SetWithDiscard"):
		c.must(false, "removed", me, in.Pos(), "%s removes what is stored (%s)", me, name)
	case (lib == "badger" || lib == "bbolt") && name == "Delete":
		c.count("records deleted")
		c.must(d.onlySet(f, map[*ssa.Function]bool{}), "deleted", me, in.Pos(), "%s deletes a record other than for a writer's Set", me)
	case path == "os" && g.Signature.Recv() == nil:
		switch name {
		case "Remove", "RemoveAll", "Truncate", "Rename", "Create", "WriteFile":
			c.must(false, "removed", me, in.Pos(), "%s may remove what is stored (os.%s)", me, name)
		}
	case path == "os" && name == "Truncate", path == "syscall" && (name == "Unlink" || name == "Rename" || name == "Rmdir" || name == "Truncate"):
		c.must(false, "removed", me, in.Pos(), "%s may remove what is stored (%s)", me, name)
	}
}

// onlySet: f is a writer's Set, or used by nothing else.
func (d *durable) onlySet(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if d.set[f] || seen[f] {
		return true
	}
	seen[f] = true
	if f.Parent() != nil {
		return d.onlySet(f.Parent(), seen)
	}
	if o := f.Object(); o == nil || o.Exported() && f.Signature.Recv() == nil {
		return false
	}
	if len(d.callers[f]) == 0 {
		return false
	}
	for _, g := range d.callers[f] {
		if !d.onlySet(g, seen) {
			return false
		}
	}
	return true
}

// place: where the database is kept is the same at every start.
func (d *durable) place(f *ssa.Function, pos token.Pos, v ssa.Value) {
	bad := ""
	configured := false
	d.slice(f, v, func(x ssa.Value) {
		switch x := x.(type) {
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				switch x.Call.Args[0].Type().Underlying().(type) {
				case *types.Map, *types.Chan:
					bad = "how many were opened before"
				}
			}
			g := x.Call.StaticCallee()
			if g == nil || g.Object() == nil || g.Object().Pkg() == nil {
				return
			}
			switch p := g.Object().Pkg().Path(); {
			case p == "time", p == "math/rand", p == "math/rand/v2", p == "crypto/rand", strings.Contains(p, "uuid"):
				bad = callName(&x.Call)
			case p == "flag", p == "os" && (g.Name() == "Getenv" || g.Name() == "LookupEnv"):
				configured = true
			case p == "os" && (g.Name() == "TempDir" || g.Name() == "MkdirTemp" || g.Name() == "CreateTemp" || g.Name() == "Getpid" || g.Name() == "Getppid"):
				bad = callName(&x.Call)
			case p == "io/ioutil" && (g.Name() == "TempDir" || g.Name() == "TempFile"):
				bad = callName(&x.Call)
			}
		case *ssa.Lookup, *ssa.Next:
			bad = "what was opened before"
		case *ssa.FieldAddr:
			configured = true
			if pt, ok := x.Type().Underlying().(*types.Pointer); ok {
				if b, ok := pt.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 && d.changed(x) {
					bad = "a number that changes"
				}
			}
		case *ssa.Field, *ssa.Global:
			configured = true
		}
	})
	d.c.must(bad == "", "place", shortFn(f), pos, "%s opens a database at a place that is another one at every start (%s)", shortFn(f), bad)
	d.c.must(configured, "place", shortFn(f), pos, "%s opens a database at a place that nothing configures", shortFn(f))
}

// changed: the field is written somewhere other than where its object is made.
func (d *durable) changed(fa *ssa.FieldAddr) bool {
	for _, f := range d.c.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				o, ok := st.Addr.(*ssa.FieldAddr)
				if ok && o.Field == fa.Field && types.Identical(o.X.Type(), fa.X.Type()) {
					if _, made := o.X.(*ssa.Alloc); !made {
						return true
					}
				}
			}
		}
	}
	return false
}

// slice visits the values v is computed from, through the functions of the repository.
func (d *durable) slice(f *ssa.Function, v ssa.Value, visit func(ssa.Value)) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, depth int)
	walk = func(v ssa.Value, depth int) {
		if v == nil || seen[v] || depth > 60 {
			return
		}
		seen[v] = true
		visit(v)
		switch v := v.(type) {
		case *ssa.FieldAddr, *ssa.Field:
			return // what a field holds is configured elsewhere
		case *ssa.Parameter:
			g := v.Parent()
			for i, p := range g.Params {
				if p != v {
					continue
				}
				for _, h := range d.callers[g] {
					for _, b := range h.Blocks {
						for _, in := range b.Instrs {
							if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == g && i < len(ci.Common().Args) {
								walk(ci.Common().Args[i], depth+1)
							}
						}
					}
				}
			}
			return
		case *ssa.FreeVar:
			if mc := d.closures[v.Parent()]; mc != nil {
				for i, fv := range v.Parent().FreeVars {
					if fv == v {
						walk(mc.Bindings[i], depth+1)
					}
				}
			}
			return
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				d.stored(r, v, func(x ssa.Value) { walk(x, depth+1) })
			}
			return
		case *ssa.Global:
			if v.Pkg != nil && d.c.w.inRepoPkg(v.Pkg) {
				for _, g := range d.c.w.Funcs {
					if fnPkg(g) != v.Pkg {
						continue
					}
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(v) {
								walk(st.Val, depth+1)
							}
						}
					}
				}
			}
			return
		case *ssa.Call:
			if g := v.Call.StaticCallee(); g != nil && d.c.w.InRepo(g) && g.Blocks != nil {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, x := range r.Results {
							walk(x, depth+1)
						}
					}
				}
				return
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				if *o != nil {
					walk(*o, depth+1)
				}
			}
		}
	}
	walk(v, 0)
}

// stored: what an instruction puts into the memory of a, or into a part of it.
func (d *durable) stored(r ssa.Instruction, a ssa.Value, f func(ssa.Value)) {
	switch r := r.(type) {
	case *ssa.Store:
		if r.Addr == a {
			f(r.Val)
		}
	case *ssa.FieldAddr:
		for _, x := range *r.Referrers() {
			d.stored(x, r, f)
		}
	case *ssa.IndexAddr:
		for _, x := range *r.Referrers() {
			d.stored(x, r, f)
		}
	}
}

func (d *durable) statement(f *ssa.Function, pos token.Pos, args []ssa.Value) {
	var q ssa.Value
	for _, a := range args {
		if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			q = a
			break
		}
	}
	if q == nil {
		return
	}
	var parts []string
	d.slice(f, q, func(x ssa.Value) {
		if k, ok := x.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			parts = append(parts, constant.StringVal(k.Value))
		}
	})
	d.sql = append(d.sql, sqlUse{f, pos, strings.Join(parts, " ")})
}

var sqlWord = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*|\$[0-9]+|[(),]`)
var sqlColumn = regexp.MustCompile(`(?is)([a-z_][a-z_0-9]*)\s+(bytea|[a-z]+(?:\s*\([0-9, ]*\))?)([^,()]*)`)

func (d *durable) tables() {
	c := d.c
	created := map[string]string{} // column: type
	unique := map[string]bool{}
	var where *sqlUse
	for i := range d.sql {
		u := &d.sql[i]
		words := sqlWord.FindAllString(strings.ToUpper(u.text), -1)
		if len(words) == 0 {
			continue
		}
		has := map[string]bool{}
		for _, w := range words {
			has[w] = true
		}
		if !has["SELECT"] && !has["INSERT"] && !has["DELETE"] && !has["CREATE"] && !has["LOCK"] && !has["SET"] && !has["DROP"] && !has["TRUNCATE"] && !has["ALTER"] && !has["UPDATE"] {
			continue
		}
		me := shortFn(u.fn)
		c.count("SQL statements")
		for _, w := range []string{"DROP", "TRUNCATE", "ALTER"} {
			c.must(!has[w], "removed", me, u.pos, "%s removes or changes what is stored (%s)", me, w)
		}
		for _, w := range []string{"UNLOGGED", "TEMP", "TEMPORARY", "SYNCHRONOUS_COMMIT"} {
			c.must(!has[w], "option", me, u.pos, "%s keeps what was acknowledged in a way that loses it (%s)", me, w)
		}
		if has["DELETE"] {
			c.must(has["WHERE"], "removed", me, u.pos, "%s deletes every record", me)
			c.count("records deleted")
			c.must(d.onlySet(u.fn, map[*ssa.Function]bool{}), "deleted", me, u.pos, "%s deletes records other than for a writer's Set", me)
		}
		if has["CREATE"] && has["TABLE"] {
			where = u
			i := strings.Index(u.text, "(")
			j := strings.LastIndex(u.text, ")")
			if i < 0 || j < i {
				continue
			}
			for _, col := range splitColumns(u.text[i+1 : j]) {
				w := sqlWord.FindAllString(strings.ToLower(col), -1)
				if len(w) < 2 {
					continue
				}
				up := strings.ToUpper(col)
				if w[0] == "primary" || w[0] == "unique" || w[0] == "constraint" {
					a, b := strings.LastIndex(col, "("), strings.LastIndex(col, ")")
					if a >= 0 && b > a && !strings.Contains(col[a:b], ",") && (strings.Contains(up, "PRIMARY KEY") || strings.Contains(up, "UNIQUE")) {
						unique[strings.Trim(strings.ToLower(col[a+1:b]), " \t\n\"")] = true
					}
					continue
				}
				created[w[0]] = strings.Join(w[1:], " ")
				if strings.Contains(up, "PRIMARY") || strings.Contains(up, "UNIQUE") {
					unique[w[0]] = true
				}
			}
		}
	}
	if where == nil || len(created) == 0 {
		return
	}
	for _, u := range d.sql {
		words := sqlWord.FindAllString(strings.ToLower(u.text), -1)
		for i, w := range words {
			var cols []string
			switch {
			case w == "conflict" && i+2 < len(words) && words[i+1] == "(":
				c.must(unique[words[i+2]], "columns", shortFn(u.fn), u.pos, "%s replaces the record of the same %s, which the table does not keep unique", shortFn(u.fn), words[i+2])
				cols = []string{words[i+2]}
			case w == "insert":
				for k := i + 1; k < len(words) && words[k] != "values"; k++ {
					if words[k] == "(" {
						for k++; k < len(words) && words[k] != ")"; k++ {
							if words[k] != "," {
								cols = append(cols, words[k])
							}
						}
						break
					}
				}
			case w == "where" && i+1 < len(words):
				cols = []string{words[i+1]}
			case w == "select" && i+1 < len(words) && words[i+1] != "(":
				cols = []string{words[i+1]}
			}
			for _, col := range cols {
				t, ok := created[col]
				c.count("columns")
				if c.must(ok, "columns", shortFn(u.fn), u.pos, "%s uses a column %s that the table is created without", shortFn(u.fn), col); ok {
					c.must(strings.HasPrefix(t, "bytea"), "columns", shortFn(where.fn), where.pos, "the column %s is made a %s, which does not take any bytes", col, t)
				}
			}
		}
	}
}

// splitColumns splits at the commas that are not in parentheses.
func splitColumns(s string) []string {
	var out []string
	depth, last := 0, 0
	for i, r := range s {
		switch r {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

// served: the server reads from the store that its mutator writes to.
func (d *durable) served() {
	c := d.c
	field := func(a *ssa.Alloc, name string) ssa.Value {
		pt := a.Type().Underlying().(*types.Pointer)
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var v ssa.Value
		for _, r := range *a.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok || s.Field(fa.Field).Name() != name {
				continue
			}
			for _, x := range *fa.Referrers() {
				if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					v = st.Val
				}
			}
		}
		return v
	}
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			case *ssa.Call: // MustCreate of a configuration
				if len(x.Call.Args) > 0 && x.Call.Signature().Recv() != nil {
					v = x.Call.Args[0]
					continue
				}
				return v
			default:
				return v
			}
		}
	}
	for _, f := range c.w.Funcs {
		p := fnPkg(f)
		if p == nil || !strings.HasSuffix(p.Pkg.Path(), "/cmd/vdbserver") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				r, m := field(a, "Reader"), field(a, "Mutator")
				if r == nil || m == nil {
					continue
				}
				c.count("services built")
				r = strip(r)
				mut, ok := strip(m).(*ssa.Alloc)
				if !ok {
					continue
				}
				w := field(mut, "Writer")
				c.must(w != nil && strip(w) == r, "served", shortFn(f), a.Pos(), "the server built in %s reads from another store than its mutator writes to", shortFn(f))
				if st, ok := r.(*ssa.Alloc); ok {
					if pv := field(st, "Path"); pv != nil {
						c.count("configured places")
						d.place(f, st.Pos(), pv)
					}
				}
			}
		}
	}
}

func unIfaceValue(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}
