package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", checkC31, "path-sensitive dataflow over the SSA form of every backend's update and read-only execution: the lock state, transaction handle and statements issued before the caller's function runs, on every partition",
		"Whenever a backend runs the function of an update, others that update the same namespace are kept out: the data handed out is the backend's own and its mutex is held exclusively from before the data is looked up until after the function, or the store is a transaction of an exclusive (bolt) or conflict-detecting (badger) read-write transaction, or a database transaction in which the namespace's own table was locked, successfully, in a mode that excludes itself, before the function ran. A read-only execution runs its function within one transaction that is never committed with the power to write, or under the mutex; the function runs in the calling goroutine and at most once.")
}

func checkC31(c *Check) {
	c.assumption("bolt allows one read-write transaction at a time; badger's Update fails when a key it read was changed meanwhile; a database table lock is held until the transaction ends and conflicts with itself in the modes SHARE ROW EXCLUSIVE, EXCLUSIVE and ACCESS EXCLUSIVE")
	for _, b := range c.backends() {
		if b.update != nil {
			c.serial(b, b.updFn, b.update, true)
		}
		c.serial(b, b.read.fn, b.read, false)
	}
	c.min("runs of update functions", 4)
	c.min("runs of read-only functions", 4)
}

func (c *Check) serial(b *backend, fn *ssa.Function, e *exploration, update bool) {
	name := b.name + "." + fn.Name()
	recv := ParamSym(fn.Params[0])
	n := 0
	for _, p := range e.paths {
		if p.facts().dead {
			continue
		}
		rs := runs(fn, p)
		c.must(len(rs) <= 1, "once", name, p.Pos, "%s runs the function %d times", name, len(rs))
		for _, r := range rs {
			n++
			if update {
				c.count("runs of update functions")
			} else {
				c.count("runs of read-only functions")
			}
			if !c.must(r.Kind == ECall, "once", name, r.Pos, "%s runs the function in a goroutine", name) || len(r.Snap) < 2 {
				continue
			}
			why := c.excluded(b, fn, recv, p, r, update)
			if update {
				c.must(why == "", "exclusive", name, r.Pos, "%s runs the function while another update of the namespace may run: %s", name, why)
			} else {
				c.must(why == "", "consistent", name, r.Pos, "%s runs the function %s", name, why)
			}
		}
		if update {
			continue
		}
		// nothing that the function might have written is kept
		for _, x := range p.St.events {
			if isCommit(x) && len(rs) > 0 && x.Seq > rs[0].Seq && snapHas(rs[0].Snap[1], x.Args[0]) {
				c.fail("read-only", name, x.Pos, "%s commits the transaction the function was given", name)
			}
		}
	}
	c.must(n > 0, "exclusive", name, fn.Pos(), "%s never runs the function", name)
}

// excluded says why other updates may run at the same time as r; "" if they cannot.
func (c *Check) excluded(b *backend, fn *ssa.Function, recv *Term, p *Path, r *Event, update bool) string {
	store := r.Snap[1]
	if plainStore(store) {
		// the mutexes held when the function runs, and from when on
		held := map[*Term]*lockState{}
		looked, stale := -1, false // last look at the backend's data; data recorded without one
		s := &spaceOf{c: c, b: b, fn: fn, p: p, recv: recv}
		for _, ev := range p.St.events {
			if ev.Seq >= r.Seq && ev != r {
				break
			}
			if ev == r {
				break
			}
			if ev.Kind == ECall {
				switch m, _ := lockCall(ev.Callee); m {
				case "Lock", "RLock":
					mode := "W"
					if m == "RLock" {
						mode = "R"
					}
					held[ev.Args[0]] = &lockState{mode, ev.Seq}
				case "Unlock", "RUnlock":
					delete(held, ev.Args[0])
				}
			}
			switch {
			case ev.Kind == EMapGet && s.fieldOfMap(ev.Loc) != "", ev.Kind == EStore && ev.Val != nil && ev.Val.Op == OAlloc && s.fieldOfMap(ev.Val) != "":
				looked = ev.Seq
			case ev.Kind == EMapSet && s.fieldOfMap(ev.Loc) != "":
				same := false
				for _, h := range held {
					same = same || h.mode == "W" && looked > h.at
				}
				stale = stale || !same
			}
		}
		for mu, h := range held {
			ours := mu.Op == OFieldAd && mu.Args[0] == recv || strings.HasPrefix(mu.Aux, "@") && mu.Op == OSym
			if ours && (h.mode == "W" || !update) && !stale {
				return ""
			}
		}
		if update {
			return "no mutex is held exclusively, or the data was made after a lookup that is out of date"
		}
		return "on data that is not protected by a held mutex"
	}
	for _, x := range p.St.events {
		if x.Seq > r.Seq {
			break
		}
		switch {
		case x.Kind == ETxBegin && x.Of != nil && cbIn(store, x.Of):
			ended := false
			for _, y := range p.St.events {
				if y.Kind == ETxEnd && y.Of == x.Of && y.Seq < r.Seq {
					ended = true
				}
			}
			if ended {
				return "after the transaction ended"
			}
			switch x.Of.Callee {
			case "(*" + boltPkg + "DB).Batch":
				return "in a batch that may run the function again"
			case "(*" + boltPkg + "DB).Update", "(*" + badgerPkg + "DB).Update":
				if update {
					return ""
				}
				return "in a transaction whose writes are kept"
			case "(*" + boltPkg + "DB).View", "(*" + badgerPkg + "DB).View":
				if !update {
					return ""
				}
				return "in a read-only transaction"
			}
			if strings.HasPrefix(x.Of.Callee, pgxPkg) && strings.HasPrefix(methodName(x.Of.Callee), "Begin") {
				if len(x.Of.Args) > 1 {
					if why := c.ownSession(recv, p, x.Of, r, x.Of.Args[1]); why != "" {
						return why
					}
				}
				if !update {
					return "in a transaction that is committed"
				}
				return c.tableLocked(p, r, store)
			}
		case x.Kind == ECall && len(x.Res) > 0 && snapHas(store, x.Res[0]) && strings.HasPrefix(methodName(x.Callee), "Begin"):
			if !succeeded(p.at(r), x) {
				return "although the transaction may not have been opened"
			}
			if strings.Contains(x.Callee, "jackc/pgx") {
				if why := c.ownSession(recv, p, x, r, x.Args[0]); why != "" {
					return why
				}
				if !update {
					return ""
				}
				return c.tableLocked(p, r, store)
			}
			if strings.HasPrefix(x.Callee, "(*"+boltPkg) && len(x.Args) == 2 {
				if x.Args[1] == tTrue && update || x.Args[1] == tFalse && !update {
					return ""
				}
				return "in a transaction of the other kind"
			}
		case x.Kind == ECall && x.Callee == "(*"+badgerPkg+"DB).NewTransaction" && len(x.Res) == 1 && snapHas(store, x.Res[0]):
			if x.Args[1] == tTrue && update || x.Args[1] == tFalse && !update {
				return ""
			}
			return "in a transaction of the other kind"
		}
	}
	return "in no transaction that the analysis recognises"
}

// ownSession: the transaction begun on db has a session of the database to itself, because db is
// a pool, or a connection that this execution acquired, or a connection that a held mutex keeps
// others from using. Transactions and locks belong to a session: executions that share
// one share its transaction, and its locks do not keep them apart.
func (c *Check) ownSession(recv *Term, p *Path, begin, r *Event, db *Term) string {
	typ := ""
	if db.Op == OIface && db.Type != nil {
		typ = db.Type.String()
	} else if i := strings.LastIndex(begin.Callee, ")."); i > 0 && strings.HasPrefix(begin.Callee, "(*") {
		typ = begin.Callee[1:i]
	}
	if !strings.HasSuffix(typ, "/pgxpool.Conn") && !strings.HasSuffix(typ, "/v5.Conn") {
		return ""
	}
	for db.Op == OIface && len(db.Args) > 0 {
		db = db.Args[0]
	}
	for _, x := range p.St.events {
		if x.Seq < begin.Seq && x.Kind == ECall && len(x.Res) > 0 && x.Res[0] == db && x.Fn == nil && x.Callee != "" {
			if m := methodName(x.Callee); strings.HasPrefix(m, "Acquire") || strings.HasPrefix(m, "Connect") {
				return ""
			}
		}
	}
	held := map[*Term]int{}
	for _, x := range p.St.events {
		if x.Seq >= r.Seq {
			break
		}
		if x.Kind == ECall {
			switch m, _ := lockCall(x.Callee); m {
			case "Lock":
				held[x.Args[0]] = x.Seq
			case "Unlock":
				delete(held, x.Args[0])
			}
		}
	}
	for mu, at := range held {
		if at < begin.Seq && (mu.Op == OFieldAd && mu.Args[0] == recv || strings.HasPrefix(mu.Aux, "@") && mu.Op == OSym) {
			return ""
		}
	}
	return "on a database connection that other executions may be using at the same time, whose transaction and locks they share"
}

// tableLocked: the transaction that the store works on has locked the table that
// the store works on.
func (c *Check) tableLocked(p *Path, r *Event, store *Term) string {
	why := "the namespace's table is not locked in its transaction"
	for _, x := range p.St.events {
		if x.Seq >= r.Seq {
			break
		}
		st := sqlOf(x)
		if x.Kind != ECall || st == nil || st.kind != "lock" {
			continue
		}
		switch {
		case len(x.Args) == 0 || !isTxTerm(p, x.Args[0]) || !snapHas(store, x.Args[0]):
			why = "the table is locked outside of the function's transaction"
		case st.table == nil || !snapHas(store, st.table):
			why = "the table locked is not the one the function works on"
		case !succeeded(p.at(r), x):
			why = "locking the table may have failed"
		default:
			ended := false
			for _, y := range p.St.events {
				if y.Kind == ECall && y.Seq > x.Seq && y.Seq < r.Seq && len(y.Args) > 0 && y.Args[0] == x.Args[0] && (methodName(y.Callee) == "Commit" || methodName(y.Callee) == "Rollback") {
					ended = true
				}
			}
			if !ended {
				return ""
			}
			why = "the transaction that locked the table has ended"
		}
	}
	return why
}

// isTxTerm: a transaction, not a pool of connections.
func isTxTerm(p *Path, t *Term) bool {
	if cb, ok := t.Obj.(*cbParam); ok && cb != nil {
		return true
	}
	for _, ev := range p.St.events {
		if ev.Kind == ECall && len(ev.Res) > 0 && ev.Res[0] == t && strings.HasPrefix(methodName(ev.Callee), "Begin") {
			return true
		}
	}
	return false
}
