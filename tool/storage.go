package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storageTable is the storage layout of logs, read off the functions that take a
// log type and a key reader or writer: for every log type and record message the
// buckets used.
type storageTable struct {
	Read, Write [3]map[string]map[string]token_ // log type -> message -> bucket -> where
	fns         int
}

type token_ struct {
	fn *ssa.Function
	ev *Event
}

func (c *Check) storage() *storageTable {
	if c.stab != nil {
		return c.stab
	}
	t := &storageTable{}
	c.stab = t
	lt := c.typeNamed("pb", "LogType")
	rd, wr := c.typeNamed("verifiable", "KeyReader"), c.typeNamed("verifiable", "KeyWriter")
	if lt == nil || rd == nil || wr == nil {
		return t
	}
	var fns []*ssa.Function
	for _, fn := range c.w.Funcs {
		if fnPkg(fn) == nil || fnPkg(fn).Pkg.Path() != modPath+"/verifiable" || fn.Parent() != nil {
			continue
		}
		var hasLT, hasKV bool
		for _, p := range fn.Params {
			hasLT = hasLT || types.Identical(p.Type(), lt)
			hasKV = hasKV || types.Identical(p.Type(), rd) || types.Identical(p.Type(), wr)
		}
		if hasLT && hasKV {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for k := 0; k < 3; k++ {
		t.Read[k], t.Write[k] = map[string]map[string]token_{}, map[string]map[string]token_{}
	}
	for _, fn := range fns {
		for k := 0; k < 3; k++ {
			var facts []Lit
			for _, p := range fn.Params {
				if types.Identical(p.Type(), lt) {
					facts = append(facts, litEQ0(AddC(ParamSym(p), -int64(k))))
				}
			}
			e := c.exploreWith(fn, nil, facts...)
			used := false
			for _, p := range e.paths {
				for _, ev := range p.St.events {
					if !isGet(ev) && !isSet(ev) {
						continue
					}
					b, _, ok := keyParts(ev.Snap[2])
					if !ok {
						c.fail("storage-key", shortFn(fn), ev.Pos, "%s uses a storage key without a constant prefix: %s", shortFn(fn), brief(ev.Snap[2]))
						continue
					}
					used = true
					m := msgType(ev, 3)
					tab := t.Read[k]
					if isSet(ev) {
						tab = t.Write[k]
					}
					if tab[m] == nil {
						tab[m] = map[string]token_{}
					}
					tab[m][b] = token_{fn, ev}
				}
			}
			if used && k == 0 {
				t.fns++
				c.count("functions with a log type and storage access")
			}
		}
	}
	return t
}

func shortFn(fn *ssa.Function) string { return strings.ReplaceAll(fn.String(), modPath+"/", "") }

// bucket is the one under which log type k keeps records of message m; "" if
// that is not unique.
func (t *storageTable) bucket(k int, m string) string {
	b := ""
	for _, tab := range []map[string]map[string]token_{t.Write[k], t.Read[k]} {
		if tab == nil {
			return ""
		}
		for x := range tab[m] {
			if b != "" && b != x {
				return ""
			}
			b = x
		}
	}
	return b
}

// sizeKey is the key of the object size record, as ReadObjectSize reads it.
func (c *Check) sizeKey() *Term {
	if c.szKey != nil {
		return c.szKey
	}
	fn := c.fn("verifiable", "ReadObjectSize")
	if fn == nil {
		return tNil
	}
	for _, p := range c.explore(fn).paths {
		for _, e := range p.St.events {
			if isGet(e) {
				c.szKey = e.Snap[2]
			}
		}
	}
	if c.szKey == nil {
		c.anchorFail("the size record read by ReadObjectSize")
		return tNil
	}
	return c.szKey
}

// published: the current size as this path read it.
func (c *Check) published(p *Path, f *Facts) (*Term, bool) {
	k := c.sizeKey()
	for _, e := range p.St.events {
		if !isGet(e) || e.Snap[2] != k {
			continue
		}
		if succeeded(f, e) {
			return SF(e.Outs[3], "Size"), true
		}
		if isNoSuchKey(f, errOf(e)) {
			return tZeroI, true
		}
	}
	return nil, false
}

func isNoSuchKey(f *Facts, err *Term) bool {
	for _, l := range f.lits {
		if !l.Neg && l.A.Op == OEQ && (l.A.Args[0] == err || l.A.Args[1] == err) {
			o := l.A.Args[0]
			if o == err {
				o = l.A.Args[1]
			}
			if strings.HasSuffix(o.Aux, "verifiable.ErrNoSuchKey") {
				return true
			}
		}
	}
	return false
}

// record describes a Get or Set event.
type record struct {
	ev     *Event
	msg    string
	bucket string
	rest   []*Term
}

func recordOf(e *Event) *record {
	b, r, ok := keyParts(e.Snap[2])
	if !ok {
		return nil
	}
	return &record{e, msgType(e, 3), b, r}
}

// be64s: the key's rest consists of n fixed width numbers.
func be64s(rest []*Term, n int) ([]*Term, bool) {
	var out []*Term
	for _, r := range rest {
		if r.Op == OBE64 {
			out = append(out, r.Args[0])
			continue
		}
		if r.Op == OStr && len(r.Aux)%8 == 0 {
			for i := 0; i < len(r.Aux); i += 8 {
				var v int64
				for j := 0; j < 8; j++ {
					v = v<<8 | int64(r.Aux[i+j])
				}
				out = append(out, Int(v))
			}
			continue
		}
		return nil, false
	}
	return out, len(out) == n
}

// gets of the path, including those inside the loops it completed.
func allEvents(p *Path, f func(q *Path, e *Event)) {
	seen := map[*LoopInst]bool{}
	var walk func(q *Path)
	done := map[*Event]bool{}
	walk = func(q *Path) {
		for _, e := range q.St.events {
			if done[e] {
				continue
			}
			done[e] = true
			f(q, e)
			if e.Kind == ELoop && e.Loop != nil && !seen[e.Loop] {
				seen[e.Loop] = true
				for _, it := range e.Loop.Iters {
					walk(it)
				}
			}
			for _, a := range e.Alts {
				walk(a)
			}
		}
	}
	walk(p)
}

// outEvent: t is (a field of) what a Get left in its destination -> that Get.
func outEvent(t *Term) *Event {
	for t != nil {
		switch t.Op {
		case OField, ODeref, OFieldAd, OElem:
			t = t.Args[0]
			continue
		case OIface:
			t = t.Args[0]
			continue
		case OApp:
			if t.Aux == "&" {
				t = t.Args[0]
				continue
			}
		case OSym:
			if o, ok := t.Obj.(*outParam); ok {
				return o.ev
			}
		}
		return nil
	}
	return nil
}

// getField: t is field name of the message read by a successful Get.
func getField(t *Term, name string) *Event {
	if t == nil || t.Op != OField || t.Aux != name {
		return nil
	}
	e := outEvent(t.Args[0])
	if e == nil || !isGet(e) {
		return nil
	}
	return e
}
