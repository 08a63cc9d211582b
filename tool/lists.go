package main

import (
	"go/types"
	"sort"
)

// Elem is what one generic loop iteration (or one literal position) puts into a
// sequence.
type Elem struct {
	Path *Path
	F    *Facts
	Idx  *Term // position; nil when nothing is put (Kept)
	Val  *Term // snapshot of the element
	Raw  *Term
	Loop *LoopInst // nil for literal positions
	Kept bool      // an array element is left as it was, or nothing is appended
}

// Layer is one pass over the whole sequence.
type Layer struct {
	Loop  *LoopInst
	Elems []*Elem
	Why   string // not empty: the pass is not known to cover every position once, in order
}

// ListView is a sequence described by the passes that built it.
type ListView struct {
	Len    *Term
	Layers []*Layer
	Base   *Term // array address, if it is one
	Why    string
}

// listOf describes the sequence held by value t at the end of p.
func listOf(ex *Explorer, p *Path, t *Term, et types.Type) *ListView {
	for t.Op == OIface {
		t = t.Args[0]
	}
	f := p.facts()
	switch t.Op {
	case ONil, OZero:
		return &ListView{Len: tZeroI}
	case OList:
		lv := &ListView{Len: Int(int64(len(t.Args)))}
		ly := &Layer{}
		for i, a := range t.Args {
			ly.Elems = append(ly.Elems, &Elem{Path: p, F: f, Idx: Int(int64(i)), Val: ex.Snap(p.St, a, et), Raw: a})
		}
		lv.Layers = []*Layer{ly}
		return lv
	case OSliceV:
		base := t.Args[0]
		lv := &ListView{Len: t.Args[2], Base: base}
		off := t.Args[1]
		for _, e := range p.St.events {
			if e.Kind != ELoop {
				continue
			}
			for _, s := range e.Loop.Stores {
				if s.Base == base {
					lv.Layers = append(lv.Layers, arrayLayer(ex, p, e.Loop, base, off, t.Args[2], et))
				}
			}
		}
		// positions stored outside loops
		ly := &Layer{}
		for k, v := range p.St.heap.m {
			if k.Op == OIndexAd && k.Args[0] == base {
				ly.Elems = append(ly.Elems, &Elem{Path: p, F: f, Idx: Sub(k.Args[1], off), Val: ex.Snap(p.St, v, et), Raw: v})
			}
		}
		if len(ly.Elems) > 0 {
			sort.Slice(ly.Elems, func(i, j int) bool { return ly.Elems[i].Idx.ID < ly.Elems[j].Idx.ID })
			lv.Layers = append(lv.Layers, ly)
		}
		return lv
	case OSym:
		if v, ok := t.Obj.(*PhiInfo); ok && v.Inst != nil {
			return appendView(ex, p, v, et)
		}
	}
	return &ListView{Len: LenOf(t), Why: "the sequence " + brief(t) + " is not built here"}
}

// counterIdx: idx runs over 0,1,…,n-1 or n-1,…,0 as the loop's iteration counter does.
func counterIdx(idx, n, length *Term) bool {
	return Sub(idx, n) == tZeroI || Add(idx, n) == AddC(length, -1)
}

func arrayLayer(ex *Explorer, p *Path, l *LoopInst, base, off, length *Term, et types.Type) *Layer {
	ly := &Layer{Loop: l}
	f := p.facts()
	if !f.Implies(litEQ0(Sub(l.N, length))) {
		ly.Why = "the loop is not known to run once per position"
	}
	for _, it := range l.Iters {
		n := 0
		for k, v := range it.St.heap.m {
			if k.Op != OIndexAd || k.Args[0] != base {
				continue
			}
			n++
			idx := Sub(k.Args[1], off)
			e := &Elem{Path: it, F: it.facts(), Idx: idx, Val: ex.Snap(it.St, v, et), Raw: v, Loop: l}
			ly.Elems = append(ly.Elems, e)
			if !counterIdx(idx, l.N, length) {
				ly.Why = "position " + brief(idx) + " is not the iteration's"
			}
		}
		if n == 0 {
			ly.Elems = append(ly.Elems, &Elem{Path: it, F: it.facts(), Loop: l, Kept: true})
		} else if n > 1 {
			ly.Why = "an iteration stores several positions"
		}
	}
	return ly
}

// appendView describes a slice grown by append in a loop.
func appendView(ex *Explorer, p *Path, v *PhiInfo, et types.Type) *ListView {
	l := v.Inst
	lv := &ListView{Len: LenOf(v.Sym)}
	init := v.Init
	switch {
	case init.IsNil() || init.Op == OZero || init.Op == OList && len(init.Args) == 0:
	case init.Op == OSliceV && init.Args[2] == tZeroI:
	default:
		lv.Why = "the sequence does not start empty"
	}
	ly := &Layer{Loop: l}
	all := true
	for _, it := range l.Iters {
		var nx *Term
		if v.Phi != nil {
			for i, w := range l.Vars {
				if w == v && i < len(it.Nexts) {
					nx = it.Nexts[i]
				}
			}
		} else {
			nx = ex.load(it.St, v.Loc, v.Typ)
		}
		switch {
		case nx == nil:
			lv.Why = "unknown next value"
		case nx == v.Sym:
			ly.Elems = append(ly.Elems, &Elem{Path: it, F: it.facts(), Loop: l, Kept: true})
			all = false
		case nx.Op == OAppend && nx.Args[0] == v.Sym && nx.Args[1].Op == OList && len(nx.Args[1].Args) == 1:
			x := nx.Args[1].Args[0]
			ly.Elems = append(ly.Elems, &Elem{Path: it, F: it.facts(), Idx: l.N, Val: ex.Snap(it.St, x, et), Raw: x, Loop: l})
		default:
			lv.Why = "the sequence is changed to " + brief(nx) + " in an iteration"
		}
	}
	if all {
		lv.Len = l.N
	}
	lv.Layers = []*Layer{ly}
	return lv
}

// elemCases resolves a read of a loop built sequence: the cases of the loop that
// wrote it, and the index read.
func elemCases(ex *Explorer, t *Term, et types.Type) (cases []*Elem, idx *Term, ok bool) {
	if t == nil || t.Op != OElem && t.Op != ODeref {
		return nil, nil, false
	}
	var b *Term
	if t.Op == OElem {
		b, idx = t.Args[0], t.Args[1]
	} else {
		return nil, nil, false
	}
	switch o := b.Obj.(type) {
	case *LoopStore:
		if o.Inst == nil {
			return nil, nil, false
		}
		for _, it := range o.Inst.Iters {
			n := 0
			for k, v := range it.St.heap.m {
				if k.Op == OIndexAd && k.Args[0] == o.Base {
					cases = append(cases, &Elem{Path: it, F: it.facts(), Idx: k.Args[1], Val: ex.Snap(it.St, v, et), Raw: v, Loop: o.Inst})
					n++
				}
			}
			if n == 0 {
				cases = append(cases, &Elem{Path: it, F: it.facts(), Loop: o.Inst, Kept: true})
			}
		}
		return cases, idx, true
	case *PhiInfo:
		if o.Inst == nil || o.Sym != b {
			return nil, nil, false
		}
		lv := appendView(ex, nil, o, et)
		if lv.Why != "" || len(lv.Layers) != 1 {
			return nil, nil, false
		}
		return lv.Layers[0].Elems, idx, true
	}
	return nil, nil, false
}
