package main

import (
	"go/types"
	"strings"
)

// Facts is the path condition of a partition: a conjunction of literals in the
// order they were learnt.
type Facts struct {
	lits  []Lit
	bool_ map[*Term]bool // atom -> truth
	le    []*Term        // t with t <= 0 known
	dead  bool

	shared bool
}

func newFacts() *Facts { return &Facts{bool_: map[*Term]bool{}} }

func (f *Facts) clone() *Facts {
	f.shared = true
	return &Facts{lits: f.lits[:len(f.lits):len(f.lits)], le: f.le[:len(f.le):len(f.le)], dead: f.dead, bool_: f.bool_, shared: true}
}

func (f *Facts) wbool() map[*Term]bool {
	if f.shared {
		n := make(map[*Term]bool, len(f.bool_)+4)
		for k, v := range f.bool_ {
			n[k] = v
		}
		f.bool_, f.shared = n, false
	}
	return f.bool_
}

// prefix is the state of knowledge after the first n literals.
func (f *Facts) prefix(n int) *Facts {
	r := newFacts()
	for _, l := range f.lits[:n] {
		r.add(l)
	}
	return r
}

func nonNeg(t *Term) bool {
	switch t.Op {
	case OLen, OCap, OIter:
		return true
	case OAnd:
		return t.Args[1].IsInt() && t.Args[1].I >= 0
	case OShl:
		return t.Args[0] == tOne
	case OShr:
		return nonNeg(t.Args[0])
	case OInt:
		return t.I >= 0
	case OElem:
		return isUnsigned(t.Type)
	}
	return isUnsigned(t.Type)
}

func atLeastOne(t *Term) bool { return t.Op == OShl && t.Args[0] == tOne }

// impliesLE decides whether t <= 0 follows, summing at most depth known facts.
func (f *Facts) impliesLE(t *Term, depth int) bool {
	if t.IsInt() {
		return t.I <= 0
	}
	l := toLin(t)
	// structural lower bounds: every variable with negative coefficient that is
	// non-negative can be dropped; bits with positive coefficient are at most 1
	rest := linForm{map[*Term]int64{}, l.c}
	for x, c := range l.m {
		if c < 0 && (nonNeg(x) || x.Op == OShr && depth > 0 && f.impliesLE(Scale(x.Args[0], -1), depth-1)) {
			if atLeastOne(x) {
				rest.c += c
			}
			continue
		}
		if c > 0 && x.Op == OAnd && x.Args[1].IsInt() && x.Args[1].I >= 0 {
			rest.c += c * x.Args[1].I
			continue
		}
		rest.m[x] = c
	}
	if len(rest.m) == 0 && rest.c <= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	// x >> k is at least (at most) a constant when x is
	for x, c := range rest.m {
		if x.Op != OShr || !x.Args[1].IsInt() || x.Args[1].I <= 0 || x.Args[1].I > 30 {
			continue
		}
		k, a := uint(x.Args[1].I), x.Args[0]
		if len(rest.m) == 1 && rest.c > -1<<30 && rest.c < 1<<30 {
			if c < 0 {
				lo := (rest.c - c - 1) / -c // c*x + rest.c <= 0 from x >= lo
				if rest.c <= 0 {
					lo = 0
				}
				if f.impliesLE(AddC(Scale(a, -1), lo<<k), depth-1) {
					return true
				}
			} else if rest.c <= 0 {
				if hi := -rest.c / c; f.impliesLE(AddC(a, -((hi+1)<<k-1)), depth-1) {
					return true
				}
			}
			continue
		}
		if c < 0 && f.impliesLE(Scale(a, -1), depth-1) {
			delete(rest.m, x)
		}
	}
	if len(rest.m) == 0 && rest.c <= 0 {
		return true
	}
	var pick *Term
	for x, c := range l.m {
		if _, ok := rest.m[x]; !ok {
			continue
		}
		if pick == nil || (c > 0) != (l.m[pick] > 0) && c > 0 || ((c > 0) == (l.m[pick] > 0) && x.ID < pick.ID) {
			pick = x
		}
	}
	if pick == nil {
		// only the constant is in the way: use facts to lower a dropped variable
		for x, c := range l.m {
			if c < 0 && (pick == nil || x.ID < pick.ID) {
				pick = x
			}
		}
		if pick == nil {
			return false
		}
	}
	c := l.m[pick]
	try := func(fact *Term) bool {
		if fact.Op == OLin {
			hit := false
			for i, a := range fact.Args {
				if a == pick && (fact.Coef[i] > 0) == (c > 0) {
					hit = true
					break
				}
			}
			if !hit {
				return false
			}
		} else if fact != pick && fact.Op != OInt {
			return false
		}
		fl := toLin(fact)
		fc := fl.m[pick]
		if fc == 0 || (fc > 0) != (c > 0) {
			return false
		}
		k := int64(1)
		if c%fc == 0 {
			k = c / fc
		} else {
			return false
		}
		n := linForm{map[*Term]int64{}, l.c}
		n.addScaled(l, 1)
		n.addScaled(fl, -k)
		n.c -= k * fl.c
		if len(n.m) > len(l.m)+1 {
			return false
		}
		return f.impliesLE(n.term(), depth-1)
	}
	for _, fact := range f.le {
		if try(fact) {
			return true
		}
	}
	return false
}

// Implies decides whether a literal follows from the facts.
func (f *Facts) Implies(l Lit) bool {
	if f.dead {
		return true
	}
	if l.A.IsBool() {
		return (l.A.I == 1) != l.Neg
	}
	if v, ok := f.bool_[l.A]; ok {
		if v != l.Neg {
			return true
		}
		return false
	}
	switch l.A.Op {
	case OLE0:
		if l.Neg {
			return f.impliesLE(AddC(Scale(l.A.Args[0], -1), 1), 3)
		}
		return f.impliesLE(l.A.Args[0], 3)
	case OEQ0:
		t := l.A.Args[0]
		if !l.Neg {
			return f.impliesLE(t, 3) && f.impliesLE(Scale(t, -1), 3)
		}
		return f.impliesLE(AddC(t, 1), 3) || f.impliesLE(AddC(Scale(t, -1), 1), 3)
	case OEQ:
		a, b := l.A.Args[0], l.A.Args[1]
		if l.Neg {
			// a differs from b if a is known equal to something incompatible
			for k, v := range f.bool_ {
				if !v || k.Op != OEQ {
					continue
				}
				var other *Term
				var tgt *Term
				switch {
				case k.Args[0] == a:
					other, tgt = k.Args[1], b
				case k.Args[1] == a:
					other, tgt = k.Args[0], b
				case k.Args[0] == b:
					other, tgt = k.Args[1], a
				case k.Args[1] == b:
					other, tgt = k.Args[0], a
				default:
					continue
				}
				if distinctConst(other, tgt) {
					return true
				}
			}
			if distinctConst(a, b) {
				return true
			}
			// nil versus non-nil
			if f.Implies(litNil(a)) && f.Implies(litNil(b).Not()) || f.Implies(litNil(b)) && f.Implies(litNil(a).Not()) {
				return true
			}
			return false
		}
		// transitivity through one step
		for k, v := range f.bool_ {
			if !v || k.Op != OEQ {
				continue
			}
			var other *Term
			if k.Args[0] == a {
				other = k.Args[1]
			} else if k.Args[1] == a {
				other = k.Args[0]
			} else {
				continue
			}
			if f.knownFalse(litEQ(other, b).Not()) {
				return true
			}
		}
	case OIsNil:
		x := l.A.Args[0]
		if l.Neg {
			// known equal to something non-nil
			for k, v := range f.bool_ {
				if v && k.Op == OEQ && (k.Args[0] == x || k.Args[1] == x) {
					o := k.Args[0]
					if o == x {
						o = k.Args[1]
					}
					nl := litNil(o)
					if nl.A.IsBool() && nl.A.I == 0 {
						return true
					}
				}
			}
			if isBytesLike(x.Type) || isSliceType(x.Type) { // non-empty slices are not nil
				if f.impliesLE(AddC(Scale(LenOf(x), -1), 1), 2) {
					return true
				}
				if f.knownFalse(litEQ0(LenOf(x))) {
					return true
				}
			}
		}
	}
	return false
}

// knownFalse: the literal itself was learnt to be false.
func (f *Facts) knownFalse(l Lit) bool {
	if l.A.IsBool() {
		return (l.A.I == 1) == l.Neg
	}
	v, ok := f.bool_[l.A]
	return ok && v == l.Neg
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// distinctConst reports that two terms denote provably different values.
func distinctConst(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == OStr && b.Op == OStr {
		return a.Aux != b.Aux
	}
	if a.IsInt() && b.IsInt() {
		return a.I != b.I
	}
	if a.Op == OSym && b.Op == OSym && strings.HasPrefix(a.Aux, "@") && strings.HasPrefix(b.Aux, "@") {
		return a.Aux != b.Aux // distinct sentinel errors
	}
	isSent := func(t *Term) bool { return t.Op == OSym && strings.HasPrefix(t.Aux, "@") }
	isFresh := func(t *Term) bool { return t.Op == OApp && nonNilApp[t.Aux] || t.Op == OIface || t.Op == OAlloc }
	if isSent(a) && isFresh(b) || isSent(b) && isFresh(a) {
		return true
	}
	la, lb := LenOf2(a), LenOf2(b)
	if la != nil && lb != nil && la.IsInt() && lb.IsInt() && la.I != lb.I {
		return true
	}
	return false
}

// LenOf2 is the constant length of byte strings whose length is structural.
func LenOf2(t *Term) *Term {
	switch t.Op {
	case OStr, OConcat, OBE64, OByte:
		return LenOf(t)
	case OApp:
		if t.Aux == "sha256" {
			return LenOf(t)
		}
	}
	return nil
}

// add records a literal; it returns false when the partition becomes infeasible.
func (f *Facts) add(l Lit) bool {
	if f.dead {
		return false
	}
	if l.A.IsBool() {
		if (l.A.I == 1) == l.Neg {
			f.dead = true
			return false
		}
		return true
	}
	if l.A.Op == OLE0 && l.Neg {
		l = litLE0(AddC(Scale(l.A.Args[0], -1), 1))
		return f.add(l)
	}
	if v, ok := f.bool_[l.A]; ok {
		if v == l.Neg {
			f.dead = true
			return false
		}
		return true
	}
	if f.Implies(l.Not()) {
		f.dead = true
		return false
	}
	f.lits = append(f.lits, l)
	f.wbool()[l.A] = !l.Neg
	switch l.A.Op {
	case OLE0:
		f.le = append(f.le, l.A.Args[0])
		// t<=0 and -t<=0 is equality: nothing more to record
		// a disequality turns into a strict bound
		t := l.A.Args[0]
		if e := litEQ0(t); f.knownFalse(e) {
			f.add(litLE0(AddC(t, 1)))
		}
	case OEQ0:
		t := l.A.Args[0]
		if !l.Neg {
			f.le = append(f.le, t, Scale(t, -1))
			if t.Op == OLen {
				// nothing
			}
		} else {
			// t != 0: with a non-strict bound becomes strict
			if f.impliesLE(t, 2) {
				f.add(litLE0(AddC(t, 1)))
			} else if f.impliesLE(Scale(t, -1), 2) {
				f.add(litLE0(AddC(Scale(t, -1), 1)))
			}
		}
	case OEQ:
		if !l.Neg {
			a, b := l.A.Args[0], l.A.Args[1]
			na, nb := litNil(a), litNil(b)
			if na.A.IsBool() && na.A.I == 0 {
				f.add(nb.Not())
			} else if nb.A.IsBool() && nb.A.I == 0 {
				f.add(na.Not())
			}
			if isBytesLike(a.Type) || isBytesLike(b.Type) || LenOf2(a) != nil || LenOf2(b) != nil {
				f.add(litEQ0(Sub(LenOf(a), LenOf(b))))
			}
		}
	case OIsNil:
		if !l.Neg {
			x := l.A.Args[0]
			if isSliceType(x.Type) {
				f.add(litEQ0(LenOf(x)))
			}
		}
	}
	return !f.dead
}
