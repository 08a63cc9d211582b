package main

import (
	"go/types"
	"strings"
)

var canonMemo = map[*Term]*Term{}

// canon rewrites a value modulo deep copies: the fields of a message decoded
// from the encoding of another message are the fields of that message.
func canon(t *Term) *Term {
	if t == nil || len(t.Args) == 0 {
		return t
	}
	if r, ok := canonMemo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = canon(a)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	if r.Op == OField {
		if src := copySource(r.Args[0]); src != nil {
			if v := SF(src, r.Aux); v != nil {
				r = canon(v)
			}
		} else if x := r.Args[0]; x.Op == ODeref && x.Args[0].Op == OApp && x.Args[0].Aux == "&" {
			if v := SF(x.Args[0], r.Aux); v != nil {
				r = canon(v)
			}
		}
	}
	canonMemo[t] = r
	return r
}

// copySource: v is a message value decoded from proto.Marshal(src).
func copySource(v *Term) *Term {
	if v.Op == OApp && v.Aux == "&" {
		v = v.Args[0]
	}
	if v.Op == OApp && strings.HasPrefix(v.Aux, "unproto:") && len(v.Args) == 1 {
		m := v.Args[0]
		if m.Op == OApp && m.Aux == "proto.Marshal" {
			s := m.Args[0]
			for s.Op == OIface {
				s = s.Args[0]
			}
			return s
		}
	}
	return nil
}

// MF selects a message field modulo copies.
func MF(t *Term, names ...string) *Term {
	for _, n := range names {
		if t == nil {
			return nil
		}
		t = canon(t)
		u := t
		for u.Op == OIface || (u.Op == OApp && u.Aux == "&") {
			u = u.Args[0]
		}
		if s := copySource(u); s != nil {
			t = canon(SF(s, n))
		} else {
			t = canon(SF(t, n))
		}
	}
	return t
}

// msgEq compares exported fields (recursively through sub messages) of two
// messages modulo copies and absent-means-empty.
func msgEq(f *Facts, a, b *Term, typ types.Type) string {
	return msgEqD(f, a, b, typ, 0)
}

func msgEqD(f *Facts, a, b *Term, typ types.Type, d int) string {
	if a == nil || b == nil {
		return "unknown value"
	}
	a, b = canon(a), canon(b)
	if a == b || eqv(f, a, b) {
		return ""
	}
	s, ok := derefType(typ).Underlying().(*types.Struct)
	if !ok || d > 4 {
		return a.String() + " is not " + b.String()
	}
	if a.IsNil() || b.IsNil() {
		x := a
		if a.IsNil() {
			x = b
		}
		if !f.Implies(litNil(x)) {
			return a.String() + " is not " + b.String()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		fl := s.Field(i)
		if !fl.Exported() {
			continue
		}
		if m := msgEqD(f, MF(a, fl.Name()), MF(b, fl.Name()), fl.Type(), d+1); m != "" {
			return "field " + fl.Name() + ": " + m
		}
	}
	return ""
}

// unwrap removes interface and address wrappers of a snapshot.
func unwrap(t *Term) *Term {
	for t != nil && (t.Op == OIface || (t.Op == OApp && t.Aux == "&")) {
		t = t.Args[0]
	}
	return t
}

// leafHashTerm is the RFC 6962 leaf hash of x.
func leafHashTerm(x *Term) *Term {
	if x != nil && (x.IsNil() || x.Op == OZero) {
		x = tEmpty
	}
	return Sha256(Concat(Str("\x00"), x))
}

func nodeHashTerm(l, r *Term) *Term { return Sha256(Concat(Str("\x01"), l, r)) }

// shorten a term for a message
func brief(t *Term) string {
	if t == nil {
		return "<none>"
	}
	s := strings.ReplaceAll(t.String(), modPath+"/", "")
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}
