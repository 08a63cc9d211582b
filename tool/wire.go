package main

import (
	"go/types"
	"net/textproto"
	"strings"
)

// wire is what one end of an HTTP exchange receives from the other: the
// explorer of that end takes reads of URL variables, headers and the body from
// it, and parses texts that the other end built.
type wire struct {
	vars  map[string]*Term   // of the URL, by the name the route gives
	heads map[string][]*Term // by canonical name
	body  *Term
	class map[*Term]string // symbols by the bytes they are made of
}

// classes of symbolic text: the characters it can be made of.
const (
	clDigits = "0123456789"
	clHex    = "0123456789abcdef"
	clName   = "0123456789abcdefghijklmnopqrstuvwxyz-_"
	clKey    = "visible"
)

// classOf gives the characters of a symbolic text and whether it may be empty.
func (w *wire) classOf(t *Term) (chars string, mayEmpty bool) {
	if t.Op == OApp {
		switch t.Aux {
		case "itoa":
			return clDigits, false
		case "hex":
			return clHex, true
		}
	}
	if c, ok := w.class[t]; ok {
		return c, false
	}
	return "", true
}

func hasAny(class, chars string) bool {
	if class == "" {
		return true
	}
	if class == clKey {
		for _, r := range chars {
			if r > ' ' && r < 0x7f {
				return true
			}
		}
		return false
	}
	return strings.ContainsAny(class, chars)
}

func textParts(t *Term) []*Term {
	if t.Op == OConcat {
		return t.Args
	}
	if t.Op == OStr && t.Aux == "" || t.Op == OZero {
		return nil
	}
	return []*Term{t}
}

func text(parts []*Term) *Term {
	if len(parts) == 0 {
		return Str("")
	}
	r := Concat(parts...)
	if r.Type == nil {
		r.Type = types.Typ[types.String]
	}
	return r
}

// split cuts a text at every occurrence of a separator (at most n pieces), nil
// when that is not known.
func (w *wire) split(t *Term, sep string, n int) []*Term {
	if sep == "" {
		return nil
	}
	var out []*Term
	var cur []*Term
	for _, p := range textParts(t) {
		if p.Op != OStr {
			cl, _ := w.classOf(p)
			if hasAny(cl, sep) {
				return nil
			}
			cur = append(cur, p)
			continue
		}
		s := p.Aux
		for n < 0 || len(out) < n-1 {
			i := strings.Index(s, sep)
			if i < 0 {
				break
			}
			out = append(out, text(append(cur, Str(s[:i]))))
			cur = nil
			s = s[i+len(sep):]
		}
		if len(sep) > 1 && strings.ContainsAny(s, sep) {
			return nil // may straddle two parts
		}
		if s != "" {
			cur = append(cur, Str(s))
		}
	}
	return append(out, text(cur))
}

func (w *wire) trimSpace(t *Term) *Term {
	parts := append([]*Term(nil), textParts(t)...)
	if len(parts) == 0 {
		return Str("")
	}
	trim := func(i int, f func(string, string) string) bool {
		p := parts[i]
		if p.Op == OStr {
			s := f(p.Aux, " \t\r\n")
			parts[i] = Str(s)
			return s != "" || len(parts) == 1
		}
		cl, e := w.classOf(p)
		if hasAny(cl, " \t\r\n") {
			return false
		}
		return !e || len(parts) == 1
	}
	if !trim(0, strings.TrimLeft) || !trim(len(parts)-1, strings.TrimRight) {
		return nil
	}
	return text(parts)
}

// header gives the values sent under a name.
func (w *wire) header(name string) []*Term { return w.heads[textproto.CanonicalMIMEHeaderKey(name)] }

// isHTTP: t is the named field of an http message received.
func isHTTP(t *Term, field string) bool {
	if t.Op != OField || t.Aux != field {
		return false
	}
	b := t.Args[0]
	if b.Op == ODeref {
		b = b.Args[0]
	}
	return b.Type != nil && (isNamedType(b.Type, "net/http.Request") || isNamedType(b.Type, "net/http.Response"))
}

func strList(typ types.Type, ts []*Term) *Term { return mk(OList, "", 0, typ, ts, nil) }

// wireModel gives the meaning of what reads and parses the other end's text.
func (ex *Explorer) wireModel(st *State, cs *callSite, name string, args []*Term) ([]*State, bool) {
	w := ex.wire
	ret := func(res ...*Term) ([]*State, bool) {
		ex.setDest(st, cs, res)
		return one(st), true
	}
	c := func(i int) *Term { return ex.content(st, args[i]) }
	resT := func(i int) types.Type {
		if rs := cs.common.Signature().Results(); i < rs.Len() {
			return rs.At(i).Type()
		}
		return nil
	}
	lit := func(i int) (string, bool) {
		if i < len(args) && args[i].Op == OStr {
			return args[i].Aux, true
		}
		return "", false
	}
	switch name {
	case "net/http.CanonicalHeaderKey", "net/textproto.CanonicalMIMEHeaderKey":
		if s, ok := lit(0); ok {
			return ret(Str(textproto.CanonicalMIMEHeaderKey(s)))
		}
	case "(net/http.Header).Get", "(net/http.Header).Values", "(net/textproto.MIMEHeader).Get", "(net/textproto.MIMEHeader).Values":
		if s, ok := lit(1); ok && isHTTP(args[0], "Header") {
			vs := w.header(s)
			if strings.HasSuffix(name, "Values") {
				return ret(strList(resT(0), vs))
			}
			if len(vs) == 0 {
				return ret(Str(""))
			}
			return ret(vs[0])
		}
	case "io.ReadAll", "io/ioutil.ReadAll":
		a := unIface(args[0])
		if isHTTP(a, "Body") && w.body != nil {
			return ret(w.body, tNil)
		}
	case "encoding/json.Unmarshal":
		if d := c(0); d.Op == OApp && d.Aux == "json.Marshal" {
			tgt, tt := args[1], cs.common.Args[1].Type()
			for tgt.Op == OIface {
				tt, tgt = tgt.Type, tgt.Args[0]
			}
			v := d.Args[0]
			for v.Op == OApp && v.Aux == "&" || v.Op == OIface {
				v = v.Args[0]
			}
			if v.Type != nil {
				if p, ok := v.Type.Underlying().(*types.Pointer); ok {
					v = mk(ODeref, "", 0, p.Elem(), []*Term{v}, nil)
				}
			}
			if v.Type != nil && types.Identical(v.Type, derefType(tt)) && addrBase(tgt).Op == OAlloc {
				ex.noteWrite(tgt, derefType(tt), v, true)
				ex.forget(st, tgt, v)
				return ret(tNil)
			}
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		if x := c(0); x.Op == OApp && x.Aux == "itoa" && (len(args) == 1 || args[1].IsInt() && args[1].I == 10 && args[2].IsInt() && (args[2].I == 64 || args[2].I == 0)) {
			return ret(x.Args[0], tNil)
		}
	case "strings.TrimSpace":
		if r := w.trimSpace(c(0)); r != nil {
			return ret(r)
		}
	case "strings.Split", "strings.SplitN":
		n := -1
		if len(args) == 3 {
			if !args[2].IsInt() || args[2].I <= 0 {
				return nil, false
			}
			n = int(args[2].I)
		}
		if s, ok := lit(1); ok {
			if l := w.split(c(0), s, n); l != nil {
				return ret(strList(resT(0), l))
			}
		}
	case "strings.Cut":
		if s, ok := lit(1); ok {
			switch l := w.split(c(0), s, 2); len(l) {
			case 1:
				return ret(l[0], Str(""), tFalse)
			case 2:
				return ret(l[0], l[1], tTrue)
			}
		}
	case "strings.Fields":
		if t := w.trimSpace(c(0)); t != nil {
			if l := w.split(t, " ", -1); l != nil {
				var out []*Term
				for _, x := range l {
					if x.Op == OStr && x.Aux == "" {
						continue
					}
					if _, e := w.classOf(x); e && x.Op != OStr && x.Op != OConcat {
						return nil, false
					}
					out = append(out, x)
				}
				return ret(strList(resT(0), out))
			}
		}
	case "strings.Contains":
		if s, ok := lit(1); ok {
			if l := w.split(c(0), s, -1); l != nil {
				if len(l) > 1 {
					return ret(tTrue)
				}
				return ret(tFalse)
			}
		}
	case "strings.HasPrefix", "strings.TrimPrefix", "strings.CutPrefix":
		s, ok := lit(1)
		ps := textParts(c(0))
		if !ok {
			return nil, false
		}
		has, rest := false, c(0)
		if len(ps) > 0 && ps[0].Op == OStr && len(ps[0].Aux) >= len(s) {
			if has = strings.HasPrefix(ps[0].Aux, s); has {
				rest = text(append([]*Term{Str(ps[0].Aux[len(s):])}, ps[1:]...))
			}
		} else if len(ps) > 0 && (ps[0].Op != OStr || strings.HasPrefix(s, ps[0].Aux)) {
			return nil, false
		}
		b := tFalse
		if has {
			b = tTrue
		}
		switch {
		case strings.HasSuffix(name, "HasPrefix"):
			return ret(b)
		case strings.HasSuffix(name, "TrimPrefix"):
			return ret(rest)
		}
		return ret(rest, b)
	}
	return nil, false
}

// wireLookup answers a lookup in the URL variables or the headers received.
func (ex *Explorer) wireLookup(m, k *Term, elem types.Type) (v, ok *Term, known bool) {
	if ex.wire == nil || k.Op != OStr {
		return nil, nil, false
	}
	if m.Op == OApp && m.Aux == "github.com/gorilla/mux.Vars" {
		if v := ex.wire.vars[k.Aux]; v != nil {
			return v, tTrue, true
		}
		return Str(""), tFalse, true
	}
	if isHTTP(m, "Header") {
		if k.Aux != textproto.CanonicalMIMEHeaderKey(k.Aux) {
			return ZeroOf(elem), tFalse, true
		}
		if vs, ok := ex.wire.heads[k.Aux]; ok {
			return strList(elem, vs), tTrue, true
		}
		return ZeroOf(elem), tFalse, true
	}
	return nil, nil, false
}

func canonicalHeader(n string) string { return textproto.CanonicalMIMEHeaderKey(n) }
