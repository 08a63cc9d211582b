package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the head symbol of an abstract value.
type Op uint8

const (
	OInt     Op = iota // integer constant (I)
	OBool              // boolean constant (I)
	OStr               // string or byte-string constant (Aux)
	ONil               // nil
	OSym               // unknown value (Aux = name)
	OGlobal            // address of a package level variable
	OAlloc             // address of an allocation
	OFieldAd           // address of field Aux of *Args[0]
	OIndexAd           // address of element Args[1] of Args[0]
	OMapAd             // cell of key Args[1] of map Args[0]
	ODeref             // what Args[0] pointed to initially
	OField             // field Aux of struct value Args[0]
	OElem              // element Args[1] of sequence value Args[0]
	OMapElem           // value under key Args[1] in map value Args[0]
	OMapHas            // presence of key
	OLen               // length of sequence Args[0]
	OCap
	OLin    // linear form: Coef[i]*Args[i] + I
	OMul    // product
	ODiv    // quotient
	OMod    // remainder
	OShl    // Args[0] << Args[1]
	OShr    // Args[0] >> Args[1]
	OAnd    // bitwise and
	OOr     // bitwise or
	OXor    // bitwise xor
	OAndNot // bit clear
	OTrunc  // conversion to a narrower type Aux
	OLE0    // Args[0] <= 0
	OEQ0    // Args[0] == 0
	OEQ     // Args[0] equals Args[1]
	OIsNil  // Args[0] is nil
	OApp    // application of pure function Aux to Args
	ORes    // result I of a call event (Aux = unique name)
	OConcat // concatenation of byte strings
	OSlice  // Args[0][Args[1]:Args[2]]
	OBE64   // 8 byte big endian encoding
	OByte   // one byte string holding the integer Args[0]
	OSliceV // slice of memory: base address, offset, length
	OList   // sequence with known elements
	OAppend // Args[0] followed by the elements of Args[1]
	OStruct // struct value; fields in type order
	OTuple  // multiple results
	OFunc   // function constant
	OClos   // closure: Fn with bindings Args
	OBound  // bound method: Fn with receiver Args[0]
	OIface  // interface value holding Args[0] of dynamic type Type
	OZero   // zero value of Type
	OIter   // number of completed iterations of a loop
	OConvT  // conversion that changes representation (Aux)
)

var opNames = map[Op]string{OFieldAd: "&field", OIndexAd: "&index", OMapAd: "&map", ODeref: "*", OField: ".", OElem: "elem", OMapElem: "mapelem", OMapHas: "maphas",
	OLen: "len", OCap: "cap", OMul: "mul", ODiv: "div", OMod: "mod", OShl: "shl", OShr: "shr", OAnd: "and", OOr: "or", OXor: "xor", OAndNot: "andnot",
	OLE0: "le0", OEQ0: "eq0", OEQ: "eq", OIsNil: "isnil", OConcat: "cat", OSlice: "slice", OBE64: "be64", OByte: "byte", OSliceV: "sliceof", OList: "list",
	OAppend: "append", OTuple: "tuple", OConvT: "conv", OTrunc: "trunc"}

// Term is a hash-consed abstract value.
type Term struct {
	ID   int
	Op   Op
	Aux  string
	I    int64
	Args []*Term
	Coef []int64
	Type types.Type
	Fn   *ssa.Function
	Obj  any // *AllocInfo for OAlloc, *ssa.Global for OGlobal, *Event for ORes
}

// AllocInfo describes an allocation site instance.
type AllocInfo struct {
	Seq  int
	Type types.Type // element type (what the address points to), or slice/map type
	Site ssa.Value
	Fn   *ssa.Function
	Loop int // loop nesting sequence at creation
}

type interner struct {
	tab map[string]*Term
	all []*Term
}

var tt = &interner{tab: map[string]*Term{}}

func mk(op Op, aux string, i int64, typ types.Type, args []*Term, coef []int64) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(op) + 33)
	sb.WriteString(strconv.Itoa(len(aux)))
	sb.WriteByte(':')
	sb.WriteString(aux)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(i, 10))
	for k, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
		if coef != nil {
			sb.WriteByte('*')
			sb.WriteString(strconv.FormatInt(coef[k], 10))
		}
	}
	key := sb.String()
	if t, ok := tt.tab[key]; ok {
		if t.Type == nil {
			t.Type = typ
		}
		return t
	}
	t := &Term{ID: len(tt.all), Op: op, Aux: aux, I: i, Type: typ, Args: args, Coef: coef}
	tt.all = append(tt.all, t)
	tt.tab[key] = t
	return t
}

var (
	tNil   = mk(ONil, "", 0, nil, nil, nil)
	tTrue  = mk(OBool, "", 1, types.Typ[types.Bool], nil, nil)
	tFalse = mk(OBool, "", 0, types.Typ[types.Bool], nil, nil)
	tZeroI = Int(0)
	tOne   = Int(1)
	tEmpty = Str("")
)

func Int(i int64) *Term  { return mk(OInt, "", i, types.Typ[types.Int], nil, nil) }
func Str(s string) *Term { return mk(OStr, s, 0, types.Typ[types.String], nil, nil) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func Sym(name string, typ types.Type) *Term { return mk(OSym, name, 0, typ, nil, nil) }

func (t *Term) IsInt() bool  { return t.Op == OInt }
func (t *Term) IsNil() bool  { return t.Op == ONil }
func (t *Term) IsBool() bool { return t.Op == OBool }

// ---- linear forms ----

type linForm struct {
	m map[*Term]int64
	c int64
}

func toLin(t *Term) linForm {
	switch t.Op {
	case OInt:
		return linForm{map[*Term]int64{}, t.I}
	case OLin:
		m := map[*Term]int64{}
		for i, a := range t.Args {
			m[a] = t.Coef[i]
		}
		return linForm{m, t.I}
	}
	return linForm{map[*Term]int64{t: 1}, 0}
}

func (l linForm) addScaled(o linForm, k int64) {
	for t, c := range o.m {
		l.m[t] += k * c
		if l.m[t] == 0 {
			delete(l.m, t)
		}
	}
}

func (l linForm) term() *Term {
	// fold powers of two into symbolic shifts of one
	for {
		again := false
		for t, c := range l.m {
			if t.Op == OShl && t.Args[0] == tOne && c != 0 && c%2 == 0 {
				delete(l.m, t)
				n := mk(OShl, "", 0, t.Type, []*Term{tOne, Add(t.Args[1], tOne)}, nil)
				l.m[n] += c / 2
				if l.m[n] == 0 {
					delete(l.m, n)
				}
				again = true
				break
			}
		}
		if !again {
			break
		}
	}
	if len(l.m) == 0 {
		return Int(l.c)
	}
	args := make([]*Term, 0, len(l.m))
	for t := range l.m {
		args = append(args, t)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].ID < args[j].ID })
	if len(args) == 1 && l.c == 0 && l.m[args[0]] == 1 {
		return args[0]
	}
	coef := make([]int64, len(args))
	for i, a := range args {
		coef[i] = l.m[a]
	}
	return mk(OLin, "", l.c, args[0].Type, args, coef)
}

func Add(a, b *Term) *Term { return linComb(a, 1, b, 1, 0) }
func Sub(a, b *Term) *Term { return linComb(a, 1, b, -1, 0) }
func AddC(a *Term, c int64) *Term {
	return linComb(a, 1, tZeroI, 0, c)
}
func linComb(a *Term, ka int64, b *Term, kb int64, c int64) *Term {
	l := linForm{map[*Term]int64{}, c}
	la, lb := toLin(a), toLin(b)
	l.addScaled(la, ka)
	l.addScaled(lb, kb)
	l.c += ka*la.c + kb*lb.c
	return l.term()
}
func Scale(a *Term, k int64) *Term {
	return linComb(a, k, tZeroI, 0, 0)
}

func isPow2c(c int64) (int64, bool) {
	if c <= 0 || c&(c-1) != 0 {
		return 0, false
	}
	k := int64(0)
	for c > 1 {
		c >>= 1
		k++
	}
	return k, true
}

func Mul(a, b *Term) *Term {
	if a.IsInt() {
		return Scale(b, a.I)
	}
	if b.IsInt() {
		return Scale(a, b.I)
	}
	if a.Op == OShl && a.Args[0] == tOne {
		return Shl(b, a.Args[1])
	}
	if b.Op == OShl && b.Args[0] == tOne {
		return Shl(a, b.Args[1])
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OMul, "", 0, a.Type, []*Term{a, b}, nil)
}

func Shl(a, n *Term) *Term {
	if n.IsInt() && n.I >= 0 && n.I < 62 {
		if a.IsInt() {
			return Int(a.I << uint(n.I))
		}
		return Scale(a, int64(1)<<uint(n.I))
	}
	if a.IsInt() {
		if k, ok := isPow2c(a.I); ok {
			return mk(OShl, "", 0, a.Type, []*Term{tOne, AddC(n, k)}, nil)
		}
	}
	if a.Op == OShl {
		return Shl(a.Args[0], Add(a.Args[1], n))
	}
	return mk(OShl, "", 0, a.Type, []*Term{a, n}, nil)
}

func Shr(a, n *Term) *Term {
	if n.IsInt() && n.I == 0 {
		return a
	}
	if a.IsInt() && n.IsInt() && n.I >= 0 && n.I < 63 {
		return Int(a.I >> uint(n.I))
	}
	if a.Op == OShr {
		return Shr(a.Args[0], Add(a.Args[1], n))
	}
	if a == tZeroI {
		return a
	}
	if a.Op == OLin && n.IsInt() && n.I > 0 && n.I < 62 { // exact division of every coefficient
		d := int64(1) << uint(n.I)
		ok := a.I >= 0
		for _, c := range a.Coef {
			if c%d != 0 {
				ok = false
			}
		}
		if ok && a.I%d == 0 {
			l := toLin(a)
			r := linForm{map[*Term]int64{}, a.I / d}
			for t, c := range l.m {
				r.m[t] = c / d
			}
			return r.term()
		}
	}
	return mk(OShr, "", 0, a.Type, []*Term{a, n}, nil)
}

func And(a, b *Term) *Term {
	if a.IsInt() && b.IsInt() {
		return Int(a.I & b.I)
	}
	if a == tZeroI || b == tZeroI {
		return tZeroI
	}
	if a.IsInt() {
		a, b = b, a
	}
	if b.IsInt() && a.Op == OAnd && a.Args[1].IsInt() {
		return And(a.Args[0], Int(a.Args[1].I&b.I))
	}
	if !b.IsInt() && a.ID > b.ID {
		a, b = b, a
	}
	return mk(OAnd, "", 0, a.Type, []*Term{a, b}, nil)
}

func Mod(a, b *Term) *Term {
	if a.IsInt() && b.IsInt() && b.I != 0 {
		return Int(a.I % b.I)
	}
	if b.IsInt() {
		if _, ok := isPow2c(b.I); ok {
			return And(a, Int(b.I-1))
		}
	}
	return mk(OMod, "", 0, a.Type, []*Term{a, b}, nil)
}

func Div(a, b *Term) *Term {
	if a.IsInt() && b.IsInt() && b.I != 0 {
		return Int(a.I / b.I)
	}
	if b.IsInt() {
		if k, ok := isPow2c(b.I); ok {
			return Shr(a, Int(k))
		}
	}
	return mk(ODiv, "", 0, a.Type, []*Term{a, b}, nil)
}

func bin(op Op, a, b *Term) *Term {
	if a.IsInt() && b.IsInt() {
		switch op {
		case OOr:
			return Int(a.I | b.I)
		case OXor:
			return Int(a.I ^ b.I)
		case OAndNot:
			return Int(a.I &^ b.I)
		}
	}
	if op == OOr {
		if a == tZeroI {
			return b
		}
		if b == tZeroI {
			return a
		}
	}
	if op != OAndNot && a.ID > b.ID {
		a, b = b, a
	}
	return mk(op, "", 0, a.Type, []*Term{a, b}, nil)
}

// ---- atoms ----

// Lit is an atom with polarity.
type Lit struct {
	A   *Term
	Neg bool
}

func (l Lit) String() string {
	if l.Neg {
		return "!" + l.A.String()
	}
	return l.A.String()
}

func (l Lit) Not() Lit {
	if l.A.Op == OLE0 && !l.Neg { // t<=0 negated is 1-t<=0
		return litLE0(AddC(Scale(l.A.Args[0], -1), 1))
	}
	if l.A.IsBool() {
		return Lit{Bool(l.A.I == 0), false}
	}
	return Lit{l.A, !l.Neg}
}

func normLE(t *Term) *Term { // divide by gcd, tightening the constant
	if t.Op != OLin {
		return t
	}
	g := int64(0)
	for _, c := range t.Coef {
		if c < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	if g <= 1 {
		return t
	}
	l := toLin(t)
	r := linForm{map[*Term]int64{}, 0}
	for x, c := range l.m {
		r.m[x] = c / g
	}
	// sum + c <= 0  ->  sum/g <= floor(-c/g)
	q := -t.I
	f := q / g
	if q%g != 0 && q < 0 {
		f--
	}
	r.c = -f
	return r.term()
}

func litLE0(t *Term) Lit {
	t = normLE(t)
	if t.IsInt() {
		return Lit{Bool(t.I <= 0), false}
	}
	return Lit{mk(OLE0, "", 0, types.Typ[types.Bool], []*Term{t}, nil), false}
}

func litLT(a, b *Term) Lit { return litLE0(AddC(Sub(a, b), 1)) }
func litLE(a, b *Term) Lit { return litLE0(Sub(a, b)) }

func litEQ0(t *Term) Lit {
	if t.IsInt() {
		return Lit{Bool(t.I == 0), false}
	}
	if t.Op == OLin && t.Coef[0] < 0 {
		t = Scale(t, -1)
	}
	// bits are 0 or 1
	if t.Op == OLin && len(t.Args) == 1 && t.Coef[0] == 1 && t.I == -1 {
		x := t.Args[0]
		if x.Op == OAnd && x.Args[1] == tOne {
			return litEQ0(x).Not()
		}
	}
	// single bits, whichever way they are picked out
	if x, s := oneBit(t); x != nil && t != And(Shr(x, s), tOne) {
		return litEQ0(And(Shr(x, s), tOne))
	}
	if t.Op == OLin && len(t.Args) == 1 && t.Coef[0] == 1 && t.I < -1 {
		if x, s := oneBit(t.Args[0]); x != nil && s.IsInt() && int64(1)<<uint(s.I) == -t.I {
			return litEQ0(And(Shr(x, s), tOne)).Not()
		}
	}
	if t.Op == OLin && len(t.Args) == 2 && t.I == 0 && t.Coef[0]*t.Coef[1] == -1 {
		for k := range t.Args {
			x, s := oneBit(t.Args[k])
			if x == nil {
				continue
			}
			if _, s2 := bitMask(t.Args[1-k]); s2 == s {
				return litEQ0(And(Shr(x, s), tOne)).Not()
			}
		}
	}
	// bytes.Compare(a,b)==0 is equality; ConstantTimeCompare(a,b)!=0 is equality
	if t.Op == OApp && (t.Aux == "bytes.Compare" || t.Aux == "strings.Compare" || t.Aux == "cmp.Compare") {
		return litEQ(t.Args[0], t.Args[1])
	}
	if t.Op == OApp && t.Aux == "crypto/subtle.ConstantTimeCompare" {
		return litEQ(t.Args[0], t.Args[1]).Not()
	}
	if t.Op == OLin && len(t.Args) == 1 && t.I == -1 && t.Coef[0] == 1 && t.Args[0].Op == OApp && t.Args[0].Aux == "crypto/subtle.ConstantTimeCompare" {
		return litEQ(t.Args[0].Args[0], t.Args[0].Args[1])
	}
	if t.Op == OLen {
		return Lit{mk(OEQ0, "", 0, types.Typ[types.Bool], []*Term{t}, nil), false}
	}
	return Lit{mk(OEQ0, "", 0, types.Typ[types.Bool], []*Term{t}, nil), false}
}

// bitMask: m is 1 << s.
func bitMask(m *Term) (bool, *Term) {
	for m.Op == OTrunc {
		if x := m.Args[0]; x.Op != OShl && x.Op != OShr || !below8(x.Args[1]) {
			return false, nil
		}
		m = m.Args[0]
	}
	switch {
	case m.IsInt() && m.I > 0 && m.I&(m.I-1) == 0:
		return true, Int(int64(bits.TrailingZeros64(uint64(m.I))))
	case m.Op == OShl && m.Args[0] == tOne:
		return true, m.Args[1]
	case m.Op == OShr && m.Args[0] == Int(128) && below8(m.Args[1]):
		return true, Sub(Int(7), m.Args[1])
	}
	return false, nil
}

// below8: s is known to be from 0 to 7.
func below8(s *Term) bool {
	if s.IsInt() {
		return s.I >= 0 && s.I < 8
	}
	if s.Op == OLin && len(s.Args) == 1 && s.Coef[0] == -1 && s.I == 7 {
		s = s.Args[0]
	}
	return s.Op == OAnd && s.Args[1].IsInt() && s.Args[1].I >= 0 && s.Args[1].I < 8
}

// oneBit: t picks bit s of x.
func oneBit(t *Term) (x, s *Term) {
	if t.Op != OAnd || len(t.Args) != 2 {
		return nil, nil
	}
	for i := range t.Args {
		if ok, s := bitMask(t.Args[1-i]); ok {
			return t.Args[i], s
		}
	}
	return nil, nil
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isBytesLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	case *types.Array:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// litEQ is equality of two non-integer values.
func litEQ(a, b *Term) Lit {
	if a == b {
		return Lit{tTrue, false}
	}
	if a.IsInt() || b.IsInt() || a.Op == OLin || b.Op == OLin {
		return litEQ0(Sub(a, b))
	}
	if a.IsBool() {
		a, b = b, a
	}
	if b.IsBool() {
		if a.IsBool() {
			return Lit{Bool(a.I == b.I), false}
		}
		l := asLit(a)
		if b.I == 0 {
			return l.Not()
		}
		return l
	}
	if a.IsNil() {
		a, b = b, a
	}
	if b.IsNil() {
		return litNil(a)
	}
	if a.Op == OStr && b.Op == OStr {
		return Lit{Bool(a.Aux == b.Aux), false}
	}
	if a.Op == OStr && a != tEmpty && b.Op == OApp {
		a, b = b, a
	}
	if a.Op == OApp && b.Op == OStr && (a.Aux == "itoa" && strings.Trim(b.Aux, "-0123456789") != "" || a.Aux == "hex" && strings.Trim(b.Aux, "0123456789abcdef") != "") {
		return Lit{tFalse, false}
	}
	// x == "" is len(x) == 0
	if a == tEmpty {
		return litEQ0(LenOf(b))
	}
	if b == tEmpty {
		return litEQ0(LenOf(a))
	}
	// boxed comparison
	if a.Op == OIface && b.Op == OIface {
		if a.Type != nil && b.Type != nil && types.Identical(a.Type, b.Type) {
			return litEQ(a.Args[0], b.Args[0])
		}
	}
	if a.Op == OAlloc && b.Op == OAlloc {
		return Lit{tFalse, false}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return Lit{mk(OEQ, "", 0, types.Typ[types.Bool], []*Term{a, b}, nil), false}
}

func litNil(a *Term) Lit {
	switch a.Op {
	case ONil:
		return Lit{tTrue, false}
	case OSym:
		if strings.HasPrefix(a.Aux, "@") {
			return Lit{tFalse, false}
		}
	case OZero:
		if a.Type != nil {
			switch a.Type.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
				return Lit{tTrue, false}
			}
		}
	case OAlloc, OIface, OFunc, OClos, OBound, OFieldAd, OIndexAd, OGlobal, OSliceV, OStr, OConcat, OList, OBE64, OByte:
		return Lit{tFalse, false}
	case OAppend:
		return Lit{tFalse, false}
	case OApp:
		if nonNilApp[a.Aux] {
			return Lit{tFalse, false}
		}
	}
	return Lit{mk(OIsNil, "", 0, types.Typ[types.Bool], []*Term{a}, nil), false}
}

// nonNilApp lists functions whose result is never nil.
var nonNilApp = map[string]bool{
	"google.golang.org/grpc/status.Errorf": true, "google.golang.org/grpc/status.Error": true, "errors.New": true, "fmt.Errorf": true,
	"sha256": true, "hex": true, "google.golang.org/grpc/status.New": true,
}

func asLit(t *Term) Lit {
	switch t.Op {
	case OBool:
		return Lit{t, false}
	case OApp:
		if t.Aux == "!" {
			return asLit(t.Args[0]).Not()
		}
	}
	return Lit{t, false}
}

func litTerm(l Lit) *Term {
	if l.A.IsBool() {
		if l.Neg {
			return Bool(l.A.I == 0)
		}
		return l.A
	}
	if l.Neg {
		return mk(OApp, "!", 0, types.Typ[types.Bool], []*Term{l.A}, nil)
	}
	return l.A
}

// ---- sequences ----

func termCount() int { return len(tt.all) }

func LenOf(t *Term) *Term {
	switch t.Op {
	case OStr:
		return Int(int64(len(t.Aux)))
	case ONil, OZero:
		if t.Op == OZero && t.Type != nil {
			if a, ok := t.Type.Underlying().(*types.Array); ok {
				return Int(a.Len())
			}
		}
		return tZeroI
	case OConcat:
		s := tZeroI
		for _, a := range t.Args {
			s = Add(s, LenOf(a))
		}
		return s
	case OBE64:
		return Int(8)
	case OByte:
		return tOne
	case OSliceV:
		return t.Args[2]
	case OList:
		return Int(int64(len(t.Args)))
	case OAppend:
		return Add(LenOf(t.Args[0]), LenOf(t.Args[1]))
	case OSlice:
		return Sub(t.Args[2], t.Args[1])
	case OApp:
		switch t.Aux {
		case "sha256":
			return Int(32)
		case "hex":
			return Scale(LenOf(t.Args[0]), 2)
		}
		if n, ok := tableLens[t.Aux]; ok && len(t.Args) == 0 {
			return Int(n)
		}
	}
	if t.Type != nil {
		if a, ok := t.Type.Underlying().(*types.Array); ok {
			return Int(a.Len())
		}
	}
	return mk(OLen, "", 0, types.Typ[types.Int], []*Term{t}, nil)
}

func Concat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		switch p.Op {
		case ONil, OZero:
			return
		case OConcat:
			for _, a := range p.Args {
				add(a)
			}
			return
		case OByte:
			if p.Args[0].IsInt() {
				p = Str(string([]byte{byte(p.Args[0].I)}))
			}
		case OBE64:
			if p.Args[0].IsInt() {
				var b [8]byte
				v := uint64(p.Args[0].I)
				for i := 7; i >= 0; i-- {
					b[i] = byte(v)
					v >>= 8
				}
				p = Str(string(b[:]))
			}
		}
		if p.Op == OStr {
			if p.Aux == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].Op == OStr {
				out[n-1] = Str(out[n-1].Aux + p.Aux)
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	for i := 0; i+8 <= len(out); i++ {
		if x := be64Of(out[i : i+8]); x != nil {
			out = append(append(append([]*Term(nil), out[:i]...), BE64(x)), out[i+8:]...)
		}
	}
	switch len(out) {
	case 0:
		return tEmpty
	case 1:
		return out[0]
	}
	return mk(OConcat, "", 0, nil, out, nil)
}

// be64Of: the eight bytes are those of x, most significant first.
func be64Of(bs []*Term) *Term {
	var x *Term
	for i, b := range bs {
		if b.Op != OByte {
			return nil
		}
		v := b.Args[0]
		if v.Op == OAnd && v.Args[1].IsInt() && v.Args[1].I == 255 {
			v = v.Args[0]
		}
		if v.Op == OTrunc && (v.Aux == "byte" || v.Aux == "uint8") && len(v.Args) == 1 {
			v = v.Args[0]
		}
		if i < 7 {
			if v.Op != OShr || !v.Args[1].IsInt() || v.Args[1].I != int64(56-8*i) {
				return nil
			}
			v = v.Args[0]
		}
		if x == nil {
			x = v
		}
		if v != x {
			return nil
		}
	}
	return x
}

func App(name string, typ types.Type, args ...*Term) *Term {
	return mk(OApp, name, 0, typ, args, nil)
}

func Sha256(x *Term) *Term {
	if x.Op == ONil || x.Op == OZero {
		x = tEmpty
	}
	return App("sha256", nil, x)
}

func BE64(x *Term) *Term { return mk(OBE64, "", 0, nil, []*Term{x}, nil) }

func FieldOf(v *Term, name string, typ types.Type) *Term {
	switch v.Op {
	case OStruct:
		st := v.Type.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return v.Args[i]
			}
		}
	case OZero:
		return ZeroOf(typ)
	}
	return mk(OField, name, 0, typ, []*Term{v}, nil)
}

// structNonNeg: t is a sum of values that cannot be negative.
func structNonNeg(t *Term) bool {
	l := toLin(t)
	if l.c < 0 {
		return false
	}
	for x, c := range l.m {
		if c < 0 || !nonNeg(x) {
			return false
		}
	}
	return true
}

func ElemOf(v, i *Term, typ types.Type) *Term {
	switch v.Op {
	case OList:
		if i.IsInt() && i.I >= 0 && int(i.I) < len(v.Args) {
			return v.Args[i.I]
		}
	case OStr:
		if i.IsInt() && i.I >= 0 && int(i.I) < len(v.Aux) {
			return Int(int64(v.Aux[i.I]))
		}
	case OZero:
		return ZeroOf(typ)
	case OAppend:
		base, add := v.Args[0], v.Args[1]
		rel := Sub(i, LenOf(base))
		if rel.IsInt() {
			if rel.I >= 0 {
				return ElemOf(add, rel, typ)
			}
		} else if structNonNeg(rel) {
			return ElemOf(add, rel, typ)
		}
		if i.IsInt() && base.Op == OList && int(i.I) < len(base.Args) {
			return base.Args[i.I]
		}
	case OSlice:
		return ElemOf(v.Args[0], Add(v.Args[1], i), typ)
	case OConcat:
		cur := tZeroI
		for n, p := range v.Args {
			rel := Sub(i, cur)
			ln := LenOf(p)
			if n == len(v.Args)-1 && !rel.IsInt() && structNonNeg(rel) {
				return ElemOf(p, rel, typ)
			}
			if rel.IsInt() && ln.IsInt() && rel.I >= 0 && rel.I < ln.I {
				return ElemOf(p, rel, typ)
			}
			if rel.IsInt() && rel.I >= 0 && p.Op != OStr && !ln.IsInt() {
				break
			}
			cur = Add(cur, ln)
		}
	case OByte:
		if i == tZeroI {
			return v.Args[0]
		}
	}
	return mk(OElem, "", 0, typ, []*Term{v, i}, nil)
}

func ZeroOf(typ types.Type) *Term {
	if typ == nil {
		return Sym("zero?", nil)
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return tZeroI
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return tNil
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return tNil
	}
	return mk(OZero, typ.String(), 0, typ, nil, nil)
}

// SliceTerm is x[lo:hi] for a value (not memory) sequence.
func SliceTerm(x, lo, hi *Term) *Term {
	if lo == tZeroI && hi == LenOf(x) {
		return x
	}
	if lo == hi {
		return tEmpty
	}
	if x.Op == OSlice {
		return SliceTerm(x.Args[0], Add(x.Args[1], lo), Add(x.Args[1], hi))
	}
	if x.Op == OStr && lo.IsInt() && hi.IsInt() && lo.I >= 0 && hi.I >= lo.I && int(hi.I) <= len(x.Aux) {
		return Str(x.Aux[lo.I:hi.I])
	}
	if x.Op == OConcat {
		cur := tZeroI
		start := -1
		for i, p := range x.Args {
			if cur == lo {
				start = i
			}
			cur = Add(cur, LenOf(p))
			if start >= 0 && cur == hi {
				return Concat(x.Args[start : i+1]...)
			}
		}
	}
	if x.Op == OAppend && lo == tZeroI && hi == LenOf(x.Args[0]) {
		return x.Args[0]
	}
	return mk(OSlice, "", 0, x.Type, []*Term{x, lo, hi}, nil)
}

// ---- printing ----

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 14 {
		return "…"
	}
	list := func(sep string) string {
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, sep)
	}
	switch t.Op {
	case OInt:
		return strconv.FormatInt(t.I, 10)
	case OBool:
		return strconv.FormatBool(t.I == 1)
	case OStr:
		return strconv.Quote(t.Aux)
	case ONil:
		return "nil"
	case OSym, OIter:
		return t.Aux
	case ORes:
		return t.Aux
	case OGlobal:
		return "&" + t.Aux
	case OAlloc:
		return t.Aux
	case OFieldAd:
		return "&" + t.Args[0].str(d+1) + "." + t.Aux
	case OField:
		if t.Args[0].Op == ODeref {
			return t.Args[0].Args[0].str(d+1) + "." + t.Aux
		}
		return t.Args[0].str(d+1) + "." + t.Aux
	case OElem:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OSlice:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + ":" + t.Args[2].str(d+1) + "]"
	case OLin:
		var ss []string
		for i, a := range t.Args {
			c := ""
			if t.Coef[i] == -1 {
				c = "-"
			} else if t.Coef[i] != 1 {
				c = strconv.FormatInt(t.Coef[i], 10) + "*"
			}
			ss = append(ss, c+a.str(d+1))
		}
		if t.I != 0 {
			ss = append(ss, strconv.FormatInt(t.I, 10))
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case OApp:
		n := t.Aux
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		return n + "(" + list(", ") + ")"
	case OStruct, OZero:
		n := "struct"
		if t.Type != nil {
			n = types.TypeString(t.Type, func(p *types.Package) string { return p.Name() })
		}
		if t.Op == OZero {
			return n + "{}"
		}
		return n + "{" + list(", ") + "}"
	case OFunc:
		return t.Fn.String()
	case OClos, OBound:
		return "func:" + t.Fn.Name() + "(" + list(", ") + ")"
	case OIface:
		return t.Args[0].str(d + 1)
	case OTrunc, OConvT:
		return t.Aux + "(" + list(", ") + ")"
	}
	n := opNames[t.Op]
	if n == "" {
		n = fmt.Sprint("op", t.Op)
	}
	return n + "(" + list(", ") + ")"
}

// Contains reports whether x occurs in t.
func (t *Term) Contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if a.Contains(x) {
			return true
		}
	}
	return false
}

// Any reports whether some subterm satisfies f.
func (t *Term) Any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if a.Any(f) {
			return true
		}
	}
	return false
}

// Subst replaces by map.
func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return substMemo(t, m, map[*Term]*Term{})
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case OLin:
		l := linForm{map[*Term]int64{}, t.I}
		for i, a := range args {
			la := toLin(a)
			l.addScaled(la, t.Coef[i])
			l.c += t.Coef[i] * la.c
		}
		return l.term()
	case OMul:
		return Mul(args[0], args[1])
	case OShl:
		return Shl(args[0], args[1])
	case OShr:
		return Shr(args[0], args[1])
	case OAnd:
		return And(args[0], args[1])
	case OMod:
		return Mod(args[0], args[1])
	case ODiv:
		return Div(args[0], args[1])
	case OLE0:
		return litTerm(litLE0(args[0]))
	case OEQ0:
		return litTerm(litEQ0(args[0]))
	case OEQ:
		return litTerm(litEQ(args[0], args[1]))
	case OIsNil:
		return litTerm(litNil(args[0]))
	case OLen:
		return LenOf(args[0])
	case OConcat:
		return Concat(args...)
	case OField:
		return FieldOf(args[0], t.Aux, t.Type)
	case OElem:
		return ElemOf(args[0], args[1], t.Type)
	case OSlice:
		return SliceTerm(args[0], args[1], args[2])
	}
	n := mk(t.Op, t.Aux, t.I, t.Type, args, nil)
	n.Fn, n.Obj = t.Fn, t.Obj
	return n
}
