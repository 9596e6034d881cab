package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic value. Two terms are the same value iff they are the same pointer.
type Term struct {
	class string // address class (addrClass)
	fkey  string // fieldKey
	Op    string
	Args  []*Term
	Aux   interface{}
	Typ   types.Type
	ID    int
	key   string
}

var termTab = map[string]*Term{}
var termSeq int
var freshSeq int

func auxKey(a interface{}) string {
	switch a := a.(type) {
	case nil:
		return ""
	case string:
		return "s" + a
	case int:
		return "i" + strconv.Itoa(a)
	case constant.Value:
		return "c" + a.Kind().String() + a.ExactString()
	case types.Type:
		return "t" + types.TypeString(a, nil)
	case *ssa.Function:
		return fmt.Sprintf("f%p", a)
	default:
		return fmt.Sprintf("p%p", a)
	}
}

func mk(op string, typ types.Type, aux interface{}, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(auxKey(aux))
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{Op: op, Args: args, Aux: aux, Typ: typ, ID: termSeq, key: k}
	termTab[k] = t
	return t
}

func fresh(label string, typ types.Type) *Term {
	freshSeq++
	t := mk("sym", typ, label+"#"+strconv.Itoa(freshSeq))
	return t
}

func mkConst(v constant.Value, typ types.Type) *Term {
	if v.Kind() == constant.Int || v.Kind() == constant.Float {
		if b, ok := typ.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				v = constant.ToInt(v)
			} else if b.Info()&types.IsFloat != 0 {
				v = constant.ToFloat(v)
				// distinguish float constants from int constants
				return mk("fconst", typ, "F"+v.ExactString(), nil...).withConst(v)
			}
		}
	}
	return mk("const", typ, v)
}

var fconstVals = map[*Term]constant.Value{}

func (t *Term) withConst(v constant.Value) *Term { fconstVals[t] = v; return t }

func mkInt(n int64, typ types.Type) *Term {
	if typ == nil {
		typ = types.Typ[types.Int]
	}
	return mk("const", typ, constant.MakeInt64(n))
}
func mkBool(b bool) *Term     { return mk("const", types.Typ[types.Bool], constant.MakeBool(b)) }
func mkString(s string) *Term { return mk("const", types.Typ[types.String], constant.MakeString(s)) }
func mkNil(t types.Type) *Term {
	return mk("nil", t, nil)
}

func (t *Term) isNil() bool { return t.Op == "nil" }

func (t *Term) constVal() (constant.Value, bool) {
	if t.Op == "const" {
		return t.Aux.(constant.Value), true
	}
	if t.Op == "fconst" {
		return fconstVals[t], true
	}
	return nil, false
}

func (t *Term) intVal() (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	v := t.Aux.(constant.Value)
	if v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}
func (t *Term) boolVal() (bool, bool) {
	if t.Op != "const" {
		return false, false
	}
	v := t.Aux.(constant.Value)
	if v.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(v), true
}
func (t *Term) strVal() (string, bool) {
	if t.Op != "const" {
		return "", false
	}
	v := t.Aux.(constant.Value)
	if v.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(v), true
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// ---- linear integer forms ----

// Lin is sum(coef*atom)+c over integer atoms.
type Lin struct {
	C     int64
	Coefs map[*Term]int64
}

func linConst(c int64) Lin { return Lin{C: c, Coefs: map[*Term]int64{}} }

func linOf(t *Term) Lin {
	if n, ok := t.intVal(); ok {
		return linConst(n)
	}
	if t.Op == "lin" {
		l := t.Aux.(*linAux)
		r := linConst(l.C)
		for i, a := range t.Args {
			r.Coefs[a] = l.K[i]
		}
		return r
	}
	r := linConst(0)
	r.Coefs[t] = 1
	return r
}

func (a Lin) add(b Lin, k int64) Lin {
	r := linConst(a.C + k*b.C)
	for t, c := range a.Coefs {
		r.Coefs[t] = c
	}
	for t, c := range b.Coefs {
		r.Coefs[t] += k * c
		if r.Coefs[t] == 0 {
			delete(r.Coefs, t)
		}
	}
	return r
}
func (a Lin) scale(k int64) Lin {
	r := linConst(a.C * k)
	if k != 0 {
		for t, c := range a.Coefs {
			r.Coefs[t] = c * k
		}
	}
	return r
}
func (a Lin) isConst() bool { return len(a.Coefs) == 0 }
func (a Lin) atoms() []*Term {
	r := make([]*Term, 0, len(a.Coefs))
	for t := range a.Coefs {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

type linAux struct {
	C int64
	K []int64
}

var linAuxTab = map[string]*linAux{}

func (a Lin) term(typ types.Type) *Term {
	if typ == nil {
		typ = types.Typ[types.Int]
	}
	if len(a.Coefs) == 0 {
		return mkInt(a.C, typ)
	}
	at := a.atoms()
	if len(at) == 1 && a.C == 0 && a.Coefs[at[0]] == 1 {
		return at[0]
	}
	ks := make([]int64, len(at))
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", a.C)
	for i, t := range at {
		ks[i] = a.Coefs[t]
		fmt.Fprintf(&sb, ",%d", ks[i])
	}
	aux := linAuxTab[sb.String()]
	if aux == nil {
		aux = &linAux{a.C, ks}
		linAuxTab[sb.String()] = aux
	}
	return mk("lin", typ, aux, at...)
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// mkLt0 is the canonical literal "l < 0" over integers.
func mkLt0(l Lin) *Term {
	if l.isConst() {
		return mkBool(l.C < 0)
	}
	var g int64
	for _, c := range l.Coefs {
		g = gcd(g, c)
	}
	if g > 1 {
		// sum <= -1 - C  => sum/g <= floor((-1-C)/g)
		b := floorDiv(-1-l.C, g)
		r := linConst(-b - 1)
		for t, c := range l.Coefs {
			r.Coefs[t] = c / g
		}
		l = r
	}
	return mk("lt0", types.Typ[types.Bool], nil, l.term(nil))
}

func mkEq0(l Lin) *Term {
	if l.isConst() {
		return mkBool(l.C == 0)
	}
	at := l.atoms()
	if l.Coefs[at[0]] < 0 {
		l = l.scale(-1)
	}
	var g int64
	for _, c := range l.Coefs {
		g = gcd(g, c)
	}
	if g > 1 {
		if l.C%g != 0 {
			return mkBool(false)
		}
		r := linConst(l.C / g)
		for t, c := range l.Coefs {
			r.Coefs[t] = c / g
		}
		l = r
	}
	return mk("eq0", types.Typ[types.Bool], nil, l.term(nil))
}

func mkNot(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return mkBool(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	if t.Op == "lt0" {
		l := linOf(t.Args[0])
		return mkLt0(l.scale(-1).add(linConst(1), -1))
	}
	return mk("not", types.Typ[types.Bool], nil, t)
}

func mkAdd(a, b *Term, typ types.Type) *Term { return linOf(a).add(linOf(b), 1).term(typ) }
func mkSub(a, b *Term, typ types.Type) *Term { return linOf(a).add(linOf(b), -1).term(typ) }

func mkEq(a, b *Term) *Term {
	if a == b && !isFloat(a.Typ) {
		return mkBool(true)
	}
	if isInteger(a.Typ) && isInteger(b.Typ) {
		return mkEq0(linOf(a).add(linOf(b), -1))
	}
	if va, ok := a.constVal(); ok {
		if vb, ok := b.constVal(); ok {
			return mkBool(constant.Compare(va, tokEQL, vb))
		}
	}
	if isBool(a.Typ) {
		if v, ok := a.boolVal(); ok {
			if v {
				return b
			}
			return mkNot(b)
		}
		if v, ok := b.boolVal(); ok {
			if v {
				return a
			}
			return mkNot(a)
		}
	}
	if a.isNil() && nonNil(b) || b.isNil() && nonNil(a) {
		return mkBool(false)
	}
	if a.isNil() && b.isNil() {
		return mkBool(true)
	}
	// len(s)==0 <=> s==""
	if s, ok := a.strVal(); ok && s == "" {
		return mkEq0(linOf(lenOf(b)))
	}
	if s, ok := b.strVal(); ok && s == "" {
		return mkEq0(linOf(lenOf(a)))
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return mkBool(false)
	}
	if a.Op == "iface" && b.Op == "iface" && !types.Identical(a.Aux.(types.Type), b.Aux.(types.Type)) {
		return mkBool(false)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("eq", types.Typ[types.Bool], nil, a, b)
}

// nonNil reports whether t can not be nil by construction.
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "faddr", "iaddr", "global", "func", "closure", "makeslice", "makemap", "makechan", "iface", "errnew", "bound":
		return true
	case "slice":
		return t.Args[0].Op == "alloc" || nonNil(t.Args[0])
	case "append":
		if len(t.Args) > 1 {
			return t.Aux != "spread"
		}
	}
	return false
}

func strLen(t *Term) (int64, bool) {
	if s, ok := t.strVal(); ok {
		return int64(len(s)), true
	}
	return 0, false
}

// lenOf returns the term for len(t) (slices, strings, arrays by pointer, maps, channels).
func lenOf(t *Term) *Term {
	switch t.Op {
	case "nil":
		return mkInt(0, nil)
	case "const":
		if n, ok := strLen(t); ok {
			return mkInt(n, nil)
		}
	case "makeslice":
		return t.Args[0]
	case "slice":
		// slice(base, lo, hi)
		return mkSub(t.Args[2], t.Args[1], nil)
	case "append":
		l := linOf(lenOf(t.Args[0]))
		if t.Aux == "spread" {
			return l.add(linOf(lenOf(t.Args[1])), 1).term(nil)
		}
		l.C += int64(len(t.Args) - 1)
		return l.term(nil)
	case "cat":
		l := linConst(0)
		for _, a := range t.Args {
			l = l.add(linOf(lenOf(a)), 1)
		}
		return l.term(nil)
	case "zero":
		if _, ok := t.Typ.Underlying().(*types.Slice); ok {
			return mkInt(0, nil)
		}
		if isString(t.Typ) {
			return mkInt(0, nil)
		}
	case "conv":
		// string <-> []byte keep their length
		to, from := t.Typ, t.Args[0].Typ
		if isByteSlice(to) && isString(from) || isString(to) && isByteSlice(from) {
			return lenOf(t.Args[0])
		}
	}
	if t.Typ != nil {
		if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return mkInt(a.Len(), nil)
			}
		}
		if a, ok := t.Typ.Underlying().(*types.Array); ok {
			return mkInt(a.Len(), nil)
		}
	}
	return mk("len", types.Typ[types.Int], nil, t)
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func capOf(t *Term) *Term {
	switch t.Op {
	case "nil":
		return mkInt(0, nil)
	case "makeslice":
		return t.Args[1]
	case "makechan":
		return t.Args[0]
	case "slice":
		if len(t.Args) > 3 {
			return mkSub(t.Args[3], t.Args[1], nil)
		}
		return mkSub(capBase(t.Args[0]), t.Args[1], nil)
	}
	return mk("cap", types.Typ[types.Int], nil, t)
}

func capBase(t *Term) *Term {
	if t.Typ != nil {
		if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return mkInt(a.Len(), nil)
			}
		}
	}
	return capOf(t)
}

// mkSlice builds base[lo:hi] with nested slices flattened. Strings use op "slice" as well.
func mkSlice(base, lo, hi *Term, typ types.Type) *Term {
	if lo == nil {
		lo = mkInt(0, nil)
	}
	if hi == nil {
		hi = lenOf(base)
	}
	if base.Op == "slice" {
		blo := base.Args[1]
		return mkSlice0(base.Args[0], mkAdd(blo, lo, nil), mkAdd(blo, hi, nil), typ)
	}
	return mkSlice0(base, lo, hi, typ)
}

func mkSlice0(base, lo, hi *Term, typ types.Type) *Term {
	if s, ok := base.strVal(); ok {
		if l, ok := lo.intVal(); ok {
			if h, ok := hi.intVal(); ok && 0 <= l && l <= h && h <= int64(len(s)) {
				return mkString(s[l:h])
			}
		}
	}
	if l, ok := lo.intVal(); ok && l == 0 && hi == lenOf(base) {
		isPtr := false
		if base.Typ != nil {
			_, isPtr = base.Typ.Underlying().(*types.Pointer)
		}
		if !isPtr {
			return base
		}
	}
	return mk("slice", typ, nil, base, lo, hi)
}

// ---- printing ----

func (t *Term) String() string { return t.str(6) }

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	args := func() string {
		s := make([]string, len(t.Args))
		for i, a := range t.Args {
			s[i] = a.str(d - 1)
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.Aux.(constant.Value).String()
	case "fconst":
		return fconstVals[t].String()
	case "nil":
		return "nil"
	case "sym":
		return t.Aux.(string)
	case "param":
		return t.Aux.(string)
	case "global":
		return "&" + t.Aux.(*ssa.Global).Name()
	case "func":
		return t.Aux.(*ssa.Function).Name()
	case "closure":
		return "closure(" + t.Aux.(*ssa.Function).Name() + ")"
	case "faddr":
		return "&" + t.Args[0].str(d-1) + "." + fieldName(t)
	case "ld":
		if t.Args[0].Op == "faddr" {
			return t.Args[0].Args[0].str(d-1) + "." + fieldName(t.Args[0])
		}
		if t.Args[0].Op == "global" {
			return t.Args[0].Aux.(*ssa.Global).Name()
		}
		return "*" + t.Args[0].str(d-1)
	case "lin":
		l := t.Aux.(*linAux)
		var p []string
		for i, a := range t.Args {
			switch l.K[i] {
			case 1:
				p = append(p, a.str(d-1))
			case -1:
				p = append(p, "-"+a.str(d-1))
			default:
				p = append(p, fmt.Sprintf("%d*%s", l.K[i], a.str(d-1)))
			}
		}
		if l.C != 0 {
			p = append(p, fmt.Sprint(l.C))
		}
		return "(" + strings.Join(p, "+") + ")"
	case "lt0":
		return t.Args[0].str(d-1) + " < 0"
	case "eq0":
		return t.Args[0].str(d-1) + " == 0"
	case "eq":
		return t.Args[0].str(d-1) + " == " + t.Args[1].str(d-1)
	case "not":
		return "!(" + t.Args[0].str(d-1) + ")"
	case "app":
		return t.Aux.(string) + "(" + args() + ")"
	case "call":
		return t.Aux.(*CallRes).Name + "@" + strconv.Itoa(t.Aux.(*CallRes).N)
	case "ex":
		return t.Args[0].str(d-1) + "." + strconv.Itoa(t.Aux.(int))
	case "len", "cap":
		return t.Op + "(" + args() + ")"
	case "alloc":
		return "new" + strconv.Itoa(t.ID)
	case "iface":
		return t.Args[0].str(d)
	case "slice":
		return fmt.Sprintf("%s[%s:%s]", t.Args[0].str(d-1), t.Args[1].str(d-1), t.Args[2].str(d-1))
	case "iaddr":
		return fmt.Sprintf("&%s[%s]", t.Args[0].str(d-1), t.Args[1].str(d-1))
	}
	return t.Op + "(" + args() + ")"
}

func fieldName(t *Term) string {
	// t is faddr
	st := derefStruct(t.Args[0].Typ)
	i := t.Aux.(int)
	if st != nil && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return "f" + strconv.Itoa(i)
}

func derefStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(x *Term) bool {
		if x == sub {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// find returns the first subterm satisfying p.
func (t *Term) find(p func(*Term) bool) *Term {
	seen := map[*Term]bool{}
	var f func(*Term) *Term
	f = func(x *Term) *Term {
		if seen[x] {
			return nil
		}
		seen[x] = true
		if p(x) {
			return x
		}
		for _, a := range x.Args {
			if r := f(a); r != nil {
				return r
			}
		}
		return nil
	}
	return f(t)
}
