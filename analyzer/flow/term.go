// Package flow is a path-sensitive abstract interpreter over SSA.
//
// A value is described by a term: a constant, an abstract object, or the name
// of "the result of this operation on these values". Terms are interned, so two
// values with the same term are equal. Terms are immutable, facts about them
// stay true once learned.
package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned abstract value.
type Term struct {
	id     int
	Op     string
	Aux    string
	Args   []*Term
	Typ    types.Type
	Val    constant.Value
	Fn     *ssa.Function
	DTyp   types.Type // dynamic type of iface, ifval and istype terms
	serial int        // newest symbol inside
	coefs  []coef     // of sums
	sum    int64
	text   string
}

type interner struct {
	tab    map[string]*Term
	next   int
	serial int
}

var terms = &interner{tab: map[string]*Term{}}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	switch t := types.Unalias(t).(type) {
	case *types.Pointer:
		return "*" + typeKey(t.Elem())
	case *types.Slice:
		return "[]" + typeKey(t.Elem())
	default:
		return types.TypeString(t, nil)
	}
}

func mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte(0)
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if t, ok := terms.tab[key]; ok {
		return t
	}
	terms.next++
	t := &Term{id: terms.next, Op: op, Aux: aux, Args: append([]*Term(nil), args...), Typ: typ}
	for _, a := range args {
		if a.serial > t.serial {
			t.serial = a.serial
		}
	}
	terms.tab[key] = t
	return t
}

// Sym returns the symbol of that name. Symbols made by Sym are older than
// everything made by fresh.
func Sym(name string, typ types.Type) *Term { return mk("sym", name, typ) }

func (t *Term) withSerial(s int) *Term {
	if t.serial < s {
		t.serial = s
	}
	return t
}

// newSym returns a symbol that is newer than everything created so far.
func newSym(name string, typ types.Type) *Term {
	terms.serial++
	t := mk("sym", name+"'"+strconv.Itoa(terms.serial), typ)
	t.serial = terms.serial
	return t
}

// App is a pure operation applied to args.
func App(name string, typ types.Type, args ...*Term) *Term { return mk("app", name, typ, args...) }

var (
	Nil   = mk("nil", "", nil)
	True  = Bool(true)
	False = Bool(false)
)

func constKind(t types.Type) string {
	if t == nil {
		return ""
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return "f"
	}
	return ""
}

// Const is the term of a constant of a type.
func Const(v constant.Value, typ types.Type) *Term {
	k := constKind(typ)
	if k == "f" {
		v = constant.ToFloat(v)
	}
	t := mk("const", k+v.Kind().String()+":"+v.ExactString(), typ)
	t.Val = v
	return t
}

func Bool(b bool) *Term       { return Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func Int(n int64) *Term       { return Const(constant.MakeInt64(n), types.Typ[types.Int]) }
func Str(s string) *Term      { return Const(constant.MakeString(s), types.Typ[types.String]) }
func (t *Term) IsConst() bool { return t.Op == "const" || t.Op == "nil" }

// IntVal returns the value of an integer constant.
func (t *Term) IntVal() (int64, bool) {
	if t.Op == "const" && t.Val.Kind() == constant.Int {
		return constant.Int64Val(t.Val)
	}
	return 0, false
}

// StrVal returns the value of a string constant.
func (t *Term) StrVal() (string, bool) {
	if t.Op == "const" && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}

func (t *Term) BoolVal() (v, ok bool) {
	if t.Op == "const" && t.Val.Kind() == constant.Bool {
		return constant.BoolVal(t.Val), true
	}
	return false, false
}

// Mentions reports whether pred holds for t or a part of it.
func (t *Term) Mentions(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		p := ""
		if j := strings.LastIndex(s[:i], "("); j >= 0 {
			p = s[:j+1]
			if j+1 < len(s) && s[j+1] == '*' {
				p += "*"
			}
		}
		return p + s[i+1:]
	}
	return s
}

func (t *Term) String() string {
	if t.text == "" {
		t.text = t.str(0)
	}
	return t.text
}

func (t *Term) str(depth int) string {
	if t == nil {
		return "<none>"
	}
	if depth > 12 {
		return "…"
	}
	j := func(sep string) string {
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, a.str(depth+1))
		}
		return strings.Join(ss, sep)
	}
	switch t.Op {
	case "const":
		return t.Val.String()
	case "nil":
		return "nil"
	case "sym", "obj", "glob":
		return shortName(t.Aux)
	case "fld":
		return t.Args[0].str(depth+1) + "." + t.Aux[strings.Index(t.Aux, ":")+1:]
	case "&fld":
		return "&" + t.Args[0].str(depth+1) + "." + t.Aux[strings.Index(t.Aux, ":")+1:]
	case "deref":
		return "*" + t.Args[0].str(depth+1)
	case "elem", "idx":
		return t.Args[0].str(depth+1) + "[" + t.Args[1].str(depth+1) + "]"
	case "struct":
		return shortName(typeKey(t.Typ)) + "{" + j(", ") + "}"
	case "list":
		return "[" + j(" ") + "]"
	case "seg:e":
		return t.Args[0].str(depth + 1)
	case "seg:s":
		return t.Args[0].str(depth+1) + "..."
	case "seg:c":
		return "<" + t.Aux + ">"
	case "lin":
		var sb strings.Builder
		cs, k := t.lin()
		for i, c := range cs {
			switch {
			case c.c == 1 && i > 0:
				sb.WriteString("+")
			case c.c == -1:
				sb.WriteString("-")
			case c.c != 1:
				fmt.Fprintf(&sb, "%+d*", c.c)
			}
			sb.WriteString(c.t.str(depth + 1))
		}
		if k != 0 {
			fmt.Fprintf(&sb, "%+d", k)
		}
		return sb.String()
	case "ile":
		return t.Args[0].str(depth+1) + "<=0"
	case "ieq":
		return t.Args[0].str(depth+1) + "==0"
	case "ord":
		return t.Args[0].str(depth+1) + maskString(t.mask()) + t.Args[1].str(depth+1)
	case "eq":
		return t.Args[0].str(depth+1) + "==" + t.Args[1].str(depth+1)
	case "not":
		return "!" + t.Args[0].str(depth+1)
	case "istype":
		return t.Args[0].str(depth+1) + ".(" + shortName(t.Aux) + ")"
	case "ifval":
		return t.Args[0].str(depth+1) + ".(" + shortName(t.Aux) + ")"
	case "iface":
		return "iface(" + shortName(t.Aux) + "," + j(",") + ")"
	case "ext":
		return t.Args[0].str(depth+1) + "#" + t.Aux
	case "app", "rec":
		return shortName(t.Aux) + "(" + j(", ") + ")"
	case "concat":
		return "(" + j("+") + ")"
	}
	s := t.Op
	if t.Aux != "" {
		s += ":" + shortName(t.Aux)
	}
	if len(t.Args) == 0 {
		return s
	}
	return s + "(" + j(", ") + ")"
}

// ---- integers as linear forms

type coef struct {
	t *Term
	c int64
}

func isIntTerm(t *Term) bool {
	if t.Op == "lin" {
		return true
	}
	if t.Op == "const" {
		return t.Val.Kind() == constant.Int && constKind(t.Typ) == ""
	}
	return false
}

func (t *Term) lin() ([]coef, int64) {
	if n, ok := t.IntVal(); ok {
		return nil, n
	}
	if t.Op != "lin" {
		return []coef{{t, 1}}, 0
	}
	if t.coefs != nil {
		return t.coefs, t.sum
	}
	parts := strings.Split(t.Aux, ",")
	cs := make([]coef, len(t.Args))
	for i, a := range t.Args {
		n, _ := strconv.ParseInt(parts[i], 10, 64)
		cs[i] = coef{a, n}
	}
	k, _ := strconv.ParseInt(parts[len(parts)-1], 10, 64)
	t.coefs, t.sum = cs, k
	return cs, k
}

func mkLin(m map[*Term]int64, k int64) *Term {
	var ts []*Term
	for t, c := range m {
		if c != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return Int(k)
	}
	if len(ts) == 1 && m[ts[0]] == 1 && k == 0 {
		return ts[0]
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var aux []byte
	for _, t := range ts {
		aux = append(strconv.AppendInt(aux, m[t], 10), ',')
	}
	aux = strconv.AppendInt(aux, k, 10)
	return mk("lin", string(aux), types.Typ[types.Int], ts...)
}

type combKey struct {
	a, b   *Term
	ca, cb int64
}

var combs = map[combKey]*Term{}

func linComb(a *Term, ca int64, b *Term, cb int64) *Term {
	key := combKey{a, b, ca, cb}
	if t, ok := combs[key]; ok {
		return t
	}
	t := newComb(a, ca, b, cb)
	combs[key] = t
	return t
}

func newComb(a *Term, ca int64, b *Term, cb int64) *Term {
	m := map[*Term]int64{}
	k := int64(0)
	add := func(t *Term, f int64) {
		cs, kk := t.lin()
		for _, c := range cs {
			m[c.t] += c.c * f
		}
		k += kk * f
	}
	add(a, ca)
	if b != nil {
		add(b, cb)
	}
	return mkLin(m, k)
}

// Add and Sub build sums and differences of integers.
func Add(a, b *Term) *Term { return linComb(a, 1, b, 1) }
func Sub(a, b *Term) *Term { return linComb(a, 1, b, -1) }

// ---- conditions

const (
	ordLT = 1 << iota
	ordEQ
	ordGT
	ordUN
)

func maskString(m int) string {
	s := "{"
	for i, n := range []string{"<", "=", ">", "?"} {
		if m&(1<<i) != 0 {
			s += n
		}
	}
	return s + "}"
}

func (t *Term) mask() int { n, _ := strconv.Atoi(t.Aux[1:]); return n }

func (t *Term) partial() bool { return t.Aux[0] == 'p' } // may be unordered

// mkOrd is the condition that a and b are in one of the relations of mask.
// Partial orders (floating point numbers) may also be unordered.
func mkOrd(a, b *Term, mask int, partial bool) *Term {
	if !partial {
		mask &^= ordUN
	}
	if a == b && !partial {
		return Bool(mask&ordEQ != 0)
	}
	if a.Op == "const" && b.Op == "const" && a.Val.Kind() == b.Val.Kind() {
		m := ordEQ
		if constant.Compare(a.Val, token.LSS, b.Val) {
			m = ordLT
		} else if constant.Compare(a.Val, token.GTR, b.Val) {
			m = ordGT
		}
		return Bool(m&mask != 0)
	}
	if a.id > b.id {
		a, b = b, a
		m := mask &^ (ordLT | ordGT)
		if mask&ordLT != 0 {
			m |= ordGT
		}
		if mask&ordGT != 0 {
			m |= ordLT
		}
		mask = m
	}
	full := ordLT | ordEQ | ordGT
	p := "t"
	if partial {
		full |= ordUN
		p = "p"
	}
	if mask == 0 {
		return False
	}
	if mask == full {
		return True
	}
	return mk("ord", p+strconv.Itoa(mask), types.Typ[types.Bool], a, b)
}

// Ord is the condition a rel b for rel one of < <= == >= >. Partial is for
// floating point numbers.
func Ord(a *Term, rel string, b *Term, partial bool) *Term {
	m := map[string]int{"<": ordLT, "<=": ordLT | ordEQ, "==": ordEQ, ">=": ordGT | ordEQ, ">": ordGT}[rel]
	return mkOrd(a, b, m, partial)
}

// Le is the condition a <= b on integers.
func Le(a, b *Term) *Term {
	d := Sub(a, b)
	if n, ok := d.IntVal(); ok {
		return Bool(n <= 0)
	}
	return mk("ile", "", types.Typ[types.Bool], d)
}

// Lt is the condition a < b on integers.
func Lt(a, b *Term) *Term { return Le(Add(a, Int(1)), b) }

// IEq is the condition a == b on integers.
func IEq(a, b *Term) *Term {
	d := Sub(a, b)
	if n, ok := d.IntVal(); ok {
		return Bool(n == 0)
	}
	// normalise the sign
	cs, _ := d.lin()
	if cs[0].c < 0 {
		d = linComb(d, -1, nil, 0)
	}
	return mk("ieq", "", types.Typ[types.Bool], d)
}

// Not negates a condition.
func Not(c *Term) *Term {
	switch c.Op {
	case "const":
		v, _ := c.BoolVal()
		return Bool(!v)
	case "not":
		return c.Args[0]
	case "ord":
		full := ordLT | ordEQ | ordGT
		if c.partial() {
			full |= ordUN
		}
		return mkOrd(c.Args[0], c.Args[1], full&^c.mask(), c.partial())
	case "ile":
		return Le(Int(1), c.Args[0])
	}
	return mk("not", "", types.Typ[types.Bool], c)
}

func neverNil(t *Term) bool {
	switch t.Op {
	case "obj", "glob", "&fld", "&idx", "&elem", "iface", "clos", "fn", "mapref", "struct":
		return true
	case "app":
		switch t.Aux {
		case "errors.New", "fmt.Errorf":
			return true
		}
	case "sref":
		return true
	}
	return false
}

func eqConsts(a, b *Term) (bool, bool) {
	if a.Op == "const" && b.Op == "const" {
		if a.Val.Kind() == b.Val.Kind() || (isNum(a) && isNum(b)) {
			return constant.Compare(a.Val, token.EQL, b.Val), true
		}
	}
	return false, false
}

func isNum(t *Term) bool { k := t.Val.Kind(); return k == constant.Int || k == constant.Float }

// Eq is the condition that two values that are not floating point numbers are
// equal.
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if v, ok := eqConsts(a, b); ok {
		return Bool(v)
	}
	if isIntTerm(a) && isEnumLike(b) {
		a, b = b, a
	}
	if isIntTerm(b) && isEnumLike(a) {
		return mk("eq", "", types.Typ[types.Bool], a, b)
	}
	if isIntTerm(a) || isIntTerm(b) {
		return IEq(a, b)
	}
	if v, ok := a.BoolVal(); ok {
		a, b = b, a
		_ = v
	}
	if v, ok := b.BoolVal(); ok {
		if v {
			return a
		}
		return Not(a)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.Op == "concat" || b.Op == "concat" {
		if x, y, ok := differ(a, b); !ok {
			return False
		} else if x != a || y != b {
			return Eq(x, y)
		}
	}
	if b.Op == "nil" && neverNil(a) {
		return False
	}
	if b.IsConst() {
		return mk("eq", "", types.Typ[types.Bool], a, b)
	}
	if a.Op == "obj" && b.Op == "obj" {
		return False
	}
	if a.Op == "iface" && b.Op == "iface" {
		if a.Aux != b.Aux {
			return False
		}
		return Eq(a.Args[0], b.Args[0])
	}
	// errors made by the library are distinct from all others
	made := func(t *Term) bool { return t.Op == "app" && (t.Aux == "errors.New" || t.Aux == "fmt.Errorf") }
	if made(a) && (made(b) || b.Op == "iface") || made(b) && a.Op == "iface" {
		return False
	}
	if a.Op == "struct" && b.Op == "struct" && len(a.Args) == len(b.Args) {
		same := true
		for i := range a.Args {
			if v, ok := eqConsts(a.Args[i], b.Args[i]); ok && !v {
				return False
			}
			if a.Args[i] != b.Args[i] {
				same = false
			}
		}
		if same {
			return True
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

// differ removes what two texts have in common at both ends. It reports false
// if they cannot be equal.
func differ(a, b *Term) (x, y *Term, ok bool) {
	split := func(t *Term) []*Term {
		if t.Op == "concat" {
			return append([]*Term(nil), t.Args...)
		}
		if s, ok := t.StrVal(); ok && s == "" {
			return nil
		}
		return []*Term{t}
	}
	p, q := split(a), split(b)
	for len(p) > 0 && len(q) > 0 {
		if p[0] == q[0] {
			p, q = p[1:], q[1:]
			continue
		}
		s, ok1 := p[0].StrVal()
		t, ok2 := q[0].StrVal()
		if !ok1 || !ok2 {
			break
		}
		n := 0
		for n < len(s) && n < len(t) && s[n] == t[n] {
			n++
		}
		if n < len(s) && n < len(t) {
			return nil, nil, false
		}
		if p[0] = Str(s[n:]); n == len(s) {
			p = p[1:]
		}
		if q[0] = Str(t[n:]); n == len(t) {
			q = q[1:]
		}
	}
	for len(p) > 0 && len(q) > 0 {
		i, j := len(p)-1, len(q)-1
		if p[i] == q[j] {
			p, q = p[:i], q[:j]
			continue
		}
		s, ok1 := p[i].StrVal()
		t, ok2 := q[j].StrVal()
		if !ok1 || !ok2 {
			break
		}
		n := 0
		for n < len(s) && n < len(t) && s[len(s)-1-n] == t[len(t)-1-n] {
			n++
		}
		if n < len(s) && n < len(t) {
			return nil, nil, false
		}
		if p[i] = Str(s[:len(s)-n]); n == len(s) {
			p = p[:i]
		}
		if q[j] = Str(t[:len(t)-n]); n == len(t) {
			q = q[:j]
		}
	}
	for _, l := range [][2][]*Term{{p, q}, {q, p}} {
		if len(l[0]) == 0 {
			for _, t := range l[1] {
				if s, ok := t.StrVal(); ok && s != "" || t.Op == "app" && t.Aux == "strconv.Quote" {
					return nil, nil, false
				}
			}
		}
	}
	return Concat(p...), Concat(q...), true
}

// IsType is the condition that the dynamic type of the interface value x is t.
func IsType(x *Term, t types.Type) *Term {
	if x.Op == "nil" {
		return False
	}
	if x.Op == "iface" {
		if types.IsInterface(t) {
			return Bool(types.Implements(x.DTyp, t.Underlying().(*types.Interface)))
		}
		return Bool(types.Identical(x.DTyp, t))
	}
	r := mk("istype", typeKey(t), types.Typ[types.Bool], x)
	r.DTyp = t
	return r
}

// MakeIface is x converted to an interface.
func MakeIface(x *Term, dyn types.Type) *Term {
	if x.Op == "ifval" && types.Identical(x.DTyp, dyn) {
		return x.Args[0]
	}
	r := mk("iface", typeKey(dyn), nil, x)
	r.DTyp = dyn
	return r
}

// IfaceVal is the value of dynamic type dyn in the interface value x.
func IfaceVal(x *Term, dyn types.Type) *Term {
	if x.Op == "iface" {
		return x.Args[0]
	}
	r := mk("ifval", typeKey(dyn), dyn, x)
	r.DTyp = dyn
	return r
}

// ---- structures

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// Field is field i of the struct value v of type typ.
func Field(v *Term, i int, typ types.Type) *Term {
	if v.Op == "struct" {
		return v.Args[i]
	}
	st := structOf(typ)
	f := st.Field(i)
	return mk("fld", strconv.Itoa(i)+":"+f.Name(), f.Type(), v)
}

// FieldNamed is the field of that name.
func FieldNamed(v *Term, name string, typ types.Type) *Term {
	st := structOf(typ)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return Field(v, i, typ)
		}
	}
	panic("no field " + name + " in " + typeKey(typ))
}

func mkStruct(typ types.Type, args []*Term) *Term {
	if len(args) > 0 && args[0].Op == "fld" && args[0].Args[0].Typ != nil && types.Identical(args[0].Args[0].Typ, typ) {
		x := args[0].Args[0]
		same := true
		for i, a := range args {
			if a.Op != "fld" || a.Args[0] != x || !strings.HasPrefix(a.Aux, strconv.Itoa(i)+":") {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	return mk("struct", typeKey(typ), typ, args...)
}

func setField(v *Term, i int, nv *Term, typ types.Type) *Term {
	st := structOf(typ)
	args := make([]*Term, st.NumFields())
	for j := range args {
		if j == i {
			args[j] = nv
		} else {
			args[j] = Field(v, j, typ)
		}
	}
	return mkStruct(typ, args)
}

func arrayLen(t types.Type) (int64, types.Type) {
	a := t.Underlying().(*types.Array)
	return a.Len(), a.Elem()
}

// Zero is the zero value of a type.
func Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Const(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return Const(constant.MakeInt64(0), t)
		}
		return Nil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = Zero(u.Field(i).Type())
		}
		return mkStruct(t, args)
	case *types.Array:
		if u.Len() <= 256 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = Zero(u.Elem())
			}
			return mk("array", typeKey(t), t, args...)
		}
		return mk("zarr", typeKey(t), t, Int(u.Len()))
	}
	return Nil
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Byte]
		}
	}
	return nil
}

// index reads an element of an array value.
func index(v, i *Term, typ types.Type) *Term {
	if v.Op == "array" {
		if n, ok := i.IntVal(); ok && n >= 0 && n < int64(len(v.Args)) {
			return v.Args[n]
		}
	}
	if v.Op == "zarr" && elemType(typ) != nil {
		return Zero(elemType(typ))
	}
	if v.Op == "upd" {
		if v.Args[1] == i {
			return v.Args[2]
		}
		if d := Sub(v.Args[1], i); d.Op == "const" {
			return index(v.Args[0], i, typ)
		}
	}
	return mk("idx", "", elemType(typ), v, i)
}

func setIndex(v, i, nv *Term, typ types.Type) *Term {
	if n, ok := i.IntVal(); ok {
		if v.Op == "array" && n >= 0 && n < int64(len(v.Args)) {
			args := append([]*Term(nil), v.Args...)
			args[n] = nv
			return mk("array", v.Aux, v.Typ, args...)
		}
		if l, e := arrayLenOf(typ); l >= 0 && l <= 64 {
			args := make([]*Term, l)
			for j := range args {
				if int64(j) == n {
					args[j] = nv
				} else {
					args[j] = index(v, Int(int64(j)), typ)
				}
			}
			_ = e
			return mk("array", typeKey(typ), typ, args...)
		}
	}
	return mk("upd", "", typ, v, i, nv)
}

func arrayLenOf(t types.Type) (int64, types.Type) {
	if t != nil {
		if a, ok := t.Underlying().(*types.Array); ok {
			return a.Len(), a.Elem()
		}
	}
	return -1, nil
}

// ---- lists (contents of slices)

func segE(t *Term) *Term { return mk("seg:e", "", nil, t) }
func segS(t *Term) *Term { return mk("seg:s", "", nil, t) }

// List builds a list from segments: single elements, other lists and the
// results of loops.
func List(typ types.Type, segs ...*Term) *Term {
	var out []*Term
	for _, s := range segs {
		if s.Op == "seg:s" {
			x := s.Args[0]
			if x.Op == "nil" {
				continue
			}
			if x.Op == "list" {
				out = append(out, x.Args...)
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 1 && out[0].Op == "seg:s" {
		return out[0].Args[0]
	}
	return mk("list", "", typ, out...)
}

// Len is the length of a slice, string or list.
func Len(t *Term) *Term {
	switch t.Op {
	case "nil":
		return Int(0)
	case "const":
		if s, ok := t.StrVal(); ok {
			return Int(int64(len(s)))
		}
	case "sref":
		return Sub(t.Args[2], t.Args[1])
	case "slice":
		return Sub(t.Args[2], t.Args[1])
	case "zarr":
		return t.Args[0]
	case "array":
		return Int(int64(len(t.Args)))
	case "upd":
		return Len(t.Args[0])
	case "elem":
		if isFindIndex(t.Args[0]) {
			return Int(2)
		}
	case "list":
		n := Int(0)
		for _, s := range t.Args {
			switch s.Op {
			case "seg:e":
				n = Add(n, Int(1))
			case "seg:s":
				n = Add(n, Len(s.Args[0]))
			default:
				n = Add(n, mk("len", "", types.Typ[types.Int], s))
			}
		}
		return n
	case "concat":
		n := Int(0)
		for _, s := range t.Args {
			n = Add(n, Len(s))
		}
		return n
	case "app":
		if t.Aux == "tobytes" || t.Aux == "tostring" {
			return Len(t.Args[0])
		}
		if t.Aux == "asciichar" {
			return Int(1)
		}
		if t.Aux == "utf8char" {
			return t.Args[1]
		}
	}
	return mk("len", "", types.Typ[types.Int], t)
}

// Concat joins strings.
func Concat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.Op == "concat" {
			for _, a := range p.Args {
				add(a)
			}
			return
		}
		if s, ok := p.StrVal(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if l, ok := out[n-1].StrVal(); ok {
					out[n-1] = Str(l + s)
					return
				}
			}
			out = append(out, Str(s))
			return
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return mk("concat", "", types.Typ[types.String], out...)
}

// ToString and ToBytes convert between byte slices and strings.
func ToString(t *Term) *Term {
	if t.Op == "app" && t.Aux == "tobytes" {
		return t.Args[0]
	}
	if t.Op == "nil" {
		return Str("")
	}
	return App("tostring", types.Typ[types.String], t)
}

func ToBytes(t *Term) *Term {
	if t.Op == "app" && t.Aux == "tostring" {
		return t.Args[0]
	}
	return App("tobytes", types.NewSlice(types.Typ[types.Byte]), t)
}

// Ext is result i of a call with several results.
func Ext(t *Term, i int, typ types.Type) *Term {
	if t.Op == "tuple" {
		return t.Args[i]
	}
	return mk("ext", strconv.Itoa(i), typ, t)
}

// Deref is the content of a symbolic pointer.
func Deref(p *Term) *Term { return mk("deref", "", ptrElem(p.Typ), p) }

// EmptyList is a list without elements.
var EmptyList = mk("list", "", nil)

// Item is an element of a list at a constant index.
func Item(list *Term, i int64, typ types.Type) *Term { return mk("elem", "", typ, list, Int(i)) }

// ASCIIChar is a text of one unknown character that is ASCII, RuneChar one of
// any character.
func ASCIIChar(r *Term) *Term { return App("asciichar", types.Typ[types.String], r) }

// UTF8Char is a text of one unknown character that takes n bytes.
func UTF8Char(r *Term, n int64) *Term {
	return App("utf8char", types.Typ[types.String], r, Int(n))
}

// RuneChar is the text of one unknown character.
func RuneChar(r *Term) *Term { return App("runechar", types.Typ[types.String], r) }

// chars splits a text into characters: their values, which are constants or
// unknown, and their texts.
func chars(t *Term) (runes, texts []*Term, ok bool) {
	parts := []*Term{t}
	if t.Op == "concat" {
		parts = t.Args
	}
	for _, p := range parts {
		if s, ok := p.StrVal(); ok {
			for _, r := range s {
				runes = append(runes, Const(constant.MakeInt64(int64(r)), types.Typ[types.Rune]))
				texts = append(texts, Str(string(r)))
			}
			continue
		}
		if p.Op != "app" || p.Aux != "asciichar" && p.Aux != "utf8char" && p.Aux != "runechar" {
			return nil, nil, false
		}
		runes = append(runes, p.Args[0])
		texts = append(texts, p)
	}
	return runes, texts, true
}

// Linear splits a sum into its terms, their factors and a constant.
func (t *Term) Linear() ([]*Term, []int64, int64, bool) {
	if t.Op != "lin" {
		return nil, nil, 0, false
	}
	cs, k := t.lin()
	var ts []*Term
	var ks []int64
	for _, c := range cs {
		ts = append(ts, c.t)
		ks = append(ks, c.c)
	}
	return ts, ks, k, true
}

// ItemAt is the element of a list at an index.
func ItemAt(list, i *Term, typ types.Type) *Term { return mk("elem", "", typ, list, i) }

// Rec is the result of a function of the program that is not entered.
func Rec(fn *ssa.Function, args []*Term) *Term { return recTerm(fn, fn.Signature, args) }

// RootOf returns the object an address belongs to.
func RootOf(addr *Term) *Term { return root(addr) }

// Sorted is a symmetric operation applied to x and y.
func Sorted(name string, typ types.Type, x, y *Term) *Term {
	if x.id > y.id {
		x, y = y, x
	}
	return App(name, typ, x, y)
}
