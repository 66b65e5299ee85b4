// Package ai is an abstract interpreter for Go's SSA form.
//
// It computes, to a fixpoint, a finite set of abstract states per program point. A state maps
// the live values to hash-consed terms and keeps the boolean facts learned at branches. States
// are renamed to a canonical form and widened at loop heads, so that the set is finite. Nothing
// is executed and no solver is called: a branch whose condition does not follow from the facts
// of the state goes both ways.
package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Kind is the kind of a term.
type Kind uint8

// The kinds of terms.
const (
	KConst Kind = iota
	KNil
	KSym // an unknown value
	KObj // an allocated object (a pointer, map or channel)
	KApp // an operator applied to terms
	KFunc
)

// Class restricts the strings that an unknown stands for.
type Class struct {
	Name  string
	Char  bool // exactly one character
	Space bool // (Char) a space that is none of the constants
	Any   bool // (Char) it is not known whether it is a space
	// Eq tells whether the unknown may be equal to a constant.
	MayEq func(s string) bool
	// Prefix and Suffix decide HasPrefix and HasSuffix with a constant; 0 is unknown, 1 true, -1 false.
	Prefix, Suffix func(s string) int
	MinLen         int
	// Opaque unknowns are not replaced by a constant that they are found to be equal to.
	Opaque bool
}

// T is a term. Terms are interned: equal terms are identical.
type T struct {
	K    Kind
	Op   string
	C    constant.Value
	Typ  types.Type
	Args []*T
	Num  int
	Cls  *Class
	Fn   *ssa.Function
	id   int
	tr   bool // contains transient symbols or objects
	size int
}

var (
	pool   = map[string]*T{}
	nterms int
	tids   = map[types.Type]string{}
)

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	s, ok := tids[t]
	if !ok {
		s = types.TypeString(t, nil)
		tids[t] = s
	}
	return s
}

func intern(t *T) *T {
	var sb strings.Builder
	sb.WriteByte('a' + byte(t.K))
	sb.WriteString(t.Op)
	switch t.K {
	case KConst:
		sb.WriteByte('|')
		sb.WriteString(t.C.ExactString())
		sb.WriteByte('0' + byte(t.C.Kind()))
	case KSym, KObj:
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(t.Num))
		if t.Cls != nil {
			sb.WriteString(t.Cls.Name)
		}
		sb.WriteByte('|')
		sb.WriteString(typeKey(t.Typ))
	case KFunc:
		sb.WriteByte('|')
		sb.WriteString(fmt.Sprintf("%p", t.Fn))
	}
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if x, ok := pool[k]; ok {
		return x
	}
	nterms++
	t.id = nterms
	t.size = 1
	t.tr = (t.K == KSym || t.K == KObj) && t.Num >= 0
	for _, a := range t.Args {
		t.size += a.size
		if a.tr {
			t.tr = true
		}
	}
	pool[k] = t
	return t
}

// Nil is the nil value of every type.
var Nil = intern(&T{K: KNil})

// Const returns a constant.
func Const(c constant.Value, t types.Type) *T {
	switch c.Kind() {
	case constant.Float:
		if i := constant.ToInt(c); i.Kind() == constant.Int {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				c = i
			}
		}
	}
	return intern(&T{K: KConst, C: c, Typ: t})
}

// Str, Int and Bool return constants.
func Str(s string) *T {
	return intern(&T{K: KConst, C: constant.MakeString(s), Typ: types.Typ[types.String]})
}

// Int returns an integer constant.
func Int(i int64) *T {
	return intern(&T{K: KConst, C: constant.MakeInt64(i), Typ: types.Typ[types.Int]})
}

// Bool returns a boolean constant.
func Bool(b bool) *T {
	return intern(&T{K: KConst, C: constant.MakeBool(b), Typ: types.Typ[types.Bool]})
}

// True and False are the boolean constants.
var (
	True  = Bool(true)
	False = Bool(false)
)

// Named returns a permanent symbol: an input of the analysis.
func Named(name string, t types.Type) *T { return intern(&T{K: KSym, Op: name, Typ: t, Num: -1}) }

// NamedCls returns a permanent symbol with a class.
func NamedCls(name string, t types.Type, c *Class) *T {
	return intern(&T{K: KSym, Op: name, Typ: t, Num: -1, Cls: c})
}

// IsStr returns the value of a string constant.
func (t *T) IsStr() (string, bool) {
	if t.K == KConst && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

// IsInt returns the value of an integer constant.
func (t *T) IsInt() (int64, bool) {
	if t.K == KConst && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}

// IsBool returns the value of a boolean constant.
func (t *T) IsBool() (bool, bool) {
	if t.K == KConst && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

// Is tells whether t is an application of op.
func (t *T) Is(op string) bool { return t.K == KApp && t.Op == op }

func (t *T) String() string {
	switch t.K {
	case KConst:
		return t.C.ExactString()
	case KNil:
		return "nil"
	case KSym:
		n := t.Op
		if t.Num >= 0 {
			n += "$" + strconv.Itoa(t.Num)
		}
		if t.Cls != nil {
			n += ":" + t.Cls.Name
		}
		return n
	case KObj:
		return "&" + t.Op + "$" + strconv.Itoa(t.Num)
	case KFunc:
		s := "func:" + t.Fn.Name()
		if len(t.Args) > 0 {
			s += fmt.Sprint(t.Args)
		}
		return s
	}
	var a []string
	for _, x := range t.Args {
		a = append(a, x.String())
	}
	return t.Op + "(" + strings.Join(a, ",") + ")"
}

// raw builds an application without simplification.
func raw(op string, typ types.Type, args ...*T) *T {
	return intern(&T{K: KApp, Op: op, Typ: typ, Args: append([]*T{}, args...)})
}

// Raw builds an application that no rule simplifies.
func Raw(op string, typ types.Type, args ...*T) *T { return App(op, typ, args...) }

// App builds an application and simplifies it.
func App(op string, typ types.Type, args ...*T) *T {
	if s := simplify(op, typ, args); s != nil {
		return s
	}
	return raw(op, typ, args...)
}

// Fn returns a function value.
func FnVal(fn *ssa.Function, binds ...*T) *T {
	return intern(&T{K: KFunc, Fn: fn, Typ: fn.Signature, Args: binds})
}

var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var strT = types.Typ[types.String]

// Eq, Not, Le build conditions.
func Eq(a, b *T) *T { return App("eq", boolT, a, b) }

// Not negates a condition.
func Not(a *T) *T { return App("not", boolT, a) }

// Lt is a < b.
func Lt(a, b *T) *T { return App("le", boolT, Add(a, 1), b) }

// Le is a <= b.
func Le(a, b *T) *T { return App("le", boolT, a, b) }

// Len is the length of a string, slice or map.
func Len(a *T) *T { return App("len", intT, a) }

// Add adds a constant.
func Add(a *T, c int64) *T { return App("+", a.Typ, a, Int(c)) }

// Cat concatenates strings.
func Cat(a ...*T) *T { return App("cat", strT, a...) }

// List builds a slice from parts: "el" applications are elements, everything else is a slice.
func List(t types.Type, parts ...*T) *T { return App("list", t, parts...) }

// El is an element of a list.
func El(x *T) *T { return raw("el", nil, x) }

// Tuple groups values.
func Tuple(a ...*T) *T { return raw("tuple", nil, a...) }

// Lin splits an integer term into an atom and an offset; atom is nil for a constant.
func Lin(t *T) (*T, int64) {
	if i, ok := t.IsInt(); ok {
		return nil, i
	}
	if t.Is("+") && len(t.Args) == 2 {
		if i, ok := t.Args[1].IsInt(); ok {
			a, j := Lin(t.Args[0])
			return a, i + j
		}
	}
	return t, 0
}

func parts(t *T) []*T {
	if t.Is("cat") {
		return t.Args
	}
	return []*T{t}
}

func listParts(t *T) []*T {
	if t.Is("list") {
		return t.Args
	}
	return []*T{t}
}

func maxLenUnknown(t *T) bool { return true }

func simplify(op string, typ types.Type, a []*T) *T {
	switch op {
	case "eq":
		return simpEq(a[0], a[1])
	case "not":
		if b, ok := a[0].IsBool(); ok {
			return Bool(!b)
		}
		if a[0].Is("not") {
			return a[0].Args[0]
		}
	case "le":
		x, i := Lin(a[0])
		y, j := Lin(a[1])
		if x == y {
			return Bool(i <= j)
		}
		// lengths are not negative
		if x == nil && y != nil && y.Is("len") && i <= j {
			return True
		}
		if y == nil && x != nil && x.Is("len") && j-i < 0 {
			return False
		}
		// normal form: x <= y + c
		var l, r *T
		if x == nil {
			l, r = Int(i-j), y
		} else if y == nil {
			l, r = x, Int(j-i)
		} else {
			l, r = x, App("+", intT, y, Int(j-i))
		}
		if l == a[0] && r == a[1] {
			return nil
		}
		return raw("le", boolT, l, r)
	case "+":
		if isStringish(a[0]) || isStringish(a[1]) {
			return App("cat", strT, a...)
		}
		x, i := Lin(a[0])
		y, j := Lin(a[1])
		if x == nil && y == nil {
			return intern(&T{K: KConst, C: constant.MakeInt64(i + j), Typ: a[0].Typ})
		}
		if x == nil {
			x, y = y, x
		}
		if y == nil {
			if i+j == 0 {
				return x
			}
			if x == a[0] && j != 0 && i == 0 {
				return nil
			}
			return raw("+", x.Typ, x, Int(i+j))
		}
	case "-":
		if y, ok := a[1].IsInt(); ok {
			return App("+", a[0].Typ, a[0], Int(-y))
		}
		if a[0] == a[1] {
			return Int(0)
		}
		x, i := Lin(a[0])
		y, j := Lin(a[1])
		if x == y {
			return Int(i - j)
		}
	case "*":
		x, ok1 := a[0].IsInt()
		y, ok2 := a[1].IsInt()
		if ok1 && ok2 {
			return Int(x * y)
		}
		if ok1 && x == 1 {
			return a[1]
		}
		if ok2 && y == 1 {
			return a[0]
		}
		if ok1 && x == 0 || ok2 && y == 0 {
			return Int(0)
		}
		if a[0].id > a[1].id && a[0].tr == a[1].tr {
			return raw("*", typ, a[1], a[0])
		}
	case "&", "|", ">>", "<<", "&^", "^", "/", "%":
		x, ok1 := a[0].IsInt()
		y, ok2 := a[1].IsInt()
		if ok1 && ok2 {
			switch op {
			case "&":
				return Int(x & y)
			case "|":
				return Int(x | y)
			case "^":
				return Int(x ^ y)
			case "&^":
				return Int(x &^ y)
			case ">>":
				return Int(x >> uint(y))
			case "<<":
				return Int(x << uint(y))
			case "/":
				if y != 0 {
					return Int(x / y)
				}
			case "%":
				if y != 0 {
					return Int(x % y)
				}
			}
		}
		if op == "&" {
			if ok1 {
				a[0], a[1], ok1, ok2, x, y = a[1], a[0], ok2, ok1, y, x
			}
			if ok2 && y == 0 {
				return Int(0)
			}
			if ok2 && a[0].Is(">>") {
				if sh, ok := a[0].Args[1].IsInt(); ok && sh < 63 && y<<uint(sh)>>uint(sh) == y {
					return App(">>", typ, App("&", typ, a[0].Args[0], Int(y<<uint(sh))), Int(sh))
				}
			}
			if a[0] == a[1] {
				return a[0]
			}
			if a[0].K != KConst && a[1].K != KConst && a[0].String() > a[1].String() {
				a[0], a[1] = a[1], a[0]
			}
			return raw("&", typ, a[0], a[1])
		}
		if op == ">>" && ok2 && y == 0 {
			return a[0]
		}
	case "len":
		x := a[0]
		if s, ok := x.IsStr(); ok {
			return Int(int64(len(s)))
		}
		if x.K == KNil {
			return Int(0)
		}
		if x.Is("cat") || x.Is("list") {
			var n int64
			var rest []*T
			for _, p := range x.Args {
				if s, ok := p.IsStr(); ok {
					n += int64(len(s))
				} else if p.Is("el") {
					n++
				} else {
					rest = append(rest, p)
				}
			}
			if len(rest) == 0 {
				return Int(n)
			}
			if len(rest) == 1 {
				return Add(Len(rest[0]), n)
			}
		}
		if x.Is("upd") {
			return Len(x.Args[0])
		}
		if x.Is("make") {
			return x.Args[0]
		}
		if x.Is("bytes") || x.Is("string") {
			return Len(x.Args[0])
		}
		if x.Is("subslice") {
			if lo, ok := x.Args[1].IsInt(); ok {
				if x.Args[2].K != KNil {
					return Add(x.Args[2], -lo)
				}
				return Add(Len(x.Args[0]), -lo)
			}
		}
		if x.Is("substr") {
			// s[lo:hi]
			lo, ok1 := x.Args[1].IsInt()
			if x.Args[2].K != KNil {
				if ok1 {
					return Add(x.Args[2], -lo)
				}
			} else if ok1 {
				return Add(Len(x.Args[0]), -lo)
			}
		}
	case "cat":
		var out []*T
		for _, p := range a {
			for _, q := range parts(p) {
				s, ok := q.IsStr()
				if ok && s == "" {
					continue
				}
				if ok && len(out) > 0 {
					if s0, ok0 := out[len(out)-1].IsStr(); ok0 {
						out[len(out)-1] = Str(s0 + s)
						continue
					}
				}
				out = append(out, q)
			}
		}
		switch len(out) {
		case 0:
			return Str("")
		case 1:
			return out[0]
		}
		return raw("cat", strT, out...)
	case "list":
		var out []*T
		for _, p := range a {
			if p.K == KNil {
				continue
			}
			out = append(out, listParts(p)...)
		}
		if len(out) == 1 && !out[0].Is("el") {
			return out[0]
		}
		return intern(&T{K: KApp, Op: "list", Typ: typ, Args: out})
	case "index":
		return simpIndex(a[0], a[1], typ)
	case "fieldof":
		i, _ := a[1].IsInt()
		if a[0].Is("struct") {
			return a[0].Args[i]
		}
	case "extract":
		if a[0].Is("tuple") {
			i, _ := a[1].IsInt()
			return a[0].Args[i]
		}
	case "iface:":
	case "hasprefix", "hassuffix", "contains":
		return simpAffix(op, a[0], a[1])
	case "substr":
		s, ok := a[0].IsStr()
		if ok {
			lo, ok1 := a[1].IsInt()
			if !ok1 {
				return nil
			}
			hi := int64(len(s))
			if a[2].K != KNil {
				var ok2 bool
				if hi, ok2 = a[2].IsInt(); !ok2 {
					return nil
				}
			}
			if 0 <= lo && lo <= hi && hi <= int64(len(s)) {
				return Str(s[lo:hi])
			}
			return nil
		}
		lo, ok1 := a[1].IsInt()
		if ok1 && lo == 0 && (a[2].K == KNil || a[2] == Len(a[0])) {
			return a[0]
		}
		if a[2].K != KNil && a[2] == Len(a[0]) {
			return App("substr", typ, a[0], a[1], Nil)
		}
		if a[0].Is("cat") && a[2].K == KNil && ok1 {
			if c, ok := a[0].Args[0].IsStr(); ok && int64(len(c)) >= lo {
				return App("cat", strT, append([]*T{Str(c[lo:])}, a[0].Args[1:]...)...)
			}
		}
		// s[:len(s)-k] of a cat that ends with a constant
		if a[0].Is("cat") && ok1 && a[2].K != KNil {
			l, off := Lin(Len(a[0]))
			h, hoff := Lin(a[2])
			if l == h && l != nil {
				k := off - hoff
				last := a[0].Args[len(a[0].Args)-1]
				if c, ok := last.IsStr(); ok && k >= 0 && int64(len(c)) >= k {
					np := append(append([]*T{}, a[0].Args[:len(a[0].Args)-1]...), Str(c[:int64(len(c))-k]))
					return App("substr", typ, App("cat", strT, np...), a[1], Nil)
				}
			}
		}
		if a[0].Is("substr") && a[2].K == KNil && a[0].Args[2].K == KNil && ok1 {
			if lo0, ok := a[0].Args[1].IsInt(); ok {
				return App("substr", typ, a[0].Args[0], Int(lo+lo0), Nil)
			}
		}
	case "subslice":
		lo, ok1 := a[1].IsInt()
		x := a[0]
		if ok1 && lo == 0 && (a[2].K == KNil || a[2] == Len(x)) {
			return x
		}
		if a[2].K != KNil && a[2] == Len(x) {
			return App("subslice", typ, x, a[1], Nil)
		}
		if x.Is("list") && ok1 {
			if hi, ok := a[2].IsInt(); ok || a[2].K == KNil {
				n := 0
				for n < len(x.Args) && x.Args[n].Is("el") {
					n++
				}
				if a[2].K == KNil && lo <= int64(n) {
					return List(typ, x.Args[lo:]...)
				}
				if ok && lo <= hi && hi <= int64(n) {
					return List(typ, x.Args[lo:hi]...)
				}
			}
		}
		if x.Is("subslice") && a[2].K == KNil && x.Args[2].K == KNil && ok1 {
			if lo0, ok := x.Args[1].IsInt(); ok {
				return App("subslice", typ, x.Args[0], Int(lo+lo0), Nil)
			}
		}
	case "byteat":
		if s, ok := a[0].IsStr(); ok {
			if i, ok := a[1].IsInt(); ok && i >= 0 && i < int64(len(s)) {
				return Int(int64(s[i]))
			}
		}
	case "isspace":
		if r, ok := a[0].IsInt(); ok {
			return Bool(unicode.IsSpace(rune(r)))
		}
		if a[0].Cls != nil && a[0].Cls.Char && !a[0].Cls.Any {
			return Bool(a[0].Cls.Space)
		}
	case "blank":
		if s, ok := a[0].IsStr(); ok {
			return Bool(strings.TrimSpace(s) == "")
		}
		if c := a[0].Cls; c != nil && c.Char && !c.Any {
			return Bool(c.Space)
		}
		if a[0].Is("cat") {
			all := true
			for _, q := range a[0].Args {
				switch App("blank", boolT, q) {
				case False:
					return False
				case True:
				default:
					all = false
				}
			}
			if all {
				return True
			}
		}
	case "trimspace", "trimleft", "trimright":
		if s, ok := a[0].IsStr(); ok {
			switch op {
			case "trimspace":
				return Str(strings.TrimSpace(s))
			case "trimleft":
				return Str(strings.TrimLeftFunc(s, unicode.IsSpace))
			default:
				return Str(strings.TrimRightFunc(s, unicode.IsSpace))
			}
		}
		if c := a[0].Cls; c != nil && c.Char && !c.Any {
			if c.Space {
				return Str("")
			}
			return a[0]
		}
		if a[0].Is(op) || a[0].Is("trimspace") {
			return a[0]
		}
		if op == "trimspace" && (a[0].Is("trimleft") || a[0].Is("trimright")) {
			return App("trimspace", strT, a[0].Args[0])
		}
		if op == "trimleft" && a[0].Is("trimright") || op == "trimright" && a[0].Is("trimleft") {
			return App("trimspace", strT, a[0].Args[0])
		}
	case "lower":
		if s, ok := a[0].IsStr(); ok {
			return Str(strings.ToLower(s))
		}
	case "repeat":
		if n, ok := a[1].IsInt(); ok && n == 0 {
			return Str("")
		}
	case "replaceall":
		s, ok0 := a[0].IsStr()
		o, ok1 := a[1].IsStr()
		n, ok2 := a[2].IsStr()
		if ok0 && ok1 && ok2 {
			return Str(strings.ReplaceAll(s, o, n))
		}
		// nothing is replaced at a constant start or end that no occurrence can begin or end with
		if ok1 && o != "" && a[0].Is("cat") {
			ps := a[0].Args
			c, isC := ps[0].IsStr()
			if isC && !strings.Contains(c, o[:1]) {
				return Cat(ps[0], App("replaceall", typ, Cat(ps[1:]...), a[1], a[2]))
			}
			l := len(ps) - 1
			c, isC = ps[l].IsStr()
			if isC && !strings.Contains(c, o[len(o)-1:]) {
				return Cat(App("replaceall", typ, Cat(ps[:l]...), a[1], a[2]), ps[l])
			}
		}
	case "quote":
		if s, ok := a[0].IsStr(); ok {
			return Str(strconv.Quote(s))
		}
		return Cat(Str("\""), raw("inquote", typ, a[0]), Str("\""))
	case "join":
		if a[0].Is("list") {
			var ps []*T
			for i, e := range a[0].Args {
				if !e.Is("el") {
					return nil
				}
				if i > 0 {
					ps = append(ps, a[1])
				}
				ps = append(ps, e.Args[0])
			}
			return Cat(ps...)
		}
		if a[0].K == KNil {
			return Str("")
		}
	case "string", "bytes":
		// conversions between strings and byte slices
		if a[0].Is("bytes") && op == "string" || a[0].Is("string") && op == "bytes" {
			return a[0].Args[0]
		}
	case "runestr":
		if r, ok := a[0].IsInt(); ok {
			return Str(string(rune(r)))
		}
		if c := a[0].Cls; c != nil && c.Char {
			return a[0]
		}
	case "mget", "mhas":
		return simpMap(op, typ, a[0], a[1])
	case "deref":
	}
	return nil
}

func isStringish(t *T) bool {
	if _, ok := t.IsStr(); ok {
		return true
	}
	if t.Is("cat") {
		return true
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsString != 0
		}
	}
	return false
}

func distinct(a, b *T) bool {
	// allocated objects are pairwise distinct and differ from nil and from inputs
	ra, rb := root(a), root(b)
	if ra.K == KObj && rb.K == KObj && ra != rb {
		return true
	}
	if a.K == KObj && b.K == KObj && a != b {
		return true
	}
	return false
}

func root(t *T) *T {
	for t.Is("field") || t.Is("elem") {
		t = t.Args[0]
	}
	return t
}

func nonNil(t *T) bool {
	switch t.K {
	case KObj, KFunc, KConst:
		return true
	case KApp:
		switch {
		case strings.HasPrefix(t.Op, "iface:"):
			return true
		case t.Op == "field", t.Op == "elem", t.Op == "list", t.Op == "errnew", t.Op == "struct", t.Op == "make", t.Op == "nn":
			return true
		case t.Op == "upd":
			return true
		}
	case KSym:
		return strings.HasPrefix(t.Op, "!")
	}
	return false
}

// bitsEq brings comparisons of masked bits into a normal form: conditions on single bits.
func bitsEq(a *T, c int64) *T {
	x, y := a.Args[0], a.Args[1]
	if x.K == KConst {
		x, y = y, x
	}
	bit := func(x, k *T) *T { return App("bit", boolT, x, k) }
	if m, ok := y.IsInt(); ok && m > 0 {
		if m == 1 && x.Is(">>") {
			switch c {
			case 0:
				return App("not", boolT, bit(x.Args[0], x.Args[1]))
			case 1:
				return bit(x.Args[0], x.Args[1])
			}
			return nil
		}
		if m&(m-1) == 0 {
			k := Int(int64(bits.TrailingZeros64(uint64(m))))
			switch c {
			case 0:
				return App("not", boolT, bit(x, k))
			case m:
				return bit(x, k)
			}
			return nil
		}
		if c == 0 || c == m {
			var cs []*T
			for k := 0; k < 63; k++ {
				if m>>k&1 == 1 {
					b := bit(x, Int(int64(k)))
					if c == 0 {
						b = App("not", boolT, b)
					}
					cs = append(cs, b)
				}
			}
			return And(cs...)
		}
		return nil
	}
	for i := 0; i < 2; i++ {
		if one, ok := y.Args2(0).IsInt(); y.Is("<<") && ok && one == 1 && c == 0 {
			return App("not", boolT, bit(x, y.Args[1]))
		}
		x, y = y, x
	}
	return nil
}

// Args2 is an argument of a term, or nil if it has none.
func (t *T) Args2(i int) *T {
	if t != nil && i < len(t.Args) {
		return t.Args[i]
	}
	return Nil
}

func simpEq(a, b *T) *T {
	if a == b {
		return True
	}
	if b.Is("&") {
		a, b = b, a
	}
	if c, ok := b.IsInt(); ok && (c == 0 || c == 1) && a.Is(">>") && a.Args[0].Is("&") {
		k, ok1 := a.Args[1].IsInt()
		m, ok2 := a.Args[0].Args[1].IsInt()
		if ok1 && ok2 && k >= 0 && k < 62 && m > 0 && m>>k<<k == m {
			a, b = a.Args[0], Int(c<<k)
		}
	}
	if c, ok := b.IsInt(); ok && a.Is("&") {
		if r := bitsEq(a, c); r != nil {
			return r
		}
	}
	if a.K == KConst && b.K == KConst {
		return Bool(a.C.Kind() == b.C.Kind() && constant.Compare(a.C, token.EQL, b.C))
	}
	if a.K == KConst || a.K == KNil {
		a, b = b, a
	}
	if b.K == KNil {
		if nonNil(a) {
			return False
		}
		if a.Is("subslice") || a.Is("list") {
			return False
		}
	}
	if bb, ok := b.IsBool(); ok {
		if bb {
			return a
		}
		return App("not", boolT, a)
	}
	if s, ok := b.IsStr(); ok {
		if a.Cls != nil {
			if a.Cls.Char {
				if r := []rune(s); len(r) != 1 {
					return False
				}
			}
			if a.Cls.MinLen > len(s) {
				return False
			}
			if a.Cls.MayEq != nil && !a.Cls.MayEq(s) {
				return False
			}
		}
		if a.Is("cat") {
			return simpCatEq(a, s)
		}
		if (a.Is("trimspace") || a.Is("trimright") || a.Is("trimleft")) && s == "" {
			return App("blank", boolT, a.Args[0])
		}
		if a.Is("lower") && s != strings.ToLower(s) {
			return False
		}
	}
	if i, ok := b.IsInt(); ok {
		if a.Is("len") {
			if i < 0 {
				return False
			}
			if i == 0 && isStringish(a.Args[0]) {
				return simpOr(Eq(a.Args[0], Str("")))
			}
		}
		if a.Cls != nil && a.Cls.Char && a.Cls.MayEq != nil && !a.Cls.MayEq(string(rune(i))) {
			return False
		}
		if x, off := Lin(a); x != a && x != nil {
			return simpOr(Eq(x, Int(i-off)))
		}
		if a.Is(">>") {
			if sh, ok := a.Args[1].IsInt(); ok && i == 0 && a.Args[0].Is("&") {
				if m, ok := a.Args[0].Args[1].IsInt(); ok && m>>uint(sh)<<uint(sh) == m {
					return simpOr(Eq(a.Args[0], Int(0)))
				}
			}
		}
		if a.Is("&") {
			if m, ok := a.Args[1].IsInt(); ok {
				if i&^m != 0 {
					return False
				}
				if i == m && m&(m-1) == 0 && m != 0 {
					return Not(Eq(a, Int(0)))
				}
			}
		}
		if a.Is("byteat") && i > 0 && i < 128 {
			if k, ok := a.Args[1].IsInt(); ok && k == 0 {
				return App("hasprefix", boolT, a.Args[0], Str(string(rune(i))))
			}
			if a.Args[1] == Add(Len(a.Args[0]), -1) {
				return App("hassuffix", boolT, a.Args[0], Str(string(rune(i))))
			}
		}
	} else {
		x, i := Lin(a)
		y, j := Lin(b)
		if x == y && x != nil && i != j {
			return False
		}
	}
	if distinct(a, b) {
		return False
	}
	if strings.HasPrefix(a.Op, "iface:") && strings.HasPrefix(b.Op, "iface:") && a.K == KApp && b.K == KApp {
		if a.Op != b.Op {
			return False
		}
		return simpOr(Eq(a.Args[0], b.Args[0]))
	}
	if a.Is("cat") || b.Is("cat") {
		if e := simpCatEq2(a, b); e != nil {
			return e
		}
	}
	// order
	if b.K != KConst && b.K != KNil && a.id > b.id {
		a, b = b, a
	}
	return raw("eq", boolT, a, b)
}

func simpOr(t *T) *T { return t }

// simpCatEq compares a concatenation with a constant.
func simpCatEq(a *T, s string) *T {
	min := 0
	for _, p := range a.Args {
		min += minLen(p)
	}
	if min > len(s) {
		return False
	}
	if c, ok := a.Args[0].IsStr(); ok {
		if !strings.HasPrefix(s, c) {
			return False
		}
		return simpOr(Eq(Cat(a.Args[1:]...), Str(s[len(c):])))
	}
	if c, ok := a.Args[len(a.Args)-1].IsStr(); ok {
		if !strings.HasSuffix(s, c) {
			return False
		}
		return simpOr(Eq(Cat(a.Args[:len(a.Args)-1]...), Str(s[:len(s)-len(c)])))
	}
	if simpAffix("hassuffix", a, Str(s)) == False || simpAffix("hasprefix", a, Str(s)) == False {
		return False
	}
	return raw("eq", boolT, a, Str(s))
}

func simpCatEq2(a, b *T) *T {
	pa, pb := parts(a), parts(b)
	if pa[len(pa)-1] == pb[len(pb)-1] && pa[len(pa)-1].K != KConst {
		return Eq(Cat(pa[:len(pa)-1]...), Cat(pb[:len(pb)-1]...))
	}
	if pa[0] == pb[0] && pa[0].K != KConst {
		return Eq(Cat(pa[1:]...), Cat(pb[1:]...))
	}
	return nil
}

func minLen(t *T) int {
	if s, ok := t.IsStr(); ok {
		return len(s)
	}
	if t.Cls != nil {
		if t.Cls.Char {
			return 1
		}
		return t.Cls.MinLen
	}
	if t.Is("cat") {
		n := 0
		for _, p := range t.Args {
			n += minLen(p)
		}
		return n
	}
	if t.Is("replaceall") { // something remains of something unless it is replaced by nothing
		if n := minLen(t.Args[0]); n > 0 && minLen(t.Args[2]) > 0 {
			o, ok1 := t.Args[1].IsStr()
			b, ok2 := t.Args[2].IsStr()
			if ok1 && ok2 && len(b) >= len(o) {
				return n
			}
			return 1
		}
	}
	return 0
}

func simpAffix(op string, x, c *T) *T {
	s, ok := c.IsStr()
	if !ok {
		if x == c {
			return True
		}
		return nil
	}
	if s == "" {
		return True
	}
	if y, ok := x.IsStr(); ok {
		switch op {
		case "hasprefix":
			return Bool(strings.HasPrefix(y, s))
		case "hassuffix":
			return Bool(strings.HasSuffix(y, s))
		default:
			return Bool(strings.Contains(y, s))
		}
	}
	if op == "contains" {
		return nil
	}
	// what is trimmed on the other side does not matter
	if r := []rune(s); op == "hassuffix" && x.Is("trimleft") && len(x.Args) == 1 && !unicode.IsSpace(r[0]) ||
		op == "hasprefix" && x.Is("trimright") && len(x.Args) == 1 && !unicode.IsSpace(r[len(r)-1]) {
		return App(op, boolT, x.Args[0], c)
	}
	if x.Cls != nil {
		if x.Cls.Char {
			if len([]rune(s)) > 1 {
				return False
			}
			if x.Cls.MayEq != nil && !x.Cls.MayEq(s) {
				return False
			}
			return raw("eq", boolT, x, c)
		}
		f := x.Cls.Prefix
		if op == "hassuffix" {
			f = x.Cls.Suffix
		}
		if f != nil {
			switch f(s) {
			case 1:
				return True
			case -1:
				return False
			}
		}
	}
	if x.Is("cat") {
		ps := x.Args
		p := ps[0]
		if op == "hassuffix" {
			p = ps[len(ps)-1]
		}
		if y, ok := p.IsStr(); ok {
			if op == "hasprefix" {
				if strings.HasPrefix(y, s) {
					return True
				}
				if !strings.HasPrefix(s, y) {
					return False
				}
				return App(op, boolT, Cat(ps[1:]...), Str(s[len(y):]))
			}
			if strings.HasSuffix(y, s) {
				return True
			}
			if !strings.HasSuffix(s, y) {
				return False
			}
			return App(op, boolT, Cat(ps[:len(ps)-1]...), Str(s[:len(s)-len(y)]))
		}
		if p.Cls != nil && !p.Cls.Char {
			f := p.Cls.Prefix
			if op == "hassuffix" {
				f = p.Cls.Suffix
			}
			if f != nil {
				switch f(s) {
				case 1:
					return True
				case -1:
					return False
				}
			}
		}
		if p.Cls != nil && p.Cls.Char {
			r := []rune(s)
			if op == "hasprefix" {
				if p.Cls.MayEq != nil && !p.Cls.MayEq(string(r[0])) {
					return False
				}
			} else if p.Cls.MayEq != nil && !p.Cls.MayEq(string(r[len(r)-1])) {
				return False
			}
		}
	}
	return nil
}

// endElement is the part of the list x which is its element i, counted from the end, or -1.
func endElement(x, i *T) int {
	if !x.Is("list") {
		return -1
	}
	l, off := Lin(Len(x))
	a, o := Lin(i)
	if l == nil || l != a {
		return -1
	}
	n := int64(len(x.Args))
	k := off - o
	if k < 1 || k > n {
		return -1
	}
	for j := n - k; j < n; j++ {
		if !x.Args[j].Is("el") {
			return -1
		}
	}
	return int(n - k)
}

// setIndex is the slice x after its element i became v.
func setIndex(st *State, x, i, v *T) *T {
	j := endElement(x, i)
	if j < 0 && x.Is("list") && len(x.Args) <= 8 {
		for k := len(x.Args) - 1; k >= 0 && x.Args[k].Is("el"); k-- {
			if st.Eval(Eq(i, Add(Len(x), int64(k-len(x.Args))))) == 1 {
				j = k
				break
			}
		}
	}
	if j >= 0 {
		parts := append([]*T{}, x.Args...)
		parts[j] = El(v)
		return List(x.Typ, parts...)
	}
	return App("upd", x.Typ, x, i, v)
}

// copiedAll is what the new slice dst, made with room for one or two elements more than src has, holds once all of
// src was copied into it; nil if it is not such a slice.
func copiedAll(st *State, dst, src *T) *T {
	if !dst.Is("make") || dst.Typ == nil || isStringish(src) {
		return nil
	}
	sl, ok := dst.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	for c := int64(1); c <= 2; c++ {
		if st.Eval(Eq(dst.Args[0], Add(Len(src), c))) == 1 {
			parts := append([]*T{}, listParts(src)...)
			for ; c > 0; c-- {
				parts = append(parts, El(ZeroOf(sl.Elem())))
			}
			return List(dst.Typ, parts...)
		}
	}
	return nil
}

func simpIndex(x, i *T, typ types.Type) *T {
	if x.Is("upd") {
		e := Eq(x.Args[1], i)
		if e == True {
			return x.Args[2]
		}
		if e == False {
			return App("index", x.Args[2].Typ, x.Args[0], i)
		}
		return nil
	}
	if x.Is("subslice") {
		if lo, ok := x.Args[1].IsInt(); ok {
			return App("index", typ, x.Args[0], Add(i, lo))
		}
	}
	if !x.Is("list") {
		return nil
	}
	if c, ok := i.IsInt(); ok {
		if c >= 0 && c < int64(len(x.Args)) {
			for k := int64(0); k <= c; k++ {
				if !x.Args[k].Is("el") {
					return nil
				}
			}
			return x.Args[c].Args[0]
		}
		return nil
	}
	// an index from the end
	l, off := Lin(Len(x))
	a, o := Lin(i)
	if l != nil && l == a {
		k := off - o // distance from the end
		n := int64(len(x.Args))
		if k >= 1 && k <= n {
			for j := n - k; j < n; j++ {
				if !x.Args[j].Is("el") {
					return nil
				}
			}
			return x.Args[n-k].Args[0]
		}
	}
	return nil
}

func simpMap(op string, typ types.Type, m, k *T) *T {
	for {
		switch {
		case m.Is("mempty"), m.K == KNil:
			if op == "mhas" {
				return False
			}
			return ZeroOf(typ)
		case m.Is("mput"):
			e := Eq(m.Args[1], k)
			if e == True {
				if op == "mhas" {
					return True
				}
				return m.Args[2]
			}
			if e == False {
				m = m.Args[0]
				continue
			}
			return raw(op, typ, m, k)
		case m.Is("mdel"):
			e := Eq(m.Args[1], k)
			if e == True {
				if op == "mhas" {
					return False
				}
				return ZeroOf(typ)
			}
			if e == False {
				m = m.Args[0]
				continue
			}
			return raw(op, typ, m, k)
		}
		return raw(op, typ, m, k)
	}
}

// ZeroOf returns the zero value of a type.
func ZeroOf(t types.Type) *T {
	if t == nil {
		return Nil
	}
	if opaque(t) {
		return raw("zero:"+typeKey(t), t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsNumeric != 0:
			return Int(0)
		}
	case *types.Struct:
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ZeroOf(u.Field(i).Type()))
		}
		return intern(&T{K: KApp, Op: "struct", Typ: t, Args: fs})
	case *types.Array:
		return raw("zero:"+typeKey(t), t)
	case *types.Tuple:
		var fs []*T
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, ZeroOf(u.At(i).Type()))
		}
		return Tuple(fs...)
	}
	return Nil
}

// Opaque tells whether the fields of a struct type are not modelled.
func Opaque(t types.Type) bool { return opaque(t) }

// opaque types are struct types whose fields are not modelled.
func opaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "strings", "bytes", "bufio", "sync", "regexp", "text/template", "html/template", "time", "os", "reflect":
		_, isStruct := n.Underlying().(*types.Struct)
		return isStruct
	}
	return false
}

// subst rewrites terms; f returns nil to descend.
func subst(t *T, f func(*T) *T, memo map[*T]*T) *T {
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	if len(t.Args) == 0 {
		memo[t] = t
		return t
	}
	changed := false
	na := make([]*T, len(t.Args))
	for i, a := range t.Args {
		na[i] = subst(a, f, memo)
		if na[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		if t.K == KFunc {
			r = FnVal(t.Fn, na...)
		} else {
			r = App(t.Op, t.Typ, na...)
		}
	}
	memo[t] = r
	return r
}

// Contains tells whether x occurs in t.
func (t *T) Contains(x *T) bool {
	if t == x {
		return true
	}
	if t.size <= x.size {
		return false
	}
	for _, a := range t.Args {
		if a.Contains(x) {
			return true
		}
	}
	return false
}

// Walk visits the subterms of t; f returns false to stop descending.
func (t *T) Walk(f func(*T) bool) {
	if !f(t) {
		return
	}
	for _, a := range t.Args {
		a.Walk(f)
	}
}

func sortedKeys(m map[string]*T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
