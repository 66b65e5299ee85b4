package checks

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// jsonRef is what the JSON of each type has: the key, the field and what becomes of the key without a value
// ("" it is there, "empty" it is left out if it is empty, "nil" it is left out if it is nil).
var jsonRef = map[string][][3]string{
	"Payload":      {{"status", "Status"}, {"errors", "Errors"}, {"config", "Config"}},
	"PayloadError": {{"file", "File"}, {"line", "Line"}, {"error", "Error"}, {"callback", "Callback", "empty"}},
	"Config":       {{"file", "File"}, {"status", "Status"}, {"errors", "Errors"}, {"parsed", "Parsed"}},
	"ConfigError":  {{"line", "Line"}, {"error", "Error"}},
	"Directive": {{"directive", "Directive"}, {"line", "Line"}, {"args", "Args"}, {"file", "File", "empty"}, {"includes", "Includes", "empty"},
		{"block", "Block", "nil"}, {"comment", "Comment", "empty"}, {"mapBlockParameter", "IsMapBlockParameter", "empty"}},
}

// jsonField is a field as the package encoding/json sees it.
type jsonField struct {
	name   string
	path   []int
	field  *types.Var
	tagged bool
	opts   map[string]bool
}

// jsonFields follows the rules of encoding/json for the fields of a struct and of those that are embedded in it.
func jsonFields(t types.Type) []jsonField {
	var all []jsonField
	var visit func(t types.Type, path []int)
	visit = func(t types.Type, path []int) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || len(path) > 5 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			ps := strings.Split(tag, ",")
			to := append(append([]int{}, path...), i)
			under := f.Type()
			if q, ok := under.Underlying().(*types.Pointer); ok {
				under = q.Elem()
			}
			_, isStruct := under.Underlying().(*types.Struct)
			if f.Embedded() && !f.Exported() && !isStruct || !f.Embedded() && !f.Exported() {
				continue
			}
			if f.Embedded() && ps[0] == "" && isStruct {
				visit(under, to)
				continue
			}
			j := jsonField{name: ps[0], path: to, field: f, tagged: ps[0] != "", opts: map[string]bool{}}
			if j.name == "" {
				j.name = f.Name()
			}
			for _, o := range ps[1:] {
				j.opts[o] = true
			}
			all = append(all, j)
		}
	}
	visit(t, nil)
	var out []jsonField
	for i, j := range all {
		wins := true
		for k, o := range all {
			if k == i || o.name != j.name {
				continue
			}
			if len(o.path) < len(j.path) || len(o.path) == len(j.path) && (o.tagged || !j.tagged) {
				wins = false
			}
		}
		if wins {
			out = append(out, j)
		}
	}
	return out
}

// jsonMethods are the methods by which a type decides about its JSON itself.
func jsonMethods(p *load.Prog, t types.Type) map[string]*ssa.Function {
	m := map[string]*ssa.Function{}
	for _, t := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			switch n := ms.At(i).Obj().Name(); n {
			case "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText":
				if f := p.SSA.FuncValue(ms.At(i).Obj().(*types.Func)); f != nil {
					m[n] = f
				} else {
					m[n] = nil
				}
			}
		}
	}
	return m
}

type jsonExplorer struct {
	*prod
	fn     *ssa.Function
	typ    types.Type
	val    *ai.T
	types  map[string][]types.Type
	gaveUp map[string]bool
	same   func(st *ai.State, v *ai.T, ins ssa.Instruction)
}

var jsonAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"E02"}
	bad := func(key, pos, f string, a ...interface{}) {
		run.problems = append(run.problems, problem{"E02", key, pos, fmt.Sprintf(f, a...), nil})
	}
	cut := map[string]bool{}
	seen := map[string]bool{}
	for _, name := range sortedKeys(jsonRef) {
		t := rootType(p, name)
		if t == nil {
			run.anchor(props, "the type "+name+" was not found")
			return run
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			run.anchor(props, "the type "+name+" is no struct")
			return run
		}
		have := map[string]jsonField{}
		for _, j := range jsonFields(t) {
			have[j.name] = j
		}
		ms := jsonMethods(p, t)
		keep := ms["MarshalJSON"] != nil
		for _, r := range jsonRef[name] {
			key, fld, empty := r[0], r[1], r[2]
			run.events["keys"]++
			run.oblig++
			i := fieldIndex(t, fld)
			if i < 0 {
				run.anchor(props, "the field "+fld+" of "+name+" was not found")
				return run
			}
			at := p.Fset.Position(s.Field(i).Pos())
			where := fmt.Sprintf("%s:%d", at.Filename[strings.LastIndex(at.Filename, "/")+1:], at.Line)
			j, ok := have[key]
			switch {
			case !ok:
				bad(name+"."+key+":none", where, "the JSON of %s has no %q", name, key)
				continue
			case len(j.path) != 1 || j.path[0] != i:
				bad(name+"."+key+":field", where, "the key %q of %s stands for the field %s instead of %s", key, name, j.field.Name(), fld)
				continue
			}
			delete(have, key)
			if keep {
				// what the method makes of it is followed below
				continue
			}
			if why := jsonKept(nil, j, empty, nil, nil); why != "" {
				bad(name+"."+key+":opts", where, "the key %q of %s %s", key, name, why)
			}
		}
		for _, k := range sortedKeys(have) {
			if k != "" {
				bad(name+"."+k+":extra", "-", "the JSON of %s has the key %q, which is not known", name, k)
			}
		}
		for _, m := range sortedKeys(ms) {
			switch {
			case m == "MarshalJSON" && ms[m] != nil:
				x := &jsonExplorer{prod: newProd(p, run, "E02"), fn: ms[m], typ: t, gaveUp: cut}
				x.same = func(st *ai.State, v *ai.T, ins ssa.Instruction) { x.object(st, v, name, ins) }
				x.explore(nil)
				seen[name] = true
			default:
				cut["the method "+m+" of "+name] = true
			}
		}
	}
	// names that are given to the lists
	for _, name := range []string{"Directives"} {
		if t := rootType(p, name); t != nil {
			for _, m := range sortedKeys(jsonMethods(p, t)) {
				cut["the method "+m+" of "+name] = true
			}
		}
	}
	if t := rootType(p, "ParseError"); t == nil || jsonMethods(p, t)["MarshalJSON"] == nil {
		bad("ParseError:none", "-", "an error is not written as its text: ParseError has no MarshalJSON")
	} else if text := rootMethod(p, "ParseError", "Error"); text == nil {
		run.anchor(props, "the method Error of ParseError was not found")
	} else {
		x := &jsonExplorer{prod: newProd(p, run, "E02"), fn: jsonMethods(p, t)["MarshalJSON"], typ: t, gaveUp: cut}
		x.same = func(st *ai.State, v *ai.T, ins ssa.Instruction) { x.text(st, v, text, ins) }
		x.explore(text)
	}
	for _, k := range sortedKeys(cut) {
		run.cut = append(run.cut, k)
	}
	run.need(props, "keys", "errors written as text")
	return run
})

// jsonKept says what is wrong with how a key is left out.
func jsonKept(st *ai.State, j jsonField, want string, val *ai.T, ptr func() *ai.T) string {
	isNil, isEmpty := 0, 0
	if st != nil {
		isNil = st.Eval(ai.Eq(val, ai.Nil))
		isEmpty = st.Eval(ai.Eq(ai.Len(val), ai.Int(0)))
		if isNil == 1 {
			isEmpty = 1
		}
	}
	switch {
	case want == "" && (j.opts["omitempty"] || j.opts["omitzero"]):
		return "may be left out"
	case want == "empty" && j.opts["omitempty"]:
		return ""
	case want == "empty" && j.opts["omitzero"]:
		if _, ok := j.field.Type().Underlying().(*types.Slice); !ok {
			return ""
		}
		return "is there without elements"
	case want == "empty":
		return "is there without a value"
	case want == "nil" && j.opts["omitempty"] && !(isNil == 1 || isEmpty == -1):
		return "is left out if it is empty, so that a block directive without statements becomes a simple one"
	case want == "nil" && !j.opts["omitempty"] && !j.opts["omitzero"] && isNil != -1:
		return "is there without a value"
	}
	for _, o := range sortedKeys(j.opts) {
		if o != "omitempty" && o != "omitzero" {
			return "has the option " + o
		}
	}
	return ""
}

func (x *jsonExplorer) explore(text *ssa.Function) {
	x.types = map[string][]types.Type{}
	for _, f := range x.p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mi, ok := ins.(*ssa.MakeInterface); ok {
					k := ai.MakeIface(mi.X.Type(), ai.Nil).Op
					x.types[k] = append(x.types[k], mi.X.Type())
				}
			}
		}
	}
	e := x.e
	as := args(x.fn)
	x.val = as[0]
	st := ai.NewState(e)
	if _, ok := x.fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		st.Assume(ai.Eq(x.val, ai.Nil), false)
	}
	e.Imprecise = func(st *ai.State, what string, ins ssa.Instruction) { x.give(st, what, ins) }
	e.Recursive = func(st *ai.State, c *ai.CallInfo) []ai.Outcome { x.give(st, "recursion", c.Instr); return nil }
	e.Call = func(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
		if c.Name == "encoding/json.Marshal" && len(c.Args) == 1 {
			b := ai.App("json", nil, st.Norm(c.Args[0]))
			return []ai.Outcome{{St: st, Res: ai.Tuple(b, ai.App("jsonerr", nil, b))}}, true
		}
		if text != nil && c.Fn == text {
			return []ai.Outcome{{St: st, Res: ai.App("errtext", strT, c.Args[0])}}, true
		}
		return nil, false
	}
	e.Return = x.ret
	x.prod.explore(st, x.fn, as, []string{"E02"})
}

func (x *jsonExplorer) give(st *ai.State, why string, ins ssa.Instruction) {
	ps := "-"
	if ins != nil {
		ps = pos(x.p, ins)
	}
	x.gaveUp[fmt.Sprintf("%s: %s at %s", x.fn.Name(), why, ps)] = true
	st.Kill()
}

func (x *jsonExplorer) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	b, err := st.Norm(res[0]), st.Norm(res[1])
	if err.Is("jsonerr") && st.Eval(ai.Eq(err, ai.Nil)) == -1 {
		return
	}
	if !b.Is("json") {
		x.give(st, "the text "+show(b)+" is not followed", ins)
		return
	}
	if bad := ai.App("jsonerr", nil, b); err != st.Norm(bad) && !(err.K == ai.KNil && st.Eval(ai.Eq(bad, ai.Nil)) == 1) {
		x.fail(st, ins, "E02", "error", "an error of json.Marshal is lost: the method returns %s", show(err))
		return
	}
	x.same(st, st.Norm(b.Args[0]), ins)
}

// object compares what is marshalled for a value with the value.
func (x *jsonExplorer) object(st *ai.State, v *ai.T, name string, ins ssa.Instruction) {
	ts := x.types[v.Op]
	if !strings.HasPrefix(v.Op, "iface:") || len(ts) == 0 {
		x.give(st, "the value "+show(v)+" is not followed", ins)
		return
	}
	t := ts[0]
	for _, u := range ts[1:] {
		if !types.Identical(t, u) {
			x.give(st, "two types have the name "+t.String(), ins)
			return
		}
	}
	v = v.Args[0]
	load := func(a *ai.T, t types.Type, i int) *ai.T {
		f := t.Underlying().(*types.Struct).Field(i)
		if a.Is("struct") && i < len(a.Args) {
			return st.Norm(a.Args[i])
		}
		return st.Norm(ai.App("fieldof", f.Type(), a, ai.Int(int64(i))))
	}
	own := func(v *ai.T, t types.Type, path []int) *ai.T {
		for _, i := range path {
			if q, ok := t.Underlying().(*types.Pointer); ok {
				t = q.Elem()
				v = st.Norm(st.Load(v, t))
			}
			v = load(v, t, i)
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
		return v
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		if q, ok := t.Underlying().(*types.Pointer); ok {
			if _, ok := q.Elem().Underlying().(*types.Struct); ok {
				v, t = st.Norm(st.Load(v, q.Elem())), q.Elem()
			}
		}
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		x.give(st, "a value of the type "+t.String()+" is not followed", ins)
		return
	}
	if len(jsonMethods(x.p, t)) > 0 {
		x.fail(st, ins, "E02", "endless", "the method marshals a value that has a method MarshalJSON again")
		return
	}
	have := map[string]jsonField{}
	for _, j := range jsonFields(t) {
		have[j.name] = j
	}
	for _, r := range jsonRef[name] {
		key, fld, empty := r[0], r[1], r[2]
		x.run.oblig++
		i := fieldIndex(x.typ, fld)
		var want *ai.T
		if _, ok := x.fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			want = field(st, x.val, x.typ, fld)
		} else {
			want = load(x.val, x.typ, i)
		}
		j, ok := have[key]
		if !ok {
			if empty == "nil" && st.Eval(ai.Eq(want, ai.Nil)) == 1 {
				continue
			}
			x.fail(st, ins, "E02", key+":none", "what is marshalled for a %s has no %q", name, key)
			return
		}
		got := own(v, t, j.path)
		delete(have, key)
		if q, ok := j.field.Type().Underlying().(*types.Pointer); ok && !types.Identical(j.field.Type(), x.typ.Underlying().(*types.Struct).Field(i).Type()) {
			// a pointer to the value
			if st.Eval(ai.Eq(got, ai.Nil)) == 1 {
				if !(empty == "nil" && st.Eval(ai.Eq(want, ai.Nil)) == 1 && j.opts["omitempty"]) {
					x.fail(st, ins, "E02", key+":value", "the key %q of a %s has no value", key, name)
					return
				}
				continue
			}
			got = st.Norm(st.Load(got, q.Elem()))
			j.opts = nil
		}
		if st.Eval(ai.Eq(got, want)) != 1 {
			x.fail(st, ins, "E02", key+":value", "the key %q of a %s has the value %s instead of %s", key, name, show(got), show(want))
			return
		}
		if why := jsonKept(st, j, empty, want, nil); why != "" {
			x.fail(st, ins, "E02", key+":opts", "the key %q of a %s %s", key, name, why)
			return
		}
	}
	for _, k := range sortedKeys(have) {
		x.fail(st, ins, "E02", k+":extra", "what is marshalled for a %s has the key %q, which is not known", name, k)
		return
	}
	x.run.events["objects"]++
}

// text compares what is marshalled for an error with its text.
func (x *jsonExplorer) text(st *ai.State, v *ai.T, text *ssa.Function, ins ssa.Instruction) {
	x.run.events["errors written as text"]++
	if v.Is("iface:string") && v.Args[0].Is("errtext") {
		if v.Args[0].Args[0] != st.Norm(x.val) {
			x.fail(st, ins, "E02", "text", "an error is written as the text of another one, %s", show(v))
		}
		return
	}
	if !v.Is("iface:string") {
		x.fail(st, ins, "E02", "text", "an error is written as %s and not as its text", show(v))
		return
	}
	// the same text may be made in the same way: what the method Error makes of this error in this case is compared
	y := newProd(x.p, x.run, "E02")
	n := st.Clone()
	n.E = y.e
	n.Frames = nil
	n.ResetOwnership()
	y.e.Return = func(st *ai.State, res []*ai.T, ins2 ssa.Instruction) {
		if got := st.Norm(v.Args[0]); st.Eval(ai.Eq(got, st.Norm(res[0]))) != 1 {
			x.fail(st, ins, "E02", "text", "an error is written as %s, its text is %s", show(got), show(st.Norm(res[0])))
		}
	}
	y.e.Start(n, text, []*ai.T{x.val}, nil)
	y.e.Run(n)
}

func init() {
	prodCheck("E02", "rules over the struct tags of the type-checked program; abstract interpretation (path-sensitive fixpoint over SSA) of the methods MarshalJSON",
		"For every type of a payload the keys that encoding/json derives from its fields are compared with those of the documented format; the methods MarshalJSON are explored, and on each path what they marshal is compared field by field with the value.",
		jsonAll, "every key stands for its field and is left out only where it may be", "what a method MarshalJSON marshals has all fields of the value", "a ParseError is marshalled as its text")
}
