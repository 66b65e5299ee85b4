package checks

import (
	"fmt"
	"go/types"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// small explores a function of one value under the cases that are given and compares its result with the expected one.
type small struct {
	p     *load.Prog
	run   *prodRun
	prop  string
	cut   map[string]bool
	calls int
}

func (s *small) do(fn *ssa.Function, name string, typ types.Type, what string, set func(st *ai.State, get func(f string) *ai.T) *ai.T) {
	x := newProd(s.p, s.run, s.prop)
	as := args(fn)
	v := as[0]
	st := ai.NewState(x.e)
	get := func(f string) *ai.T {
		i := fieldIndex(typ, f)
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			return field(st, v, typ, f)
		}
		if v.Is("struct") {
			return st.Norm(v.Args[i])
		}
		return st.Norm(ai.App("fieldof", typ.Underlying().(*types.Struct).Field(i).Type(), v, ai.Int(int64(i))))
	}
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		st.Assume(ai.Eq(v, ai.Nil), false)
	}
	give := func(st *ai.State, why string, ins ssa.Instruction) {
		ps := "-"
		if ins != nil {
			ps = pos(s.p, ins)
		}
		s.cut[fmt.Sprintf("%s: %s at %s", fn.Name(), why, ps)] = true
		st.Kill()
	}
	x.e.Imprecise = give
	x.e.Recursive = func(st *ai.State, c *ai.CallInfo) []ai.Outcome { give(st, "recursion", c.Instr); return nil }
	want := set(st, get)
	x.e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		s.run.events["cases"]++
		s.run.oblig++
		got := st.Norm(res[0])
		ok := false
		if want == ai.True || want == ai.False {
			ok = st.Eval(got) == map[bool]int{true: 1, false: -1}[want == ai.True]
		} else {
			ok = st.Eval(ai.Eq(got, st.Norm(want))) == 1
		}
		if ok {
			return
		}
		if unfollowed(got) {
			give(st, "the value "+show(got)+" is not followed", ins)
			return
		}
		x.fail(st, ins, s.prop, what, "%s returns %s instead of %s for %s", name, show(got), show(st.Norm(want)), what)
	}
	guard(s.p, x.e, name+" writes to the value", false, v)
	x.explore(st, fn, as, []string{s.prop})
}

// unfollowed tells whether a value is the result of a call that has no model.
func unfollowed(t *ai.T) bool {
	if strings.HasPrefix(t.Op, "call:") {
		return true
	}
	for _, a := range t.Args {
		if unfollowed(a) {
			return true
		}
	}
	return false
}

var errorTextAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"E03"}
	typ := rootType(p, "ParseError")
	text, unwrap := rootMethod(p, "ParseError", "Error"), rootMethod(p, "ParseError", "Unwrap")
	if typ == nil || text == nil || unwrap == nil || fieldIndex(typ, "What") < 0 || fieldIndex(typ, "File") < 0 || fieldIndex(typ, "Line") < 0 {
		run.anchor(props, "ParseError with What, File and Line, its methods Error and Unwrap were not found")
		return run
	}
	s := &small{p: p, run: run, prop: "E03", cut: map[string]bool{}}
	for i := 0; i < 4; i++ {
		hasFile, hasLine := i&1 != 0, i&2 != 0
		what := "an error " + map[bool]string{true: "with", false: "without"}[hasFile] + " a file and " + map[bool]string{true: "with", false: "without"}[hasLine] + " a line"
		s.do(text, "Error", typ, what, func(st *ai.State, get func(string) *ai.T) *ai.T {
			f, l := get("File"), get("Line")
			st.Assume(ai.Eq(f, ai.Nil), !hasFile)
			st.Assume(ai.Eq(l, ai.Nil), !hasLine)
			file := ai.Str("(nofile)")
			if hasFile {
				file = st.Norm(st.Load(f, strT))
			}
			r := ai.Cat(get("What"), ai.Str(" in "), file)
			if hasLine {
				r = ai.Cat(r, ai.Str(":"), ai.App("itoa", strT, st.Norm(st.Load(l, intT))))
			}
			return r
		})
	}
	// the cause is the only field of the type error
	cause := ""
	st := typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.Universe.Lookup("error").Type()) {
			if cause != "" {
				run.anchor(props, "ParseError has two causes")
				return run
			}
			cause = st.Field(i).Name()
		}
	}
	if cause == "" {
		run.anchor(props, "ParseError has no field for its cause")
		return run
	}
	s.do(unwrap, "Unwrap", typ, "an error", func(st *ai.State, get func(string) *ai.T) *ai.T { return get(cause) })
	for _, k := range sortedKeys(s.cut) {
		run.cut = append(run.cut, k)
	}
	run.need(props, "cases")
	return run
})

var kindAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"E04"}
	typ := rootType(p, "Directive")
	if typ == nil {
		run.anchor(props, "the type Directive was not found")
		return run
	}
	s := &small{p: p, run: run, prop: "E04", cut: map[string]bool{}}
	for _, k := range []struct{ fn, field, name string }{{"IsBlock", "Block", ""}, {"IsInclude", "Includes", "include"}, {"IsComment", "Comment", "#"}} {
		fn := rootMethod(p, "Directive", k.fn)
		if fn == nil || fieldIndex(typ, k.field) < 0 || fn.Signature.Results().Len() != 1 {
			run.anchor(props, "the method "+k.fn+" of directives was not found")
			return run
		}
		for i := 0; i < 4; i++ {
			has, named := i&1 != 0, i&2 != 0
			what := "a directive " + map[bool]string{true: "with", false: "without"}[has] + " " + k.field
			if k.name != "" {
				what += map[bool]string{true: " that is named ", false: " that is not named "}[named] + k.name
			}
			s.do(fn, k.fn, typ, what, func(st *ai.State, get func(string) *ai.T) *ai.T {
				st.Assume(ai.Eq(get(k.field), ai.Nil), !has)
				if k.name != "" {
					st.Assume(ai.Eq(get("Directive"), ai.Str(k.name)), named)
				}
				return ai.Bool(has && (named || k.name == ""))
			})
		}
	}
	for _, k := range sortedKeys(s.cut) {
		run.cut = append(run.cut, k)
	}
	run.need(props, "cases")
	return run
})

func init() {
	prodCheck("E03", "abstract interpretation (path-sensitive fixpoint over SSA) of the methods Error and Unwrap of ParseError, the result compared as a term",
		"Error is explored for errors with and without a file and a line, Unwrap for any error; on every path the result is compared as a term with the documented text, or the cause.",
		errorTextAll, "the text is `what in file:line`, with `(nofile)` for no file and without `:line` for no line", "Unwrap returns the cause")
	prodCheck("E04", "abstract interpretation (path-sensitive fixpoint over SSA) of IsBlock, IsInclude and IsComment for every case of what they depend on",
		"Each method is explored for directives with and without the list or comment, with and without the name; all other fields are arbitrary.",
		kindAll, "IsBlock is true exactly with a block, IsInclude exactly with includes and the name include, IsComment exactly with a comment and the name #")
}
