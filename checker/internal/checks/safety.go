package checks

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"

	"golang.org/x/tools/go/ssa"
)

// safety collects the operations that may panic, over all the explorations of a program.
type safety struct {
	ok      map[ssa.Instruction]bool
	failed  map[string]*hazard
	total   int
	engines []*ai.Engine
}

type hazard struct {
	kind, pos, detail string
	fn                *ssa.Function
	trace             []string
}

var safeties = map[*load.Prog]*safety{}

func safetyOf(p *load.Prog) *safety {
	s := safeties[p]
	if s == nil {
		s = &safety{ok: map[ssa.Instruction]bool{}, failed: map[string]*hazard{}}
		safeties[p] = s
	}
	return s
}

// watch records what an exploration says about an operation that may panic.
func watch(p *load.Prog, st *ai.State, kind string, ok bool, ins ssa.Instruction, d string) {
	s := safetyOf(p)
	s.total++
	if ins == nil || st.Dead() {
		return
	}
	fn := ins.Parent()
	if ok {
		s.ok[ins] = true
		return
	}
	k := pos(p, ins) + kind
	if s.failed[k] == nil {
		s.failed[k] = &hazard{kind, pos(p, ins), d, fn, st.Path()}
	}
}

func init() {
	register("X01", func(p *load.Prog, r *rep.R) {
		s := safetyOf(p)
		r.Technique = "abstract interpretation (path-sensitive fixpoint over SSA) with an obligation at every operation that may panic"
		r.Explanation = "All explorations of the other properties are run and every other function of the library is explored on its own, for all arguments; at every index, slice, dereference, map assignment, type assertion, division, repeat and channel operation the facts of the path must show that it does not panic."
		r.Rule("an operation is fine if the facts of every path that reaches it exclude a panic")
		r.Assume("options and receivers are not nil, lists of statements hold no nil, errors are not nil pointers, callbacks do not panic, memory and stacks suffice")
		exploreAll(p)
		s.standalone(p, r)
		for ins := range s.ok {
			r.Count("operations", 1)
			r.OK()
			r.Sample("%s %s", pos(p, ins), ins.Parent().Name())
		}
		r.Count("operations judged in a state", s.total)
		if os.Getenv("XFAST") == "" {
			r.Floor("operations", 150)
		}
		for _, k := range sortedKeys(s.failed) {
			h := s.failed[k]
			r.FailTrace(h.kind+":"+h.fn.String(), h.pos, h.trace, "%s: %s", h.kind, h.detail)
			if os.Getenv("XDUMP") != "" {
				fmt.Println("X", h.pos, h.kind, h.fn.Name(), h.detail)
			}
		}
	})
}

// exploreAll runs the explorations of all properties.
func exploreAll(p *load.Prog) {
	if os.Getenv("XFAST") == "" {
		lexAll(p)
		parseAll(p)
	}
	if os.Getenv("XFAST") != "2" {
		for _, f := range []func(*load.Prog) *prodRun{combineAll, cycleAll, rootAll, anaAll, mapAll, buildAll, filesAll, registerAll, luaAll, luaBuildAll, lexOptAll} {
			f(p)
		}
		ifAll(p)
	}
}

// standalone explores the functions that no other exploration reached, on their own.
func (s *safety) standalone(p *load.Prog, r *rep.R) {
	done := map[*ssa.Function]bool{}
	for _, e := range s.engines {
		for f := range e.Inlined {
			done[f] = true
		}
	}
	for _, fn := range p.Funcs {
		if fn.Pkg != p.RootSSA || done[fn] || len(fn.Blocks) == 0 || strings.HasPrefix(fn.Name(), "init") || fn.Synthetic != "" {
			continue
		}
		if os.Getenv("XFAST") != "" && (fn.Name() == "parse" || fn.Name() == "skip" || fn.Name() == "tokenize") {
			continue
		}
		if f := os.Getenv("XFN"); f != "" && !strings.Contains(fn.String(), f) {
			continue
		}
		x := newProd(p, newRun(), "X01")
		x.e.MaxStates = 6000
		x.e.PartLimit = 12
		x.e.Imprecise = func(st *ai.State, what string, ins ssa.Instruction) {
			if os.Getenv("XDUMP") != "" {
				fmt.Println("imprecise", fn, pos(p, ins), what)
			}
		}
		x.e.Recursive = func(st *ai.State, c *ai.CallInfo) []ai.Outcome {
			return []ai.Outcome{{St: st, Res: st.FreshOf("rec", c.Typ)}}
		}
		x.e.Defer = nil
		nn := x.e.NonNil
		x.e.NonNil = func(t *ai.T) bool { return nn(t) || internalField(t) }
		st := ai.NewState(x.e)
		as := symbolic(st, fn)
		for _, a := range as {
			if a.Typ == nil {
				continue
			}
			if _, ok := a.Typ.Underlying().(*types.Pointer); ok {
				st.Assume(ai.Eq(a, ai.Nil), false)
			}
		}
		var binds []*ai.T
		for _, v := range fn.FreeVars {
			b := ai.Named("free:"+v.Name(), v.Type())
			if _, ok := v.Type().Underlying().(*types.Pointer); ok {
				st.Assume(ai.Eq(b, ai.Nil), false)
			}
			binds = append(binds, b)
		}
		x.e.Start(st, fn, as, binds)
		x.e.Run(st)
		for f := range x.e.Inlined {
			done[f] = true
		}
		if x.e.Overflow {
			r.Cut(fn.String())
		}
		r.Count("functions explored on their own", 1)
		if os.Getenv("XDUMP") != "" {
			fmt.Println("alone", fn, len(x.e.Visited), x.e.Overflow)
		}
	}
}

// internalField tells whether a value was read from a pointer or function field of an internal struct: the
// library sets them.
func internalField(t *ai.T) bool {
	if !t.Is("load") || !t.Args[0].Is("field") || t.Args[0].Args[0].Typ == nil {
		return false
	}
	pt, ok := t.Args[0].Args[0].Typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Exported() {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	i, isInt := t.Args[0].Args[1].IsInt()
	if !ok || !isInt || int(i) >= s.NumFields() {
		return false
	}
	switch s.Field(int(i)).Type().Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
