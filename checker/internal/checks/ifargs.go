package checks

import (
	"go/types"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// isIfArgs recognises the function that removes the parentheses around the arguments of a directive: it takes
// nothing but the directive and stores its arguments.
func isIfArgs(p *load.Prog, fn *ssa.Function) bool {
	if fn == nil || fn.Pkg != p.RootSSA || len(fn.Params) != 1 || len(fn.FreeVars) > 0 || !isPtrTo(fn.Params[0].Type(), "Directive") || len(fn.Blocks) == 0 {
		return false
	}
	rs := fn.Signature.Results()
	if rs.Len() > 1 || rs.Len() == 1 && !isPtrTo(rs.At(0).Type(), "Directive") {
		return false
	}
	i := fieldIndex(rootType(p, "Directive"), "Args")
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == i && isPtrTo(fa.X.Type(), "Directive") {
					return true
				}
			}
		}
	}
	return false
}

type ifRun struct {
	*prodRun
	others map[*ssa.Function]bool // also leaves the arguments of other directives alone
}

var ifRuns = map[*load.Prog]*ifRun{}

func ifAll(p *load.Prog) *ifRun {
	if r, ok := ifRuns[p]; ok {
		return r
	}
	run := &ifRun{prodRun: newRun(), others: map[*ssa.Function]bool{}}
	ifRuns[p] = run
	props := []string{"P13"}
	n := 0
	for _, fn := range p.Funcs {
		if !isIfArgs(p, fn) {
			continue
		}
		n++
		explore(p, run.prodRun, fn, true)
		other := newRun()
		explore(p, other, fn, false)
		run.others[fn] = len(other.problems) == 0
	}
	if n == 0 {
		run.anchor(props, "the function that removes the parentheses of an if was not found")
	}
	run.need(props, "unchanged", "one argument", "several arguments", "first dropped", "last dropped", "nothing left")
	return run
}

// explore decides what a function does to the arguments of an if, or of other directives.
func explore(p *load.Prog, run *prodRun, fn *ssa.Function, isIf bool) {
	x := newProd(p, run, "P13")
	stmtT := rootType(p, "Directive")
	as := args(fn)
	d := as[0]
	st := ai.NewState(x.e)
	st.Assume(ai.Eq(d, ai.Nil), false)
	ai0 := fieldIndex(stmtT, "Args")
	at0 := stmtT.Underlying().(*types.Struct).Field(ai0).Type()
	old := field(st, d, stmtT, "Args")
	st.Assume(ai.Eq(field(st, d, stmtT, "Directive"), ai.Str("if")), isIf)
	st.Ghost["old"] = old
	x.e.OnStore = func(st *ai.State, addr, v *ai.T, typ types.Type, ins ssa.Instruction) {
		if isCallers(addr, d) && addr.Is("field") && addr != ai.FieldAddr(d, ai0) {
			x.fail(st, ins, "P13", "if-field", "another field than the arguments is changed")
		}
	}
	x.e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		if len(res) == 1 && st.Norm(res[0]) != d {
			x.fail(st, ins, "P13", "if-result", "another directive is returned")
			return
		}
		now := st.Norm(st.Load(ai.FieldAddr(d, ai0), at0))
		old := st.Norm(st.Ghost["old"])
		n := ai.Len(old)
		last := ai.Add(n, -1)
		par := st.Eval(ai.Lt(ai.Int(0), n))
		if par == 1 {
			par = and3(st.Eval(ai.App("hasprefix", boolT, at(st, old, ai.Int(0), strT), ai.Str("("))),
				st.Eval(ai.App("hassuffix", boolT, at(st, old, last, strT), ai.Str(")"))))
		}
		if !isIf {
			par = -1
		}
		switch par {
		case 0:
			x.fail(st, ins, "P13", "if-unknown", "undecided: whether the arguments are in parentheses")
			return
		case -1:
			if now != old {
				x.fail(st, ins, "P13", "if-changed", "the arguments become %s although they are not in parentheses", show(now))
			}
			run.events["unchanged"]++
			return
		}
		one := st.Eval(ai.Eq(n, ai.Int(1)))
		if one == 0 {
			// both, each on its own
			y, no := st.Split(ai.Eq(n, ai.Int(1)))
			for _, s := range []*ai.State{y, no} {
				if s != nil && !s.Dead() {
					x.e.Return(s, res, ins)
				}
			}
			return
		}
		first := st.Norm(ai.App("trimleft", strT, st.Norm(ai.App("substr", strT, at(st, old, ai.Int(0), strT), ai.Int(1), ai.Nil))))
		end := at(st, old, last, strT)
		if one == 1 {
			end = first
		}
		end = st.Norm(ai.App("trimright", strT, st.Norm(ai.App("substr", strT, end, ai.Int(0), ai.Add(ai.Len(end), -1)))))
		b := int64(0)
		if one == 1 {
			run.events["one argument"]++
			switch st.Eval(ai.Eq(end, ai.Str(""))) {
			case 1:
				run.events["nothing left"]++
				if st.Eval(ai.Eq(ai.Len(now), ai.Int(0))) != 1 {
					x.fail(st, ins, "P13", "if-nothing", "%s is left of an empty pair of parentheses", show(now))
				}
			case -1:
				if st.Eval(ai.Eq(ai.Len(now), ai.Int(1))) != 1 || st.Eval(ai.Eq(at(st, now, ai.Int(0), strT), end)) != 1 {
					x.fail(st, ins, "P13", "if-one", "the argument becomes %s, not %s", show(now), show(end))
				}
			default:
				x.fail(st, ins, "P13", "if-unknown", "undecided: whether %s is empty", show(end))
			}
			return
		}
		run.events["several arguments"]++
		fe, le := st.Eval(ai.Eq(first, ai.Str(""))), st.Eval(ai.Eq(end, ai.Str("")))
		if fe == 0 || le == 0 {
			x.fail(st, ins, "P13", "if-unknown", "undecided: whether %s or %s is empty", show(first), show(end))
			return
		}
		m := n
		if fe == 1 {
			run.events["first dropped"]++
			b, m = 1, ai.Add(m, -1)
		}
		if le == 1 {
			run.events["last dropped"]++
			m = ai.Add(m, -1)
		}
		if st.Eval(ai.Eq(ai.Len(now), m)) != 1 {
			x.fail(st, ins, "P13", "if-length", "%s has not the length of the arguments that are left", show(now))
			return
		}
		if fe == -1 && st.Eval(ai.Eq(at(st, now, ai.Int(0), strT), first)) != 1 {
			x.fail(st, ins, "P13", "if-first", "the first argument becomes %s, not %s", show(at(st, now, ai.Int(0), strT)), show(first))
			return
		}
		if le == -1 && st.Eval(ai.Eq(at(st, now, ai.Add(ai.Len(now), -1), strT), end)) != 1 {
			x.fail(st, ins, "P13", "if-last", "the last argument becomes %s, not %s", show(at(st, now, ai.Add(ai.Len(now), -1), strT)), show(end))
			return
		}
		// any other argument
		i := st.Fresh("i", intT)
		st.Assume(ai.Le(ai.Int(1), i), true)
		st.Assume(ai.Lt(i, last), true)
		if st.Dead() {
			return
		}
		if g, w := at(st, now, ai.Add(i, -b), strT), at(st, old, i, strT); st.Eval(ai.Eq(g, w)) != 1 {
			x.fail(st, ins, "P13", "if-middle", "another argument becomes %s, not %s", show(g), show(w))
		}
	}
	for _, s := range []struct {
		c *ai.T
		b bool
	}{{ai.Eq(ai.Len(old), ai.Int(0)), true}, {ai.Eq(ai.Len(old), ai.Int(1)), true}, {ai.Le(ai.Len(old), ai.Int(1)), false}} {
		n := st.Clone()
		n.Assume(s.c, s.b)
		if !x.e.Stop {
			x.explore(n, fn, as, []string{"P13"})
		}
	}
}

func init() {
	prodCheck("P13", "abstract interpretation (path-sensitive fixpoint over SSA) of the rewriting of the arguments of if, and of the parser, in product with a reference (property simulation)",
		"The function that removes the parentheses of an if is interpreted abstractly for every list of arguments; the parser is explored as for P09, where every call of it is followed.",
		func(p *load.Prog) *prodRun { return ifAll(p).prodRun }, "every argument that is left is compared with the one it was")
	prodMore("P13", func(p *load.Prog) *prodRun {
		run := parseAll(p)
		return &prodRun{problems: run.problems, states: run.states, events: run.events, samples: run.samples, roots: run.roots, assumes: run.assumes, cut: run.cut}
	}, "the arguments of every if that is kept are rewritten once, after the analysis, and those of no other directive")
}
