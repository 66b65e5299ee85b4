package checks

import (
	"go/types"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// scanBranch follows a loop that compares a string with the elements of a list. The ghost found is
// "?" until it is known whether the string is one of them; the ghost scan counts the elements that it
// was compared with.
func scanBranch(st *ai.State, c *ai.T, val bool, list, elem *ai.T, found string) {
	if gs(st, found) != "?" {
		return
	}
	for c.Is("not") {
		c, val = c.Args[0], !val
	}
	if !c.Is("eq") {
		return
	}
	for i := 0; i < 2; i++ {
		if a, b := c.Args[i], c.Args[1-i]; a.Is("index") && a.Args[0] == list && (st.Norm(b) == st.Norm(elem) || val && st.Norm(a) == st.Norm(elem)) {
			n := st.Ghost["scan"]
			if n == nil {
				n = ai.Int(0)
			}
			if val {
				st.Ghost[found] = ai.True
				delete(st.Ghost, "scan")
			} else if st.Eval(ai.Eq(a.Args[1], n)) == 1 {
				st.Ghost["scan"] = ai.Add(n, 1)
			}
		}
	}
}

// scanned: every element of the list was compared.
func scanned(st *ai.State, list *ai.T) bool {
	n := st.Ghost["scan"]
	if n == nil {
		n = ai.Int(0)
	}
	return st.Eval(ai.Le(ai.Len(list), n)) == 1
}

var memberOf = map[*ssa.Function]int{}

// isMembership decides whether a function of a list and a string tells, without effects, whether the
// string is one of the list.
func isMembership(p *load.Prog, fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) != 2 || !sigIs(fn.Signature, []string{"[]string", "string"}, []string{"bool"}) || len(fn.FreeVars) > 0 {
		return false
	}
	if r, ok := memberOf[fn]; ok {
		return r == 1
	}
	memberOf[fn] = 0
	e := newEngine(p)
	ok := true
	bad := func() { ok = false; e.Stop = true }
	e.MaxStates = 3000
	e.KeepLen = true
	e.Near = 1
	e.ConstLimit = -1
	e.OffLimit = 0
	e.DiffLimit = 2
	e.LowLimit = 1
	e.WidenGhost = func(k string) bool { return k == "scan" }
	e.Module = inModule(p)
	as := args(fn)
	list, elem := as[0], as[1]
	e.OnBranch = func(st *ai.State, c *ai.T, val bool, ins *ssa.If) { scanBranch(st, c, val, list, elem, "found") }
	e.OnStore = func(st *ai.State, addr, v *ai.T, typ types.Type, ins ssa.Instruction) { bad() }
	e.OnMapPut = func(st *ai.State, m, k, v *ai.T, ins ssa.Instruction) { bad() }
	e.Send = func(st *ai.State, ch, v *ai.T, ins ssa.Instruction) { bad() }
	e.Recv = func(st *ai.State, ch *ai.T, commaOk bool, typ types.Type, ins ssa.Instruction) ([]ai.Outcome, bool) {
		bad()
		return nil, true
	}
	e.Ext = func(st *ai.State, c *ai.CallInfo) { bad() }
	e.Imprecise = func(st *ai.State, what string, ins ssa.Instruction) { bad() }
	e.Obligation = func(st *ai.State, kind string, o bool, ins ssa.Instruction, d string) {
		if !o {
			bad()
		}
	}
	returns := 0
	e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		returns++
		switch st.Eval(res[0]) {
		case 1:
			if gs(st, "found") == "?" {
				bad()
			}
		case -1:
			if gs(st, "found") != "?" || !scanned(st, list) {
				bad()
			}
		default:
			bad()
		}
	}
	st := ai.NewState(e)
	st.Ghost["found"] = ai.Str("?")
	e.Start(st, fn, as, nil)
	e.Run(st)
	if ok && !e.Overflow && returns > 0 {
		memberOf[fn] = 1
	}
	return memberOf[fn] == 1
}
