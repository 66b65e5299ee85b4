package checks

import (
	"fmt"
	"go/types"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// lookupTable returns the package-level map that a match function answers from, however it is written: on every path
// it looks its argument up in that map only, returns what is there and true if there is something, and false if not.
func lookupTable(p *load.Prog, fn *ssa.Function) (*ssa.Global, error) {
	e := newEngine(p)
	var g *ssa.Global
	var err error
	bad := func(f string, a ...interface{}) {
		if err == nil {
			err = fmt.Errorf(f, a...)
		}
		e.Stop = true
	}
	globals := map[string]*ssa.Global{}
	for _, m := range p.RootSSA.Members {
		if v, ok := m.(*ssa.Global); ok {
			globals["&"+v.String()] = v
		}
	}
	e.MaxStates = 3000
	e.ConstLimit = -1
	e.Module = inModule(p)
	as := args(fn)
	e.OnLookup = func(st *ai.State, m, k *ai.T, has bool, v *ai.T, ins *ssa.Lookup) {
		var x *ssa.Global
		if m.Is("load") && len(m.Args) == 1 {
			x = globals[m.Args[0].Op]
		}
		switch {
		case x == nil:
			bad("%s looks something up in %s, which is not a package-level table", fn.Name(), m)
		case g != nil && g != x:
			bad("%s answers from two tables", fn.Name())
		case st.Norm(k) != st.Norm(as[0]):
			bad("%s looks up %s, not its argument", fn.Name(), k)
		}
		g = x
		if has {
			st.Ghost["has"] = ai.True
			st.Ghost["val"] = v
		} else {
			st.Ghost["has"] = ai.False
		}
	}
	e.OnStore = func(st *ai.State, addr, v *ai.T, typ types.Type, ins ssa.Instruction) {
		if addr.K != ai.KObj && !localAddr(addr) {
			bad("%s writes to %s", fn.Name(), addr)
		}
	}
	e.OnMapPut = func(st *ai.State, m, k, v *ai.T, ins ssa.Instruction) { bad("%s writes to a map", fn.Name()) }
	e.Send = func(st *ai.State, ch, v *ai.T, ins ssa.Instruction) { bad("%s sends", fn.Name()) }
	e.Recv = func(st *ai.State, ch *ai.T, commaOk bool, typ types.Type, ins ssa.Instruction) ([]ai.Outcome, bool) {
		bad("%s receives", fn.Name())
		return nil, true
	}
	e.Ext = func(st *ai.State, c *ai.CallInfo) {}
	e.Imprecise = func(st *ai.State, what string, ins ssa.Instruction) { bad("undecided: %s", what) }
	e.Obligation = func(st *ai.State, kind string, o bool, ins ssa.Instruction, d string) {}
	returns := 0
	e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		returns++
		has := st.Ghost["has"]
		switch {
		case has == nil:
			bad("%s may return without looking its argument up", fn.Name())
		case has == ai.True && (st.Eval(res[1]) != 1 || st.Norm(res[0]) != st.Norm(st.Ghost["val"])):
			bad("%s returns %s and %s for what is in the table", fn.Name(), show(res[0]), show(res[1]))
		case has == ai.False && st.Eval(res[1]) != -1:
			bad("%s returns %s and %s for what is not in the table", fn.Name(), show(res[0]), show(res[1]))
		}
	}
	st := ai.NewState(e)
	e.Start(st, fn, as, nil)
	e.Run(st)
	switch {
	case err != nil:
		return nil, err
	case e.Overflow || returns == 0 || g == nil:
		return nil, fmt.Errorf("undecided: what %s answers from", fn.Name())
	}
	return g, nil
}

// localAddr: memory that was made while the function ran.
func localAddr(a *ai.T) bool {
	for a.Is("field") || a.Is("elem") {
		a = a.Args[0]
	}
	return a.K == ai.KObj
}
