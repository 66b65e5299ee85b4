package checks

import (
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// subAll decides what the methods of SubScanner give to an external lexer: each is explored for a scanner of which
// only its contract is known.
var subAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"L09", "L02"}
	t := rootType(p, "SubScanner")
	if t == nil {
		run.anchor(props, "the type SubScanner was not found")
		return run
	}
	for _, name := range []string{"Scan", "Text", "Line", "Err"} {
		fn := rootMethod(p, "SubScanner", name)
		if fn == nil || len(fn.Params) != 1 {
			run.anchor(props, "the method "+name+" of SubScanner was not found")
			return run
		}
		subMethod(p, run, fn, name, props)
	}
	run.need(props, "Scan read", "Scan newline", "Scan end", "Text", "Line", "Err")
	return run
})

func subMethod(p *load.Prog, run *prodRun, fn *ssa.Function, name string, props []string) {
	x := newProd(p, run, "L09")
	e := x.e
	as := args(fn)
	st := ai.NewState(e)
	st.Assume(ai.Eq(as[0], ai.Nil), false)
	l := &lexExplorer{p: p}
	sc, line := l.subScanner(st, as[0])
	if sc == nil || line == nil {
		run.anchor(props, "the scanner and the line of SubScanner were not found")
		return
	}
	st.Assume(ai.Eq(sc, ai.Nil), false)
	consts := alphabet(p, reachable(p, fn))
	nl := false
	for _, c := range consts {
		nl = nl || c == ai.Str("\n")
	}
	if !nl {
		consts = append(consts, ai.Str("\n"))
	}
	space, other := charClasses(consts)
	st.Ghost["read"] = ai.Int(0)
	st.Ghost["char"] = st.FreshCls("c", strT, other)
	st.Ghost["err"] = st.Fresh("readerror", nil)
	e.Call = func(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
		if !strings.HasPrefix(c.Name, "(*bufio.Scanner).") {
			return nil, false
		}
		if c.Args[0] != sc {
			x.fail(st, c.Instr, "L09", "scanner", "%s reads from another scanner than the lexer", name)
			return nil, true
		}
		one := func(r *ai.T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Res: r}}, true }
		switch c.Name {
		case "(*bufio.Scanner).Err":
			return one(st.Ghost["err"])
		case "(*bufio.Scanner).Text":
			return one(st.Ghost["char"])
		case "(*bufio.Scanner).Scan":
			if name != "Scan" || st.Ghost["read"] != ai.Int(0) {
				x.fail(st, c.Instr, "L09", "reads", "%s reads more than one character, or where it must not", name)
				return nil, true
			}
			var out []ai.Outcome
			for i := 0; i < len(consts)+2; i++ {
				n := st.Clone()
				ch := n.FreshCls("c", strT, space)
				if i < len(consts) {
					ch = consts[i]
				} else if i > len(consts) {
					ch = n.FreshCls("c", strT, other)
				}
				n.Ghost["char"] = ch
				n.Ghost["read"] = ai.Int(1)
				out = append(out, ai.Outcome{St: n, Res: ai.True})
			}
			n := st.Clone()
			n.Ghost["read"] = ai.Int(2)
			st.Kill()
			return append(out, ai.Outcome{St: n, Res: ai.False}), true
		}
		x.fail(st, c.Instr, "L09", "scanner-call", "undecided: %s calls %s", name, c.Name)
		return nil, true
	}
	e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		sc2, line2 := l.subScanner(st, as[0])
		if st.Norm(sc2) != st.Norm(sc) {
			x.fail(st, ins, "L09", "other-scanner", "%s changes the scanner", name)
			return
		}
		want := line
		switch name {
		case "Scan":
			switch st.Ghost["read"] {
			case ai.Int(0):
				x.fail(st, ins, "L09", "unread", "Scan may return without reading")
				return
			case ai.Int(1):
				run.events["Scan read"]++
				if st.Eval(res[0]) != 1 {
					x.fail(st, ins, "L09", "scan-false", "Scan returns %s although a character was read", show(res[0]))
				}
				if st.Norm(st.Ghost["char"]) == ai.Str("\n") {
					run.events["Scan newline"]++
					want = ai.Add(line, 1)
				}
			default:
				run.events["Scan end"]++
				if st.Eval(res[0]) != -1 {
					x.fail(st, ins, "L09", "scan-true", "Scan returns %s although there is no more input", show(res[0]))
				}
			}
		case "Text":
			run.events["Text"]++
			if st.Norm(res[0]) != st.Norm(st.Ghost["char"]) {
				x.fail(st, ins, "L09", "text", "Text returns %s, not the last character", show(res[0]))
			}
		case "Line":
			run.events["Line"]++
			if st.Eval(ai.Eq(res[0], line)) != 1 {
				x.fail(st, ins, "L09,L02", "line", "Line returns %s, not the line of the last character", show(res[0]))
			}
		case "Err":
			run.events["Err"]++
			if st.Norm(res[0]) != st.Norm(st.Ghost["err"]) {
				x.fail(st, ins, "L09", "err", "Err returns %s, not the error of the reader", show(res[0]))
			}
		}
		if st.Eval(ai.Eq(line2, want)) != 1 {
			x.fail(st, ins, "L09,L02", "count", "after %s the line is %s, not %s", name, show(line2), show(want))
		}
	}
	x.explore(st, fn, as, props)
}

func init() {
	prodCheck("L09", "abstract interpretation (path-sensitive fixpoint over SSA) of the methods of SubScanner against the contract of its scanner",
		"Each method is explored for any scanner, any line and any character, or the end of the input; what it reads, returns and leaves is compared with the contract that external lexers rely on.",
		subAll, "Scan reads one character and counts it if it is a newline", "Text, Line and Err return what was read last, its line and the error of the reader, and change nothing")
	prodMore("L02", subAll, "the lines that an external lexer reads are counted, each once")
}
