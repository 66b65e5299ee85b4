package checks

import (
	"go/types"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// Equal is decided by hypotheses: for every way in which two directives can differ, a run of the function on
// two directives that differ in this way and in any others must not return true; on two that differ in none it must.
type equalExplorer struct {
	*prod
	fn     *ssa.Function
	d, a   *ai.T
	stmtT  types.Type
	differ string
	k      *ai.T // the index of elements that differ
	l1, l2 *ai.T // the lists that they are in
	blocks bool  // the elements are directives
}

var equalAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"E01"}
	fn := rootMethod(p, "Directive", "Equal")
	stmtT := rootType(p, "Directive")
	if fn == nil || stmtT == nil || len(fn.Params) != 2 || !isPtrTo(fn.Params[0].Type(), "Directive") || !isPtrTo(fn.Params[1].Type(), "Directive") || fn.Signature.Results().Len() != 1 {
		run.anchor(props, "the method Equal of directives was not found")
		return run
	}
	s := stmtT.Underlying().(*types.Struct)
	do := func(differ string, set func(x *equalExplorer, st *ai.State)) {
		x := &equalExplorer{prod: newProd(p, run, "E01"), fn: fn, stmtT: stmtT, differ: differ}
		as := args(fn)
		x.d, x.a = as[0], as[1]
		st := ai.NewState(x.e)
		x.e.Return = x.ret
		x.e.Near, x.e.OffLimit = 2, 2
		x.e.OnHeader = func(st *ai.State, b *ssa.BasicBlock) {
			if x.covered(st) {
				for _, k := range sortedKeys(st.Ghost) {
					st.Ghost[k] = ai.Int(0)
				}
				st.Ghost["all"] = ai.Int(1)
			}
		}
		x.e.WidenGhost = func(k string) bool { return true }
		x.e.OnBranch = x.branch
		x.e.Recursive = func(st *ai.State, c *ai.CallInfo) []ai.Outcome { return x.equal(st, c) }
		x.e.Call = func(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
			if c.Fn == fn {
				return x.equal(st, c), true
			}
			name := strings.Split(c.Name, "[")[0]
			if name == "slices.Equal" || name == "reflect.DeepEqual" || name == "slices.EqualFunc" && len(c.Args) == 3 {
				return x.lists(st, c, name == "slices.EqualFunc", st.Norm(c.Args[0]), st.Norm(c.Args[1]))
			}
			return nil, false
		}
		guard(p, x.e, "Equal writes to a directive", false, x.d, x.a)
		set(x, st)
		if !x.e.Stop {
			x.prod.explore(st, fn, as, props)
		}
	}
	some := func(x *equalExplorer, st *ai.State) {
		st.Assume(ai.Eq(x.d, ai.Nil), false)
		st.Assume(ai.Eq(x.a, ai.Nil), false)
		st.Assume(ai.Eq(x.d, x.a), false)
	}
	do("in being nil", func(x *equalExplorer, st *ai.State) {
		st.Assume(ai.Eq(x.d, ai.Nil), true)
		st.Assume(ai.Eq(x.a, ai.Nil), false)
	})
	do("in being nil (the argument)", func(x *equalExplorer, st *ai.State) {
		st.Assume(ai.Eq(x.d, ai.Nil), false)
		st.Assume(ai.Eq(x.a, ai.Nil), true)
	})
	do("", func(x *equalExplorer, st *ai.State) {
		st.Assume(ai.Eq(x.d, ai.Nil), true)
		st.Assume(ai.Eq(x.a, ai.Nil), true)
	})
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		n++
		two := func(x *equalExplorer, st *ai.State) (*ai.T, *ai.T) {
			some(x, st)
			return field(st, x.d, stmtT, f.Name()), field(st, x.a, stmtT, f.Name())
		}
		switch t := f.Type().Underlying().(type) {
		case *types.Slice:
			do("in the number of elements of "+f.Name(), func(x *equalExplorer, st *ai.State) {
				u, v := two(x, st)
				st.Assume(ai.Lt(ai.Len(u), ai.Len(v)), true)
			})
			do("in the number of elements of "+f.Name()+" (there are more)", func(x *equalExplorer, st *ai.State) {
				u, v := two(x, st)
				st.Assume(ai.Lt(ai.Len(v), ai.Len(u)), true)
			})
			do("in an element of "+f.Name(), func(x *equalExplorer, st *ai.State) {
				x.l1, x.l2 = two(x, st)
				x.k = ai.Named("some", intT)
				st.Assume(ai.Le(ai.Int(0), x.k), true)
				st.Assume(ai.Lt(x.k, ai.Len(x.l1)), true)
				st.Assume(ai.Lt(x.k, ai.Len(x.l2)), true)
				st.Assume(ai.Eq(ai.Len(x.l1), ai.Len(x.l2)), true)
				st.Ghost["next"], st.Ghost["last"] = ai.Int(0), ai.Int(-1)
				for l, t := range map[string]*ai.T{"1": x.l1, "2": x.l2} {
					st.Ghost["down"+l], st.Ghost["under"+l] = ai.Len(st.Norm(t)), ai.Add(ai.Len(st.Norm(t)), -1)
				}
				x.blocks = isPtrTo(t.Elem(), "Directive")
				st.Assume(ai.Eq(at(st, x.l1, x.k, t.Elem()), at(st, x.l2, x.k, t.Elem())), false)
			})
		case *types.Pointer:
			do("in having "+f.Name(), func(x *equalExplorer, st *ai.State) {
				u, v := two(x, st)
				st.Assume(ai.Eq(u, ai.Nil), true)
				st.Assume(ai.Eq(v, ai.Nil), false)
			})
			do("in having "+f.Name()+" (the argument has none)", func(x *equalExplorer, st *ai.State) {
				u, v := two(x, st)
				st.Assume(ai.Eq(u, ai.Nil), false)
				st.Assume(ai.Eq(v, ai.Nil), true)
			})
			do("in what "+f.Name()+" is", func(x *equalExplorer, st *ai.State) {
				u, v := two(x, st)
				st.Assume(ai.Eq(u, ai.Nil), false)
				st.Assume(ai.Eq(v, ai.Nil), false)
				st.Assume(ai.Eq(u, v), false)
				st.Assume(ai.Eq(st.Norm(st.Load(u, t.Elem())), st.Norm(st.Load(v, t.Elem()))), false)
			})
		default:
			do("in "+f.Name(), func(x *equalExplorer, st *ai.State) {
				u, v := two(x, st)
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Bool {
					st.Assume(u, true)
					st.Assume(v, false)
					return
				}
				st.Assume(ai.Eq(u, v), false)
			})
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Bool {
				do("in "+f.Name()+" (of the argument)", func(x *equalExplorer, st *ai.State) {
					u, v := two(x, st)
					st.Assume(u, false)
					st.Assume(v, true)
				})
			}
		}
	}
	for mode := 0; mode < 2; mode++ {
		do("", func(x *equalExplorer, st *ai.State) {
			some(x, st)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if !f.Exported() {
					continue
				}
				u, v := field(st, x.d, stmtT, f.Name()), field(st, x.a, stmtT, f.Name())
				switch t := f.Type().Underlying().(type) {
				case *types.Pointer:
					st.Assume(ai.Eq(u, ai.Nil), mode == 0)
					st.Assume(ai.Eq(v, ai.Nil), mode == 0)
					if mode == 1 {
						st.Assume(ai.Eq(u, v), false)
						st.Assume(ai.Eq(st.Norm(st.Load(u, t.Elem())), st.Norm(st.Load(v, t.Elem()))), true)
					}
				default:
					if b, ok := t.(*types.Basic); ok && b.Kind() == types.Bool {
						st.Assume(u, mode == 0)
					}
					st.Replace(v, u)
					st.Store(ai.FieldAddr(x.a, i), u, f.Type())
				}
			}
		})
	}
	run.events["fields"] = n
	run.need(props, "fields", "different", "equal", "element compared")
	return run
})

// equal is a call of Equal for two directives of the blocks.
func (x *equalExplorer) equal(st *ai.State, c *ai.CallInfo) []ai.Outcome {
	u, v := st.Norm(c.Args[0]), st.Norm(c.Args[1])
	if x.differ == "" || u == v {
		i, j := indexOf(u), indexOf(v)
		if u != v && (i == nil || i != j) {
			x.fail(st, c.Instr, "E01", "pairs", "%s and %s are compared, which are not elements at the same place", show(u), show(v))
			return nil
		}
		return []ai.Outcome{{St: st, Res: ai.True}}
	}
	no := st.Clone()
	out := []ai.Outcome{{St: no, Res: ai.False}}
	if x.apart(st, u, v) {
		out = append(out, ai.Outcome{St: st, Res: ai.True})
	}
	return out
}

// lists compares two lists.
func (x *equalExplorer) lists(st *ai.State, c *ai.CallInfo, fun bool, u, v *ai.T) ([]ai.Outcome, bool) {
	if u == v && !fun || st.Eval(ai.Eq(ai.Len(u), ai.Len(v))) == -1 {
		return []ai.Outcome{{St: st, Res: ai.Bool(u == v)}}, true
	}
	if fun {
		f := c.Args[2]
		if f.K != ai.KFunc || f.Fn != x.fn && !strings.HasPrefix(f.Fn.Synthetic, "thunk for") {
			return nil, false
		}
		if u == v {
			return []ai.Outcome{{St: st, Res: ai.True}}, true
		}
	}
	no := st.Clone()
	out := []ai.Outcome{{St: no, Res: ai.False}}
	if x.k != nil {
		if l1, l2 := st.Norm(x.l1), st.Norm(x.l2); l1 == u && l2 == v || l1 == v && l2 == u {
			return out, true
		}
	}
	return append(out, ai.Outcome{St: st, Res: ai.True}), true
}

func indexOf(t *ai.T) *ai.T {
	if t.Is("index") {
		return t.Args[1]
	}
	return nil
}

// apart notes that two elements are equal, so that they are not those that differ.
func (x *equalExplorer) apart(st *ai.State, u, v *ai.T) bool {
	if x.k == nil || !u.Is("index") || !v.Is("index") {
		return true
	}
	l1, l2 := st.Norm(x.l1), st.Norm(x.l2)
	if !(u.Args[0] == l1 && v.Args[0] == l2 || u.Args[0] == l2 && v.Args[0] == l1) || st.Eval(ai.Eq(u.Args[1], v.Args[1])) != 1 {
		return true
	}
	x.run.events["element compared"]++
	i, k := u.Args[1], st.Norm(x.k)
	if st.Eval(ai.Eq(i, k)) == 1 || !st.Assume(ai.Eq(i, k), false) {
		return false
	}
	// next is the index after the last of the elements from the first on that are equal, and last the one before;
	// down is that of the first of those from the last on, and under the one before.
	if st.Ghost["all"] != nil {
		return true
	}
	near := func(key string, by int64) bool {
		return st.Eval(ai.Eq(i, ai.Add(st.Norm(st.Ghost[key]), by))) == 1
	}
	if near("next", 0) || near("last", 1) {
		st.Ghost["last"], st.Ghost["next"] = i, ai.Add(i, 1)
	}
	for _, l := range []string{"1", "2"} {
		if near("down"+l, -1) || near("under"+l, 0) {
			st.Ghost["down"+l], st.Ghost["under"+l] = i, ai.Add(i, -1)
		}
	}
	return true
}

// covered: all elements were equal.
func (x *equalExplorer) covered(st *ai.State) bool {
	if x.k == nil || st.Ghost["all"] != nil {
		return x.k != nil
	}
	for _, l := range []*ai.T{x.l1, x.l2} {
		n := ai.Len(st.Norm(l))
		if st.Eval(ai.Le(n, st.Norm(st.Ghost["next"]))) == 1 || st.Eval(ai.Le(n, ai.Add(st.Norm(st.Ghost["last"]), 1))) == 1 {
			return true
		}
	}
	for _, l := range []string{"1", "2"} {
		if st.Eval(ai.Le(st.Norm(st.Ghost["down"+l]), ai.Int(0))) == 1 || st.Eval(ai.Lt(st.Norm(st.Ghost["under"+l]), ai.Int(0))) == 1 {
			return true
		}
	}
	return false
}

func (x *equalExplorer) branch(st *ai.State, c *ai.T, val bool, ins *ssa.If) {
	for c.Is("not") {
		c, val = c.Args[0], !val
	}
	if c.Is("eq") && val && !x.apart(st, c.Args[0], c.Args[1]) {
		st.Kill()
	}
}

func (x *equalExplorer) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	r := st.Eval(st.Norm(res[0]))
	if x.differ == "" {
		x.run.events["equal"]++
		if r != 1 {
			x.fail(st, ins, "E01", "equal", "Equal may not return true for directives that are equal")
		}
		return
	}
	x.run.events["different"]++
	if r != -1 && !x.covered(st) {
		x.fail(st, ins, "E01", "different", "Equal may return true for directives that differ %s", x.differ)
	}
}

func init() {
	prodCheck("E01", "abstract interpretation (path-sensitive fixpoint over SSA) of Equal under every hypothesis of a difference, with induction over the trees",
		"Equal is explored for two directives under each hypothesis: they differ in one field, the length of a list, some element of a list; or in nothing.",
		equalAll, "Equal never returns true under a hypothesis of a difference", "Equal always returns true if there is no difference")
}
