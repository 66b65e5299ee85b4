package checks

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// constTerm is the constant value of an expression of the package initialisation: a literal, a list
// of constants, or what a function of the module yields for constants.
func constTerm(p *load.Prog, v ssa.Value) *ai.T {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			return ai.Const(v.Value, v.Type())
		}
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			return ai.List(v.Type())
		}
	case *ssa.ChangeType:
		return constTerm(p, v.X)
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return nil
		}
		arr, ok := deref(a.Type()).Underlying().(*types.Array)
		if !ok {
			return nil
		}
		els := make([]*ai.T, arr.Len())
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				i, ok := r.Index.(*ssa.Const)
				if !ok {
					return nil
				}
				for _, s := range *r.Referrers() {
					st, ok := s.(*ssa.Store)
					if !ok || st.Addr != r {
						return nil
					}
					x := constTerm(p, st.Val)
					if x == nil {
						return nil
					}
					els[i.Int64()] = ai.El(x)
				}
			case *ssa.Slice:
			default:
				return nil
			}
		}
		for i, e := range els {
			if e == nil {
				els[i] = ai.El(ai.ZeroOf(arr.Elem()))
			}
		}
		return ai.List(v.Type(), els...)
	case *ssa.Call:
		fn := v.Call.StaticCallee()
		if fn == nil {
			return nil
		}
		var as []*ai.T
		for _, a := range v.Call.Args {
			x := constTerm(p, a)
			if x == nil {
				return nil
			}
			as = append(as, x)
		}
		return constCall(p, fn, as)
	}
	return nil
}

// constCall is what a function yields for constants, if that is one value.
func constCall(p *load.Prog, fn *ssa.Function, as []*ai.T) *ai.T {
	if len(fn.Blocks) == 0 {
		return nil
	}
	e := newEngine(p)
	e.Module = inModule(p)
	e.MaxStates = 2000
	var res *ai.T
	bad := false
	e.Imprecise = func(st *ai.State, what string, ins ssa.Instruction) { bad = true; e.Stop = true }
	e.Return = func(st *ai.State, rs []*ai.T, ins ssa.Instruction) {
		if len(rs) != 1 {
			bad = true
			return
		}
		r := st.Norm(rs[0])
		if res != nil && res != r {
			bad = true
		}
		res = r
	}
	st := ai.NewState(e)
	e.Start(st, fn, as, nil)
	e.Run(st)
	if bad || e.Overflow {
		return nil
	}
	return res
}

// constMap is the content of a package-level map that is set when the package is initialised.
func constMap(p *load.Prog, g *ssa.Global) map[string]uint64 {
	init := p.RootSSA.Func("init")
	var mk *ssa.MakeMap
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
				m, ok := s.Val.(*ssa.MakeMap)
				if c, isCall := s.Val.(*ssa.Call); isCall && c.Call.StaticCallee() != nil {
					for _, b := range c.Call.StaticCallee().Blocks {
						if r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
							if m2, ok2 := r.Results[0].(*ssa.MakeMap); ok2 && (m == nil || m == m2) {
								m, ok = m2, true
							} else {
								return nil
							}
						}
					}
				}
				if !ok || mk != nil {
					return nil
				}
				mk = m
			}
		}
	}
	if mk == nil {
		return nil
	}
	r := map[string]uint64{}
	for _, u := range *mk.Referrers() {
		switch u := u.(type) {
		case *ssa.MapUpdate:
			k, v := constTerm(p, u.Key), constTerm(p, u.Value)
			if k == nil || v == nil || u.Map != mk {
				return nil
			}
			ks, ok := k.IsStr()
			if !ok || v.K != ai.KConst {
				return nil
			}
			n, ok := constant.Uint64Val(constant.ToInt(v.C))
			if !ok {
				return nil
			}
			if _, dup := r[ks]; dup {
				return nil
			}
			r[ks] = n
		case *ssa.Store, *ssa.Return:
		default:
			return nil
		}
	}
	return r
}

// globalLit is the literal that initialises a package-level variable of the library.
func globalLit(p *load.Prog, name string) (*ast.CompositeLit, token.Pos) {
	for _, f := range p.Root.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, id := range vs.Names {
					if id.Name == name && i < len(vs.Values) {
						cl, _ := ast.Unparen(vs.Values[i]).(*ast.CompositeLit)
						return cl, id.Pos()
					}
				}
			}
		}
	}
	return nil, token.NoPos
}
