package checks

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"

	"golang.org/x/tools/go/ssa"
)

// facts are the package-level values that never change after initialisation.
type facts struct {
	vals   map[string]*ai.T // address term -> value
	nonnil map[string]bool
}

var factsOf = map[*load.Prog]*facts{}

func globals(p *load.Prog) *facts {
	if f, ok := factsOf[p]; ok {
		return f
	}
	f := &facts{vals: map[string]*ai.T{}, nonnil: map[string]bool{}}
	factsOf[p] = f
	stores := map[*ssa.Global][]*ssa.Store{}
	other := map[*ssa.Global]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					if g, ok := i.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], i)
						continue
					}
				case *ssa.UnOp:
					continue
				case *ssa.DebugRef:
					continue
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						other[g] = true
					}
				}
			}
		}
	}
	var value func(v ssa.Value) *ai.T
	value = func(v ssa.Value) *ai.T {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value != nil {
				return ai.Const(v.Value, v.Type())
			}
			return ai.ZeroOf(v.Type())
		case *ssa.Function:
			return ai.FnVal(v)
		case *ssa.ChangeType:
			return value(v.X)
		case *ssa.Call:
			if fn := v.Call.StaticCallee(); fn != nil {
				if fn.String() == "strings.Repeat" {
					a, b := value(v.Call.Args[0]), value(v.Call.Args[1])
					if a != nil && b != nil {
						s, ok1 := a.IsStr()
						n, ok2 := b.IsInt()
						if ok1 && ok2 && n >= 0 && n < 100000 {
							return ai.Str(strings.Repeat(s, int(n)))
						}
					}
				}
			}
		}
		return nil
	}
	for g, ss := range stores {
		if len(ss) != 1 || other[g] || !isInit(ss[0].Parent()) {
			continue
		}
		name := ai.Named("&"+g.String(), g.Type()).String()
		if v := value(ss[0].Val); v != nil {
			f.vals[name] = v
		}
		switch v := ss[0].Val.(type) {
		case *ssa.Function, *ssa.MakeClosure, *ssa.MakeMap, *ssa.Alloc:
			f.nonnil[name] = true
		case *ssa.Call:
			if fn := v.Call.StaticCallee(); fn != nil {
				switch fn.String() {
				case "regexp.MustCompile", "errors.New", "fmt.Errorf":
					f.nonnil[name] = true
				}
				if fn.Pkg == g.Pkg && returnsFresh(fn) {
					f.nonnil[name] = true
				}
			}
		}
	}
	return f
}

// returnsFresh tells whether every return of fn is a fresh map or object.
func returnsFresh(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok {
				n++
				switch r.Results[0].(type) {
				case *ssa.MakeMap, *ssa.Alloc:
				default:
					return false
				}
			}
		}
	}
	return n > 0
}

func isInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#")
}

// inModule are the functions whose bodies are interpreted.
func inModule(p *load.Prog) func(*ssa.Function) bool {
	m := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		m[f] = true
	}
	return func(f *ssa.Function) bool { return m[f] }
}

// newEngine returns an engine for the module with the facts about its globals.
func newEngine(p *load.Prog) *ai.Engine {
	e := ai.NewEngine(p.SSA, inModule(p))
	safetyOf(p).engines = append(safetyOf(p).engines, e)
	watchWrites(p, e)
	g := globals(p)
	e.Global = func(addr *ai.T) *ai.T { return g.vals[addr.String()] }
	e.NonNil = func(t *ai.T) bool {
		switch {
		case t.Is("load") && t.Args[0].K == ai.KSym:
			return g.nonnil[t.Args[0].String()]
		case t.Is("load") && t.Args[0].Is("field"):
			return t.Typ != nil && mapField(p, t.Args[0])
		case t.Is("index"): // lists of statements hold no nil
			return t.Typ != nil && isNamed(t.Typ, "Directive")
		}
		return strings.HasPrefix(t.Op, "as:*") // errors are not nil pointers
	}
	return e
}

var mapFields = map[*load.Prog]map[string]bool{}

// mapField tells whether the addressed field is a map of an internal struct that is made with every struct.
func mapField(p *load.Prog, addr *ai.T) bool {
	base := addr.Args[0]
	if base.Typ == nil {
		return false
	}
	pt, ok := base.Typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	i, ok := addr.Args[1].IsInt()
	if !ok {
		return false
	}
	m := mapFields[p]
	if m == nil {
		m = madeMaps(p)
		mapFields[p] = m
	}
	return m[fmt.Sprint(pt.Elem().String(), i)]
}

// madeMaps are the fields of internal structs that hold a map from the allocation of the struct on.
func madeMaps(p *load.Prog) map[string]bool {
	m := map[string]bool{}
	key := func(t types.Type, i int) string { return fmt.Sprint(t.String(), i) }
	sc := p.RootSSA.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.Exported() {
			continue
		}
		if s, ok := tn.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
					m[key(tn.Type(), i)] = true
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch v := ins.(type) {
				case *ssa.Store:
					if f, ok := v.Addr.(*ssa.FieldAddr); ok {
						if _, ok := v.Val.(*ssa.MakeMap); !ok {
							m[key(f.X.Type().Underlying().(*types.Pointer).Elem(), f.Field)] = false
						}
					} else if s, ok := v.Val.Type().Underlying().(*types.Struct); ok { // a whole struct is stored
						if _, ok := v.Val.(*ssa.UnOp); !ok {
							for i := 0; i < s.NumFields(); i++ {
								m[key(v.Val.Type(), i)] = false
							}
						}
					}
				case *ssa.Alloc:
					t := v.Type().Underlying().(*types.Pointer).Elem()
					s, ok := t.Underlying().(*types.Struct)
					if !ok {
						continue
					}
					set := map[int]bool{}
					for _, o := range b.Instrs {
						if st, ok := o.(*ssa.Store); ok {
							if _, ok := st.Val.(*ssa.UnOp); ok && st.Addr == v {
								for i := 0; i < s.NumFields(); i++ {
									set[i] = true
								}
							}
							if f, ok := st.Addr.(*ssa.FieldAddr); ok && f.X == v {
								set[f.Field] = true
							}
						}
					}
					for i := 0; i < s.NumFields(); i++ {
						if !set[i] {
							m[key(t, i)] = false
						}
					}
				}
			}
		}
	}
	return m
}

// args makes named inputs for the parameters of a function.
func args(fn *ssa.Function) []*ai.T {
	var r []*ai.T
	for _, p := range fn.Params {
		r = append(r, ai.Named(p.Name(), p.Type()))
	}
	return r
}

func pos(p *load.Prog, ins ssa.Instruction) string { return p.Pos(ai.Pos(ins)) }

// Try runs the engine on one function and prints what it finds.
func Try(p *load.Prog, name string) {
	var fn *ssa.Function
	for _, f := range p.Funcs {
		if f.String() == name || f.Name() == name {
			fn = f
			break
		}
	}
	if fn == nil {
		fmt.Println("no function", name)
		return
	}
	e := newEngine(p)
	e.Debug = os.Getenv("AIDEBUG") != ""
	st := ai.NewState(e)
	fails := map[string]bool{}
	oks := 0
	e.Obligation = func(st *ai.State, kind string, ok bool, ins ssa.Instruction, d string) {
		if ok {
			oks++
			return
		}
		k := fmt.Sprintf("%s %s: %s", pos(p, ins), kind, d)
		if !fails[k] {
			fails[k] = true
			fmt.Println("FAIL", k)
			for _, l := range st.Path() {
				fmt.Println("      ", l)
			}
		}
	}
	rets := map[string]int{}
	e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) { rets[fmt.Sprint(res)]++ }
	e.Imprecise = func(st *ai.State, what string, ins ssa.Instruction) { fmt.Println("IMPRECISE", pos(p, ins), what) }
	ext := map[string]int{}
	e.Ext = func(st *ai.State, c *ai.CallInfo) { ext[c.Name]++ }
	e.Start(st, fn, symbolic(st, fn), nil)
	e.Run(st)
	fmt.Println("states", e.States, "joins", e.Joins, "visited", len(e.Visited), "steps", e.Steps, "overflow", e.Overflow, "ok obligations", oks)
	var ks []string
	for k, n := range rets {
		ks = append(ks, fmt.Sprintf("%5d %s", n, k))
	}
	sort.Strings(ks)
	if len(ks) > 40 {
		ks = ks[:40]
	}
	for _, k := range ks {
		if len(k) > 500 {
			k = k[:500]
		}
		fmt.Println("return", k)
	}
	fmt.Println("external", ext)
}

// symbolic makes inputs; structs passed by value are decomposed.
func symbolic(st *ai.State, fn *ssa.Function) []*ai.T {
	var r []*ai.T
	for _, p := range fn.Params {
		r = append(r, namedOf(p.Name(), p.Type()))
	}
	return r
}

func namedOf(name string, t types.Type) *ai.T {
	if s, ok := t.Underlying().(*types.Struct); ok && !ai.Opaque(t) {
		var fs []*ai.T
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, namedOf(name+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return ai.StructVal(t, fs...)
	}
	return ai.Named(name, t)
}

var _ = rep.New
