package checks

import (
	"fmt"
	"go/types"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"

	"golang.org/x/tools/go/ssa"
)

// The memory that is written: at every store, map assignment, append, copy, delete and sort of every
// exploration, the written memory must not be reachable from what the caller passed or from a package-level
// variable.

// rootOf is what memory was reached from; opt is the options field that it was read from on the way.
func rootOf(t *ai.T) (root *ai.T, opt string) {
	for {
		if t.Is("load") && t.Args[0].Is("field") {
			if f := optionField(t.Args[0]); f != "" {
				opt = f
			}
		}
		n := step(t)
		if n == nil {
			return t, opt
		}
		t = n
	}
}

// optionField is the exported field of options that an address is of.
func optionField(a *ai.T) string {
	b := a.Args[0]
	if b.Typ == nil {
		return ""
	}
	pt, ok := b.Typ.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || !strings.HasSuffix(n.Obj().Name(), "Options") || !n.Obj().Exported() {
		return ""
	}
	s, ok := n.Underlying().(*types.Struct)
	i, isInt := a.Args[1].IsInt()
	if !ok || !isInt || int(i) >= s.NumFields() || !s.Field(int(i)).Exported() {
		return ""
	}
	return n.Obj().Name() + "." + s.Field(int(i)).Name()
}

type memory struct {
	bad    map[string]problem
	writes int
	at     map[ssa.Instruction]bool
}

var memories = map[*load.Prog]*memory{}

func memoryOf(p *load.Prog) *memory {
	m := memories[p]
	if m == nil {
		m = &memory{bad: map[string]problem{}, at: map[ssa.Instruction]bool{}}
		memories[p] = m
	}
	return m
}

// watchWrites records the writes of an exploration that no caller may see.
func watchWrites(p *load.Prog, e *ai.Engine) {
	m := memoryOf(p)
	e.OnWrite = func(st *ai.State, t *ai.T, ins ssa.Instruction) {
		m.writes++
		m.at[ins] = true
		root, opt := rootOf(t)
		what := ""
		switch {
		case opt != "":
			what = "memory of the field " + opt + " of the caller's options is written"
		case root.K == ai.KSym && root.Num < 0 && strings.HasPrefix(root.Op, "&") && !setter(ins.Parent()) && !once(ins.Parent()):
			what = "the package-level variable " + strings.TrimPrefix(root.Op, "&") + " or what it refers to is written"
		default:
			return
		}
		m.add(st, p, ins, what)
	}
}

func (m *memory) add(st *ai.State, p *load.Prog, ins ssa.Instruction, what string) {
	k := pos(p, ins)
	if _, ok := m.bad[k+what]; !ok {
		m.bad[k+what] = problem{"X02", "write:" + ins.Parent().String() + ":" + what, k, what, st.Path()}
	}
}

// guard forbids an exploration to write to memory that is reached from some values; strict forbids it
// for every parameter and every result of a call.
func guard(p *load.Prog, e *ai.Engine, what string, strict bool, roots ...*ai.T) {
	guardIf(p, e, what, func(t *ai.T) bool {
		for _, r := range roots {
			if t == r {
				return true
			}
		}
		return strict && (t.K == ai.KSym && t.Num < 0 || strings.HasPrefix(t.Op, "call:"))
	})
}

// guardIf forbids an exploration to write to memory that is reached from values of a kind.
func guardIf(p *load.Prog, e *ai.Engine, what string, is func(t *ai.T) bool) {
	m := memoryOf(p)
	prev := e.OnWrite
	e.OnWrite = func(st *ai.State, t *ai.T, ins ssa.Instruction) {
		if prev != nil {
			prev(st, t, ins)
		}
		if anyRoot(t, is) {
			m.add(st, p, ins, what)
		}
	}
}

// anyRoot tells whether memory was reached from a value of a kind, at any step.
func anyRoot(t *ai.T, is func(t *ai.T) bool) bool {
	for {
		if is(t) {
			return true
		}
		n := step(t)
		if n == nil {
			return false
		}
		t = n
	}
}

// step is what memory was reached from directly.
func step(t *ai.T) *ai.T {
	if t.K == ai.KApp && len(t.Args) > 0 && (t.Is("load") || t.Is("field") || t.Is("elem") || t.Is("index") || t.Is("subslice") || t.Is("arrslice") || t.Is("sorted") ||
		t.Is("copied") || t.Is("upd") || t.Is("fieldof") || t.Is("mget") || t.Is("mload") || strings.HasPrefix(t.Op, "iface:") || strings.HasPrefix(t.Op, "as:")) {
		return t.Args[0]
	}
	return nil
}

func init() {
	register("X02", func(p *load.Prog, r *rep.R) {
		r.Technique = "abstract interpretation (path-sensitive fixpoint over SSA) with an effect check at every write; flow-insensitive origin analysis of slices that are reused"
		r.Explanation = "In all explorations of the other properties, the memory that every store, map assignment, append, copy, delete and sort writes is traced back to what it was reached from: it must not be the caller's (options, payloads, configs, directives, results of match functions) nor a package-level variable. Every other function is searched for writes to package-level variables, and all of them for slices of foreign memory that are cut and appended to."
		r.Rule("no write reaches memory of a caller of the library, except of a receiver whose method is made to change it")
		r.Rule("no write outside initialisation reaches a package-level variable")
		r.Rule("no list that was cut off from memory of others is appended to")
		exploreAll(p)
		m := memoryOf(p)
		for ins := range m.at {
			_ = ins
			r.OK()
		}
		r.Count("writes judged in a state", m.writes)
		r.Count("write instructions judged", len(m.at))
		r.Floor("write instructions judged", 60)
		for _, k := range sortedKeys(m.bad) {
			q := m.bad[k]
			r.FailTrace(q.key, q.pos, q.trace, "%s", q.msg)
		}
		globalWrites(p, r)
		reusedSlices(p, r)
	})
}

// globalWrites finds writes through package-level variables, in every function, without regard to paths.
func globalWrites(p *load.Prog, r *rep.R) {
	for _, fn := range p.Funcs {
		pkgFuncs[fn.Pkg] = append(pkgFuncs[fn.Pkg], fn)
	}
	for _, fn := range p.Funcs {
		if fn.Pkg != p.RootSSA || setter(fn) {
			continue
		}
		if once(fn) {
			continue // initialisation when it is needed
		}
		r.Count("functions searched", 1)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var a ssa.Value
				switch i := ins.(type) {
				case *ssa.Store:
					a = i.Addr
				case *ssa.MapUpdate:
					a = i.Map
				case *ssa.Call:
					if bi, ok := i.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") {
						a = i.Call.Args[0]
					}
				}
				if a == nil {
					continue
				}
				r.OK()
				if g := globalOf(a, map[ssa.Value]bool{}); g != nil {
					r.Fail("global:"+fn.String()+":"+g.Name(), pos(p, ins), "%s writes to the package-level variable %s or what it refers to", fn.Name(), g.Name())
				}
			}
		}
	}
}

// setter tells whether a function is made to set a variable of the package.
func setter(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Name(), "init") || strings.HasPrefix(fn.Name(), "Set") && fn.Signature.Recv() == nil
}

// once tells whether a closure is only run by package sync, at most once.
func once(fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return false
	}
	n := 0
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			c, isCall := ins.(ssa.CallInstruction)
			for _, o := range ins.Operands(nil) {
				v := *o
				if m, ok := v.(*ssa.MakeClosure); ok {
					v = m.Fn
				}
				if v != ssa.Value(fn) {
					continue
				}
				if _, ok := ins.(*ssa.MakeClosure); ok {
					continue
				}
				f := (*ssa.Function)(nil)
				if isCall {
					f = c.Common().StaticCallee()
				}
				if f == nil || f == fn || !(strings.HasPrefix(f.String(), "(*sync.Once).") || strings.HasPrefix(f.String(), "sync.Once")) {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

// globalOf is the package-level variable that a value surely comes from.
func globalOf(v ssa.Value, seen map[ssa.Value]bool) *ssa.Global {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalOf(x.X, seen)
	case *ssa.IndexAddr:
		return globalOf(x.X, seen)
	case *ssa.Slice:
		return globalOf(x.X, seen)
	case *ssa.UnOp:
		if g := globalOf(x.X, seen); g != nil {
			return g
		}
		// what is stored in this field of any value
		f, ok := x.X.(*ssa.FieldAddr)
		if !ok || !isReference(x.Type()) {
			return nil
		}
		for _, v := range fieldStores(x.Parent().Pkg, f) {
			if g := globalOf(v, seen); g != nil {
				return g
			}
		}
	case *ssa.ChangeType:
		return globalOf(x.X, seen)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return globalOf(x.X, seen)
		}
	case *ssa.Extract:
		return globalOf(x.Tuple, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := globalOf(e, seen); g != nil {
				return g
			}
		}
	}
	return nil
}

func isReference(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer:
		return true
	}
	return false
}

// fieldStores are the values that functions of a package store in a field.
func fieldStores(pkg *ssa.Package, f *ssa.FieldAddr) []ssa.Value {
	var r []ssa.Value
	for _, fn := range fieldFuncs(pkg) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.FieldAddr); ok && g.Field == f.Field && types.Identical(g.X.Type(), f.X.Type()) {
						r = append(r, s.Val)
					}
				}
			}
		}
	}
	return r
}

var pkgFuncs = map[*ssa.Package][]*ssa.Function{}

func fieldFuncs(pkg *ssa.Package) []*ssa.Function { return pkgFuncs[pkg] }

// reusedSlices finds appends to x[:n] where x is memory of others.
func reusedSlices(p *load.Prog, r *rep.R) {
	for _, fn := range p.Funcs {
		if fn.Pkg != p.RootSSA {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
					continue
				}
				r.OK()
				r.Count("appends", 1)
				if o := callers(c.Call.Args[0], map[ssa.Value]bool{}); o != "" {
					r.Fail("append:"+fn.String(), pos(p, ins), "append may write behind the end of %s, which belongs to the caller", o)
				}
				for _, s := range cuts(c.Call.Args[0], map[ssa.Value]bool{}) {
					if o := foreign(s.X, map[ssa.Value]bool{}); o != "" {
						r.Fail("reuse:"+fn.String(), pos(p, ins), "a list is appended to that was cut off from %s: its elements are overwritten", o)
					}
				}
			}
		}
	}
}

// callers describes a list that was read from options or got from a callback.
func callers(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.ChangeType:
		return callers(x.X, seen)
	case *ssa.Extract:
		return callers(x.Tuple, seen)
	case *ssa.Slice:
		if x.Max == nil {
			return callers(x.X, seen)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if o := callers(e, seen); o != "" {
				return o
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return callers(x.Call.Args[0], seen)
		} else if !ok && x.Call.StaticCallee() == nil {
			return fmt.Sprintf("the result of %s", x.Call.Value.Name())
		}
	case *ssa.UnOp:
		f, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		n, ok := types.Unalias(deref(f.X.Type())).(*types.Named)
		if !ok || !n.Obj().Exported() || !strings.HasSuffix(n.Obj().Name(), "Options") || !n.Underlying().(*types.Struct).Field(f.Field).Exported() {
			return ""
		}
		// a field of a copy that was set belongs to the library
		for _, b := range x.Parent().Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.FieldAddr); ok && g.Field == f.Field && types.Identical(g.X.Type(), f.X.Type()) {
						return ""
					}
				}
			}
		}
		return "the field " + fieldName(n, f.Field) + " of " + n.Obj().Name()
	}
	return ""
}

func cuts(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Slice {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		if x.High != nil && x.Max == nil {
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return []*ssa.Slice{x}
			}
		}
		return cuts(x.X, seen)
	case *ssa.Phi:
		var r []*ssa.Slice
		for _, e := range x.Edges {
			r = append(r, cuts(e, seen)...)
		}
		return r
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return cuts(x.Call.Args[0], seen)
		}
	}
	return nil
}

// foreign describes memory that the function did not make, or is empty.
func foreign(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		return "the parameter " + x.Name()
	case *ssa.FreeVar:
		return "the variable " + x.Name()
	case *ssa.Global:
		return "the variable " + x.Name()
	case *ssa.Slice:
		return foreign(x.X, seen)
	case *ssa.ChangeType:
		return foreign(x.X, seen)
	case *ssa.Extract:
		return foreign(x.Tuple, seen)
	case *ssa.Lookup:
		return foreign(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if o := foreign(e, seen); o != "" {
				return o
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" {
				return foreign(x.Call.Args[0], seen)
			}
			return ""
		}
		f := x.Call.StaticCallee()
		if f == nil {
			return fmt.Sprintf("the result of %s", x.Call.Value.Name())
		}
		// a function of the package that returns memory of a variable, or of one of its arguments
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && f.Pkg == x.Parent().Pkg {
				for _, res := range ret.Results {
					if _, ok := res.Type().Underlying().(*types.Slice); !ok {
						continue
					}
					if o := foreign(res, seen); o != "" && !strings.HasPrefix(o, "the parameter") {
						return o
					}
				}
			}
		}
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Global:
			return "the variable " + a.Name()
		case *ssa.FieldAddr:
			// of a parameter: memory of a caller, if it is an exported struct
			if n, ok := types.Unalias(deref(a.X.Type())).(*types.Named); ok && n.Obj().Exported() && foreign(a.X, seen) != "" {
				return "the field " + fieldName(n, a.Field) + " of " + n.Obj().Name()
			}
		case *ssa.IndexAddr:
			return foreign(a.X, seen)
		}
	}
	return ""
}

func fieldName(n *types.Named, i int) string {
	if s, ok := n.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return "?"
}
