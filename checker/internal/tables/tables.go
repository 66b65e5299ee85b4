// Package tables evaluates the directive tables (package-level maps from a directive name to its
// bit masks) and the match functions over them, from the type-checked source.
package tables

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"crossplanecheck/internal/load"
)

// Table is one composite literal of type map[string][]uint.
type Table struct {
	Name string
	Obj  types.Object
	Pos  token.Pos
	Dirs map[string][]uint64
	At   map[string]token.Pos
	Dups []string
}

// Names returns the directive names in order.
func (t *Table) Names() []string {
	var r []string
	for k := range t.Dirs {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func isMaskTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	if b, ok := m.Key().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint
}

// All returns every package-level mask table of the root package that is initialised by a literal,
// keyed by its object, and the other mask-table variables with their initialiser expressions.
func All(p *load.Prog) (lits map[types.Object]*Table, others map[types.Object]ast.Expr, err error) {
	lits = map[types.Object]*Table{}
	others = map[types.Object]ast.Expr{}
	info := p.Root.TypesInfo
	for _, f := range p.Root.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, id := range vs.Names {
					obj := info.Defs[id]
					if obj == nil || !isMaskTable(obj.Type()) || i >= len(vs.Values) {
						continue
					}
					cl, ok := ast.Unparen(vs.Values[i]).(*ast.CompositeLit)
					if !ok {
						others[obj] = vs.Values[i]
						continue
					}
					t, err := Eval(info, cl)
					if err != nil {
						return nil, nil, fmt.Errorf("%s: %w", p.Pos(cl.Pos()), err)
					}
					t.Name, t.Obj, t.Pos = id.Name, obj, id.Pos()
					lits[obj] = t
				}
			}
		}
	}
	return lits, others, nil
}

// Eval evaluates a map[string][]uint literal.
func Eval(info *types.Info, cl *ast.CompositeLit) (*Table, error) {
	t := &Table{Dirs: map[string][]uint64{}, At: map[string]token.Pos{}}
	for _, e := range cl.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return nil, fmt.Errorf("entry is not a key-value pair")
		}
		k := info.Types[kv.Key].Value
		if k == nil || k.Kind() != constant.String {
			return nil, fmt.Errorf("key is not a constant string")
		}
		name := constant.StringVal(k)
		v, ok := ast.Unparen(kv.Value).(*ast.CompositeLit)
		if !ok {
			return nil, fmt.Errorf("value of %q is not a literal", name)
		}
		masks := []uint64{}
		for _, m := range v.Elts {
			c := info.Types[m].Value
			if c == nil {
				return nil, fmt.Errorf("a mask of %q is not constant", name)
			}
			u, ok := constant.Uint64Val(constant.ToInt(c))
			if !ok {
				return nil, fmt.Errorf("a mask of %q is not an unsigned integer", name)
			}
			masks = append(masks, u)
		}
		if _, dup := t.Dirs[name]; dup {
			t.Dups = append(t.Dups, name)
		}
		t.Dirs[name] = masks
		t.At[name] = kv.Pos()
	}
	return t, nil
}
