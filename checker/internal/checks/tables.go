package checks

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	_ "embed"

	"golang.org/x/tools/go/ssa"

	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"
	"crossplanecheck/internal/tables"
)

//go:embed ref_tables.json
var refTablesJSON []byte

func init() {
	register("T01", checkT01)
	register("T02", checkT02)
	register("T03", checkT03)
}

// matchFns returns the exported functions with the signature of a MatchFunc.
func matchFns(p *load.Prog) []*ssa.Function {
	var r []*ssa.Function
	for _, m := range p.RootSSA.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || !token.IsExported(fn.Name()) || fn.Signature.Recv() != nil {
			continue
		}
		sig := fn.Signature
		if sig.Params().Len() != 1 || sig.Results().Len() != 2 {
			continue
		}
		if sig.Params().At(0).Type().String() != "string" || sig.Results().At(0).Type().String() != "[]uint" ||
			sig.Results().At(1).Type().String() != "bool" {
			continue
		}
		r = append(r, fn)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

// tableOf returns the global map that a match function answers from, if all that it does is to
// look its argument up there and to return both results.
func tableOf(fn *ssa.Function, depth int) (*ssa.Global, error) {
	if depth > 4 {
		return nil, fmt.Errorf("calls nest too deeply")
	}
	if len(fn.Blocks) == 0 {
		return nil, fmt.Errorf("%s has no body", fn.Name())
	}
	var g *ssa.Global
	nret := 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ret, ok := ins.(*ssa.Return)
			if !ok {
				continue
			}
			nret++
			e0, ok0 := ret.Results[0].(*ssa.Extract)
			e1, ok1 := ret.Results[1].(*ssa.Extract)
			if !ok0 || !ok1 || e0.Index != 0 || e1.Index != 1 || e0.Tuple != e1.Tuple {
				return nil, fmt.Errorf("a return of %s does not return the two results of one lookup", fn.Name())
			}
			var gi *ssa.Global
			switch t := e0.Tuple.(type) {
			case *ssa.Lookup:
				u, ok := t.X.(*ssa.UnOp)
				if !ok || t.Index != fn.Params[0] {
					return nil, fmt.Errorf("%s does not look up its argument", fn.Name())
				}
				if gi, ok = u.X.(*ssa.Global); !ok {
					return nil, fmt.Errorf("%s does not look its argument up in a package-level table", fn.Name())
				}
			case *ssa.Call:
				cal := t.Call.StaticCallee()
				if cal == nil {
					return nil, fmt.Errorf("%s calls an unknown function", fn.Name())
				}
				// a helper: lookup(table, name)
				var err error
				if gi, err = viaHelper(t, cal, fn, depth); err != nil {
					return nil, err
				}
			default:
				return nil, fmt.Errorf("%s does not return the results of a lookup", fn.Name())
			}
			if g != nil && g != gi {
				return nil, fmt.Errorf("%s answers from two tables", fn.Name())
			}
			g = gi
		}
	}
	if nret == 0 || g == nil {
		return nil, fmt.Errorf("%s never returns", fn.Name())
	}
	return g, nil
}

func viaHelper(call *ssa.Call, cal, fn *ssa.Function, depth int) (*ssa.Global, error) {
	if len(call.Call.Args) == 1 && call.Call.Args[0] == fn.Params[0] {
		return tableOf(cal, depth+1)
	}
	var g *ssa.Global
	mi, ki := -1, -1
	for i, a := range call.Call.Args {
		if a == fn.Params[0] {
			ki = i
		} else if u, ok := a.(*ssa.UnOp); ok {
			if gg, ok := u.X.(*ssa.Global); ok {
				g, mi = gg, i
			}
		}
	}
	if g == nil || ki < 0 || len(call.Call.Args) != 2 {
		return nil, fmt.Errorf("the helper of %s is not a lookup", fn.Name())
	}
	for _, b := range cal.Blocks {
		for _, ins := range b.Instrs {
			ret, ok := ins.(*ssa.Return)
			if !ok {
				continue
			}
			e0, ok0 := ret.Results[0].(*ssa.Extract)
			e1, ok1 := ret.Results[1].(*ssa.Extract)
			if !ok0 || !ok1 || e0.Index != 0 || e1.Index != 1 || e0.Tuple != e1.Tuple {
				return nil, fmt.Errorf("helper %s does not return the two results of one lookup", cal.Name())
			}
			l, ok := e0.Tuple.(*ssa.Lookup)
			if !ok || l.X != cal.Params[mi] || l.Index != cal.Params[ki] {
				return nil, fmt.Errorf("helper %s is not a lookup of its arguments", cal.Name())
			}
		}
	}
	return g, nil
}

// writersOf returns the instructions outside of package initialisation that may change a table:
// anything that uses the global other than for reading it as the operand of a lookup, a range or len.
func writersOf(p *load.Prog, g *ssa.Global) []ssa.Instruction {
	var r []ssa.Instruction
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if *op != g {
						continue
					}
					if fn.Name() == "init" && fn.Synthetic != "" {
						continue
					}
					u, ok := ins.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						r = append(r, ins)
						continue
					}
					for _, ref := range *u.Referrers() {
						switch x := ref.(type) {
						case *ssa.Lookup, *ssa.Range:
						case *ssa.MapUpdate:
							if x.Map == u {
								r = append(r, ref)
							}
						case *ssa.Call:
							if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
								r = append(r, ref)
							}
						}
					}
				}
			}
		}
	}
	return r
}

type model struct {
	ctx   map[uint64]string // bit -> context
	byFn  map[string]*tables.Table
	lits  map[types.Object]*tables.Table
	other map[types.Object]ast.Expr
	glob  map[string]*ssa.Global
	errs  map[string]error
}

func tablesModel(p *load.Prog) (*model, error) {
	m := &model{byFn: map[string]*tables.Table{}, glob: map[string]*ssa.Global{}, errs: map[string]error{}}
	var err error
	bitNames(p)
	if m.lits, m.other, err = tables.All(p); err != nil {
		return nil, err
	}
	for _, fn := range matchFns(p) {
		g, err := tableOf(fn, 0)
		if err != nil {
			if g2, err2 := lookupTable(p, fn); err2 == nil {
				g, err = g2, nil
			} else if os.Getenv("AIDEBUG") != "" {
				fmt.Fprintln(os.Stderr, fn.Name(), err2)
			}
		}
		if err != nil {
			m.errs[fn.Name()] = err
			continue
		}
		m.glob[fn.Name()] = g
		if t := m.lits[g.Object()]; t != nil {
			m.byFn[fn.Name()] = t
		}
	}
	return m, nil
}

// the behaviour of a mask: the contexts whose bit it has and its argument bits
var ctxNames, argNames map[uint64]string

// the constants of the bits by what they mean
var ctxBits = map[string]string{
	"": "Main", "events": "Event", "mail": "MailMain", "mail>server": "MailSrv",
	"stream": "StreamMain", "stream>server": "StreamSrv", "stream>upstream": "StreamUps", "http": "HTTPMain",
	"http>server": "HTTPSrv", "http>location": "HTTPLoc", "http>upstream": "HTTPUps",
	"http>server>if": "HTTPSif", "http>location>if": "HTTPLif", "http>location>limit_except": "HTTPLmt",
	"mgmt": "MgmtMain", "http>oidc_provider": "HTTPOIDC",
}
var argBits = map[string]string{
	"0": "NoArgs", "1": "Take1", "2": "Take2", "3": "Take3", "4": "Take4", "5": "Take5", "6": "Take6", "7": "Take7",
	"block": "Block", "expr": "Expr", "flag": "Flag", "any": "Any", "1+": "1More", "2+": "2More",
}

// maskConst is the value of a bitmask constant.
func maskConst(p *load.Prog, name string) (uint64, token.Pos) {
	co, ok := p.Root.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, token.NoPos
	}
	v, _ := constant.Uint64Val(constant.ToInt(co.Val()))
	return v, co.Pos()
}

// bitNames reads the bits from the constants of the library.
func bitNames(p *load.Prog) {
	ctxNames, argNames = map[uint64]string{}, map[uint64]string{}
	for c, n := range ctxBits {
		if c == "" {
			c = "main"
		}
		v, _ := maskConst(p, "ngx"+n+"Conf")
		ctxNames[v] = c
	}
	for c, n := range argBits {
		v, _ := maskConst(p, "ngxConf"+n)
		argNames[v] = c
	}
}

func decode(m uint64) string {
	var a, c []string
	for b := uint64(1); b != 0; b <<= 1 {
		if m&b == 0 {
			continue
		}
		if n, ok := argNames[b]; ok {
			a = append(a, n)
		} else if n, ok := ctxNames[b]; ok {
			c = append(c, n)
		}
	}
	sort.Strings(a)
	sort.Strings(c)
	return strings.Join(a, ",") + " in " + strings.Join(c, ",")
}

func decodeSet(ms []uint64) []string {
	seen := map[string]bool{}
	r := []string{}
	for _, m := range ms {
		if d := decode(m); !seen[d] {
			seen[d] = true
			r = append(r, d)
		}
	}
	sort.Strings(r)
	return r
}

// WriteRef writes the reference of the directive tables.
func WriteRef(p *load.Prog, path string) error {
	m, err := tablesModel(p)
	if err != nil {
		return err
	}
	out := map[string]map[string][]string{}
	for fn, t := range m.byFn {
		out[fn] = map[string][]string{}
		for n, ms := range t.Dirs {
			out[fn][n] = decodeSet(ms)
		}
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func checkT01(p *load.Prog, r *rep.R) {
	r.Technique = "SSA def-use query over every match function, constant evaluation of the tables, and a who-may-write query"
	r.Explanation = "Every exported function with the signature of a MatchFunc is resolved to the package-level table whose lookup results it returns; every table is evaluated from the type-checked source; every use of a table outside initialisation is classified."
	r.Rule("each match function returns exactly the two results of a lookup of its argument in one package-level table")
	r.Rule("each table answers for one match function only, has no duplicate or empty entries, and each matched directive has at least one mask and no zero mask")
	r.Rule("no function stores to, updates, deletes from or takes the address of a table after initialisation")
	r.Rule("the default match function answers from the union of the latest NGINX Plus, njs and OpenTelemetry tables")
	m, err := tablesModel(p)
	if err != nil {
		r.Fail("tables", "-", "the tables cannot be evaluated: %v", err)
		return
	}
	owner := map[*ssa.Global]string{}
	for _, fn := range matchFns(p) {
		name := fn.Name()
		r.Count("match functions", 1)
		if err := m.errs[name]; err != nil {
			r.Fail("lookup:"+name, p.Pos(fn.Pos()), "%v", err)
			continue
		}
		r.OK()
		g := m.glob[name]
		r.Check(owner[g] == "", "owner:"+name, p.Pos(fn.Pos()), "%s answers from %s, the table of %s", name, g.Name(), owner[g])
		owner[g] = name
		for _, w := range writersOf(p, g) {
			r.Fail("write:"+g.Name()+":"+w.Parent().String(), p.Pos(w.Pos()), "%s may change the table of %s", w.Parent(), name)
		}
		t := m.byFn[name]
		if t == nil {
			if name != "DefaultDirectivesMatchFunc" {
				r.Fail("table:"+name, p.Pos(fn.Pos()), "%s answers from %s, which is not a table literal", name, g.Name())
			}
			continue
		}
		r.Sample("%s -> %s: %d directives", name, g.Name(), len(t.Dirs))
		for _, d := range t.Names() {
			r.Count("directives", 1)
			ok := len(t.Dirs[d]) > 0 && d != ""
			for _, mk := range t.Dirs[d] {
				ok = ok && mk != 0
			}
			r.Check(ok, "nonzero:"+name+":"+d, p.Pos(t.At[d]), "directive %q of %s has no mask or a zero mask", d, name)
		}
	}
	checkDefault(p, r, m)
	r.Floor("match functions", 19)
	r.Floor("directives", 7500)
}

// checkDefault decides that the default match function answers from the union of three tables.
func checkDefault(p *load.Prog, r *rep.R, m *model) {
	g := m.glob["DefaultDirectivesMatchFunc"]
	if g == nil {
		r.Fail("default", "-", "DefaultDirectivesMatchFunc is not resolved to a table")
		return
	}
	e := m.other[g.Object()]
	call, ok := e.(*ast.CallExpr)
	if !ok {
		r.Fail("default", p.Pos(g.Pos()), "the table of DefaultDirectivesMatchFunc is not initialised by a union of tables")
		return
	}
	want := map[*tables.Table]string{}
	for _, f := range []string{"MatchNginxPlusLatest", "MatchNjsLatest", "MatchOtelLatest"} {
		want[m.byFn[f]] = f
	}
	for _, a := range call.Args {
		id, ok := ast.Unparen(a).(*ast.Ident)
		if !ok {
			r.Fail("default:arg", p.Pos(a.Pos()), "an argument of the union is not a table")
			continue
		}
		t := m.lits[p.Root.TypesInfo.Uses[id]]
		if !r.Check(t != nil && want[t] != "", "default:arg:"+id.Name, p.Pos(a.Pos()), "the default table includes %s", id.Name) {
			continue
		}
		delete(want, t)
	}
	for _, f := range want {
		r.Fail("default:missing:"+f, p.Pos(e.Pos()), "the default table lacks the directives of %s", f)
	}
	// the union must not depend on the order of its operands
	var fs = []string{"MatchNginxPlusLatest", "MatchNjsLatest", "MatchOtelLatest"}
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			for d, a := range m.byFn[fs[i]].Dirs {
				if b, ok := m.byFn[fs[j]].Dirs[d]; ok && fmt.Sprint(decodeSet(a)) != fmt.Sprint(decodeSet(b)) {
					r.Fail("default:overlap:"+d, p.Pos(e.Pos()), "%q is defined differently by %s and %s: one definition is lost in the union", d, fs[i], fs[j])
				}
			}
			r.OK()
		}
	}
}

type genConfig struct {
	Filter           []string
	Override         map[string][][]string
	DirectiveMapName string
	MatchFuncName    string
}

func checkT02(p *load.Prog, r *rep.R) {
	r.Technique = "cross-check of the evaluated tables against the generator configurations"
	r.Explanation = "Every generator configuration under scripts/generate/configs is read and compared with the evaluated table it names: map and match function exist and belong together, no filtered directive is defined, every override is present with exactly its masks."
	r.Rule("for each configuration: the match function answers from the named table, filtered directives are absent, overridden directives have exactly the overriding masks, named masks are declared constants")
	m, err := tablesModel(p)
	if err != nil {
		r.Fail("tables", "-", "the tables cannot be evaluated: %v", err)
		return
	}
	files, _ := filepath.Glob(filepath.Join(p.Dir, "scripts/generate/configs/*.json"))
	for _, f := range files {
		base := filepath.Base(f)
		b, err := os.ReadFile(f)
		var c genConfig
		if err == nil {
			err = json.Unmarshal(b, &c)
		}
		if err != nil {
			r.Fail("config:"+base, base, "unreadable: %v", err)
			continue
		}
		r.Count("configurations", 1)
		t := m.byFn[c.MatchFuncName]
		if !r.Check(t != nil, "fn:"+base, base, "match function %s of the configuration does not answer from a table", c.MatchFuncName) {
			continue
		}
		r.Check(t.Name == c.DirectiveMapName, "map:"+base, p.Pos(t.Pos), "%s answers from %s, the configuration generates %s", c.MatchFuncName, t.Name, c.DirectiveMapName)
		for _, d := range c.Filter {
			r.Count("filters", 1)
			_, found := t.Dirs[d]
			r.Check(!found, "filter:"+base+":"+d, p.Pos(t.Pos), "%q is filtered by %s but defined by %s", d, base, c.MatchFuncName)
		}
		var ds []string
		for d := range c.Override {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		for _, d := range ds {
			r.Count("overrides", 1)
			var want []uint64
			bad := false
			for _, names := range c.Override[d] {
				var v uint64
				for _, n := range names {
					co, ok := p.Root.Types.Scope().Lookup(n).(*types.Const)
					if !ok {
						r.Fail("const:"+base+":"+n, base, "mask %s of %q is not a constant of the package", n, d)
						bad = true
						continue
					}
					u, _ := constant.Uint64Val(constant.ToInt(co.Val()))
					v |= u
				}
				want = append(want, v)
			}
			if bad {
				continue
			}
			got, ok := t.Dirs[d]
			if !r.Check(ok, "override:"+base+":"+d, p.Pos(t.Pos), "%q is overridden by %s but not defined by %s", d, base, c.MatchFuncName) {
				continue
			}
			r.Check(fmt.Sprint(decodeSet(got)) == fmt.Sprint(decodeSet(want)), "override:"+base+":"+d, p.Pos(t.At[d]),
				"%q of %s is %v, %s overrides it with %v", d, c.MatchFuncName, decodeSet(got), base, decodeSet(want))
			r.Sample("%s %s = %v", base, d, decodeSet(got))
		}
	}
	r.Floor("configurations", 16)
	r.Floor("filters", 250)
	r.Floor("overrides", 200)
}

func checkT03(p *load.Prog, r *rep.R) {
	r.Technique = "constant evaluation of the tables and comparison with a reference decoded to behaviour (contexts and argument forms)"
	r.Explanation = "Every table is evaluated from the type-checked source and decoded to the contexts and argument forms it admits; each directive of each match function is compared with the reference confirmed on the reviewed tree, and across versions and siblings, with the exceptions frozen in the reference."
	r.Rule("each match function knows exactly the directives of its reference, each with exactly the reference's (contexts, argument forms) pairs")
	var ref map[string]map[string][]string
	if err := json.Unmarshal(refTablesJSON, &ref); err != nil {
		r.Fail("ref", "-", "%v", err)
		return
	}
	m, err := tablesModel(p)
	if err != nil {
		r.Fail("tables", "-", "the tables cannot be evaluated: %v", err)
		return
	}
	var fns []string
	for f := range ref {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	for _, f := range fns {
		t := m.byFn[f]
		if !r.Check(t != nil, "fn:"+f, "-", "%s does not answer from a table", f) {
			continue
		}
		r.Count("match functions", 1)
		for d, want := range ref[f] {
			r.Count("directives", 1)
			got, ok := t.Dirs[d]
			if !r.Check(ok, f+":"+d, p.Pos(t.Pos), "%s does not know %q", f, d) {
				continue
			}
			g := decodeSet(got)
			if !r.Check(strings.Join(g, "; ") == strings.Join(want, "; "), f+":"+d, p.Pos(t.At[d]), "%s accepts %q as [%s], expected [%s]", f, d, strings.Join(g, "; "), strings.Join(want, "; ")) {
				continue
			}
			if len(d)%9 == 0 {
				r.Sample("%s %s: %s", f, d, strings.Join(g, "; "))
			}
		}
		for _, d := range t.Names() {
			if _, ok := ref[f][d]; !ok {
				r.Fail(f+":"+d, p.Pos(t.At[d]), "%s accepts %q, which its NGINX version or module does not define", f, d)
			}
		}
	}
	r.Floor("match functions", 18)
	r.Floor("directives", 7500)
}
