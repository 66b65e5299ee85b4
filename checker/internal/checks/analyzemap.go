package checks

import (
	"go/ast"
	"go/constant"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"

	"golang.org/x/tools/go/ssa"
)

// checkContexts checks the table of contexts.
func checkContexts(p *load.Prog, r *rep.R) {
	r.Rule("the bitmasks of contexts and argument styles are distinct single bits, contexts above argument styles; NoArgs to Take7 are bits 0 to 7")
	r.Rule("the table of contexts has exactly the contexts of nginx, each with its bit, and is never written")
	var all uint64
	check := func(name string, low bool) uint64 {
		v, at := maskConst(p, name)
		r.Check(bits.OnesCount64(v) == 1 && all&v == 0, "bit:"+name, p.Pos(at), "%s (%#x) is not a single bit of its own", name, v)
		r.Check(v < 1<<16 == low, "range:"+name, p.Pos(at), "%s (%#x) is not in the range of its kind", name, v)
		all |= v
		return v
	}
	var names []string
	for n := range argBits {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		v := check("ngxConf"+argBits[n], true)
		if k := strings.Index("01234567", n); len(n) == 1 && k >= 0 {
			r.Check(v == 1<<uint(k), "count:"+n, "-", "the bit for %s arguments is %#x", n, v)
		}
	}
	names = names[:0]
	want := map[string]uint64{}
	for c, n := range ctxBits {
		names = append(names, c)
		want[c] = 0
		_ = n
	}
	sort.Strings(names)
	for _, c := range names {
		want[c] = check("ngx"+ctxBits[c]+"Conf", false)
	}
	g := contextTable(p)
	if g == nil {
		r.Fail("contexts", "-", "the table of contexts was not found")
		return
	}
	for _, w := range writersOf(p, g) {
		r.Fail("written", pos(p, w), "the table of contexts is changed by %s", w.Parent())
	}
	got := constMap(p, g)
	if got == nil {
		r.Fail("undecided:contexts", p.Pos(g.Pos()), "undecided: the table of contexts is not a constant map")
		return
	}
	sep := keySep(p)
	r.Check(sep != "" && !strings.ContainsAny(sep, "abcdefghijklmnopqrstuvwxyz_"), "separator", p.Pos(g.Pos()), "the names of blocks are joined with %q", sep)
	seen := map[string]bool{}
	for k, v := range got {
		c := strings.ReplaceAll(k, sep, ">")
		w, ok := want[c]
		seen[c] = true
		r.Check(ok, "extra:"+c, p.Pos(g.Pos()), "there is a context %q", k)
		if ok {
			r.Check(w == v, "mask:"+c, p.Pos(g.Pos()), "the bitmask of the context %q is %#x, not that of %s", k, v, "ngx"+ctxBits[c]+"Conf")
			r.Sample("context %q = %#x", k, v)
		}
	}
	for _, c := range names {
		r.Check(seen[c], "missing:"+c, p.Pos(g.Pos()), "the context %q is missing", c)
	}
	r.Count("contexts", len(got))
	r.Floor("contexts", 16)
}

// mapTable finds the table of map-like blocks: its variable, and the fields for special parameters
// and for the default.
func mapTable(p *load.Prog) (g *ssa.Global, special, def int) {
	for _, m := range p.RootSSA.Members {
		gl, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		t, ok := deref(gl.Type()).Underlying().(*types.Map)
		if !ok || t.Key().Underlying().String() != "string" {
			continue
		}
		s, ok := t.Elem().Underlying().(*types.Struct)
		if !ok || s.NumFields() != 2 {
			continue
		}
		special, def = -1, -1
		for i := 0; i < 2; i++ {
			switch s.Field(i).Type().Underlying().String() {
			case "map[string]uint":
				special = i
			case "uint":
				def = i
			}
		}
		if special >= 0 && def >= 0 {
			if g != nil {
				return nil, 0, 0
			}
			g = gl
		}
	}
	return
}

// the parameters of map-like blocks: how many arguments special parameters and others have
var mapRef = map[string]string{
	"charset_map": "1", "geo": "1 proxy_recursive:0 ranges:0", "map": "1 hostnames:0 volatile:0", "match": "1+", "types": "1+",
	"split_clients": "1", "geoip2": "1+ auto_reload:1", "otel_exporter": "1",
}

func checkMapTable(p *load.Prog, r *rep.R) {
	r.Rule("the table of map-like blocks has exactly the blocks of the reference, with their special parameters and argument styles, and is never written")
	g, special, def := mapTable(p)
	if g == nil {
		r.Fail("table", "-", "the table of map-like blocks was not found")
		return
	}
	for _, w := range writersOf(p, g) {
		r.Fail("written", pos(p, w), "the table of map-like blocks is changed by %s", w.Parent())
	}
	bitNames(p)
	cl, at := globalLit(p, g.Name())
	info := p.Root.TypesInfo
	undecided := func() {
		r.Fail("undecided:table", p.Pos(at), "undecided: the table of map-like blocks is not a constant literal")
	}
	if cl == nil {
		undecided()
		return
	}
	mask := func(e ast.Expr) (string, bool) {
		c := info.Types[e].Value
		if c == nil {
			return "", false
		}
		v, ok := constant.Uint64Val(constant.ToInt(c))
		return strings.TrimSuffix(decode(v), " in "), ok
	}
	st := deref(g.Type()).Underlying().(*types.Map).Elem().Underlying().(*types.Struct)
	got := map[string]string{}
	for _, e := range cl.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok || info.Types[kv.Key].Value == nil {
			undecided()
			return
		}
		name := constant.StringVal(info.Types[kv.Key].Value)
		body, ok := ast.Unparen(kv.Value).(*ast.CompositeLit)
		if !ok {
			undecided()
			return
		}
		d := ""
		var sp []string
		for i, f := range body.Elts {
			k, v := i, f
			if fkv, ok := f.(*ast.KeyValueExpr); ok {
				k, v = -1, fkv.Value
				for j := 0; j < st.NumFields(); j++ {
					if id, ok := fkv.Key.(*ast.Ident); ok && st.Field(j).Name() == id.Name {
						k = j
					}
				}
			}
			switch k {
			case def:
				if d, ok = mask(v); !ok {
					undecided()
					return
				}
			case special:
				if id, ok := v.(*ast.Ident); ok && id.Name == "nil" {
					continue
				}
				m, ok := ast.Unparen(v).(*ast.CompositeLit)
				if !ok {
					undecided()
					return
				}
				for _, se := range m.Elts {
					skv, ok := se.(*ast.KeyValueExpr)
					if !ok || info.Types[skv.Key].Value == nil {
						undecided()
						return
					}
					s, ok := mask(skv.Value)
					if !ok {
						undecided()
						return
					}
					sp = append(sp, constant.StringVal(info.Types[skv.Key].Value)+":"+s)
				}
			}
		}
		sort.Strings(sp)
		got[name] = strings.Join(append([]string{d}, sp...), " ")
		w, ok := mapRef[name]
		r.Check(ok, "extra:"+name, p.Pos(kv.Pos()), "%q is a map-like block", name)
		if ok {
			r.Check(w == got[name], "masks:"+name, p.Pos(kv.Pos()), "the parameters of %q are %q, not %q", name, got[name], w)
			r.Sample("%s: %s", name, got[name])
		}
	}
	for n := range mapRef {
		r.Check(got[n] != "", "missing:"+n, p.Pos(at), "the map-like block %q is missing", n)
	}
	r.Count("map-like blocks", len(got))
	r.Floor("map-like blocks", 8)
}

var mapAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"A03", "A05"}
	fn := rootFn(p, "analyzeMapBody")
	bit := maskBits(p)
	g, special, def := mapTable(p)
	if fn == nil || len(fn.Params) != 4 || bit == nil || g == nil {
		run.anchor(props, "the function analyzeMapBody, the bitmasks for arguments or the table of map-like blocks were not found")
		return run
	}
	x := &anaExplorer{prod: newProd(p, run, "A03"), bit: bit}
	x.dirT = rootType(p, "Directive")
	as := args(fn)
	x.fname, x.stmt, x.term = as[0], as[1], as[2]
	ctx := as[3]
	e := x.e
	st := ai.NewState(e)
	st.Assume(ai.Eq(x.stmt, ai.Nil), false)
	guard(p, e, "the analysis writes to memory that is not its own", true)
	e.Call = func(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
		if c.Fn != nil && c.Fn.Signature.Recv() != nil && c.Fn.Name() == "String" && isNamed(c.Fn.Signature.Recv().Type(), "Directive") {
			return []ai.Outcome{{St: st, Res: ai.App("statement", strT, c.Args[0])}}, true
		}
		return nil, false
	}
	mt := deref(g.Type())
	elem := mt.Underlying().(*types.Map).Elem()
	s := elem.Underlying().(*types.Struct)
	m := st.MapOf(st.Load(ai.Named("&"+g.String(), g.Type()), mt))
	known := ai.App("mhas", boolT, m, ctx)
	val := ai.App("mget", elem, m, ctx)
	e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		got := st.Eval(ai.Eq(res[0], ai.Nil))
		f := func(i int) *ai.T {
			return st.Norm(ai.App("fieldof", s.Field(i).Type(), st.Norm(val), ai.Int(int64(i))))
		}
		has := ai.App("mhas", boolT, st.MapOf(f(special)), field(st, x.stmt, x.dirT, "Directive"))
		mask := (*ai.T)(nil)
		switch st.Eval(has) {
		case 1:
			mask = ai.App("mget", uintT, st.MapOf(f(special)), field(st, x.stmt, x.dirT, "Directive"))
		case -1:
			mask = f(def)
		}
		want, why := 0, ""
		switch st.Eval(known) {
		case -1:
			want, why = 1, "unknown"
		case 1:
			semi := st.Eval(ai.Eq(x.term, ai.Str(";")))
			switch {
			case semi == -1:
				want, why = -1, "block"
			case semi == 0:
				why = "terminator"
			case mask == nil:
				why = "parameter"
			default:
				want = x.counts(st, st.Norm(mask))
				why = map[int]string{1: "accepted", -1: "rejected", 0: "arguments"}[want]
			}
		default:
			why = "context"
		}
		if got == 0 || want != got {
			x.fail(st, ins, "A03", "verdict-"+why, "a parameter that %s is %s", map[string]string{
				"unknown": "is not in a known map-like block (so it is to be accepted)", "block": "does not end with a semicolon (so it is to be rejected)",
				"terminator": "may not end with a semicolon", "parameter": "may be a special one or not", "arguments": "may have valid arguments or not",
				"accepted": "has valid arguments", "rejected": "has invalid arguments", "context": "may be in a known block or not"}[why],
				map[int]string{1: "accepted", -1: "rejected", 0: "accepted or rejected"}[got])
			return
		}
		if got == -1 && !locatedErr(x.prod, "A03,A05", st, ins, res[0], x.fname, field(st, x.stmt, x.dirT, "Line"), ai.App("statement", strT, x.stmt), ctx) {
			return
		}
		run.events[why]++
		if run.events[why] == 1 {
			run.samples = append(run.samples, why+" at "+pos(p, ins))
		}
	}
	x.prod.explore(st, fn, as, props)
	run.need(props, "unknown", "block", "accepted", "rejected")
	return run
})

// counts tells whether a bitmask accepts the number of arguments.
func (x *anaExplorer) counts(st *ai.State, e *ai.T) int {
	a := x.args(st)
	n := ai.Len(a)
	ge := func(k int64) int { return st.Eval(ai.Le(ai.Int(k), n)) }
	low := st.Norm(ai.App("lower", strT, at(st, a, ai.Int(0), strT)))
	flag := or3(st.Eval(ai.Eq(low, ai.Str("on"))), st.Eval(ai.Eq(low, ai.Str("off"))))
	return or3(and3(-ge(8), st.Eval(ai.App("bit", boolT, e, st.Norm(n)))),
		and3(x.bitOf(st, e, "Flag"), st.Eval(ai.Eq(n, ai.Int(1))), flag),
		x.bitOf(st, e, "Any"),
		and3(x.bitOf(st, e, "1More"), ge(1)),
		and3(x.bitOf(st, e, "2More"), ge(2)))
}

func init() {
	prodCheck("A03", "abstract interpretation (path-sensitive fixpoint over SSA) in product with a reference, and constant evaluation of the table of map-like blocks",
		"The function that validates a parameter of a map-like block is interpreted abstractly in product with a reference; block, parameter, arguments, terminator and bitmasks are unconstrained. The table is evaluated from the type-checked source.",
		mapAll, "a parameter in a known map-like block is accepted exactly if it ends with a semicolon and its number of arguments suits its own bitmask, or the default one")
	extend("A03", checkMapTable)
}
