package checks

import (
	"fmt"
	"go/types"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// The generator: names (G01), what is collected from the source code (G02), what is generated from it (G03).

// ngxNames are the names that the source code of NGINX uses, with the constants of the library that mean the same.
var ngxNames = map[string]string{
	"NGX_CONF_NOARGS": "ngxConfNoArgs", "NGX_CONF_TAKE1": "ngxConfTake1", "NGX_CONF_TAKE2": "ngxConfTake2", "NGX_CONF_TAKE3": "ngxConfTake3",
	"NGX_CONF_TAKE4": "ngxConfTake4", "NGX_CONF_TAKE5": "ngxConfTake5", "NGX_CONF_TAKE6": "ngxConfTake6", "NGX_CONF_TAKE7": "ngxConfTake7",
	"NGX_CONF_TAKE12": "ngxConfTake12", "NGX_CONF_TAKE13": "ngxConfTake13", "NGX_CONF_TAKE23": "ngxConfTake23", "NGX_CONF_TAKE123": "ngxConfTake123",
	"NGX_CONF_TAKE1234": "ngxConfTake1234", "NGX_CONF_BLOCK": "ngxConfBlock", "NGX_CONF_FLAG": "ngxConfFlag", "NGX_CONF_ANY": "ngxConfAny",
	"NGX_CONF_1MORE": "ngxConf1More", "NGX_CONF_2MORE": "ngxConf2More", "NGX_DIRECT_CONF": "ngxDirectConf", "NGX_MAIN_CONF": "ngxMainConf",
	"NGX_ANY_CONF": "ngxAnyConf", "NGX_EVENT_CONF": "ngxEventConf", "NGX_MAIL_MAIN_CONF": "ngxMailMainConf", "NGX_MAIL_SRV_CONF": "ngxMailSrvConf",
	"NGX_STREAM_MAIN_CONF": "ngxStreamMainConf", "NGX_STREAM_SRV_CONF": "ngxStreamSrvConf", "NGX_STREAM_UPS_CONF": "ngxStreamUpsConf",
	"NGX_HTTP_MAIN_CONF": "ngxHTTPMainConf", "NGX_HTTP_SRV_CONF": "ngxHTTPSrvConf", "NGX_HTTP_LOC_CONF": "ngxHTTPLocConf", "NGX_HTTP_UPS_CONF": "ngxHTTPUpsConf",
	"NGX_HTTP_SIF_CONF": "ngxHTTPSifConf", "NGX_HTTP_LIF_CONF": "ngxHTTPLifConf", "NGX_HTTP_LMT_CONF": "ngxHTTPLmtConf",
}

// ngxSums are the constants that stand for several others.
var ngxSums = map[string][]string{
	"ngxConfTake12": {"ngxConfTake1", "ngxConfTake2"}, "ngxConfTake13": {"ngxConfTake1", "ngxConfTake3"}, "ngxConfTake23": {"ngxConfTake2", "ngxConfTake3"},
	"ngxConfTake123": {"ngxConfTake1", "ngxConfTake2", "ngxConfTake3"}, "ngxConfTake1234": {"ngxConfTake1", "ngxConfTake2", "ngxConfTake3", "ngxConfTake4"},
	"ngxAnyConf": {"ngxMainConf", "ngxEventConf", "ngxMailMainConf", "ngxMailSrvConf", "ngxStreamMainConf", "ngxStreamSrvConf", "ngxStreamUpsConf",
		"ngxHTTPMainConf", "ngxHTTPSrvConf", "ngxHTTPLocConf", "ngxHTTPUpsConf", "ngxHTTPSifConf", "ngxHTTPLifConf", "ngxHTTPLmtConf"},
}

// nameTables are the package-level maps of the generator from text to text, as its initialisation fills them.
func nameTables(p *load.Prog) map[*ssa.Global]map[string]string {
	out := map[*ssa.Global]map[string]string{}
	if p.GenSSA == nil {
		return out
	}
	init := p.GenSSA.Func("init")
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := s.Addr.(*ssa.Global)
			if !ok {
				continue
			}
			m, ok := s.Val.(*ssa.MakeMap)
			if !ok || !types.Identical(m.Type().Underlying(), types.NewMap(strT, strT)) {
				continue
			}
			t := map[string]string{}
			for _, r := range *m.Referrers() {
				if u, ok := r.(*ssa.MapUpdate); ok {
					k, v := constTerm(p, u.Key), constTerm(p, u.Value)
					if k == nil || v == nil {
						t = nil
						break
					}
					ks, ok1 := k.IsStr()
					vs, ok2 := v.IsStr()
					if !ok1 || !ok2 {
						t = nil
						break
					}
					t[ks] = vs
				}
			}
			if t != nil {
				out[g] = t
			}
		}
	}
	return out
}

var genNames = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	bad := func(key, pos, f string, a ...interface{}) {
		run.problems = append(run.problems, problem{"G01", key, pos, fmt.Sprintf(f, a...), nil})
	}
	n := 0
	for g, t := range nameTables(p) {
		if _, ok := t["NGX_CONF_TAKE1"]; !ok {
			continue
		}
		n++
		at := p.Pos(g.Pos())
		for _, k := range sortedKeys(ngxNames) {
			run.oblig++
			run.events["names"]++
			switch v, ok := t[k]; {
			case !ok:
				bad(k+":none", at, "the name %s of NGINX is not known", k)
			case v != ngxNames[k]:
				bad(k+":other", at, "%s is translated to %s and not to %s", k, v, ngxNames[k])
			}
		}
		for _, k := range sortedKeys(t) {
			if _, ok := ngxNames[k]; !ok {
				if flat(k) != flat(t[k]) {
					bad(k+":other", at, "%s is translated to %s", k, t[k])
				}
				if _, ok := p.Root.Types.Scope().Lookup(t[k]).(*types.Const); !ok {
					bad(t[k]+":undefined", at, "%s is translated to %s, which the library does not define", k, t[k])
				}
			}
		}
		for _, w := range writersOf(p, g) {
			bad("written", p.Pos(ai.Pos(w)), "the table of names is written after its initialisation")
		}
	}
	if n != 1 {
		run.cut = append(run.cut, "the table of the names of NGINX")
	}
	run.roots = append(run.roots, p.GenSSA.Func("init").String())
	used := map[uint64]string{}
	for _, k := range sortedKeys(ngxNames) {
		name := ngxNames[k]
		run.oblig++
		v, pos := maskConst(p, name)
		if !pos.IsValid() {
			bad(name+":undefined", "-", "the library does not define %s, which the generator writes for %s", name, k)
			continue
		}
		want := uint64(0)
		for _, s := range ngxSums[name] {
			w, _ := maskConst(p, s)
			want |= w
		}
		switch {
		case want != 0 && v != want:
			bad(name+":value", p.Pos(pos), "%s is %#x, the bits of %s are %#x", name, v, strings.Join(ngxSums[name], ", "), want)
		case want == 0 && (v == 0 || v&(v-1) != 0):
			bad(name+":value", p.Pos(pos), "%s is %#x and not one bit", name, v)
		case want == 0 && used[v] != "":
			bad(name+":value", p.Pos(pos), "%s and %s are the same bit %#x", name, used[v], v)
		}
		if want == 0 {
			used[v] = name
		}
	}
	return run
})

// flat is a name without what the spellings of NGINX and of the library differ in.
func flat(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// genFn finds a function of the generator by its results and a function that it calls.
func genFn(p *load.Prog, calls string) *ssa.Function {
	if p.GenSSA == nil {
		return nil
	}
	var found *ssa.Function
	for _, f := range p.Funcs {
		r := f.Signature.Results()
		if f.Pkg != p.GenSSA || f.Signature.Recv() != nil || f.Parent() != nil || r.Len() != 2 || f.Signature.Params().Len() != 1 || !types.Identical(f.Signature.Params().At(0).Type(), strT) {
			continue
		}
		if _, ok := r.At(0).Type().Underlying().(*types.Map); !ok {
			continue
		}
		for g := range reachable(p, f) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if h := c.Common().StaticCallee(); h != nil && h.String() == calls && (found == nil || !reachable(p, f)[found]) {
						found = f
					}
				}
			}
		}
	}
	return found
}

// someKey explores what becomes of one (arbitrary) key of maps.
type someKey struct {
	*prod
	key    *ai.T
	gaveUp map[string]bool
	track  []string // ghosts that name maps which change
}

func newSomeKey(p *load.Prog, run *prodRun, prop string) *someKey {
	x := &someKey{prod: newProd(p, run, prop), key: ai.Named("directive", strT), gaveUp: map[string]bool{}}
	x.e.Imprecise = x.give
	x.e.Recursive = func(st *ai.State, c *ai.CallInfo) []ai.Outcome { x.give(st, "recursion", c.Instr); return nil }
	x.e.OnNext = x.next
	// the generator is not the library: X01 does not cover it
	x.e.Obligation = func(st *ai.State, kind string, ok bool, ins ssa.Instruction, d string) { run.oblig++ }
	x.e.OnHeader = func(st *ai.State, b *ssa.BasicBlock) { x.fold(st) }
	x.e.OnMapPut = func(st *ai.State, m, k, v *ai.T, ins ssa.Instruction) {
		if m.K == ai.KObj {
			st.Ghost["map:"+m.Op] = m
		}
	}
	return x
}

func (x *someKey) give(st *ai.State, why string, ins ssa.Instruction) {
	ps := "-"
	if ins != nil {
		ps = pos(x.p, ins)
	}
	x.gaveUp[fmt.Sprintf("%s at %s", why, ps)] = true
	st.Kill()
}

func (x *someKey) cut() {
	for _, k := range sortedKeys(x.gaveUp) {
		x.run.cut = append(x.run.cut, k)
	}
}

// next is a step of a loop over a map: the key is the one that is looked at, once if it is there, or another one.
func (x *someKey) next(st *ai.State, it, k, v *ai.T, ok bool, ins ssa.Instruction) {
	if !it.Is("range") {
		return
	}
	seen := "seen:" + pos(x.p, ins)
	has, _ := x.look(st, st.MapOf(it.Args[0]))
	if !ok {
		if has == 1 && st.Ghost[seen] == nil {
			// the loop does not end before it
			st.Kill()
		}
		delete(st.Ghost, seen)
		return
	}
	if has != -1 && st.Ghost[seen] == nil {
		n := st.Clone()
		n.Ghost[seen] = ai.True
		n.Assume(ai.App("mhas", boolT, st.MapOf(it.Args[0]), x.key), true)
		n.Assume(ai.Eq(k, x.key), true)
		n.Replace(k, x.key)
		if !n.Dead() {
			x.e.Fork(n)
		}
	}
	if !st.Assume(ai.Eq(k, x.key), false) {
		st.Kill()
	}
}

// look is what a map has for the key.
func (x *someKey) look(st *ai.State, m *ai.T) (int, *ai.T) {
	for m.Is("mput") || m.Is("mdel") {
		switch st.Eval(ai.Eq(m.Args[1], x.key)) {
		case 1:
			if m.Is("mdel") {
				return -1, ai.Nil
			}
			return 1, st.Norm(m.Args[2])
		case 0:
			return 0, ai.Nil
		}
		m = st.Norm(m.Args[0])
	}
	return st.Eval(st.Norm(ai.App("mhas", boolT, m, x.key))), st.Norm(ai.App("mget", nil, m, x.key))
}

// fold forgets what became of other keys.
func (x *someKey) fold(st *ai.State) {
	gs := append([]string{}, x.track...)
	for _, g := range sortedKeys(st.Ghost) {
		if strings.HasPrefix(g, "map:") {
			gs = append(gs, g)
		}
	}
	for _, g := range gs {
		m := st.Ghost[g]
		if m == nil {
			continue
		}
		cur := st.MapOf(m)
		if !cur.Is("mput") && !cur.Is("mdel") {
			continue
		}
		if cur.Is("mput") && cur.Args[1] == x.key && !cur.Args[0].Is("mput") && !cur.Args[0].Is("mdel") {
			continue
		}
		has, v := x.look(st, cur)
		n := st.Fresh("map", m.Typ)
		st.SetMap(m, n)
		switch has {
		case 1:
			st.SetMap(m, ai.App("mput", m.Typ, n, x.key, v))
		case -1:
			st.Assume(ai.App("mhas", boolT, n, x.key), false)
		}
	}
}

var genAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"G03"}
	var fn *ssa.Function
	if p.GenSSA != nil {
		fn = p.GenSSA.Func("Generate")
	}
	from := genFn(p, "path/filepath.WalkDir")
	if from == nil {
		from = genFn(p, "path/filepath.Walk")
	}
	if fn == nil || from == nil || len(fn.Params) != 3 {
		run.anchor(props, "the functions Generate and the one that walks through the source code were not found")
		return run
	}
	confT := fn.Params[2].Type()
	for _, f := range []string{"Filter", "Override", "DirectiveMapName", "MatchFuncName", "MatchFuncComment"} {
		if fieldIndex(confT, f) < 0 {
			run.anchor(props, "the field "+f+" of the configuration of the generator was not found")
			return run
		}
	}
	tmpl := genTemplate(p, run)
	cut := map[string]bool{}
	for i := 0; i < 8 && tmpl != nil; i++ {
		in, filtered, over := i&1 != 0, i&2 != 0, i&4 != 0
		what := "a directive that " + map[bool]string{true: "is", false: "is not"}[in] + " in the source code, " +
			map[bool]string{true: "is", false: "is not"}[filtered] + " in the filter and " + map[bool]string{true: "is", false: "is not"}[over] + " in the overrides"
		x := newSomeKey(p, run, "G03")
		x.gaveUp = cut
		x.track = []string{"masks"}
		as := args(fn)
		st := ai.NewState(x.e)
		get := func(st *ai.State, f string) *ai.T {
			i := fieldIndex(confT, f)
			if as[2].Is("struct") {
				return st.Norm(as[2].Args[i])
			}
			return st.Norm(ai.App("fieldof", confT.Underlying().(*types.Struct).Field(i).Type(), as[2], ai.Int(int64(i))))
		}
		inMap := func(st *ai.State, m *ai.T, is bool) {
			st.Assume(ai.App("mhas", boolT, st.MapOf(m), x.key), is)
			if is {
				st.Assume(ai.Eq(m, ai.Nil), false)
				st.Assume(ai.Lt(ai.Int(0), ai.Len(st.MapOf(m))), true)
			}
		}
		inMap(st, get(st, "Filter"), filtered)
		inMap(st, get(st, "Override"), over)
		x.e.Call = func(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
			switch {
			case c.Fn == from:
				if st.Norm(c.Args[0]) != as[0] {
					x.fail(st, c.Instr, "G03", "path", "the source code in %s is looked at", show(c.Args[0]))
					return nil, true
				}
				bad := st.Clone()
				e := bad.Fresh("err", types.Universe.Lookup("error").Type())
				bad.Assume(ai.Eq(e, ai.Nil), false)
				bad.Ghost["err"] = e
				m := st.FreshObj("newmap", c.Fn.Signature.Results().At(0).Type())
				st.SetMap(m, st.Fresh("masks", m.Typ))
				st.Ghost["masks"] = m
				inMap(st, m, in)
				st.Ghost["old"] = st.Norm(ai.App("mget", nil, st.MapOf(m), x.key))
				return []ai.Outcome{{St: bad, Res: ai.Tuple(ai.Nil, e)}, {St: st, Res: ai.Tuple(m, ai.Nil)}}, true
			case strings.HasPrefix(c.Name, "(*text/template.Template).Execute"):
				run.events["templates executed"]++
				run.oblig++
				x.execute(st, c, as[1], tmpl, map[string]*ai.T{"map": get(st, "DirectiveMapName"), "func": get(st, "MatchFuncName"), "comment": get(st, "MatchFuncComment")})
				if st.Dead() {
					return nil, true
				}
				m := st.Ghost["data"]
				cur := st.MapOf(m)
				has, got := x.look(st, cur)
				want := ai.Nil
				if in && !filtered {
					want = st.Norm(st.Ghost["old"])
					if over {
						want = st.Norm(ai.App("mget", nil, st.MapOf(get(st, "Override")), x.key))
					}
				}
				switch {
				case has == 0 || (has == 1) != (in && !filtered):
					x.fail(st, c.Instr, "G03", "directives:"+what, "%s %s generated", what, map[int]string{1: "is", 0: "may be (or not)", -1: "is not"}[has])
					return nil, true
				case has == 1:
					if got != want && st.Eval(ai.Eq(got, want)) != 1 {
						x.fail(st, c.Instr, "G03", "masks:"+what, "%s is generated with %s and not with %s", what, show(got), show(want))
						return nil, true
					}
				}
				st.Ghost["done"] = ai.True
				bad := st.Clone()
				e := bad.Fresh("err", types.Universe.Lookup("error").Type())
				bad.Assume(ai.Eq(e, ai.Nil), false)
				bad.Ghost["err"] = e
				return []ai.Outcome{{St: bad, Res: e}, {St: st, Res: ai.Nil}}, true
			}
			return nil, false
		}
		x.e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
			isNil := st.Eval(ai.Eq(st.Norm(res[0]), ai.Nil))
			switch {
			case st.Ghost["err"] != nil && isNil != -1:
				x.fail(st, ins, "G03", "error", "an error is lost")
			case st.Ghost["err"] == nil && isNil != 1:
				x.fail(st, ins, "G03", "no error", "Generate may return an error although nothing failed")
			case st.Ghost["err"] == nil && st.Ghost["done"] == nil:
				x.fail(st, ins, "G03", "nothing", "Generate returns without having written anything")
			default:
				run.events["returns"]++
			}
		}
		x.prod.explore(st, fn, as, props)
	}
	for _, k := range sortedKeys(cut) {
		run.cut = append(run.cut, k)
	}
	run.need(props, "templates executed", "returns")
	return run
})

// execute compares the data that the template gets with what its fields stand for.
func (x *someKey) execute(st *ai.State, c *ai.CallInfo, w *ai.T, tmpl map[string]string, want map[string]*ai.T) {
	if len(c.Args) != 3 || st.Norm(c.Args[1]) != w {
		x.fail(st, c.Instr, "G03", "writer", "the output is written to %s", show(c.Args[1]))
		return
	}
	d := st.Norm(c.Args[2])
	if !strings.HasPrefix(d.Op, "iface:") {
		x.give(st, "the data of the template is not followed", c.Instr)
		return
	}
	var t types.Type
	for _, f := range x.p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mi, ok := ins.(*ssa.MakeInterface); ok && ai.MakeIface(mi.X.Type(), ai.Nil).Op == d.Op {
					t = mi.X.Type()
				}
			}
		}
	}
	d = d.Args[0]
	if t != nil {
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
			d = st.Norm(st.Load(d, t))
		}
	}
	if t == nil || !d.Is("struct") {
		x.give(st, "the data of the template is not followed", c.Instr)
		return
	}
	for _, k := range sortedKeys(tmpl) {
		i := fieldIndex(t, tmpl[k])
		if i < 0 {
			x.fail(st, c.Instr, "G03", "field:"+k, "the template uses the field %s, which its data does not have", tmpl[k])
			return
		}
		v := st.Norm(d.Args[i])
		if k == "masks" {
			st.Ghost["data"] = v
			continue
		}
		if st.Eval(ai.Eq(v, want[k])) != 1 {
			x.fail(st, c.Instr, "G03", "field:"+k, "the field %s of the template is %s and not %s", tmpl[k], show(v), show(want[k]))
			return
		}
	}
}

func init() {
	prodCheck("G03", "abstract interpretation (path-sensitive fixpoint over SSA) of Generate for an arbitrary directive; symbolic evaluation of the template",
		"Generate is explored for an arbitrary directive that is or is not in the source code, the filter and the overrides: what the template gets for it is compared with what it must get. The template is evaluated symbolically, and the Go code that it makes is compared with the expected form.",
		genAll, "a directive is generated exactly if it is in the source code and not in the filter, with the masks of its override or else those of the source code", "errors are returned", "the template makes a table of all directives with all their masks and a function that answers from it")
	prodCheck("G01", "table extraction from the SSA of the package initialisation; rules over the constants of the type-checked program",
		"The table of names is read from the initialisation of the generator; every name of NGINX must stand for the constant of the library with the same meaning, and this constant must be defined with the bits that it stands for.",
		genNames, "every name that NGINX uses in its definitions is known and stands for the constant of the same meaning", "every constant that the generator writes is defined, with its own bit or with those of its parts")
}
