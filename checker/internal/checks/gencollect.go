package checks

import (
	"go/types"
	"regexp/syntax"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// collector explores how the masks of a file and of a tree of files are collected.
type collector struct {
	*someKey
	table  *ssa.Global
	groups map[*ssa.Global]int
	counts string // the counter of the innermost list that is looked at
}

const findAll = "(*regexp.Regexp).FindAllStringSubmatch"

// regexpGroups are the numbers of groups of the package-level regular expressions of the generator.
func regexpGroups(p *load.Prog) map[*ssa.Global]int {
	out := map[*ssa.Global]int{}
	for _, b := range p.GenSSA.Func("init").Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := s.Addr.(*ssa.Global)
			c, ok2 := s.Val.(*ssa.Call)
			if !ok || !ok2 || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "regexp.MustCompile" {
				continue
			}
			if t := constTerm(p, c.Call.Args[0]); t != nil {
				if pat, ok := t.IsStr(); ok {
					if re, err := syntax.Parse(pat, syntax.Perl); err == nil {
						out[g] = re.MaxCap()
					}
				}
			}
		}
	}
	return out
}

func (x *collector) lost(st *ai.State, ins ssa.Instruction) bool {
	if x.partsDone(st) && x.defsDone(st) && x.blocksDone(st) {
		return false
	}
	return true
}

func (x *collector) same(st *ai.State, a, b *ai.T) bool {
	return a != nil && b != nil && st.Eval(ai.Eq(st.Norm(a), st.Norm(b))) == 1
}

func (x *collector) through(st *ai.State, next, list string) bool {
	if st.Ghost[list] == nil {
		return true
	}
	return st.Eval(ai.Le(ai.Len(base(st.Norm(st.Ghost[list]))), st.Norm(st.Ghost[next]))) == 1
}

func (x *collector) blocksDone(st *ai.State) bool {
	return st.Ghost["blocks"] != nil && x.through(st, "next block", "blocks")
}
func (x *collector) defsDone(st *ai.State) bool {
	return x.through(st, "next definition", "definitions")
}

// partsDone: no part of a definition is in the works.
func (x *collector) partsDone(st *ai.State) bool { return st.Ghost["parts"] == nil }

func base(t *ai.T) *ai.T {
	for t.Is("upd") {
		t = t.Args[0]
	}
	return t
}

// element is the i-th element of a list, as the text that it is.
func element(t *ai.T) (*ai.T, *ai.T) {
	if t.Is("index") {
		return base(t.Args[0]), t.Args[1]
	}
	return nil, nil
}

func (x *collector) call(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	fail := func() ai.Outcome {
		bad := st.Clone()
		e := bad.Fresh("err", types.Universe.Lookup("error").Type())
		bad.Assume(ai.Eq(e, ai.Nil), false)
		bad.Ghost["err"] = e
		return ai.Outcome{St: bad, Res: ai.Tuple(ai.Nil, e)}
	}
	switch c.Name {
	case "os.ReadFile", "io/ioutil.ReadFile":
		x.run.events["files read"]++
		if st.Norm(c.Args[0]) != ai.Named("path", strT) {
			x.fail(st, c.Instr, "G02", "path", "the file %s is read", show(c.Args[0]))
			return nil, true
		}
		bad := fail()
		b := st.Fresh("content", c.Fn.Signature.Results().At(0).Type())
		st.Ghost["content"] = b
		return []ai.Outcome{bad, {St: st, Res: ai.Tuple(b, ai.Nil)}}, true
	case findAll:
		if st.Eval(ai.Lt(c.Args[2], ai.Int(0))) != 1 {
			x.fail(st, c.Instr, "G02", "limit", "no more than %s of the definitions are looked at", show(c.Args[2]))
			return nil, true
		}
		text := st.Norm(c.Args[1])
		l, g := element(text)
		if l == nil {
			// the blocks of the file
			if st.Ghost["blocks"] != nil {
				x.give(st, "the text is searched more than once", c.Instr)
				return nil, true
			}
			from := false
			text.Walk(func(t *ai.T) bool {
				from = from || t == st.Norm(st.Ghost["content"])
				return !from
			})
			if st.Ghost["content"] == nil || !from {
				x.fail(st, c.Instr, "G02", "text", "the text %s is searched, which is not that of the file", show(text))
				return nil, true
			}
			m := x.matches(st, c, "blocks")
			st.Ghost["blocks"], st.Ghost["next block"] = m, ai.Int(0)
			x.run.events["blocks searched"]++
			return []ai.Outcome{{St: st, Res: m}}, true
		}
		ll, i := element(l)
		if ll == nil || ll != st.Norm(st.Ghost["blocks"]) || !isNum(g, x.last(st, "blocks")) {
			x.fail(st, c.Instr, "G02", "text of the definitions", "the text %s is searched for definitions, which is not the definition of a block", show(text))
			return nil, true
		}
		if !x.same(st, i, st.Ghost["next block"]) || !x.defsDone(st) || !x.partsDone(st) {
			x.fail(st, c.Instr, "G02", "blocks", "the block %s is looked at after %s blocks, and the definitions of those may not be complete", show(i), show(st.Ghost["next block"]))
			return nil, true
		}
		m := x.matches(st, c, "definitions")
		st.Ghost["definitions"], st.Ghost["next definition"], st.Ghost["next block"] = m, ai.Int(0), ai.Add(i, 1)
		x.run.events["definitions searched"]++
		return []ai.Outcome{{St: st, Res: m}}, true
	case "strings.Split":
		text := st.Norm(c.Args[0])
		l, g := element(text)
		if l == nil {
			return nil, false
		}
		ll, j := element(l)
		if ll == nil || ll != st.Norm(st.Ghost["definitions"]) {
			return nil, false
		}
		if s, _ := c.Args[1].IsStr(); s != "|" || !isNum(g, x.last(st, "definitions")) {
			x.fail(st, c.Instr, "G02", "parts", "the parts of %s are separated by %s", show(text), show(c.Args[1]))
			return nil, true
		}
		r := st.Fresh("parts", c.Fn.Signature.Results().At(0).Type())
		st.Assume(ai.Lt(ai.Int(0), ai.Len(r)), true)
		st.Ghost["parts"], st.Ghost["next part"], st.Ghost["definition"] = r, ai.Int(0), j
		delete(st.Ghost, "made")
		return []ai.Outcome{{St: st, Res: r}}, true
	}
	return nil, false
}

// matches are those of a regular expression: each has the text and its groups.
func (x *collector) matches(st *ai.State, c *ai.CallInfo, what string) *ai.T {
	m := st.Fresh(what, c.Fn.Signature.Results().At(0).Type())
	re := st.Norm(c.Args[0])
	n := 2
	for g, k := range x.groups {
		if re.Is("load") && len(re.Args) == 1 && re.Args[0].K == ai.KObj && strings.HasSuffix(re.Args[0].String(), g.Name()) || strings.HasSuffix(re.String(), g.Name()) {
			n = k
		}
	}
	st.Ghost["groups of "+what] = ai.Int(int64(n))
	return m
}

// last is the number of the last group.
func (x *collector) last(st *ai.State, what string) int64 {
	n, _ := st.Ghost["groups of "+what].IsInt()
	return n
}

// translation is the part whose translation a text is.
func (x *collector) translation(st *ai.State, v *ai.T) *ai.T {
	v = st.Norm(v)
	if !v.Is("mget") {
		return nil
	}
	k := v.Args[1]
	if !k.Is("trimspace") || len(k.Args) != 1 {
		return nil
	}
	l, i := element(k.Args[0])
	if l == nil || l != base(st.Norm(st.Ghost["parts"])) {
		return nil
	}
	if !strings.Contains(v.Args[0].String(), x.table.Name()) || st.Eval(ai.App("mhas", boolT, v.Args[0], k)) != 1 {
		return nil
	}
	return i
}

func (x *collector) store(st *ai.State, addr, v *ai.T, typ types.Type, ins ssa.Instruction) {
	if st.Ghost["parts"] == nil || !addr.Is("elem") || addr.Args[0].Is("arr") {
		return
	}
	to := base(st.Norm(addr.Args[0]))
	i := x.translation(st, v)
	if i == nil && to != base(st.Norm(st.Ghost["parts"])) && (st.Ghost["made"] == nil || to != base(st.Norm(st.Ghost["made"]))) {
		return
	}
	if i == nil || !x.same(st, i, st.Ghost["next part"]) || !x.same(st, i, addr.Args[1]) || st.Eval(ai.Eq(ai.Len(to), ai.Len(base(st.Norm(st.Ghost["parts"]))))) != 1 ||
		st.Ghost["made"] != nil && base(st.Norm(st.Ghost["made"])) != to {
		x.fail(st, ins, "G02", "translation", "the part %s of a definition becomes %s", show(addr.Args[1]), show(v))
		return
	}
	x.run.events["names translated"]++
	st.Ghost["next part"] = ai.Add(i, 1)
	st.Ghost["made"] = to
	st.Ghost["written"] = ai.App("upd", addr.Args[0].Typ, addr.Args[0], addr.Args[1], v)
}

func (x *collector) appended(st *ai.State, b *ai.T, parts []*ai.T, res *ai.T, ins ssa.Instruction) {
	if st.Ghost["parts"] == nil || len(parts) != 1 {
		return
	}
	p := st.Norm(parts[0])
	if p.Is("el") && len(p.Args) == 1 {
		p = st.Norm(p.Args[0])
	}
	i := x.translation(st, p)
	if i == nil {
		return
	}
	first := x.same(st, st.Ghost["next part"], ai.Int(0)) && (st.Eval(ai.Eq(ai.Len(st.Norm(b)), ai.Int(0))) == 1)
	if !x.same(st, i, st.Ghost["next part"]) || !first && (st.Ghost["made"] == nil || st.Norm(st.Ghost["made"]) != st.Norm(b)) {
		x.fail(st, ins, "G02", "translation", "the translation of the part %s of a definition comes after that of %s parts", show(i), show(st.Ghost["next part"]))
		return
	}
	x.run.events["names translated"]++
	st.Ghost["next part"] = ai.Add(i, 1)
	st.Ghost["made"] = res
}

func (x *collector) put(st *ai.State, m, k, v *ai.T, ins ssa.Instruction) {
	l := st.Ghost["made"]
	if l != nil {
		l = st.Norm(l)
	}
	k, v = st.Norm(k), st.Norm(v)
	bad := func(key, f string, a ...interface{}) { x.fail(st, ins, "G02", key, f, a...) }
	if st.Ghost["made"] == nil || !x.through(st, "next part", "parts") {
		bad("incomplete", "the masks of %s become %s before all parts of the definition are translated", show(k), show(v))
		return
	}
	j := st.Norm(st.Ghost["definition"])
	if k.Is("trimspace") {
		k = k.Args[0]
	}
	d, g := element(k)
	var jj *ai.T
	if d != nil {
		d, jj = element(d)
	}
	if d == nil || d != st.Norm(st.Ghost["definitions"]) || !isNum(g, 1) || !x.same(st, jj, j) {
		bad("name", "the masks of a definition (%s of %s) are those of %s", show(j), show(st.Norm(st.Ghost["definitions"])), show(k))
		return
	}
	if !x.same(st, j, st.Ghost["next definition"]) {
		bad("order", "the definition %s is collected after %s others", show(j), show(st.Ghost["next definition"]))
		return
	}
	cur := st.MapOf(m)
	old := st.Norm(ai.App("mget", nil, cur, st.Norm(k)))
	key := k
	if t := st.Norm(ai.App("trimspace", strT, k)); st.Eval(ai.Eq(t, k)) != 1 {
		key = t
	}
	old = st.Norm(ai.App("mget", nil, cur, key))
	rest, last := splitLast(v)
	if last == nil || !sameList(st, last, l) {
		bad("masks", "the masks of %s become %s, without the mask of the definition at the end", show(k), show(v))
		return
	}
	has := st.Eval(ai.App("mhas", boolT, cur, key))
	if !(rest == nil && (has == -1 || st.Eval(ai.Eq(ai.Len(old), ai.Int(0))) == 1) || rest != nil && (st.Norm(rest) == old || has == -1 && st.Eval(ai.Eq(ai.Len(st.Norm(rest)), ai.Int(0))) == 1)) {
		bad("previous", "the masks of %s become %s, without those of the definitions before", show(k), show(v))
		return
	}
	x.run.events["definitions collected"]++
	st.Ghost["next definition"] = ai.Add(j, 1)
	for _, k := range []string{"parts", "next part", "made", "definition", "written"} {
		delete(st.Ghost, k)
	}
	if st.Ghost["map"] != nil && st.Norm(st.Ghost["map"]) != st.Norm(m) {
		bad("map", "the masks are collected in more than one map")
	}
	st.Ghost["map"] = m
}

func sameList(st *ai.State, a, b *ai.T) bool {
	return base(st.Norm(a)) == base(st.Norm(b))
}

// splitLast is a list without its last element (nil if this is all), and that element.
func splitLast(v *ai.T) (rest, last *ai.T) {
	if !v.Is("list") || len(v.Args) == 0 {
		return nil, nil
	}
	n := len(v.Args) - 1
	if last = v.Args[n]; !last.Is("el") {
		return nil, nil
	}
	switch n {
	case 0:
		return nil, last.Args[0]
	case 1:
		if !v.Args[0].Is("el") {
			return v.Args[0], last.Args[0]
		}
	}
	return ai.App("list", v.Typ, v.Args[:n]...), last.Args[0]
}

func (x *collector) header(st *ai.State, b *ssa.BasicBlock) {
	if l := st.Ghost["parts"]; l != nil {
		if w := st.Ghost["written"]; w != nil {
			delete(st.Ghost, "written")
			st.Replace(w, base(w))
		}
		if x.through(st, "next part", "parts") && st.Ghost["made"] != nil {
			st.Ghost["next part"] = ai.Len(st.Norm(st.Ghost["parts"]))
		}
	}
	if st.Ghost["map"] != nil {
		m := st.Ghost["map"]
		if cur := st.MapOf(m); cur.Is("mput") {
			st.SetMap(m, st.Fresh("masks", m.Typ))
		}
	}
	if x.defsDone(st) {
		delete(st.Ghost, "definitions")
		delete(st.Ghost, "next definition")
		delete(st.Ghost, "groups of definitions")
	}
	x.counts = "next block"
	switch {
	case st.Ghost["parts"] != nil:
		x.counts = "next part"
	case st.Ghost["definitions"] != nil:
		x.counts = "next definition"
	}
}

func (x *collector) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	isNil := st.Eval(ai.Eq(st.Norm(res[1]), ai.Nil))
	if st.Ghost["err"] != nil {
		x.run.events["errors"]++
		if isNil != -1 {
			x.fail(st, ins, "G02", "error", "an error is lost")
		}
		return
	}
	if isNil == -1 {
		if st.Ghost["unknown"] == nil {
			x.fail(st, ins, "G02", "no error", "an error is returned although all names are known")
		}
		x.run.events["unknown names refused"]++
		return
	}
	x.run.events["returns"]++
	if x.lost(st, ins) {
		x.fail(st, ins, "G02", "lost", "the masks are returned although not all definitions were looked at")
		return
	}
	if st.Ghost["map"] != nil && st.Norm(res[0]) != st.Norm(st.Ghost["map"]) {
		x.fail(st, ins, "G02", "result", "%s is returned and not the masks that were collected", show(res[0]))
	}
}

func (x *collector) lookup(st *ai.State, m, k *ai.T, has bool, v *ai.T, ins *ssa.Lookup) {
	if !has && strings.Contains(st.Norm(m).String(), x.table.Name()) {
		st.Ghost["unknown"] = ai.True
	}
}

var genCollect = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"G02"}
	file := genFn(p, "os.ReadFile")
	var table *ssa.Global
	for g, t := range nameTables(p) {
		if _, ok := t["NGX_CONF_TAKE1"]; ok {
			table = g
		}
	}
	if file == nil || table == nil {
		run.anchor(props, "the function that collects the masks of a file and the table of names were not found")
		return run
	}
	x := &collector{newSomeKey(p, run, "G02"), table, regexpGroups(p), ""}
	x.e.Call, x.e.OnStore, x.e.OnAppend, x.e.OnMapPut, x.e.OnHeader, x.e.Return, x.e.OnLookup = x.call, x.store, x.appended, x.put, x.header, x.ret, x.lookup
	x.e.OnNext = nil
	x.e.WidenGhost = func(k string) bool { return k == x.counts }
	x.prod.explore(ai.NewState(x.e), file, []*ai.T{ai.Named("path", strT)}, props)
	x.cut()
	run.need(props, "files read", "blocks searched", "definitions searched", "names translated", "definitions collected", "errors", "unknown names refused", "returns")
	return run
})

func init() {
	prodCheck("G02", "abstract interpretation (path-sensitive fixpoint over SSA) of the collection of definitions",
		"The function that collects the masks of a file is explored: the blocks, the definitions of each and the parts of each definition are followed with counters; every definition must be added to the masks of its name, after those before it, with all of its parts translated.",
		genCollect, "every definition that the regular expressions find is collected, in order, with all its parts translated", "a name that is not known and a file that cannot be read are errors")
}

func isNum(t *ai.T, n int64) bool {
	k, ok := t.IsInt()
	return ok && k == n
}

// walker explores how the masks of the files of a tree are collected, for an arbitrary entry of it and an arbitrary directive.
type walker struct {
	*someKey
	file    *ssa.Function
	isDir   *ai.T
	entry   *ai.T
	path    *ai.T
	err     *ai.T
	kind    string // of the entry
	has     bool   // the file defines the directive
	wantErr bool
}

func (x *walker) fails(key string, st *ai.State, ins ssa.Instruction, f string, a ...interface{}) {
	x.fail(st, ins, "G02", key, f, a...)
}

// captured is the map that a function literal adds to.
func captured(st *ai.State, fn *ssa.Function, binds []*ai.T, t types.Type) (m *ai.T, n int) {
	for i, b := range binds {
		bt := fn.FreeVars[i].Type()
		if p, ok := bt.Underlying().(*types.Pointer); ok {
			if types.Identical(p.Elem(), t) {
				m = st.Norm(st.Load(st.Norm(b), t))
				n++
			}
		} else if types.Identical(bt, t) {
			m = st.Norm(b)
			n++
		}
	}
	return m, n
}

func (x *walker) call(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	stage := stageOf(st)
	errT := types.Universe.Lookup("error").Type()
	newErr := func(st *ai.State) *ai.T {
		e := st.Fresh("err", errT)
		st.Assume(ai.Eq(e, ai.Nil), false)
		st.Ghost["err"] = e
		return e
	}
	if c.Name == "path/filepath.WalkDir" || c.Name == "path/filepath.Walk" {
		x.run.events["trees walked"]++
		if stage != "" || st.Norm(c.Args[0]) != ai.Named("path", strT) {
			x.fails("root", st, c.Instr, "the tree of %s is walked", show(c.Args[0]))
			return nil, true
		}
		h := st.Norm(c.Args[1])
		if h.K != ai.KFunc || h.Fn.Blocks == nil || len(h.Fn.Params) != 3 {
			x.give(st, "the function for the entries of the tree is not followed", c.Instr)
			return nil, true
		}
		mapT := x.file.Signature.Results().At(0).Type()
		m, n := captured(st, h.Fn, h.Args, mapT)
		if n != 1 {
			x.give(st, "the map that is filled while the tree is walked is not followed", c.Instr)
			return nil, true
		}
		st.Ghost["masks"] = m
		cur := st.Fresh("masks", mapT)
		st.SetMap(m, cur)
		// an entry of the tree
		t := st.Clone()
		t.Ghost["stage"], t.Ghost["old"] = ai.Str("entry"), cur
		if x.err == nil {
			t.Assume(ai.Eq(ai.Named("walkerr", errT), ai.Nil), true)
		} else {
			t.Assume(ai.Eq(x.err, ai.Nil), false)
		}
		t.Assume(x.isDir, x.kind == "directory")
		t.Assume(ai.App("hassuffix", boolT, x.path, ai.Str(".c")), x.kind == ".c")
		t.Assume(ai.App("hassuffix", boolT, x.path, ai.Str(".cpp")), x.kind == ".cpp")
		e := x.err
		if e == nil {
			e = ai.Nil
		}
		x.entry = ai.Named("entry", h.Fn.Params[1].Type())
		if x.err == nil {
			t.Assume(ai.Eq(x.entry, ai.Nil), false)
		}
		t.Frames = nil
		for _, had := range []bool{true, false} {
			t := t.Clone()
			t.Assume(ai.App("mhas", boolT, cur, x.key), had)
			t.Enter(h.Fn, []*ai.T{x.path, x.entry, e}, h.Args, nil)
			x.e.Fork(t)
		}
		// after all
		st.Ghost["stage"] = ai.Str("walked")
		bad := st.Clone()
		be := newErr(bad)
		empty := st.Clone()
		empty.Assume(ai.Eq(ai.Len(cur), ai.Int(0)), true)
		empty.Assume(ai.App("mhas", boolT, cur, x.key), false)
		empty.Ghost["empty"] = ai.True
		no := st.Clone()
		no.Assume(ai.Lt(ai.Int(0), ai.Len(cur)), true)
		no.Assume(ai.App("mhas", boolT, cur, x.key), false)
		st.Assume(ai.Lt(ai.Int(0), ai.Len(cur)), true)
		st.Assume(ai.App("mhas", boolT, cur, x.key), true)
		for _, s := range []*ai.State{st, no, empty} {
			s.Ghost["all"] = cur
		}
		return []ai.Outcome{{St: bad, Res: be}, {St: empty, Res: ai.Nil}, {St: no, Res: ai.Nil}, {St: st, Res: ai.Nil}}, true
	}
	if stage != "entry" {
		return nil, false
	}
	if c.Fn == x.file {
		x.run.events["files of a tree"]++
		if st.Norm(c.Args[0]) != x.path {
			x.fails("file", st, c.Instr, "the file %s is read and not the entry of the tree", show(c.Args[0]))
			return nil, true
		}
		if x.kind != ".c" && x.kind != ".cpp" || x.err != nil {
			x.fails("kind", st, c.Instr, "%s is read", x.what())
			return nil, true
		}
		if st.Ghost["read"] != nil {
			x.fails("twice", st, c.Instr, "a file is read twice")
			return nil, true
		}
		st.Ghost["read"] = ai.True
		bad := st.Clone()
		be := newErr(bad)
		m := st.FreshObj("newmap", c.Fn.Signature.Results().At(0).Type())
		in := st.Fresh("masks", m.Typ)
		st.SetMap(m, in)
		st.Assume(ai.App("mhas", boolT, in, x.key), x.has)
		if x.has {
			st.Assume(ai.Lt(ai.Int(0), ai.Len(in)), true)
			st.Assume(ai.Lt(ai.Int(0), ai.Len(ai.App("mget", nil, in, x.key))), true)
		}
		st.Ghost["in"] = in
		return []ai.Outcome{{St: bad, Res: ai.Tuple(ai.Nil, be)}, {St: st, Res: ai.Tuple(m, ai.Nil)}}, true
	}
	name := c.Name
	if c.Common != nil && c.Common.IsInvoke() {
		name = c.Common.Method.Name()
	}
	one := func(t *ai.T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Res: t}}, true }
	switch name {
	case "IsDir", "(io/fs.FileMode).IsDir":
		return one(x.isDir)
	case "Name":
		return one(ai.App("base", strT, x.path))
	case "strings.HasSuffix":
		a := st.Norm(c.Args[0])
		if a.Is("base") && a.Args[0] == x.path {
			return one(st.Norm(ai.App("hassuffix", boolT, x.path, c.Args[1])))
		}
	case "path/filepath.Ext", "path.Ext":
		a := st.Norm(c.Args[0])
		if a == x.path || a.Is("base") && a.Args[0] == x.path {
			if strings.HasPrefix(x.kind, ".") {
				return one(ai.Str(x.kind))
			}
			r := ai.Named("ext", strT)
			st.Assume(ai.Eq(r, ai.Str(".c")), false)
			st.Assume(ai.Eq(r, ai.Str(".cpp")), false)
			return one(r)
		}
	}
	return nil, false
}

// before are the masks that the directive had before the file is read.
func (x *walker) before(st *ai.State) *ai.T {
	old := st.Norm(st.Ghost["old"])
	if st.Eval(ai.App("mhas", boolT, old, x.key)) == -1 {
		return ai.Nil
	}
	return st.Norm(ai.App("mget", nil, old, x.key))
}

func (x *walker) what() string {
	s := map[string]string{".c": "a C file", ".cpp": "a C++ file", "directory": "a directory", "other": "a file that is not one of C or C++"}[x.kind]
	if x.err != nil {
		s += " that cannot be looked at"
	}
	if x.has {
		s += " that defines the directive"
	}
	return s
}

func (x *walker) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	stage := stageOf(st)
	m := st.Ghost["masks"]
	e := st.Norm(res[len(res)-1])
	isNil := st.Eval(ai.Eq(e, ai.Nil))
	source := x.kind == ".c" || x.kind == ".cpp"
	switch {
	case stage == "":
		x.fails("nothing", st, ins, "the tree is not walked")
	case stage == "entry" && (x.err != nil || st.Ghost["err"] != nil):
		x.run.events["errors of entries"]++
		if isNil != -1 || strings.Contains(e.String(), "Skip") {
			x.fails("error", st, ins, "the error for %s is lost", x.what())
		}
	case stage == "entry":
		x.run.events["entries"]++
		if isNil != 1 {
			x.fails("stop", st, ins, "%s ends the walk through the tree or skips a part of it", x.what())
			return
		}
		if source && st.Ghost["read"] == nil {
			x.fails("skipped", st, ins, "%s is not read", x.what())
			return
		}
		old := st.Norm(st.Ghost["old"])
		had := st.Eval(ai.App("mhas", boolT, old, x.key))
		before := x.before(st)
		has, got := x.look(st, st.MapOf(m))
		if !source || !x.has {
			if !(has == had && (has != 1 || got == before) && (has != 0 || st.MapOf(m) == old)) {
				x.fails("changed", st, ins, "%s changes the masks of a directive that it does not define", x.what())
			}
			return
		}
		add := st.Norm(ai.App("mget", nil, st.Norm(st.Ghost["in"]), x.key))
		l := joined(st, got)
		ok := has == 1 && (len(l) == 2 && l[0] == before && l[1] == add || len(l) == 1 && l[0] == add && (had == -1 || st.Eval(ai.Eq(ai.Len(before), ai.Int(0))) == 1) || len(l) == 1 && l[0] == before && st.Eval(ai.Eq(ai.Len(add), ai.Int(0))) == 1)
		if st.Ghost["next"] != nil && has == 1 && got == st.Norm(st.Ghost["sum"]) && st.Eval(ai.Le(ai.Len(add), st.Norm(st.Ghost["next"]))) == 1 {
			ok = true
		}
		if !ok {
			x.fails("masks", st, ins, "the masks of a directive in the tree become %s with those in a file, and not those before and those of the file", show(got))
		}
	case st.Ghost["err"] != nil || st.Ghost["empty"] != nil:
		x.run.events["errors of trees"]++
		if isNil != -1 {
			x.fails("error of tree", st, ins, "%s", map[bool]string{true: "an error of the walk is lost", false: "a tree without any directive is not an error"}[st.Ghost["err"] != nil])
		}
	default:
		x.run.events["trees"]++
		all := st.Norm(st.Ghost["all"])
		had := st.Eval(ai.App("mhas", boolT, all, x.key))
		if isNil != 1 {
			x.fails("no error", st, ins, "an error is returned although nothing failed")
			return
		}
		has, got := x.look(st, st.MapOf(st.Norm(res[0])))
		if has != had || has == 1 && got != st.Norm(ai.App("mget", nil, all, x.key)) {
			x.fails("result", st, ins, "%s is returned and not the masks that were collected", show(res[0]))
		}
	}
}

// joined are the parts of a list that is put together from others.
func joined(st *ai.State, l *ai.T) []*ai.T {
	l = st.Norm(l)
	if l.Is("list") {
		var out []*ai.T
		for _, a := range l.Args {
			out = append(out, st.Norm(a))
		}
		return out
	}
	return []*ai.T{l}
}

var genWalk = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"G02"}
	file := genFn(p, "os.ReadFile")
	tree := genFn(p, "path/filepath.WalkDir")
	if tree == nil {
		tree = genFn(p, "path/filepath.Walk")
	}
	if file == nil || tree == nil || file == tree {
		run.anchor(props, "the functions that collect the masks of a file and of a tree were not found")
		return run
	}
	cut := map[string]bool{}
	for _, kind := range []string{".c", ".cpp", "directory", "other", "error"} {
		for i := 0; i < 2; i++ {
			x := &walker{someKey: newSomeKey(p, run, "G02"), file: file, kind: kind, has: i == 1}
			x.gaveUp = cut
			x.track = []string{"masks"}
			x.isDir = ai.Named("isdir", boolT)
			x.path = ai.Named("file", strT)
			if kind == "error" {
				x.kind = []string{".c", "directory"}[i]
				x.err = ai.Named("walkerr", types.Universe.Lookup("error").Type())
				x.has = false
			} else if i == 1 && kind[0] != '.' {
				continue
			}
			x.e.Call = x.call
			x.e.Return = x.ret
			x.e.OnHeader = func(st *ai.State, b *ssa.BasicBlock) {
				if n := st.Ghost["next"]; n != nil {
					add := st.Norm(ai.App("mget", nil, st.Norm(st.Ghost["in"]), x.key))
					if st.Eval(ai.Le(ai.Len(add), st.Norm(n))) == 1 {
						sum := st.Norm(st.Ghost["sum"])
						st.Replace(sum, st.Norm(ai.App("list", sum.Typ, x.before(st), add)))
						delete(st.Ghost, "sum")
						delete(st.Ghost, "next")
					}
				}
				x.fold(st)
			}
			x.e.OnAppend = func(st *ai.State, b *ai.T, parts []*ai.T, res *ai.T, ins ssa.Instruction) {
				for _, q := range parts {
					if stageOf(st) == "entry" && strings.Contains(st.Norm(q).String(), "file") && !strings.Contains(st.Norm(q).String(), "masks") {
						x.give(st, "the files are collected before they are read", ins)
					}
				}
				if st.Ghost["in"] == nil || len(parts) != 1 || !parts[0].Is("el") {
					return
				}
				add := st.Norm(ai.App("mget", nil, st.Norm(st.Ghost["in"]), x.key))
				e := st.Norm(parts[0].Args[0])
				if !e.Is("index") || e.Args[0] != add {
					return
				}
				i := e.Args[1]
				if st.Ghost["next"] == nil && st.Eval(ai.Eq(i, ai.Int(0))) == 1 && st.Norm(b) == x.before(st) || st.Ghost["next"] != nil && st.Norm(b) == st.Norm(st.Ghost["sum"]) && st.Eval(ai.Eq(i, st.Norm(st.Ghost["next"]))) == 1 {
					st.Ghost["sum"], st.Ghost["next"] = res, ai.Add(i, 1)
				}
			}
			x.prod.explore(ai.NewState(x.e), tree, []*ai.T{ai.Named("path", strT)}, props)
		}
	}
	for _, k := range sortedKeys(cut) {
		run.cut = append(run.cut, k)
	}
	run.need(props, "trees walked", "files of a tree", "errors of entries", "entries", "errors of trees", "trees")
	return run
})

func init() {
	prodMore("G02", genWalk, "every C and C++ file of the tree is read, and its masks are added to those before", "an entry that cannot be looked at, a file that fails and a tree without directives are errors", "no other entry changes what is collected or ends the walk")
}

func stageOf(st *ai.State) string {
	if st.Ghost["stage"] == nil {
		return ""
	}
	s, _ := st.Ghost["stage"].IsStr()
	return s
}
