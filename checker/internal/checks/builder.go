package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

var buildProps = []string{"B02", "B03", "B05"}

// Build is decided in product with a reference that says what is to be written next. The function that
// renders the statements of a block is explored for any block, depth and line; where it is called, it is
// replaced by that.
type buildExplorer struct {
	*prod
	block                *ssa.Function // renders a block
	optT, stmtT, cfgT    types.Type
	w, cfg, opts         *ai.T
	list, parent, nested int // parameters of block: the statements; the statement around it; whether there is one
	depth, line          int
	nestedVal            bool
	entries              []entry
	phase                int
	seenCalls            map[ssa.Instruction]bool
}

type entry struct {
	st   *ai.State
	args []*ai.T
	recv []*ai.T
}

var buildAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	fn := rootFn(p, "Build")
	if fn == nil || len(fn.Params) != 3 {
		run.anchor(buildProps, "the function Build was not found")
		return run
	}
	cyc := inCycle(p)
	var first *prodRun
	// which int parameter is the depth and which one the line is found by trying
	for try := 0; try < 2; try++ {
		r := newRun()
		x := &buildExplorer{prod: newProd(p, r, "B02"), seenCalls: map[ssa.Instruction]bool{}}
		x.optT, x.stmtT, x.cfgT = rootType(p, "BuildOptions"), rootType(p, "Directive"), rootType(p, "Config")
		if x.optT == nil || x.stmtT == nil || x.cfgT == nil {
			run.anchor(buildProps, "types of the library were not found")
			return run
		}
		x.explore(fn, cyc, try == 1)
		if first == nil || len(r.problems) == 0 {
			first = r
		}
		if len(r.problems) == 0 {
			break
		}
	}
	first.need(buildProps, "header written", "body written", "write error returned", "builder applied", "comment on the line before", "comment on its own", "directive by a builder", "directive", "if", "argument", "end of statement", "block")
	return first
})

// inCycle are the functions of the module that may call themselves, directly or through others.
func inCycle(p *load.Prog) map[*ssa.Function]bool {
	next := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						next[f] = append(next[f], g)
					}
				}
				if m, ok := ins.(*ssa.MakeClosure); ok {
					next[f] = append(next[f], m.Fn.(*ssa.Function))
				}
			}
		}
	}
	r := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		seen := map[*ssa.Function]bool{}
		work := append([]*ssa.Function{}, next[f]...)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if g == f {
				r[f] = true
				break
			}
			if !seen[g] {
				seen[g] = true
				work = append(work, next[g]...)
			}
		}
	}
	return r
}

func (x *buildExplorer) opt(st *ai.State, name string) *ai.T { return field(st, x.opts, x.optT, name) }

func (x *buildExplorer) explore(fn *ssa.Function, cyc map[*ssa.Function]bool, swap bool) {
	e := x.e
	as := args(fn)
	x.w, x.cfg, x.opts = as[0], as[1], as[2]
	st := ai.NewState(e)
	st.Assume(ai.Eq(x.opts, ai.Nil), false)
	st.Assume(ai.Eq(x.w, ai.Nil), false)
	e.Call = func(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) { return x.top(st, c, cyc, swap) }
	e.Return = x.topRet
	guard(x.p, e, "Build writes to memory of its caller", false, x.opts, x.cfg)
	st.Ghost["out"] = ai.Str("")
	st.Ghost["n"] = ai.Int(0)
	x.prod.explore(st, fn, as, buildProps)
	if len(x.run.problems) > 0 {
		return
	}
	if len(x.entries) == 0 {
		x.run.anchor(buildProps, "no function that renders a block is called by Build")
		return
	}
	x.phase = 1
	for i, q := range x.block.Params {
		if i == x.list {
			guard(x.p, e, "Build writes to the statements that it renders", false, ai.Named("block", q.Type()))
		} else if i == x.parent {
			guard(x.p, e, "Build writes to the statements that it renders", false, ai.Named("parent", q.Type()))
		}
	}
	defer func() { e.WidenGhost = nil }()
	done := map[string]bool{}
	for _, en := range x.entries {
		e.Call = x.call
		e.Return = x.ret
		e.OnHeader = x.header
		s := en.st
		s.Forget(nil)
		if ind := s.Ghost["indent"]; ind.K != ai.KConst {
			s.Assume(ai.Le(ind, ai.Int(0)), false)
		}
		args := append([]*ai.T{}, en.args...)
		for i, q := range x.block.Params {
			switch {
			case i == x.list:
				args[i] = ai.Named("block", q.Type())
			case i == x.parent:
				args[i] = ai.Named("parent", q.Type())
			case i == x.nested:
				args[i] = ai.Named("nested", q.Type())
			case i == x.depth:
				args[i] = ai.Named("depth", q.Type())
				s.Assume(ai.Le(ai.Int(0), args[i]), true)
			case i == x.line:
				args[i] = ai.Named("line", q.Type())
			}
		}
		// whichever builders are registered
		if o := x.options(s); o != nil {
			i := fieldIndex(x.optT, "extBuilders")
			ft := x.optT.Underlying().(*types.Struct).Field(i).Type()
			s.Store(ai.FieldAddr(o, i), ai.Named("extBuilders", ft), ft)
		}
		var conds []*ai.State
		yes, no := s.Clone().Split(x.nestedCond(args))
		for _, t := range []*ai.State{yes, no} {
			if t == nil {
				continue
			}
			if x.depth >= 0 {
				t.Assume(ai.Eq(args[x.depth], ai.Int(0)), t == no)
			}
			if !t.Dead() {
				conds = append(conds, t)
			}
		}
		for _, t := range conds {
			t.Ghost = map[string]*ai.T{"opts": x.options(s), "body": s.Ghost["body"], "indent": s.Ghost["indent"]}
			t.Ghost["list"] = args[x.list]
			t.Ghost["nested"] = ai.Bool(t.Eval(x.nestedCond(args)) == 1)
			if x.depth >= 0 {
				t.Ghost["depth"] = args[x.depth]
			}
			switch {
			case x.line >= 0:
				t.Ghost["line"] = args[x.line]
			case x.parent >= 0 && gb(t, "nested"):
				t.Ghost["line"] = field(t, args[x.parent], x.stmtT, "Line")
			default:
				t.Ghost["line"] = ai.Int(0)
			}
			t.Ghost["n"] = ai.Int(0)
			t.Ghost["stage"] = ai.Str("next")
			k := fmt.Sprint(t.Ghost["indent"], t.Ghost["nested"])
			if done[k] {
				continue
			}
			done[k] = true
			x.prod.explore(t, x.block, args, buildProps)
			if len(x.run.problems) > 0 {
				return
			}
		}
	}
}

// nestedCond is the condition that a block is not the whole file.
func (x *buildExplorer) nestedCond(args []*ai.T) *ai.T {
	switch {
	case x.parent >= 0:
		return ai.Not(ai.Eq(args[x.parent], ai.Nil))
	case x.nested >= 0 && x.nestedVal:
		return args[x.nested]
	case x.nested >= 0:
		return ai.Not(args[x.nested])
	case x.depth >= 0:
		return ai.Not(ai.Eq(args[x.depth], ai.Int(0)))
	}
	return ai.False
}

// options is the copy of the options that Build works with.
func (x *buildExplorer) options(st *ai.State) *ai.T {
	var r *ai.T
	for o := range st.Heap {
		if o.K == ai.KObj && strings.HasPrefix(o.Op, "new") && o.Typ != nil && types.Identical(o.Typ, x.optT) {
			if r != nil {
				return nil
			}
			r = o
		}
	}
	return r
}

// roles finds out what the parameters of the function that renders a block are for.
func (x *buildExplorer) roles(fn *ssa.Function, args []*ai.T, swap bool) {
	x.block, x.list, x.parent, x.nested, x.depth, x.line = fn, -1, -1, -1, -1, -1
	var ints []int
	for i, q := range fn.Params {
		switch t := q.Type().Underlying().(type) {
		case *types.Slice:
			if isPtrTo(t.Elem(), "Directive") {
				x.list = i
			}
		case *types.Pointer:
			if isNamed(t.Elem(), "Directive") {
				x.parent = i
			}
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				ints = append(ints, i)
			}
			if t.Kind() == types.Bool {
				x.nested = i
				b, _ := args[i].IsBool()
				x.nestedVal = !b
			}
		}
	}
	if swap && len(ints) == 2 {
		ints[0], ints[1] = ints[1], ints[0]
	}
	if len(ints) > 0 {
		x.depth = ints[0]
	}
	if len(ints) > 1 {
		x.line = ints[1]
	}
}

func isPtrTo(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), name)
}

// written is what a call writes, and to what.
func written(st *ai.State, c *ai.CallInfo) (to, s *ai.T, ok bool) {
	str := func(t *ai.T) *ai.T { return st.Norm(ai.App("string", strT, t)) }
	name := c.Name
	if c.Fn != nil && c.Fn.Signature.Recv() != nil {
		name = c.Fn.Name()
	} else if c.Common.IsInvoke() {
		name = c.Common.Method.Name()
	}
	recv, as := c.Callee, c.Args
	if c.Fn != nil && c.Fn.Signature.Recv() != nil {
		recv, as = c.Args[0], c.Args[1:]
	}
	switch name {
	case "io.WriteString":
		return c.Args[0], c.Args[1], true
	case "fmt.Fprint", "fmt.Fprintf":
	case "WriteString":
		if len(as) == 1 && recv != nil {
			return recv, as[0], true
		}
	case "Write":
		if len(as) == 1 && recv != nil {
			return recv, str(as[0]), true
		}
	case "WriteByte":
		if len(as) == 1 && recv != nil {
			if b, ok := as[0].IsInt(); ok {
				return recv, ai.Str(string([]byte{byte(b)})), true
			}
			return recv, ai.App("bytestr", strT, as[0]), true
		}
	case "WriteRune":
		if len(as) == 1 && recv != nil {
			if b, ok := as[0].IsInt(); ok {
				return recv, ai.Str(string(rune(b))), true
			}
			return recv, ai.App("runestr", strT, as[0]), true
		}
	}
	return nil, nil, false
}

// result is what a successful call that writes something returns.
func writeResult(st *ai.State, c *ai.CallInfo, s *ai.T) *ai.T {
	rs := c.Common.Signature().Results()
	if rs.Len() == 1 {
		return ai.Nil
	}
	return ai.Tuple(ai.Len(s), ai.Nil)
}

func strip(t *ai.T) *ai.T {
	for t.K == ai.KApp && strings.HasPrefix(t.Op, "iface:") {
		t = t.Args[0]
	}
	return t
}

// top is a call on the level of Build.
func (x *buildExplorer) top(st *ai.State, c *ai.CallInfo, cyc map[*ssa.Function]bool, swap bool) ([]ai.Outcome, bool) {
	if to, s, ok := written(st, c); ok && strip(st.Norm(to)) == x.w {
		if st.Ghost["err"] != nil {
			x.fail(st, c.Instr, "B03", "after-error", "something is written after a write ended with an error")
			return nil, true
		}
		n := st.Clone()
		st.Ghost["out"] = st.Norm(ai.Cat(st.Ghost["out"], s))
		er := n.Fresh("writeerr", errT)
		n.Assume(ai.Eq(er, ai.Nil), false)
		n.Ghost["err"] = er
		n.Note("the write ends with an error")
		rs := c.Common.Signature().Results()
		bad := er
		if rs.Len() == 2 {
			bad = ai.Tuple(n.Fresh("written", rs.At(0).Type()), er)
		}
		return []ai.Outcome{{St: st, Res: writeResult(st, c, s)}, {St: n, Res: bad}}, true
	}
	for _, a := range c.Args {
		if strip(st.Norm(a)) == x.w && (c.Fn == nil || !x.e.Module(c.Fn)) {
			x.fail(st, c.Instr, "B02", "undecided-writer", "undecided: the writer is passed to %s", c.Name)
			return nil, true
		}
	}
	if c.Common.IsInvoke() && c.Common.Method.Name() == "applyBuildOptions" || c.Fn != nil && c.Fn.Name() == "applyBuildOptions" {
		o := x.options(st)
		recv, to := c.Callee, c.Args[len(c.Args)-1]
		if c.Fn != nil {
			recv = c.Args[0]
		}
		list := st.Norm(x.opt(st, "Builders"))
		switch {
		case o == nil || st.Norm(to) != o:
			x.fail(st, c.Instr, "B05", "apply-to", "a builder is registered with %s, not with the options that are used", show(to))
			return nil, true
		case st.Norm(recv) != at(st, list, st.Ghost["n"], x.optT.Underlying().(*types.Struct).Field(fieldIndex(x.optT, "Builders")).Type().Underlying().(*types.Slice).Elem()):
			x.fail(st, c.Instr, "B05", "apply-order", "%s is applied, not the next one of the Builders", show(recv))
			return nil, true
		}
		ft := x.optT.Underlying().(*types.Struct).Field(fieldIndex(x.optT, "extBuilders")).Type()
		m := ai.FieldAddr(o, fieldIndex(x.optT, "extBuilders"))
		cur := st.Norm(st.Load(m, ft))
		if st.Ghost["reg"] == nil {
			if !(st.Eval(ai.Eq(cur, ai.Nil)) == 1 || st.Norm(st.MapOf(cur)).Is("mempty")) {
				x.fail(st, c.Instr, "B05", "apply-start", "builders of another call may be registered at first")
				return nil, true
			}
		} else if cur != st.Norm(st.Ghost["reg"]) {
			x.fail(st, c.Instr, "B05", "apply-reset", "builders that were registered are dropped")
			return nil, true
		}
		r := st.Fresh("registered", ft)
		st.Store(m, r, ft)
		st.Ghost["reg"] = r
		st.Ghost["n"] = st.Norm(ai.Add(st.Ghost["n"], 1))
		x.run.events["builder applied"]++
		return []ai.Outcome{{St: st, Res: ai.Nil}}, true
	}
	if c.Fn != nil && cyc[c.Fn] && c.Fn.Pkg == x.p.RootSSA {
		return x.topBlock(st, c, swap), true
	}
	return nil, false
}

// topBlock is the call that renders the whole file.
func (x *buildExplorer) topBlock(st *ai.State, c *ai.CallInfo, swap bool) []ai.Outcome {
	if x.block == nil {
		x.roles(c.Fn, c.Args, swap)
	}
	bad := func(key, f string, a ...interface{}) []ai.Outcome {
		x.fail(st, c.Instr, "B02", key, f, a...)
		return nil
	}
	if c.Fn != x.block || x.list < 0 || x.depth < 0 {
		return bad("undecided-block", "undecided: the function %s that renders a block does not have the statements and the depth as parameters", c.Fn)
	}
	parsed := st.Norm(field2(st, x.cfg, x.cfgT, "Parsed"))
	o := x.options(st)
	n := st.Eval(ai.Eq(st.Ghost["n"], ai.Len(x.opt(st, "Builders"))))
	reg := ai.Nil
	if o != nil {
		reg = field(st, o, x.optT, "extBuilders")
	}
	switch {
	case st.Ghost["content"] != nil:
		return bad("twice", "the statements are rendered twice")
	case st.Norm(c.Args[x.list]) != parsed:
		return bad("top-list", "%s is rendered, not the directives of the config", show(c.Args[x.list]))
	case st.Eval(ai.Eq(c.Args[x.depth], ai.Int(0))) != 1:
		return bad("top-depth", "the depth of the directives of the config is %s", show(c.Args[x.depth]))
	case x.line >= 0 && st.Eval(ai.Eq(c.Args[x.line], ai.Int(0))) != 1:
		return bad("top-line", "the line before the first directive is %s", show(c.Args[x.line]))
	case st.Eval(x.nestedCond(c.Args)) != -1:
		return bad("top-parent", "the directives of the config have a parent")
	case o == nil:
		return bad("top-options", "undecided: the copy of the options is not found")
	case n != 1:
		x.fail(st, c.Instr, "B05", "apply-all", "statements are rendered before all Builders were applied")
		return nil
	case st.Ghost["reg"] != nil && reg != st.Norm(st.Ghost["reg"]) || st.Ghost["reg"] == nil && !(st.Eval(ai.Eq(reg, ai.Nil)) == 1 || st.Norm(st.MapOf(reg)).Is("mempty")):
		x.fail(st, c.Instr, "B05", "apply-lost", "statements are rendered with %s, not with the builders that were applied", show(reg))
		return nil
	}
	// the options are those of the caller, with an indentation of 4 by default
	ind := x.opt(st, "Indent")
	var out []ai.Outcome
	yes, no := st.Split(ai.Le(ind, ai.Int(0)))
	for _, s := range []*ai.State{yes, no} {
		if s == nil {
			continue
		}
		want := x.opt(s, "Indent")
		if s == yes {
			want = ai.Int(4)
		}
		if got := field(s, o, x.optT, "Indent"); s.Eval(ai.Eq(got, want)) != 1 {
			x.fail(s, c.Instr, "B02", "indent", "statements are indented by %s, not by %s", show(got), show(want))
			continue
		}
		if got := field(s, o, x.optT, "Tabs"); got != x.opt(s, "Tabs") {
			x.fail(s, c.Instr, "B02", "tabs", "the option Tabs is %s", show(got))
			continue
		}
		body := x.body(s, c.Args)
		if body == nil {
			x.fail(s, c.Instr, "B02", "undecided-body", "undecided: what the statements are written to is not found")
			continue
		}
		if t := s.Norm(s.SB(body)); t != ai.Str("") {
			s.Ghost["before"] = t
		}
		s.Ghost["content"] = ai.Named("content", strT)
		en := s.Clone()
		en.Frames = nil
		en.ResetOwnership()
		en.Ghost["body"] = body
		en.Ghost["indent"] = want
		x.entries = append(x.entries, entry{st: en, args: c.Args})
		s.SetSB(body, s.Norm(ai.Cat(s.SB(body), ai.Named("content", strT))))
		out = append(out, ai.Outcome{St: s, Res: s.FreshOf("rendered", c.Typ)})
	}
	return out
}

// body is the builder that the statements are written to.
func (x *buildExplorer) body(st *ai.State, args []*ai.T) *ai.T {
	isB := func(t *ai.T) bool {
		return t.K == ai.KObj && t.Typ != nil && (types.TypeString(t.Typ, nil) == "strings.Builder" || types.TypeString(t.Typ, nil) == "bytes.Buffer")
	}
	var r []*ai.T
	for _, a := range args {
		a = strip(st.Norm(a))
		if isB(a) {
			r = append(r, a)
			continue
		}
		if a.K == ai.KObj && a.Typ != nil {
			if s, ok := a.Typ.Underlying().(*types.Struct); ok && !types.Identical(a.Typ, x.optT) {
				for i := 0; i < s.NumFields(); i++ {
					if v := strip(st.Norm(st.Load(ai.FieldAddr(a, i), s.Field(i).Type()))); isB(v) {
						r = append(r, v)
					}
				}
			}
		}
	}
	if len(r) == 1 {
		return r[0]
	}
	return nil
}

// field2 reads a field of a struct value.
func field2(st *ai.State, v *ai.T, typ types.Type, name string) *ai.T {
	i := fieldIndex(typ, name)
	if i < 0 {
		return ai.Nil
	}
	v = st.Norm(v)
	if v.Is("struct") {
		return st.Norm(v.Args[i])
	}
	return st.Norm(ai.App("fieldof", typ.Underlying().(*types.Struct).Field(i).Type(), v, ai.Int(int64(i))))
}

func (x *buildExplorer) topRet(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	if len(res) != 1 {
		return
	}
	if er := st.Ghost["err"]; er != nil {
		if !stripIface(st, res[0], er) {
			x.fail(st, ins, "B03", "dropped", "Build returns %s although a write ended with an error", show(res[0]))
			return
		}
		x.run.events["write error returned"]++
		return
	}
	if st.Eval(ai.Eq(res[0], ai.Nil)) != 1 {
		x.fail(st, ins, "B03", "invented", "Build returns %s although nothing failed", show(res[0]))
		return
	}
	yes, no := st.Split(x.opt(st, "Header"))
	for _, s := range []*ai.State{yes, no} {
		if s == nil {
			continue
		}
		x.topOut(s, s == yes, ins)
	}
}

// topOut checks all that was written.
func (x *buildExplorer) topOut(st *ai.State, hd bool, ins ssa.Instruction) {
	ps := catParts(st.Norm(st.Ghost["out"]))
	pre := ""
	if len(ps) > 0 {
		if s, ok := ps[0].IsStr(); ok {
			pre, ps = s, ps[1:]
		}
	}
	switch {
	case hd && !goodHeader(pre):
		x.fail(st, ins, "B02", "header", "the header is %q, which is not a list of comments and empty lines", pre)
		return
	case !hd && pre != "":
		x.fail(st, ins, "B02", "no-header", "%q is written before the statements, and no header is to be", pre)
		return
	}
	if hd {
		x.run.events["header written"]++
	}
	c := ai.Named("content", strT)
	if st.Ghost["content"] == nil || st.Ghost["before"] != nil {
		x.fail(st, ins, "B02", "no-body", "the statements are not rendered, or something is before them")
		return
	}
	var got *ai.T
	switch len(ps) {
	case 0:
		got = ai.Str("")
	case 1:
		got = ps[0]
	default:
		x.fail(st, ins, "B02", "body", "what is written is %s", show(st.Ghost["out"]))
		return
	}
	// one newline is cut off at the end
	empty := st.Eval(ai.Eq(c, ai.Str("")))
	last := st.Eval(ai.App("hassuffix", boolT, c, ai.Str("\n")))
	if last == 0 {
		last = st.Eval(ai.Eq(st.Norm(ai.App("index", types.Typ[types.Byte], c, ai.Add(ai.Len(c), -1))), ai.Int('\n')))
	}
	switch {
	case got == c && (empty == 1 || last == -1), got == ai.Str("") && empty == 1:
	case got.Is("substr") && got.Args[0] == c && got.Args[1] == ai.Int(0) && got.Args[2] == st.Norm(ai.Add(ai.Len(c), -1)) && last == 1:
	default:
		x.fail(st, ins, "B02", "body", "what is written is %s, which is not all of the statements up to one newline at the end", show(got))
		return
	}
	x.run.events["body written"]++
}

// goodHeader tells whether a text is some lines of comments.
func goodHeader(s string) bool {
	if s == "" || !strings.HasSuffix(s, "\n") {
		return false
	}
	for _, l := range strings.Split(s, "\n") {
		if l != "" && !strings.HasPrefix(l, "#") {
			return false
		}
	}
	return true
}

func catParts(t *ai.T) []*ai.T {
	if t.Is("cat") {
		return t.Args
	}
	if s, ok := t.IsStr(); ok && s == "" {
		return nil
	}
	return []*ai.T{t}
}

// ---- the statements of a block

func (x *buildExplorer) stmt(st *ai.State) *ai.T {
	return at(st, st.Ghost["list"], st.Ghost["n"], types.NewPointer(x.stmtT))
}

func (x *buildExplorer) sf(st *ai.State, name string) *ai.T {
	return field(st, x.stmt(st), x.stmtT, name)
}

// call is a call while a block is rendered.
func (x *buildExplorer) call(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	switch {
	case c.Fn != nil && c.Fn.Name() == "Enquote" && c.Fn.Pkg == x.p.RootSSA && c.Fn.Signature.Recv() == nil:
		a := st.Norm(c.Args[0])
		r := ai.App("enquote", strT, a)
		if st.Eval(ai.Lt(st.Ghost["n"], ai.Len(st.Norm(st.Ghost["list"])))) == 1 && a == x.sf(st, "Directive") {
			yes, no := st.Split(ai.Eq(a, ai.Str("if")))
			var out []ai.Outcome
			if yes != nil {
				out = append(out, ai.Outcome{St: yes, Res: ai.Str("if")})
			}
			if no != nil {
				no.Assume(ai.Eq(r, ai.Str("if")), false)
				out = append(out, ai.Outcome{St: no, Res: r})
			}
			return out, true
		}
		if a.K == ai.KConst {
			return nil, false
		}
		return []ai.Outcome{{St: st, Res: r}}, true
	case c.Fn == x.block:
		return x.nestedBlock(st, c), true
	case c.Common.IsInvoke() && c.Common.Method.Name() == "Build" && c.Fn == nil:
		key, reg := x.registered(st)
		if key == nil || st.Eval(reg) != 1 || st.Norm(c.Callee) != x.builder(st, key) || len(c.Args) != 1 || st.Norm(c.Args[0]) != x.stmt(st) || gs(st, "stage") == "next" && st.Ghost["rendered"] != nil {
			x.fail(st, c.Instr, "B05", "render", "a builder is called that is not the one that is registered for the directive, or not with that statement, or twice")
			return nil, true
		}
		r := st.Fresh("rendered", strT)
		st.Ghost["rendered"] = r
		return []ai.Outcome{{St: st, Res: r}}, true
	}
	if to, s, ok := written(st, c); ok && strip(st.Norm(to)) == st.Ghost["body"] {
		var out []ai.Outcome
		for _, t := range x.consume(st, s, c.Instr) {
			if !t.Dead() {
				out = append(out, ai.Outcome{St: t, Res: writeResult(t, c, s)})
			}
		}
		return out, true
	}
	if b := st.Ghost["body"]; b != nil {
		for _, a := range c.Args {
			if strip(st.Norm(a)) == b && (c.Fn == nil || !x.e.Module(c.Fn)) {
				x.fail(st, c.Instr, "B02", "undecided-writer", "undecided: %s may change what was written", c.Name)
				return nil, true
			}
		}
	}
	return nil, false
}

// registered is the name that a builder is looked up with, and the condition that there is one.
func (x *buildExplorer) registered(st *ai.State) (key, cond *ai.T) {
	d := x.sf(st, "Directive")
	key = d
	m := field(st, st.Ghost["opts"], x.optT, "extBuilders")
	return key, ai.And(ai.Not(ai.Eq(m, ai.Nil)), ai.App("mhas", boolT, st.Norm(st.MapOf(m)), key))
}

func (x *buildExplorer) builder(st *ai.State, key *ai.T) *ai.T {
	m := field(st, st.Ghost["opts"], x.optT, "extBuilders")
	i := fieldIndex(x.optT, "extBuilders")
	vt := x.optT.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Map).Elem()
	return st.Norm(ai.App("mget", vt, st.Norm(st.MapOf(m)), key))
}

func (x *buildExplorer) nestedBlock(st *ai.State, c *ai.CallInfo) []ai.Outcome {
	bad := func(key, f string, a ...interface{}) []ai.Outcome {
		x.fail(st, c.Instr, "B02", key, f, a...)
		return nil
	}
	if gs(st, "stage") != "block" {
		return bad("block-place", "a block is rendered, but %s is to be written next", x.due(st))
	}
	a := c.Args
	line := x.sf(st, "Line")
	switch {
	case st.Norm(a[x.list]) != x.sf(st, "Block"):
		return bad("block-list", "%s is rendered, not the block of the statement", show(a[x.list]))
	case st.Norm(a[x.depth]) != st.Norm(ai.Add(st.Ghost["depth"], 1)):
		return bad("block-depth", "the depth of a block is %s", show(a[x.depth]))
	case x.line >= 0 && st.Eval(ai.Eq(a[x.line], line)) != 1:
		return bad("block-line", "the line before the first statement of a block is %s, not that of the block", show(a[x.line]))
	case x.parent >= 0 && x.line < 0 && st.Norm(a[x.parent]) != x.stmt(st):
		return bad("block-parent", "the parent of a block is %s", show(a[x.parent]))
	case st.Eval(x.nestedCond(a)) != 1 && !(x.parent >= 0 && st.Norm(a[x.parent]) == x.stmt(st)):
		return bad("block-parent", "a block is rendered like the whole file")
	}
	for i, v := range a {
		if i != x.list && i != x.depth && i != x.line && i != x.parent && i != x.nested && st.Norm(v) != st.Norm(st.Frames[0].Env[x.block.Params[i]]) {
			return bad("block-args", "a block is rendered with %s, unlike the block around it", show(v))
		}
	}
	st.Ghost["stage"] = ai.Str("lit")
	st.Ghost["lit"] = ai.Str("\n")
	st.Ghost["then"] = ai.Str("close")
	x.run.events["block"]++
	return []ai.Outcome{{St: st, Res: st.FreshOf("rendered", c.Typ)}}
}

// due says what is to be written next.
func (x *buildExplorer) due(st *ai.State) string {
	s := gs(st, "stage")
	switch s {
	case "lit":
		l, _ := st.Ghost["lit"].IsStr()
		return fmt.Sprintf("%q", l)
	case "term":
		return show(st.Ghost["lit"])
	}
	return s
}

// consume follows what is written.
func (x *buildExplorer) consume(st *ai.State, s *ai.T, ins ssa.Instruction) []*ai.State {
	sts := []*ai.State{st}
	for _, p := range catParts(st.Norm(s)) {
		var next []*ai.State
		for _, t := range sts {
			next = append(next, x.part(t, p, ins)...)
		}
		sts = next
	}
	return sts
}

// part follows one part of what is written.
func (x *buildExplorer) part(st *ai.State, p *ai.T, ins ssa.Instruction) []*ai.State {
	p = st.Norm(p)
	if s, ok := p.IsStr(); ok && s == "" {
		return []*ai.State{st}
	}
	if p.Is("join") && ai.Widened(p.Args[0]) {
		// what a loop put into the list is not known: what is written cannot be compared
		if len(x.run.cut) == 0 {
			x.run.cut = append(x.run.cut, "the joined list that is written at "+pos(x.p, ins))
		}
		return nil
	}
	var out []*ai.State
	for _, t := range x.expand(st, ins) {
		if t.Dead() {
			continue
		}
		switch gs(t, "stage") {
		case "margin":
			w, isEmpty := x.margin(t)
			s, ok := p.IsStr()
			switch {
			case isEmpty:
				x.done(t)
				out = append(out, x.part(t, p, ins)...)
			case sameRep(t, p, w):
				x.done(t)
				out = append(out, t)
			case ok && sameRep(t, ai.Str(""), w):
				_ = s
			default:
				x.fail(t, ins, "B02", "margin", "%s is written, but the indentation %s is to be", show(p), show(w))
			}
		case "lit":
			w, _ := t.Ghost["lit"].IsStr()
			s, ok := p.IsStr()
			switch {
			case !ok:
				x.fail(t, ins, "B02", "text", "%s is written, but %q is to be", show(p), w)
			case strings.HasPrefix(w, s):
				t.Ghost["lit"] = ai.Str(w[len(s):])
				if len(s) == len(w) {
					x.done(t)
				}
				out = append(out, t)
			case strings.HasPrefix(s, w):
				x.done(t)
				out = append(out, x.part(t, ai.Str(s[len(w):]), ins)...)
			default:
				x.fail(t, ins, "B02", "text", "%q is written, but %q is to be", s, w)
			}
		case "term":
			w := t.Norm(t.Ghost["lit"])
			if p == w || x.sameElem(t, p, w) {
				x.done(t)
				out = append(out, t)
			} else {
				x.fail(t, ins, "B02", "text", "%s is written, but %s is to be", show(p), show(w))
			}
		default:
			x.fail(t, ins, "B02", "text", "%s is written, but %s is to be", show(p), x.due(t))
		}
	}
	return out
}

// sameElem compares terms whose positions in lists may be written differently.
func (x *buildExplorer) sameElem(st *ai.State, a, b *ai.T) bool {
	if a == b {
		return true
	}
	if a.K != ai.KApp || b.K != ai.KApp || a.Op != b.Op || len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if a.Op == "index" && i == 1 {
			if st.Eval(ai.Eq(a.Args[1], b.Args[1])) != 1 {
				return false
			}
			continue
		}
		if !x.sameElem(st, a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

// margin is the indentation of a statement.
func (x *buildExplorer) margin(st *ai.State) (w *ai.T, empty bool) {
	d := st.Norm(st.Ghost["depth"])
	tabs := field(st, st.Ghost["opts"], x.optT, "Tabs")
	if st.Eval(ai.Eq(d, ai.Int(0))) == 1 {
		return ai.Str(""), true
	}
	if st.Eval(tabs) == 1 {
		return ai.App("repeat", strT, ai.Str("\t"), d), false
	}
	return ai.App("repeat", strT, ai.Str(" "), ai.App("*", intT, d, st.Ghost["indent"])), false
}

// sameRep compares repetitions of a character.
func sameRep(st *ai.State, got, want *ai.T) bool {
	gc, gn := repetition(st, got)
	wc, wn := repetition(st, want)
	return gn != nil && wn != nil && gc == wc && fmt.Sprint(factors(gn)) == fmt.Sprint(factors(wn))
}

// repetition tells which character a text repeats, and how often.
func repetition(st *ai.State, t *ai.T) (string, *ai.T) {
	t = st.Norm(t)
	if t.Is("repeat") {
		s, ok := t.Args[0].IsStr()
		if ok && len(s) == 1 {
			return s, t.Args[1]
		}
	}
	if t.Is("substr") && t.Args[1] == ai.Int(0) && t.Args[2].K != ai.KNil {
		if s, ok := t.Args[0].IsStr(); ok && s != "" && strings.Trim(s, s[:1]) == "" {
			return s[:1], t.Args[2]
		}
	}
	return "", nil
}

func factors(t *ai.T) []string {
	if t.Is("*") {
		r := append(factors(t.Args[0]), factors(t.Args[1])...)
		sort.Strings(r)
		return r
	}
	return []string{t.String()}
}

// done goes on after something was written.
func (x *buildExplorer) done(st *ai.State) {
	set := func(stage string, lit *ai.T, then string) {
		st.Ghost["stage"], st.Ghost["then"] = ai.Str(stage), ai.Str(then)
		delete(st.Ghost, "lit")
		if lit != nil {
			st.Ghost["lit"] = lit
		}
	}
	switch gs(st, "then") {
	case "comment-text-same", "comment-text":
		c := st.Norm(st.Load(x.sf(st, "Comment"), strT))
		then := "end"
		if gs(st, "then") == "comment-text-same" {
			then = "end-same"
		}
		set("term", c, then)
	case "margin":
		set("margin", nil, "body")
	case "body":
		set("body", nil, "")
	case "args":
		st.Ghost["k"] = ai.Int(0)
		set("args", nil, "")
	case "args-next":
		st.Ghost["k"] = st.Norm(ai.Add(st.Ghost["k"], 1))
		x.run.events["argument"]++
		set("args", nil, "")
	case "arg":
		l := x.sf(st, "Args")
		set("term", st.Norm(ai.App("enquote", strT, at(st, l, st.Ghost["k"], strT))), "args-next")
	case "block":
		set("block", nil, "")
	case "tail":
		set("tail", nil, "")
	case "close":
		set("margin", nil, "brace")
	case "brace":
		set("lit", ai.Str("}"), "end")
	case "end", "end-same", "end-builder":
		if gs(st, "then") == "end" {
			st.Ghost["line"] = x.sf(st, "Line")
		}
		x.run.events["end of statement"]++
		st.Ghost["n"] = st.Norm(ai.Add(st.Ghost["n"], 1))
		delete(st.Ghost, "k")
		delete(st.Ghost, "rendered")
		set("next", nil, "")
	default:
		panic("builder: " + gs(st, "then"))
	}
}

// expand decides what is to be written next where that depends on the statement.
func (x *buildExplorer) expand(st *ai.State, ins ssa.Instruction) []*ai.State {
	set := func(st *ai.State, stage string, lit *ai.T, then string) {
		st.Ghost["stage"], st.Ghost["then"] = ai.Str(stage), ai.Str(then)
		delete(st.Ghost, "lit")
		if lit != nil {
			st.Ghost["lit"] = lit
		}
	}
	split := func(st *ai.State, c *ai.T) (*ai.State, *ai.State) { return st.Split(st.Norm(c)) }
	var out []*ai.State
	again := func(t *ai.State) {
		if t != nil && !t.Dead() {
			out = append(out, x.expand(t, ins)...)
		}
	}
	switch gs(st, "stage") {
	case "next":
		if st.Eval(ai.Lt(st.Ghost["n"], ai.Len(st.Norm(st.Ghost["list"])))) != 1 {
			x.fail(st, ins, "B02", "after", "something is written although no statement is known to be left")
			return nil
		}
		same, other := split(st, ai.Eq(x.sf(st, "Line"), st.Ghost["line"]))
		var rest []*ai.State
		if same != nil {
			y, n := x.comment(same)
			for _, t := range y {
				x.run.events["comment on the line before"]++
				set(t, "lit", ai.Str(" #"), "comment-text-same")
				out = append(out, t)
			}
			rest = append(rest, n...)
		}
		if other != nil {
			rest = append(rest, other)
		}
		for _, t := range rest {
			if gb(t, "nested") {
				set(t, "lit", ai.Str("\n"), "margin")
				out = append(out, t)
				continue
			}
			first, later := split(t, ai.Eq(t.Ghost["n"], ai.Int(0)))
			if first != nil {
				set(first, "margin", nil, "body")
				out = append(out, first)
			}
			if later != nil {
				set(later, "lit", ai.Str("\n"), "margin")
				out = append(out, later)
			}
		}
		return out
	case "margin":
		if _, empty := x.margin(st); empty {
			x.done(st)
			return x.expand(st, ins)
		}
		y, n := split(st, field(st, st.Ghost["opts"], x.optT, "Tabs"))
		for _, t := range []*ai.State{y, n} {
			if t != nil {
				out = append(out, t)
			}
		}
		return out
	case "body":
		_, reg := x.registered(st)
		y, n := split(st, reg)
		if y != nil {
			if y.Ghost["rendered"] == nil {
				x.fail(y, ins, "B05", "not-rendered", "a directive is written without the builder that is registered for it")
			} else {
				x.run.events["directive by a builder"]++
				set(y, "term", y.Norm(y.Ghost["rendered"]), "end-builder")
				out = append(out, y)
			}
		}
		if n != nil {
			cs, ds := x.comment(n)
			for _, t := range cs {
				x.run.events["comment on its own"]++
				set(t, "lit", ai.Str("#"), "comment-text")
				out = append(out, t)
			}
			for _, t := range ds {
				x.run.events["directive"]++
				yes, no := split(t, ai.Eq(x.sf(t, "Directive"), ai.Str("if")))
				if yes != nil {
					set(yes, "lit", ai.Str("if"), "args")
					yes.Ghost["if"] = ai.True
					out = append(out, yes)
				}
				if no != nil {
					delete(no.Ghost, "if")
					set(no, "term", no.Norm(ai.App("enquote", strT, x.sf(no, "Directive"))), "args")
					out = append(out, no)
				}
			}
		}
		return out
	case "args":
		l := x.sf(st, "Args")
		y, n := split(st, ai.Lt(st.Ghost["k"], ai.Len(l)))
		isIf := st.Eval(ai.Eq(x.sf(st, "Directive"), ai.Str("if"))) == 1
		if y != nil {
			sep := " "
			if isIf {
				f, o := split(y, ai.Eq(y.Ghost["k"], ai.Int(0)))
				if f != nil {
					x.run.events["if"]++
					set(f, "lit", ai.Str(" ("), "arg")
					out = append(out, f)
				}
				y = o
			}
			if y != nil {
				set(y, "lit", ai.Str(sep), "arg")
				out = append(out, y)
			}
		}
		if n != nil {
			if isIf {
				f, o := split(n, ai.Eq(n.Ghost["k"], ai.Int(0)))
				if f != nil {
					set(f, "lit", ai.Str(" ()"), "tail")
					out = append(out, f)
				}
				if o != nil {
					set(o, "lit", ai.Str(")"), "tail")
					out = append(out, o)
				}
			} else {
				set(n, "tail", nil, "")
				again(n)
			}
		}
		return out
	case "tail":
		y, n := split(st, ai.Eq(x.sf(st, "Block"), ai.Nil))
		if y != nil {
			set(y, "lit", ai.Str(";"), "end")
			out = append(out, y)
		}
		if n != nil {
			set(n, "lit", ai.Str(" {"), "block")
			out = append(out, n)
		}
		return out
	}
	return []*ai.State{st}
}

// comment splits on whether the statement is a comment.
func (x *buildExplorer) comment(st *ai.State) (yes, no []*ai.State) {
	y, n := st.Split(ai.Eq(x.sf(st, "Directive"), ai.Str("#")))
	if n != nil {
		no = append(no, n)
	}
	if y != nil {
		f, t := y.Split(ai.Eq(x.sf(y, "Comment"), ai.Nil))
		if f != nil {
			no = append(no, f)
		}
		if t != nil {
			yes = append(yes, t)
		}
	}
	return
}

// header forgets what is known of the statements that were rendered.
func (x *buildExplorer) header(st *ai.State, b *ssa.BasicBlock) {
	outer := gs(st, "stage") == "next"
	x.e.WidenGhost = func(k string) bool { return outer == (k == "n") }
	if !outer {
		return
	}
	list := st.Norm(st.Ghost["list"])
	if l := st.Norm(st.Ghost["line"]); l.Contains(list) {
		st.Replace(l, st.Fresh("line", intT))
	}
	st.Forget(func(t *ai.T) bool {
		return t.Is("index") && t.Args[0] == list || t.Is("mhas") || t.Is("enquote") || t.Is("*")
	})
}

func (x *buildExplorer) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	if gs(st, "stage") != "next" || st.Eval(ai.Lt(st.Ghost["n"], ai.Len(st.Norm(st.Ghost["list"])))) != -1 {
		x.fail(st, ins, "B02", "incomplete", "a block ends although %s is to be written next", x.due(st))
		return
	}
	x.run.events["block rendered"]++
}

func init() {
	const tech = "abstract interpretation (path-sensitive fixpoint over SSA) of Build in product with a reference (property simulation)"
	const expl = "Build and the function that renders the statements of a block are interpreted abstractly to a fixpoint, in product with a reference that says what is to be written next. The function for blocks is explored for any block, depth, line and set of builders, and replaced by its contract where it is called."
	prodCheck("B02", tech, expl, buildAll, "every write to the output continues exactly what the reference says is to be written")
	prodCheck("B05", tech, expl, buildAll, "builders are applied once, in order, and rendering of a directive uses the one that is registered for it")
}
