package checks

import (
	"go/constant"
	"go/types"
	"math/bits"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

var anaProps = []string{"A01", "A02", "A04", "A05"}

// The analysis of a statement is decided in product with a reference that goes through the same
// directive sources and bitmasks.
type anaExplorer struct {
	*prod
	fname, stmt, term, ctx, opts *ai.T
	dirT, optsT                  types.Type
	bit                          map[string]int64
	ctxMask, ctxKnown            *ai.T
}

// maskBits are the positions of the bits of the argument bitmasks.
func maskBits(p *load.Prog) map[string]int64 {
	r := map[string]int64{}
	for _, n := range []string{"Block", "Expr", "Flag", "Any", "1More", "2More", "NoArgs", "Take7"} {
		co, ok := p.Root.Types.Scope().Lookup("ngxConf" + n).(*types.Const)
		if !ok {
			return nil
		}
		v, ok := constant.Uint64Val(constant.ToInt(co.Val()))
		if !ok || bits.OnesCount64(v) != 1 {
			return nil
		}
		r[n] = int64(bits.TrailingZeros64(v))
	}
	if r["NoArgs"] != 0 || r["Take7"] != 7 {
		return nil
	}
	return r
}

var anaAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	fn := rootFn(p, "analyze")
	bit := maskBits(p)
	if fn == nil || len(fn.Params) != 5 || bit == nil {
		run.anchor(anaProps, "the function analyze or the bitmasks for arguments were not found")
		return run
	}
	x := &anaExplorer{prod: newProd(p, run, "A01"), bit: bit}
	x.explore(fn)
	run.need(anaProps, "unknown", "unanalysed", "misplaced", "accepted", "rejected", "skipped", "source", "default")
	return run
})

func (x *anaExplorer) opt(st *ai.State, name string) *ai.T { return field(st, x.opts, x.optsT, name) }

func (x *anaExplorer) explore(fn *ssa.Function) {
	p := x.p
	x.dirT, x.optsT = rootType(p, "Directive"), rootType(p, "ParseOptions")
	e := x.e
	as := args(fn)
	x.fname, x.stmt, x.term, x.ctx, x.opts = as[0], as[1], as[2], as[3], as[4]
	st := ai.NewState(e)
	st.Assume(ai.Eq(x.stmt, ai.Nil), false)
	st.Assume(ai.Eq(x.opts, ai.Nil), false)
	guard(p, e, "the analysis writes to memory that is not its own", true)
	e.WidenGhost = func(k string) bool { return k == "src" || k == "fn" || k == "an" }
	e.Call = x.call
	e.OnBranch = func(st *ai.State, c *ai.T, val bool, ins *ssa.If) { x.advance(st) }
	e.OnAppend = x.appended
	e.OnHeader = func(st *ai.State, b *ssa.BasicBlock) {
		x.advance(st)
		for _, k := range []string{"masks", "filtered"} {
			if l := st.Ghost[k]; l.Is("list") && len(l.Args) > 0 {
				st.FoldList(l)
			}
		}
		st.Forget(func(t *ai.T) bool { return t.Is("bit") || t.Is("&") })
		if gs(st, "started") != "" || gs(st, "src") == "all" {
			// what the sources said is settled
			if x.sourced(st) && gb(st, "found") {
				l, u := x.opt(st, "DirectiveSources"), x.opt(st, "ErrorOnUnknownDirectives")
				delete(st.Ghost, "dflt")
				st.Forget(func(t *ai.T) bool { return t == l || t == u })
			}
		}
	}
	e.Return = x.ret
	for _, k := range []string{"src", "fn", "an"} {
		st.Ghost[k] = ai.Int(0)
	}
	st.Ghost["masks"], st.Ghost["filtered"] = ai.Nil, ai.Nil
	g := contextTable(p)
	if g == nil {
		x.run.anchor(anaProps, "the table of contexts was not found")
		return
	}
	m := st.MapOf(st.Load(ai.Named("&"+g.String(), g.Type()), deref(g.Type())))
	key := ai.App("join", strT, x.ctx, ai.Str(keySep(p)))
	x.ctxKnown = ai.App("mhas", boolT, m, key)
	x.ctxMask = ai.App("mget", uintT, m, key)
	x.prod.explore(st, fn, as, anaProps)
}

// contextTable is the table that gives the bitmask of a context.
func contextTable(p *load.Prog) *ssa.Global {
	for _, m := range p.RootSSA.Members {
		if g, ok := m.(*ssa.Global); ok {
			if t, ok := deref(g.Type()).Underlying().(*types.Map); ok && t.Key().Underlying().String() == "string" && t.Elem().Underlying().String() == "uint" {
				return g
			}
		}
	}
	return nil
}

// keySep is the separator of the names in the key of a context.
func keySep(p *load.Prog) string {
	fn := rootMethod(p, "blockCtx", "key")
	if fn == nil || len(fn.Params) != 1 {
		return ""
	}
	key := func(names ...string) string {
		var es []*ai.T
		for _, n := range names {
			es = append(es, ai.El(ai.Str(n)))
		}
		k := constCall(p, fn, []*ai.T{ai.List(fn.Params[0].Type(), es...)})
		if k == nil {
			return "?"
		}
		s, ok := k.IsStr()
		if !ok {
			return "?"
		}
		return s
	}
	two := key("a", "b")
	if key() != "" || key("a") != "a" || len(two) < 3 || two[0] != 'a' || two[len(two)-1] != 'b' {
		return ""
	}
	sep := two[1 : len(two)-1]
	if key("a", "b", "c") != "a"+sep+"b"+sep+"c" {
		return ""
	}
	return sep
}

func (x *anaExplorer) name(st *ai.State) *ai.T { return field(st, x.stmt, x.dirT, "Directive") }
func (x *anaExplorer) args(st *ai.State) *ai.T { return field(st, x.stmt, x.dirT, "Args") }

func (x *anaExplorer) call(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	sig := c.Common.Signature()
	if sigIs(sig, []string{"string"}, []string{"[]uint", "bool"}) && len(c.Args) == 1 {
		return x.source(st, c), true
	}
	if c.Fn != nil && c.Fn.Signature.Recv() != nil && c.Fn.Name() == "String" && isNamed(c.Fn.Signature.Recv().Type(), "Directive") {
		return []ai.Outcome{{St: st, Res: ai.App("statement", strT, c.Args[0])}}, true
	}
	return nil, false
}

// source is a call of a match function.
func (x *anaExplorer) source(st *ai.State, c *ai.CallInfo) []ai.Outcome {
	list := x.opt(st, "DirectiveSources")
	if st.Eval(ai.Eq(c.Args[0], x.name(st))) != 1 {
		x.fail(st, c.Instr, "A04", "source-name", "a directive source is asked for %s, not for the directive", show(c.Args[0]))
		return nil
	}
	if gs(st, "started") != "" {
		x.fail(st, c.Instr, "A04", "source-late", "a directive source is asked after the bitmasks were used")
		return nil
	}
	if c.Name == "dynamic" {
		n := st.Ghost["src"]
		if gs(st, "src") == "all" || st.Norm(c.Callee) != at(st, list, n, nil) && !sameTerm(st.Norm(c.Callee), at(st, list, n, c.Common.Value.Type())) {
			x.fail(st, c.Instr, "A04", "source-order", "%s is asked for the directive, not the next of the directive sources", show(c.Callee))
			return nil
		}
		st.Ghost["src"] = ai.Add(n, 1)
		x.run.events["source"]++
	} else {
		if c.Fn == nil || c.Fn.Name() != "DefaultDirectivesMatchFunc" {
			x.fail(st, c.Instr, "A04", "source-other", "%s is asked for the directive", c.Name)
			return nil
		}
		if st.Eval(ai.Eq(ai.Len(list), ai.Int(0))) != 1 || gb(st, "dflt") {
			x.fail(st, c.Instr, "A04", "source-default", "the default directives are used although there may be directive sources")
			return nil
		}
		st.Ghost["dflt"] = ai.True
		x.run.events["default"]++
	}
	m := st.Fresh("masks", c.Common.Signature().Results().At(0).Type())
	x.run.assumes["a match function that knows a directive has a bitmask for it"] = true
	n := st.Clone()
	st.Ghost["found"] = ai.True
	st.Assume(ai.Le(ai.Int(1), ai.Len(m)), true)
	st.Ghost["masks"] = ai.List(m.Typ, append(append([]*ai.T{}, listOf(st.Norm(st.Ghost["masks"]))...), m)...)
	st.Note("the directive is known to it")
	n.Note("the directive is not known to it")
	// a match function may return bitmasks along with false
	return []ai.Outcome{{St: st, Res: ai.Tuple(m, ai.True)}, {St: n, Res: ai.Tuple(n.Fresh("nomasks", m.Typ), ai.False)}}
}

func sameTerm(a, b *ai.T) bool { return a == b || a.String() == b.String() }

// known tells whether a directive source knows the directive.
func (x *anaExplorer) known(st *ai.State) int {
	if gb(st, "found") {
		return 1
	}
	if x.sourced(st) {
		return -1
	}
	return 0
}

// sourced: all sources were asked.
func (x *anaExplorer) sourced(st *ai.State) bool {
	if gs(st, "src") == "all" {
		return true
	}
	list := x.opt(st, "DirectiveSources")
	if gb(st, "dflt") || st.Eval(ai.Le(ai.Int(1), ai.Len(list))) == 1 && st.Eval(ai.Le(ai.Len(list), st.Ghost["src"])) == 1 {
		st.Ghost["src"] = ai.Str("all")
		return true
	}
	return false
}

// selected: every bitmask was looked at for the context.
func (x *anaExplorer) selected(st *ai.State) bool {
	if gs(st, "fn") == "all" {
		return true
	}
	if x.sourced(st) && st.Eval(ai.Le(ai.Len(st.Norm(st.Ghost["masks"])), st.Ghost["fn"])) == 1 {
		st.Ghost["fn"] = ai.Str("all")
		if st.Eval(x.opt(st, "SkipDirectiveContextCheck")) == -1 || gb(st, "copied") {
			st.Ghost["masks"] = ai.Nil
		}
		return true
	}
	return false
}

func (x *anaExplorer) inCtx(st *ai.State, e *ai.T) int {
	return st.Eval(ai.Not(ai.Eq(ai.App("&", uintT, e, st.Norm(x.ctxMask)), ai.Int(0))))
}

// used is the list of bitmasks that arguments are checked against.
func (x *anaExplorer) used(st *ai.State) *ai.T {
	switch st.Eval(x.opt(st, "SkipDirectiveContextCheck")) {
	case 1:
		// all bitmasks, or a copy of them
		if !gb(st, "copied") {
			return st.Norm(st.Ghost["masks"])
		}
		if x.selected(st) {
			return st.Norm(st.Ghost["filtered"])
		}
	case -1:
		return st.Norm(st.Ghost["filtered"])
	}
	return nil
}

func (x *anaExplorer) bitOf(st *ai.State, e *ai.T, name string) int {
	return st.Eval(ai.App("bit", boolT, e, ai.Int(x.bit[name])))
}

// accepts tells whether a bitmask accepts the statement.
func (x *anaExplorer) accepts(st *ai.State, e *ai.T) int {
	a := x.args(st)
	n := ai.Len(a)
	ge := func(k int64) int { return st.Eval(ai.Le(ai.Int(k), n)) }
	eqn := func(k int64) int { return st.Eval(ai.Eq(n, ai.Int(k))) }
	first, last := at(st, a, ai.Int(0), strT), at(st, a, ai.Add(n, -1), strT)
	expr := and3(ge(1),
		st.Eval(ai.App("hasprefix", boolT, first, ai.Str("("))),
		st.Eval(ai.App("hassuffix", boolT, last, ai.Str(")"))),
		or3(ge(3),
			and3(eqn(1), st.Eval(ai.Lt(ai.Int(2), ai.Len(first)))),
			and3(eqn(2), or3(st.Eval(ai.Lt(ai.Int(1), ai.Len(first))), st.Eval(ai.Lt(ai.Int(1), ai.Len(at(st, a, ai.Int(1), strT))))))))
	low := st.Norm(ai.App("lower", strT, first))
	flag := or3(st.Eval(ai.Eq(low, ai.Str("on"))), st.Eval(ai.Eq(low, ai.Str("off"))))
	block := x.bitOf(st, e, "Block")
	return and3(
		or3(-x.bitOf(st, e, "Expr"), expr),
		or3(-block, st.Eval(ai.Eq(x.term, ai.Str("{")))),
		or3(block, st.Eval(ai.Eq(x.term, ai.Str(";")))),
		or3(and3(-ge(8), st.Eval(ai.App("bit", boolT, e, st.Norm(n)))),
			and3(x.bitOf(st, e, "Flag"), eqn(1), flag),
			x.bitOf(st, e, "Any"),
			and3(x.bitOf(st, e, "1More"), ge(1)),
			and3(x.bitOf(st, e, "2More"), ge(2))))
}

// advance lets the reference go on as far as the facts decide about the next bitmask.
func (x *anaExplorer) advance(st *ai.State) {
	if x.sourced(st) && gb(st, "found") && gs(st, "started") == "" && !gb(st, "combined") {
		m := st.Norm(st.Ghost["masks"])
		st.EachValue(func(t *ai.T) {
			if t == m || sameParts(listOf(t), listOf(m)) {
				st.Ghost["combined"] = ai.True
			}
		})
	}
	for i := 0; i < 3; i++ {
		if x.sourced(st) && !x.selected(st) && st.Eval(x.opt(st, "SkipDirectiveContextCheck")) != 1 && x.inCtx(st, at(st, st.Ghost["masks"], st.Ghost["fn"], uintT)) == -1 {
			st.Ghost["started"] = ai.Str("yes")
			st.Ghost["fn"] = ai.Add(st.Ghost["fn"], 1)
			continue
		}
		if gb(st, "acc") {
			return
		}
		l := x.used(st)
		if l == nil {
			return
		}
		e := at(st, l, st.Ghost["an"], uintT)
		if st.Eval(ai.Lt(st.Ghost["an"], ai.Len(l))) != 1 {
			return
		}
		switch x.accepts(st, e) {
		case 1:
			st.Ghost["acc"] = ai.True
			return
		case -1:
			st.Ghost["an"] = ai.Add(st.Ghost["an"], 1)
			continue
		}
		return
	}
}

// appended follows the selection of the bitmasks for the context.
func (x *anaExplorer) appended(st *ai.State, base *ai.T, parts []*ai.T, res *ai.T, ins ssa.Instruction) {
	if len(parts) != 1 || !parts[0].Is("el") {
		return
	}
	m := st.Norm(st.Ghost["masks"])
	if gs(st, "fn") == "all" {
		return
	}
	e := at(st, m, st.Ghost["fn"], uintT)
	if st.Norm(parts[0].Args[0]) != e {
		return
	}
	if !sameParts(listOf(st.Norm(base)), listOf(st.Norm(st.Ghost["filtered"]))) {
		return
	}
	if !x.sourced(st) {
		x.fail(st, ins, "A04", "early", "bitmasks are used before all directive sources were asked")
		return
	}
	if st.Eval(x.opt(st, "SkipDirectiveContextCheck")) == 1 {
		st.Ghost["copied"] = ai.True
	} else if x.inCtx(st, e) == -1 {
		x.fail(st, ins, "A02", "wrong-context", "a bitmask that does not allow the context is taken to allow it")
		return
	} else if x.inCtx(st, e) == 0 {
		return
	}
	st.Ghost["started"] = ai.Str("yes")
	st.Ghost["filtered"] = ai.List(res.Typ, append(append([]*ai.T{}, listOf(st.Norm(st.Ghost["filtered"]))...), parts[0])...)
	st.Ghost["fn"] = ai.Add(st.Ghost["fn"], 1)
}

// verdict is what the reference says: 1 accept, -1 reject, 0 not decided, and the property that it
// follows from.
func (x *anaExplorer) verdict(st *ai.State) (r int, prop, why string) {
	switch x.known(st) {
	case 0:
		return 0, "A04", "unsourced"
	case -1:
		switch st.Eval(x.opt(st, "ErrorOnUnknownDirectives")) {
		case 1:
			return -1, "A04", "unknown"
		case -1:
			return 1, "A04", "unanalysed"
		}
		return 0, "A04", "unknown"
	}
	if !x.sourced(st) {
		return 0, "A04", "unsourced"
	}
	switch st.Eval(x.ctxKnown) {
	case -1:
		return 1, "A02", "unanalysed"
	case 0:
		return 0, "A02", "context"
	}
	skip := st.Eval(x.opt(st, "SkipDirectiveContextCheck"))
	if skip == 0 {
		return 0, "A04", "skip-context"
	}
	complete := x.selected(st)
	f := ai.Len(st.Norm(st.Ghost["filtered"]))
	if skip == -1 {
		if complete && st.Eval(ai.Eq(f, ai.Int(0))) == 1 {
			return -1, "A02", "misplaced"
		}
		if st.Eval(ai.Le(ai.Int(1), f)) != 1 {
			return 0, "A02", "undecided"
		}
	}
	switch st.Eval(x.opt(st, "SkipDirectiveArgsCheck")) {
	case 1:
		return 1, "A04", "skipped"
	case 0:
		return 0, "A04", "skip-args"
	}
	if gb(st, "acc") {
		return 1, "A01", "accepted"
	}
	l := x.used(st)
	if l != nil && (skip == 1 || complete) && st.Eval(ai.Le(ai.Len(l), st.Ghost["an"])) == 1 {
		return -1, "A01", "rejected"
	}
	return 0, "A01", "undecided"
}

func (x *anaExplorer) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	x.advance(st)
	got := st.Eval(ai.Eq(res[0], ai.Nil))
	want, prop, why := x.verdict(st)
	if x.known(st) == 1 && prop != "A04" && !gb(st, "combined") && st.Eval(x.ctxKnown) == 1 {
		x.fail(st, ins, "A04", "combined", "a statement is judged without the bitmasks of all sources")
		return
	}
	if got == 0 {
		x.fail(st, ins, "A01", "result", "it is not known whether the result %s is nil", show(res[0]))
		return
	}
	if want != got {
		what := map[int]string{1: "is to be accepted", -1: "is to be rejected", 0: "may have to be treated otherwise"}[want]
		how := map[int]string{1: "accepted", -1: "rejected"}[got]
		x.fail(st, ins, prop, how+"-"+why, "a statement that %s (%s) is %s", what, map[string]string{
			"unknown": "no directive source knows it and ErrorOnUnknownDirectives is set or may be set", "unanalysed": "its directive or its context is not known",
			"unsourced": "not all directive sources were asked", "context": "whether its context is known was not asked",
			"skip-context": "SkipDirectiveContextCheck was not asked for", "misplaced": "no bitmask allows the context",
			"undecided": "not every bitmask was looked at", "skipped": "SkipDirectiveArgsCheck is set", "skip-args": "SkipDirectiveArgsCheck was not asked for",
			"accepted": "a bitmask accepts its terminator and arguments", "rejected": "no bitmask accepts its terminator and arguments"}[why], how)
		return
	}
	if got == -1 && !x.located(st, ins, res[0]) {
		return
	}
	x.run.events[why]++
	if x.run.events[why] == 1 {
		x.run.samples = append(x.run.samples, why+" at "+pos(x.p, ins))
	}
}

// located checks the position of an error.
func (x *anaExplorer) located(st *ai.State, ins ssa.Instruction, err *ai.T) bool {
	var block *ai.T
	switch st.Eval(ai.Le(ai.Int(1), ai.Len(x.ctx))) {
	case 1:
		block = at(st, x.ctx, ai.Add(ai.Len(x.ctx), -1), strT)
	case -1:
		block = ai.Str("main")
	}
	return locatedErr(x.prod, "A05", st, ins, err, x.fname, field(st, x.stmt, x.dirT, "Line"), ai.App("statement", strT, x.stmt), block)
}

// locatedErr checks that an error is a ParseError with a message, a file, a line, a statement and a block.
func locatedErr(x *prod, prop string, st *ai.State, ins ssa.Instruction, err, file, line, stmt, block *ai.T) bool {
	pt := rootType(x.p, "ParseError")
	err = st.Norm(err)
	if !strings.HasPrefix(err.Op, "iface:*") || !strings.HasSuffix(err.Op, "ParseError") {
		x.fail(st, ins, prop, "kind", "the error %s is not a ParseError", show(err))
		return false
	}
	o := err.Args[0]
	if w := field(st, o, pt, "What"); st.Eval(ai.Eq(w, ai.Str(""))) == 1 {
		x.fail(st, ins, prop, "what", "an error has no message")
		return false
	}
	if f := field(st, o, pt, "File"); f.K == ai.KNil || st.Eval(ai.Eq(st.Load(f, strT), file)) != 1 {
		x.fail(st, ins, prop, "file", "the file of an error is %s", show(f))
		return false
	}
	if l := field(st, o, pt, "Line"); l.K == ai.KNil || st.Eval(ai.Eq(st.Load(l, intT), line)) != 1 {
		x.fail(st, ins, prop, "line", "the line of an error is %s, not that of the statement", show(l))
		return false
	}
	if s := field(st, o, pt, "Statement"); s != st.Norm(stmt) {
		x.fail(st, ins, prop, "statement", "the statement of an error is %s", show(s))
		return false
	}
	if b := field(st, o, pt, "BlockCtx"); block == nil || st.Eval(ai.Eq(b, block)) != 1 {
		x.fail(st, ins, prop, "block", "the block of an error is %s", show(b))
		return false
	}
	return true
}

func init() {
	const tech = "abstract interpretation (path-sensitive fixpoint over SSA) of the analysis in product with a reference (property simulation)"
	const expl = "The function that validates a statement is interpreted abstractly to a fixpoint, in product with a reference that asks the same directive sources and looks at the same bitmasks; sources, bitmasks, arguments, contexts and options are unconstrained, lists have any length. At every return the verdict of the reference must be that of the code."
	prodCheck("A01", tech, expl, anaAll, "a statement is accepted exactly if a bitmask that counts accepts its terminator and arguments")
	prodCheck("A02", tech+", and constant evaluation of the table of contexts", expl, anaAll, "a statement in a known context is in error if none of its bitmasks has the bit of the context")
	extend("A02", checkContexts)
	prodCheck("A04", tech, expl, anaAll, "all directive sources are asked, once, or the default if there are none; options decide what is checked")
	prodCheck("A05", tech, expl, anaAll, "errors name the file, line, statement and block")
	prodMore("A05", mapAll, "errors of parameters of map-like blocks name the file, line, statement and block")
}
