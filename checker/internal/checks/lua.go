package checks

import (
	"fmt"
	"go/types"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// The lexer for Lua blocks is decided in product with a reference transducer that reads the same characters.
type luaExplorer struct {
	*prod
	consts       []*ai.T
	space, other *ai.Class
	sub, matched *ai.T
	scanner      *ai.T
	tokT         types.Type
	started      []goroutine
	ch           *ai.T
}

const setByLua = "set_by_lua_block"

var luaAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"L07"}
	fn := rootMethod(p, "Lua", "Lex")
	subT := rootType(p, "SubScanner")
	tokT := rootType(p, "NgxToken")
	if fn == nil || subT == nil || tokT == nil || len(fn.Params) != 3 {
		run.anchor(props, "the method Lex of Lua was not found")
		return run
	}
	reach := reachable(p, fn)
	for _, f := range p.Funcs {
		if f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), "SubScanner") {
			for g := range reachable(p, f) {
				reach[g] = true
			}
		}
	}
	x := &luaExplorer{prod: newProd(p, run, "L07"), tokT: tokT}
	x.consts = alphabet(p, reach)
	x.space, x.other = charClasses(x.consts)
	e := x.e
	e.StrLimit = 4
	e.MaxStates = 100000
	e.KeepLen = false
	e.LowLimit = 2
	e.WordClass = wordClasses(suffixes(reach))
	e.WidenGhost = func(k string) bool { return k == "tok" || k == "line" || k == "depth" }
	e.HeaderScale = func(st *ai.State) int { return 200 } // the lexer is widened where it reads
	e.Defer = nil
	e.Call = x.call
	e.Send = x.send
	e.Go = func(st *ai.State, c *ai.CallInfo) {
		var binds []*ai.T
		if c.Callee != nil && c.Callee.K == ai.KFunc {
			binds = c.Callee.Args
		}
		if c.Fn == nil || st.Ghost["go"] != nil {
			x.fail(st, c.Instr, "L07", "goroutine", "the Lua lexer starts several goroutines, or one that cannot be followed")
			return
		}
		st.Ghost["go"] = ai.True
		x.started = append(x.started, goroutine{st.Clone(), c.Fn, c.Args, binds})
	}
	e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		if gs(st, "phase") == "" {
			if st.Ghost["go"] == nil {
				x.fail(st, ins, "L07", "no-goroutine", "the Lua lexer returns without starting to read")
				return
			}
			if len(res) != 1 || !strings.HasPrefix(res[0].Op, "newchan") {
				x.fail(st, ins, "L07", "channel", "the Lua lexer does not return a new channel")
				return
			}
			x.ch = res[0]
			return
		}
		run.events["ends"]++
		if !gb(st, "closed") {
			x.fail(st, ins, "L07", "unclosed", "the Lua lexer ends without closing its channel")
		}
	}
	st := ai.NewState(e)
	as := args(fn)
	x.sub, x.matched = as[1], as[2]
	st.Assume(ai.Eq(as[0], ai.Nil), false)
	st.Assume(ai.Eq(x.sub, ai.Nil), false)
	l := &lexExplorer{p: p}
	sc, line := l.subScanner(st, x.sub)
	if sc == nil || line == nil {
		run.anchor(props, "the scanner and the line of SubScanner were not found")
		return run
	}
	st.Assume(ai.Eq(sc, ai.Nil), false)
	x.scanner = sc
	x.explore(st, fn, as, props)
	for _, w := range x.started {
		for _, set := range []bool{false, true} {
			if e.Stop {
				break
			}
			st := w.st.Clone()
			st.Frames = nil
			st.ResetOwnership()
			st.Forget(nil)
			st.Assume(ai.Eq(x.sub, ai.Nil), false)
			st.Assume(ai.Eq(sc, ai.Nil), false)
			st.Assume(ai.Eq(x.matched, ai.Str(setByLua)), set)
			st.Ghost["phase"] = ai.Str("lex")
			st.Ghost["state"] = ai.Str("open")
			if set {
				st.Ghost["state"] = ai.Str("arg0")
			}
			st.Ghost["tok"] = ai.Str("")
			st.Ghost["line"] = line
			st.Ghost["depth"] = ai.Int(0)
			st.Ghost["quote"] = ai.Str("")
			st.Ghost["q"] = ai.Int(0)
			e.Start(st, w.fn, w.args, w.bind)
			e.Run(st)
			run.states += len(e.Visited)
			run.roots = append(run.roots, w.fn.String())
			if e.Overflow {
				run.cut = append(run.cut, "the Lua lexer")
			}
		}
	}
	run.need(props, "ends", "argument", "block", "semicolon", "error", "nested brace", "quoted brace", "end of input")
	return run
})

func (x *luaExplorer) call(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	one := func(r *ai.T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Res: r}}, true }
	switch c.Name {
	case "(*bufio.Scanner).Err":
		return one(ai.Nil)
	case "(*bufio.Scanner).Text":
		if t := st.Ghost["char"]; t != nil {
			return one(t)
		}
		return one(ai.Str(""))
	case "(*bufio.Scanner).Scan":
		return x.scan(st, c), true
	}
	if strings.HasPrefix(c.Name, "(*bufio.Scanner).") {
		x.fail(st, c.Instr, "L07", "scanner-call", "undecided: the Lua lexer calls %s", c.Name)
		return nil, true
	}
	return nil, false
}

func (x *luaExplorer) scan(st *ai.State, c *ai.CallInfo) []ai.Outcome {
	if c.Args[0] != x.scanner {
		x.fail(st, c.Instr, "L07", "scanner", "the Lua lexer does not read what it was given")
		return nil
	}
	if gs(st, "phase") == "" {
		x.fail(st, c.Instr, "L07", "read-early", "undecided: the Lua lexer reads before it has started its goroutine")
		return nil
	}
	switch gs(st, "state") {
	case "eof":
		return []ai.Outcome{{St: st, Res: ai.False}}
	case "end":
		x.fail(st, c.Instr, "L07", "overread", "the Lua lexer reads on after the end of the block, or after an error")
		return nil
	}
	if n, _ := st.Ghost["q"].IsInt(); n > 0 {
		x.fail(st, c.Instr, "L07", "late", "the token %s is complete, but more is read before it is sent", show(st.Ghost["q0.val"]))
		return nil
	}
	x.e.Widen(st, "scan")
	var out []ai.Outcome
	for i := 0; i < len(x.consts)+2; i++ {
		n := st.Clone()
		var ch *ai.T
		switch i {
		case len(x.consts):
			ch = n.FreshCls("c", strT, x.space)
		case len(x.consts) + 1:
			ch = n.FreshCls("c", strT, x.other)
		default:
			ch = x.consts[i]
		}
		n.Ghost["char"] = ch
		n.Note(fmt.Sprintf("the next character is %s", ch))
		ns := []*ai.State{n}
		if ch == ai.Str("}") && gs(n, "state") == "body" {
			y, no := n.Split(ai.Le(n.Ghost["depth"], ai.Int(1)))
			ns = []*ai.State{y, no}
		}
		for j, s := range ns {
			if s == nil || s.Dead() {
				continue
			}
			x.read(s, ch, j == 0)
			out = append(out, ai.Outcome{St: s, Res: ai.True})
		}
	}
	n := st.Clone()
	n.Ghost["state"] = ai.Str("eof")
	n.Ghost["tok"] = ai.Str("")
	delete(n.Ghost, "char")
	n.Note("the input ends")
	x.run.events["end of input"]++
	st.Kill()
	return append(out, ai.Outcome{St: n, Res: ai.False})
}

// read feeds a character to the transducer; last tells whether a closing brace is that of the block.
func (x *luaExplorer) read(st *ai.State, ch *ai.T, last bool) {
	is := func(s string) bool { return ch == ai.Str(s) }
	isSp := ch.Cls == x.space || constSpace(ch)
	tok := st.Ghost["tok"]
	if is("\n") {
		st.Ghost["line"] = ai.Add(st.Ghost["line"], 1)
	}
	expect := func(kind string, val, quoted *ai.T) {
		n, _ := st.Ghost["q"].IsInt()
		k := fmt.Sprintf("q%d.", n)
		st.Ghost[k+"kind"], st.Ghost[k+"val"], st.Ghost[k+"quoted"] = ai.Str(kind), val, quoted
		st.Ghost["q"] = ai.Int(n + 1)
	}
	switch gs(st, "state") {
	case "arg0":
		if !isSp {
			st.Ghost["tok"] = ch
			st.Ghost["state"] = ai.Str("arg")
		}
	case "arg":
		if isSp {
			expect("argument", tok, ai.False)
			st.Ghost["tok"] = ai.Str("")
			st.Ghost["state"] = ai.Str("open")
			return
		}
		st.Ghost["tok"] = ai.Cat(tok, ch)
	case "open":
		if is("{") {
			st.Ghost["depth"] = ai.Int(1)
			st.Ghost["state"] = ai.Str("body")
		} else if !isSp {
			expect("error", ai.Nil, ai.Nil)
			st.Ghost["state"] = ai.Str("end")
		}
	case "body":
		quote := st.Ghost["quote"]
		switch {
		case quote != ai.Str(""):
			if is("{") || is("}") {
				x.run.events["quoted brace"]++
			}
			if ch == quote {
				st.Ghost["quote"] = ai.Str("")
			}
		case is(`"`) || is("'"):
			st.Ghost["quote"] = ch
		case is("{"):
			x.run.events["nested brace"]++
			st.Ghost["depth"] = ai.Add(st.Ghost["depth"], 1)
		case is("}") && last:
			expect("block", tok, ai.True)
			expect("semicolon", ai.Str(";"), ai.False)
			st.Ghost["depth"], st.Ghost["tok"] = ai.Int(0), ai.Str("")
			st.Ghost["state"] = ai.Str("end")
			return
		case is("}"):
			st.Ghost["depth"] = ai.Add(st.Ghost["depth"], -1)
		}
		st.Ghost["tok"] = ai.Cat(tok, ch)
	}
}

func (x *luaExplorer) send(st *ai.State, ch, v *ai.T, ins ssa.Instruction) {
	if st.Ghost["chan"] == nil && x.ch != nil && ch.Op == x.ch.Op {
		st.Ghost["chan"] = st.Norm(ch)
	}
	if gs(st, "phase") == "" || st.Norm(ch) != st.Norm(st.Ghost["chan"]) {
		x.fail(st, ins, "L07", "send-where", "undecided: something is sent to %s, or it is closed", show(ch))
		return
	}
	if gb(st, "closed") {
		x.fail(st, ins, "L07", "after-close", "the channel is used after it was closed")
		return
	}
	n, _ := st.Ghost["q"].IsInt()
	if v == nil {
		if n > 0 {
			x.fail(st, ins, "L07", "missing", "the channel is closed although the %s token %s was not sent", gs(st, "q0.kind"), show(st.Ghost["q0.val"]))
			return
		}
		if s := gs(st, "state"); s != "eof" && s != "end" {
			x.fail(st, ins, "L07", "early", "the channel is closed within a block")
			return
		}
		st.Ghost["closed"] = ai.True
		return
	}
	if n == 0 {
		x.fail(st, ins, "L07", "extra", "a token is sent although none is complete")
		return
	}
	t := x.tokT
	val, line, quoted, err := fieldVal(st, v, t, "Value"), fieldVal(st, v, t, "Line"), fieldVal(st, v, t, "IsQuoted"), fieldVal(st, v, t, "Error")
	if val == nil || line == nil || quoted == nil || err == nil {
		x.fail(st, ins, "L07", "anchor", "NgxToken has no Value, Line, IsQuoted and Error")
		return
	}
	kind, ev, eq := gs(st, "q0.kind"), st.Ghost["q0.val"], st.Ghost["q0.quoted"]
	for _, f := range []string{"kind", "val", "quoted"} {
		if n == 2 {
			st.Ghost["q0."+f] = st.Ghost["q1."+f]
			delete(st.Ghost, "q1."+f)
		} else {
			delete(st.Ghost, "q0."+f)
		}
	}
	st.Ghost["q"] = ai.Int(n - 1)
	x.run.events[kind]++
	if kind == "error" {
		if err == ai.Nil {
			x.fail(st, ins, "L07", "no-error", "the token %s is sent although the block does not start with a brace", show(val))
			return
		}
		pt := rootType(x.p, "ParseError")
		if !strings.HasPrefix(err.Op, "iface:") || !strings.Contains(err.Op, "ParseError") {
			x.fail(st, ins, "L07", "error-type", "the error is not a ParseError: it has no line")
			return
		}
		lp := field(st, err.Args[0], pt, "Line")
		if st.Eval(ai.Eq(lp, ai.Nil)) != -1 || st.Eval(ai.Eq(st.Load(lp, intT), st.Ghost["line"])) != 1 {
			x.fail(st, ins, "L07", "error-line", "the error does not have the line it occurred on")
		}
		return
	}
	switch {
	case st.Eval(ai.Eq(err, ai.Nil)) != 1:
		x.fail(st, ins, "L07", "error-made", "an error is sent where the %s token %s is complete", kind, show(ev))
	case st.Eval(ai.Eq(val, ev)) != 1:
		x.fail(st, ins, "L07", "value", "the token %s is sent where the %s token is %s", show(val), kind, show(ev))
	case st.Eval(ai.Eq(quoted, eq)) != 1:
		x.fail(st, ins, "L07", "quoted", "the %s token is sent with IsQuoted = %s", kind, quoted)
	case st.Eval(ai.Eq(line, st.Ghost["line"])) != 1:
		x.fail(st, ins, "L07", "line", "the %s token is sent with line %s, but it ended on line %s", kind, show(line), show(st.Ghost["line"]))
	}
}

func init() {
	prodCheck("L07", "abstract interpretation (path-sensitive fixpoint over SSA) of the Lua lexer in product with a reference transducer (property simulation)",
		"The goroutine that the lexer for Lua blocks starts is interpreted abstractly to a fixpoint, in product with a reference transducer that reads the same characters: those that the source tells apart, any other space, any other character, and the end of the input.",
		luaAll,
		"every token that is sent is compared with the token that the rules complete, with its line",
		"nothing is read after the end of the block, and the channel is closed once, on every path")
}

// luaBuildAll decides the text that Lua directives are rendered as.
var luaBuildAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"B06"}
	fn := rootMethod(p, "Lua", "Build")
	stmtT := rootType(p, "Directive")
	if fn == nil || stmtT == nil || len(fn.Params) != 2 {
		run.anchor(props, "the method Build of Lua was not found")
		return run
	}
	x := newProd(p, run, "B06")
	as := args(fn)
	st := ai.NewState(x.e)
	st.Assume(ai.Eq(as[0], ai.Nil), false)
	st.Assume(ai.Eq(as[1], ai.Nil), false)
	guard(p, x.e, "rendering a Lua directive changes it", true)
	x.e.OnStore = func(st *ai.State, addr, v *ai.T, typ types.Type, ins ssa.Instruction) {
		if isCallers(addr, as[1]) {
			x.fail(st, ins, "B06", "store", "rendering a Lua directive changes it")
		}
	}
	x.e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		name := field(st, as[1], stmtT, "Directive")
		args := field(st, as[1], stmtT, "Args")
		set := st.Eval(ai.Eq(name, ai.Str(setByLua)))
		one := st.Eval(ai.Lt(ai.Int(0), ai.Len(args)))
		two := st.Eval(ai.Lt(ai.Int(1), ai.Len(args)))
		want := name
		arg := func(i int64) *ai.T { return at(st, args, ai.Int(i), strT) }
		switch {
		case set == 0:
			x.fail(st, ins, "B06", "lua-name", "%s is rendered without regard to whether the directive is set_by_lua_block", show(res[0]))
			return
		case set == 1 && two == 1:
			want = ai.Cat(name, ai.Str(" "), arg(0), ai.Str(" {"), arg(1), ai.Str("}"))
			run.events["set_by_lua_block"]++
		case set == -1 && one == 1:
			want = ai.Cat(name, ai.Str(" {"), arg(0), ai.Str("}"))
			run.events["block"]++
		case set == 1 && two == -1 || set == -1 && one == -1:
			run.events["too few arguments"]++
		default:
			x.fail(st, ins, "B06", "lua-args", "%s is rendered without regard to the number of arguments", show(res[0]))
			return
		}
		if st.Eval(ai.Eq(st.Norm(res[0]), st.Norm(want))) != 1 {
			x.fail(st, ins, "B06", "lua-text", "%s is rendered, not %s", show(res[0]), show(want))
		}
	}
	x.explore(st, fn, as, props)
	run.need(props, "set_by_lua_block", "block", "too few arguments")
	return run
})

func init() {
	prodCheck("B06", "abstract interpretation (path-sensitive fixpoint over SSA) of the rendering of Lua directives in product with a reference (property simulation)",
		"Build of Lua is interpreted abstractly to a fixpoint; the text on every path is compared with that of the reference.",
		luaBuildAll, "the text that is returned is the name, the argument and the block of the directive")
}

// lexOptAll decides how external lexers are registered.
var lexOptAll = memo(func(p *load.Prog) *prodRun {
	run := register2(p, registration{"L08", "LexOptions", "extLexers", "applyLexOptions", "LexWithLexer", "Lexer", "lexer"})
	props := []string{"L08"}
	fn := rootFn(p, "LexWithOptions")
	optT := rootType(p, "LexOptions")
	if fn == nil || optT == nil || len(fn.Params) != 2 || fieldIndex(optT, "Lexers") < 0 || fieldIndex(optT, "extLexers") < 0 {
		run.anchor(props, "LexWithOptions and its options were not found")
		return run
	}
	x := newProd(p, run, "L08")
	as := args(fn)
	ls := optT.Underlying().(*types.Struct).Field(fieldIndex(optT, "Lexers")).Type()
	mt := optT.Underlying().(*types.Struct).Field(fieldIndex(optT, "extLexers")).Type()
	list := fieldVal(nil, as[1], optT, "Lexers")
	st := ai.NewState(x.e)
	st.Ghost["n"] = ai.Int(0)
	// options that were not made by this package have no lexers registered yet
	st.Assume(ai.Eq(fieldVal(nil, as[1], optT, "extLexers"), ai.Nil), true)
	x.e.Call = func(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
		if !(c.Common.IsInvoke() && c.Common.Method.Name() == "applyLexOptions" || c.Fn != nil && c.Fn.Name() == "applyLexOptions") {
			return nil, false
		}
		recv, o := c.Callee, c.Args[len(c.Args)-1]
		if c.Fn != nil {
			recv = c.Args[0]
		}
		n := st.Ghost["n"]
		addr := ai.FieldAddr(o, fieldIndex(optT, "extLexers"))
		cur := st.Norm(st.Load(addr, mt))
		switch {
		case st.Eval(ai.Lt(n, ai.Len(list))) != 1 || st.Norm(recv) != at(st, list, n, ls.Underlying().(*types.Slice).Elem()):
			x.fail(st, c.Instr, "L08", "apply-order", "%s is applied, not the next one of the Lexers", show(recv))
			return nil, true
		case st.Ghost["reg"] == nil && !(st.Eval(ai.Eq(cur, ai.Nil)) == 1 || st.Norm(st.MapOf(cur)).Is("mempty")):
			x.fail(st, c.Instr, "L08", "apply-start", "lexers of another call may be registered at first")
			return nil, true
		case st.Ghost["reg"] != nil && (cur != st.Norm(st.Ghost["reg"]) || st.Norm(o) != st.Norm(st.Ghost["opts"])):
			x.fail(st, c.Instr, "L08", "apply-reset", "lexers that were registered are dropped")
			return nil, true
		}
		r := st.Fresh("registered", mt)
		st.Store(addr, r, mt)
		st.Ghost["reg"], st.Ghost["opts"] = r, st.Norm(o)
		st.Ghost["n"] = st.Norm(ai.Add(n, 1))
		run.events["lexer applied"]++
		return []ai.Outcome{{St: st, Res: ai.Nil}}, true
	}
	x.e.Go = func(st *ai.State, c *ai.CallInfo) {
		if st.Eval(ai.Lt(st.Ghost["n"], ai.Len(list))) != -1 {
			x.fail(st, c.Instr, "L08", "apply-all", "the lexing starts before all Lexers were applied")
			return
		}
		var has func(t *ai.T, d int) bool
		want := st.Ghost["reg"]
		has = func(t *ai.T, d int) bool {
			t = st.Norm(t)
			if want != nil && t.Contains(st.Norm(want)) {
				return true
			}
			if t.K == ai.KFunc {
				for _, b := range t.Args {
					if d < 3 && has(b, d+1) {
						return true
					}
				}
			}
			if t.K == ai.KObj && d < 4 && t.Typ != nil {
				return has(st.Load(t, t.Typ), d+1)
			}
			return false
		}
		if want != nil {
			ok := false
			for _, a := range append([]*ai.T{c.Callee}, c.Args...) {
				ok = ok || a != nil && has(a, 0)
			}
			if !ok {
				x.fail(st, c.Instr, "L08", "apply-lost", "the lexing starts without the lexers that were registered")
				return
			}
		}
		run.events["lexing started"]++
	}
	x.e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		run.events["returned"]++
	}
	guard(p, x.e, "lexing writes to the options of its caller", false, as[1])
	x.e.OnStore = func(st *ai.State, addr, v *ai.T, typ types.Type, ins ssa.Instruction) {
		if isCallers(addr, as[1]) {
			x.fail(st, ins, "L08", "store", "the options of the caller are changed")
		}
	}
	x.explore(st, fn, as, props)
	run.need(props, "lexer applied", "lexing started", "returned")
	return run
})

func init() {
	prodCheck("L08", "abstract interpretation (path-sensitive fixpoint over SSA) of the registration of lexers in product with a reference (property simulation)",
		"What registers a lexer and LexWithOptions are interpreted abstractly to a fixpoint, for every list of options and names.",
		lexOptAll, "every Lexer of the options is applied once, in order, before the lexing starts, which then uses all that were registered")
}

var luaNames = []string{
	"init_by_lua_block", "init_worker_by_lua_block", "exit_worker_by_lua_block", "set_by_lua_block", "content_by_lua_block",
	"server_rewrite_by_lua_block", "rewrite_by_lua_block", "access_by_lua_block", "header_filter_by_lua_block",
	"body_filter_by_lua_block", "log_by_lua_block", "balancer_by_lua_block", "ssl_client_hello_by_lua_block",
	"ssl_certificate_by_lua_block", "ssl_session_fetch_by_lua_block", "ssl_session_store_by_lua_block",
}

// luaRegister decides what the lexer or the builder for Lua is registered for.
func luaRegister(p *load.Prog, prop, method string) *prodRun {
	run := newRun()
	props := []string{prop}
	fn := rootMethod(p, "Lua", method)
	if fn == nil || len(fn.Params) != 1 {
		run.anchor(props, "the method "+method+" of Lua was not found")
		return run
	}
	x := newProd(p, run, prop)
	as := args(fn)
	st := ai.NewState(x.e)
	st.Assume(ai.Eq(as[0], ai.Nil), false)
	x.e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		v := strip(st.Norm(res[0]))
		var parts []*ai.T
		if v.Is("struct") {
			parts = v.Args
		} else if v.K == ai.KObj && v.Typ != nil {
			if s, ok := v.Typ.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					parts = append(parts, st.Load(ai.FieldAddr(v, i), s.Field(i).Type()))
				}
			}
		}
		found := map[string]bool{}
		ok, self := false, false
		for _, f := range parts {
			f = st.Norm(f)
			self = self || stripIface(st, f, as[0])
			if f.Is("list") {
				ok = true
				for _, q := range f.Args {
					s, is := "", false
					if q.Is("el") {
						s, is = st.Norm(q.Args[0]).IsStr()
					}
					if !is {
						ok = false
						continue
					}
					found[s] = true
				}
			}
		}
		if !ok || !self {
			x.fail(st, ins, prop, "registered", "undecided: what %s registers, and for which names: %s", method, show(v))
			return
		}
		for _, n := range luaNames {
			if !found[n] {
				x.fail(st, ins, prop, "name:"+n, "%s does not register Lua for %s", method, n)
			}
			delete(found, n)
		}
		for n := range found {
			x.fail(st, ins, prop, "extra:"+n, "%s registers Lua for %s", method, n)
		}
		run.events["Lua registered"]++
	}
	x.explore(st, fn, as, props)
	run.need(props, "Lua registered")
	return run
}

func init() {
	prodMore("L07", memo(func(p *load.Prog) *prodRun { return luaRegister(p, "L07", "RegisterLexer") }), "the lexer is registered for the names of the Lua block directives")
	prodMore("B06", memo(func(p *load.Prog) *prodRun { return luaRegister(p, "B06", "RegisterBuilder") }), "the builder is registered for the names of the Lua block directives")
}
