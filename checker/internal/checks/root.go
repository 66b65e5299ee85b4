package checks

import (
	"go/types"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"

	"golang.org/x/tools/go/ssa"
)

var rootProps = []string{"R01", "R02", "R03", "R04"}

// Parse is decided in product with a reference that follows the queue of files. Reading the tokens of a
// file is modelled: it may queue files, report errors, and yields directives or an error.
type rootExplorer struct {
	*prod
	filename, opts          *ai.T
	optsT, parserT          types.Type
	cfgT, payT, fctxT       types.Type
	path, ctx               int // the fields of a queued file
	queue, errFn, optsField int // fields of the parser
	readers                 map[*ssa.Function]reader
}

var rootAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	fn := rootFn(p, "Parse")
	if fn == nil || len(fn.Params) != 2 {
		run.anchor(rootProps, "the function Parse was not found")
		return run
	}
	x := &rootExplorer{prod: newProd(p, run, "R01"), readers: map[*ssa.Function]reader{}}
	x.optsT, x.parserT, x.cfgT, x.payT = rootType(p, "ParseOptions"), rootType(p, "parser"), rootType(p, "Config"), rootType(p, "Payload")
	x.queue, x.errFn, x.optsField = -1, -1, -1
	if x.parserT != nil {
		s, ok := x.parserT.Underlying().(*types.Struct)
		for i := 0; ok && i < s.NumFields(); i++ {
			f := s.Field(i)
			switch {
			case sigIs(f.Type(), []string{"*crossplane.Config", "error"}, nil):
				x.errFn = i
			case isNamed(f.Type(), "ParseOptions"):
				x.optsField = i
			}
			if l, ok := f.Type().Underlying().(*types.Slice); ok {
				if fs, ok := l.Elem().Underlying().(*types.Struct); ok && fs.NumFields() == 2 {
					for j := 0; j < 2; j++ {
						if isNamed(fs.Field(j).Type(), "blockCtx") {
							x.queue, x.ctx, x.path, x.fctxT = i, j, 1-j, l.Elem()
						}
					}
				}
			}
		}
	}
	for _, r := range tokenReaders(p) {
		if r.list >= 0 && r.config >= 0 {
			x.readers[r.fn] = r
		}
	}
	if x.queue < 0 || x.errFn < 0 || x.optsField < 0 || len(x.readers) == 0 {
		run.anchor(rootProps, "the queue of files, the error handler or the options of the parser, or the function that reads tokens, were not found")
		return run
	}
	x.explore(fn)
	run.need(rootProps, "file parsed", "error in a file", "error recorded", "cannot be opened", "stopped", "cycle", "payload", "combined")
	return run
})

func (x *rootExplorer) explore(fn *ssa.Function) {
	e := x.e
	as := args(fn)
	x.filename, x.opts = as[0], as[1]
	st := ai.NewState(e)
	st.Assume(ai.Eq(x.opts, ai.Nil), false)
	e.Call = x.call
	e.Recv = x.recv
	e.Defer = x.deferred
	e.OnAppend = x.appended
	e.OnCallRet = x.callRet
	e.OnHeader = x.header
	e.Return = x.ret
	guard(x.p, e, "Parse writes to the options of its caller", false, x.opts)
	var fs [2]*ai.T
	fs[x.path], fs[x.ctx] = x.filename, ai.Nil
	st.Ghost["queue"] = ai.List(nil, ai.El(ai.StructVal(x.fctxT, fs[0], fs[1])))
	st.Ghost["n"] = ai.Int(0)
	st.Ghost["configs"] = ai.List(nil)
	st.Ghost["stage"] = ai.Str("next")
	st.Ghost["failed"] = ai.False
	x.prod.explore(st, fn, as, rootProps)
}

// isCallers tells whether an address is in the memory that an argument points to.
func isCallers(addr, arg *ai.T) bool {
	for addr.Is("field") || addr.Is("elem") {
		addr = addr.Args[0]
	}
	return addr == arg
}

func (x *rootExplorer) opt(st *ai.State, name string) *ai.T { return field(st, x.opts, x.optsT, name) }

// payload is the payload that is built.
func (x *rootExplorer) payload(st *ai.State) *ai.T {
	var r *ai.T
	for o := range st.Heap {
		if o.K == ai.KObj && strings.HasPrefix(o.Op, "new") && o.Typ != nil && types.Identical(o.Typ, x.payT) {
			if r != nil {
				return nil
			}
			r = o
		}
	}
	return r
}

// cur is the file that is to be parsed now.
func (x *rootExplorer) cur(st *ai.State, i int) *ai.T {
	s := x.fctxT.Underlying().(*types.Struct)
	e := at(st, st.Ghost["queue"], st.Ghost["n"], x.fctxT)
	if e.Is("struct") {
		return st.Norm(e.Args[i])
	}
	return st.Norm(ai.App("fieldof", s.Field(i).Type(), e, ai.Int(int64(i))))
}

func (x *rootExplorer) more(st *ai.State) int {
	return st.Eval(ai.Lt(st.Ghost["n"], ai.Len(st.Norm(st.Ghost["queue"]))))
}

func (x *rootExplorer) call(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	sig := c.Common.Signature()
	switch {
	case c.Fn != nil && x.isReader(c.Fn):
		return x.parse(st, c), true
	case sigIs(sig, []string{"*crossplane.Config", "error"}, nil) && len(c.Args) >= 2 && gs(st, "he") == "":
		x.handle(st, c.Args[len(c.Args)-2], c.Args[len(c.Args)-1])
		if st.Dead() {
			return nil, true
		}
		return nil, false
	case c.Name == "dynamic" && sigIs(sig, []string{"error"}, []string{"any"}), c.Name == "dynamic" && sigIs(sig, []string{"error"}, []string{"interface{}"}):
		if st.Norm(c.Callee) != x.opt(st, "ErrorCallback") || st.Ghost["he-err"] == nil || st.Norm(c.Args[0]) != st.Norm(st.Ghost["he-err"]) || st.Ghost["he-cb"] != nil {
			x.fail(st, c.Instr, "R02", "callback", "ErrorCallback is called with %s, or more than once, or for no error", show(c.Args[0]))
			return nil, true
		}
		r := st.Fresh("callback", sig.Results().At(0).Type())
		st.Ghost["he-cb"] = r
		return []ai.Outcome{{St: st, Res: r}}, true
	case c.Name == "os.Open" && len(c.Args) == 1, c.Name == "dynamic" && sigIs(sig, []string{"string"}, []string{"io.ReadCloser", "error"}):
		return x.open(st, c), true
	case c.Fn != nil && c.Fn.Pkg == x.p.RootSSA && sig.Results().Len() == 1 && isTokenChan(sig.Results().At(0).Type()) && sig.Recv() == nil:
		return x.lex(st, c), true
	case closee(c) != nil:
		x.closed(st, closee(c))
		return []ai.Outcome{{St: st, Res: st.Fresh("closeerr", errT)}}, true
	case c.Fn != nil && c.Fn.Pkg == x.p.RootSSA && c.Fn.Signature.Recv() != nil && isNamed(c.Fn.Signature.Recv().Type(), "parser") && sigIs(types.NewSignatureType(nil, nil, nil, c.Fn.Signature.Params(), c.Fn.Signature.Results(), false), nil, []string{"bool"}):
		if gs(st, "stage") != "next" || x.more(st) != -1 || st.Ghost["cyclic"] != nil {
			x.fail(st, c.Instr, "R03,P10", "cycle-early", "the include graph is checked before all files were parsed")
			return nil, true
		}
		r := st.Fresh("cyclic", boolT)
		st.Ghost["cyclic"] = r
		return []ai.Outcome{{St: st, Res: r}}, true
	case c.Fn != nil && c.Fn.Pkg == x.p.RootSSA && (c.Fn.Name() == "Combined" || c.Fn.Name() == "combineConfigs"):
		if st.Norm(c.Args[0]) != x.payload(st) || st.Eval(x.opt(st, "CombineConfigs")) != 1 || st.Ghost["combined"] != nil || !x.complete(st, c.Instr) {
			x.fail(st, c.Instr, "R03", "combine", "%s is combined, or CombineConfigs may not be set", show(c.Args[0]))
			return nil, true
		}
		n := st.Clone()
		r := st.FreshOf("combined", sig.Results().At(0).Type())
		st.Assume(ai.Eq(r, ai.Nil), false)
		st.Ghost["combined"] = r
		er := n.Fresh("combineerr", errT)
		n.Assume(ai.Eq(er, ai.Nil), false)
		n.Ghost["combined"] = ai.Nil
		n.Ghost["combineerr"] = er
		return []ai.Outcome{{St: st, Res: ai.Tuple(r, ai.Nil)}, {St: n, Res: ai.Tuple(ai.Nil, er)}}, true
	}
	return nil, false
}

func (x *rootExplorer) isReader(fn *ssa.Function) bool { _, ok := x.readers[fn]; return ok }

// left tells what is left of the file before.
func (x *rootExplorer) left(st *ai.State, ins ssa.Instruction) bool {
	if st.Ghost["file"] != nil {
		x.fail(st, ins, "R04", "open", "a file is not closed")
		return false
	}
	if st.Ghost["tokens"] != nil {
		x.fail(st, ins, "R04", "tokens", "the tokens of a file are not read to the end: its lexer waits forever")
		return false
	}
	return true
}

// open is a file that is opened.
func (x *rootExplorer) open(st *ai.State, c *ai.CallInfo) []ai.Outcome {
	o := x.opt(st, "Open")
	if c.Name == "dynamic" && st.Norm(c.Callee) != o || c.Name != "dynamic" && st.Eval(ai.Eq(o, ai.Nil)) != 1 {
		x.fail(st, c.Instr, "R01", "hook", "a file is opened with %s", c.Name)
		return nil
	}
	if gs(st, "stage") != "next" || x.more(st) != 1 {
		x.fail(st, c.Instr, "R01", "open-stage", "a file is opened although %s", map[bool]string{true: "no file is known to be queued", false: "the file before is not done (" + gs(st, "stage") + ")"}[gs(st, "stage") == "next"])
		return nil
	}
	if st.Norm(c.Args[0]) != x.cur(st, x.path) {
		x.fail(st, c.Instr, "R01", "open-path", "%s is opened, not the file that was queued next", show(c.Args[0]))
		return nil
	}
	if !x.left(st, c.Instr) {
		return nil
	}
	f := st.Fresh("file", c.Common.Signature().Results().At(0).Type())
	st.Assume(ai.Eq(f, ai.Nil), false)
	n := st.Clone()
	e := n.Fresh("openerr", errT)
	n.Assume(ai.Eq(e, ai.Nil), false)
	n.Ghost["stage"], n.Ghost["err"] = ai.Str("openerr"), e
	n.Note("the file cannot be opened")
	st.Ghost["stage"] = ai.Str("open")
	st.Ghost["file"], st.Ghost["handle"] = f, f
	// a reader that a failed Open returns need not be closed
	return []ai.Outcome{{St: st, Res: ai.Tuple(f, ai.Nil)}, {St: n, Res: ai.Tuple(n.Fresh("nofile", f.Typ), e)}}
}

func (x *rootExplorer) closed(st *ai.State, f *ai.T) {
	if st.Ghost["file"] != nil && stripIface(st, f, st.Ghost["file"]) {
		delete(st.Ghost, "file")
	}
}

// closee is what a call closes.
func closee(c *ai.CallInfo) *ai.T {
	if c.Common.IsInvoke() && c.Common.Method.Name() == "Close" {
		if c.Fn != nil && len(c.Args) > 0 {
			return c.Args[0]
		}
		return c.Callee
	}
	if c.Fn != nil && c.Fn.Name() == "Close" && c.Fn.Signature.Recv() != nil && len(c.Args) == 1 {
		return c.Args[0]
	}
	return nil
}

// deferred recognises files that are closed in the end.
func (x *rootExplorer) deferred(st *ai.State, c *ai.CallInfo) bool {
	if f := closee(c); f != nil {
		x.closed(st, f)
		return true
	}
	if c.Fn == nil || len(c.Fn.Blocks) == 0 {
		return true
	}
	for _, b := range c.Fn.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(ssa.CallInstruction)
			if !ok || !call.Common().IsInvoke() || call.Common().Method.Name() != "Close" || !everyPath(b) {
				continue
			}
			v := call.Common().Value
			if u, ok := v.(*ssa.UnOp); ok {
				v = u.X
			}
			var t *ai.T
			for i, q := range c.Fn.FreeVars {
				if q == v && c.Callee != nil && i < len(c.Callee.Args) {
					t = c.Callee.Args[i]
				}
			}
			for i, q := range c.Fn.Params {
				if q == v && i < len(c.Args) {
					t = c.Args[i]
				}
			}
			if t == nil {
				continue
			}
			if t.K == ai.KObj {
				t = st.Load(t, t.Typ)
			}
			x.closed(st, t)
		}
	}
	return true
}

// everyPath tells whether every path through a function goes through a block (seen from its dominators).
func everyPath(b *ssa.BasicBlock) bool {
	for _, r := range b.Parent().Blocks {
		if n := len(r.Instrs); n > 0 {
			if _, ok := r.Instrs[n-1].(*ssa.Return); ok && !b.Dominates(r) {
				return false
			}
		}
	}
	return true
}

// lex is the start of a lexer.
func (x *rootExplorer) lex(st *ai.State, c *ai.CallInfo) []ai.Outcome {
	if gs(st, "stage") != "open" || st.Ghost["handle"] == nil || !stripIface(st, c.Args[0], st.Ghost["handle"]) {
		x.fail(st, c.Instr, "R01", "lex", "the tokens of %s are read, not those of the file that was opened", show(c.Args[0]))
		return nil
	}
	if len(c.Args) < 2 || !sameStruct(st, c.Args[1], st.Load(ai.FieldAddr(x.opts, fieldIndex(x.optsT, "LexOptions")), rootType(x.p, "LexOptions"))) {
		x.fail(st, c.Instr, "R01", "lex-options", "the LexOptions are not passed to the lexer")
		return nil
	}
	ch := st.Fresh("tokens", c.Common.Signature().Results().At(0).Type())
	st.Assume(ai.Eq(ch, ai.Nil), false)
	st.Ghost["stage"] = ai.Str("lex")
	st.Ghost["tokens"], st.Ghost["chan"] = ch, ch
	return []ai.Outcome{{St: st, Res: ch}}
}

// stripIface compares values up to conversions between interfaces.
func stripIface(st *ai.State, a, b *ai.T) bool {
	a, b = st.Norm(a), st.Norm(b)
	for a.K == ai.KApp && strings.HasPrefix(a.Op, "iface:") {
		a = a.Args[0]
	}
	for b.K == ai.KApp && strings.HasPrefix(b.Op, "iface:") {
		b = b.Args[0]
	}
	return a == b
}

func sameStruct(st *ai.State, a, b *ai.T) bool {
	a, b = st.Norm(a), st.Norm(b)
	if a == b {
		return true
	}
	if b.Is("struct") && !a.Is("struct") {
		a, b = b, a
	}
	if a.Is("struct") && !b.Is("struct") {
		// the fields of a struct that is not known
		for i := range a.Args {
			f := st.Norm(a.Args[i])
			if g := st.Norm(ai.App("fieldof", f.Typ, b, ai.Int(int64(i)))); f != g && !sameStruct(st, f, g) {
				return false
			}
		}
		return len(a.Args) > 0
	}
	if !a.Is("struct") || !b.Is("struct") || len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if !sameStruct(st, a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

func (x *rootExplorer) recv(st *ai.State, ch *ai.T, commaOk bool, typ types.Type, ins ssa.Instruction) ([]ai.Outcome, bool) {
	if st.Ghost["chan"] == nil || st.Norm(ch) != st.Norm(st.Ghost["chan"]) {
		return nil, false
	}
	if gs(st, "stage") == "lex" {
		x.fail(st, ins, "R01", "lost-token", "tokens are read before the file is parsed")
		return nil, true
	}
	n := st.Clone()
	delete(n.Ghost, "tokens")
	v, z := st.FreshOf("token", typ), ai.ZeroOf(typ)
	if commaOk {
		return []ai.Outcome{{St: st, Res: ai.Tuple(v, ai.True)}, {St: n, Res: ai.Tuple(z, ai.False)}}, true
	}
	return []ai.Outcome{{St: st, Res: v}, {St: n, Res: z}}, true
}

// parse is the parsing of a file.
func (x *rootExplorer) parse(st *ai.State, c *ai.CallInfo) []ai.Outcome {
	r := x.readers[c.Fn]
	self := c.Args[0]
	cfg := c.Args[r.config]
	bad := func(key, f string, a ...interface{}) []ai.Outcome {
		x.fail(st, c.Instr, "R01", key, f, a...)
		return nil
	}
	switch {
	case gs(st, "stage") != "lex" || st.Norm(c.Args[r.tokens]) != st.Norm(st.Ghost["chan"]):
		return bad("parse-tokens", "other tokens are parsed than those of the file that was opened")
	case r.mode >= 0 && st.Eval(c.Args[r.mode]) != -1:
		return bad("parse-mode", "a file is skipped, not parsed")
	case field(st, cfg, x.cfgT, "File") != x.cur(st, x.path):
		return bad("config-file", "the config of a file is named %s", show(field(st, cfg, x.cfgT, "File")))
	case st.Eval(ai.Eq(field(st, cfg, x.cfgT, "Status"), ai.Str("ok"))) != 1 || !emptyList(st, field(st, cfg, x.cfgT, "Errors")):
		return bad("config-start", "a config is not empty when its file is parsed")
	}
	ctx := x.cur(st, x.ctx)
	if got := st.Norm(c.Args[r.ctx]); got != ctx && !(st.Eval(ai.Eq(ai.Len(got), ai.Int(0))) == 1 && (ctx.K == ai.KNil || st.Eval(ai.Eq(ai.Len(ctx), ai.Int(0))) == 1)) {
		return bad("parse-ctx", "a file is parsed in the context %s, not in that of its include", show(got))
	}
	if !x.options(st, c.Instr, self) {
		return nil
	}
	pay := x.payload(st)
	if pay == nil {
		return bad("payload", "the payload is not found")
	}
	// what is still queued
	qT := x.parserT.Underlying().(*types.Struct).Field(x.queue).Type()
	q := st.Norm(st.Load(ai.FieldAddr(self, x.queue), qT))
	old := st.Norm(st.Ghost["queue"])
	n := st.Norm(ai.Add(st.Ghost["n"], 1))
	if l := listOf(q); st.Ghost["seen"] == nil && len(l) == 1 && l[0].Is("el") {
		if e := l[0].Args[0]; e.Is("struct") && st.Norm(e.Args[x.path]) == x.filename && st.Eval(ai.Eq(ai.Len(st.Norm(e.Args[x.ctx])), ai.Int(0))) == 1 {
			old = q
		}
	}
	switch {
	case q == st.Norm(ai.App("subslice", qT, old, n, ai.Nil)) || sameParts(listOf(q), listOf(st.Norm(ai.App("subslice", qT, old, n, ai.Nil)))):
		st.Ghost["popped"] = ai.True
		n = ai.Int(0)
	case q == old || sameParts(listOf(q), listOf(old)):
	default:
		return bad("queue", "the queue of files is %s when a file is parsed", show(q))
	}
	if st.Ghost["seen"] == nil {
		x.first(st, c.Instr, self)
		if st.Dead() {
			return nil
		}
		st.Ghost["seen"] = ai.True
	}
	more := st.Fresh("queued", qT)
	q = ai.List(qT, append(append([]*ai.T{}, listOf(q)...), more)...)
	st.Store(ai.FieldAddr(self, x.queue), q, qT)
	st.Ghost["queue"] = q
	if gb(st, "popped") {
		st.Ghost["n"] = n
	}
	st.Ghost["cfg"] = cfg
	st.Ghost["stage"] = ai.Str("parsed")

	// errors are reported while the file is parsed
	h := st.Norm(st.Load(ai.FieldAddr(self, x.errFn), x.parserT.Underlying().(*types.Struct).Field(x.errFn).Type()))
	if h.K != ai.KFunc {
		x.fail(st, c.Instr, "R02", "handler", "the error handler of the parser is %s", show(h))
		return nil
	}
	some := st.Clone()
	x.reported(some, cfg, pay)
	some.Note("errors in the file were reported")
	for _, before := range []bool{true, false} {
		t := st.Clone()
		if before {
			t = some.Clone()
		}
		er := t.Fresh("reported", errT)
		t.Assume(ai.Eq(er, ai.Nil), false)
		t.Ghost["stage"] = ai.Str("test")
		t.Note("an error in the file is reported")
		fn := h.Fn
		x.handle(t, cfg, er)
		if !t.Dead() {
			t.Enter(fn, []*ai.T{cfg, er}, h.Args, nil)
			x.e.Fork(t)
		}
	}
	var out []ai.Outcome
	rt := c.Common.Signature().Results()
	for _, s := range []*ai.State{st, some} {
		f := s.Clone()
		l := s.Fresh("parsed", rt.At(r.list).Type())
		s.Ghost["parsed"] = l
		er := f.Fresh("parseerr", errT)
		f.Assume(ai.Eq(er, ai.Nil), false)
		f.Ghost["stage"], f.Ghost["err"] = ai.Str("parseerr"), er
		f.Note("parsing the file ends with an error")
		mk := func(st *ai.State, l, er *ai.T) ai.Outcome {
			rs := make([]*ai.T, rt.Len())
			rs[r.list], rs[r.err] = l, er
			for i := range rs {
				if rs[i] == nil {
					rs[i] = st.FreshOf("result", rt.At(i).Type())
				}
			}
			return ai.Outcome{St: st, Res: ai.Tuple(rs...)}
		}
		out = append(out, mk(s, l, ai.Nil), mk(f, ai.Nil, er))
		x.run.events["file parsed"]++
		x.run.events["error in a file"]++
	}
	return out
}

func emptyList(st *ai.State, l *ai.T) bool {
	return st.Eval(ai.Eq(l, ai.Nil)) == -1 && st.Eval(ai.Eq(ai.Len(l), ai.Int(0))) == 1
}

// reported brings the errors of a config and the payload to what they may be after errors were reported.
func (x *rootExplorer) reported(st *ai.State, cfg, pay *ai.T) {
	for _, y := range []struct {
		o *ai.T
		t types.Type
	}{{cfg, x.cfgT}, {pay, x.payT}} {
		s := y.t.Underlying().(*types.Struct)
		i := fieldIndex(y.t, "Errors")
		l := st.Fresh("errors", s.Field(i).Type())
		st.Assume(ai.Eq(l, ai.Nil), false)
		st.Assume(ai.Le(ai.Int(1), ai.Len(l)), true)
		st.Store(ai.FieldAddr(y.o, i), l, s.Field(i).Type())
		st.Store(ai.FieldAddr(y.o, fieldIndex(y.t, "Status")), ai.Str("failed"), strT)
	}
	st.Ghost["failed"] = ai.True
	st.Ghost["cfgfailed"] = ai.True
}

// options checks that the parser has the options of the caller.
func (x *rootExplorer) options(st *ai.State, ins ssa.Instruction, self *ai.T) bool {
	o := st.Norm(st.Load(ai.FieldAddr(self, x.optsField), x.parserT.Underlying().(*types.Struct).Field(x.optsField).Type()))
	s := x.optsT.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		want, got := st.Norm(st.Load(ai.FieldAddr(x.opts, i), f.Type())), st.Norm(st.Load(ai.FieldAddr(o, i), f.Type()))
		if f.Name() == "Glob" && st.Eval(ai.Eq(want, ai.Nil)) != -1 {
			if st.Eval(ai.Eq(want, ai.Nil)) == 1 && got.K == ai.KFunc && got.Fn.String() == "path/filepath.Glob" {
				continue
			}
			if !sameStruct(st, got, want) {
				x.fail(st, ins, "R01,P06", "glob", "the parser uses %s for Glob", show(got))
				return false
			}
			continue
		}
		if !sameStruct(st, got, want) {
			x.fail(st, ins, "R01", "option-"+f.Name(), "the option %s of the parser is %s", f.Name(), show(got))
			return false
		}
	}
	return true
}

// first checks the parser when the first file is parsed.
func (x *rootExplorer) first(st *ai.State, ins ssa.Instruction, self *ai.T) {
	s := x.parserT.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := st.Norm(st.Load(ai.FieldAddr(self, i), f.Type()))
		switch t := f.Type().Underlying().(type) {
		case *types.Basic:
			if t.Kind() == types.String && v != st.Norm(ai.App("dir", strT, x.filename)) {
				x.fail(st, ins, "R01,P06", "dir", "relative includes are taken from %s", show(v))
				return
			}
		case *types.Map:
			if st.Eval(ai.Eq(v, ai.Nil)) != -1 {
				x.fail(st, ins, "R01", "map-nil", "the map %s of the parser is nil", f.Name())
				return
			}
			m := st.Norm(st.MapOf(v))
			if t.Elem().Underlying().String() == "int" {
				if !m.Is("mput") || !m.Args[0].Is("mempty") || m.Args[1] != x.filename || st.Eval(ai.Eq(m.Args[2], ai.Int(0))) != 1 {
					x.fail(st, ins, "R01,P07,P10", "map-start", "the map %s of the parser does not start with the main file only", f.Name())
					return
				}
			} else if !m.Is("mempty") {
				x.fail(st, ins, "R01,P07,P10", "map-start", "the map %s of the parser is not empty at first", f.Name())
				return
			}
		}
	}
}

// handle remembers the errors before one is recorded.
func (x *rootExplorer) handle(st *ai.State, cfg, err *ai.T) {
	pay := x.payload(st)
	if pay == nil {
		x.fail(st, nil, "R02", "payload", "the payload is not found")
		return
	}
	st.Ghost["he"] = ai.Str("in")
	st.Ghost["he-err"], st.Ghost["he-cfg"] = err, cfg
	st.Ghost["he-depth"] = ai.Int(int64(len(st.Frames)))
	st.Ghost["he-c"], st.Ghost["he-p"] = field(st, cfg, x.cfgT, "Errors"), field(st, pay, x.payT, "Errors")
	st.Ghost["he-cc"] = field(st, pay, x.payT, "Config")
	delete(st.Ghost, "he-cb")
}

// callRet checks what is recorded for an error.
func (x *rootExplorer) callRet(st *ai.State, fn *ssa.Function, as []*ai.T, res *ai.T) {
	if gs(st, "he") != "in" || int64(len(st.Frames)) != gi(st, "he-depth") {
		return
	}
	cfg, err := st.Norm(st.Ghost["he-cfg"]), st.Norm(st.Ghost["he-err"])
	pay := x.payload(st)
	bad := func(key, f string, a ...interface{}) {
		var ins ssa.Instruction
		if n := len(fn.Blocks); n > 0 {
			ins = fn.Blocks[0].Instrs[0]
		}
		x.fail(st, ins, "R02", key, f, a...)
	}
	if pay == nil {
		bad("payload", "the payload is not found")
		return
	}
	pt := types.NewPointer(rootType(x.p, "ParseError"))
	line := ai.Nil
	switch st.Eval(ai.IsType(err, pt)) {
	case 1:
		line = field(st, st.Norm(ai.AsType(err, pt)), rootType(x.p, "ParseError"), "Line")
	case 0:
		bad("line", "the line of an error is not looked at")
		return
	}
	// an element that was added
	added := func(l, old *ai.T, typ string) *ai.T {
		l, old = st.Norm(l), st.Norm(old)
		a, b := listOf(l), listOf(old)
		if len(a) != len(b)+1 || !sameParts(a[:len(b)], b) || !a[len(a)-1].Is("el") {
			return nil
		}
		return st.Norm(a[len(a)-1].Args[0])
	}
	get := func(v *ai.T, typ, name string) *ai.T {
		i := fieldIndex(rootType(x.p, typ), name)
		if i < 0 || !v.Is("struct") {
			return ai.Str("?")
		}
		return st.Norm(v.Args[i])
	}
	ce := added(field(st, cfg, x.cfgT, "Errors"), st.Ghost["he-c"], "ConfigError")
	pe := added(field(st, pay, x.payT, "Errors"), st.Ghost["he-p"], "PayloadError")
	same := func(a, b *ai.T) bool { return a == b || st.Eval(ai.Eq(a, b)) == 1 }
	file := field(st, cfg, x.cfgT, "File")
	switch {
	case ce == nil || pe == nil:
		bad("recorded", "an error is not added once to the errors of its config and of the payload")
	case !stripIface(st, get(ce, "ConfigError", "Error"), err) || !stripIface(st, get(pe, "PayloadError", "Error"), err):
		bad("error", "another error is recorded than the one that occurred")
	case !same(get(ce, "ConfigError", "Line"), line) || !same(get(pe, "PayloadError", "Line"), line):
		bad("line", "the line that is recorded for an error is not its own")
	case !same(get(pe, "PayloadError", "File"), file):
		bad("file", "the file that is recorded for an error is %s", show(get(pe, "PayloadError", "File")))
	case st.Eval(ai.Eq(field(st, cfg, x.cfgT, "Status"), ai.Str("failed"))) != 1:
		bad("config-status", "the status of a config with an error is %s", show(field(st, cfg, x.cfgT, "Status")))
	case st.Eval(ai.Eq(field(st, pay, x.payT, "Status"), ai.Str("failed"))) != 1:
		bad("payload-status", "the status of a payload with an error is %s", show(field(st, pay, x.payT, "Status")))
	case st.Norm(field(st, pay, x.payT, "Config")) != st.Norm(st.Ghost["he-cc"]):
		bad("configs", "the configs of the payload change when an error is recorded")
	default:
		cb := get(pe, "PayloadError", "Callback")
		switch st.Eval(ai.Eq(x.opt(st, "ErrorCallback"), ai.Nil)) {
		case 1:
			if st.Eval(ai.Eq(cb, ai.Nil)) != 1 {
				bad("callback-result", "an error has a callback result although there is no callback")
			}
		case -1:
			if st.Ghost["he-cb"] == nil || !stripIface(st, cb, st.Ghost["he-cb"]) {
				bad("callback-result", "ErrorCallback is not called for an error, or its result is not recorded")
			}
		default:
			bad("callback-asked", "whether there is an ErrorCallback is not looked at")
		}
	}
	if st.Dead() {
		return
	}
	x.run.events["error recorded"]++
	if gs(st, "stage") == "test" {
		st.Kill()
		return
	}
	if gs(st, "stage") != "parseerr" || cfg != st.Norm(st.Ghost["cfg"]) || !stripIface(st, err, st.Ghost["err"]) {
		bad("invented", "an error is recorded that did not occur, or twice, or for another config")
		return
	}
	if st.Eval(x.opt(st, "StopParsingOnError")) != -1 {
		bad("stop", "an error is recorded although StopParsingOnError may be set")
		return
	}
	st.Ghost["stage"] = ai.Str("handled")
	st.Ghost["failed"], st.Ghost["cfgfailed"] = ai.True, ai.True
	for _, k := range []string{"he", "he-err", "he-cfg", "he-c", "he-p", "he-cc", "he-cb", "he-depth"} {
		delete(st.Ghost, k)
	}
}

func gi(st *ai.State, k string) int64 {
	if t := st.Ghost[k]; t != nil {
		if n, ok := t.IsInt(); ok {
			return n
		}
	}
	return -1
}

// appended follows the configs of the payload.
func (x *rootExplorer) appended(st *ai.State, base *ai.T, parts []*ai.T, res *ai.T, ins ssa.Instruction) {
	if len(parts) != 1 || !parts[0].Is("el") || res.Typ == nil {
		return
	}
	l, ok := res.Typ.Underlying().(*types.Slice)
	if !ok || !isNamed(l.Elem(), "Config") {
		return
	}
	if !sameParts(listOf(st.Norm(base)), listOf(st.Norm(st.Ghost["configs"]))) {
		x.fail(st, ins, "R01", "configs", "a config is added to %s, not to the configs before", show(base))
		return
	}
	g := gs(st, "stage")
	if g == "parseerr" {
		x.fail(st, ins, "R02,R03", "dropped", "an error that ends the parsing of a file is dropped")
		return
	}
	if g != "parsed" && g != "handled" {
		x.fail(st, ins, "R01", "config-stage", "a config is added although no file was parsed, or twice")
		return
	}
	v := st.Norm(parts[0].Args[0])
	get := func(n string) *ai.T {
		i := fieldIndex(x.cfgT, n)
		if !v.Is("struct") || i < 0 {
			return ai.Str("?")
		}
		return st.Norm(v.Args[i])
	}
	cfg := st.Norm(st.Ghost["cfg"])
	want := "ok"
	if gb(st, "cfgfailed") {
		want = "failed"
	}
	switch {
	case get("File") != field(st, cfg, x.cfgT, "File"):
		x.fail(st, ins, "R01", "file", "the file of a config is %s", show(get("File")))
	case st.Eval(ai.Eq(get("Status"), ai.Str(want))) != 1:
		x.fail(st, ins, "R02", "status", "the status of a config is %s, not %q", show(get("Status")), want)
	case get("Errors") != field(st, cfg, x.cfgT, "Errors") || want == "ok" && !emptyList(st, get("Errors")):
		x.fail(st, ins, "R02", "errors", "the errors of a config are %s", show(get("Errors")))
	case g == "parsed" && get("Parsed") != st.Norm(st.Ghost["parsed"]):
		x.fail(st, ins, "R01", "parsed", "the directives of a config are %s, not those that were parsed", show(get("Parsed")))
	case g == "handled" && !emptyList(st, get("Parsed")):
		x.fail(st, ins, "R01", "parsed-error", "the directives of a config whose parsing ended with an error are %s", show(get("Parsed")))
	}
	if st.Dead() {
		return
	}
	st.Ghost["configs"] = ai.List(nil, append(append([]*ai.T{}, listOf(st.Norm(st.Ghost["configs"]))...), parts[0])...)
	st.Ghost["stage"] = ai.Str("next")
	if !gb(st, "popped") {
		st.Ghost["n"] = ai.Add(st.Ghost["n"], 1)
	}
	for _, k := range []string{"popped", "cfg", "parsed", "err", "cfgfailed", "handle", "chan"} {
		delete(st.Ghost, k)
	}
}

func (x *rootExplorer) header(st *ai.State, b *ssa.BasicBlock) {
	if gs(st, "stage") != "next" {
		return
	}
	for _, k := range []string{"queue", "configs"} {
		if l := st.Norm(st.Ghost[k]); l.Is("list") && len(l.Args) > 0 && !(len(l.Args) == 1 && !l.Args[0].Is("el")) {
			if k == "queue" && st.Ghost["seen"] == nil {
				continue
			}
			if l.Typ == nil {
				l.Typ = map[string]types.Type{"queue": types.NewSlice(x.fctxT), "configs": types.NewSlice(x.cfgT)}[k]
			}
			st.FoldList(l)
		}
	}
	if pay := x.payload(st); pay != nil {
		if l := field(st, pay, x.payT, "Errors"); l.Is("list") && len(l.Args) > 0 {
			st.FoldList(l)
		}
	}
}

// complete tells whether all files were parsed and the include graph is known to be acyclic.
func (x *rootExplorer) complete(st *ai.State, ins ssa.Instruction) bool {
	if gs(st, "stage") == "parseerr" {
		x.fail(st, ins, "R02,R03", "dropped", "an error that ends the parsing of a file is dropped")
		return false
	}
	if gs(st, "stage") != "next" || x.more(st) != -1 {
		x.fail(st, ins, "R01", "incomplete", "Parse ends before every queued file was parsed and added to the payload")
		return false
	}
	if st.Ghost["cyclic"] == nil || st.Eval(st.Ghost["cyclic"]) != -1 {
		x.fail(st, ins, "R03,P10", "cycle", "Parse ends without an error although the includes may be cyclic")
		return false
	}
	return true
}

func (x *rootExplorer) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	if len(res) != 2 {
		return
	}
	if !x.left(st, ins) {
		return
	}
	switch st.Eval(ai.Eq(res[1], ai.Nil)) {
	case 0:
		x.fail(st, ins, "R03", "result", "it is not known whether Parse ends with an error")
		return
	case -1:
		if st.Eval(ai.Eq(res[0], ai.Nil)) != 1 {
			x.fail(st, ins, "R03", "both", "Parse returns both a payload and an error")
			return
		}
		switch {
		case gs(st, "stage") == "openerr" && stripIface(st, res[1], st.Ghost["err"]):
			x.run.events["cannot be opened"]++
		case gs(st, "stage") == "parseerr" && stripIface(st, res[1], st.Ghost["err"]) && st.Eval(x.opt(st, "StopParsingOnError")) == 1:
			x.run.events["stopped"]++
		case st.Ghost["cyclic"] != nil && st.Eval(st.Ghost["cyclic"]) == 1:
			x.run.events["cycle"]++
		case st.Ghost["combineerr"] != nil && stripIface(st, res[1], st.Ghost["combineerr"]):
		default:
			x.fail(st, ins, "R03", "invented", "Parse ends with the error %s, which has no cause", show(res[1]))
		}
		return
	}
	switch {
	case gs(st, "stage") == "openerr":
		x.fail(st, ins, "R03", "open-dropped", "Parse ends without an error although a file could not be opened")
		return
	case st.Ghost["combineerr"] != nil:
		x.fail(st, ins, "R03", "combine-dropped", "an error of combining the configs is dropped")
		return
	}
	if !x.complete(st, ins) {
		return
	}
	if r := st.Ghost["combined"]; r != nil {
		if st.Norm(res[0]) != st.Norm(r) {
			x.fail(st, ins, "R03", "combined", "Parse returns %s, not the combined payload", show(res[0]))
			return
		}
		x.run.events["combined"]++
		return
	}
	if st.Eval(x.opt(st, "CombineConfigs")) != -1 {
		x.fail(st, ins, "R03", "not-combined", "the configs are not combined although CombineConfigs may be set")
		return
	}
	pay := x.payload(st)
	if pay == nil || st.Norm(res[0]) != pay {
		x.fail(st, ins, "R03", "payload", "Parse returns %s", show(res[0]))
		return
	}
	if l := st.Norm(field(st, pay, x.payT, "Config")); !sameParts(listOf(l), listOf(st.Norm(st.Ghost["configs"]))) {
		x.fail(st, ins, "R01", "payload-configs", "the configs of the payload are %s", show(l))
		return
	}
	want := "ok"
	if gb(st, "failed") {
		want = "failed"
	}
	errs := field(st, pay, x.payT, "Errors")
	if st.Eval(ai.Eq(field(st, pay, x.payT, "Status"), ai.Str(want))) != 1 || st.Eval(ai.Eq(errs, ai.Nil)) != -1 || want == "ok" && !emptyList(st, errs) || want == "failed" && st.Eval(ai.Le(ai.Int(1), ai.Len(errs))) != 1 {
		x.fail(st, ins, "R02", "payload-status", "the status of the payload is %s and its errors are %s, but the status should be %q", show(field(st, pay, x.payT, "Status")), show(errs), want)
		return
	}
	x.run.events["payload"]++
}

func init() {
	const tech = "abstract interpretation (path-sensitive fixpoint over SSA) of Parse in product with a reference (property simulation)"
	const expl = "Parse is interpreted abstractly to a fixpoint, in product with a reference that follows the queue of files. Reading the tokens of one file is replaced by its contract (it may queue any number of files and report any number of errors, and yields directives or an error); the handler for errors is interpreted as well, for a config and a payload with and without errors before."
	prodCheck("R01", tech, expl, rootAll, "every queued file is opened, lexed and parsed once, in order, in its context, and has its config in the payload at its number")
	prodCheck("R02", tech, expl, rootAll, "an error that is reported is recorded once in its config and in the payload; statuses are failed exactly if there are errors")
	prodCheck("R03", tech, expl, rootAll, "Parse ends with an error exactly for a cause, and with the combined payload if CombineConfigs is set")
	prodCheck("R04", tech, expl, rootAll, "files are closed and tokens read to the end on every path")
	prodMore("P06", rootAll, "the parser starts with the directory of the main file and with the Glob function of the options")
	prodMore("P07", rootAll, "the parser starts with the main file as the only one that is known")
	prodMore("P10", rootAll, "Parse looks for cycles after all files were parsed, and ends with an error if there is one")
	extend("R01", func(p *load.Prog, r *rep.R) {
		parseReport(parseAll(p), r, "R01", []string{"an included file is queued behind those that are queued, with its number and context"})
	})
}
