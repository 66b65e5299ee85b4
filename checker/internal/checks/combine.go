package checks

import (
	"go/types"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

var combineProps = []string{"K01", "K02"}

// Combined is decided in product with a reference that follows the configs whose errors and status were taken
// over; the generator of directives, which runs in goroutines of its own, is decided in product with one that
// follows the statement of the block and the include that are expanded. Both use the contract of the generator
// for the channels it returns: it sends statements, ends with an error if there is one, and is then closed.
type combineExplorer struct {
	*prod
	payT, cfgT, stmtT, elT types.Type
	dirF, errF             int // the fields of what is sent
	gens                   map[*ssa.Function]bool
	started                []goroutine
	old, from, block       *ai.T
	gen                    bool
}

func generators(p *load.Prog) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg != p.RootSSA || f.Signature.Results().Len() != 1 || f.Parent() != nil {
			continue
		}
		ch, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Chan)
		if !ok {
			continue
		}
		if d, e := sentFields(ch.Elem()); d >= 0 && e >= 0 {
			r[f] = true
		}
	}
	return r
}

func sentFields(t types.Type) (d, e int) {
	d, e = -1, -1
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() != 2 {
		return
	}
	for i := 0; i < 2; i++ {
		switch {
		case isNamed(s.Field(i).Type(), "Directive"):
			d = i
		case types.Identical(s.Field(i).Type(), errT):
			e = i
		}
	}
	return
}

var combineAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	fn := rootMethod(p, "Payload", "Combined")
	gens := generators(p)
	if fn == nil || len(gens) == 0 {
		run.anchor(combineProps, "the method Combined or the generator of the directives it returns was not found")
		return run
	}
	mk := func() *combineExplorer {
		x := &combineExplorer{prod: newProd(p, run, "K01"), gens: gens}
		x.payT, x.cfgT, x.stmtT = rootType(p, "Payload"), rootType(p, "Config"), rootType(p, "Directive")
		e := x.e
		e.Call = x.call
		e.Recv = x.recv
		e.Send = x.send
		e.Go = x.goes
		e.Defer = nil
		e.OnHeader = x.header
		e.OnAppend = x.appended
		e.OnBranch = x.branch
		e.Return = x.ret
		guardIf(p, e, "Combined writes to the payload it is called for", func(t *ai.T) bool {
			return t == x.old || t == x.block || x.isStmt(t)
		})
		e.OnStore = func(st *ai.State, addr, v *ai.T, typ types.Type, ins ssa.Instruction) {
			a := addr
			for a.Is("field") || a.Is("elem") {
				a = a.Args[0]
			}
			if a == x.old || a == x.block || x.isStmt(a) {
				x.fail(st, ins, "K01", "combine", "Combined writes to the payload it is called for")
			}
		}
		return x
	}
	x := mk()
	st := ai.NewState(x.e)
	as := args(fn)
	x.old = as[0]
	st.Assume(ai.Eq(x.old, ai.Nil), false)
	st.Ghost["n"], st.Ghost["s"], st.Ghost["m"] = ai.Int(0), ai.Int(0), ai.Int(0)
	st.Ghost["failed"] = ai.False
	x.prod.explore(st, fn, as, combineProps)
	for g := range gens {
		if x.e.Stop {
			break
		}
		x := mk()
		x.gen = true
		x.elT = g.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
		x.dirF, x.errF = sentFields(x.elT)
		st := ai.NewState(x.e)
		as := args(g)
		for _, a := range as {
			switch {
			case isNamed(a.Typ, "Payload"):
				x.old = a
				st.Assume(ai.Eq(a, ai.Nil), false)
			case isNamed(a.Typ, "Directives"):
				x.block = a
			case types.Identical(a.Typ, strT):
				x.from = a
			}
		}
		if x.old == nil || x.block == nil || x.from == nil {
			run.anchor(combineProps, "the generator "+g.String()+" does not take a payload, a file name and a block")
			return run
		}
		st.Ghost["stage"] = ai.Str("start")
		x.prod.explore(st, g, as, combineProps)
		for i := 0; i < len(x.started); i++ {
			w := x.started[i]
			st := w.st.Clone()
			st.Frames = nil
			st.ResetOwnership()
			st.Forget(nil)
			st.Assume(ai.Eq(x.old, ai.Nil), false)
			st.Ghost["stage"] = ai.Str("next")
			st.Ghost["n"], st.Ghost["k"] = ai.Int(0), ai.Int(0)
			x.e.Start(st, w.fn, w.args, w.bind)
			x.e.Run(st)
			run.states += len(x.e.Visited)
			run.roots = append(run.roots, w.fn.String())
		}
	}
	run.need(combineProps, "combined", "error returned", "errors taken over", "status looked at", "statement sent", "block expanded", "include expanded", "error passed on", "bad include", "all sent")
	return run
})

// isStmt tells whether a term is a statement of a block that was there before; these are never nil.
func (x *combineExplorer) isStmt(t *ai.T) bool {
	return t.Is("index") && t.Typ != nil && isNamed(t.Typ, "Directive")
}

func (x *combineExplorer) configs(st *ai.State) *ai.T { return field(st, x.old, x.payT, "Config") }

func (x *combineExplorer) stmt(st *ai.State) *ai.T {
	return at(st, x.block, st.Ghost["n"], types.NewPointer(x.stmtT))
}

func (x *combineExplorer) of(st *ai.State, name string) *ai.T {
	return field(st, x.stmt(st), x.stmtT, name)
}

// isInclude tells whether the statement is an include whose files were parsed.
func (x *combineExplorer) isInclude(st *ai.State) int {
	return and3(st.Eval(ai.Eq(x.of(st, "Directive"), ai.Str("include"))), -st.Eval(ai.Eq(x.of(st, "Includes"), ai.Nil)))
}

func (x *combineExplorer) idx(st *ai.State) *ai.T {
	return at(st, x.of(st, "Includes"), st.Ghost["k"], intT)
}

func (x *combineExplorer) goes(st *ai.State, c *ai.CallInfo) {
	if !x.gen || c.Fn == nil || gs(st, "stage") != "start" {
		x.fail(st, c.Instr, "K01", "goroutine", "undecided: a goroutine that cannot be followed is started")
		return
	}
	var binds []*ai.T
	if c.Callee != nil && c.Callee.K == ai.KFunc {
		binds = c.Callee.Args
	}
	st.Ghost["stage"] = ai.Str("started")
	x.started = append(x.started, goroutine{st.Clone(), c.Fn, c.Args, binds})
}

func (x *combineExplorer) call(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	if c.Fn == nil || !x.gens[c.Fn] {
		return nil, false
	}
	bad := func(prop, key, f string, a ...interface{}) ([]ai.Outcome, bool) {
		x.fail(st, c.Instr, prop, key, f, a...)
		return nil, true
	}
	if len(st.Frames) == 0 {
		return nil, false
	}
	var old, from, block *ai.T
	for _, a := range c.Args {
		switch {
		case a.Typ != nil && isNamed(a.Typ, "Payload"):
			old = st.Norm(a)
		case a.Typ != nil && isNamed(a.Typ, "Directives"):
			block = st.Norm(a)
		default:
			from = st.Norm(a)
		}
	}
	if old != x.old || from == nil || block == nil {
		return bad("K01", "args", "directives are generated from %v", c.Args)
	}
	if st.Ghost["ch"] != nil {
		return bad("K01", "two", "directives are generated while others are not received yet")
	}
	cfgs := x.configs(st)
	ch := st.Fresh("sub", c.Typ)
	st.Assume(ai.Eq(ch, ai.Nil), false)
	if !x.gen {
		first := at(st, cfgs, ai.Int(0), x.cfgT)
		if from != field2(st, first, x.cfgT, "File") || block != field2(st, first, x.cfgT, "Parsed") || st.Ghost["parsed"] != nil {
			return bad("K01", "first", "directives are generated from the block %s of the file %s, not those of the first config, or twice", show(block), show(from))
		}
		st.Ghost["ch"] = ch
		st.Ghost["parsed"] = ai.List(nil)
		return []ai.Outcome{{St: st, Res: ch}}, true
	}
	if gs(st, "stage") != "next" || st.Eval(ai.Lt(st.Ghost["n"], ai.Len(x.block))) != 1 {
		return bad("K01", "late", "directives are generated although no statement is known to be left, or after it was sent")
	}
	if from == x.from && block == x.of(st, "Block") {
		if st.Ghost["nested"] != nil {
			return bad("K01", "nested-twice", "the block of a statement is expanded twice")
		}
		st.Ghost["ch"] = ch
		st.Ghost["nested"] = ai.List(nil)
		return []ai.Outcome{{St: st, Res: ch}}, true
	}
	if x.isInclude(st) != 1 || st.Eval(ai.Lt(st.Ghost["k"], ai.Len(x.of(st, "Includes")))) != 1 {
		return bad("K01", "include", "the block %s is expanded although no include is known to be left", show(block))
	}
	cfg := at(st, cfgs, x.idx(st), x.cfgT)
	if from != field2(st, cfg, x.cfgT, "File") || block != field2(st, cfg, x.cfgT, "Parsed") {
		return bad("K01", "include-what", "the block %s of the file %s is expanded, not those of the next include", show(block), show(from))
	}
	if st.Ghost["incdone"] != nil {
		return bad("K01", "include-twice", "an include is expanded twice")
	}
	st.Ghost["ch"] = ch
	st.Ghost["including"] = ai.True
	return []ai.Outcome{{St: st, Res: ch}}, true
}

// recv receives what the generator of a block sends.
func (x *combineExplorer) recv(st *ai.State, ch *ai.T, commaOk bool, typ types.Type, ins ssa.Instruction) ([]ai.Outcome, bool) {
	if st.Ghost["ch"] == nil || st.Norm(ch) != st.Ghost["ch"] {
		if c, ok := typ.(*types.Tuple); ok {
			typ = c.At(0).Type()
		}
		if d, e := sentFields(typ); d >= 0 && e >= 0 {
			x.fail(st, ins, "K01", "closed-recv", "undecided: directives are received from a channel that has ended")
			return nil, true
		}
		return nil, false
	}
	if st.Ghost["got"] != nil || st.Ghost["err"] != nil {
		x.fail(st, ins, "K01", "dropped", "a directive or an error that was received is dropped")
		return nil, true
	}
	d, e := sentFields(typ)
	if d < 0 || e < 0 {
		return nil, false
	}
	mk := func(st *ai.State, dir, er *ai.T) *ai.T {
		var fs [2]*ai.T
		fs[d], fs[e] = dir, er
		return ai.StructVal(typ, fs[0], fs[1])
	}
	res := func(v *ai.T, ok bool) *ai.T {
		if commaOk {
			return ai.Tuple(v, ai.Bool(ok))
		}
		return v
	}
	end, fail := st.Clone(), st.Clone()
	delete(end.Ghost, "ch")
	end.Note("no directive is left")
	if end.Ghost["including"] != nil {
		delete(end.Ghost, "including")
		end.Ghost["incdone"] = ai.True
		x.run.events["include expanded"]++
	}
	if end.Ghost["nested"] != nil {
		end.Ghost["nesteddone"] = ai.True
		x.run.events["block expanded"]++
	}
	er := fail.Fresh("err", errT)
	fail.Assume(ai.Eq(er, ai.Nil), false)
	fail.Note("an error is received")
	fail.Ghost["err"] = er
	delete(fail.Ghost, "ch")
	dir := st.Fresh("dir", types.NewPointer(x.stmtT))
	st.Assume(ai.Eq(dir, ai.Nil), false)
	st.Note("a directive is received")
	st.Ghost["got"] = dir
	fd := fail.Fresh("nodir", types.NewPointer(x.stmtT))
	return []ai.Outcome{
		{St: st, Res: res(mk(st, dir, ai.Nil), true)},
		{St: fail, Res: res(mk(fail, fd, er), true)},
		{St: end, Res: res(mk(end, ai.Nil, ai.Nil), false)},
	}, true
}

func (x *combineExplorer) appended(st *ai.State, base *ai.T, parts []*ai.T, res *ai.T, ins ssa.Instruction) {
	if res.Typ == nil {
		return
	}
	l, ok := res.Typ.Underlying().(*types.Slice)
	if !ok {
		return
	}
	switch {
	case isNamed(l.Elem(), "Directive"):
		key := "parsed"
		if x.gen {
			key = "nested"
		}
		to := st.Ghost[key]
		if to == nil || st.Ghost["got"] == nil || st.Ghost["including"] != nil {
			x.fail(st, ins, "K01", "append", "a directive is added to a list although none was received")
			return
		}
		if !sameParts(listOf(st.Norm(base)), listOf(st.Norm(to))) {
			x.fail(st, ins, "K01", "append-to", "a directive is added to %s, not to those before", show(base))
			return
		}
		if len(parts) != 1 || !parts[0].Is("el") || st.Norm(parts[0].Args[0]) != st.Ghost["got"] {
			x.fail(st, ins, "K01", "append-what", "%v is added to a list, not the directive that was received", parts)
			return
		}
		delete(st.Ghost, "got")
		st.Ghost[key] = res
	case isNamed(l.Elem(), "ConfigError") && !x.gen:
		to := st.Ghost["errors"]
		if to == nil {
			to = ai.List(nil)
		}
		if !sameParts(listOf(st.Norm(base)), listOf(st.Norm(to))) {
			x.fail(st, ins, "K02", "errors-to", "errors are added to %s, not to those before", show(base))
			return
		}
		cfgs := x.configs(st)
		if st.Eval(ai.Lt(st.Ghost["n"], ai.Len(cfgs))) != 1 {
			x.fail(st, ins, "K02", "errors-late", "errors are added although no config is known to be left")
			return
		}
		errs := field2(st, at(st, cfgs, st.Ghost["n"], x.cfgT), x.cfgT, "Errors")
		switch {
		case len(parts) == 1 && st.Norm(parts[0]) == errs && st.Eval(ai.Eq(st.Ghost["m"], ai.Int(0))) == 1:
			st.Ghost["m"] = ai.Str("all")
		case len(parts) == 0 && st.Eval(ai.Eq(ai.Len(errs), ai.Int(0))) == 1:
			st.Ghost["m"] = ai.Str("all")
		case len(parts) == 1 && parts[0].Is("el") && sameStruct(st, parts[0].Args[0], at(st, errs, st.Ghost["m"], l.Elem())):
			st.Ghost["m+"] = ai.True
		default:
			x.fail(st, ins, "K02", "errors-what", "%v is added to the errors, not those of the next config", parts)
			return
		}
		x.run.events["errors taken over"]++
		st.Ghost["errors"] = res
	}
}

// branch learns which configs failed.
func (x *combineExplorer) branch(st *ai.State, c *ai.T, val bool, ins *ssa.If) {
	if x.gen || !isInt(st.Ghost["s"]) {
		return
	}
	cfg := at(st, x.configs(st), st.Ghost["s"], x.cfgT)
	s := field2(st, cfg, x.cfgT, "Status")
	switch st.Eval(ai.Eq(s, ai.Str("failed"))) {
	case 1:
		if st.Eval(ai.Lt(st.Ghost["s"], ai.Len(x.configs(st)))) == 1 {
			st.Ghost["failed"] = ai.True
			st.Ghost["s"] = ai.Str("all")
			x.run.events["status looked at"]++
		}
	case -1:
		st.Ghost["s+"] = ai.True
		x.run.events["status looked at"]++
	}
}

func isInt(t *ai.T) bool {
	s, ok := t.IsStr()
	return !ok || s != "all"
}

func (x *combineExplorer) header(st *ai.State, b *ssa.BasicBlock) {
	if len(st.Frames) == 0 {
		return
	}
	if x.gen {
		if gs(st, "stage") == "start" || gs(st, "stage") == "started" {
			return
		}
		if st.Ghost["got"] != nil || st.Ghost["err"] != nil {
			return
		}
		x.advance(st)
		inner := st.Ghost["ch"] != nil
		deep := st.Eval(ai.Eq(st.Ghost["k"], ai.Int(0))) != 1 || x.isInclude(st) == 1
		x.e.WidenGhost = func(k string) bool { return k == "k" && deep || k == "n" && !deep && !inner }
		if !inner && !deep {
			st.Forget(func(t *ai.T) bool { return t.Is("index") })
		}
		return
	}
	x.settle(st, true)
	mid := st.Eval(ai.Eq(st.Ghost["m"], ai.Int(0))) != 1
	x.e.WidenGhost = func(k string) bool { return k == "m" || k == "n" && !mid || k == "s" && !mid }
	if l := st.Ghost["errors"]; l != nil {
		l = st.Norm(l)
		f := st.Fresh("errors", l.Typ)
		pre := ai.And(ai.Eq(l, ai.Nil))
		if st.Eval(pre) == -1 {
			st.Assume(ai.Eq(f, ai.Nil), false)
		}
		x.fold(st, l, f)
	}
}

// fold replaces a list by one that is not known.
func (x *combineExplorer) fold(st *ai.State, l, f *ai.T) {
	if l.Is("list") && len(l.Args) > 0 {
		st.Replace(l, f)
	}
}

// settle counts the configs that are done.
func (x *combineExplorer) settle(st *ai.State, header bool) {
	if st.Ghost["m+"] != nil {
		delete(st.Ghost, "m+")
		st.Ghost["m"] = st.Norm(ai.Add(st.Ghost["m"], 1))
	}
	cfgs := x.configs(st)
	if isInt(st.Ghost["n"]) && st.Eval(ai.Lt(st.Ghost["n"], ai.Len(cfgs))) == 1 {
		errs := field2(st, at(st, cfgs, st.Ghost["n"], x.cfgT), x.cfgT, "Errors")
		if !isInt(st.Ghost["m"]) || st.Eval(ai.Le(ai.Len(errs), st.Ghost["m"])) == 1 {
			st.Ghost["n"] = st.Norm(ai.Add(st.Ghost["n"], 1))
			st.Ghost["m"] = ai.Int(0)
		}
	}
	if st.Ghost["s+"] != nil {
		delete(st.Ghost, "s+")
		st.Ghost["s"] = st.Norm(ai.Add(st.Ghost["s"], 1))
	}
	for _, k := range []string{"n", "s"} {
		if isInt(st.Ghost[k]) && st.Eval(ai.Le(ai.Len(cfgs), st.Ghost[k])) == 1 {
			st.Ghost[k] = ai.Str("all")
		}
	}
}

// advance goes on with the next include or the next statement.
func (x *combineExplorer) advance(st *ai.State) {
	if gs(st, "stage") == "sent" {
		st.Ghost["stage"] = ai.Str("next")
		delete(st.Ghost, "nested")
		delete(st.Ghost, "nesteddone")
		st.Ghost["n"] = st.Norm(ai.Add(st.Ghost["n"], 1))
		return
	}
	if st.Ghost["incdone"] != nil {
		delete(st.Ghost, "incdone")
		st.Ghost["k"] = st.Norm(ai.Add(st.Ghost["k"], 1))
		return
	}
	if st.Ghost["ch"] == nil && x.isInclude(st) == 1 && st.Eval(ai.Le(ai.Len(x.of(st, "Includes")), st.Ghost["k"])) == 1 {
		delete(st.Ghost, "nested")
		delete(st.Ghost, "nesteddone")
		st.Ghost["k"] = ai.Int(0)
		st.Ghost["n"] = st.Norm(ai.Add(st.Ghost["n"], 1))
	}
}

// send checks what the generator sends; v is nil if the channel is closed.
func (x *combineExplorer) send(st *ai.State, ch, v *ai.T, ins ssa.Instruction) {
	if !x.gen || st.Norm(ch) != st.Norm(st.Ghost["chan"]) {
		if d, e := sentFields(x.elemOf(ch)); d >= 0 && e >= 0 && x.gen && st.Ghost["chan"] == nil {
			st.Ghost["chan"] = st.Norm(ch)
		} else {
			x.fail(st, ins, "K01", "send-where", "undecided: something is sent to %s, or it is closed", show(ch))
			return
		}
	}
	switch gs(st, "stage") {
	case "start", "started":
		x.fail(st, ins, "K01", "early", "undecided: something is sent before the generator is started")
		return
	case "closed":
		x.fail(st, ins, "K01", "after-close", "something is sent to a closed channel, or it is closed twice")
		return
	}
	if v == nil {
		if st.Ghost["got"] != nil || st.Ghost["err"] != nil {
			x.fail(st, ins, "K01", "lost", "a directive or an error that was received is lost")
			return
		}
		if gs(st, "stage") != "ended" {
			x.advance(st)
			if gs(st, "stage") != "next" || st.Eval(ai.Le(ai.Len(x.block), st.Ghost["n"])) != 1 || st.Ghost["ch"] != nil {
				x.fail(st, ins, "K01", "incomplete", "the generator ends before every statement was sent")
				return
			}
			x.run.events["all sent"]++
		}
		st.Ghost["stage"] = ai.Str("closed")
		return
	}
	v = st.Norm(v)
	dir, er := field2(st, v, x.elT, x.name(x.dirF)), field2(st, v, x.elT, x.name(x.errF))
	if gs(st, "stage") == "ended" {
		x.fail(st, ins, "K01", "after-error", "something is sent after an error")
		return
	}
	if e := st.Ghost["err"]; e != nil {
		if er != st.Norm(e) {
			x.fail(st, ins, "K01", "error", "%s is sent, not the error that was received", show(er))
			return
		}
		x.run.events["error passed on"]++
		delete(st.Ghost, "err")
		st.Ghost["stage"] = ai.Str("ended")
		return
	}
	if st.Ghost["including"] != nil {
		if st.Ghost["got"] == nil || dir != st.Norm(st.Ghost["got"]) || st.Eval(ai.Eq(er, ai.Nil)) != 1 {
			x.fail(st, ins, "K01", "include-sent", "%s is sent, not the directive of the file that is included", show(dir))
			return
		}
		delete(st.Ghost, "got")
		return
	}
	if gs(st, "stage") != "next" || st.Eval(ai.Lt(st.Ghost["n"], ai.Len(x.block))) != 1 {
		x.fail(st, ins, "K01", "twice", "a statement is sent twice, or none is known to be left")
		return
	}
	if st.Ghost["ch"] != nil || st.Ghost["got"] != nil {
		x.fail(st, ins, "K01", "sent-early", "something is sent before the directives of a block or an include are received")
		return
	}
	switch st.Eval(ai.Eq(er, ai.Nil)) {
	case -1:
		x.badInclude(st, er, ins)
	case 1:
		x.sent(st, dir, ins)
	default:
		x.fail(st, ins, "K01", "unknown-error", "undecided: whether %s is an error", show(er))
	}
}

func (x *combineExplorer) name(i int) string {
	return x.elT.Underlying().(*types.Struct).Field(i).Name()
}

func (x *combineExplorer) elemOf(ch *ai.T) types.Type {
	if ch.Typ != nil {
		if c, ok := ch.Typ.Underlying().(*types.Chan); ok {
			return c.Elem()
		}
	}
	return intT
}

// badInclude is the error of an include that is not in the payload.
func (x *combineExplorer) badInclude(st *ai.State, er *ai.T, ins ssa.Instruction) {
	if x.isInclude(st) != 1 || st.Eval(ai.Lt(st.Ghost["k"], ai.Len(x.of(st, "Includes")))) != 1 || st.Ghost["incdone"] != nil {
		x.fail(st, ins, "K01", "error-invented", "an error is sent although no include is known to be left")
		return
	}
	i, cfgs := x.idx(st), x.configs(st)
	if and3(st.Eval(ai.Le(ai.Int(0), i)), st.Eval(ai.Lt(i, ai.Len(cfgs)))) != -1 {
		x.fail(st, ins, "K01", "error-wrong", "an error is sent although the include may be in the payload")
		return
	}
	pe := strip(er)
	pt := rootType(x.p, "ParseError")
	if isNamed(pe.Typ, "ParseError") || pe.K == ai.KObj {
		if f := field(st, pe, pt, "File"); st.Norm(st.Load(f, strT)) != x.from {
			x.fail(st, ins, "K01", "error-file", "the error of a bad include names the file %s", show(st.Load(f, strT)))
			return
		}
		if f := field(st, pe, pt, "Line"); st.Norm(st.Load(f, intT)) != x.of(st, "Line") {
			x.fail(st, ins, "K01", "error-line", "the error of a bad include names the line %s", show(st.Load(f, intT)))
			return
		}
	}
	x.run.events["bad include"]++
	st.Ghost["stage"] = ai.Str("ended")
}

// sent is a statement that is sent.
func (x *combineExplorer) sent(st *ai.State, dir *ai.T, ins ssa.Instruction) {
	if x.isInclude(st) != -1 {
		x.fail(st, ins, "K01", "include-kept", "a statement is sent although it may be an include")
		return
	}
	orig := x.stmt(st)
	block := st.Eval(ai.Eq(x.of(st, "Block"), ai.Nil))
	if st.Ghost["nested"] == nil && st.Eval(ai.Eq(ai.Len(x.of(st, "Block")), ai.Int(0))) == 1 {
		block = 1 // there is nothing to expand
	}
	if block == 0 {
		x.fail(st, ins, "K01", "block-unknown", "a statement is sent although it may be a block that was not expanded")
		return
	}
	if block == -1 && st.Ghost["nesteddone"] == nil || block == 1 && st.Ghost["nested"] != nil && st.Ghost["nesteddone"] == nil {
		x.fail(st, ins, "K01", "block-kept", "a statement is sent whose block was not expanded")
		return
	}
	s := x.stmtT.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		v := field(st, dir, x.stmtT, n)
		if n == "Block" && block == -1 {
			if want := st.Norm(st.Ghost["nested"]); !sameParts(listOf(v), listOf(want)) || st.Eval(ai.Eq(v, ai.Nil)) != -1 {
				x.fail(st, ins, "K01", "block-what", "the block of a statement becomes %s, not what it expands to", show(v))
				return
			}
			continue
		}
		if v != field(st, orig, x.stmtT, n) && st.Eval(ai.Eq(v, field(st, orig, x.stmtT, n))) != 1 {
			x.fail(st, ins, "K01", "field-"+n, "the field %s of a statement becomes %s", n, show(v))
			return
		}
	}
	x.run.events["statement sent"]++
	st.Ghost["stage"] = ai.Str("sent")
}

func (x *combineExplorer) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	if x.gen {
		x.genRet(st, res, ins)
		return
	}
	if len(res) != 2 {
		return
	}
	if st.Ghost["got"] != nil {
		x.fail(st, ins, "K01", "got-dropped", "a directive that was received is dropped")
		return
	}
	if st.Ghost["ch"] != nil {
		x.fail(st, ins, "K01,X04", "leak", "Combined returns before it received all that is sent: the goroutines that send it never end")
		return
	}
	if er := st.Ghost["err"]; er != nil {
		if !stripIface(st, res[1], er) || st.Eval(ai.Eq(res[0], ai.Nil)) != 1 {
			x.fail(st, ins, "K01", "error-dropped", "Combined returns %s and %s although there was an error", show(res[0]), show(res[1]))
			return
		}
		x.run.events["error returned"]++
		return
	}
	if st.Eval(ai.Eq(res[1], ai.Nil)) != 1 {
		x.fail(st, ins, "K01", "error-made", "Combined returns the error %s although nothing failed", show(res[1]))
		return
	}
	cfgs := x.configs(st)
	switch st.Eval(ai.Lt(ai.Int(0), ai.Len(cfgs))) {
	case 0:
		x.fail(st, ins, "K01", "empty", "undecided: whether there is a config")
		return
	case -1:
		if st.Norm(res[0]) != x.old {
			x.fail(st, ins, "K01", "no-config", "Combined returns %s for a payload without configs", show(res[0]))
			return
		}
		x.run.events["nothing to combine"]++
		return
	}
	x.settle(st, false)
	p := st.Norm(res[0])
	get := func(n string) *ai.T { return field(st, p, x.payT, n) }
	old := func(n string) *ai.T { return field(st, x.old, x.payT, n) }
	list := listOf(get("Config"))
	if len(list) != 1 || !list[0].Is("el") || p == x.old {
		x.fail(st, ins, "K01", "configs", "Combined returns a payload with the configs %s, not with one", show(get("Config")))
		return
	}
	cfg := list[0].Args[0]
	var errs, parsed []*ai.T
	if st.Ghost["errors"] != nil {
		errs = listOf(st.Norm(st.Ghost["errors"]))
	}
	if st.Ghost["parsed"] == nil {
		x.fail(st, ins, "K01", "not-expanded", "Combined returns without expanding the first config")
		return
	}
	parsed = listOf(st.Norm(st.Ghost["parsed"]))
	status := field2(st, cfg, x.cfgT, "Status")
	switch {
	case field2(st, cfg, x.cfgT, "File") != field2(st, at(st, cfgs, ai.Int(0), x.cfgT), x.cfgT, "File"):
		x.fail(st, ins, "K01", "file", "the file of the combined config is %s", show(field2(st, cfg, x.cfgT, "File")))
	case !sameParts(listOf(field2(st, cfg, x.cfgT, "Parsed")), parsed) || st.Eval(ai.Eq(field2(st, cfg, x.cfgT, "Parsed"), ai.Nil)) != -1:
		x.fail(st, ins, "K01", "parsed", "the directives of the combined config are %s, not those that were received", show(field2(st, cfg, x.cfgT, "Parsed")))
	case isInt(st.Ghost["n"]):
		x.fail(st, ins, "K02", "errors-missing", "the errors of %s configs are taken over, not of all", show(st.Ghost["n"]))
	case !sameParts(listOf(field2(st, cfg, x.cfgT, "Errors")), errs):
		x.fail(st, ins, "K02", "errors", "the errors of the combined config are %s", show(field2(st, cfg, x.cfgT, "Errors")))
	case gb(st, "failed") && st.Eval(ai.Eq(status, ai.Str("failed"))) != 1:
		x.fail(st, ins, "K02", "not-failed", "the status of the combined config is %s although a config failed", show(status))
	case !gb(st, "failed") && isInt(st.Ghost["s"]):
		x.fail(st, ins, "K02", "status-missing", "whether configs failed is looked at for %s of them, not for all", show(st.Ghost["s"]))
	case !gb(st, "failed") && st.Eval(ai.Eq(status, ai.Str("ok"))) != 1:
		x.fail(st, ins, "K02", "not-ok", "the status of the combined config is %s although none failed", show(status))
	case st.Eval(ai.Eq(old("Status"), ai.Str(""))) == 1 && st.Eval(ai.Eq(get("Status"), ai.Str("ok"))) != 1,
		st.Eval(ai.Eq(old("Status"), ai.Str(""))) != 1 && get("Status") != old("Status"):
		x.fail(st, ins, "K02", "payload-status", "the status of the payload becomes %s", show(get("Status")))
	case get("Errors") != old("Errors") && (st.Eval(ai.Eq(ai.Len(old("Errors")), ai.Int(0))) != 1 || st.Eval(ai.Eq(ai.Len(get("Errors")), ai.Int(0))) != 1):
		x.fail(st, ins, "K02", "payload-errors", "the errors of the payload become %s", show(get("Errors")))
	}
	x.run.events["combined"]++
}

func (x *combineExplorer) genRet(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	switch gs(st, "stage") {
	case "start":
		x.fail(st, ins, "K01", "not-started", "undecided: the generator starts no goroutine")
	case "started":
		if len(res) == 1 {
			ch := st.Norm(res[0])
			for i := range x.started {
				w := &x.started[i]
				if c := w.st.Ghost["chan"]; c != nil && c != ch {
					x.fail(st, ins, "K01", "channel", "undecided: different channels are returned")
					return
				}
				w.st.Ghost["chan"] = ch
			}
		}
	case "closed":
	default:
		x.fail(st, ins, "K01,X04", "not-closed", "a goroutine ends without closing the channel: the receiver never ends")
	}
}

func init() {
	const tech = "abstract interpretation (path-sensitive fixpoint over SSA) of the combining of configs in product with a reference (property simulation)"
	const how = "Combined is explored for every payload; the generator of directives and the goroutine it starts are explored for every block, of any length, with its own contract in place of the channels of nested blocks and includes."
	rules := []string{
		"every list that directives are added to is followed, and every value that is sent is compared with the statement whose turn it is",
		"a channel that directives are received from is received from until it is closed or an error comes out of it",
	}
	prodCheck("K01", tech, how, combineAll, rules...)
	prodCheck("K02", tech, how, combineAll, "errors are added config by config, and the status of each config is looked at until one failed")
}
