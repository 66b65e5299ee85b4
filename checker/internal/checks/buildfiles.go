package checks

import (
	"go/types"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

var filesProps = []string{"B03", "B04"}

// BuildFiles and BuildInto are decided in product with a reference that follows the configs of the payload
// and the file that is open. Build itself is replaced by its contract.
type filesExplorer struct {
	*prod
	name                string
	payload, dest, opts *ai.T
	cfgT, payT          types.Type
	into                bool
}

var filesAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	for _, name := range []string{"BuildFiles", "BuildInto"} {
		fn := rootFn(p, name)
		if fn == nil || len(fn.Params) != 3 {
			run.anchor(filesProps, "the function "+name+" was not found")
			return run
		}
		x := &filesExplorer{prod: newProd(p, run, "B04"), name: name, into: name == "BuildInto"}
		x.cfgT, x.payT = rootType(p, "Config"), rootType(p, "Payload")
		x.explore(fn)
	}
	run.need(filesProps, "BuildFiles file written", "BuildInto file written", "BuildFiles error returned", "BuildInto error returned", "BuildFiles done", "BuildInto done")
	return run
})

func (x *filesExplorer) explore(fn *ssa.Function) {
	e := x.e
	as := args(fn)
	x.payload, x.dest, x.opts = as[0], as[1], as[2]
	st := ai.NewState(e)
	st.Assume(ai.Eq(x.opts, ai.Nil), false)
	if x.into {
		st.Assume(ai.Eq(x.payload, ai.Nil), false)
		st.Assume(ai.Eq(x.dest, ai.Nil), false)
	}
	e.Call = x.call
	e.Return = x.ret
	e.OnHeader = x.header
	e.Defer = nil
	guard(x.p, e, x.name+" writes to memory of its caller", false, x.opts, x.payload)
	st.Ghost["n"] = ai.Int(0)
	x.prod.explore(st, fn, as, filesProps)
}

func (x *filesExplorer) configs(st *ai.State) *ai.T {
	if x.into {
		return field(st, x.payload, x.payT, "Config")
	}
	return field2(st, x.payload, x.payT, "Config")
}

func (x *filesExplorer) cfg(st *ai.State) *ai.T { return at(st, x.configs(st), st.Ghost["n"], x.cfgT) }

func (x *filesExplorer) more(st *ai.State) int {
	return st.Eval(ai.Lt(st.Ghost["n"], ai.Len(x.configs(st))))
}

// path is where the config is to be written to; nil if that is not known yet.
func (x *filesExplorer) path(st *ai.State) *ai.T {
	f := field2(st, x.cfg(st), x.cfgT, "File")
	if x.into {
		return f
	}
	switch st.Eval(ai.App("isabs", boolT, f)) {
	case 1:
		return f
	case -1:
		base := x.dest
		switch st.Eval(ai.Eq(x.dest, ai.Str(""))) {
		case 1:
			base = st.Ghost["cwd"]
		case 0:
			return nil
		}
		if base == nil {
			return nil
		}
		return st.Norm(ai.App("pathjoin", strT, ai.List(nil, ai.El(base), ai.El(f))))
	}
	return nil
}

// fork makes the outcomes of a call that may fail.
func (x *filesExplorer) fork(st *ai.State, c *ai.CallInfo, what string, ok func(st *ai.State) *ai.T) []ai.Outcome {
	rs := c.Common.Signature().Results()
	n := st.Clone()
	er := n.Fresh(what+"err", errT)
	n.Assume(ai.Eq(er, ai.Nil), false)
	n.Note(what + " ends with an error")
	if n.Ghost["err"] == nil {
		n.Ghost["err"] = er
	} else {
		n.Ghost["err2"] = er
	}
	v := ok(st)
	if rs.Len() == 1 {
		return []ai.Outcome{{St: st, Res: ai.Nil}, {St: n, Res: er}}
	}
	return []ai.Outcome{{St: st, Res: ai.Tuple(v, ai.Nil)}, {St: n, Res: ai.Tuple(n.FreshOf("none", rs.At(0).Type()), er)}}
}

// may tells whether something may be done to the next config.
func (x *filesExplorer) may(st *ai.State, c *ai.CallInfo, what string) bool {
	if st.Ghost["err"] != nil {
		x.fail(st, c.Instr, "B03", x.name+"-after-error", "%s goes on with %s after an error", x.name, what)
		return false
	}
	if x.more(st) != 1 {
		x.fail(st, c.Instr, "B04", x.name+"-after", "%s: %s although no config is known to be left", x.name, what)
		return false
	}
	return true
}

func (x *filesExplorer) call(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	bad := func(prop, key, f string, a ...interface{}) ([]ai.Outcome, bool) {
		x.fail(st, c.Instr, prop, x.name+"-"+key, x.name+": "+f, a...)
		return nil, true
	}
	if to, s, ok := written(st, c); ok && st.Ghost["file"] != nil && stripIface(st, to, st.Ghost["file"]) {
		if st.Ghost["err"] != nil {
			return bad("B03", "write-after", "something is written after an error")
		}
		return x.fork(st, c, "write", func(st *ai.State) *ai.T {
			old := ai.Str("")
			if d := st.Ghost["data"]; d != nil {
				old = d
			}
			st.Ghost["data"] = st.Norm(ai.Cat(old, s))
			return ai.Len(s)
		}), true
	}
	switch {
	case c.Name == "os.Getwd":
		if x.into || st.Ghost["cwd"] != nil || st.Eval(ai.Eq(x.dest, ai.Str(""))) != 1 {
			return bad("B04", "cwd", "the working directory is asked for although a directory may be given")
		}
		return x.fork(st, c, "getwd", func(st *ai.State) *ai.T {
			d := st.Fresh("cwd", strT)
			st.Ghost["cwd"] = d
			return d
		}), true
	case c.Name == "os.MkdirAll" || c.Name == "os.Mkdir":
		if !x.may(st, c, "making a directory") {
			return nil, true
		}
		p := x.path(st)
		if p == nil || st.Norm(c.Args[0]) != st.Norm(ai.App("dir", strT, p)) || c.Name == "os.Mkdir" {
			return bad("B04", "mkdir", "%s is made, not the directories of the file to be written", show(c.Args[0]))
		}
		if m, ok := c.Args[1].IsInt(); !ok || m&0o700 != 0o700 {
			return bad("B04", "mkdir-mode", "directories are made with mode %s", show(c.Args[1]))
		}
		return x.fork(st, c, "mkdir", func(st *ai.State) *ai.T {
			st.Ghost["made"] = ai.True
			return nil
		}), true
	case c.Name == "os.Create" || c.Name == "os.OpenFile" || c.Name == "os.WriteFile" || c.Common.IsInvoke() && c.Common.Method.Name() == "Create" && c.Fn == nil:
		if !x.may(st, c, "creating a file") {
			return nil, true
		}
		if x.into && st.Norm(c.Callee) != x.dest || x.into != c.Common.IsInvoke() {
			return bad("B04", "creator", "a file is created with %s", c.Name)
		}
		p := x.path(st)
		if p == nil || st.Norm(c.Args[0]) != p {
			return bad("B04", "path", "the file %s is created, not that of the config", show(c.Args[0]))
		}
		if st.Ghost["file"] != nil || st.Ghost["closed"] != nil {
			return bad("B04", "create-twice", "a file is created twice, or before another is closed")
		}
		if !x.into && st.Ghost["made"] == nil {
			return bad("B04", "made", "a file is created before its directories are made")
		}
		if c.Name == "os.OpenFile" {
			const wronly, rdwr, creat, trunc, app, excl = 1, 2, 0x40, 0x200, 0x400, 0x80
			m, ok := c.Args[1].IsInt()
			if !ok || m&(wronly|rdwr) == 0 || m&creat == 0 || m&trunc == 0 || m&(app|excl) != 0 {
				return bad("B04", "flags", "a file is opened with flags %s", show(c.Args[1]))
			}
		}
		if c.Name == "os.WriteFile" {
			if !x.data(st, st.Norm(ai.App("string", strT, c.Args[1]))) {
				return bad("B04", "data", "%s is written to a file", show(c.Args[1]))
			}
			return x.fork(st, c, "write", func(st *ai.State) *ai.T {
				st.Ghost["closed"] = ai.True
				return nil
			}), true
		}
		return x.fork(st, c, "create", func(st *ai.State) *ai.T {
			f := st.Fresh("file", c.Common.Signature().Results().At(0).Type())
			st.Assume(ai.Eq(f, ai.Nil), false)
			st.Ghost["file"] = f
			return f
		}), true
	case c.Fn != nil && c.Fn.Name() == "Build" && c.Fn.Pkg == x.p.RootSSA && c.Fn.Signature.Recv() == nil:
		if !x.may(st, c, "building") {
			return nil, true
		}
		if !sameStruct(st, c.Args[1], x.cfg(st)) || !x.sameOpts(st, c.Args[2]) {
			return bad("B04", "build", "%s is built, not the next config, or not with the options", show(c.Args[1]))
		}
		if st.Ghost["built"] != nil {
			return bad("B04", "build-twice", "a config is built twice")
		}
		out := st.Fresh("output", strT)
		to := strip(st.Norm(c.Args[0]))
		st.Ghost["built"] = out
		switch {
		case st.Ghost["file"] != nil && stripIface(st, to, st.Ghost["file"]):
			if d := st.Ghost["data"]; d != nil {
				st.Ghost["data"] = st.Norm(ai.Cat(d, out))
			} else {
				st.Ghost["data"] = out
			}
		case to.K == ai.KObj && to.Typ != nil && (types.TypeString(to.Typ, nil) == "bytes.Buffer" || types.TypeString(to.Typ, nil) == "strings.Builder"):
			st.SetSB(to, st.Norm(ai.Cat(st.SB(to), out)))
		default:
			return bad("B04", "build-to", "a config is built into %s", show(c.Args[0]))
		}
		return x.fork(st, c, "build", func(st *ai.State) *ai.T { return nil }), true
	case closee(c) != nil && st.Ghost["file"] != nil && stripIface(st, closee(c), st.Ghost["file"]):
		delete(st.Ghost, "file")
		st.Ghost["closed"] = ai.True
		if st.Ghost["err"] == nil {
			d := st.Ghost["data"]
			if d == nil {
				d = ai.Str("")
			}
			if !x.data(st, st.Norm(d)) {
				return bad("B04", "data", "%s is written to a file", show(d))
			}
		}
		delete(st.Ghost, "data")
		return x.fork(st, c, "close", func(st *ai.State) *ai.T { return nil }), true
	case c.Name == "os.IsExist" || c.Name == "os.IsNotExist" || c.Name == "os.IsPermission" || c.Name == "os.IsTimeout":
		return []ai.Outcome{{St: st, Res: st.Fresh("kind", types.Typ[types.Bool])}}, true
	case strings.HasPrefix(c.Name, "os.") || strings.HasPrefix(c.Name, "(*os."):
		if c.Fn != nil && c.Fn.Name() == "Close" {
			return nil, false
		}
		return bad("B04", "call-"+c.Name, "undecided: what %s does is not known", c.Name)
	}
	return nil, false
}

func (x *filesExplorer) sameOpts(st *ai.State, o *ai.T) bool {
	if st.Norm(o) == x.opts {
		return true
	}
	t := rootType(x.p, "BuildOptions")
	return sameStruct(st, st.Load(o, t), st.Load(x.opts, t))
}

// data tells whether a text is what is to be written to the file.
func (x *filesExplorer) data(st *ai.State, d *ai.T) bool {
	out := st.Ghost["built"]
	if out == nil {
		return false
	}
	if x.into {
		return d == out
	}
	return d == st.Norm(ai.Cat(ai.App("trimright", strT, out), ai.Str("\n")))
}

// header starts with the next config.
func (x *filesExplorer) header(st *ai.State, b *ssa.BasicBlock) {
	if st.Ghost["closed"] == nil || st.Ghost["err"] != nil {
		return
	}
	x.next(st)
}

func (x *filesExplorer) next(st *ai.State) {
	x.run.events[x.name+" file written"]++
	for _, k := range []string{"closed", "built", "made"} {
		delete(st.Ghost, k)
	}
	st.Ghost["n"] = st.Norm(ai.Add(st.Ghost["n"], 1))
}

func (x *filesExplorer) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	if len(res) != 1 {
		return
	}
	if st.Ghost["file"] != nil {
		x.fail(st, ins, "B03", x.name+"-open", "%s returns while a file is open", x.name)
		return
	}
	if er := st.Ghost["err"]; er != nil {
		if !stripIface(st, res[0], er) && (st.Ghost["err2"] == nil || !stripIface(st, res[0], st.Ghost["err2"])) {
			x.fail(st, ins, "B03", x.name+"-dropped", "%s returns %s although something ended with an error", x.name, show(res[0]))
			return
		}
		x.run.events[x.name+" error returned"]++
		return
	}
	if st.Eval(ai.Eq(res[0], ai.Nil)) != 1 {
		x.fail(st, ins, "B03", x.name+"-invented", "%s returns %s although nothing failed", x.name, show(res[0]))
		return
	}
	if st.Ghost["closed"] != nil {
		x.next(st)
	}
	if st.Ghost["built"] != nil || x.more(st) != -1 {
		x.fail(st, ins, "B04", x.name+"-incomplete", "%s ends before every config was written", x.name)
		return
	}
	x.run.events[x.name+" done"]++
}

// ---- registration of builders

// registration is an option that registers something for names.
type registration struct {
	prop                       string
	opts, field, method, maker string // the type of the options, its map, the method that fills it and the function that makes the option
	iface                      string // what is registered
	what                       string
}

var registerAll = memo(func(p *load.Prog) *prodRun {
	return register2(p, registration{"B05", "BuildOptions", "extBuilders", "applyBuildOptions", "BuildWithBuilder", "Builder", "builder"})
})

func register2(p *load.Prog, g registration) *prodRun {
	run := newRun()
	props := []string{g.prop}
	var apply *ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg == p.RootSSA && f.Name() == g.method && f.Synthetic == "" && f.Signature.Recv() != nil {
			if apply != nil {
				run.anchor(props, "there are several kinds of options that register a "+g.what)
				return run
			}
			apply = f
		}
	}
	fn := rootFn(p, g.maker)
	optT := rootType(p, g.opts)
	if apply == nil || fn == nil || optT == nil || len(apply.Params) != 2 || len(fn.Params) != 2 {
		run.anchor(props, "the registration of a "+g.what+" was not found")
		return run
	}
	x := newProd(p, run, g.prop)
	as := args(apply)
	recvT := as[0].Typ
	byPtr := false
	if pt, ok := recvT.Underlying().(*types.Pointer); ok {
		recvT, byPtr = pt.Elem(), true
	}
	rs, ok := recvT.Underlying().(*types.Struct)
	bi, di := -1, -1
	for i := 0; ok && i < rs.NumFields(); i++ {
		if isNamed(rs.Field(i).Type(), g.iface) {
			bi = i
		} else if types.TypeString(rs.Field(i).Type(), nil) == "[]string" {
			di = i
		}
	}
	if bi < 0 || di < 0 {
		run.anchor(props, "what is registered was not found")
		return run
	}
	get := func(st *ai.State, i int) *ai.T {
		if byPtr {
			return st.Norm(st.Load(ai.FieldAddr(as[0], i), rs.Field(i).Type()))
		}
		return st.Norm(ai.App("fieldof", rs.Field(i).Type(), as[0], ai.Int(int64(i))))
	}
	o := as[1]
	mi := fieldIndex(optT, g.field)
	maddr := ai.FieldAddr(o, mi)
	mt := optT.Underlying().(*types.Struct).Field(mi).Type()
	st := ai.NewState(x.e)
	st.Assume(ai.Eq(o, ai.Nil), false)
	if byPtr {
		st.Assume(ai.Eq(as[0], ai.Nil), false)
	}
	st.Ghost["n"] = ai.Int(0)
	x.e.OnStore = func(st *ai.State, addr, v *ai.T, typ types.Type, ins ssa.Instruction) {
		if !isCallers(addr, o) {
			return
		}
		if addr != maddr || st.Eval(ai.Eq(st.Load(maddr, mt), ai.Nil)) != 1 || st.Eval(ai.Eq(v, ai.Nil)) == 1 || !st.Norm(st.MapOf(st.Norm(v))).Is("mempty") {
			x.fail(st, ins, g.prop, "register-store", "registering a %s drops those that are registered, or changes an option", g.what)
		}
	}
	x.e.OnMapPut = func(st *ai.State, m, k, v *ai.T, ins ssa.Instruction) {
		n := st.Ghost["n"]
		if st.Norm(m) != st.Norm(st.Load(maddr, mt)) || st.Eval(ai.Lt(n, ai.Len(get(st, di)))) != 1 || st.Norm(k) != at(st, get(st, di), n, strT) || !stripIface(st, v, get(st, bi)) {
			x.fail(st, ins, g.prop, "register-put", "%s is registered for %s", show(v), show(k))
			return
		}
		st.Ghost["n"] = st.Norm(ai.Add(n, 1))
		run.events[g.what+" registered"]++
	}
	x.e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		if st.Eval(ai.Lt(st.Ghost["n"], ai.Len(get(st, di)))) != -1 {
			x.fail(st, ins, g.prop, "register-all", "a %s is not registered for all of its directives", g.what)
			return
		}
		run.events["registered"]++
	}
	x.explore(st, apply, as, props)

	y := newProd(p, run, g.prop)
	bs := args(fn)
	y.e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		v := strip(st.Norm(res[0]))
		part := func(i int) *ai.T {
			if v.Is("struct") {
				return v.Args[i]
			}
			if v.K == ai.KObj {
				return st.Norm(st.Load(ai.FieldAddr(v, i), rs.Field(i).Type()))
			}
			return ai.Str("?")
		}
		if part(bi) != bs[0] || part(di) != bs[1] {
			y.fail(st, ins, g.prop, "with-builder", "%s does not keep its %s and directives", g.maker, g.what)
			return
		}
		run.events["option made"]++
	}
	y.explore(ai.NewState(y.e), fn, bs, props)
	run.need(props, g.what+" registered", "registered", "option made")
	return run
}

func init() {
	const tech = "abstract interpretation (path-sensitive fixpoint over SSA) of BuildFiles and BuildInto in product with a reference (property simulation)"
	const expl = "BuildFiles and BuildInto are interpreted abstractly to a fixpoint, in product with a reference that follows the configs and the file that is open; every call that can fail is followed with both outcomes. Build is replaced by its contract."
	prodCheck("B04", tech, expl, filesAll, "each config is built once and written to its own path, in order")
	prodCheck("B03", tech, expl, filesAll, "every error is returned at once and files are closed on every path")
	prodMore("B03", buildAll, "Build returns the error of a write at once")
	prodMore("B05", registerAll, "an option for builders registers its builder for each of its directives and drops no other")
}
