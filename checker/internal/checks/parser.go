package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp/syntax"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"

	"golang.org/x/tools/go/ssa"
)

// The functions that read tokens from the lexer are decided as a product with a reference parser
// that reads the same tokens. Recursive calls are replaced by the contract that the reference
// parser states for a block, and every such function is shown to meet its contract.

type parseRun struct {
	problems []problem
	states   int
	oblig    int
	events   map[string]int
	samples  []string
	roots    []string
	assumes  map[string]bool
	cut      []string
}

var parseRuns = map[*load.Prog]*parseRun{}

var parseProps = []string{"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P12", "P13"}

func parseAll(p *load.Prog) *parseRun {
	if r, ok := parseRuns[p]; ok {
		return r
	}
	run := parseWith(p, false)
	for _, q := range run.problems {
		if strings.HasSuffix(q.msg, nilBlock) {
			// the list of an empty block may be non-nil already: assume that of the recursive calls
			// and show it of every return
			if again := parseWith(p, true); len(again.problems) == 0 {
				again.assumes["the list of a block is not nil, as every return of the function that parses it shows"] = true
				run = again
			}
			break
		}
	}
	parseRuns[p] = run
	return run
}

// done stands for a counter that has reached the number of files of an include.
var done = ai.Str("every file")

const nilBlock = "the Block of a statement with a block may be nil"

func parseWith(p *load.Prog, nonnil bool) *parseRun {
	run := &parseRun{events: map[string]int{}, assumes: map[string]bool{}}
	roots := tokenReaders(p)
	if len(roots) == 0 {
		for _, pr := range parseProps {
			run.problems = append(run.problems, problem{pr, "anchor", "-", "no function that reads the tokens of the lexer was found", nil})
		}
		return run
	}
	entries := map[*ssa.Function]bool{}
	for _, r := range roots {
		entries[r.fn] = true
	}
	for _, r := range roots {
		x := &parseExplorer{p: p, run: run, root: r, entries: entries, nonnil: nonnil}
		x.explore()
		run.roots = append(run.roots, r.String())
	}
	if len(run.problems) == 0 && len(run.cut) == 0 {
		for _, k := range []string{"statement", "block", "skip", "comment", "argcomment", "map", "ignored", "report", "lexerror", "premature", "end", "include", "included", "queued", "located"} {
			if run.events[k] == 0 {
				for _, pr := range parseProps {
					run.problems = append(run.problems, problem{pr, "vacuous:" + k, "-", fmt.Sprintf("no execution with the event %q was found", k), nil})
				}
			}
		}
	}
	return run
}

// reader is a recursive function that reads tokens, in one of its modes.
type reader struct {
	fn   *ssa.Function
	skip bool
	mode int // index of the bool parameter, or -1

	tokens, config, ctx, list, err int
}

func (r reader) String() string {
	if r.skip {
		return r.fn.String() + " (skipping a block)"
	}
	return r.fn.String() + " (parsing a block)"
}

func isTokenChan(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && isNamed(c.Elem(), "NgxToken")
}

func isDirectives(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "Directive")
}

func isErrorType(t types.Type) bool { return t.String() == "error" }

// shapeOf finds the roles of the parameters and results of a function.
func shapeOf(fn *ssa.Function) reader {
	r := reader{fn: fn, mode: -1, tokens: -1, config: -1, ctx: -1, list: -1, err: -1}
	for i, q := range fn.Params {
		switch {
		case isTokenChan(q.Type()):
			r.tokens = i
		case isNamed(q.Type(), "Config"):
			r.config = i
		case isNamed(q.Type(), "blockCtx") || q.Type().Underlying().String() == "[]string":
			r.ctx = i
		case q.Type().Underlying().String() == "bool":
			r.mode = i
		}
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		switch {
		case isDirectives(res.At(i).Type()):
			r.list = i
		case isErrorType(res.At(i).Type()):
			r.err = i
		}
	}
	return r
}

// tokenReaders are the functions with a channel of tokens as a parameter that can call themselves.
func tokenReaders(p *load.Prog) []reader {
	callees := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		callees[fn] = map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callees[fn][g] = true
					}
				}
			}
		}
	}
	reaches := func(a, b *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function) bool
		visit = func(f *ssa.Function) bool {
			for g := range callees[f] {
				if g == b {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if visit(g) {
						return true
					}
				}
			}
			return false
		}
		return visit(a)
	}
	receives := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			if receivesIn(b) {
				return true
			}
		}
		return false
	}
	var rs []reader
	for _, fn := range p.Funcs {
		if fn.Pkg != p.RootSSA || fn.Parent() != nil {
			continue
		}
		r := shapeOf(fn)
		if r.tokens < 0 || r.err < 0 || !reaches(fn, fn) || !receives(fn) {
			continue
		}
		if r.list >= 0 {
			if r.mode >= 0 {
				s := r
				s.skip = true
				rs = append(rs, s)
			}
			rs = append(rs, r)
		} else {
			r.skip = true
			rs = append(rs, r)
		}
	}
	return rs
}

// receivesIn tells whether a block receives a token.
func receivesIn(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		if u, ok := ins.(*ssa.UnOp); ok && u.Op.String() == "<-" && isTokenChan(u.X.Type()) {
			return true
		}
	}
	return false
}

type parseExplorer struct {
	p       *load.Prog
	run     *parseRun
	e       *ai.Engine
	root    reader
	entries map[*ssa.Function]bool
	bad     map[string]bool
	final   bool // the function returns
	quiet   bool // problems are not recorded

	regs, incs map[*ai.T]bool // the maps that number files, and those that Includes are read from

	recvT, optsT     types.Type
	tokT, dirT       types.Type
	self             *ai.T // the parser
	opts             *ai.T
	tokens, cfg, ctx *ai.T
	word, quoted     *ai.Class
	nonnil           bool // the list of a block is never nil
}

func (x *parseExplorer) fail(st *ai.State, ins ssa.Instruction, prop, key, f string, a ...interface{}) {
	if x.quiet {
		st.Kill()
		return
	}
	if x.bad == nil {
		x.bad = map[string]bool{}
	}
	if props := strings.Split(prop, ","); len(props) > 1 {
		// one construct that breaks several properties
		for _, q := range props {
			x.fail(st, ins, q, key, f, a...)
		}
		return
	}
	ps := "-"
	if ins != nil {
		ps = pos(x.p, ins)
	}
	if !x.bad[prop+key] {
		x.bad[prop+key] = true
		q := problem{prop, key, ps, fmt.Sprintf(f, a...), st.Path()}
		if x.e.Debug {
			fmt.Println("PROBLEM", q.prop, q.key, q.pos, q.msg)
			for _, l := range q.trace {
				fmt.Println("    ", l)
			}
			fmt.Print(st.Dump())
		}
		x.run.problems = append(x.run.problems, q)
		if Only == prop {
			x.e.Stop = true
		}
	}
	st.Kill()
}

// opt is the value of a parse option.
func (x *parseExplorer) opt(st *ai.State, name string) *ai.T {
	i := fieldIndex(x.optsT, name)
	if i < 0 {
		return ai.Named("no option "+name, nil)
	}
	return st.Load(ai.FieldAddr(x.opts, i), x.optsT.Underlying().(*types.Struct).Field(i).Type())
}

func (x *parseExplorer) dirField(st *ai.State, d *ai.T, name string) *ai.T {
	i := fieldIndex(x.dirT, name)
	if i < 0 {
		return ai.Named("no field "+name, nil)
	}
	return st.Load(ai.FieldAddr(d, i), x.dirT.Underlying().(*types.Struct).Field(i).Type())
}

func (x *parseExplorer) cfgFile(st *ai.State) *ai.T {
	t := rootType(x.p, "Config")
	return st.Load(ai.FieldAddr(x.cfg, fieldIndex(t, "File")), types.Typ[types.String])
}

func (x *parseExplorer) explore() {
	p := x.p
	x.tokT, x.dirT, x.optsT = rootType(p, "NgxToken"), rootType(p, "Directive"), rootType(p, "ParseOptions")
	fn := x.root.fn
	e := newEngine(p)
	x.e = e
	x.regs, x.incs = map[*ai.T]bool{}, map[*ai.T]bool{}
	e.Debug = os.Getenv("AIDEBUG") != ""
	e.MaxStates = 400000
	if os.Getenv("AISTAT") != "" {
		e.MaxStates = 120000
	}
	e.PartLimit = 2
	e.Near = 1
	e.KeepLen = true
	e.ConstLimit = -1
	e.OffLimit = 0
	e.DiffLimit = 2
	e.LowLimit = 1
	e.OnHeader = func(st *ai.State, b *ssa.BasicBlock) {
		if receivesIn(b) {
			n := st.Clone()
			x.quiet = true
			x.finish(n, nil)
			x.quiet = false
			if !n.Dead() {
				x.finish(st, b.Instrs[0])
				x.forget(st, gs(st, "mode"))
			}
		}
		if files := st.Ghost["files"]; files != nil && len(b.Preds) > 0 {
			// the counters of an include that is complete need not be followed through other loops
			for _, k := range []string{"ninc", "nedge", "ndeg"} {
				if n := st.Ghost[k]; n != nil && n.K != ai.KNil && st.Eval(ai.Eq(n, ai.Len(st.Norm(files)))) == 1 {
					st.Ghost[k] = done
				}
			}
		}
		x.havoc(st)
		st.Forget(func(t *ai.T) bool { return t.Is("mhas") && t.Args[0].K == ai.KSym && t.Args[0].Num >= 0 })
	}
	e.WidenGhost = func(k string) bool { return k == "depth" || k == "scan" || k == "ninc" || k == "nedge" || k == "ndeg" }
	e.OnMapPut = x.mapPut
	e.OnAppend = func(st *ai.State, base *ai.T, more []*ai.T, res *ai.T, ins ssa.Instruction) {
		if isDirectives(res.Typ) && res.K == ai.KSym && st.Eval(ai.Eq(base, ai.Nil)) == -1 {
			st.Ghost["blknn"] = res
		}
	}
	e.Module = inModule(p)
	e.Call = x.call
	e.Recv = x.recv
	e.OnBranch = func(st *ai.State, c *ai.T, val bool, ins *ssa.If) { x.branch(st, c, val) }
	e.Return = x.ret
	e.OnStore = x.store
	e.Defer = func(st *ai.State, c *ai.CallInfo) bool { return true }
	e.Recursive = func(st *ai.State, c *ai.CallInfo) []ai.Outcome {
		x.fail(st, c.Instr, "P01", "recursion", "the recursive call of %s is not analysed", c.Name)
		return nil
	}
	e.Imprecise = func(st *ai.State, what string, ins ssa.Instruction) {
		x.fail(st, ins, "P01", "undecided:"+what, "undecided: %s", what)
	}
	e.Ext = func(st *ai.State, c *ai.CallInfo) {
		x.run.assumes["calls of "+c.Name+" have no effect on the parser"] = true
	}
	e.Obligation = func(st *ai.State, kind string, ok bool, ins ssa.Instruction, d string) {
		x.run.oblig++
		watch(x.p, st, kind, ok, ins, d)
	}
	x.quoted = &ai.Class{Name: "quoted", Opaque: true}
	x.word = &ai.Class{Name: "word", Opaque: true, MinLen: 1, MayEq: func(s string) bool {
		return s != "" && s != "{" && s != "}" && s != ";" && !strings.HasPrefix(s, "#")
	}, Prefix: func(s string) int {
		if strings.HasPrefix(s, "#") {
			return -1
		}
		return 0
	}}

	st := ai.NewState(e)
	as := args(fn)
	x.tokens = as[x.root.tokens]
	x.cfg = ai.Nil
	if x.root.config >= 0 {
		x.cfg = as[x.root.config]
		st.Assume(ai.Eq(x.cfg, ai.Nil), false)
	}
	x.ctx = ai.Nil
	if x.root.ctx >= 0 {
		x.ctx = as[x.root.ctx]
	}
	if x.root.mode >= 0 {
		as[x.root.mode] = ai.Bool(x.root.skip)
	}
	x.opts = ai.Named("options", types.NewPointer(x.optsT))
	for i, q := range fn.Params {
		if isNamed(q.Type(), "parser") {
			x.self = as[i]
			st.Assume(ai.Eq(x.self, ai.Nil), false)
			pt := rootType(p, "parser")
			s := pt.Underlying().(*types.Struct)
			for k := 0; k < s.NumFields(); k++ {
				if isNamed(s.Field(k).Type(), "ParseOptions") {
					x.opts = st.Load(ai.FieldAddr(x.self, k), s.Field(k).Type())
				}
			}
		}
	}
	st.Assume(ai.Eq(x.opts, ai.Nil), false)
	if x.root.skip {
		st.Ghost["mode"] = ai.Str("skip")
		st.Ghost["depth"] = ai.Int(1)
	} else {
		st.Ghost["mode"] = ai.Str("start")
		st.Ghost["out"] = ai.Nil
	}
	e.Start(st, fn, as, nil)
	e.Run(st)
	x.run.states += len(e.Visited)
	for m := range x.incs {
		if !x.regs[m] {
			x.fail(st, nil, "P07", "maps", "the numbers in Includes are read from %s, which files are not added to", show(m))
		}
	}
	if os.Getenv("AISTAT") != "" {
		ai.PrintStats(8, 45)
	}
	if e.Overflow {
		x.run.cut = append(x.run.cut, "the parser")
	}
}

// listOf are the parts of a list.
func listOf(t *ai.T) []*ai.T {
	if t.Is("list") {
		return t.Args
	}
	if t.K == ai.KNil {
		return nil
	}
	return []*ai.T{t}
}

func sameParts(a, b []*ai.T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// find looks for a list that extends base by elements that satisfy want, in order.
func (x *parseExplorer) find(st *ai.State, base *ai.T, want []func(obj *ai.T) string) (res *ai.T, why string) {
	pre := listOf(st.Norm(base))
	why = "it is not added to a list"
	st.EachValue(func(t *ai.T) {
		if res != nil || !t.Is("list") {
			return
		}
		ps := t.Args
		if len(ps) != len(pre)+len(want) || !sameParts(ps[:len(pre)], pre) {
			return
		}
		for i, w := range want {
			q := ps[len(pre)+i]
			if !q.Is("el") {
				return
			}
			if s := w(st.Norm(q.Args[0])); s != "" {
				if s != "other" {
					why = s
				}
				return
			}
		}
		res = t
	})
	return
}

// fold forgets the elements of a list that a ghost and the program share.
func (x *parseExplorer) fold(st *ai.State, ghost string) {
	l := st.Ghost[ghost]
	if !x.final && l != nil && l.Is("list") && len(l.Args) >= 1 {
		st.FoldList(l)
	}
}

// isComment checks a comment directive.
func (x *parseExplorer) isComment(st *ai.State, text, line *ai.T) func(*ai.T) string {
	return func(o *ai.T) string {
		if o.K != ai.KObj || st.Eval(ai.Eq(x.dirField(st, o, "Directive"), ai.Str("#"))) != 1 {
			return "other"
		}
		c := x.dirField(st, o, "Comment")
		if c.K == ai.KNil {
			return "P04 a comment has no text"
		}
		if v := st.Load(c, types.Typ[types.String]); st.Eval(ai.Eq(v, text)) != 1 {
			return fmt.Sprintf("P04 the text of a comment is %s, not %s", show(v), show(text))
		}
		if l := x.dirField(st, o, "Line"); st.Eval(ai.Eq(l, line)) != 1 {
			return fmt.Sprintf("P04 the line of a comment is %s, not %s", show(l), show(line))
		}
		if a := x.dirField(st, o, "Args"); len(listOf(a)) != 0 {
			return "P04 a comment has arguments"
		}
		if b := x.dirField(st, o, "Block"); b.K != ai.KNil {
			return "P04 a comment has a block"
		}
		if b := x.dirField(st, o, "IsMapBlockParameter"); b != ai.False {
			return "P04 a comment is marked as a map parameter"
		}
		if f := x.dirField(st, o, "File"); !x.fileOk(st, f) {
			return fmt.Sprintf("P09 the file of a comment is %s", show(f))
		}
		return ""
	}
}

// stripped is a call of the function that removes the parentheses of an if.
func (x *parseExplorer) stripped(st *ai.State, c *ai.CallInfo) []ai.Outcome {
	res := func() *ai.T {
		if c.Fn.Signature.Results().Len() == 0 {
			return ai.Nil
		}
		return c.Args[0]
	}
	bad := func(key, f string) []ai.Outcome {
		x.fail(st, c.Instr, "P09,P13", key, f)
		return nil
	}
	if gs(st, "mode") != "term" || gs(st, "an") != "ok" && !gb(st, "inmap") || gb(st, "ifargs") {
		return bad("if-when", "the arguments of a directive are rewritten before it was analysed, or twice")
	}
	var out []ai.Outcome
	y, no := st.Split(ai.Eq(st.Ghost["name"], ai.Str("if")))
	if no != nil && !no.Dead() {
		if !ifAll(x.p).others[c.Fn] {
			return bad("if", "the arguments of a directive that is not \"if\" are changed")
		}
		out = append(out, ai.Outcome{St: no, Res: res()})
	}
	if y != nil && !y.Dead() {
		if gb(y, "inmap") {
			return bad("if-map", "the arguments of a parameter of a map-like block are changed")
		}
		i := fieldIndex(x.dirT, "Args")
		ft := x.dirT.Underlying().(*types.Struct).Field(i).Type()
		l := y.Fresh("ifargs", ft)
		y.Assume(ai.Eq(l, ai.Nil), false)
		y.Store(ai.FieldAddr(c.Args[0], i), l, ft)
		y.Ghost["args"] = l
		y.Ghost["ifargs"] = ai.True
		out = append(out, ai.Outcome{St: y, Res: res()})
	}
	return out
}

// fileOk: the file is recorded exactly when configs are combined.
func (x *parseExplorer) fileOk(st *ai.State, f *ai.T) bool {
	switch st.Eval(x.opt(st, "CombineConfigs")) {
	case 1:
		return st.Eval(ai.Eq(f, x.cfgFile(st))) == 1
	case -1:
		return f == ai.Str("")
	}
	return false
}

// isStmt checks the directive of the current statement.
func (x *parseExplorer) isStmt(st *ai.State) func(*ai.T) string {
	return func(o *ai.T) string {
		if o.K != ai.KObj {
			return "other"
		}
		g := st.Ghost
		if d := x.dirField(st, o, "Directive"); st.Eval(ai.Eq(d, g["name"])) != 1 {
			return fmt.Sprintf("P09 the name of a directive is %s, not %s", show(d), show(g["name"]))
		}
		if l := x.dirField(st, o, "Line"); st.Eval(ai.Eq(l, g["line"])) != 1 {
			return fmt.Sprintf("P09 the line of a directive is %s, not %s", show(l), show(g["line"]))
		}
		if a := x.dirField(st, o, "Args"); !sameParts(listOf(st.Norm(a)), listOf(st.Norm(g["args"]))) {
			return fmt.Sprintf("P09 the arguments of a directive are %s, not %s", show(a), show(g["args"]))
		}
		if a := x.dirField(st, o, "Args"); a.K == ai.KNil {
			return "P09 a directive has nil arguments"
		}
		if !gb(st, "inmap") && !gb(st, "ifargs") && st.Eval(ai.Eq(g["name"], ai.Str("if"))) != -1 {
			return "P13 the arguments of an \"if\" are not rewritten"
		}
		if f := x.dirField(st, o, "File"); !x.fileOk(st, f) {
			return fmt.Sprintf("P09 the file of a directive is %s", show(f))
		}
		if c := x.dirField(st, o, "Comment"); c.K != ai.KNil {
			return "P04 a directive has the text of a comment"
		}
		b := x.dirField(st, o, "Block")
		if gs(st, "term") == "{" {
			if st.Eval(ai.Eq(b, ai.Nil)) != -1 && (g["blknn"] == nil || st.Norm(g["blknn"]) != st.Norm(b)) {
				return "P01 " + nilBlock
			}
			if !sameParts(listOf(st.Norm(b)), listOf(st.Norm(g["block"]))) {
				return fmt.Sprintf("P01 the Block of a directive is %s, not the statements of its block", show(b))
			}
		} else if b.K != ai.KNil {
			return "P01 a statement without a block has a Block"
		}
		m := x.dirField(st, o, "IsMapBlockParameter")
		if m != ai.Bool(gb(st, "inmap")) {
			return fmt.Sprintf("P08 IsMapBlockParameter is %s in a block where %v is right", m, gb(st, "inmap"))
		}
		return ""
	}
}

func propOf(why, def string) (string, string) {
	if len(why) > 4 && why[0] == 'P' && why[3] == ' ' {
		return why[:3], why[4:]
	}
	return def, why
}

// finish completes the statement or comment that was read before; it is called before the next
// token is received and before the function returns.
// isName checks that an object is the directive of the current statement, whatever it holds.
func (x *parseExplorer) isName(st *ai.State) func(*ai.T) string {
	return func(o *ai.T) string {
		if o.K == ai.KObj && st.Eval(ai.Eq(x.dirField(st, o, "Directive"), st.Ghost["name"])) == 1 {
			return ""
		}
		return "other"
	}
}

func (x *parseExplorer) finish(st *ai.State, ins ssa.Instruction) {
	if st.Dead() {
		return
	}
	switch gs(st, "mode") {
	case "start":
		if c := st.Ghost["comment"]; c != nil {
			l, why := x.find(st, st.Ghost["out"], []func(*ai.T) string{x.isComment(st, c, st.Ghost["cline"])})
			if l == nil {
				pr, why := propOf(why, "P04")
				x.fail(st, ins, pr, "comment", "a comment is not added to the payload as it was read: %s", why)
				return
			}
			x.run.events["comment"]++
			st.Ghost["out"] = l
			delete(st.Ghost, "comment")
			delete(st.Ghost, "cline")
			x.fold(st, "out")
		}
	case "args", "term":
		if c := st.Ghost["comment"]; c != nil {
			l, why := x.find(st, st.Ghost["comments"], []func(*ai.T) string{x.isComment(st, c, st.Ghost["line"])})
			if l == nil {
				pr, why := propOf(why, "P04")
				x.fail(st, ins, pr, "argcomment", "a comment between arguments is not kept as it was read: %s", why)
				return
			}
			x.run.events["argcomment"]++
			st.Ghost["comments"] = l
			delete(st.Ghost, "comment")
			x.fold(st, "comments")
		}
		if gs(st, "mode") == "term" {
			x.finishStmt(st, ins)
		}
	}
}

func (x *parseExplorer) clear(st *ai.State) {
	for _, k := range []string{"name", "line", "args", "term", "inmap", "ignored", "an", "err", "reported", "block", "comments", "comment", "ifargs", "incl", "inclrep", "files", "magic", "blknn", "scan", "ninc", "nedge", "ndeg", "reg", "que"} {
		delete(st.Ghost, k)
	}
}

// resolve decides whether the current directive is ignored, where the program has compared it with
// all of IgnoreDirectives.
func (x *parseExplorer) resolve(st *ai.State, ins ssa.Instruction) bool {
	if gs(st, "ignored") != "?" {
		return true
	}
	if scanned(st, x.opt(st, "IgnoreDirectives")) {
		st.Ghost["ignored"] = ai.False
		return true
	}
	x.fail(st, ins, "P05", "unchecked", "it is not decided whether the directive is one of IgnoreDirectives")
	return false
}

// branch follows a loop that compares a directive with IgnoreDirectives.
func (x *parseExplorer) branch(st *ai.State, c *ai.T, val bool) {
	if gs(st, "ignored") != "?" {
		return
	}
	scanBranch(st, c, val, x.opt(st, "IgnoreDirectives"), st.Ghost["name"], "ignored")
}

// disposition tells what must become of the current statement: "keep", "drop" or "fail".
func (x *parseExplorer) disposition(st *ai.State, ins ssa.Instruction) string {
	if !x.resolve(st, ins) {
		return "fail"
	}
	an := gs(st, "an")
	if gb(st, "ignored") {
		return "drop"
	}
	if an == "" {
		if gb(st, "inmap") {
			x.fail(st, ins, "P08,P05", "map-unchecked", "a parameter in a map-like block is not checked as one")
		} else {
			x.fail(st, ins, "P08,P05", "unchecked", "a statement is neither ignored nor analysed")
		}
		return "fail"
	}
	if an == "err" {
		return "drop"
	}
	return "keep"
}

// left names the properties that a statement which is left out is about.
func (x *parseExplorer) left(st *ai.State) string {
	switch {
	case gs(st, "mode") == "term" && gb(st, "ignored"):
		return ",P05"
	case gs(st, "mode") == "term" && gs(st, "an") == "err":
		return ",P03"
	}
	return ""
}

func (x *parseExplorer) finishStmt(st *ai.State, ins ssa.Instruction) {
	d := x.disposition(st, ins)
	if d == "fail" || st.Dead() {
		return
	}
	term := gs(st, "term")
	if gs(st, "an") == "err" && !gb(st, "reported") {
		x.fail(st, ins, "P02,P03", "unreported", "an error in a statement is found, but neither reported nor returned")
		return
	}
	if e := gs(st, "incl"); e == "openerr" && !gb(st, "inclrep") {
		x.fail(st, ins, "P02,P03", "include-unreported", "an included file cannot be opened, but the error is neither reported nor returned")
		return
	}
	if gs(st, "incl") == "globerr" {
		x.fail(st, ins, "P02", "glob-lost", "the pattern of an include cannot be expanded, but parsing goes on without an error")
		return
	}
	if d == "keep" {
		if term == "{" && st.Ghost["block"] == nil {
			x.fail(st, ins, "P01", "block-unread", "the block of a statement is not parsed before the next statement")
			return
		}
		if !x.included(st, ins) {
			return
		}
		want := []func(*ai.T) string{x.isStmt(st)}
		base := st.Ghost["out"]
		l, why := x.find(st, base, want)
		if st.Ghost["comments"] != nil && len(listOf(st.Ghost["comments"])) > 0 {
			l, why = x.findWith(st, base, st.Ghost["comments"])
		}
		if l == nil {
			def := "P01"
			if gb(st, "inmap") {
				def = "P01,P08"
			}
			pr, why := propOf(why, def)
			x.fail(st, ins, pr, "statement", "a statement is not added to the payload as it was read: %s", why)
			return
		}
		x.run.events["statement"]++
		if term == "{" {
			x.run.events["block"]++
		}
		if gb(st, "inmap") {
			x.run.events["map"]++
		}
		if len(x.run.samples) < 8 {
			x.run.samples = append(x.run.samples, fmt.Sprintf("%s: %s ended by %q: kept as read, with its arguments, line and block", x.root.fn.Name(), show(st.Ghost["name"]), term))
		}
		st.Ghost["out"] = l
	} else if l, _ := x.find(st, st.Ghost["out"], []func(*ai.T) string{x.isName(st)}); l != nil {
		x.fail(st, ins, "P01"+x.left(st), "kept", "a statement that is to be left out is added to the payload")
		return
	} else if gb(st, "ignored") {
		x.run.events["ignored"]++
	} else {
		x.run.events["report"]++
	}
	x.clear(st)
	x.fold(st, "out")
	switch {
	case term == "}":
		st.Ghost["mode"] = ai.Str("end")
	case term == "{" && d == "drop":
		st.Ghost["mode"] = ai.Str("skip")
		st.Ghost["depth"] = ai.Int(1)
	default:
		st.Ghost["mode"] = ai.Str("start")
	}
}

// findWith looks for the list that extends base by the statement and a list of comments.
func (x *parseExplorer) findWith(st *ai.State, base, comments *ai.T) (res *ai.T, why string) {
	pre := listOf(st.Norm(base))
	post := listOf(st.Norm(comments))
	why = "P04 the comments between its arguments do not follow it"
	is := x.isStmt(st)
	st.EachValue(func(t *ai.T) {
		if res != nil || !t.Is("list") {
			return
		}
		ps := t.Args
		if len(ps) != len(pre)+1+len(post) || !sameParts(ps[:len(pre)], pre) || !sameParts(ps[len(pre)+1:], post) || !ps[len(pre)].Is("el") {
			return
		}
		if s := is(ps[len(pre)].Args[0]); s == "" {
			res = t
		} else if s != "other" {
			why = s
		}
	})
	return
}

// recv is a token that is received.
func (x *parseExplorer) recv(st *ai.State, ch *ai.T, commaOk bool, typ types.Type, ins ssa.Instruction) ([]ai.Outcome, bool) {
	if st.Norm(ch) != x.tokens {
		return nil, false
	}
	x.finish(st, ins)
	if st.Dead() {
		return nil, true
	}
	if gs(st, "mode") == "end" {
		x.fail(st, ins, "P01", "beyond", "tokens are read beyond the end of the block")
		return nil, true
	}
	mode := gs(st, "mode")
	x.forget(st, mode)
	x.e.Widen(st, "recv")
	if mode == "fail" && gs(st, "why") == "lexer" {
		x.run.assumes["an error is the last token of the lexer (L03, L05)"] = true
	}
	if !commaOk {
		x.run.assumes["the token after a statement exists where its absence is not asked for"] = true
	}
	var out []ai.Outcome
	add := func(kind string, f func(n *ai.State) (val, line, quoted, err *ai.T, ok bool)) {
		n := st.Clone()
		val, line, quoted, err, ok := f(n)
		if n.Dead() {
			return
		}
		n.Note("token: " + kind)
		var v *ai.T
		if ok {
			v = x.token(n, val, line, quoted, err)
		} else {
			v = ai.ZeroOf(typ)
			if v.K != ai.KApp || !v.Is("struct") {
				v = x.token(n, ai.Str(""), ai.Int(0), ai.False, ai.Nil)
			}
		}
		if commaOk {
			v = ai.Tuple(v, ai.Bool(ok))
		}
		out = append(out, ai.Outcome{St: n, Res: v})
	}
	line := func(n *ai.State) *ai.T {
		l := n.Fresh("line", types.Typ[types.Int])
		return l
	}
	// the end of the tokens
	add("none, the tokens end", func(n *ai.State) (a, b, c, d *ai.T, ok bool) {
		switch mode {
		case "args":
			n.Ghost["mode"] = ai.Str("fail")
			n.Ghost["why"] = ai.Str("premature")
			x.run.events["premature"]++
		case "fail":
		default:
			n.Ghost["mode"] = ai.Str("end")
		}
		return
	})
	if mode == "fail" {
		st.Kill()
		return out, true
	}
	// an error
	add("an error", func(n *ai.State) (a, b, c, d *ai.T, ok bool) {
		x.run.events["lexerror"]++
		n.Ghost["mode"] = ai.Str("fail")
		n.Ghost["why"] = ai.Str("lexer")
		err := n.Fresh("lexerr", types.Universe.Lookup("error").Type())
		n.Assume(ai.Eq(err, ai.Nil), false)
		sline := n.Ghost["line"]
		x.clear(n)
		if mode == "args" {
			n.Ghost["sline"] = sline
		}
		n.Ghost["err"] = err
		l := line(n)
		n.Ghost["line"] = l
		return n.Fresh("text", types.Typ[types.String]), l, ai.False, err, true
	})
	sep := func(s string) {
		if mode == "start" && s != "}" {
			x.run.assumes["a statement does not start with { or ; (L03)"] = true
			return
		}
		add(s, func(n *ai.State) (a, b, c, d *ai.T, ok bool) {
			switch mode {
			case "start":
				n.Ghost["mode"] = ai.Str("end")
				x.run.events["end"]++
			case "args":
				for _, k := range []string{"args", "comments"} {
					if l := n.Ghost[k]; l.Is("list") && len(l.Args) > 0 {
						n.FoldList(l)
					}
				}
				if w := n.Ghost["name"]; w.K == ai.KSym {
					n.Replace(w, n.FreshCls("name", types.Typ[types.String], x.quoted))
				}
				n.Ghost["mode"] = ai.Str("term")
				n.Ghost["term"] = ai.Str(s)
				n.Ghost["an"] = ai.Str("")
			case "skip":
				if s == "{" {
					n.Ghost["depth"] = ai.Add(n.Ghost["depth"], 1)
				} else if s == "}" {
					y, no := n.Split(ai.Le(n.Ghost["depth"], ai.Int(1)))
					if y == nil && no != nil {
						n.Ghost["depth"] = ai.Add(n.Ghost["depth"], -1)
					} else if no == nil {
						x.skipped(n)
					} else {
						// both: the other state is added below
						x.skipped(y)
						no.Ghost["depth"] = ai.Add(no.Ghost["depth"], -1)
						v := x.token(no, ai.Str(s), line(no), ai.False, ai.Nil)
						if commaOk {
							v = ai.Tuple(v, ai.True)
						}
						out = append(out, ai.Outcome{St: no, Res: v})
					}
				}
			}
			return ai.Str(s), line(n), ai.False, ai.Nil, true
		})
	}
	sep("{")
	sep("}")
	sep(";")
	for _, q := range []bool{false, true} {
		q := q
		kind := "a word"
		if q {
			kind = "a quoted string"
		}
		add(kind, func(n *ai.State) (a, b, c, d *ai.T, ok bool) {
			var v *ai.T
			if q {
				v = n.FreshCls("quoted", types.Typ[types.String], x.quoted)
			} else {
				v = n.FreshCls("word", types.Typ[types.String], x.word)
			}
			l := line(n)
			switch mode {
			case "start":
				n.Ghost["mode"] = ai.Str("args")
				n.Ghost["name"] = v
				n.Ghost["line"] = l
				n.Ghost["args"] = ai.List(nil)
				n.Ghost["comments"] = ai.List(nil)
			case "args":
				x.fold(n, "args")
				n.Ghost["args"] = ai.List(nil, append(append([]*ai.T{}, listOf(n.Ghost["args"])...), ai.El(v))...)
			}
			return v, l, ai.Bool(q), ai.Nil, true
		})
	}
	// comments, with and without ParseComments
	for _, keep := range []bool{true, false} {
		keep := keep
		add(fmt.Sprintf("a comment (ParseComments=%v)", keep), func(n *ai.State) (a, b, c, d *ai.T, ok bool) {
			if !n.Assume(x.opt(n, "ParseComments"), keep) {
				n.Kill()
				return
			}
			rest := n.Fresh("text", types.Typ[types.String])
			l := line(n)
			if keep && (mode == "start" || mode == "args") {
				n.Ghost["comment"] = rest
				if mode == "start" {
					n.Ghost["cline"] = l
				}
			}
			return ai.Cat(ai.Str("#"), rest), l, ai.False, ai.Nil, true
		})
	}
	st.Kill()
	// the end of a statement: what decides about it
	var res []ai.Outcome
	for _, o := range out {
		if o.St.Dead() {
			continue
		}
		if gs(o.St, "mode") == "term" {
			for _, n := range x.cases(o.St) {
				res = append(res, ai.Outcome{St: n, Res: o.Res})
			}
			continue
		}
		res = append(res, o)
	}
	return res, true
}

// forget drops the facts that the code before the token needed.
func (x *parseExplorer) forget(st *ai.State, mode string) {
	comb := x.opt(st, "CombineConfigs")
	var keep []*ai.T
	if mode == "args" {
		keep = append(keep, comb)
	}
	known := map[*ai.T]int{}
	for _, k := range keep {
		known[k] = st.Eval(k)
	}
	st.Forget(func(t *ai.T) bool {
		if t.K == ai.KSym && (t.Op == "word" || t.Op == "quoted" || t.Op == "name" || t.Op == "text" || t.Op == "line" || t.Op == "files" || t.Op == "lexerr") {
			return true
		}
		if t.Is("load") && t != x.opts && t.Contains(x.opts) {
			return known[t] == 0
		}
		return t == x.ctx || t.Is("mhas")
	})
}

func (x *parseExplorer) skipped(n *ai.State) {
	x.run.events["skip"]++
	delete(n.Ghost, "depth")
	if x.root.skip {
		n.Ghost["mode"] = ai.Str("end")
	} else {
		n.Ghost["mode"] = ai.Str("start")
	}
}

func (x *parseExplorer) token(st *ai.State, val, line, quoted, err *ai.T) *ai.T {
	s := x.tokT.Underlying().(*types.Struct)
	var fs []*ai.T
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Value":
			fs = append(fs, val)
		case "Line":
			fs = append(fs, line)
		case "IsQuoted":
			fs = append(fs, quoted)
		case "Error":
			fs = append(fs, err)
		default:
			fs = append(fs, st.FreshOf("token."+s.Field(i).Name(), s.Field(i).Type()))
		}
	}
	return ai.StructVal(x.tokT, fs...)
}

// cases splits a state at the end of a statement: map-like block or not, ignored or not.
func (x *parseExplorer) cases(st *ai.State) []*ai.State {
	var plain []*ai.State
	var r []*ai.State
	set := func(n *ai.State, inmap bool) {
		n.Ghost["inmap"] = ai.Bool(inmap)
		if inmap {
			n.Ghost["ignored"] = ai.False
			r = append(r, n)
		} else {
			plain = append(plain, n)
		}
	}
	some, none := st.Split(ai.Le(ai.Int(1), ai.Len(x.ctx)))
	if none != nil && !none.Dead() {
		set(none, false)
	}
	if some != nil && !some.Dead() {
		m := mapBodies(x.p)
		if m == nil {
			x.fail(some, nil, "P08", "anchor", "the table of map-like blocks is gone")
			return nil
		}
		key := some.Load(ai.ElemAddr(x.ctx, ai.Add(ai.Len(x.ctx), -1)), types.Typ[types.String])
		mv := some.Load(ai.Named("&"+m.String(), m.Type()), m.Type().(*types.Pointer).Elem())
		y, n := some.Split(ai.App("mhas", types.Typ[types.Bool], some.MapOf(mv), key))
		if y != nil && !y.Dead() {
			set(y, true)
		}
		if n != nil && !n.Dead() {
			set(n, false)
		}
	}
	for _, n := range plain {
		n.Ghost["ignored"] = ai.Str("?")
		r = append(r, n)
	}
	return r
}

// mapBodies is the table of map-like blocks.
func mapBodies(p *load.Prog) *ssa.Global {
	for _, m := range p.RootSSA.Members {
		if g, ok := m.(*ssa.Global); ok {
			if t, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map); ok && isNamed(t.Elem(), "mapParameterMasks") {
				return g
			}
		}
	}
	return nil
}

func sigIs(t types.Type, params, results []string) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != len(params) || s.Results().Len() != len(results) {
		return false
	}
	q := func(p *types.Package) string { return p.Name() }
	for i, x := range params {
		if types.TypeString(s.Params().At(i).Type(), q) != x {
			return false
		}
	}
	for i, x := range results {
		if types.TypeString(s.Results().At(i).Type(), q) != x {
			return false
		}
	}
	return true
}

func (x *parseExplorer) call(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	errT := types.Universe.Lookup("error").Type()
	// blocks
	if c.Fn != nil && x.entries[c.Fn] {
		return x.contract(st, c), true
	}
	sig := c.Common.Signature()
	// errors that are reported
	if sigIs(sig, []string{"*crossplane.Config", "error"}, nil) && len(c.Args) >= 2 {
		x.report(st, c, c.Args[len(c.Args)-2], c.Args[len(c.Args)-1])
		if st.Dead() {
			return nil, true
		}
		return []ai.Outcome{{St: st, Res: ai.Nil}}, true
	}
	switch {
	case c.Name == "os.Open" && len(c.Args) == 1, c.Name == "dynamic" && sigIs(sig, []string{"string"}, []string{"io.ReadCloser", "error"}):
		if !x.hook(st, c, "Open") || !x.pathOk(st, c) || !x.isPattern(st, c, false) {
			return nil, true
		}
		f := st.Fresh("file", sig.Results().At(0).Type())
		st.Assume(ai.Eq(f, ai.Nil), false)
		st.Ghost["files"] = ai.List(nil, ai.El(c.Args[0]))
		x.counters(st)
		n := st.Clone()
		e := n.Fresh("openerr", errT)
		n.Assume(ai.Eq(e, ai.Nil), false)
		n.Ghost["incl"] = ai.Str("openerr")
		n.Ghost["files"] = ai.List(nil)
		n.Note("the file cannot be opened")
		x.run.events["include"]++
		return []ai.Outcome{{St: st, Res: ai.Tuple(f, ai.Nil)}, {St: n, Res: ai.Tuple(ai.Nil, e)}}, true
	case c.Name == "path/filepath.Glob", c.Name == "dynamic" && sigIs(sig, []string{"string"}, []string{"[]string", "error"}):
		if !x.hook(st, c, "Glob") || !x.pathOk(st, c) || !x.isPattern(st, c, true) {
			return nil, true
		}
		f := st.Fresh("files", sig.Results().At(0).Type())
		st.Ghost["files"] = f
		x.counters(st)
		n := st.Clone()
		e := n.Fresh("globerr", errT)
		n.Assume(ai.Eq(e, ai.Nil), false)
		n.Ghost["incl"] = ai.Str("globerr")
		n.Ghost["files"] = ai.List(nil)
		n.Note("the pattern cannot be expanded")
		x.run.events["include"]++
		return []ai.Outcome{{St: st, Res: ai.Tuple(f, ai.Nil)}, {St: n, Res: ai.Tuple(ai.Nil, e)}}, true
	}
	if c.Fn == nil {
		return nil, false
	}
	if (c.Name == "(*regexp.Regexp).MatchString" || c.Name == "strings.ContainsAny") && len(c.Args) == 2 && gs(st, "mode") == "term" {
		set, arg := "", c.Args[1]
		if c.Name == "strings.ContainsAny" {
			arg = c.Args[0]
			set, _ = c.Args[1].IsStr()
		} else {
			set = patternSet(x.p, st, c.Args[0])
		}
		if set != "" && st.Eval(ai.Eq(st.Ghost["name"], ai.Str("include"))) == 1 {
			n := st.Clone()
			for _, s := range []*ai.State{st, n} {
				s.Ghost["magic"] = ai.List(nil, ai.El(ai.Str(set)), ai.El(st.Norm(arg)), ai.El(ai.Bool(s == n)))
			}
			n.Note("the path has one of " + set)
			return []ai.Outcome{{St: st, Res: ai.False}, {St: n, Res: ai.True}}, true
		}
	}
	switch {
	case c.Fn.Pkg == x.p.RootSSA && (c.Fn.Name() == "analyze" || c.Fn.Name() == "analyzeMapBody"):
		return x.analyzed(st, c), true
	case isIfArgs(x.p, c.Fn) && len(c.Args) == 1:
		return x.stripped(st, c), true
	case (isMembership(x.p, c.Fn) || strings.HasPrefix(c.Name, "slices.Contains[")) && len(c.Args) == 2:
		if gs(st, "mode") == "term" && st.Norm(c.Args[0]) == x.opt(st, "IgnoreDirectives") && st.Eval(ai.Eq(c.Args[1], st.Ghost["name"])) == 1 && !gb(st, "inmap") {
			if gs(st, "ignored") == "?" {
				n := st.Clone()
				st.Ghost["ignored"], n.Ghost["ignored"] = ai.False, ai.True
				n.Note("the directive is one of IgnoreDirectives")
				return []ai.Outcome{{St: st, Res: ai.False}, {St: n, Res: ai.True}}, true
			}
			return []ai.Outcome{{St: st, Res: ai.Bool(gb(st, "ignored"))}}, true
		}
		return []ai.Outcome{{St: st, Res: st.Fresh("contains", types.Typ[types.Bool])}}, true
	case c.Fn.Signature.Recv() != nil && c.Fn.Name() == "String" && isNamed(c.Fn.Signature.Recv().Type(), "Directive"):
		return []ai.Outcome{{St: st, Res: st.Fresh("statement", types.Typ[types.String])}}, true
	}
	return nil, false
}

// hook checks that files are accessed with the function of the options, or its default if there is none.
func (x *parseExplorer) hook(st *ai.State, c *ai.CallInfo, name string) bool {
	o := x.opt(st, name)
	if c.Name == "dynamic" {
		if st.Norm(c.Callee) == o {
			return true
		}
		x.fail(st, c.Instr, "P06", "hook-"+name, "a file is accessed with %s, not with the function %s of the options", show(c.Callee), name)
		return false
	}
	if st.Eval(ai.Eq(o, ai.Nil)) == 1 {
		return true
	}
	x.fail(st, c.Instr, "P06", "hook-"+name, "%s is called although the function %s of the options may be set", c.Name, name)
	return false
}

// patternSet is the set of characters that a package-level regular expression finds, if that is what
// it does, in sorted order.
func patternSet(p *load.Prog, st *ai.State, re *ai.T) string {
	for _, f := range p.Funcs {
		if f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				c, ok2 := s.Val.(*ssa.Call)
				if !ok || !ok2 || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "regexp.MustCompile" {
					continue
				}
				if st.Norm(re) != st.Norm(st.Load(ai.Named("&"+g.String(), g.Type()), s.Val.Type())) {
					continue
				}
				k, ok := c.Call.Args[0].(*ssa.Const)
				if !ok || k.Value == nil {
					return ""
				}
				r, err := syntax.Parse(constant.StringVal(k.Value), syntax.Perl)
				if err != nil {
					return ""
				}
				return charSet(r)
			}
		}
	}
	return ""
}

func charSet(r *syntax.Regexp) string {
	var cs []rune
	switch r.Op {
	case syntax.OpLiteral:
		if len(r.Rune) == 1 && r.Flags&syntax.FoldCase == 0 {
			cs = r.Rune
		}
	case syntax.OpCharClass:
		for i := 0; i+1 < len(r.Rune); i += 2 {
			for c := r.Rune[i]; c <= r.Rune[i+1]; c++ {
				if cs = append(cs, c); len(cs) > 40 {
					return ""
				}
			}
		}
	case syntax.OpCapture:
		return charSet(r.Sub[0])
	case syntax.OpAlternate:
		for _, s := range r.Sub {
			cs = append(cs, []rune(charSet(s))...)
		}
	}
	return string(cs)
}

// isPattern checks that Glob is used for a path with a pattern and Open for one without.
func (x *parseExplorer) isPattern(st *ai.State, c *ai.CallInfo, glob bool) bool {
	m := st.Ghost["magic"]
	if m == nil || !m.Is("list") {
		x.run.assumes["NOT EXHAUSTIVE: how the code tells patterns from file names is not recognized"] = true
		return true
	}
	set, _ := m.Args[0].Args[0].IsStr()
	var has [256]bool
	for i := 0; i < len(set); i++ {
		has[set[i]] = true
	}
	for i := range has {
		if has[i] != strings.ContainsRune("*?[", rune(i)) {
			x.fail(st, c.Instr, "P06", "pattern", "an include is taken for a pattern if it has one of %q", set)
			return false
		}
	}
	if a := m.Args[1].Args[0]; st.Norm(a) != st.Norm(c.Args[0]) {
		x.fail(st, c.Instr, "P06", "pattern-of", "whether the path of an include is a pattern is decided from %s, not from the path", show(a))
		return false
	}
	if m.Args[2].Args[0] != ai.Bool(glob) {
		x.fail(st, c.Instr, "P06", "pattern-use", "%s is used for a path of which the test for patterns is %s", c.Name, m.Args[2].Args[0])
		return false
	}
	return true
}

// pathOk checks the path of an include: relative paths are taken from the directory of the main file.
func (x *parseExplorer) pathOk(st *ai.State, c *ai.CallInfo) bool {
	g := st.Ghost
	if gs(st, "mode") != "term" || gs(st, "an") != "ok" || st.Eval(ai.Eq(g["name"], ai.Str("include"))) != 1 || g["files"] != nil {
		x.fail(st, c.Instr, "P06", "access", "files are accessed where no valid include directive is handled")
		return false
	}
	if st.Eval(x.opt(st, "SingleFile")) != -1 {
		x.fail(st, c.Instr, "P06", "single", "included files are accessed although SingleFile may be set")
		return false
	}
	got := st.Norm(c.Args[0])
	first := st.Norm(ai.App("index", types.Typ[types.String], st.Norm(g["args"]), ai.Int(0)))
	want := first
	pt := rootType(x.p, "parser")
	dir := st.Norm(st.Load(ai.FieldAddr(x.self, fieldIndex(pt, "configDir")), types.Typ[types.String]))
	switch st.Eval(ai.App("isabs", types.Typ[types.Bool], first)) {
	case 1:
	case -1:
		want = st.Norm(ai.App("pathjoin", types.Typ[types.String], ai.List(nil, ai.El(dir), ai.El(first))))
	default:
		want = ai.Nil
	}
	if got != want {
		x.fail(st, c.Instr, "P06", "path", "the path of an include is %s", show(got))
		return false
	}
	return true
}

// analyzed is a call that validates the current statement.
func (x *parseExplorer) analyzed(st *ai.State, c *ai.CallInfo) []ai.Outcome {
	isMap := c.Fn.Name() == "analyzeMapBody"
	if gs(st, "mode") != "term" || gs(st, "an") != "" {
		x.fail(st, c.Instr, "P08,P05", "again", "%s is called where no complete statement is to be analysed", c.Fn.Name())
		return nil
	}
	if !x.resolve(st, c.Instr) {
		return nil
	}
	if gb(st, "ignored") {
		x.fail(st, c.Instr, "P05", "analysed", "a directive that is to be ignored is analysed")
		return nil
	}
	if isMap != gb(st, "inmap") {
		x.fail(st, c.Instr, "P08", "kind", "%s is called for a statement in a block where map-like is %v", c.Fn.Name(), gb(st, "inmap"))
		return nil
	}
	for i, q := range c.Fn.Params {
		a := c.Args[i]
		switch {
		case isNamed(q.Type(), "Directive"):
			g := st.Ghost
			if d := x.dirField(st, a, "Directive"); st.Eval(ai.Eq(d, g["name"])) != 1 {
				x.fail(st, c.Instr, "P08,P09", "analysed-name", "the directive that is analysed is %s, not %s", show(d), show(g["name"]))
			} else if d := x.dirField(st, a, "Args"); !sameParts(listOf(st.Norm(d)), listOf(st.Norm(g["args"]))) {
				x.fail(st, c.Instr, "P08,P09", "analysed-args", "the arguments that are analysed are %s, not %s", show(d), show(g["args"]))
			} else if d := x.dirField(st, a, "Line"); st.Eval(ai.Eq(d, g["line"])) != 1 {
				x.fail(st, c.Instr, "P12,P09", "analysed-line", "the line for errors is %s, not %s", show(d), show(g["line"]))
			}
		case isNamed(q.Type(), "blockCtx"):
			if !sameParts(listOf(st.Norm(a)), listOf(x.ctx)) {
				x.fail(st, c.Instr, "P08", "analysed-ctx", "the context for the analysis is %s, not that of the block", show(a))
			}
		case isNamed(q.Type(), "ParseOptions"):
			if st.Norm(a) != x.opts {
				x.fail(st, c.Instr, "P08", "analysed-options", "the options for the analysis are not those of the parser")
			}
		case q.Name() == "term" || i == 2:
			if st.Eval(ai.Eq(a, st.Ghost["term"])) != 1 {
				x.fail(st, c.Instr, "P08", "analysed-term", "the statement is analysed as if it ended with %s, not %s", show(a), gs(st, "term"))
			}
		case i == 0:
			if st.Eval(ai.Eq(a, x.cfgFile(st))) != 1 {
				x.fail(st, c.Instr, "P12", "analysed-file", "the file for errors is %s", show(a))
			}
		case i == 3 && isMap:
			k := st.Load(ai.ElemAddr(x.ctx, ai.Add(ai.Len(x.ctx), -1)), types.Typ[types.String])
			if st.Eval(ai.Eq(a, k)) != 1 {
				x.fail(st, c.Instr, "P08", "map-ctx", "the parameter is checked for the block %s", show(a))
			}
		}
		if st.Dead() {
			return nil
		}
	}
	n := st.Clone()
	st.Ghost["an"] = ai.Str("ok")
	n.Ghost["an"] = ai.Str("err")
	n.Note(c.Fn.Name() + " finds an error")
	pe := types.NewPointer(rootType(x.p, "ParseError"))
	o := n.FreshObj("new parse error", pe.Elem())
	n.Ghost["err"] = ai.MakeIface(pe, o)
	if isMap && gs(st, "term") != ";" {
		x.run.assumes["a parameter in a map-like block that does not end with ; is an error (A03)"] = true
		st.Kill()
		return []ai.Outcome{{St: n, Res: ai.MakeIface(pe, o)}}
	}
	return []ai.Outcome{{St: st, Res: ai.Nil}, {St: n, Res: ai.MakeIface(pe, o)}}
}

// report is an error that is reported and does not end the parsing.
func (x *parseExplorer) report(st *ai.State, c *ai.CallInfo, cfg, err *ai.T) {
	if st.Norm(cfg) != x.cfg {
		x.fail(st, c.Instr, "P02", "report-config", "an error is reported for %s, not for the config that is parsed", show(cfg))
		return
	}
	if st.Eval(x.opt(st, "StopParsingOnError")) != -1 {
		x.fail(st, c.Instr, "P03", "report", "an error is reported and parsing goes on where StopParsingOnError may be set")
		return
	}
	if st.Eval(ai.Eq(err, ai.Nil)) != -1 {
		x.fail(st, c.Instr, "P02", "report-nil", "an error that is reported may be nil")
		return
	}
	switch {
	case gs(st, "mode") == "term" && gs(st, "an") == "err" && !gb(st, "reported"):
		if st.Norm(err) != st.Norm(st.Ghost["err"]) {
			x.fail(st, c.Instr, "P02", "report-other", "the error that is reported is not the one that was found")
			return
		}
		st.Ghost["reported"] = ai.True
	case gs(st, "mode") == "term" && gs(st, "incl") == "openerr" && !gb(st, "inclrep"):
		if !x.located(st, c.Instr, err, st.Ghost["line"], nil, true) {
			return
		}
		st.Ghost["inclrep"] = ai.True
	default:
		x.fail(st, c.Instr, "P02", "report-spurious", "an error is reported where none was found")
	}
}

// contract is a recursive call.
func (x *parseExplorer) contract(st *ai.State, c *ai.CallInfo) []ai.Outcome {
	r := shapeOf(c.Fn)
	skip := r.list < 0
	if r.mode >= 0 {
		switch st.Eval(c.Args[r.mode]) {
		case 1:
			skip = true
		case -1:
			skip = false
		default:
			x.fail(st, c.Instr, "P01", "mode", "it is not known whether %s skips the block", c.Fn.Name())
			return nil
		}
	}
	if st.Norm(c.Args[r.tokens]) != x.tokens {
		x.fail(st, c.Instr, "P01", "tokens", "a block is read from other tokens")
		return nil
	}
	if r.config >= 0 && st.Norm(c.Args[r.config]) != x.cfg {
		x.fail(st, c.Instr, "P01", "config", "a block is parsed for another config")
		return nil
	}
	res := func(n *ai.State, list, err *ai.T) *ai.T {
		t := c.Fn.Signature.Results()
		var fs []*ai.T
		for i := 0; i < t.Len(); i++ {
			switch i {
			case r.list:
				fs = append(fs, list)
			case r.err:
				fs = append(fs, err)
			default:
				fs = append(fs, n.FreshOf("block", t.At(i).Type()))
			}
		}
		if len(fs) == 1 {
			return fs[0]
		}
		return ai.Tuple(fs...)
	}
	mode := gs(st, "mode")
	if skip {
		switch mode {
		case "term":
			if gs(st, "term") != "{" {
				x.fail(st, c.Instr, "P01"+x.left(st), "skip-none", "a block is skipped after a statement that has none")
				return nil
			}
			d := x.disposition(st, c.Instr)
			if st.Dead() {
				return nil
			}
			if d == "keep" {
				x.fail(st, c.Instr, "P01"+x.left(st), "skip-kept", "the block of a valid statement is skipped")
				return nil
			}
			x.finishStmt(st, c.Instr)
			if st.Dead() {
				return nil
			}
			x.skipped(st)
		case "skip":
			if st.Eval(ai.Le(ai.Int(2), st.Ghost["depth"])) != 1 {
				x.fail(st, c.Instr, "P01"+x.left(st), "skip-depth", "a block is skipped where none was opened")
				return nil
			}
			st.Ghost["depth"] = ai.Add(st.Ghost["depth"], -1)
		case "fail":
		default:
			x.fail(st, c.Instr, "P01"+x.left(st), "skip-where", "a block is skipped where none was opened")
			return nil
		}
	} else {
		if mode != "term" || gs(st, "term") != "{" || st.Ghost["block"] != nil {
			x.fail(st, c.Instr, "P01", "block-where", "a block is parsed where none was opened")
			return nil
		}
		d := x.disposition(st, c.Instr)
		if st.Dead() {
			return nil
		}
		if d != "keep" {
			x.fail(st, c.Instr, "P01"+x.left(st), "block-dropped", "the block of a statement that is left out is parsed")
			return nil
		}
		if r.ctx >= 0 && !x.ctxOk(st, c, c.Args[r.ctx]) {
			return nil
		}
	}
	x.havoc(st)
	n := st.Clone()
	e := n.Fresh("blockerr", types.Universe.Lookup("error").Type())
	n.Assume(ai.Eq(e, ai.Nil), false)
	n.Ghost["mode"] = ai.Str("fail")
	n.Ghost["why"] = ai.Str("block")
	n.Ghost["err"] = e
	n.Note("the block ends with an error")
	list := ai.Nil
	if r.list >= 0 {
		list = st.Fresh("block", c.Fn.Signature.Results().At(r.list).Type())
		if x.nonnil {
			st.Assume(ai.Eq(list, ai.Nil), false)
		}
	}
	if !skip {
		st.Ghost["block"] = list
	}
	st.Note("the block is read")
	return []ai.Outcome{{St: st, Res: res(st, list, ai.Nil)}, {St: n, Res: res(n, ai.Nil, e)}}
}

// ctxOk checks the context that a block is parsed in.
func (x *parseExplorer) ctxOk(st *ai.State, c *ai.CallInfo, inner *ai.T) bool {
	name := st.Ghost["name"]
	first := st.Load(ai.ElemAddr(x.ctx, ai.Int(0)), types.Typ[types.String])
	loc := ai.And(ai.Eq(name, ai.Str("location")), ai.Le(ai.Int(1), ai.Len(x.ctx)))
	is := st.Eval(ai.Eq(name, ai.Str("location")))
	some := st.Eval(ai.Le(ai.Int(1), ai.Len(x.ctx)))
	http := st.Eval(ai.Eq(first, ai.Str("http")))
	_ = loc
	got := listOf(st.Norm(inner))
	in := false
	switch {
	case is == 1 && some == 1 && http == 1:
		in = true
	case is == -1 || some == -1 || http == -1:
	default:
		x.fail(st, c.Instr, "P08", "location", "the context of a block does not tell location blocks of http apart")
		return false
	}
	var want []*ai.T
	if in {
		want = []*ai.T{ai.El(ai.Str("http")), ai.El(ai.Str("location"))}
	} else {
		want = append(append(want, listOf(st.Norm(x.ctx))...), ai.El(st.Norm(name)))
	}
	if !sameParts(got, want) {
		x.fail(st, c.Instr, "P08", "context", "a block is parsed in the context %s, not %s", show(inner), show(ai.List(nil, want...)))
		return false
	}
	return true
}

// havoc forgets what a recursive call may change in the parser.
func (x *parseExplorer) havoc(st *ai.State) {
	if x.self == nil {
		return
	}
	s := rootType(x.p, "parser").Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		a := ai.FieldAddr(x.self, i)
		switch ft.Underlying().(type) {
		case *types.Slice, *types.Basic:
			if s.Field(i).Name() != "configDir" {
				st.Store(a, st.Fresh(s.Field(i).Name(), ft), ft)
			}
		case *types.Map:
			m := st.Load(a, ft)
			st.SetMap(m, st.Fresh("m", ft))
		}
	}
}

func (x *parseExplorer) counters(st *ai.State) {
	for _, k := range []string{"ninc", "nedge", "ndeg"} {
		st.Ghost[k] = ai.Int(0)
	}
}

// isFile tells whether f is the file of an include that counter is at, and advances the counter.
func (x *parseExplorer) isFile(st *ai.State, f *ai.T, counter string) bool {
	files, n := st.Ghost["files"], st.Ghost[counter]
	if files == nil || n == nil || n == done {
		return false
	}
	at := st.Norm(ai.App("index", types.Typ[types.String], st.Norm(files), st.Norm(n)))
	if st.Norm(f) != at || st.Eval(ai.Lt(n, ai.Len(files))) != 1 {
		return false
	}
	st.Ghost[counter] = ai.Add(n, 1)
	return true
}

// registered checks that a file was both numbered and queued, or neither.
func (x *parseExplorer) registered(st *ai.State, ins ssa.Instruction) bool {
	r, q := st.Ghost["reg"], st.Ghost["que"]
	delete(st.Ghost, "reg")
	delete(st.Ghost, "que")
	if r == nil && q == nil {
		return true
	}
	if r == nil || q == nil || st.Norm(r) != st.Norm(q) {
		x.fail(st, ins, "P07,R01", "queue", "an included file is numbered as %s but queued as %s", show(r), show(q))
		return false
	}
	x.run.events["queued"]++
	return true
}

// mapPut follows the bookkeeping of included files.
func (x *parseExplorer) mapPut(st *ai.State, m, k, v *ai.T, ins ssa.Instruction) {
	mt, ok := ins.(*ssa.MapUpdate).Map.Type().Underlying().(*types.Map)
	if !ok || x.self == nil || m.K == ai.KObj {
		return
	}
	cur := st.MapOf(m)
	has := st.Eval(ai.App("mhas", types.Typ[types.Bool], cur, k))
	old := ai.App("mget", mt.Elem(), cur, k)
	switch mt.Elem().Underlying().String() {
	case "int":
		if st.Eval(ai.Eq(v, ai.App("len", types.Typ[types.Int], cur))) == 1 && v.K != ai.KConst {
			if has != -1 {
				x.fail(st, ins, "P07,R01", "again", "an included file that may have a number gets another one")
				return
			}
			if st.Ghost["reg"] != nil && !x.registered(st, ins) {
				return
			}
			st.Ghost["reg"] = k
			x.regs[m] = true
			return
		}
		if has == -1 && v == ai.Int(1) || has == 1 && st.Eval(ai.Eq(v, ai.Add(old, 1))) == 1 {
			if !x.isFile(st, k, "ndeg") {
				x.fail(st, ins, "P07,P10", "degree", "the in-degree that is counted is not that of the next included file")
			}
			return
		}
		x.fail(st, ins, "P07,P10", "count", "the bookkeeping of included files stores %s for a file", show(v))
	case "[]string":
		if st.Eval(ai.Eq(k, x.cfgFile(st))) != 1 {
			x.fail(st, ins, "P07,P10", "edge-from", "an include is recorded for %s, not for the file it is in", show(k))
			return
		}
		var pre []*ai.T
		if has == 1 {
			pre = listOf(st.Norm(old))
		} else if has == 0 {
			pre = nil
		}
		got := listOf(st.Norm(v))
		if len(got) != len(pre)+1 || !sameParts(got[:len(pre)], pre) || !got[len(pre)].Is("el") {
			x.fail(st, ins, "P07,P10", "edges", "the files that a file includes become %s", show(v))
			return
		}
		if !x.isFile(st, got[len(pre)].Args[0], "nedge") {
			x.fail(st, ins, "P07,P10", "edge-to", "the file that is recorded as included is not the next one")
		}
	}
}

// queued follows additions to the list of files that are to be parsed.
func (x *parseExplorer) queued(st *ai.State, addr, v *ai.T, ins ssa.Instruction) {
	old := listOf(st.Norm(st.Load(addr, v.Typ)))
	got := listOf(st.Norm(v))
	if len(got) != len(old)+1 || !sameParts(got[:len(old)], old) || !got[len(old)].Is("el") || !got[len(old)].Args[0].Is("struct") {
		x.fail(st, ins, "P07,R01", "queue-form", "the queue of files becomes %s", show(v))
		return
	}
	var path, ctx *ai.T
	el := got[len(old)].Args[0]
	ft := el.Typ.Underlying().(*types.Struct)
	for i := 0; i < ft.NumFields() && i < len(el.Args); i++ {
		if ft.Field(i).Type().Underlying().String() == "string" {
			path = st.Norm(el.Args[i])
		} else {
			ctx = st.Norm(el.Args[i])
		}
	}
	if !sameParts(listOf(ctx), listOf(x.ctx)) {
		x.fail(st, ins, "P07,P08,R01", "queue-ctx", "an included file is to be parsed in the context %s, not that of the include", show(ctx))
		return
	}
	if st.Ghost["que"] != nil && !x.registered(st, ins) {
		return
	}
	st.Ghost["que"] = path
}

// includes follows additions to the Includes of a directive.
func (x *parseExplorer) includes(st *ai.State, addr, v *ai.T, ins ssa.Instruction) {
	old := listOf(st.Norm(st.Load(addr, v.Typ)))
	got := listOf(st.Norm(v))
	if len(got) == 0 && len(old) == 0 {
		return
	}
	files, n := st.Ghost["files"], st.Ghost["ninc"]
	if len(got) != len(old)+1 || !sameParts(got[:len(old)], old) || !got[len(old)].Is("el") || files == nil || n == nil || n == done {
		x.fail(st, ins, "P07", "includes-form", "the Includes of a directive become %s", show(v))
		return
	}
	k := st.Norm(got[len(old)].Args[0])
	f := st.Norm(ai.App("index", types.Typ[types.String], st.Norm(files), st.Norm(n)))
	pt := rootType(x.p, "parser")
	s := pt.Underlying().(*types.Struct)
	ok := false
	for i := 0; i < s.NumFields(); i++ {
		mt, isMap := s.Field(i).Type().Underlying().(*types.Map)
		if !isMap || mt.Elem().Underlying().String() != "int" {
			continue
		}
		m := st.Load(ai.FieldAddr(x.self, i), s.Field(i).Type())
		cur := st.MapOf(m)
		if st.Eval(ai.App("mhas", types.Typ[types.Bool], cur, f)) == 1 && st.Eval(ai.Eq(k, st.Norm(ai.App("mget", mt.Elem(), cur, f)))) == 1 {
			ok = true
			x.incs[m] = true
		}
	}
	if !ok {
		x.fail(st, ins, "P07", "includes", "%s, which is added to the Includes of a directive, is not the number of the next included file", show(k))
		return
	}
	if !x.isFile(st, f, "ninc") {
		x.fail(st, ins, "P07", "includes-file", "a number is added to the Includes of a directive for a file that is not included")
		return
	}
	if x.registered(st, ins) {
		x.run.events["included"]++
	}
}

// included checks an include directive that is complete.
func (x *parseExplorer) included(st *ai.State, ins ssa.Instruction) bool {
	g := st.Ghost
	if !x.registered(st, ins) {
		return false
	}
	if st.Eval(ai.Eq(g["name"], ai.Str("include"))) != 1 {
		return true
	}
	files := g["files"]
	if files == nil {
		if st.Eval(x.opt(st, "SingleFile")) != 1 {
			x.fail(st, ins, "P07,P06", "unexpanded", "an include directive is not expanded although SingleFile may not be set")
			return false
		}
		return true
	}
	if files = st.Norm(files); !files.Is("list") && !files.Is("sorted") {
		x.fail(st, ins, "P07", "unsorted", "the files that match the pattern of an include are not sorted")
		return false
	}
	for k, what := range map[string]string{"ninc": "added to its Includes", "nedge": "recorded as included", "ndeg": "counted as included"} {
		n := g[k]
		if n == nil {
			n = ai.Int(0)
		}
		if n != done && st.Eval(ai.Eq(n, ai.Len(files))) != 1 {
			props := "P07,P10"
			if k == "ninc" {
				props = "P07"
			}
			x.fail(st, ins, props, "all-"+k, "not every file of an include is %s", what)
			return false
		}
	}
	return true
}

// store watches writes to directives that are complete.
func (x *parseExplorer) store(st *ai.State, addr, v *ai.T, typ types.Type, ins ssa.Instruction) {
	if f, ok := ins.(*ssa.Store); ok {
		if f, ok := f.Addr.(*ssa.FieldAddr); ok {
			t := f.X.Type().Underlying().(*types.Pointer).Elem()
			fld := t.Underlying().(*types.Struct).Field(f.Field)
			if isNamed(t, "parser") && fld.Type().Underlying().String() != "" {
				if sl, ok := fld.Type().Underlying().(*types.Slice); ok {
					if _, ok := sl.Elem().Underlying().(*types.Struct); ok {
						x.queued(st, addr, v, ins)
						return
					}
				}
			}
			if isNamed(t, "Directive") && fld.Name() == "Includes" {
				x.includes(st, addr, v, ins)
				return
			}
		}
	}
	a := addr
	for a.Is("field") {
		a = a.Args[0]
	}
	if a.K == ai.KObj || a == addr {
		return
	}
	if fa, ok := ins.(*ssa.Store); ok {
		if f, ok := fa.Addr.(*ssa.FieldAddr); ok && isNamed(f.X.Type(), "Directive") {
			x.fail(st, ins, "P09", "complete", "a directive that is complete is changed")
		}
	}
}

// ret is the end of the function.
func (x *parseExplorer) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	err := res[x.root.err]
	switch st.Eval(ai.Eq(err, ai.Nil)) {
	case 1:
		x.final = true
		x.finish(st, ins)
		x.final = false
		if st.Dead() {
			return
		}
		switch m := gs(st, "mode"); m {
		case "end":
		case "fail":
			switch gs(st, "why") {
			case "premature":
				x.fail(st, ins, "P02", "premature", "a statement that is cut off by the end of the file is not reported")
			case "lexer":
				x.fail(st, ins, "P02", "lexer", "an error of the lexer is lost")
			default:
				x.fail(st, ins, "P02", "block", "an error in a block is lost")
			}
			return
		default:
			x.fail(st, ins, "P01,P02", "early", "the function returns before the end of the block (%s)", m)
			return
		}
		if x.root.skip {
			return
		}
		list := st.Norm(res[x.root.list])
		if x.nonnil && st.Eval(ai.Eq(list, ai.Nil)) != -1 {
			x.fail(st, ins, "P01", "nil-list", "the list of a block may be nil")
			return
		}
		if !sameParts(listOf(list), listOf(st.Norm(st.Ghost["out"]))) {
			x.fail(st, ins, "P01", "result", "the list that is returned, %s, is not that of the statements of the block, %s", show(list), show(st.Ghost["out"]))
			return
		}
		x.run.events["return"]++
	case -1:
		if gs(st, "mode") == "fail" {
			x.failOk(st, err, ins)
			return
		}
		stop := st.Eval(x.opt(st, "StopParsingOnError"))
		if gs(st, "mode") == "term" {
			if gs(st, "an") == "err" && !gb(st, "reported") {
				if stop != 1 {
					x.fail(st, ins, "P03", "return", "an error in a statement ends the parsing although StopParsingOnError may not be set")
				} else if st.Norm(err) != st.Norm(st.Ghost["err"]) {
					x.fail(st, ins, "P02", "return-other", "the error that is returned is not the one that was found")
				}
				return
			}
			switch gs(st, "incl") {
			case "globerr":
				return
			case "openerr":
				if stop != 1 {
					x.fail(st, ins, "P03", "return-open", "an included file that cannot be opened ends the parsing although StopParsingOnError may not be set")
				} else {
					x.located(st, ins, err, st.Ghost["line"], nil, true)
				}
				return
			}
			if st.Eval(ai.Eq(st.Ghost["name"], ai.Str("include"))) == 1 && st.Eval(ai.Eq(ai.Len(st.Ghost["args"]), ai.Int(0))) == 1 {
				x.located(st, ins, err, st.Ghost["line"], nil, true)
				return
			}
		}
		x.fail(st, ins, "P02", "gives-up", "the parser returns an error where the input has none")
	default:
		x.fail(st, ins, "P02", "undecided", "it is not known whether the error that is returned is nil: %s", show(err))
	}
}

// located checks that an error is a ParseError of the file that is parsed, with a line and the block
// it is in. orig is the error that it must wrap, if any; stmt asks for the statement.
func (x *parseExplorer) located(st *ai.State, ins ssa.Instruction, err, line, orig *ai.T, stmt bool) bool {
	pt := rootType(x.p, "ParseError")
	s := pt.Underlying().(*types.Struct)
	err = st.Norm(err)
	o := err
	if strings.HasPrefix(err.Op, "iface:") {
		o = st.Norm(err.Args[0])
	}
	if !isNamed(deref(o.Typ), "ParseError") && !(o.K == ai.KObj && strings.HasPrefix(err.Op, "iface:*") && strings.HasSuffix(err.Op, "ParseError")) && !strings.HasPrefix(o.Op, "as:*") {
		x.fail(st, ins, "P12", "kind", "an error that ends the parsing of a file, %s, is not a ParseError", show(err))
		return false
	}
	get := func(name string) *ai.T {
		i := fieldIndex(pt, name)
		return st.Norm(st.Load(ai.FieldAddr(o, i), s.Field(i).Type()))
	}
	bad := func(key, f string, a ...interface{}) bool {
		x.fail(st, ins, "P12", key, f, a...)
		return false
	}
	file := get("File")
	if file.K == ai.KNil || st.Eval(ai.Eq(st.Load(file, types.Typ[types.String]), x.cfgFile(st))) != 1 {
		return bad("file", "the file of an error is %s, not the file that is parsed", show(file))
	}
	if line != nil {
		l := get("Line")
		if l.K == ai.KNil || st.Eval(ai.Eq(st.Load(l, types.Typ[types.Int]), line)) != 1 {
			return bad("line", "the line of an error is %s, not %s", show(l), show(line))
		}
	}
	var want *ai.T
	switch st.Eval(ai.Le(ai.Int(1), ai.Len(x.ctx))) {
	case 1:
		want = st.Load(ai.ElemAddr(x.ctx, ai.Add(ai.Len(x.ctx), -1)), types.Typ[types.String])
	case -1:
		want = ai.Str("main")
	default:
		return bad("block", "the block of an error does not tell the main context apart")
	}
	if b := get("BlockCtx"); st.Eval(ai.Eq(b, want)) != 1 {
		return bad("block", "the block of an error is %s, not %s", show(b), show(want))
	}
	if stmt {
		if t := get("Statement"); t.K != ai.KSym || t.Op != "statement" {
			return bad("statement", "the statement of an error is %s", show(t))
		}
	}
	if orig != nil {
		if t := get("originalErr"); t != st.Norm(orig) {
			return bad("wraps", "an error wraps %s, not %s", show(t), show(orig))
		}
	}
	x.run.events["located"]++
	return true
}

// wraps tells whether a ParseError wraps an error.
func (x *parseExplorer) wraps(st *ai.State, err, orig *ai.T) bool {
	err = st.Norm(err)
	if !strings.HasPrefix(err.Op, "iface:") || orig == nil {
		return false
	}
	pt := rootType(x.p, "ParseError")
	i := fieldIndex(pt, "originalErr")
	return i >= 0 && st.Norm(st.Load(ai.FieldAddr(err.Args[0], i), pt.Underlying().(*types.Struct).Field(i).Type())) == st.Norm(orig)
}

// premature is the error for a file that ends within a statement.
func (x *parseExplorer) premature(st *ai.State) *ai.T {
	g, ok := x.p.RootSSA.Members["ErrPrematureLexEnd"].(*ssa.Global)
	if !ok {
		return nil
	}
	return st.Load(ai.Named("&"+g.String(), g.Type()), g.Type().(*types.Pointer).Elem())
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// failOk checks the error that is returned where the parsing of a file fails.
func (x *parseExplorer) failOk(st *ai.State, err *ai.T, ins ssa.Instruction) {
	switch gs(st, "why") {
	case "lexer":
		// a statement that is cut off by the error may be reported instead
		if l := st.Ghost["sline"]; l != nil && x.wraps(st, err, x.premature(st)) {
			x.located(st, ins, err, l, nil, false)
			return
		}
		// a ParseError of the lexer has its own line (L02); other errors get that of the token
		lex := st.Norm(st.Ghost["err"])
		is := st.Norm(ai.App("is:"+types.NewPointer(rootType(x.p, "ParseError")).String(), types.Typ[types.Bool], lex))
		if st.Eval(is) == 1 {
			x.located(st, ins, err, nil, nil, false)
		} else {
			x.located(st, ins, err, st.Ghost["line"], lex, false)
		}
	case "premature":
		x.located(st, ins, err, st.Ghost["line"], x.premature(st), false)
	case "block":
		if st.Norm(err) != st.Norm(st.Ghost["err"]) {
			x.fail(st, ins, "P02", "block-other", "the error of a block is replaced by another one")
		}
	}
}

func parseCheck(prop string, rules ...string) func(p *load.Prog, r *rep.R) {
	return func(p *load.Prog, r *rep.R) {
		run := parseAll(p)
		r.Technique = "abstract interpretation of the parser in product with a reference parser, modular over recursion"
		r.Explanation = "Every recursive function that reads the tokens of the lexer is interpreted abstractly to a fixpoint, in product with a reference parser that reads the same tokens; a recursive call is replaced by the contract of the reference parser for a block, so that every nesting depth and length is covered. Tokens are a separator, a comment, a word, a quoted string, an error or the end."
		parseReport(run, r, prop, rules)
	}
}

func parseReport(run *parseRun, r *rep.R, prop string, rules []string) {
	for _, x := range rules {
		r.Rule("%s", x)
	}
	for k := range run.assumes {
		r.Assume("%s", k)
	}
	for _, c := range run.cut {
		r.Cut(c)
	}
	r.Count("abstract states", run.states)
	r.Count("functions", len(run.roots))
	for k, n := range run.events {
		r.Count("events "+k, n)
		for i := 0; i < n; i++ {
			r.OK()
		}
	}
	for _, s := range run.samples {
		r.Sample("%s", s)
	}
	for _, q := range run.problems {
		if q.prop == prop {
			r.FailTrace(q.key, q.pos, q.trace, "%s", q.msg)
		} else {
			r.Masked(q.prop, q.key)
		}
	}
	r.Floor("abstract states", 50)
}

func init() {
	register("P01", parseCheck("P01", "blocks are parsed or skipped exactly to their closing brace and their statements become the Block of their directive"))
	register("P02", parseCheck("P02", "an error that is found is returned or reported, once; nothing else is"))
	register("P03", parseCheck("P03", "StopParsingOnError decides whether an error is returned or reported"))
	register("P04", parseCheck("P04", "comments are kept, as read, exactly when ParseComments is set"))
	register("P05", parseCheck("P05", "ignored directives are left out with their blocks, without being analysed"))
	register("P06", parseCheck("P06", "included files are accessed with the functions of the options, and not at all with SingleFile"))
	register("P07", parseCheck("P07", "every file of an include is numbered, queued and recorded once"))
	register("P08", parseCheck("P08", "statements are analysed in the context of the blocks around them"))
	register("P12", parseCheck("P12", "errors are ParseErrors that name the file, the line and the block"))
	register("P09", parseCheck("P09", "directives have the name, line, arguments and file that were read"))
}
