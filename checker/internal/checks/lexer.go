package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"
	"unicode"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"

	"golang.org/x/tools/go/ssa"
)

// The lexer is decided as a product: its abstract states are explored together with a reference
// transducer, written below from the lexical rules, that reads the same characters. At every send
// on the token channel the token is compared with the next token that the transducer expects.

// problem is a disagreement between the lexer and the rules.
type problem struct {
	prop, key, pos, msg string
	trace               []string
}

type lexRun struct {
	problems []problem
	states   int
	chars    int
	sends    int
	oblig    int
	events   map[string]int
	samples  []string
	cut      []string
}

var lexRuns = map[*load.Prog]*lexRun{}

// alphabet returns one representative per class of characters that the lexer can tell apart.
func alphabet(p *load.Prog, fns map[*ssa.Function]bool) []*ai.T {
	cs := map[string]bool{"\n": true, "\r": true, " ": true, "\\": true, "#": true, "$": true, "{": true, "}": true, ";": true, `"`: true, "'": true}
	add := func(s string) {
		if n := len([]rune(s)); n >= 1 && n <= 2 {
			for _, c := range s {
				cs[string(c)] = true
			}
		}
	}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					switch c.Value.Kind() {
					case constant.String:
						add(constant.StringVal(c.Value))
					case constant.Int:
						if b, ok := c.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Rune || b.Kind() == types.Byte) {
							if i, ok := constant.Int64Val(c.Value); ok && i > 0 && i < 0x10ffff {
								add(string(rune(i)))
							}
						}
					}
				}
			}
		}
	}
	var ks []string
	for k := range cs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*ai.T
	for _, k := range ks {
		r = append(r, ai.Str(k))
	}
	return r
}

// suffixes are the characters that the ends of strings are compared with.
func suffixes(fns map[*ssa.Function]bool) map[string]bool {
	m := map[string]bool{"$": true}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "strings.HasSuffix" {
					continue
				}
				if k, ok := c.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
					if s := constant.StringVal(k.Value); s != "" {
						r := []rune(s)
						m[string(r[len(r)-1])] = true
					}
				}
			}
		}
	}
	return m
}

var (
	alphabets = map[string]int{}
	classes   = map[string]*ai.Class{}
)

// class gives a class of characters or words of an alphabet a name of its own, and makes it once: classes
// are told apart by their names in the values and by their identity here.
func class(name string, known map[string]bool, c *ai.Class) *ai.Class {
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	j := strings.Join(ks, "\x00")
	n, ok := alphabets[j]
	if !ok {
		n = len(alphabets)
		alphabets[j] = n
	}
	if n > 0 {
		name = fmt.Sprint(name, "'", n)
	}
	if old := classes[name]; old != nil {
		return old
	}
	c.Name = name
	classes[name] = c
	return c
}

// wordClasses are the non-empty strings, told apart by their last character where it is asked for.
func wordClasses(ends map[string]bool) func(last *ai.T) *ai.Class {
	end := func(s string) string {
		r := []rune(s)
		return string(r[len(r)-1])
	}
	m := map[string]*ai.Class{}
	for k := range ends {
		k := k
		m[k] = class("ends in "+k, ends, &ai.Class{MinLen: 1,
			MayEq: func(s string) bool { return s != "" && end(s) == k },
			Suffix: func(s string) int {
				if s == k {
					return 1
				} else if s != "" && end(s) != k {
					return -1
				}
				return 0
			}})
	}
	other := class("other word", ends, &ai.Class{MinLen: 1,
		MayEq: func(s string) bool { return s != "" && !ends[end(s)] },
		Suffix: func(s string) int {
			if s != "" && ends[end(s)] {
				return -1
			}
			return 0
		}})
	any := class("any word", ends, &ai.Class{MinLen: 1, MayEq: func(s string) bool { return s != "" }})
	return func(last *ai.T) *ai.Class {
		if s, ok := last.IsStr(); ok {
			if c := m[end(s)]; c != nil {
				return c
			}
			return other
		}
		if c := last.Cls; c != nil {
			if !c.Char {
				return c
			}
			for k := range ends {
				if c.MayEq == nil || c.MayEq(k) {
					return any
				}
			}
			return other
		}
		return any
	}
}

// charClasses are the characters that are none of the constants.
func charClasses(consts []*ai.T) (space, other *ai.Class) {
	known := map[string]bool{}
	for _, c := range consts {
		s, _ := c.IsStr()
		known[s] = true
	}
	space = class("otherspace", known, &ai.Class{Char: true, Space: true, MayEq: func(s string) bool {
		r := []rune(s)
		return len(r) == 1 && unicode.IsSpace(r[0]) && !known[s]
	}})
	other = class("other", known, &ai.Class{Char: true, MayEq: func(s string) bool {
		r := []rune(s)
		return len(r) == 1 && !unicode.IsSpace(r[0]) && !known[s]
	}})
	return
}

// fieldIndex returns the index of a struct field, or -1.
func fieldIndex(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// fieldVal returns a field of a struct value.
func fieldVal(st *ai.State, v *ai.T, t types.Type, name string) *ai.T {
	i := fieldIndex(t, name)
	if i < 0 {
		return nil
	}
	if v.Is("struct") {
		return v.Args[i]
	}
	return ai.App("fieldof", t.Underlying().(*types.Struct).Field(i).Type(), v, ai.Int(int64(i)))
}

// rootType returns a named type of the root package.
func rootType(p *load.Prog, name string) types.Type {
	if o := p.Root.Types.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

// lexAll explores the lexer once.
func lexAll(p *load.Prog) *lexRun {
	if r, ok := lexRuns[p]; ok {
		return r
	}
	run := &lexRun{events: map[string]int{}}
	lexRuns[p] = run
	x := &lexExplorer{p: p, run: run}
	x.explore()
	return run
}

type lexExplorer struct {
	p          *load.Prog
	run        *lexRun
	e          *ai.Engine
	consts     []*ai.T
	space      *ai.Class
	other      *ai.Class
	tokT       types.Type
	reader     *ai.T
	goroutines []goroutine
	bad        map[string]bool
}

type goroutine struct {
	st   *ai.State
	fn   *ssa.Function
	args []*ai.T
	bind []*ai.T
}

func (x *lexExplorer) fail(st *ai.State, ins ssa.Instruction, prop, key, f string, a ...interface{}) {
	if x.bad == nil {
		x.bad = map[string]bool{}
	}
	ps := "-"
	if ins != nil {
		ps = pos(x.p, ins)
	}
	k := prop + key
	if x.bad[k] {
		if len(st.Frames) > 0 && gs(st, "phase") == "lex" {
			st.Kill()
		}
		return
	}
	x.bad[k] = true
	q := problem{prop, key, ps, fmt.Sprintf(f, a...), st.Path()}
	if x.e.Debug {
		fmt.Println("PROBLEM", q.prop, q.key, q.pos, q.msg)
		for _, l := range q.trace {
			fmt.Println("    ", l)
		}
		fmt.Print(st.Dump())
	}
	x.run.problems = append(x.run.problems, q)
	if Only == prop {
		x.e.Stop = true
	}
	if st != nil && len(st.Frames) > 0 && gs(st, "phase") == "lex" {
		st.Kill() // what follows from a disagreement is not reported too
	}
}

var lexProps = []string{"L01", "L02", "L03", "L04", "L05", "L06"}

func (x *lexExplorer) failAll(key, f string, a ...interface{}) {
	for _, pr := range lexProps {
		x.run.problems = append(x.run.problems, problem{pr, key, "-", fmt.Sprintf(f, a...), nil})
	}
}

// ghost accessors
func gs(st *ai.State, k string) string {
	if t := st.Ghost[k]; t != nil {
		s, _ := t.IsStr()
		return s
	}
	return ""
}

func gb(st *ai.State, k string) bool { return st.Ghost[k] == ai.True }

func (x *lexExplorer) explore() {
	p := x.p
	entry := p.Func("LexWithOptions")
	x.tokT = rootType(p, "NgxToken")
	if entry == nil || x.tokT == nil {
		x.failAll("anchor", "LexWithOptions or NgxToken is gone")
		return
	}
	reach := reachable(p, entry)
	x.consts = alphabet(p, reach)
	x.space, x.other = charClasses(x.consts)
	x.run.chars = len(x.consts) + 2

	e := newEngine(p)
	x.e = e
	e.ConstLimit = -1
	e.OffLimit = 0
	e.StrLimit = 4
	e.DiffLimit = 2
	e.LowLimit = 1
	e.HeaderScale = func(st *ai.State) int {
		if gs(st, "phase") == "lex" {
			return 200 // the lexer is widened where it reads
		}
		return 1
	}
	e.MaxStates = 2000000
	e.WidenGhost = func(k string) bool { return k == "tok" || k == "line" || k == "start" || k == "depth" }
	e.Debug = os.Getenv("AIDEBUG") != ""
	e.WordClass = wordClasses(suffixes(reach))
	e.Module = lexModule(p)
	e.Call = x.call
	e.Go = func(st *ai.State, c *ai.CallInfo) {
		n := st.Clone()
		var binds []*ai.T
		if c.Callee != nil && c.Callee.K == ai.KFunc {
			binds = c.Callee.Args
		}
		if c.Fn == nil {
			x.fail(st, c.Instr, "L01", "goroutine", "the lexer goroutine cannot be resolved")
			return
		}
		st.Ghost["go"] = ai.Add(st.Ghost["go"], 1)
		x.goroutines = append(x.goroutines, goroutine{n, c.Fn, c.Args, binds})
	}
	e.Return = func(st *ai.State, res []*ai.T, ins ssa.Instruction) {
		if gs(st, "phase") == "" {
			// LexWithOptions returns the channel that the goroutine sends on
			if n, ok := st.Ghost["go"].IsInt(); !ok || n != 1 {
				x.fail(st, ins, "L04", "goroutines", "LexWithOptions starts %s goroutines on this path, not one", st.Ghost["go"])
			}
			if len(res) != 1 || !strings.HasPrefix(res[0].Op, "newchan") {
				x.fail(st, ins, "L04", "channel", "LexWithOptions does not return the new token channel")
			}
			return
		}
		x.run.events["ends"]++
		if !gb(st, "closed") {
			x.fail(st, ins, "L04", "unclosed", "the lexer returns without closing the token channel")
		}
	}
	e.Recursive = func(st *ai.State, c *ai.CallInfo) []ai.Outcome {
		x.fail(st, c.Instr, "L01", "recursion", "recursion in the lexer is not analysed")
		return nil
	}
	e.Imprecise = func(st *ai.State, what string, ins ssa.Instruction) {
		x.fail(st, ins, "L01", "undecided:"+what, "undecided: %s", what)
	}
	e.Ext = func(st *ai.State, c *ai.CallInfo) {
		if gs(st, "phase") == "lex" {
			x.fail(st, c.Instr, "L01", "call:"+c.Name, "the effect of calling %s in the lexer is not known", c.Name)
		}
	}
	e.Send = x.send
	e.Recv = x.recv
	e.OnLookup = x.lookup
	e.Obligation = func(st *ai.State, kind string, ok bool, ins ssa.Instruction, d string) {
		x.run.oblig++
		watch(p, st, kind, ok, ins, d)
		if !ok && kind != "nil" {
			x.fail(st, ins, "L04", kind, "the lexer may stop with a run-time panic: %s", d)
		}
	}

	st := ai.NewState(e)
	st.Ghost["go"] = ai.Int(0)
	x.reader = ai.Named("reader", entry.Params[0].Type())
	as := []*ai.T{x.reader}
	for _, q := range entry.Params[1:] {
		as = append(as, namedOf(q.Name(), q.Type()))
	}
	e.Start(st, entry, as, nil)
	e.Run(st)
	if len(x.goroutines) == 0 {
		x.failAll("anchor", "LexWithOptions starts no goroutine")
		return
	}
	for _, g := range x.goroutines {
		n := g.st
		n.Frames = nil
		n.ResetOwnership()
		n.Forget(nil)
		n.Ghost = map[string]*ai.T{}
		n.Ghost["phase"] = ai.Str("lex")
		n.Ghost["state"] = ai.Str("space")
		n.Ghost["tok"] = ai.Str("")
		n.Ghost["line"] = ai.Int(1)
		n.Ghost["start"] = ai.Int(1)
		n.Ghost["quote"] = ai.Str("")
		n.Ghost["esc"] = ai.False
		n.Ghost["dup"] = ai.True
		n.Ghost["dir"] = ai.True
		n.Ghost["depth"] = ai.Int(0)
		n.Ghost["ext"] = ai.Str("")
		n.Ghost["closed"] = ai.False
		n.Ghost["end"] = ai.Str("")
		n.Ghost["q"] = ai.Int(0)
		n.Enter(g.fn, g.args, g.bind, nil)
		e.Run(n)
	}
	x.run.states = len(e.Visited)
	if len(x.run.problems) > 0 {
		return
	}
	if e.Overflow {
		x.run.cut = append(x.run.cut, "the lexer")
		return
	}
	for _, k := range []string{"token", "quoted", "error", "comment", "ext", "eof", "readerr"} {
		if x.run.events[k] == 0 {
			x.failAll("vacuous:"+k, "no execution with the event %q was found", k)
		}
	}
}

// lexModule are the functions that are interpreted in the lexer: all of the module but the
// external lexers, which are called through the Lexer interface.
func lexModule(p *load.Prog) func(*ssa.Function) bool { return inModule(p) }

// reachable returns the module functions that can be reached from fn by static calls, closures
// and go statements.
func reachable(p *load.Prog, fns ...*ssa.Function) map[*ssa.Function]bool {
	in := inModule(p)
	m := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || m[f] || !in(f) {
			return
		}
		m[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						visit(v)
					case *ssa.MakeClosure:
						visit(v.Fn.(*ssa.Function))
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range fns {
		visit(f)
	}
	return m
}

const maxQueue = 3

// expect appends an expected token. kind is "tok" or "err".
func (x *lexExplorer) expect(st *ai.State, ins ssa.Instruction, kind string, val, quoted, line *ai.T) {
	n, _ := st.Ghost["q"].IsInt()
	if n >= maxQueue {
		x.fail(st, ins, "L01", "late", "a token that is complete is not sent before more input is read: %s", show(val))
		st.Kill()
		return
	}
	k := fmt.Sprintf("q%d.", n)
	st.Ghost[k+"kind"] = ai.Str(kind)
	st.Ghost[k+"val"] = val
	st.Ghost[k+"quoted"] = quoted
	st.Ghost[k+"line"] = line
	st.Ghost["q"] = ai.Int(n + 1)
}

func (x *lexExplorer) pop(st *ai.State) (kind string, val, quoted, line *ai.T, ok bool) {
	n, _ := st.Ghost["q"].IsInt()
	if n == 0 {
		return
	}
	kind, _ = st.Ghost["q0.kind"].IsStr()
	val, quoted, line = st.Ghost["q0.val"], st.Ghost["q0.quoted"], st.Ghost["q0.line"]
	for i := int64(0); i < n; i++ {
		for _, f := range []string{"kind", "val", "quoted", "line"} {
			to, from := fmt.Sprintf("q%d.%s", i, f), fmt.Sprintf("q%d.%s", i+1, f)
			if i+1 < n {
				st.Ghost[to] = st.Ghost[from]
			} else {
				delete(st.Ghost, to)
			}
		}
	}
	st.Ghost["q"] = ai.Int(n - 1)
	return kind, val, quoted, line, true
}

func show(t *ai.T) string {
	s := t.String()
	if len(s) > 100 {
		s = s[:100] + "..."
	}
	return s
}

// read feeds one character to the transducer.
func (x *lexExplorer) read(st *ai.State, ins ssa.Instruction, c *ai.T) {
	set := func(k string, v *ai.T) { st.Ghost[k] = v }
	is := func(s string) bool { return c == ai.Str(s) }
	if is("\n") {
		set("line", ai.Add(st.Ghost["line"], 1))
		set("dir", ai.True)
	}
	if is("\r") {
		return
	}
	unit := c
	if gb(st, "esc") {
		set("esc", ai.False)
		unit = ai.Cat(ai.Str(`\`), c)
	} else if is(`\`) {
		set("esc", ai.True)
		return
	}
	x.unit(st, ins, unit, c)
}

// unit feeds a character, or a backslash with the character after it.
func (x *lexExplorer) unit(st *ai.State, ins ssa.Instruction, u, c *ai.T) {
	set := func(k string, v *ai.T) { st.Ghost[k] = v }
	plain := u == c
	isU := func(s string) bool { return plain && u == ai.Str(s) }
	special := isU("{") || isU("}") || isU(";")
	isSp := plain && (u == ai.Str("\n") || u == ai.Str(" ") || u.Cls == x.space || constSpace(u))
	ends := c == ai.Str("\n") // also after a backslash
	tok := st.Ghost["tok"]
	state := gs(st, "state")

	// a complete word or quoted string in the position of a directive may be handed to an external lexer
	done := state == "word" && (isSp || special) || state == "quote" && u == st.Ghost["quote"]
	if tok != ai.Str("") && gb(st, "dir") && done {
		set("ext", ai.Str("ask"))
		set("extunit", u)
		return
	}
	x.unit2(st, ins, u, c, state, isSp, special, ends)
}

func constSpace(u *ai.T) bool {
	s, ok := u.IsStr()
	return ok && strings.TrimSpace(s) == ""
}

func (x *lexExplorer) unit2(st *ai.State, ins ssa.Instruction, u, c *ai.T, state string, isSp, special, ends bool) {
	set := func(k string, v *ai.T) { st.Ghost[k] = v }
	plain := u == c
	isU := func(s string) bool { return plain && u == ai.Str(s) }
	tok := st.Ghost["tok"]
	emit := func(quoted bool) {
		x.expect(st, ins, "tok", st.Ghost["tok"], ai.Bool(quoted), st.Ghost["start"])
		set("tok", ai.Str(""))
		set("state", ai.Str("space"))
	}
	first := false
	if state == "space" {
		if isSp {
			return
		}
		state = "word"
		set("state", ai.Str("word"))
		set("start", st.Ghost["line"])
		first = true
	}
	switch state {
	case "word":
		switch {
		case first && isU("#"):
			set("tok", u)
			set("dir", ai.False)
			set("state", ai.Str("comment"))
		case isSp:
			emit(false)
			set("dir", ai.False)
		case isU("{") && x.decide(st, ai.App("hassuffix", types.Typ[types.Bool], tok, ai.Str("$"))):
			set("dir", ai.False)
			set("tok", ai.Cat(tok, u))
			set("state", ai.Str("var"))
			set("dup", ai.False)
		case isU(`"`) || isU("'"):
			if tok == ai.Str("") {
				set("quote", u)
				set("state", ai.Str("quote"))
				set("start", st.Ghost["line"])
			} else {
				set("tok", ai.Cat(tok, u))
			}
			set("dup", ai.False)
		case special:
			if tok != ai.Str("") {
				emit(false)
			}
			if gb(st, "dup") && !isU("}") {
				x.expect(st, ins, "err", ai.Nil, ai.Nil, st.Ghost["line"])
				set("end", ai.Str("error"))
				return
			}
			set("dup", ai.True)
			if isU("{") {
				set("depth", ai.Add(st.Ghost["depth"], 1))
			}
			if isU("}") {
				if x.decide(st, ai.Le(st.Ghost["depth"], ai.Int(0))) {
					x.expect(st, ins, "err", ai.Nil, ai.Nil, st.Ghost["line"])
					set("end", ai.Str("error"))
					return
				}
				set("depth", ai.Add(st.Ghost["depth"], -1))
			}
			set("tok", u)
			emit(false)
			set("dir", ai.True)
		default:
			set("dup", ai.False)
			set("tok", ai.Cat(tok, u))
		}
	case "comment":
		if ends {
			x.run.events["comment"]++
			emit(false)
			return
		}
		set("tok", ai.Cat(tok, u))
	case "var":
		set("tok", ai.Cat(tok, u))
		if isSp || c == ai.Str("}") {
			set("state", ai.Str("word"))
		}
	case "quote":
		q := st.Ghost["quote"]
		switch {
		case u == q:
			emit(true)
		case !plain && c == q:
			set("tok", ai.Cat(tok, q))
		default:
			set("tok", ai.Cat(tok, u))
		}
	}
}

// decide evaluates a condition of the transducer; the state must already be split on it.
func (x *lexExplorer) decide(st *ai.State, c *ai.T) bool {
	switch st.Eval(c) {
	case 1:
		return true
	case -1:
		return false
	}
	panic(undecided{c})
}

type undecided struct{ c *ai.T }

// extAnswer continues after it is known whether an external lexer is registered for the token.
func (x *lexExplorer) extAnswer(st *ai.State, ins ssa.Instruction) {
	u := st.Ghost["extunit"]
	delete(st.Ghost, "extunit")
	c := u
	state := gs(st, "state")
	special := u == ai.Str("{") || u == ai.Str("}") || u == ai.Str(";")
	isSp := u.Cls == x.space || constSpace(u)
	if gs(st, "ext") == "no" {
		st.Ghost["ext"] = ai.Str("")
		x.unit2(st, ins, u, c, state, isSp, special, u == ai.Str("\n"))
		return
	}
	// hand over
	x.expect(st, ins, "tok", st.Ghost["tok"], ai.Bool(state == "quote"), st.Ghost["start"])
	st.Ghost["exttok"] = st.Ghost["tok"]
	st.Ghost["tok"] = ai.Str("")
	st.Ghost["state"] = ai.Str("space")
	st.Ghost["ext"] = ai.Str("call")
	if state == "quote" {
		st.Ghost["extunit"] = ai.Nil
	} else {
		st.Ghost["extunit"] = u
	}
}

func (x *lexExplorer) lookup(st *ai.State, m, k *ai.T, has bool, v *ai.T, ins *ssa.Lookup) {
	if gs(st, "phase") != "lex" {
		return
	}
	mt, ok := ins.X.Type().Underlying().(*types.Map)
	if !ok || !isNamed(mt.Elem(), "Lexer") {
		return
	}
	if gs(st, "ext") != "ask" || st.Norm(k) != st.Norm(st.Ghost["tok"]) {
		return
	}
	if has {
		st.Ghost["ext"] = ai.Str("yes")
		st.Ghost["extlexer"] = v
	} else {
		st.Ghost["ext"] = ai.Str("no")
	}
	x.guard(st, ins, func() { x.extAnswer(st, ins) })
}

func isNamed(t types.Type, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == load.ModPath
}

// guard runs a step of the transducer; a condition that it cannot decide is reported.
func (x *lexExplorer) guard(st *ai.State, ins ssa.Instruction, f func()) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			x.fail(st, ins, "L01", "undecided", "undecided: %s", u.c)
			st.Kill()
		}
	}()
	f()
}

func (x *lexExplorer) call(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	one := func(r *ai.T) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Res: r}}, true }
	switch c.Name {
	case "bufio.NewScanner":
		o := st.FreshObj("newscanner", c.Typ)
		if c.Args[0] != x.reader {
			x.fail(st, c.Instr, "L05", "reader", "the scanner does not read from the reader that was passed: %s", c.Args[0])
		}
		st.Ghost["scanner"] = o
		return one(o)
	case "(*bufio.Scanner).Split":
		f := c.Args[1]
		if f.K != ai.KFunc || f.Fn.String() != "bufio.ScanRunes" {
			x.fail(st, c.Instr, "L01", "split", "the scanner is split by %s, not by bufio.ScanRunes", f)
		}
		st.Ghost["split"] = ai.True
		return one(ai.Nil)
	case "(*bufio.Scanner).Buffer":
		return one(ai.Nil)
	case "(*bufio.Scanner).Err":
		if gs(st, "end") == "readerr" {
			return one(ai.Named("!readerr", errT))
		}
		return one(ai.Nil)
	case "(*bufio.Scanner).Text":
		if t := st.Ghost["char"]; t != nil {
			return one(t)
		}
		return one(ai.Str(""))
	case "(*bufio.Scanner).Scan":
		return x.scan(st, c)
	}
	if c.Common.IsInvoke() && c.Common.Method.Name() == "Lex" && isNamed(c.Common.Value.Type(), "Lexer") {
		return x.extCall(st, c)
	}
	return nil, false
}

func (x *lexExplorer) scan(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	if !gb(st, "split") || st.Ghost["scanner"] == nil || c.Args[0] != st.Ghost["scanner"] {
		x.fail(st, c.Instr, "L01", "scanner", "the input is not scanned by the scanner of the reader, rune by rune")
	}
	switch gs(st, "ext") {
	case "ask":
		x.fail(st, c.Instr, "L06", "not-asked", "the token %s in the position of a directive is complete, but no external lexer is looked up for it", show(st.Ghost["tok"]))
		st.Kill()
		return nil, true
	case "call", "calling":
		x.fail(st, c.Instr, "L06", "not-called", "an external lexer is registered for the token %s, but more input is read before it is used", show(st.Ghost["exttok"]))
		st.Kill()
		return nil, true
	}
	if e := gs(st, "end"); e == "error" {
		x.fail(st, c.Instr, "L03", "continues", "more input is read where an error must end the lexing: %s", show(x.head(st)))
		st.Kill()
		return nil, true
	} else if e != "" {
		// Scan keeps returning false
		return []ai.Outcome{{St: st, Res: ai.False}}, true
	}
	// which names external lexers are registered for is asked again for every token
	st.Forget(func(t *ai.T) bool { return t.Is("mhas") || t.Is("mget") })
	x.e.Widen(st, "scan")
	var out []ai.Outcome
	var all []*ai.T
	all = append(all, x.consts...)
	all = append(all, nil, nil)
	// the depth of braces is needed for "}"
	for i, ch := range all {
		n := st.Clone()
		if ch == nil {
			if i == len(all)-2 {
				ch = n.FreshCls("c", types.Typ[types.String], x.space)
			} else {
				ch = n.FreshCls("c", types.Typ[types.String], x.other)
			}
		}
		var ns []*ai.State
		if ch == ai.Str("}") {
			y, no := n.Split(ai.Le(n.Ghost["depth"], ai.Int(0)))
			ns = append(ns, y, no)
		} else if ch == ai.Str("{") {
			y, no := n.Split(ai.App("hassuffix", types.Typ[types.Bool], n.Ghost["tok"], ai.Str("$")))
			ns = append(ns, y, no)
		} else {
			ns = append(ns, n)
		}
		for _, s := range ns {
			if s == nil || s.Dead() {
				continue
			}
			s.Ghost["char"] = ch
			s.Note(fmt.Sprintf("the next character is %s", ch))
			x.guard(s, c.Instr, func() { x.read(s, c.Instr, ch) })
			if !s.Dead() {
				out = append(out, ai.Outcome{St: s, Res: ai.True})
			}
		}
	}
	for _, end := range []string{"eof", "readerr"} {
		n := st.Clone()
		x.run.events[end]++
		n.Ghost["end"] = ai.Str(end)
		delete(n.Ghost, "char")
		n.Note("the input ends: " + end)
		if n.Ghost["tok"] != ai.Str("") {
			x.expect(n, c.Instr, "tok", n.Ghost["tok"], ai.Bool(gs(n, "state") == "quote"), n.Ghost["start"])
			n.Ghost["tok"] = ai.Str("")
		}
		if end == "readerr" {
			x.expect(n, c.Instr, "readerr", ai.Nil, ai.Nil, n.Ghost["line"])
			out = append(out, ai.Outcome{St: n, Res: ai.False})
			continue
		}
		y, no := n.Split(ai.Le(n.Ghost["depth"], ai.Int(0)))
		if no != nil && !no.Dead() {
			x.expect(no, c.Instr, "err", ai.Nil, ai.Nil, no.Ghost["line"])
			out = append(out, ai.Outcome{St: no, Res: ai.False})
		}
		if y != nil && !y.Dead() {
			out = append(out, ai.Outcome{St: y, Res: ai.False})
		}
	}
	st.Kill()
	return out, true
}

func (x *lexExplorer) head(st *ai.State) *ai.T {
	if v := st.Ghost["q0.val"]; v != nil {
		return v
	}
	return ai.Nil
}

// send compares a token with the next expected one; v is nil when the channel is closed.
func (x *lexExplorer) send(st *ai.State, ch, v *ai.T, ins ssa.Instruction) {
	if gs(st, "phase") != "lex" {
		return
	}
	if gs(st, "ext") == "ask" && v != nil {
		x.fail(st, ins, "L06", "not-asked", "the token %s in the position of a directive is complete, but it is sent before an external lexer is looked up for it", show(st.Ghost["tok"]))
		st.Kill()
		return
	}
	if gb(st, "closed") {
		x.fail(st, ins, "L04", "after-close", "the token channel is used after it was closed")
		st.Kill()
		return
	}
	if v == nil {
		if n, _ := st.Ghost["q"].IsInt(); n > 0 {
			kind := gs(st, "q0.kind")
			switch kind {
			case "err":
				x.fail(st, ins, "L03", "missing", "the channel is closed without an error token where the input is invalid (line %s)", st.Ghost["q0.line"])
			case "readerr":
				x.fail(st, ins, "L05", "missing", "the channel is closed without an error token although reading the input failed")
			default:
				x.fail(st, ins, "L01", "missing", "the channel is closed but the token %s was not sent", show(st.Ghost["q0.val"]))
			}
			st.Kill()
			return
		}
		if gs(st, "end") == "" {
			x.fail(st, ins, "L04", "early", "the token channel is closed although there is more input")
			st.Kill()
			return
		}
		st.Ghost["closed"] = ai.True
		return
	}
	x.run.sends++
	t := x.tokT
	val, line, quoted, err := fieldVal(st, v, t, "Value"), fieldVal(st, v, t, "Line"), fieldVal(st, v, t, "IsQuoted"), fieldVal(st, v, t, "Error")
	if val == nil || line == nil || quoted == nil || err == nil {
		x.failAll("anchor", "NgxToken has no Value, Line, IsQuoted and Error")
		st.Kill()
		return
	}
	kind, ev, eq, el, ok := x.pop(st)
	if !ok {
		if err != ai.Nil {
			x.fail(st, ins, "L03", "unexpected", "an error is sent where the input is valid")
		} else {
			x.fail(st, ins, "L01", "unexpected", "the token %s is sent where no token is complete", show(val))
		}
		st.Kill()
		return
	}
	if kind == "raw" {
		if st.Norm(v) != st.Norm(ev) {
			x.fail(st, ins, "L06", "forward", "a token of the external lexer is not forwarded as it is")
			st.Kill()
		}
		return
	}
	if kind == "err" || kind == "readerr" {
		prop := "L03"
		if kind == "readerr" {
			prop = "L05"
		}
		if err == ai.Nil {
			x.fail(st, ins, prop, "no-error", "the token %s is sent where an error must be reported (line %s)", show(val), el)
			st.Kill()
			return
		}
		x.run.events["error"]++
		// the line of the error
		if strings.HasPrefix(err.Op, "iface:") && err.K == ai.KApp && strings.Contains(err.Op, "ParseError") {
			pt := rootType(x.p, "ParseError")
			obj := err.Args[0]
			get := func(f string) *ai.T {
				i := fieldIndex(pt, f)
				return st.Load(ai.FieldAddr(obj, i), pt.Underlying().(*types.Struct).Field(i).Type())
			}
			lp := get("Line")
			if lp == ai.Nil {
				x.fail(st, ins, "L02", "error-line", "the error has no line")
			} else if l := st.Load(lp, types.Typ[types.Int]); st.Eval(ai.Eq(l, el)) != 1 {
				x.fail(st, ins, "L02", "error-line", "the error is reported for line %s, but the character is on line %s", l, el)
			}
			if get("File") == ai.Nil {
				x.fail(st, ins, "L03", "error-file", "the error has no file")
			}
			if get("What") == ai.Str("") {
				x.fail(st, ins, "L03", "error-what", "the error has no message")
			}
			if kind == "readerr" {
				o := get("originalErr")
				if o != ai.Named("!readerr", errT) && !o.Contains(ai.Named("!readerr", errT)) {
					x.fail(st, ins, "L05", "cause", "the error does not wrap the error of the reader")
				}
			}
		} else if kind == "readerr" && !err.Contains(ai.Named("!readerr", errT)) {
			x.fail(st, ins, "L05", "cause", "the error does not wrap the error of the reader")
		} else if kind == "err" {
			x.fail(st, ins, "L02", "error-line", "the error is not a ParseError and has no line")
		}
		return
	}
	if err != ai.Nil {
		x.fail(st, ins, "L03", "unexpected", "an error is sent where the token %s is expected", show(ev))
		st.Kill()
		return
	}
	x.run.events["token"]++
	if eq == ai.True {
		x.run.events["quoted"]++
	}
	if st.Eval(ai.Eq(val, ev)) != 1 {
		x.fail(st, ins, "L01", "value", "the token %s is sent where %s is expected", show(val), show(ev))
		st.Kill()
		return
	}
	if st.Eval(ai.Eq(quoted, eq)) != 1 {
		x.fail(st, ins, "L01", "quoted", "the token %s is sent with IsQuoted = %s, not %s", show(val), quoted, eq)
	}
	if st.Eval(ai.Eq(line, el)) != 1 {
		x.fail(st, ins, "L02", "line", "the token %s is sent with line %s, but it starts on line %s", show(val), line, el)
	}
	if len(x.run.samples) < 8 {
		x.run.samples = append(x.run.samples, fmt.Sprintf("%s: token %s quoted=%s line=%s agrees with the rules", pos(x.p, ins), show(val), quoted, line))
	}
}

// extCall is a call of an external lexer.
func (x *lexExplorer) extCall(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	if gs(st, "ext") != "call" {
		x.fail(st, c.Instr, "L06", "unasked", "an external lexer is called where no complete directive name that it is registered for was read")
		st.Kill()
		return nil, true
	}
	if st.Norm(c.Callee) != st.Norm(st.Ghost["extlexer"]) {
		x.fail(st, c.Instr, "L06", "wrong", "the external lexer that is called is not the one registered for the token")
	}
	if n, _ := st.Ghost["q"].IsInt(); n > 0 {
		x.fail(st, c.Instr, "L06", "order", "the external lexer is called before the directive name was sent")
		st.Kill()
		return nil, true
	}
	sub, matched := c.Args[0], c.Args[1]
	if st.Eval(ai.Eq(matched, st.Ghost["exttok"])) != 1 {
		x.fail(st, c.Instr, "L06", "matched", "the external lexer is called with %s, not with the directive name %s", show(matched), show(st.Ghost["exttok"]))
	}
	sc, li := x.subScanner(st, sub)
	if sc == nil || sc != st.Ghost["scanner"] {
		x.fail(st, c.Instr, "L06", "scanner", "the external lexer does not continue with the scanner of the lexer")
	}
	if li == nil || st.Eval(ai.Eq(li, st.Ghost["line"])) != 1 {
		x.fail(st, c.Instr, "L02", "ext-line", "the external lexer starts with line %v, but the input is on line %s", li, st.Ghost["line"])
	}
	x.run.events["ext"]++
	ch := st.FreshObj("newextchan", c.Typ)
	st.Ghost["extch"] = ch
	st.Ghost["extsub"] = sub
	st.Ghost["ext"] = ai.Str("calling")
	delete(st.Ghost, "extlexer")
	return []ai.Outcome{{St: st, Res: ch}}, true
}

// subScanner returns the scanner and the line of a SubScanner.
func (x *lexExplorer) subScanner(st *ai.State, sub *ai.T) (sc, line *ai.T) {
	t := rootType(x.p, "SubScanner")
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		v := st.Load(ai.FieldAddr(sub, i), ft)
		if ft.String() == "*bufio.Scanner" {
			sc = v
		}
		if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			line = v
		}
	}
	return
}

func (x *lexExplorer) setSubLine(st *ai.State, sub, line *ai.T) {
	t := rootType(x.p, "SubScanner")
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			st.Store(ai.FieldAddr(sub, i), line, ft)
		}
	}
}

func (x *lexExplorer) recv(st *ai.State, ch *ai.T, commaOk bool, typ types.Type, ins ssa.Instruction) ([]ai.Outcome, bool) {
	if gs(st, "phase") != "lex" || ch != st.Ghost["extch"] {
		return nil, false
	}
	if !commaOk {
		x.fail(st, ins, "L06", "recv", "the end of the tokens of the external lexer is not observed")
		st.Kill()
		return nil, true
	}
	// a token
	t := st.Clone()
	v := t.FreshOf("ext", typ)
	x.expect(t, ins, "raw", v, ai.Nil, ai.Nil)
	// the end: the external lexer may have read any number of lines
	n := st.Clone()
	l := n.Fresh("int", types.Typ[types.Int])
	n.Assume(ai.Le(ai.Int(1), l), true)
	x.setSubLine(n, n.Ghost["extsub"], l)
	n.Ghost["line"] = l
	u := n.Ghost["extunit"]
	for _, k := range []string{"extch", "extsub", "extunit", "exttok"} {
		delete(n.Ghost, k)
	}
	n.Ghost["ext"] = ai.Str("")
	n.Note("the external lexer ends")
	if u != nil && u != ai.Nil {
		x.guard(n, ins, func() {
			special := u == ai.Str("{") || u == ai.Str("}") || u == ai.Str(";")
			isSp := u.Cls == x.space || constSpace(u)
			x.unit2(n, ins, u, u, "space", isSp, special, u == ai.Str("\n"))
		})
	}
	st.Kill()
	return []ai.Outcome{{St: t, Res: ai.Tuple(v, ai.True)}, {St: n, Res: ai.Tuple(ai.ZeroOf(typ), ai.False)}}, true
}

func lexCheck(prop, tech string, rules ...string) func(p *load.Prog, r *rep.R) {
	return func(p *load.Prog, r *rep.R) {
		run := lexAll(p)
		r.Technique = tech
		r.Explanation = "The goroutine that LexWithOptions starts is interpreted abstractly to a fixpoint, in product with a reference transducer of the lexical rules that reads the same characters. Characters are one of the constants that the source tells apart, any other space or any other character; every abstract state (program point, token text up to its last character, line numbers up to equality, brace depth as 0, 1 or more) is visited."
		for _, x := range rules {
			r.Rule("%s", x)
		}
		for _, c := range run.cut {
			r.Cut(c)
		}
		r.Count("abstract states", run.states)
		r.Count("character classes", run.chars)
		r.Count("sends compared", run.sends)
		for k, n := range run.events {
			r.Count("events "+k, n)
		}
		for _, s := range run.samples {
			r.Sample("%s", s)
		}
		for i := 0; i < run.sends; i++ {
			r.OK()
		}
		for _, q := range run.problems {
			if q.prop == prop {
				r.FailTrace(q.key, q.pos, q.trace, "%s", q.msg)
			} else {
				r.Masked(q.prop, q.key)
			}
		}
		r.Floor("abstract states", 500)
		r.Floor("sends compared", 100)
	}
}

func init() {
	tech := "abstract interpretation of the lexer in product with a reference transducer (property simulation)"
	register("L01", lexCheck("L01", tech, "every token that is sent has the text and the quoting of the token that the lexical rules complete, in order; nothing else is sent"))
	register("L02", lexCheck("L02", tech, "every token carries the line on which it starts and every error the line on which it is found"))
	register("L03", lexCheck("L03", tech, "an error token is sent, and nothing after it, exactly where braces do not balance or a separator has nothing before it"))
	register("L04", lexCheck("L04", tech, "one goroutine per call; it closes the returned channel exactly once, after the last token, on every path, and does not panic"))
	register("L05", lexCheck("L05", tech, "an error of the reader becomes the last token, which wraps it"))
	register("L06", lexCheck("L06", tech, "an external lexer is used exactly for complete names that it is registered for, in the position of a directive; its tokens are forwarded as they are and lexing continues where it stopped"))
}
