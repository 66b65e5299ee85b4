package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

var runeT = types.Typ[types.Rune]

// quoteExplorer decides what Enquote makes of any argument. The argument is a word over classes of characters:
// the characters that the source names, any other space, and any other character. Every loop over its characters
// runs in product with the automaton of the lexer that says whether they are read back as one word; what a loop
// found out about the whole argument (its last character, the state of the automaton, which characters it has)
// must agree with what the loops before it found out.
type quoteExplorer struct {
	*prod
	arg    *ai.T
	read   *ai.T // the content of a builder that has got what was read so far
	chars  []*ai.T
	sets   []string // sets of characters that the code asks for
	ord    *ai.T    // any other character
	gaveUp map[string]bool
}

// the automaton of unquoted words: S start, W inside, D after a dollar, V inside ${, B and Y after a backslash
// in W and in V, X not one word that is what was written.
func wordStep(s string, c *ai.T) string {
	r := '\uFFFF'
	if i, ok := c.IsInt(); ok {
		r = rune(i)
	}
	space := r != '\uFFFF' && strings.ContainsRune(" \t\n\v\f\u0085\u00a0", r) || strings.HasPrefix(c.Op, "space")
	in := func(set string) bool { return r != '\uFFFF' && strings.ContainsRune(set, r) }
	w := func() string {
		switch {
		case space || in("{};"):
			return "X"
		case in("\\"):
			return "B"
		case in("$"):
			return "D"
		}
		return "W"
	}
	switch s {
	case "S":
		if in("#\"'") {
			return "X"
		}
		return w()
	case "W":
		return w()
	case "D":
		if in("{") {
			return "V"
		}
		return w()
	case "B":
		if in("$") {
			return "D"
		}
		return "W"
	case "V":
		switch {
		case in("\\"):
			return "Y"
		case in("}") || space:
			return "W"
		}
		return "V"
	case "Y":
		if in("}") {
			return "W"
		}
		return "V"
	}
	return "X"
}

func wordEnd(s string) bool { return s == "W" || s == "D" }

func isOrd(c *ai.T) bool { return strings.HasPrefix(c.Op, "other") }

var quoteAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	props := []string{"B01"}
	fn := rootFn(p, "Enquote")
	if fn == nil || len(fn.Params) != 1 || !types.Identical(fn.Params[0].Type(), strT) || fn.Signature.Results().Len() != 1 {
		run.anchor(props, "the function Enquote was not found")
		return run
	}
	x := &quoteExplorer{prod: newProd(p, run, "B01"), gaveUp: map[string]bool{}}
	e := x.e
	reach := reachable(p, fn)
	for _, c := range namedChars(reach) {
		x.chars = append(x.chars, ai.Int(int64(c)))
	}
	x.sets = askedSets(reach)
	x.arg = ai.Named("arg", strT)
	x.read = ai.Named("read", strT)
	x.ord = ai.Named(fmt.Sprint("other", len(x.chars)), runeT)
	space := ai.Named(fmt.Sprint("space", len(x.chars)), runeT)
	e.MaxStates = 400000
	e.ConstLimit = 400
	e.PartLimit = 40
	e.StrLimit = 100
	e.WidenGhost = func(string) bool { return false }
	st := ai.NewState(e)
	for _, c := range x.chars {
		st.Assume(ai.Eq(x.ord, c), false)
		st.Assume(ai.Eq(space, c), false)
	}
	st.Assume(ai.App("isspace", boolT, x.ord), false)
	st.Assume(ai.App("isspace", boolT, space), true)
	x.chars = append(x.chars, space, x.ord)
	g := st.Ghost
	g["known"], g["extra"] = ai.False, ai.Nil
	g["it"], g["pre"], g["preEnd"], g["full"] = ai.Nil, ai.Tuple(), ai.False, ai.Nil
	g["has:"] = ai.Nil // whether it has a character that is not ordinary
	for _, s := range x.sets {
		g["has:"+s] = ai.Str("?") // whether the argument has one of these characters
	}
	x.reset(st, ai.Nil, 0)
	e.Call = x.call
	e.OnNext = x.next
	e.OnHeader = func(st *ai.State, b *ssa.BasicBlock) { x.fold(st) }
	e.OnBranch = x.branch
	e.Return = x.ret
	e.Imprecise = func(st *ai.State, what string, ins ssa.Instruction) { x.give(st, what, ins) }
	e.Recursive = func(st *ai.State, c *ai.CallInfo) []ai.Outcome { x.give(st, "recursion", c.Instr); return nil }
	x.prod.explore(st, fn, []*ai.T{x.arg}, props)
	if len(x.gaveUp) > 0 {
		for _, k := range sortedKeys(x.gaveUp) {
			run.cut = append(run.cut, k)
		}
	}
	run.need(props, "unquoted", "quoted", "characters read", "ordinary argument")
	return run
})

// namedChars are the characters that functions name, but for those of formats, and those that the lexer knows.
// A carriage return is dropped by the lexer.
func namedChars(fns map[*ssa.Function]bool) []rune {
	m := map[rune]bool{}
	for _, r := range "\n \\#${};\"'" {
		m[r] = true
	}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if ok && c.Call.StaticCallee() != nil && strings.HasPrefix(c.Call.StaticCallee().String(), "fmt.") {
					continue
				}
				for _, op := range ins.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}
					t := constVal(k)
					if s, ok := t.IsStr(); ok {
						for _, r := range s {
							m[r] = true
						}
					} else if i, ok := t.IsInt(); ok && isRune(k.Type()) && i > 0 {
						m[rune(i)] = true
					}
				}
			}
		}
	}
	delete(m, '\r')
	delete(m, utf8.RuneError)
	var r []rune
	for c := range m {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int32 || b.Kind() == types.Uint8 || b.Kind() == types.UntypedRune)
}

var asks = map[string]bool{"strings.ContainsAny": true, "strings.Contains": true, "strings.ContainsRune": true, "strings.IndexAny": true, "strings.IndexByte": true, "strings.IndexRune": true, "strings.Index": true, "strings.Count": true}

// askedSets are the sets of characters that a string is searched for.
func askedSets(fns map[*ssa.Function]bool) []string {
	m := map[string]bool{`"`: true}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && c.Call.StaticCallee() != nil && asks[c.Call.StaticCallee().String()] && len(c.Call.Args) == 2 {
					if k, ok := c.Call.Args[1].(*ssa.Const); ok {
						t := &ai.CallInfo{Name: c.Call.StaticCallee().String(), Args: []*ai.T{nil, constVal(k)}}
						if s, ok := askedSet(t); ok {
							m[s] = true
						}
					}
				}
			}
		}
	}
	return sortedKeys(m)
}

func constVal(k *ssa.Const) *ai.T {
	if k.Value == nil {
		return ai.Nil
	}
	return ai.Const(k.Value, k.Type())
}

func askedSet(c *ai.CallInfo) (string, bool) {
	if s, ok := c.Args[1].IsStr(); ok {
		if strings.HasSuffix(c.Name, "Any") || utf8.RuneCountInString(s) == 1 {
			return s, s != ""
		}
		return "", false
	}
	if i, ok := c.Args[1].IsInt(); ok {
		return string(rune(i)), true
	}
	return "", false
}

// give ends a path that is not decided.
func (x *quoteExplorer) give(st *ai.State, why string, ins ssa.Instruction) {
	ps := "-"
	if ins != nil {
		ps = pos(x.p, ins)
	}
	x.gaveUp[fmt.Sprintf("Enquote: %s at %s", why, ps)] = true
	st.Kill()
}

// reset starts reading the argument.
func (x *quoteExplorer) reset(st *ai.State, it *ai.T, from int) {
	g := st.Ghost
	g["it"], g["pos"], g["w"], g["last"], g["tail"], g["pend"], g["pure"], g["folded"] = it, ai.Int(0), ai.Str("S"), ai.Nil, ai.Nil, ai.Tuple(), ai.True, ai.False
	for _, s := range x.sets {
		g["saw:"+s] = ai.False
	}
	for i := 0; i < from; i++ {
		x.eat(st, g["pre"].Args[i])
	}
}

// eat reads one character of the argument.
func (x *quoteExplorer) eat(st *ai.State, c *ai.T) {
	g := st.Ghost
	s, _ := g["w"].IsStr()
	g["w"] = ai.Str(wordStep(s, c))
	g["last"] = ai.Str("-")
	if in(c, "\\$") {
		g["last"] = c
	}
	if !isOrd(c) {
		g["pure"] = ai.False
		g["has:"] = ai.Str("y")
	}
	n, _ := g["pos"].IsInt()
	if n < int64(max(len(g["pre"].Args), 1)) {
		n++
	}
	g["pos"] = ai.Int(n)
	for _, s := range x.sets {
		if in(c, s) {
			g["saw:"+s] = ai.True
			g["has:"+s] = ai.Str("y")
		}
	}
	if p := g["pend"]; p != ai.Nil {
		if len(p.Args) >= 2 {
			g["pend"] = ai.Nil
		} else {
			g["pend"] = ai.Tuple(append(append([]*ai.T{}, p.Args...), c)...)
		}
	}
}

func in(c *ai.T, set string) bool {
	i, ok := c.IsInt()
	return ok && strings.ContainsRune(set, rune(i))
}

// allowed tells whether the argument may have a character as far as it is known.
func (x *quoteExplorer) allowed(st *ai.State, c *ai.T) bool {
	for _, s := range x.sets {
		if st.Ghost["has:"+s] == ai.Str("n") && in(c, s) {
			return false
		}
	}
	return true
}

// source is the place in the argument where a string starts, and what follows the argument in it.
func (x *quoteExplorer) source(st *ai.State, s *ai.T) (from int, extra string, ok bool) {
	s = st.Norm(s)
	if s == st.Norm(x.arg) {
		return 0, "", true
	}
	if s.Is("cat") && len(s.Args) == 2 && s.Args[0] == x.arg {
		if e, ok := s.Args[1].IsStr(); ok {
			return 0, e, true
		}
	}
	if s.Is("substr") && s.Args[2].K == ai.KNil {
		f, e, ok := x.source(st, s.Args[0])
		if !ok || f != 0 {
			return 0, "", false
		}
		pre := st.Ghost["pre"].Args
		if len(pre) == 0 {
			return 0, "", false
		}
		lo := s.Args[1]
		if lo.Is("runelen") {
			if f, _, ok := x.source(st, lo.Args[0]); ok && f == 0 {
				return 1, e, true
			}
		}
		if n, ok := lo.IsInt(); ok {
			if c, ok := pre[0].IsInt(); ok && int64(utf8.RuneLen(rune(c))) == n {
				return 1, e, true
			}
		}
	}
	return 0, "", false
}

// reveal makes the first n characters of the argument known.
func (x *quoteExplorer) reveal(st *ai.State, n int) []*ai.State {
	g := st.Ghost
	pre := g["pre"].Args
	if len(pre) >= n || g["preEnd"] == ai.True {
		return []*ai.State{st}
	}
	var r []*ai.State
	add := func(s *ai.State) {
		if !s.Dead() {
			r = append(r, x.reveal(s, n)...)
		}
	}
	for _, c := range x.chars {
		if !x.allowed(st, c) {
			continue
		}
		s := st.Clone()
		s.Ghost["pre"] = ai.Tuple(append(append([]*ai.T{}, pre...), c)...)
		s.Assume(ai.Eq(x.arg, ai.Str("")), false)
		add(s)
	}
	s := st.Clone()
	s.Ghost["preEnd"] = ai.True
	if len(pre) == 0 {
		if st.Norm(x.arg) != ai.Str("") {
			if s.Eval(ai.Eq(x.arg, ai.Str(""))) == -1 || !s.Assume(ai.Eq(x.arg, ai.Str("")), true) {
				return r
			}
		}
	}
	add(s)
	return r
}

// next follows a loop over the characters of a string.
func (x *quoteExplorer) next(st *ai.State, it, k, r *ai.T, ok bool, ins ssa.Instruction) {
	g := st.Ghost
	from, extra, known := x.source(st, st.Over(it))
	if g["it"] == it && g["known"] == ai.True {
		known = true
		if e, ok := g["extra"].IsStr(); ok {
			extra = e
		}
	}
	if !known {
		x.give(st, "the text "+show(st.Over(it))+" is not followed", ins)
		return
	}
	if g["it"] != it {
		x.reset(st, it, from)
		g["known"], g["extra"] = ai.True, ai.Str(extra)
		if !writesText(ins.Parent()) {
			g["pend"] = ai.Nil
		}
		if pre := g["pre"].Args; from > 0 && (g["preEnd"] == ai.False || len(pre) > from) {
			// it is known in the automaton from here on
			g["pre"], g["preEnd"] = ai.Tuple(), ai.False
		}
		st.Forget(func(t *ai.T) bool { return t.Is("runelen") || t.Is("substr") || t.Is("len") && t.Args[0].Is("substr") })
	}
	x.fold(st)
	pos, _ := g["pos"].IsInt()
	pre := g["pre"].Args
	if g["tail"] != ai.Nil {
		t, _ := g["tail"].IsInt()
		rs := []rune(extra)
		if int(t) == len(rs) == ok {
			st.Kill()
			return
		}
		if ok {
			x.char(st, k, r, ai.Int(int64(rs[t])), false)
			g["tail"] = ai.Int(t + 1)
		}
		return
	}
	atEnd := func(s *ai.State) bool {
		if int(pos) < len(pre) {
			s.Kill()
			return false
		}
		return x.end(s)
	}
	if !ok {
		if extra != "" {
			st.Kill()
			return
		}
		atEnd(st)
		return
	}
	x.run.events["characters read"]++
	var cs []*ai.T
	switch {
	case int(pos) < len(pre):
		cs = pre[pos : pos+1]
	case g["preEnd"] == ai.False:
		for _, c := range x.chars {
			if x.allowed(st, c) {
				cs = append(cs, c)
			}
		}
	}
	if extra != "" {
		n := st.Clone()
		if atEnd(n) && !n.Dead() {
			x.char(n, k, r, ai.Int(int64([]rune(extra)[0])), false)
			n.Ghost["tail"] = ai.Int(1)
			x.e.Fork(n)
		}
	}
	if len(cs) == 0 {
		st.Kill()
		return
	}
	for i, c := range cs {
		s := st
		if i < len(cs)-1 {
			s = st.Clone()
		}
		x.char(s, k, r, c, pos == 0)
		x.eat(s, c)
		if i < len(cs)-1 {
			x.e.Fork(s)
		}
	}
}

// writesText tells whether a function collects text in a builder.
func writesText(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				for _, a := range c.Common().Args {
					if t := a.Type().String(); strings.HasSuffix(t, "strings.Builder") || strings.HasSuffix(t, "bytes.Buffer") {
						return true
					}
				}
			}
		}
	}
	return false
}

// char gives a character that is read its value.
func (x *quoteExplorer) char(st *ai.State, k, r, c *ai.T, first bool) {
	st.Replace(r, c)
	if i, ok := c.IsInt(); ok {
		st.Note(fmt.Sprintf("the character %q", rune(i)))
	} else {
		st.Note("another character (" + strings.TrimRight(c.Op, "0123456789") + ")")
	}
	if first {
		st.Replace(k, ai.Int(0))
		st.Assume(ai.Eq(x.arg, ai.Str("")), false)
	} else {
		st.Assume(ai.Le(ai.Int(1), k), true)
	}
}

// end ends a loop at the end of the argument.
func (x *quoteExplorer) end(st *ai.State) bool {
	g := st.Ghost
	if g["pos"] == ai.Int(0) {
		if st.Norm(x.arg) != ai.Str("") && (st.Eval(ai.Eq(x.arg, ai.Str(""))) == -1 || !st.Assume(ai.Eq(x.arg, ai.Str("")), true)) {
			st.Kill()
			return false
		}
	}
	if g["last"] == ai.Nil && st.Norm(x.arg) != ai.Str("") {
		st.Kill()
		return false
	}
	for _, s := range x.sets {
		v := ai.Str("n")
		if g["saw:"+s] == ai.True {
			v = ai.Str("y")
		}
		if h := g["has:"+s]; h != ai.Str("?") && h != v {
			st.Kill()
			return false
		}
		g["has:"+s] = v
	}
	if g["has:"] != ai.Nil && g["pure"] == ai.True {
		st.Kill()
		return false
	}
	full := ai.Tuple(g["w"], g["last"], g["pure"])
	if g["full"] != ai.Nil && g["full"] != full {
		st.Kill()
		return false
	}
	g["full"] = full
	return true
}

// pieces are the characters of a text, as far as it is made of constants and single characters.
func pieces(t *ai.T) ([]*ai.T, bool) {
	ts := []*ai.T{t}
	if t.Is("cat") {
		ts = t.Args
	}
	var r []*ai.T
	for _, t := range ts {
		if s, ok := t.IsStr(); ok {
			for _, c := range s {
				r = append(r, ai.Int(int64(c)))
			}
		} else if t.Is("runestr") {
			r = append(r, t.Args[0])
		} else {
			return nil, false
		}
	}
	return r, true
}

// copied splits the content of a builder into what was read so far and further characters.
func (x *quoteExplorer) copied(st *ai.State, v *ai.T) (more []*ai.T, ok bool) {
	if v == x.read {
		return nil, true
	}
	if v.Is("cat") && v.Args[0] == x.read {
		return pieces(ai.Cat(v.Args[1:]...))
	}
	return nil, false
}

// fold makes what builders have got of what was read so far one value.
func (x *quoteExplorer) fold(st *ai.State) {
	g := st.Ghost
	p := g["pend"]
	if p == ai.Nil {
		return
	}
	whole := g["folded"] != ai.True // nothing of what was read is gone from pend
	left := p
	st.Builders(func(place, v *ai.T) *ai.T {
		ps, ok := x.copied(st, v)
		if !ok && whole {
			ps, ok = pieces(v)
		}
		if !ok || len(ps) == 0 || len(ps) > len(p.Args) {
			return v
		}
		for i, c := range ps {
			if st.Norm(c) != p.Args[i] {
				return v
			}
		}
		left = ai.Tuple(p.Args[len(ps):]...)
		g["folded"] = ai.True
		return x.read
	})
	g["pend"] = left
}

func (x *quoteExplorer) call(st *ai.State, c *ai.CallInfo) ([]ai.Outcome, bool) {
	one := func(s *ai.State, r *ai.T) []ai.Outcome { return []ai.Outcome{{St: s, Res: r}} }
	g := st.Ghost
	switch {
	case c.Name == "(*strings.Builder).String" || c.Name == "(*bytes.Buffer).String":
		v := st.Norm(st.SB(c.Args[0]))
		more, ok := x.copied(st, v)
		whole := false
		if !ok && g["folded"] != ai.True {
			more, ok = pieces(v)
			whole = true
		}
		_ = whole
		if !ok {
			return nil, false
		}
		p := g["pend"]
		if p == ai.Nil || len(more) < len(p.Args) || g["full"] == ai.Nil {
			return nil, false
		}
		for i, q := range p.Args {
			if st.Norm(more[i]) != q {
				return nil, false
			}
		}
		extra := []*ai.T{x.arg}
		for _, q := range more[len(p.Args):] {
			extra = append(extra, ai.App("runestr", strT, q))
		}
		return one(st, st.Norm(ai.Cat(extra...))), true
	case c.Name == "unicode/utf8.DecodeRuneInString":
		from, _, ok := x.source(st, c.Args[0])
		if _, k := c.Args[0].IsStr(); !ok && !k {
			x.give(st, "the start of "+show(c.Args[0])+" is not followed", c.Instr)
			return nil, true
		}
		if !ok || from != 0 || st.Norm(x.arg) == ai.Str("") {
			return nil, false
		}
		var out []ai.Outcome
		for _, s := range x.reveal(st, 1) {
			if len(s.Ghost["pre"].Args) == 0 { // empty
				out = append(out, one(s, s.Norm(ai.Tuple(ai.App("firstrune", runeT, c.Args[0]), ai.App("runelen", intT, c.Args[0]))))...)
				continue
			}
			n := ai.App("runelen", intT, c.Args[0])
			s.Assume(ai.Le(ai.Int(1), n), true)
			s.Assume(ai.Le(n, ai.Len(c.Args[0])), true)
			out = append(out, one(s, ai.Tuple(s.Ghost["pre"].Args[0], n))...)
		}
		return out, true
	case c.Name == "strings.HasPrefix":
		from, extra, ok := x.source(st, c.Args[0])
		k, kok := c.Args[1].IsStr()
		if !ok || !kok || from != 0 || st.Norm(x.arg) == ai.Str("") {
			return nil, false
		}
		ks := []rune(k)
		var out []ai.Outcome
		var step func(s *ai.State, i int)
		step = func(s *ai.State, i int) {
			if i == len(ks) {
				out = append(out, one(s, ai.True)...)
				return
			}
			for _, s := range x.reveal(s, i+1) {
				pre := s.Ghost["pre"].Args
				switch {
				case len(pre) > i && pre[i] == ai.Int(int64(ks[i])):
					step(s, i+1)
				case len(pre) <= i: // the argument ends here
					out = append(out, one(s, ai.Bool(strings.HasPrefix(extra, string(ks[i:]))))...)
				default:
					out = append(out, one(s, ai.False)...)
				}
			}
		}
		step(st, 0)
		return out, true
	case asks[c.Name] && len(c.Args) == 2:
		from, extra, ok := x.source(st, c.Args[0])
		set, sok := askedSet(c)
		if !ok || !sok || from != 0 || g["has:"+set] == nil || c.Name == "strings.Count" {
			return nil, false
		}
		var out []ai.Outcome
		for _, v := range []string{"y", "n"} {
			h := g["has:"+set]
			if h != ai.Str("?") && h != ai.Str(v) {
				continue
			}
			s := st.Clone()
			s.Ghost["has:"+set] = ai.Str(v)
			if v == "y" && !s.Assume(ai.Eq(x.arg, ai.Str("")), false) {
				continue
			}
			yes := v == "y" || strings.ContainsAny(extra, set)
			if strings.Contains(c.Name, "Contains") {
				out = append(out, one(s, ai.Bool(yes))...)
			} else if yes {
				out = append(out, one(s, s.Fresh("natidx", intT))...)
			} else {
				out = append(out, one(s, ai.Int(-1))...)
			}
		}
		return out, true
	}
	return nil, false
}

// branch notes branches on something about the argument that is not followed.
func (x *quoteExplorer) branch(st *ai.State, c *ai.T, val bool, ins *ssa.If) {
	if st.Dead() {
		return
	}
	for c.Is("not") {
		c = c.Args[0]
	}
	plain := true // only about a character
	c.Walk(func(t *ai.T) bool {
		if t.K == ai.KSym && !isOrd(t) && !strings.HasPrefix(t.Op, "space") || t.Is("firstrune") {
			plain = false
		}
		return true
	})
	if plain {
		return
	}
	if (c.Is("eq") || c.Is("le")) && (c.Args[0] == x.arg || c.Args[0] == ai.Len(x.arg) || c.Args[0] == ai.Str("") || c.Args[0] == ai.Int(0) || c.Args[0] == ai.Int(1)) {
		o := c.Args[1]
		if o == ai.Str("") || o == ai.Int(0) || o == x.arg || o == ai.Len(x.arg) {
			return
		}
	}
	x.give(st, "the condition "+show(c)+" is not followed", ins)
}

// ret decides what is returned.
func (x *quoteExplorer) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	g := st.Ghost
	v := st.Norm(res[0])
	arg := st.Norm(x.arg)
	full := g["full"]
	if v == arg {
		x.run.events["unquoted"]++
		if arg == ai.Str("") {
			x.fail(st, ins, "B01", "empty", "an empty argument is written without quotes, as nothing")
			return
		}
		if full != ai.Nil {
			w, _ := full.Args[0].IsStr()
			if !wordEnd(w) {
				x.fail(st, ins, "B01", "unquoted", "an argument is written without quotes that is not read back as this word: %s", x.why(w, full.Args[1]))
			}
			return
		}
		if w := x.some(st, func(w string) bool { return !wordEnd(w) }, nil); w != "" {
			x.fail(st, ins, "B01", "unquoted", "an argument is written without quotes, after looking at a part of it, that may not be read back as this word: %s", w)
		}
		return
	}
	x.run.events["quoted"]++
	// arguments of ordinary characters are left as they are
	if arg != ai.Str("") {
		if x.some(st, func(w string) bool { return w == "W" }, isOrd) != "" {
			x.fail(st, ins, "B01", "ordinary", "an argument of ordinary characters is written as %s", show(v))
			return
		}
		x.run.events["ordinary argument"]++
	}
	x.quoted(st, v, ins)
}

func (x *quoteExplorer) why(w string, last *ai.T) string {
	switch w {
	case "X":
		return "it has white space, a separator, or starts with a quote or #"
	case "B", "Y":
		return "it ends with a backslash that is not escaped"
	case "V":
		return "it ends within ${"
	}
	return "it is empty"
}

// some tells whether there is an argument that is in line with what is known on this path, is made of the given
// characters, and whose state in the automaton is of a kind.
func (x *quoteExplorer) some(st *ai.State, kind func(w string) bool, only func(c *ai.T) bool) string {
	g := st.Ghost
	for _, s := range x.sets {
		if only != nil && g["has:"+s] == ai.Str("y") {
			return ""
		}
	}
	if only != nil && g["has:"] != ai.Nil {
		return ""
	}
	pre := g["pre"].Args
	w := "S"
	from := 0
	if g["full"] != ai.Nil {
		// only its last character and state are known
		if only != nil {
			if g["full"].Args[2] != ai.True {
				return ""
			}
			for _, c := range pre {
				if !only(c) {
					return ""
				}
			}
		}
		w, _ := g["full"].Args[0].IsStr()
		if kind(w) {
			return "see the path"
		}
		return ""
	}
	if g["it"] != ai.Nil {
		if only != nil && g["pure"] != ai.True {
			return ""
		}
		w, _ = g["w"].IsStr()
		n, _ := g["pos"].IsInt()
		from = int(n)
		if g["preEnd"] == ai.True && from >= len(pre) {
			if kind(w) {
				return "see the path"
			}
			return ""
		}
	}
	for ; from < len(pre); from++ {
		if only != nil && !only(pre[from]) {
			return ""
		}
		w = wordStep(w, pre[from])
	}
	end := g["preEnd"] == ai.True
	seen := map[string]bool{w: true}
	work := []string{w}
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		if w != "S" && kind(w) {
			return x.why(w, nil)
		}
		if end {
			break
		}
		for _, c := range x.chars {
			if x.allowed(st, c) && (only == nil || only(c)) {
				if n := wordStep(w, c); !seen[n] {
					seen[n] = true
					work = append(work, n)
				}
			}
		}
	}
	return ""
}

// stage is a step of a pipeline that rewrites a text from left to right.
type stage struct {
	quote      bool   // the characters of a text as %q writes them
	pre, post  []rune // text around it
	skip, keep int    // characters that are cut off at the start and the end
	from, to   []rune // one text for another
	times      int    // how often; 0 is always
	done       int
	buf        []rune
	begun, end bool
}

func (g *stage) push(r rune) []rune {
	var out []rune
	if !g.begun {
		g.begun = true
		out = append(out, g.pre...)
	}
	switch {
	case g.quote:
		if r == '"' || r == '\\' {
			out = append(out, '\\')
		}
		return append(out, r)
	case g.keep > 0 || g.skip > 0:
		if g.skip > 0 {
			g.skip--
			return nil
		}
		g.buf = append(append([]rune{}, g.buf...), r)
		if len(g.buf) > g.keep {
			r, g.buf = g.buf[0], g.buf[1:]
			return append(out, r)
		}
		return out
	case g.from != nil:
		g.buf = append(append([]rune{}, g.buf...), r)
		for len(g.buf) > 0 {
			if (g.times == 0 || g.done < g.times) && len(g.buf) >= len(g.from) && string(g.buf[:len(g.from)]) == string(g.from) {
				out = append(out, g.to...)
				g.buf = g.buf[len(g.from):]
				if g.times > 0 {
					g.done++
				}
				continue
			}
			if (g.times == 0 || g.done < g.times) && strings.HasPrefix(string(g.from), string(g.buf)) {
				break
			}
			out = append(out, g.buf[0])
			g.buf = g.buf[1:]
		}
		return out
	}
	return append(out, r)
}

func (g *stage) finish() []rune {
	var out []rune
	if !g.begun {
		out = append(out, g.pre...)
	}
	if g.keep == 0 {
		out = append(out, g.buf...)
	}
	g.buf = nil
	return append(out, g.post...)
}

// pipeline makes the steps from the argument to a value.
func (x *quoteExplorer) pipeline(v *ai.T) ([]stage, bool) {
	switch {
	case v == x.arg:
		return nil, true
	case v.Is("inquote"):
		p, ok := x.pipeline(v.Args[0])
		return append(p, stage{quote: true}), ok
	case v.Is("replaceall") || v.Is("replacen"):
		times := 0
		if len(v.Args) == 4 {
			n, ok := v.Args[3].IsInt()
			if !ok || n < 1 || n > 4 {
				return nil, false
			}
			times = int(n)
		}
		from, ok1 := v.Args[1].IsStr()
		to, ok2 := v.Args[2].IsStr()
		p, ok := x.pipeline(v.Args[0])
		return append(p, stage{from: []rune(from), to: []rune(to), times: times}), ok && ok1 && ok2 && from != ""
	case v.Is("substr"):
		lo, ok1 := v.Args[1].IsInt()
		p, ok := x.pipeline(v.Args[0])
		for m := int64(0); m < 3 && lo < 3; m++ {
			if v.Args[2] == ai.Add(ai.Len(v.Args[0]), -m) || m == 0 && v.Args[2].K == ai.KNil {
				return append(p, stage{skip: int(lo), keep: int(m)}), ok && ok1
			}
		}
		return nil, false
	case v.Is("cat"):
		g := stage{}
		var p []stage
		ok, in := true, false
		for _, a := range v.Args {
			if s, c := a.IsStr(); c {
				if in {
					g.post = append(g.post, []rune(s)...)
				} else {
					g.pre = append(g.pre, []rune(s)...)
				}
				continue
			}
			if in {
				return nil, false
			}
			in = true
			p, ok = x.pipeline(a)
		}
		return append(p, g), ok
	}
	return nil, false
}

// quoteReader reads a quoted string as the lexer does.
type quoteReader struct {
	quote rune
	esc   bool
	over  bool
	bad   string
}

func (d *quoteReader) push(r rune) []rune {
	switch {
	case d.bad != "":
	case d.over:
		d.bad = "something follows the closing quote"
	case d.quote == 0:
		if r != '"' && r != '\'' {
			d.bad = "it does not start with a quote"
		}
		d.quote = r
	case d.esc:
		d.esc = false
		if r == d.quote {
			return []rune{r}
		}
		return []rune{'\\', r}
	case r == '\\':
		d.esc = true
	case r == d.quote:
		d.over = true
	default:
		return []rune{r}
	}
	return nil
}

// quoted decides whether a quoted argument is read back as what it was: every argument without control characters,
// in which no backslash stands before a quote, another backslash or the end.
func (x *quoteExplorer) quoted(st *ai.State, v *ai.T, ins ssa.Instruction) {
	arg := st.Norm(x.arg)
	if s, ok := v.IsStr(); ok && arg == ai.Str("") {
		if s != `""` && s != "''" {
			x.fail(st, ins, "B01", "quoted-empty", "an empty argument is written as %q", s)
		}
		return
	}
	p, ok := x.pipeline(v)
	if !ok || arg == ai.Str("") {
		x.give(st, "the text "+show(v)+" is not followed", ins)
		return
	}
	var chars []rune
	for _, c := range x.chars {
		if i, ok := c.IsInt(); ok && i >= ' ' && i != 0x7f && x.allowed(st, c) {
			chars = append(chars, rune(i))
		}
	}
	chars = append(chars, 'a')
	type state struct {
		p     []stage
		d     quoteReader
		queue string
		prev  rune
		text  string
		must  int // the sets that the argument must have a character of, and has
	}
	must := 0
	var musts []string
	for _, k := range x.sets {
		if st.Ghost["has:"+k] == ai.Str("y") {
			must |= 1 << len(musts)
			musts = append(musts, k)
		}
	}
	key := func(s state) string {
		k := fmt.Sprint(s.d, "|", s.queue, "|", s.prev, "|", s.must)
		for _, g := range s.p {
			k += fmt.Sprint("|", string(g.buf), g.begun, g.skip, g.done)
		}
		return k
	}
	// feed passes characters through the stages from i on
	var feed func(s *state, i int, rs []rune) string
	feed = func(s *state, i int, rs []rune) string {
		for _, r := range rs {
			if i < len(s.p) {
				if e := feed(s, i+1, s.p[i].push(r)); e != "" {
					return e
				}
				continue
			}
			for _, o := range s.d.push(r) {
				f, n := utf8.DecodeRuneInString(s.queue)
				if s.queue == "" || f != o {
					return fmt.Sprintf("%q is read where it should be %q", o, s.queue)
				}
				s.queue = s.queue[n:]
			}
			if s.d.bad != "" {
				return s.d.bad
			}
		}
		return ""
	}
	fork := func(s state) state {
		s.p = append([]stage{}, s.p...)
		return s
	}
	seen := map[string]bool{}
	work := []state{{p: p}}
	n := 0
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		n++
		if n > 20000 || len(s.queue) > 24 {
			x.give(st, "the text "+show(v)+" is not decided", ins)
			return
		}
		bad := func(text, e string) {
			x.fail(st, ins, "B01", "quoted", "an argument like %q is not read back as what it was when it is written as %s: %s", text, show(v), e)
		}
		if s.prev != '\\' && s.text != "" && s.must == must {
			f := fork(s)
			e := ""
			for i := range f.p {
				if e = feed(&f, i+1, f.p[i].finish()); e != "" {
					break
				}
			}
			if e == "" && !f.d.over {
				e = "the quote is not closed"
			}
			if e == "" && f.queue != "" {
				e = fmt.Sprintf("%q is lost", f.queue)
			}
			if e != "" {
				bad(f.text, e)
				return
			}
		}
		for _, r := range chars {
			if s.prev == '\\' && (r == '"' || r == '\'' || r == '\\') {
				continue
			}
			f := fork(s)
			f.queue += string(r)
			f.prev = r
			f.text += string(r)
			for i, k := range musts {
				if strings.ContainsRune(k, r) {
					f.must |= 1 << i
				}
			}
			if e := feed(&f, 0, []rune{r}); e != "" {
				bad(f.text, e)
				return
			}
			if k := key(f); !seen[k] {
				seen[k] = true
				work = append(work, f)
			}
		}
	}
	x.run.samples = append(x.run.samples, fmt.Sprintf("%s is read back as the argument (%d states)", show(v), n))
}

func init() {
	prodCheck("B01", "abstract interpretation (path-sensitive fixpoint over SSA) of the quoting of arguments in product with the word automaton of the lexer; composition of transducers for quoted text",
		"Enquote is interpreted abstractly for every argument; loops over the argument run in product with the automaton of unquoted words, and the text of quoted arguments is composed as a transducer with the reading of quoted strings.",
		quoteAll, "an argument that is written as it is, is accepted by the automaton of unquoted words", "an argument of ordinary characters is written as it is", "what is written in quotes is read back as the argument")
}
