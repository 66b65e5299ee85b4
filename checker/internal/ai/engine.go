package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallInfo describes a call that is about to happen.
type CallInfo struct {
	Instr  ssa.Instruction
	Common *ssa.CallCommon
	Name   string        // "pkg.Func", "(*pkg.T).Method" or "invoke pkg.I.Method" or "dynamic" or "builtin x"
	Fn     *ssa.Function // the resolved callee, if any
	Callee *T            // the callee of a dynamic call, or the receiver of an interface call
	Args   []*T
	Typ    types.Type // result type
	Defer  bool
}

// Outcome is one way a call can end.
type Outcome struct {
	St  *State
	Res *T
}

// Engine explores the abstract states of a function.
type Engine struct {
	Prog   *ssa.Program
	Module func(*ssa.Function) bool // functions whose bodies are interpreted

	// Hooks; each may be nil. Call returns handled=false to fall back to the default.
	Call       func(st *State, c *CallInfo) (out []Outcome, handled bool)
	Recv       func(st *State, ch *T, commaOk bool, typ types.Type, ins ssa.Instruction) (out []Outcome, handled bool)
	Send       func(st *State, ch, v *T, ins ssa.Instruction)
	Go         func(st *State, c *CallInfo)
	Defer      func(st *State, c *CallInfo) (handled bool)
	OnStore    func(st *State, addr, v *T, typ types.Type, ins ssa.Instruction)
	OnWrite    func(st *State, target *T, ins ssa.Instruction) // memory, a list or a map is written
	OnLoad     func(st *State, addr, v *T, ins ssa.Instruction)
	OnMapPut   func(st *State, m, k, v *T, ins ssa.Instruction)
	OnAppend   func(st *State, base *T, parts []*T, res *T, ins ssa.Instruction)
	OnLookup   func(st *State, m, k *T, has bool, v *T, ins *ssa.Lookup)
	OnNext     func(st *State, it, k, v *T, ok bool, ins ssa.Instruction)
	OnBranch   func(st *State, c *T, val bool, ins *ssa.If)
	OnHeader   func(st *State, b *ssa.BasicBlock)
	Return     func(st *State, res []*T, ins ssa.Instruction)
	OnCallRet  func(st *State, fn *ssa.Function, args []*T, res *T)
	Obligation func(st *State, kind string, ok bool, ins ssa.Instruction, detail string)
	Recursive  func(st *State, c *CallInfo) []Outcome
	Ext        func(st *State, c *CallInfo) // an unknown function is called
	NonNil     func(t *T) bool
	Global     func(addr *T) *T // the value of a package-level variable that never changes
	SpecLine   string
	WidenGhost func(key string) bool // ghosts that may be widened; nil means all
	Imprecise  func(st *State, what string, ins ssa.Instruction)

	MaxStates   int
	ConstLimit  int                  // widening of integer constants
	PartLimit   int                  // widening of sequences
	StrLimit    int                  // widening of strings
	WordClass   func(last *T) *Class // what is kept of a widened string, given its last character; nil keeps the last character
	OffLimit    int64
	DiffLimit   int64
	HeaderScale func(st *State) int // how much more patient widening is at loop heads
	Near        int64               // numbers this close to a widened number are widened with it
	KeepLen     bool                // widened numbers keep lengths as upper bounds
	LowLimit    int64               // the largest lower bound that is kept of widened numbers
	KeepKeys    bool

	States, Joins, Steps int
	Visited              map[string]struct{}
	Reached              map[ssa.Instruction]bool
	Overflow             bool
	Stop                 bool // set by a hook to end the exploration
	Debug                bool

	live     map[*ssa.Function]*liveness
	cells    map[*ssa.Alloc]*cell
	orders   map[*ssa.Function][]ssa.Value
	headers  map[*ssa.Function]map[*ssa.BasicBlock]bool
	seen     map[string]map[string]bool
	appends  map[*ssa.BasicBlock]*appendLoop
	varying  map[string]bool
	work     []*State
	Inlined  map[*ssa.Function]bool
	FnParams []*T
}

// NewEngine returns an engine over a program.
func NewEngine(prog *ssa.Program, module func(*ssa.Function) bool) *Engine {
	return &Engine{Prog: prog, Module: module, MaxStates: 400000, ConstLimit: 20, PartLimit: 6, StrLimit: 20, LowLimit: 3, OffLimit: 3,
		Visited: map[string]struct{}{}, Reached: map[ssa.Instruction]bool{}, live: map[*ssa.Function]*liveness{},
		orders: map[*ssa.Function][]ssa.Value{}, headers: map[*ssa.Function]map[*ssa.BasicBlock]bool{},
		seen: map[string]map[string]bool{}, varying: map[string]bool{}, Inlined: map[*ssa.Function]bool{}}
}

// ---- liveness

type liveness struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
	at map[[2]int]map[ssa.Value]bool
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (e *Engine) liveness(fn *ssa.Function) *liveness {
	if l, ok := e.live[fn]; ok {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, at: map[[2]int]map[ssa.Value]bool{}}
	e.live[fn] = l
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			s := l.out(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				step(b.Instrs[j], s)
				e.stepCells(b.Instrs[j], s)
			}
			if len(s) != len(l.in[b]) {
				changed = true
			}
			l.in[b] = s
		}
	}
	return l
}

// cell stands for the memory of a local variable whose address is only loaded from and stored to.
type cell struct{ *ssa.Alloc }

func localCell(v ssa.Value) (cell, bool) {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return cell{}, false
	}
	var only func(v ssa.Value, top bool) bool
	only = func(v ssa.Value, top bool) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == v {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !top || !only(r, false) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return cell{a}, only(a, true)
}

// stepCells updates the live cells.
func (e *Engine) stepCells(ins ssa.Instruction, s map[ssa.Value]bool) {
	get := func(v ssa.Value) (cell, bool) {
		a, ok := v.(*ssa.Alloc)
		if !ok {
			return cell{}, false
		}
		c, known := e.cells[a]
		if !known {
			if x, ok := localCell(a); ok {
				c = &x
			}
			if e.cells == nil {
				e.cells = map[*ssa.Alloc]*cell{}
			}
			e.cells[a] = c
		}
		if c == nil {
			return cell{}, false
		}
		return *c, true
	}
	switch ins := ins.(type) {
	case *ssa.Alloc:
		if c, ok := get(ins); ok {
			delete(s, c)
		}
	case *ssa.Store:
		if c, ok := get(ins.Addr); ok {
			delete(s, c)
		}
	case *ssa.UnOp:
		x := ins.X
		if f, ok := x.(*ssa.FieldAddr); ok {
			x = f.X
		}
		if c, ok := get(x); ok {
			s[c] = true
		}
	}
}

func (e *Engine) isCell(v ssa.Value) (cell, bool) {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return cell{}, false
	}
	c := e.cells[a]
	if c == nil {
		return cell{}, false
	}
	return *c, true
}

func step(ins ssa.Instruction, s map[ssa.Value]bool) {
	if v, ok := ins.(ssa.Value); ok {
		delete(s, v)
	}
	if _, ok := ins.(*ssa.Phi); ok {
		return
	}
	var ops [16]*ssa.Value
	for _, op := range ins.Operands(ops[:0]) {
		if op != nil && *op != nil && tracked(*op) {
			s[*op] = true
		}
	}
}

func (l *liveness) out(b *ssa.BasicBlock) map[ssa.Value]bool {
	s := map[ssa.Value]bool{}
	for _, c := range b.Succs {
		for v := range l.in[c] {
			s[v] = true
		}
		for _, ins := range c.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range c.Preds {
				if pr == b && tracked(p.Edges[k]) {
					s[p.Edges[k]] = true
				}
			}
		}
	}
	return s
}

// liveAt returns the values live before instruction idx of a block. Phis count as live at their block's entry.
func (e *Engine) liveAt(fn *ssa.Function, b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	l := e.liveness(fn)
	k := [2]int{b.Index, idx}
	if s, ok := l.at[k]; ok {
		return s
	}
	s := l.out(b)
	for j := len(b.Instrs) - 1; j >= idx; j-- {
		step(b.Instrs[j], s)
		e.stepCells(b.Instrs[j], s)
	}
	l.at[k] = s
	return s
}

func (e *Engine) order(fn *ssa.Function) []ssa.Value {
	if o, ok := e.orders[fn]; ok {
		return o
	}
	var o []ssa.Value
	for _, p := range fn.Params {
		o = append(o, p)
	}
	for _, p := range fn.FreeVars {
		o = append(o, p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				o = append(o, v)
			}
		}
	}
	e.orders[fn] = o
	return o
}

func (e *Engine) isHeader(b *ssa.BasicBlock) bool {
	fn := b.Parent()
	h, ok := e.headers[fn]
	if !ok {
		h = map[*ssa.BasicBlock]bool{}
		// targets of the retreating edges of a depth-first search
		on, done := map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
		var dfs func(x *ssa.BasicBlock)
		dfs = func(x *ssa.BasicBlock) {
			on[x], done[x] = true, true
			for _, s := range x.Succs {
				if on[s] {
					h[s] = true
				} else if !done[s] {
					dfs(s)
				}
			}
			on[x] = false
		}
		dfs(fn.Blocks[0])
		e.headers[fn] = h
	}
	return h[b]
}

// ---- running

// Start prepares a state at the entry of fn.
func (e *Engine) Start(st *State, fn *ssa.Function, args, binds []*T) {
	st.Enter(fn, args, binds, nil)
}

// Enter pushes a frame.
func (st *State) Enter(fn *ssa.Function, args, binds []*T, call ssa.Instruction) {
	f := &Frame{Fn: fn, Block: fn.Blocks[0], Env: map[ssa.Value]*T{}, Call: call}
	for i, p := range fn.Params {
		if i < len(args) {
			f.Env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			f.Env[p] = binds[i]
		}
	}
	st.push(f)
	st.E.Inlined[fn] = true
}

// Run explores everything reachable from the given states.
func (e *Engine) Run(sts ...*State) {
	e.work = append(e.work, sts...)
	for len(e.work) > 0 && !e.Stop {
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.States++
		if e.States > e.MaxStates {
			e.Overflow = true
			e.work = nil
			return
		}
		e.run(st)
	}
}

func (e *Engine) fork(st *State) { e.work = append(e.work, st) }

func (e *Engine) run(st *State) {
	for {
		if st.dead {
			return
		}
		f := st.Top()
		if f.Idx >= len(f.Block.Instrs) {
			return
		}
		ins := f.Block.Instrs[f.Idx]
		e.Steps++
		e.Reached[ins] = true
		if e.Steps > 200000000 {
			e.Overflow = true
			return
		}
		if !e.step(st, f, ins) {
			return
		}
	}
}

// Pos of an instruction.
func Pos(ins ssa.Instruction) token.Pos {
	if p := ins.Pos(); p.IsValid() {
		return p
	}
	// the nearest instruction of the block with a position
	b := ins.Block()
	if b == nil {
		return token.NoPos
	}
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return b.Parent().Pos()
}

func (e *Engine) where(ins ssa.Instruction) string {
	p := e.Prog.Fset.Position(Pos(ins))
	n := p.Filename
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return fmt.Sprintf("%s:%d", n, p.Line)
}

// enter moves to a block; phis are evaluated on the edge. It returns false if the state was seen.
func (e *Engine) enter(st *State, b *ssa.BasicBlock) bool {
	f := st.Top()
	prev := f.Block
	k := -1
	for i, p := range b.Preds {
		if p == prev {
			k = i
		}
	}
	var vals []*T
	n := 0
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, st.Val(f, p.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		f.Env[b.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	f.Block, f.Idx = b, n
	if e.isHeader(b) {
		if l := e.appendLoop(b); l != nil && !b.Dominates(prev) {
			if e.appendAll(st, l) {
				return !st.dead && e.enter(st, l.exit)
			}
		}
		if e.OnHeader != nil {
			e.OnHeader(st, b)
		}
		e.widen(st, b)
	}
	if len(b.Preds) > 1 || e.isHeader(b) {
		return e.visit(st)
	}
	return true
}

func (e *Engine) visit(st *State) bool {
	k := st.Canon()
	if st.dead {
		return false
	}
	e.Joins++
	if _, ok := e.Visited[k]; ok {
		return false
	}
	e.Visited[k] = struct{}{}
	if statOn {
		e.stat(st)
	}
	if e.Debug {
		fmt.Printf("VISIT %d\n%s", len(e.Visited), st.Dump())
	}
	return true
}

// Val is the value of an operand.
func (st *State) Val(f *Frame, v ssa.Value) *T {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return ZeroOf(v.Type())
		}
		return constOf(v.Value, v.Type())
	case *ssa.Global:
		return Named("&"+v.String(), v.Type())
	case *ssa.Function:
		return FnVal(v)
	case *ssa.Builtin:
		return Named("builtin "+v.Name(), v.Type())
	}
	t, ok := f.Env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, f.Fn))
	}
	return t
}

func constOf(c constant.Value, t types.Type) *T {
	if c.Kind() == constant.Int {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Const(constant.ToFloat(c), t)
		}
	}
	return Const(c, t)
}

func (e *Engine) oblige(st *State, kind string, ok bool, ins ssa.Instruction, f string, a ...interface{}) {
	if e.Obligation != nil {
		e.Obligation(st, kind, ok, ins, fmt.Sprintf(f, a...))
	}
}

func (e *Engine) imprecise(st *State, ins ssa.Instruction, f string, a ...interface{}) {
	if e.Imprecise != nil {
		e.Imprecise(st, fmt.Sprintf(f, a...), ins)
	}
}

// branch splits on a condition and continues each feasible side with k.
func (st *State) Split(c *T) (yes, no *State) {
	switch st.Eval(c) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	n := st.Clone()
	if n.Assume(c, false) && !n.dead {
		no = n
	}
	if st.Assume(c, true) && !st.dead {
		yes = st
	}
	return
}

// step executes one instruction. It returns false when the state has been handed over or has ended.
func (e *Engine) step(st *State, f *Frame, ins ssa.Instruction) bool {
	set := func(v ssa.Value, t *T) {
		f.Env[v] = st.norm(t)
		f.Idx++
	}
	switch i := ins.(type) {
	case *ssa.DebugRef, *ssa.Phi:
		f.Idx++
	case *ssa.Jump:
		return e.enter(st, f.Block.Succs[0])
	case *ssa.If:
		c := st.norm(st.Val(f, i.Cond))
		r := st.Eval(c)
		if r == 0 {
			n := st.Clone()
			if n.Assume(c, false) && !n.dead {
				n.Note(fmt.Sprintf("%s: %s is false", e.where(ins), short(c)))
				if e.OnBranch != nil {
					e.OnBranch(n, c, false, i)
				}
				if e.enter(n, n.Top().Block.Succs[1]) {
					e.fork(n)
				}
			}
			if !st.Assume(c, true) || st.dead {
				return false
			}
			st.Note(fmt.Sprintf("%s: %s is true", e.where(ins), short(c)))
			if e.OnBranch != nil {
				e.OnBranch(st, c, true, i)
			}
			return e.enter(st, st.Top().Block.Succs[0])
		}
		if e.OnBranch != nil {
			e.OnBranch(st, c, r == 1, i)
		}
		if r == 1 {
			return e.enter(st, f.Block.Succs[0])
		}
		return e.enter(st, f.Block.Succs[1])
	case *ssa.Alloc:
		et := i.Type().Underlying().(*types.Pointer).Elem()
		set(i, st.FreshObj("new "+allocName(i), et))
	case *ssa.BinOp:
		return e.binop(st, f, i)
	case *ssa.UnOp:
		return e.unop(st, f, i)
	case *ssa.ChangeInterface:
		set(i, st.Val(f, i.X))
	case *ssa.ChangeType:
		set(i, st.Val(f, i.X))
	case *ssa.MultiConvert:
		set(i, App("convert:"+typeKey(i.Type()), i.Type(), st.Val(f, i.X)))
	case *ssa.Convert:
		set(i, convert(st, st.Val(f, i.X), i.X.Type(), i.Type()))
	case *ssa.Extract:
		t := st.Val(f, i.Tuple)
		set(i, App("extract", i.Type(), t, Int(int64(i.Index))))
	case *ssa.Field:
		set(i, st.fieldOf(st.Val(f, i.X), i.Field, i.Type()))
	case *ssa.FieldAddr:
		x := st.Val(f, i.X)
		e.nilDeref(st, x, ins)
		set(i, FieldAddr(x, i.Field))
	case *ssa.Index:
		x, k := st.Val(f, i.X), st.Val(f, i.Index)
		if isStringish(x) {
			e.bounds(st, ins, "index", x, k)
			set(i, App("byteat", i.Type(), x, k))
		} else {
			set(i, App("aindex", i.Type(), x, k))
		}
	case *ssa.IndexAddr:
		x, k := st.Val(f, i.X), st.Val(f, i.Index)
		if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			n := p.Elem().Underlying().(*types.Array).Len()
			ok := st.Eval(Le(Int(0), k)) == 1 && st.Eval(Lt(k, Int(n))) == 1
			e.oblige(st, "index", ok, ins, "index %s of an array of %d", k, n)
			set(i, raw("elem", nil, raw("arr", nil, x), k))
			return true
		}
		e.bounds(st, ins, "index", x, k)
		for x.Is("subslice") {
			if lo, ok := x.Args[1].IsInt(); ok {
				x, k = x.Args[0], Add(k, lo)
			} else if c, ok := k.IsInt(); ok {
				x, k = x.Args[0], Add(x.Args[1], c)
			} else {
				break
			}
		}
		set(i, raw("elem", nil, x, k))
	case *ssa.Lookup:
		x, k := st.Val(f, i.X), st.Val(f, i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			e.bounds(st, ins, "index", x, k)
			set(i, App("byteat", i.Type(), x, k))
			return true
		}
		m := st.MapOf(x)
		vt := i.X.Type().Underlying().(*types.Map).Elem()
		has := st.norm(App("mhas", boolT, m, k))
		if x.K == KNil {
			has = False
		}
		for _, s := range e.splitStates(st, has) {
			ff := s.Top()
			mm, kk := s.MapOf(s.Val(ff, i.X)), s.Val(ff, i.Index)
			h := s.Eval(s.norm(App("mhas", boolT, mm, kk))) == 1
			var v *T
			if h {
				// a map that has something is not nil
				if mv := s.Val(ff, i.X); mv.K != KObj && s.Eval(Eq(mv, Nil)) == 0 {
					s.Assume(Eq(mv, Nil), false)
				}
				v = s.norm(App("mget", vt, mm, kk))
				if v.Typ == nil {
					v.Typ = vt
				}
				v = e.expand(s, v, vt)
			} else {
				v = ZeroOf(vt)
			}
			if e.OnLookup != nil {
				e.OnLookup(s, s.Val(ff, i.X), kk, h, v, i)
				ff = s.Top()
			}
			if i.CommaOk {
				v = Tuple(v, Bool(h))
			}
			ff.Env[i] = v
			ff.Idx++
			if s != st {
				e.fork(s)
			}
		}
		return !st.dead
	case *ssa.MakeChan:
		set(i, st.FreshObj("newchan "+i.Parent().Name(), i.Type()))
	case *ssa.MakeClosure:
		var bs []*T
		for _, b := range i.Bindings {
			bs = append(bs, st.Val(f, b))
		}
		set(i, FnVal(i.Fn.(*ssa.Function), bs...))
	case *ssa.MakeInterface:
		set(i, MakeIface(i.X.Type(), st.Val(f, i.X)))
	case *ssa.MakeMap:
		o := st.FreshObj("newmap", i.Type())
		st.SetMap(o, raw("mempty", nil))
		set(i, o)
	case *ssa.MakeSlice:
		n := st.Val(f, i.Len)
		e.oblige(st, "makeslice", st.Eval(Le(Int(0), n)) == 1, ins, "make with length %s", n)
		if c := st.Val(f, i.Cap); c != n {
			e.oblige(st, "makeslice", st.Eval(Le(n, c)) == 1, ins, "make with capacity %s", c)
		}
		if c, ok := n.IsInt(); ok && c == 0 {
			set(i, List(i.Type()))
		} else {
			set(i, raw("make", i.Type(), n))
		}
	case *ssa.MapUpdate:
		m, k, v := st.Val(f, i.Map), st.Val(f, i.Key), st.Val(f, i.Value)
		e.oblige(st, "nilmap", nonNil(m) || st.nonNilNow(m) || st.Eval(Eq(m, Nil)) == -1, ins, "assignment to an entry of the map %s, which may be nil", m)
		e.wrote(st, m, ins)
		if e.OnMapPut != nil {
			e.OnMapPut(st, m, k, v, ins)
		}
		st.SetMap(m, putMap(st, st.MapOf(m), k, v))
		f.Idx++
	case *ssa.Range:
		x := st.Val(f, i.X)
		if isStringish(x) {
			o := st.FreshObj("newiter", i.Type())
			st.cells(o)["!pos"] = Int(0)
			st.cells(o)["!over"] = x
			set(i, o)
			return true
		}
		set(i, raw("range", nil, x))
	case *ssa.Next:
		return e.next(st, f, i)
	case *ssa.Slice:
		return e.slice(st, f, i)
	case *ssa.Store:
		a, v := st.Val(f, i.Addr), st.Val(f, i.Val)
		e.nilDeref(st, a, ins)
		e.wrote(st, a, ins)
		if e.OnStore != nil {
			e.OnStore(st, a, v, i.Val.Type(), ins)
		}
		st.Store(a, v, i.Val.Type())
		f.Idx++
	case *ssa.TypeAssert:
		return e.typeAssert(st, f, i)
	case *ssa.Send:
		if e.Send != nil {
			e.Send(st, st.Val(f, i.Chan), st.Val(f, i.X), ins)
		}
		if st.dead {
			return false
		}
		f = st.Top()
		f.Idx++
	case *ssa.Go:
		c := e.callInfo(st, f, &i.Call, ins)
		if e.Go != nil {
			e.Go(st, c)
		}
		st.Top().Idx++
	case *ssa.Defer:
		c := e.callInfo(st, f, &i.Call, ins)
		c.Defer = true
		if e.Defer != nil && e.Defer(st, c) {
			st.Top().Idx++
			return true
		}
		d := Deferred{Instr: i, Fn: c.Callee, Args: c.Args}
		if d.Fn == nil {
			d.Fn = Nil
		}
		// a deferred call in a loop is kept once per site
		var ds []Deferred
		for _, x := range f.Defers {
			if x.Instr != i {
				ds = append(ds, x)
			}
		}
		f.Defers = append(ds, d)
		f.Idx++
	case *ssa.RunDefers:
		if len(f.Defers) == 0 {
			f.Idx++
			return true
		}
		d := f.Defers[len(f.Defers)-1]
		f.Defers = f.Defers[:len(f.Defers)-1]
		c := e.callInfoFrom(st, &d.Instr.Call, d.Instr, d.Fn, d.Args)
		return e.call(st, f, c, nil)
	case *ssa.Panic:
		e.oblige(st, "panic", false, ins, "panic(%s)", st.Val(f, i.X))
		return false
	case *ssa.Return:
		var rs []*T
		for _, r := range i.Results {
			rs = append(rs, st.norm(st.Val(f, r)))
		}
		return e.ret(st, f, rs, ins)
	case *ssa.Call:
		c := e.callInfo(st, f, &i.Call, ins)
		return e.call(st, f, c, i)
	default:
		e.imprecise(st, ins, "instruction %T", ins)
		if v, ok := ins.(ssa.Value); ok {
			set(v, st.FreshOf("unknown", v.Type()))
		} else {
			f.Idx++
		}
	}
	return !st.dead
}

func short(c *T) string {
	s := c.String()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func allocName(a *ssa.Alloc) string {
	if a.Comment != "" {
		return a.Comment
	}
	return a.Parent().Name()
}

// MakeIface wraps a value of a concrete type.
func MakeIface(t types.Type, v *T) *T {
	return raw("iface:"+typeKey(t), nil, v)
}

func (e *Engine) expand(st *State, v *T, t types.Type) *T {
	s := structOf(t)
	if s == nil || v.Is("struct") {
		return v
	}
	var fs []*T
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, st.fieldOf(v, i, s.Field(i).Type()))
	}
	return StructVal(t, fs...)
}

// splitStates splits a state on a condition; st is one of the results.
func (e *Engine) splitStates(st *State, c *T) []*State {
	if st.Eval(c) != 0 {
		return []*State{st}
	}
	n := st.Clone()
	var r []*State
	if st.Assume(c, true) && !st.dead {
		r = append(r, st)
	} else {
		st.dead = true
	}
	if n.Assume(c, false) && !n.dead {
		r = append(r, n)
	}
	return r
}

func putMap(st *State, m, k, v *T) *T {
	// drop an older entry of the same key
	if m.Is("mput") && m.Args[1] == k {
		m = m.Args[0]
	}
	return raw("mput", nil, m, k, v)
}

func (e *Engine) nilDeref(st *State, p *T, ins ssa.Instruction) {
	p = st.norm(p)
	if p.K == KNil {
		e.oblige(st, "nil", false, ins, "nil dereference")
		return
	}
	if _, glob := p.Typ, p.K == KSym && strings.HasPrefix(p.Op, "&"); !nonNil(p) && !glob {
		e.oblige(st, "nil", st.Eval(Eq(p, Nil)) == -1, ins, "dereference of %s, which may be nil", p)
	}
}

func (e *Engine) bounds(st *State, ins ssa.Instruction, kind string, x, k *T) {
	st.affixLen(x)
	ok := st.Eval(Le(Int(0), k)) == 1 && st.Eval(Lt(k, Len(x))) == 1
	e.oblige(st, kind, ok, ins, "index %s of %s with length %s", k, short(x), Len(x))
}

func (e *Engine) binop(st *State, f *Frame, i *ssa.BinOp) bool {
	x, y := st.Val(f, i.X), st.Val(f, i.Y)
	var t *T
	switch i.Op {
	case token.EQL:
		t = e.eq(st, x, y, i.X.Type())
	case token.NEQ:
		t = Not(e.eq(st, x, y, i.X.Type()))
	case token.LSS:
		t = cmp(st, x, y, true, i)
	case token.LEQ:
		t = cmp(st, x, y, false, i)
	case token.GTR:
		t = cmp(st, y, x, true, i)
	case token.GEQ:
		t = cmp(st, y, x, false, i)
	case token.ADD:
		if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			t = Cat(x, y)
		} else {
			t = App("+", i.Type(), x, y)
		}
	case token.QUO, token.REM:
		e.oblige(st, "div", st.Eval(Eq(y, Int(0))) == -1, i, "division by %s", y)
		t = App(i.Op.String(), i.Type(), x, y)
	case token.SHR, token.SHL:
		if b, ok := i.Y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
			e.oblige(st, "shift", st.Eval(Le(Int(0), y)) == 1, i, "shift by %s, which may be negative", y)
		}
		t = App(i.Op.String(), i.Type(), x, y)
	default:
		t = App(i.Op.String(), i.Type(), x, y)
	}
	if t.Typ == nil {
		t.Typ = i.Type()
	}
	f.Env[i] = st.norm(t)
	f.Idx++
	return true
}

func cmp(st *State, x, y *T, strict bool, i *ssa.BinOp) *T {
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if strict {
			return App("strlt", boolT, x, y)
		}
		return Not(App("strlt", boolT, y, x))
	}
	// unsigned: x > 0 is x != 0
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		if c, ok := x.IsInt(); ok && c == 0 && strict {
			return Not(Eq(y, Int(0)))
		}
		if c, ok := y.IsInt(); ok && c == 1 && strict {
			return Eq(x, Int(0))
		}
		if c, ok := x.IsInt(); ok && c == 1 && !strict {
			return Not(Eq(y, Int(0)))
		}
	}
	if strict {
		return Lt(x, y)
	}
	return Le(x, y)
}

func (e *Engine) eq(st *State, x, y *T, t types.Type) *T {
	if x.Is("struct") && y.Is("struct") {
		var cs []*T
		for k := range x.Args {
			cs = append(cs, Eq(x.Args[k], y.Args[k]))
		}
		return And(cs...)
	}
	return Eq(st.norm(x), st.norm(y))
}

// And is a conjunction.
func And(cs ...*T) *T {
	var out []*T
	for _, c := range cs {
		if b, ok := c.IsBool(); ok {
			if !b {
				return False
			}
			continue
		}
		out = append(out, c)
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return raw("and", boolT, out...)
}

// Or is a disjunction.
func Or(cs ...*T) *T {
	var out []*T
	for _, c := range cs {
		if b, ok := c.IsBool(); ok {
			if b {
				return True
			}
			continue
		}
		out = append(out, c)
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return raw("or", boolT, out...)
}

func (e *Engine) unop(st *State, f *Frame, i *ssa.UnOp) bool {
	x := st.Val(f, i.X)
	switch i.Op {
	case token.MUL:
		e.nilDeref(st, x, i)
		v := st.Load(x, i.Type())
		if e.OnLoad != nil {
			e.OnLoad(st, x, v, i)
		}
		f.Env[i] = v
	case token.NOT:
		f.Env[i] = Not(x)
	case token.SUB:
		if c, ok := x.IsInt(); ok {
			f.Env[i] = Int(-c)
		} else {
			f.Env[i] = App("neg", i.Type(), x)
		}
	case token.ARROW:
		vt := i.X.Type().Underlying().(*types.Chan).Elem()
		if e.Recv != nil {
			if out, ok := e.Recv(st, x, i.CommaOk, vt, i); ok {
				return e.outcomes(st, out, i)
			}
		}
		v := st.FreshOf("recv", vt)
		if !i.CommaOk {
			f.Env[i] = v
			break
		}
		n := st.Clone()
		nf := n.Top()
		nf.Env[i] = Tuple(ZeroOf(vt), False)
		nf.Idx++
		e.fork(n)
		f = st.Top()
		f.Env[i] = Tuple(v, True)
	default:
		if c, ok := x.IsInt(); ok && i.Op == token.XOR {
			f.Env[i] = Int(^c)
		} else {
			f.Env[i] = App("u"+i.Op.String(), i.Type(), x)
		}
	}
	f.Idx++
	return true
}

// outcomes assigns results and continues with every state.
func (e *Engine) outcomes(st *State, out []Outcome, v ssa.Value) bool {
	cont := false
	for _, o := range out {
		if o.St == nil || o.St.dead {
			continue
		}
		f := o.St.Top()
		if v != nil {
			r := o.Res
			if r == nil {
				r = Nil
			}
			f.Env[v] = o.St.norm(r)
		}
		if _, ok := f.Block.Instrs[f.Idx].(*ssa.RunDefers); !ok {
			f.Idx++
		}
		if o.St == st {
			cont = true
		} else {
			e.fork(o.St)
		}
	}
	return cont
}

func convert(st *State, x *T, from, to types.Type) *T {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	fs, ok3 := from.Underlying().(*types.Slice)
	ts, ok4 := to.Underlying().(*types.Slice)
	switch {
	case ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return x
	case ok1 && ok2 && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return x
	case ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		return App("runestr", strT, x)
	case ok3 && ok2 && tb.Info()&types.IsString != 0:
		if b, ok := fs.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return App("string", strT, x)
		}
		return App("runesstr", strT, x)
	case ok1 && ok4 && fb.Info()&types.IsString != 0:
		if b, ok := ts.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return App("bytes", to, x)
		}
		return App("runes", to, x)
	}
	return App("convert:"+typeKey(to), to, x)
}

func (e *Engine) next(st *State, f *Frame, i *ssa.Next) bool {
	it := st.Val(f, i.Iter)
	tup := i.Type().(*types.Tuple)
	if i.IsString {
		pos := st.cells(it)["!pos"]
		over := st.cells(it)["!over"]
		if s, ok := over.IsStr(); ok {
			if p, ok := pos.IsInt(); ok {
				if p >= int64(len(s)) {
					f.Env[i] = Tuple(False, Int(0), Int(0))
					f.Idx++
					return true
				}
				for k, c := range s[p:] {
					_ = k
					f.Env[i] = Tuple(True, Int(p), Int(int64(c)))
					st.cells(it)["!pos"] = Int(p + int64(len(string(c))))
					f.Idx++
					return true
				}
			}
		}
		n := st.Clone()
		nf := n.Top()
		nf.Env[i] = Tuple(False, Int(0), Int(0))
		nf.Idx++
		if e.OnNext != nil {
			e.OnNext(n, it, nil, nil, false, i)
		}
		if !n.dead {
			e.fork(n)
		}
		k := st.Fresh("natpos", intT)
		r := st.Fresh("rune", types.Typ[types.Rune])
		f = st.Top()
		f.Env[i] = Tuple(True, k, r)
		f.Idx++
		st.addDiff(k, mustLin(Len(over)), linOff(Len(over))-1)
		st.cells(it)["!pos"] = st.Fresh("natpos", intT)
		if e.OnNext != nil {
			e.OnNext(st, it, k, r, true, i)
		}
		return !st.dead
	}
	x := Nil
	if it.Is("range") {
		x = it.Args[0]
	}
	m := st.MapOf(x)
	n := st.Clone()
	nf := n.Top()
	nf.Env[i] = Tuple(False, ZeroOf(tup.At(1).Type()), ZeroOf(tup.At(2).Type()))
	nf.Idx++
	if e.OnNext != nil {
		e.OnNext(n, it, nil, nil, false, i)
	}
	if !n.dead {
		e.fork(n)
	}
	if m.Is("mempty") {
		return false
	}
	mt, _ := rangeMap(i)
	k := st.FreshOf("key", mt.Key())
	st.Assume(raw("mhas", boolT, m, k), true)
	v := raw("mget", mt.Elem(), m, k)
	v = e.expand(st, v, mt.Elem())
	f = st.Top()
	f.Env[i] = Tuple(True, k, v)
	f.Idx++
	if e.OnNext != nil {
		e.OnNext(st, it, k, v, true, i)
	}
	return !st.dead
}

func rangeMap(i *ssa.Next) (*types.Map, bool) {
	m, ok := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	return m, ok
}

func mustLin(t *T) *T   { a, _ := Lin(t); return a }
func linOff(t *T) int64 { _, o := Lin(t); return o }

func (e *Engine) slice(st *State, f *Frame, i *ssa.Slice) bool {
	x := st.Val(f, i.X)
	lo, hi := Int(0), Nil
	if i.Low != nil {
		lo = st.Val(f, i.Low)
	}
	if i.High != nil {
		hi = st.Val(f, i.High)
	}
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		// slice of an array in memory
		arr := p.Elem().Underlying().(*types.Array)
		l, ok1 := lo.IsInt()
		h := arr.Len()
		ok2 := true
		if hi.K != KNil {
			h, ok2 = hi.IsInt()
		}
		if ok1 && ok2 && h <= 4096 {
			var ps []*T
			for k := l; k < h; k++ {
				ps = append(ps, El(st.Load(raw("elem", nil, raw("arr", nil, x), Int(k)), arr.Elem())))
			}
			f.Env[i] = List(i.Type(), ps...)
		} else {
			f.Env[i] = raw("arrslice", i.Type(), x, lo, hi)
		}
		f.Idx++
		return true
	}
	l := Len(x)
	h := hi
	if h.K == KNil {
		h = l
	}
	st.affixLen(x)
	ok := st.Eval(Le(Int(0), lo)) == 1 && st.Eval(Le(lo, h)) == 1
	if i.High != nil && !isStringish(x) {
		// up to the capacity; only the length is known
		ok = ok && st.Eval(Le(h, l)) == 1
	} else if i.High != nil {
		ok = ok && st.Eval(Le(h, l)) == 1
	}
	e.oblige(st, "slice", ok, i, "[%s:%s] of %s with length %s", lo, h, short(x), l)
	op := "subslice"
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		op = "substr"
	}
	t := App(op, i.Type(), x, lo, hi)
	if t.Typ == nil {
		t.Typ = i.Type()
	}
	f.Env[i] = st.norm(t)
	f.Idx++
	return true
}

// affixLen adds what is known about the start and the end of a string to what is known about its length.
func (st *State) affixLen(x *T) {
	if !isStringish(x) || st.Eval(Le(Int(1), Len(x))) == 1 {
		return
	}
	for _, a := range sortedAtoms(st.Atoms) {
		if !st.Atoms[a] || !(a.Is("hasprefix") || a.Is("hassuffix")) {
			continue
		}
		if c, ok := a.Args[1].IsStr(); ok && c != "" && st.Eval(App(a.Op, boolT, x, a.Args[1])) == 1 {
			st.addDiff(nil, Len(x), -int64(len(c)))
			return
		}
	}
}

func sortedAtoms(m map[*T]bool) []*T {
	var r []*T
	for a := range m {
		r = append(r, a)
	}
	sortTerms(r)
	return r
}

// IsType is the condition that an interface holds a type.
func IsType(x *T, t types.Type) *T {
	if x.K == KNil {
		return False
	}
	if strings.HasPrefix(x.Op, "iface:") && x.K == KApp {
		if _, ok := t.Underlying().(*types.Interface); !ok {
			return Bool(x.Op == "iface:"+typeKey(t))
		}
	}
	if x.Is("errnew") && strings.Contains(typeKey(t), "ParseError") {
		return False
	}
	return raw("is:"+typeKey(t), boolT, x)
}

// AsType is the value of type t that an interface holds.
func AsType(x *T, t types.Type) *T {
	if strings.HasPrefix(x.Op, "iface:") && x.K == KApp {
		if _, ok := t.Underlying().(*types.Interface); !ok {
			return x.Args[0]
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x
	}
	return raw("as:"+typeKey(t), t, x)
}

func (e *Engine) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) bool {
	x := st.norm(st.Val(f, i.X))
	c := IsType(x, i.AssertedType)
	if !i.CommaOk {
		e.oblige(st, "typeassert", st.Eval(c) == 1, i, "type assertion of %s to %s", short(x), i.AssertedType)
		f.Env[i] = AsType(x, i.AssertedType)
		f.Idx++
		return true
	}
	for _, s := range e.splitStates(st, c) {
		ff := s.Top()
		xx := s.norm(s.Val(ff, i.X))
		if s.Eval(IsType(xx, i.AssertedType)) == 1 {
			v := AsType(xx, i.AssertedType)
			if v.K == KSym || v.Is("as:"+typeKey(i.AssertedType)) {
				s.Assume(Eq(xx, Nil), false)
			}
			ff.Env[i] = Tuple(e.expand(s, v, i.AssertedType), True)
		} else {
			ff.Env[i] = Tuple(ZeroOf(i.AssertedType), False)
		}
		ff.Idx++
		if s != st {
			e.fork(s)
		}
	}
	return !st.dead
}

// ---- calls

func (e *Engine) callInfo(st *State, f *Frame, c *ssa.CallCommon, ins ssa.Instruction) *CallInfo {
	var callee *T
	if c.IsInvoke() {
		callee = st.norm(st.Val(f, c.Value))
	} else {
		callee = st.norm(st.Val(f, c.Value))
	}
	var args []*T
	for _, a := range c.Args {
		args = append(args, st.norm(st.Val(f, a)))
	}
	return e.callInfoFrom(st, c, ins, callee, args)
}

func (e *Engine) callInfoFrom(st *State, c *ssa.CallCommon, ins ssa.Instruction, callee *T, args []*T) *CallInfo {
	ci := &CallInfo{Instr: ins, Common: c, Callee: callee, Args: args}
	if v, ok := ins.(ssa.Value); ok {
		ci.Typ = v.Type()
	} else {
		ci.Typ = c.Signature().Results()
	}
	if c.IsInvoke() {
		// a known dynamic type resolves the method
		if callee.K == KApp && strings.HasPrefix(callee.Op, "iface:") {
			if fn := e.methodOf(strings.TrimPrefix(callee.Op, "iface:"), c.Method); fn != nil {
				ci.Fn = fn
				ci.Args = append([]*T{callee.Args[0]}, args...)
				ci.Callee = FnVal(fn)
				ci.Name = fn.String()
				return ci
			}
		}
		ci.Name = "invoke " + types.TypeString(c.Value.Type(), nil) + "." + c.Method.Name()
		return ci
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.Name = "builtin " + b.Name()
		return ci
	}
	if callee != nil && callee.K == KFunc {
		ci.Fn = callee.Fn
		ci.Name = callee.Fn.String()
		return ci
	}
	ci.Name = "dynamic"
	return ci
}

var typeByKey = map[string]types.Type{}

func (e *Engine) methodOf(key string, m *types.Func) *ssa.Function {
	var t types.Type
	for k, s := range tids {
		if s == key {
			t = k
			break
		}
	}
	if t == nil {
		return nil
	}
	ms := e.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.Prog.MethodValue(sel)
}

func (e *Engine) call(st *State, f *Frame, c *CallInfo, v *ssa.Call) bool {
	var val ssa.Value
	if v != nil {
		val = v
	}
	if e.Call != nil {
		if out, ok := e.Call(st, c); ok {
			return e.outcomes(st, out, val)
		}
	}
	if strings.HasPrefix(c.Name, "builtin ") {
		return e.builtin(st, f, c, v)
	}
	if c.Fn != nil && len(c.Fn.Blocks) > 0 && (e.Module(c.Fn) || c.Fn.Synthetic != "" && e.moduleWrapper(c.Fn)) {
		depth := 0
		for _, fr := range st.Frames {
			if fr.Fn == c.Fn {
				depth++
			}
		}
		if depth > 0 || len(st.Frames) > 40 {
			if e.Recursive != nil {
				return e.outcomes(st, e.Recursive(st, c), val)
			}
			e.imprecise(st, c.Instr, "recursive call of %s", c.Name)
			return e.outcomes(st, []Outcome{{st, st.FreshOf("rec:"+c.Fn.Name(), c.Typ)}}, val)
		}
		var binds []*T
		if c.Callee != nil && c.Callee.K == KFunc {
			binds = c.Callee.Args
		}
		st.Enter(c.Fn, c.Args, binds, c.Instr)
		if v == nil {
			st.Top().Call = nil
			st.Top().Tag = "deferred"
		}
		return true
	}
	if len(c.Args) > 0 && writesArg(c.Name) {
		a := c.Args[0]
		if strings.HasPrefix(a.Op, "iface:") {
			a = a.Args[0]
		}
		e.wrote(st, a, c.Instr)
		if st.dead {
			return false
		}
	}
	if m := models[c.Name]; m != nil {
		return e.outcomes(st, m(st, c), val)
	}
	// generic instances: slices.Contains[...]
	if k := strings.IndexByte(c.Name, '['); k > 0 {
		if m := models[c.Name[:k]]; m != nil {
			return e.outcomes(st, m(st, c), val)
		}
	}
	if pureName(c.Name) {
		return e.outcomes(st, []Outcome{{st, pureResult(c)}}, val)
	}
	if e.Ext != nil {
		e.Ext(st, c)
	}
	// an unknown function: fresh results; memory passed by pointer is forgotten
	for _, a := range c.Args {
		p := a
		if p.K == KApp && strings.HasPrefix(p.Op, "iface:") {
			p = p.Args[0]
		}
		r, _ := splitAddr(p)
		if r.K == KObj && isPointerLike(r) {
			st.Havoc(p)
		}
	}
	label := c.Name
	if c.Fn != nil {
		label = c.Fn.Name()
	} else if c.Common.IsInvoke() {
		label = c.Common.Method.Name()
	}
	return e.outcomes(st, []Outcome{{st, st.FreshOf(label, c.Typ)}}, val)
}

func isPointerLike(t *T) bool { return strings.HasPrefix(t.Op, "new") }

func (e *Engine) moduleWrapper(fn *ssa.Function) bool {
	// bound methods and promoted-method wrappers of module types
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		for _, p := range e.Prog.AllPackages() {
			if p.Pkg == o.Pkg() {
				for _, m := range p.Members {
					if f, ok := m.(*ssa.Function); ok && len(f.Blocks) > 0 {
						return e.Module(f)
					}
				}
			}
		}
	}
	return false
}

func pureResult(c *CallInfo) *T {
	args := c.Args
	if t, ok := c.Typ.(*types.Tuple); ok {
		if t.Len() == 0 {
			return Nil
		}
		if t.Len() > 1 {
			var fs []*T
			for i := 0; i < t.Len(); i++ {
				x := App(fmt.Sprintf("call:%s#%d", c.Name, i), t.At(i).Type(), args...)
				fs = append(fs, x)
			}
			return Tuple(fs...)
		}
	}
	return App("call:"+c.Name, c.Typ, args...)
}

func (e *Engine) ret(st *State, f *Frame, rs []*T, ins ssa.Instruction) bool {
	if len(st.Frames) == 1 {
		if e.Return != nil {
			e.Return(st, rs, ins)
		}
		return false
	}
	call := f.Call
	var args []*T
	if e.OnCallRet != nil {
		for _, p := range f.Fn.Params {
			args = append(args, f.Env[p])
		}
	}
	fn := f.Fn
	multi := len(f.Fn.Blocks) > 1
	st.pop()
	g := st.Top()
	res := Nil
	switch len(rs) {
	case 0:
	case 1:
		res = rs[0]
	default:
		res = Tuple(rs...)
	}
	if call == nil { // deferred
		if e.OnCallRet != nil {
			e.OnCallRet(st, fn, args, res)
		}
		return !multi || e.visit(st)
	}
	if v, ok := call.(ssa.Value); ok {
		g.Env[v] = res
	}
	g.Idx++
	if e.OnCallRet != nil {
		e.OnCallRet(st, fn, args, res)
	}
	if st.dead {
		return false
	}
	if multi {
		return e.visit(st)
	}
	return true
}

func (e *Engine) builtin(st *State, f *Frame, c *CallInfo, v *ssa.Call) bool {
	name := strings.TrimPrefix(c.Name, "builtin ")
	set := func(t *T) bool {
		if v != nil {
			f = st.Top()
			f.Env[v] = st.norm(t)
			f.Idx++
		}
		return !st.dead
	}
	switch name {
	case "len":
		x := c.Args[0]
		if _, ok := c.Common.Args[0].Type().Underlying().(*types.Map); ok {
			m := st.MapOf(x)
			if m.Is("mempty") || m.K == KNil {
				return set(Int(0))
			}
			return set(raw("len", intT, m))
		}
		if p, ok := c.Common.Args[0].Type().Underlying().(*types.Array); ok {
			return set(Int(p.Len()))
		}
		return set(Len(x))
	case "cap":
		return set(App("cap", intT, c.Args[0]))
	case "append":
		base := c.Args[0]
		if len(c.Args) == 1 {
			return set(base)
		}
		more := c.Args[1]
		if isStringish(more) {
			more = App("bytes", nil, more)
		}
		var r *T
		if base.K == KNil && more.Is("list") && len(more.Args) == 0 || more.K == KNil {
			r = base
		} else if isByteSlice(c.Common.Args[0].Type()) {
			r = App("bytes", v.Type(), Cat(App("string", strT, base), App("string", strT, more)))
			if base.K == KNil {
				r = App("bytes", v.Type(), App("string", strT, more))
			}
			if more.Is("list") {
				s, ok := byteList(more)
				if ok {
					b := App("string", strT, base)
					if base.K == KNil {
						b = Str("")
					}
					r = App("bytes", v.Type(), Cat(b, s))
				}
			}
		} else {
			r = List(v.Type(), append(listParts(base), listParts(more)...)...)
		}
		if r.Typ == nil {
			r.Typ = v.Type()
		}
		if e.OnAppend != nil {
			e.OnAppend(st, base, listParts(more), r, c.Instr)
		}
		return set(r)
	case "copy":
		e.wrote(st, c.Args[0], c.Instr)
		if l := copiedAll(st, c.Args[0], c.Args[1]); l != nil {
			st.update(c.Args[0], l)
		} else {
			st.Replace(c.Args[0], App("copied", c.Args[0].Typ, c.Args[0], c.Args[1]))
		}
		return set(App("call:copy", intT, c.Args[0], c.Args[1]))
	case "delete":
		m := c.Args[0]
		e.wrote(st, m, c.Instr)
		if m.K != KNil {
			st.SetMap(m, raw("mdel", nil, st.MapOf(m), c.Args[1]))
		}
		return set(Nil)
	case "close":
		if e.Send != nil {
			e.Send(st, c.Args[0], nil, c.Instr)
		}
		if st.dead {
			return false
		}
		if v == nil {
			return true
		}
		return set(Nil)
	case "min", "max":
		// split
		a, b := c.Args[0], c.Args[1]
		if len(c.Args) == 2 {
			cond := Le(a, b)
			for _, s := range e.splitStates(st, cond) {
				ff := s.Top()
				x, y := a, b
				if (s.Eval(cond) == 1) != (name == "min") {
					x = y
				}
				ff.Env[v] = s.norm(x)
				ff.Idx++
				if s != st {
					e.fork(s)
				}
			}
			return !st.dead
		}
		return set(App("call:"+name, intT, c.Args...))
	case "panic":
		e.oblige(st, "panic", false, c.Instr, "panic")
		return false
	case "print", "println", "recover", "clear":
		if name == "clear" && len(c.Args) > 0 && c.Args[0].K != KNil {
			e.wrote(st, c.Args[0], c.Instr)
			st.SetMap(c.Args[0], raw("mempty", nil))
		}
		return set(Nil)
	}
	if v == nil {
		return true
	}
	// ssa:wrapnilchk, real, imag, complex...
	if name == "ssa:wrapnilchk" {
		return set(c.Args[0])
	}
	return set(App("call:"+name, v.Type(), c.Args...))
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func byteList(l *T) (*T, bool) {
	var ps []*T
	for _, p := range l.Args {
		if !p.Is("el") {
			if p.Is("bytes") {
				ps = append(ps, p.Args[0])
				continue
			}
			return nil, false
		}
		if b, ok := p.Args[0].IsInt(); ok {
			ps = append(ps, Str(string([]byte{byte(b)})))
		} else {
			ps = append(ps, App("bytestr", strT, p.Args[0]))
		}
	}
	return Cat(ps...), true
}

// Fork explores another state.
func (e *Engine) Fork(st *State) { e.fork(st) }

func (e *Engine) wrote(st *State, target *T, ins ssa.Instruction) {
	if e.OnWrite != nil && target.K != KNil && !st.dead {
		e.OnWrite(st, target, ins)
	}
}
