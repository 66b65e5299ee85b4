package ai

import (
	"crypto/sha256"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trace is the path to a state, for reports.
type Trace struct {
	Up  *Trace
	Msg string
	N   int
}

// Deferred is a deferred call.
type Deferred struct {
	Instr *ssa.Defer
	Fn    *T
	Args  []*T
}

// Frame is an activation of a function.
type Frame struct {
	Fn     *ssa.Function
	Block  *ssa.BasicBlock
	Idx    int
	Env    map[ssa.Value]*T
	Call   ssa.Instruction // the call of the frame below, nil for the root and for deferred calls
	Defers []Deferred
	Tag    string
}

type dkey struct{ a, b *T }

// State is an abstract state.
type State struct {
	E      *Engine
	Frames []*Frame
	Heap   map[*T]map[string]*T
	Atoms  map[*T]bool
	Rew    map[*T]*T
	Diff   map[dkey]int64 // a - b <= c; nil stands for zero
	Ghost  map[string]*T
	Trace  *Trace
	next   int
	owned  map[int]bool // frames that this state may change
	hown   map[*T]bool  // heap roots that this state may change
	dead   bool
	noProd bool
}

// Clone copies a state.
func (st *State) Clone() *State {
	n := &State{E: st.E, Trace: st.Trace, next: st.next, dead: st.dead}
	n.Frames = append([]*Frame{}, st.Frames...)
	n.Heap = make(map[*T]map[string]*T, len(st.Heap))
	for k, v := range st.Heap {
		n.Heap[k] = v
	}
	n.Atoms = make(map[*T]bool, len(st.Atoms))
	for k, v := range st.Atoms {
		n.Atoms[k] = v
	}
	n.Rew = make(map[*T]*T, len(st.Rew))
	for k, v := range st.Rew {
		n.Rew[k] = v
	}
	n.Diff = make(map[dkey]int64, len(st.Diff))
	for k, v := range st.Diff {
		n.Diff[k] = v
	}
	n.Ghost = make(map[string]*T, len(st.Ghost))
	for k, v := range st.Ghost {
		n.Ghost[k] = v
	}
	// both sides lose ownership
	st.owned = nil
	st.hown = nil
	return n
}

// NewState returns an empty state.
func NewState(e *Engine) *State {
	return &State{E: e, Heap: map[*T]map[string]*T{}, Atoms: map[*T]bool{}, Rew: map[*T]*T{}, Diff: map[dkey]int64{}, Ghost: map[string]*T{}}
}

// Top returns the running frame, which may be changed.
func (st *State) Top() *Frame { return st.frame(len(st.Frames) - 1) }

func (st *State) frame(i int) *Frame {
	if st.owned == nil {
		st.owned = map[int]bool{}
	}
	if !st.owned[i] {
		f := *st.Frames[i]
		f.Env = make(map[ssa.Value]*T, len(f.Env)+4)
		for k, v := range st.Frames[i].Env {
			f.Env[k] = v
		}
		f.Defers = append([]Deferred{}, f.Defers...)
		st.Frames[i] = &f
		st.owned[i] = true
	}
	return st.Frames[i]
}

func (st *State) push(f *Frame) {
	st.Frames = append(st.Frames, f)
	if st.owned == nil {
		st.owned = map[int]bool{}
	}
	st.owned[len(st.Frames)-1] = true
}

func (st *State) pop() {
	if st.owned != nil {
		delete(st.owned, len(st.Frames)-1)
	}
	st.Frames = st.Frames[:len(st.Frames)-1]
}

func (st *State) cells(root *T) map[string]*T {
	c := st.Heap[root]
	if st.hown == nil {
		st.hown = map[*T]bool{}
	}
	if c == nil {
		c = map[string]*T{}
		st.Heap[root] = c
		st.hown[root] = true
		return c
	}
	if !st.hown[root] {
		n := make(map[string]*T, len(c)+1)
		for k, v := range c {
			n[k] = v
		}
		st.Heap[root] = n
		st.hown[root] = true
		return n
	}
	return c
}

// Note adds to the trace.
func (st *State) Note(msg string) {
	n := 1
	if st.Trace != nil {
		n = st.Trace.N + 1
	}
	st.Trace = &Trace{st.Trace, msg, n}
}

// Path renders the trace.
func (st *State) Path() []string {
	var r []string
	for t := st.Trace; t != nil && len(r) < 60; t = t.Up {
		r = append(r, t.Msg)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Fresh returns a new unknown.
func (st *State) Fresh(label string, t types.Type) *T {
	st.next++
	return intern(&T{K: KSym, Op: label, Typ: t, Num: st.next + 1000000})
}

// FreshCls returns a new unknown of a class.
func (st *State) FreshCls(label string, t types.Type, c *Class) *T {
	st.next++
	return intern(&T{K: KSym, Op: label, Typ: t, Num: st.next + 1000000, Cls: c})
}

// FreshObj returns a new object.
func (st *State) FreshObj(label string, t types.Type) *T {
	st.next++
	return intern(&T{K: KObj, Op: label, Typ: t, Num: st.next + 1000000})
}

// FreshOf returns a new unknown of any type; tuples and structs are decomposed.
func (st *State) FreshOf(label string, t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Tuple:
		var fs []*T
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, st.FreshOf(label+"."+strconv.Itoa(i), u.At(i).Type()))
		}
		return Tuple(fs...)
	case *types.Struct:
		if opaque(t) {
			break
		}
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, st.FreshOf(label+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return intern(&T{K: KApp, Op: "struct", Typ: t, Args: fs})
	}
	return st.Fresh(label, t)
}

// StructVal builds a struct value.
func StructVal(t types.Type, fs ...*T) *T {
	return intern(&T{K: KApp, Op: "struct", Typ: t, Args: fs})
}

// ---- memory

func splitAddr(a *T) (*T, string) {
	var path []string
	for {
		if a.Is("field") {
			i, _ := a.Args[1].IsInt()
			path = append(path, "."+strconv.FormatInt(i, 10))
			a = a.Args[0]
			continue
		}
		if a.Is("elem") && a.Args[0].Is("arr") {
			// element of an array in memory
			if i, ok := a.Args[1].IsInt(); ok {
				path = append(path, "["+strconv.FormatInt(i, 10)+"]")
				a = a.Args[0].Args[0]
				continue
			}
		}
		break
	}
	s := ""
	for i := len(path) - 1; i >= 0; i-- {
		s += path[i]
	}
	return a, s
}

// FieldAddr is the address of a field.
func FieldAddr(p *T, i int) *T { return raw("field", nil, p, Int(int64(i))) }

func structOf(t types.Type) *types.Struct {
	if t == nil || opaque(t) {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// Load reads memory.
func (st *State) Load(addr *T, typ types.Type) *T {
	if s := structOf(typ); s != nil {
		if root, _ := splitAddr(addr); root.Is("elem") && root == addr && st.Heap[root] == nil {
			x := st.norm(st.Index(root.Args[0], root.Args[1], typ))
			if x.Is("struct") {
				return x
			}
			var fs []*T
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, st.fieldOf(x, i, s.Field(i).Type()))
			}
			return StructVal(typ, fs...)
		}
		var fs []*T
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, st.Load(FieldAddr(addr, i), s.Field(i).Type()))
		}
		return StructVal(typ, fs...)
	}
	root, path := splitAddr(addr)
	cells := st.Heap[root]
	if v, ok := cells[path]; ok {
		return st.norm(v)
	}
	if root.K == KObj && strings.HasPrefix(root.Op, "new") {
		if _, hv := cells["!havoc"]; !hv {
			return ZeroOf(typ)
		}
	}
	if root.Is("elem") {
		if _, hv := cells["!havoc"]; !hv {
			x := st.norm(st.Index(root.Args[0], root.Args[1], nil))
			v := x
			a := addr
			var idx []int
			for a.Is("field") {
				i, _ := a.Args[1].IsInt()
				idx = append(idx, int(i))
				a = a.Args[0]
			}
			for i := len(idx) - 1; i >= 0; i-- {
				v = App("fieldof", typ, v, Int(int64(idx[i])))
			}
			if v.Typ == nil {
				v.Typ = typ
			}
			return st.norm(v)
		}
	}
	var t *T
	if st.E.Global != nil && addr.K == KSym {
		if v := st.E.Global(addr); v != nil {
			return v
		}
	}
	if hv, ok := cells["!havoc"]; ok {
		t = raw("load", typ, addr, hv)
	} else {
		t = raw("load", typ, addr)
	}
	if t.Typ == nil {
		t.Typ = typ
	}
	return st.norm(t)
}

func (st *State) fieldOf(x *T, i int, t types.Type) *T {
	if x.Is("struct") {
		return x.Args[i]
	}
	if s := structOf(t); s != nil {
		y := App("fieldof", t, x, Int(int64(i)))
		var fs []*T
		for j := 0; j < s.NumFields(); j++ {
			fs = append(fs, st.fieldOf(y, j, s.Field(j).Type()))
		}
		return StructVal(t, fs...)
	}
	y := App("fieldof", t, x, Int(int64(i)))
	if y.Typ == nil {
		y.Typ = t
	}
	return st.norm(y)
}

// Index is an element of a list.
func (st *State) Index(x, i *T, typ types.Type) *T {
	t := App("index", typ, x, i)
	for t.Is("index") && t.Args[0].Is("upd") {
		u := t.Args[0]
		switch st.Eval(Eq(u.Args[1], t.Args[1])) {
		case 1:
			return u.Args[2]
		case -1:
			t = App("index", typ, u.Args[0], t.Args[1])
		default:
			return t
		}
	}
	return t
}

// Store writes memory.
func (st *State) Store(addr, v *T, typ types.Type) {
	if s := structOf(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			st.Store(FieldAddr(addr, i), st.fieldOf(v, i, s.Field(i).Type()), s.Field(i).Type())
		}
		return
	}
	root, path := splitAddr(addr)
	if opaque(typ) && strings.HasPrefix(v.Op, "zero:") {
		c := st.cells(root)
		for k := range c {
			if strings.HasPrefix(k, path+"!") {
				delete(c, k)
			}
		}
		if root.K != KObj {
			c[path+"!sb"] = Str("")
		}
	}
	if strings.HasPrefix(v.Op, "zero:") && v.K == KApp {
		c := st.cells(root)
		for k := range c {
			if strings.HasPrefix(k, path+"[") {
				delete(c, k)
			}
		}
	}
	if root.Is("elem") && path == "" && !root.Args[0].Is("arr") {
		// a slice element: every holder of the slice sees the change
		x := root.Args[0]
		u := setIndex(st, x, root.Args[1], v)
		st.update(x, u)
		if x.Is("load") && len(x.Args) == 1 {
			// memory that was never written holds the slice
			r2, p2 := splitAddr(x.Args[0])
			st.cells(r2)[p2] = u
		}
		return
	}
	st.cells(root)[path] = v
}

// update replaces a slice by itself after an element was written, where it is held. What was read from it before
// and what is known about that stays.
func (st *State) update(from, to *T) {
	f := func(t *T) *T {
		if t == from {
			return to
		}
		if t.K == KApp && !(t.Op == "struct" || t.Op == "subslice" || t.Op == "tuple" || t.Op == "elem" || t.Op == "field" || strings.HasPrefix(t.Op, "iface:")) {
			return t
		}
		return nil
	}
	memo := map[*T]*T{}
	sub := func(t *T) *T { return subst(t, f, memo) }
	for i := range st.Frames {
		for k, v := range st.Frames[i].Env {
			if n := sub(v); n != v {
				st.frame(i).Env[k] = n
			}
		}
		for j, d := range st.Frames[i].Defers {
			nd := Deferred{d.Instr, sub(d.Fn), nil}
			for _, a := range d.Args {
				nd.Args = append(nd.Args, sub(a))
			}
			st.frame(i).Defers[j] = nd
		}
	}
	for r, c := range st.Heap {
		for k, v := range c {
			if n := sub(v); n != v {
				st.cells(r)[k] = n
			}
		}
	}
}

// Havoc forgets what memory reachable through p's root holds.
func (st *State) Havoc(p *T) {
	root, _ := splitAddr(p)
	st.Heap[root] = map[string]*T{"!havoc": st.Fresh("havoc", intT)}
	if st.hown == nil {
		st.hown = map[*T]bool{}
	}
	st.hown[root] = true
}

// SB is the content of a strings.Builder or bytes.Buffer.
func (st *State) SB(p *T) *T {
	root, path := splitAddr(p)
	if v, ok := st.Heap[root][path+"!sb"]; ok {
		return v
	}
	if root.K == KObj && strings.HasPrefix(root.Op, "new") {
		if _, hv := st.Heap[root]["!havoc"]; !hv {
			return Str("")
		}
	}
	return st.norm(raw("sbload", strT, p))
}

// SetSB sets the content of a strings.Builder or bytes.Buffer.
func (st *State) SetSB(p, v *T) {
	root, path := splitAddr(p)
	st.cells(root)[path+"!sb"] = v
}

// MapOf is the content of a map.
func (st *State) MapOf(m *T) *T {
	if m.K == KNil {
		return raw("mempty", nil)
	}
	if v, ok := st.Heap[m]["!map"]; ok {
		return v
	}
	return raw("mload", nil, m)
}

// SetMap sets the content of a map.
func (st *State) SetMap(m, v *T) { st.cells(m)["!map"] = v }

// ---- substitution

// Replace substitutes a term everywhere in the state.
func (st *State) Replace(from, to *T) {
	st.mapAll(func(t *T) *T {
		if t == from {
			return to
		}
		if t.size <= from.size {
			return t
		}
		return nil
	})
}

func (st *State) mapAll(f func(*T) *T) {
	memo := map[*T]*T{}
	sub := func(t *T) *T { return subst(t, f, memo) }
	for i := range st.Frames {
		fr := st.Frames[i]
		var ch bool
		for _, v := range fr.Env {
			if sub(v) != v {
				ch = true
				break
			}
		}
		for _, d := range fr.Defers {
			if sub(d.Fn) != d.Fn {
				ch = true
			}
			for _, a := range d.Args {
				if sub(a) != a {
					ch = true
				}
			}
		}
		if !ch {
			continue
		}
		fr = st.frame(i)
		for k, v := range fr.Env {
			fr.Env[k] = sub(v)
		}
		for j, d := range fr.Defers {
			nd := Deferred{d.Instr, sub(d.Fn), nil}
			for _, a := range d.Args {
				nd.Args = append(nd.Args, sub(a))
			}
			fr.Defers[j] = nd
		}
	}
	nh := make(map[*T]map[string]*T, len(st.Heap))
	for r, c := range st.Heap {
		nr := sub(r)
		var nc map[string]*T
		for k, v := range c {
			if nv := sub(v); nv != v {
				if nc == nil {
					nc = make(map[string]*T, len(c))
					for k2, v2 := range c {
						nc[k2] = v2
					}
				}
				nc[k] = nv
			}
		}
		if nc != nil {
			if st.hown == nil {
				st.hown = map[*T]bool{}
			}
			c = nc
			st.hown[nr] = true
		} else if nr != r && st.hown != nil && st.hown[r] {
			st.hown[nr] = true
		}
		nh[nr] = c
	}
	st.Heap = nh
	for k, v := range st.Ghost {
		st.Ghost[k] = sub(v)
	}
	na := make(map[*T]bool, len(st.Atoms))
	for a, b := range st.Atoms {
		s := sub(a)
		if c, ok := s.IsBool(); ok {
			if c != b {
				st.dead = true
			}
			continue
		}
		if s.Is("not") {
			s, b = s.Args[0], !b
		}
		if o, ok := na[s]; ok && o != b {
			st.dead = true
		}
		na[s] = b
	}
	st.Atoms = na
	nr := make(map[*T]*T, len(st.Rew))
	for a, b := range st.Rew {
		sa, sb := sub(a), sub(b)
		if sa == sb {
			continue
		}
		if sa.K == KConst || sa.K == KNil {
			if sb.K == KConst || sb.K == KNil {
				st.dead = true
			}
			continue
		}
		nr[sa] = sb
	}
	st.Rew = nr
	nd := make(map[dkey]int64, len(st.Diff))
	for k, c := range st.Diff {
		var a, b *T
		if k.a != nil {
			a = sub(k.a)
		}
		if k.b != nil {
			b = sub(k.b)
		}
		var i, j int64
		if a != nil {
			a, i = Lin(a)
		}
		if b != nil {
			b, j = Lin(b)
		}
		c = c - i + j
		if a == b {
			if c < 0 {
				st.dead = true
			}
			continue
		}
		if o, ok := nd[dkey{a, b}]; !ok || c < o {
			nd[dkey{a, b}] = c
		}
	}
	st.Diff = nd
}

// norm applies the equations of the state to a term.
func (st *State) norm(t *T) *T {
	for i := 0; i < 8; i++ {
		r, ok := st.Rew[t]
		if !ok {
			return t
		}
		t = r
	}
	return t
}

// Norm applies the equations of the state to a term and its subterms.
func (st *State) Norm(t *T) *T {
	if len(st.Rew) == 0 {
		return t
	}
	memo := map[*T]*T{}
	for i := 0; i < 4; i++ {
		n := subst(t, func(x *T) *T {
			if r, ok := st.Rew[x]; ok {
				return r
			}
			return nil
		}, memo)
		if n == t {
			return t
		}
		t = n
		memo = map[*T]*T{}
	}
	return t
}

// ---- canonical form

// Canon drops what is dead, renames unknowns and objects in order of appearance and returns a key.
func (st *State) Canon() string {
	type root struct {
		name string
		t    *T
	}
	var roots []root
	for i, f := range st.Frames {
		live := st.E.liveAt(f.Fn, f.Block, f.Idx)
		top := i == len(st.Frames)-1
		var dead []ssa.Value
		for v := range f.Env {
			if !live[v] {
				dead = append(dead, v)
			}
		}
		if len(dead) > 0 {
			f = st.frame(i)
			for _, v := range dead {
				delete(f.Env, v)
			}
		}
		for v, t := range f.Env {
			if c, ok := st.E.isCell(v); ok && !live[c] && t.K == KObj {
				if _, ok := st.Heap[t]; ok {
					delete(st.Heap, t)
					if st.hown != nil {
						delete(st.hown, t)
					}
				}
			}
		}
		_ = top
		order := st.E.order(f.Fn)
		for _, v := range order {
			if t, ok := f.Env[v]; ok {
				roots = append(roots, root{strconv.Itoa(i) + ":" + v.Name(), t})
			}
		}
		for j, d := range f.Defers {
			p := strconv.Itoa(i) + ":d" + strconv.Itoa(j)
			roots = append(roots, root{p, d.Fn})
			for k, a := range d.Args {
				roots = append(roots, root{p + "." + strconv.Itoa(k), a})
			}
		}
	}
	for _, k := range sortedKeys(st.Ghost) {
		roots = append(roots, root{"g:" + k, st.Ghost[k]})
	}
	num := map[*T]*T{}
	n := 0
	visited := map[*T]bool{}
	var queue []*T // heap roots to visit
	inq := map[*T]bool{}
	var visit func(t *T)
	visit = func(t *T) {
		if visited[t] {
			return
		}
		visited[t] = true
		if (t.K == KSym || t.K == KObj) && t.Num >= 0 {
			n++
			num[t] = intern(&T{K: t.K, Op: t.Op, Typ: t.Typ, Num: n, Cls: t.Cls})
		}
		for _, a := range t.Args {
			visit(a)
		}
		if _, ok := st.Heap[t]; ok && !inq[t] {
			inq[t] = true
			queue = append(queue, t)
		}
	}
	for _, r := range roots {
		visit(r.t)
	}
	// permanent heap roots
	var perm []*T
	for r := range st.Heap {
		if !r.tr {
			perm = append(perm, r)
		}
	}
	sort.Slice(perm, func(i, j int) bool { return perm[i].id < perm[j].id })
	for _, r := range perm {
		visit(r)
	}
	for len(queue) > 0 {
		r := queue[0]
		queue = queue[1:]
		c := st.Heap[r]
		for _, k := range sortedKeys(c) {
			visit(c[k])
		}
		// heap roots built on visited terms, such as the elements of a slice, become reachable
		if len(queue) == 0 {
			var more []*T
			for h := range st.Heap {
				if !inq[h] && h.K == KApp && st.reach(h, visited) {
					more = append(more, h)
				}
			}
			sort.Slice(more, func(i, j int) bool { return more[i].id < more[j].id })
			for _, h := range more {
				visit(h)
			}
		}
	}
	for h := range st.Heap {
		if !inq[h] {
			delete(st.Heap, h)
			if st.hown != nil {
				delete(st.hown, h)
			}
		}
	}
	st.closeDiffs()
	for a := range st.Atoms {
		if !st.reach(a, visited) {
			delete(st.Atoms, a)
		}
	}
	for a, b := range st.Rew {
		if !st.reach(a, visited) || !st.reach(b, visited) {
			delete(st.Rew, a)
		}
	}
	for k := range st.Diff {
		if k.a != nil && !st.reach(k.a, visited) || k.b != nil && !st.reach(k.b, visited) {
			delete(st.Diff, k)
		}
	}
	st.mapAll(func(t *T) *T {
		if r, ok := num[t]; ok {
			return r
		}
		if !t.tr {
			return t
		}
		return nil
	})
	st.next = 0

	var sb strings.Builder
	for i, f := range st.Frames {
		sb.WriteString(f.Fn.String())
		sb.WriteByte('/')
		sb.WriteString(strconv.Itoa(f.Block.Index))
		sb.WriteByte('/')
		sb.WriteString(strconv.Itoa(f.Idx))
		for _, v := range st.E.order(f.Fn) {
			if t, ok := f.Env[v]; ok {
				sb.WriteByte(' ')
				sb.WriteString(v.Name())
				sb.WriteByte('=')
				sb.WriteString(strconv.Itoa(t.id))
			}
		}
		for _, d := range f.Defers {
			sb.WriteString(" d")
			sb.WriteString(strconv.Itoa(d.Fn.id))
			for _, a := range d.Args {
				sb.WriteByte(',')
				sb.WriteString(strconv.Itoa(a.id))
			}
		}
		_ = i
		sb.WriteByte('\n')
	}
	for _, k := range sortedKeys(st.Ghost) {
		sb.WriteString(k)
		sb.WriteByte('=')
		sb.WriteString(strconv.Itoa(st.Ghost[k].id))
		sb.WriteByte(' ')
	}
	var ls []string
	for r, c := range st.Heap {
		var b strings.Builder
		b.WriteString(strconv.Itoa(r.id))
		for _, k := range sortedKeys(c) {
			b.WriteString(k)
			b.WriteByte('=')
			b.WriteString(strconv.Itoa(c[k].id))
			b.WriteByte(' ')
		}
		ls = append(ls, b.String())
	}
	sort.Strings(ls)
	sb.WriteString(strings.Join(ls, "\n"))
	ls = ls[:0]
	for a, b := range st.Atoms {
		s := "f"
		if b {
			s = "t"
		}
		ls = append(ls, s+strconv.Itoa(a.id))
	}
	for a, b := range st.Rew {
		ls = append(ls, "r"+strconv.Itoa(a.id)+"="+strconv.Itoa(b.id))
	}
	for k, c := range st.Diff {
		i, j := 0, 0
		if k.a != nil {
			i = k.a.id
		}
		if k.b != nil {
			j = k.b.id
		}
		ls = append(ls, "d"+strconv.Itoa(i)+"-"+strconv.Itoa(j)+"<"+strconv.FormatInt(c, 10))
	}
	sort.Strings(ls)
	sb.WriteString("\n#")
	sb.WriteString(strings.Join(ls, " "))
	if st.E.KeepKeys {
		return sb.String()
	}
	h := sha256.Sum256([]byte(sb.String()))
	return string(h[:])
}

func (st *State) reach(t *T, visited map[*T]bool) bool {
	ok := true
	t.Walk(func(x *T) bool {
		if !ok || !x.tr {
			return false
		}
		if (x.K == KSym || x.K == KObj) && x.Num >= 0 && !visited[x] {
			ok = false
		}
		return ok
	})
	return ok
}

// Dump renders a state.
func (st *State) Dump() string {
	var sb strings.Builder
	for i, f := range st.Frames {
		sb.WriteString("  frame " + strconv.Itoa(i) + " " + f.Fn.Name() + " b" + strconv.Itoa(f.Block.Index) + "." + strconv.Itoa(f.Idx) + "\n")
		for _, v := range st.E.order(f.Fn) {
			if t, ok := f.Env[v]; ok {
				sb.WriteString("    " + v.Name() + " = " + t.String() + "\n")
			}
		}
	}
	for r, c := range st.Heap {
		for k, v := range c {
			sb.WriteString("    [" + r.String() + "]" + k + " = " + v.String() + "\n")
		}
	}
	for _, k := range sortedKeys(st.Ghost) {
		sb.WriteString("    ghost " + k + " = " + st.Ghost[k].String() + "\n")
	}
	for a, b := range st.Atoms {
		sb.WriteString("    fact " + a.String() + " " + strconv.FormatBool(b) + "\n")
	}
	for a, b := range st.Rew {
		sb.WriteString("    eq " + a.String() + " = " + b.String() + "\n")
	}
	for k, c := range st.Diff {
		sb.WriteString("    diff ")
		if k.a != nil {
			sb.WriteString(k.a.String())
		}
		sb.WriteString(" - ")
		if k.b != nil {
			sb.WriteString(k.b.String())
		}
		sb.WriteString(" <= " + strconv.FormatInt(c, 10) + "\n")
	}
	return sb.String()
}

// Kill ends a state.
func (st *State) Kill() { st.dead = true }

// Dead tells whether a state has ended or is impossible.
func (st *State) Dead() bool { return st.dead }

// ResetOwnership makes a state that was put together by hand safe to change.
func (st *State) ResetOwnership() { st.owned, st.hown = nil, nil }

// Forget drops the facts that mention a term for which f holds; all facts if f is nil.
func (st *State) Forget(f func(*T) bool) {
	has := func(t *T) bool {
		if f == nil {
			return true
		}
		r := false
		if t != nil {
			t.Walk(func(x *T) bool {
				r = r || f(x)
				return !r
			})
		}
		return r
	}
	for a := range st.Atoms {
		if has(a) {
			delete(st.Atoms, a)
		}
	}
	for a := range st.Rew {
		if has(a) {
			delete(st.Rew, a)
		}
	}
	for k := range st.Diff {
		if has(k.a) || has(k.b) {
			delete(st.Diff, k)
		}
	}
}

// ElemAddr is the address of a slice element.
func ElemAddr(x, k *T) *T { return raw("elem", nil, x, k) }

// EachValue visits the values of the variables and of memory.
func (st *State) EachValue(f func(*T)) {
	for i := range st.Frames {
		for _, v := range st.E.order(st.Frames[i].Fn) {
			if t, ok := st.Frames[i].Env[v]; ok {
				f(st.norm(t))
			}
		}
	}
	var rs []*T
	for r := range st.Heap {
		rs = append(rs, r)
	}
	sortTerms(rs)
	for _, r := range rs {
		for _, k := range sortedKeys(st.Heap[r]) {
			f(st.norm(st.Heap[r][k]))
		}
	}
}

// FoldList forgets the elements of a list, in every place that holds it or a list that starts with it.
func (st *State) FoldList(big *T) {
	sym := st.Fresh("list", big.Typ)
	pre := big.Args
	n := 0
	for _, p := range pre {
		if p.Is("el") || st.Eval(Le(Int(1), Len(p))) == 1 {
			n++
		}
	}
	st.mapAll(func(t *T) *T {
		if t == big {
			return sym
		}
		if t.Is("list") && len(t.Args) >= len(pre) && hasPre(t, pre) {
			if len(t.Args) == len(pre) {
				return sym
			}
			return List(t.Typ, append([]*T{sym}, t.Args[len(pre):]...)...)
		}
		return nil
	})
	if n > 0 {
		st.addDiff(nil, Len(sym), -min64(int64(n), 1))
	}
	st.Atoms[Eq(sym, Nil)] = false
}

// Over is what an iterator over the characters of a string runs over.
func (st *State) Over(it *T) *T {
	if v, ok := st.Heap[it]["!over"]; ok {
		return st.norm(v)
	}
	return Nil
}

// Builders are the contents of the builders and buffers, by place.
func (st *State) Builders(f func(place, content *T) *T) {
	var roots []*T
	for r, cs := range st.Heap {
		for k := range cs {
			if strings.HasSuffix(k, "!sb") {
				roots = append(roots, r)
				break
			}
		}
	}
	for _, r := range roots {
		for k, v := range st.Heap[r] {
			if strings.HasSuffix(k, "!sb") {
				if n := f(r, v); n != v {
					st.cells(r)[k] = n
				}
			}
		}
	}
}
