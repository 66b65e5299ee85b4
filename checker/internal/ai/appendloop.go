package ai

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// An appendLoop is a loop that appends every element of a list to another one and does nothing
// else. It is executed in one step, as the append of the whole list that it is.
type appendLoop struct {
	phi        *ssa.Phi // the index
	next, cond *ssa.BinOp
	list       ssa.Value
	call       *ssa.Call
	acc        *ssa.Phi   // the list that grows, or
	load       *ssa.UnOp  // the loads and
	store      *ssa.Store // stores of it
	exit       *ssa.BasicBlock
}

func (e *Engine) appendLoop(b *ssa.BasicBlock) *appendLoop {
	if l, ok := e.appends[b]; ok {
		return l
	}
	if e.appends == nil {
		e.appends = map[*ssa.BasicBlock]*appendLoop{}
	}
	l := findAppendLoop(b)
	e.appends[b] = l
	return l
}

func noDebug(is []ssa.Instruction) []ssa.Instruction {
	var r []ssa.Instruction
	for _, i := range is {
		if _, ok := i.(*ssa.DebugRef); !ok {
			r = append(r, i)
		}
	}
	return r
}

func findAppendLoop(b *ssa.BasicBlock) *appendLoop {
	l := &appendLoop{}
	head := noDebug(b.Instrs)
	if len(b.Preds) != 2 || len(b.Succs) != 2 || len(head) < 4 || len(head) > 5 {
		return nil
	}
	body := b.Succs[0]
	l.exit = b.Succs[1]
	if len(body.Preds) != 1 || len(body.Succs) != 1 || body.Succs[0] != b || l.exit == b {
		return nil
	}
	back := 0
	if b.Preds[1] == body {
		back = 1
	} else if b.Preds[0] != body {
		return nil
	}
	outside := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return !ok || i.Block() != b && i.Block() != body
	}
	for len(head) > 3 {
		p, ok := head[0].(*ssa.Phi)
		if !ok {
			return nil
		}
		if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int && l.phi == nil {
			l.phi = p
		} else if l.acc == nil {
			l.acc = p
		} else {
			return nil
		}
		head = head[1:]
	}
	var ok1, ok2, ok3 bool
	l.next, ok1 = head[0].(*ssa.BinOp)
	l.cond, ok2 = head[1].(*ssa.BinOp)
	_, ok3 = head[2].(*ssa.If)
	if !ok1 || !ok2 || !ok3 || l.phi == nil {
		return nil
	}
	isInt := func(v ssa.Value, n int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == n
	}
	if l.next.Op != token.ADD || l.next.X != l.phi || !isInt(l.next.Y, 1) || l.phi.Edges[back] != l.next || !isInt(l.phi.Edges[1-back], -1) {
		return nil
	}
	n, ok := l.cond.Y.(*ssa.Call)
	if l.cond.Op != token.LSS || l.cond.X != l.next || !ok || !outside(n) {
		return nil
	}
	if bi, ok := n.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return nil
	}
	l.list = n.Call.Args[0]
	if _, ok := l.list.Type().Underlying().(*types.Slice); !ok || !outside(l.list) {
		return nil
	}
	// the body
	var elem ssa.Value
	var arr *ssa.Alloc
	var arg *ssa.Slice
	filled := false
	sameAddr := func(x, y ssa.Value) bool {
		if x == y {
			return outside(x)
		}
		f, ok1 := x.(*ssa.FieldAddr)
		g, ok2 := y.(*ssa.FieldAddr)
		return ok1 && ok2 && f.X == g.X && f.Field == g.Field && outside(f.X)
	}
	for _, ins := range noDebug(body.Instrs) {
		switch i := ins.(type) {
		case *ssa.IndexAddr:
			switch {
			case i.X == l.list && i.Index == l.next:
			case i.X == arr && isInt(i.Index, 0):
			default:
				return nil
			}
		case *ssa.FieldAddr:
			if !outside(i.X) {
				return nil
			}
		case *ssa.UnOp:
			if i.Op != token.MUL {
				return nil
			}
			if ia, ok := i.X.(*ssa.IndexAddr); ok && ia.X == l.list && elem == nil {
				elem = i
			} else if l.load == nil && l.acc == nil && l.call == nil {
				l.load = i
			} else {
				return nil
			}
		case *ssa.Alloc:
			if arr != nil {
				return nil
			}
			arr = i
		case *ssa.Store:
			if ia, ok := i.Addr.(*ssa.IndexAddr); ok && arr != nil && ia.X == arr {
				if i.Val != elem || filled {
					return nil
				}
				filled = true
			} else if l.call != nil && l.store == nil && i.Val == l.call {
				l.store = i
			} else {
				return nil
			}
		case *ssa.Slice:
			if arr == nil || i.X != arr || i.Low != nil || i.High != nil || arg != nil {
				return nil
			}
			arg = i
		case *ssa.Call:
			bi, ok := i.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "append" || l.call != nil || len(i.Call.Args) != 2 || i.Call.Args[1] != arg || !filled {
				return nil
			}
			l.call = i
		case *ssa.Jump:
		default:
			return nil
		}
	}
	if l.call == nil || elem == nil {
		return nil
	}
	if at, ok := arr.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !ok || at.Len() != 1 {
		return nil
	}
	base := l.call.Call.Args[0]
	if l.acc != nil {
		if l.store != nil || l.load != nil || base != l.acc || l.acc.Edges[back] != l.call {
			return nil
		}
		return l
	}
	if l.load == nil || l.store == nil || base != l.load || !sameAddr(l.load.X, l.store.Addr) {
		return nil
	}
	// the list must not be read from the place that grows
	if u, ok := l.list.(*ssa.UnOp); ok && sameAddr(u.X, l.store.Addr) {
		return nil
	}
	return l
}

// appendAll executes such a loop; the phis of its head are set to their values before the loop.
func (e *Engine) appendAll(st *State, l *appendLoop) bool {
	f := st.Top()
	list := st.norm(st.Val(f, l.list))
	if list.Is("list") && len(list.Args) < 3 {
		return false // few elements: just run it
	}
	var base, addr *T
	if l.acc != nil {
		base = st.norm(f.Env[l.acc])
	} else {
		if fa, ok := l.store.Addr.(*ssa.FieldAddr); ok && f.Env[fa.X] != nil {
			p := st.Val(f, fa.X)
			if st.Eval(Eq(p, Nil)) != -1 {
				return false
			}
			addr = FieldAddr(p, fa.Field)
		} else if ok {
			return false
		} else {
			addr = st.Val(f, l.store.Addr)
		}
		addr = st.norm(addr)
		base = st.Load(addr, l.call.Type())
	}
	var r *T
	if st.Eval(Le(Len(list), Int(0))) == 1 {
		r = base
	} else {
		r = List(l.call.Type(), append(append([]*T{}, listParts(base)...), listParts(list)...)...)
		if r.Typ == nil {
			r.Typ = l.call.Type()
		}
		if e.OnAppend != nil {
			e.OnAppend(st, base, listParts(list), r, l.call)
		}
		if st.dead {
			return true
		}
		if addr != nil {
			e.wrote(st, addr, l.store)
			if e.OnStore != nil {
				e.OnStore(st, addr, r, l.call.Type(), l.store)
			}
			if st.dead {
				return true
			}
			st.Store(addr, r, l.call.Type())
		}
	}
	if l.acc != nil {
		f.Env[l.acc] = r
	}
	f.Env[l.phi] = Add(Len(list), -1)
	f.Env[l.next] = Len(list)
	f.Env[l.cond] = False
	return true
}
