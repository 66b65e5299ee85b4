package checks

import (
	"go/token"
	"go/types"
	"strings"

	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"

	"golang.org/x/tools/go/ssa"
)

// What results may depend on beside the input: the order of maps, time, chance, the environment and the
// schedule of goroutines (X03), and the memory that goroutines share (X04).

var chance = []string{"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "math/rand", "crypto/rand", "os.Getenv", "os.LookupEnv",
	"os.Environ", "os.ExpandEnv", "os.Getpid", "os.Getppid", "os.Hostname", "os.Getuid", "os.UserHomeDir", "runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS",
	"runtime.Caller", "runtime.Stack", "runtime/debug", "hash/maphash", "(*sync.Map).Range", "os.CreateTemp", "os.MkdirTemp"}

func init() {
	register("X03", func(p *load.Prog, r *rep.R) {
		r.Technique = "effect and dependence analysis over the SSA of every function (map iteration order, sources of chance, selects, senders of channels)"
		r.Explanation = "Every function of the library is searched for what makes two runs on the same input differ: iterations over maps whose order can reach a result, reads of time, chance or environment, selects with several cases, and channels that several goroutines send on."
		r.Rule("nothing that is computed in an iteration over a map depends on its order, unless it is sorted afterwards or the result is decided for every order (P10)")
		r.Rule("no call reads the time, chance, the environment or the state of the runtime")
		r.Rule("no select chooses between ready cases, and every channel has one goroutine that sends on it")
		for _, fn := range p.Funcs {
			if fn.Pkg != p.RootSSA {
				continue
			}
			r.Count("functions", 1)
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch i := ins.(type) {
					case ssa.CallInstruction:
						f := i.Common().StaticCallee()
						if f == nil || f.Pkg == p.RootSSA {
							continue
						}
						n := f.String()
						if f.Origin() != nil {
							n = f.Origin().String()
						}
						bad := false
						for _, c := range chance {
							bad = bad || n == c || strings.HasPrefix(n, c+".") || strings.HasPrefix(strings.TrimLeft(n, "(*"), c+".")
						}
						r.Check(!bad, "chance:"+fn.String()+":"+n, pos(p, ins), "%s calls %s, whose result is not a function of the input", fn.Name(), n)
						r.Count("external calls", 1)
						if n == "maps.Keys" || n == "maps.Values" || n == "maps.All" {
							v, ok := ins.(ssa.Value)
							r.Check(ok && onlySorted(v), "order:"+fn.String()+":"+n, pos(p, ins), "%s uses %s, whose order is random, without sorting", fn.Name(), n)
						}
					case *ssa.Select:
						r.Check(len(i.States) <= 1 && i.Blocking, "select:"+fn.String(), pos(p, ins), "%s chooses between the cases of a select", fn.Name())
					case *ssa.Range:
						if _, ok := i.X.Type().Underlying().(*types.Map); ok {
							r.Count("iterations over maps", 1)
							if partOf(p, fn, cycleFn(p), map[*ssa.Function]bool{}) {
								r.Assume("the result of %s does not depend on the order of the map (P10)", fn.Name())
								r.OK()
								continue
							}
							mapRange(p, r, fn, i)
						}
					}
				}
			}
		}
		senders(p, r)
		r.Floor("functions", 60)
	})
	register("X04", func(p *load.Prog, r *rep.R) {
		r.Technique = "escape and happens-before analysis over SSA of the variables that goroutines capture and of the memory that they send"
		r.Explanation = "For every go statement, the variables that the goroutine can reach are compared with the accesses of its starter after the statement; a write on either side without a receive in between that waits for the end of the goroutine is a data race. Memory that was sent on a channel must not be written by the sender any more."
		r.Rule("no variable is written by a goroutine and used by another one without waiting for it")
		r.Rule("what was sent is not written afterwards by the sender")
		for _, fn := range p.Funcs {
			if fn.Pkg != p.RootSSA {
				continue
			}
			r.Count("functions", 1)
			for _, b := range fn.Blocks {
				for k, ins := range b.Instrs {
					switch i := ins.(type) {
					case *ssa.Go:
						r.Count("go statements", 1)
						goRaces(p, r, fn, i, k)
					case *ssa.Send:
						r.Count("sends", 1)
						sentRaces(p, r, fn, i, k)
					}
				}
			}
		}
		r.Floor("go statements", 1)
		r.Floor("sends", 3)
	})
}

// partOf tells whether a function is another one, or is only called by it.
func partOf(p *load.Prog, fn, of *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == of || of == nil || seen[fn] {
		return fn == of
	}
	seen[fn] = true
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, o := range ins.Operands(nil) {
					if *o != ssa.Value(fn) {
						continue
					}
					c, ok := ins.(*ssa.Call)
					if !ok || c.Call.StaticCallee() != fn || !partOf(p, f, of, seen) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

// onlySorted tells whether a sequence is only passed to something that sorts it.
func onlySorted(v ssa.Value) bool {
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, u := range *rs {
		switch c := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			f := c.Call.StaticCallee()
			if f == nil {
				return false
			}
			n := f.String()
			if f.Origin() != nil {
				n = f.Origin().String()
			}
			if strings.HasPrefix(n, "slices.Sorted") {
				continue
			}
			if n == "slices.Collect" && sortedLater(c) {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

func isSort(ins ssa.Instruction) (ssa.Value, bool) {
	c, ok := ins.(*ssa.Call)
	if !ok || len(c.Call.Args) == 0 {
		return nil, false
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return nil, false
	}
	n := f.String()
	if f.Origin() != nil {
		n = f.Origin().String()
	}
	switch {
	case n == "sort.Strings" || n == "sort.Ints" || n == "sort.Slice" || n == "sort.SliceStable" || n == "sort.Sort" || n == "sort.Stable" || strings.HasPrefix(n, "slices.Sort") && !strings.HasPrefix(n, "slices.Sorted"):
		a := c.Call.Args[0]
		for {
			switch x := a.(type) {
			case *ssa.MakeInterface:
				a = x.X
				continue
			case *ssa.ChangeType:
				a = x.X
				continue
			}
			return a, true
		}
	}
	return nil, false
}

// sortedLater tells whether a list is sorted and its other uses come after that.
func sortedLater(v ssa.Value) bool {
	var sorts []ssa.Instruction
	var others []ssa.Instruction
	for _, u := range *v.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		ins := u
		w := ssa.Value(nil)
		switch x := u.(type) {
		case *ssa.MakeInterface:
			w = x
		case *ssa.ChangeType:
			w = x
		}
		if a, ok := isSort(u); ok && a == v {
			sorts = append(sorts, u)
			continue
		}
		if w != nil {
			all := true
			for _, uu := range *w.Referrers() {
				if _, ok := isSort(uu); ok {
					sorts = append(sorts, uu)
				} else if _, ok := uu.(*ssa.DebugRef); !ok {
					all = false
				}
			}
			if all {
				continue
			}
		}
		others = append(others, ins)
	}
	for _, o := range others {
		ok := false
		for _, s := range sorts {
			if before(s, o, v) {
				ok = true
			}
		}
		if c, isCall := o.(*ssa.Call); isCall && !ok {
			if bi, isB := c.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return len(sorts) > 0 || len(others) == 0
}

// before tells whether an instruction always runs before a use of a value.
func before(s, use ssa.Instruction, v ssa.Value) bool {
	if phi, ok := use.(*ssa.Phi); ok {
		for k, e := range phi.Edges {
			if e == v && !s.Block().Dominates(phi.Block().Preds[k]) {
				return false
			}
		}
		return true
	}
	return s.Block() == use.Block() && index(s) < index(use) || s.Block() != use.Block() && s.Block().Dominates(use.Block())
}

func index(ins ssa.Instruction) int {
	for k, x := range ins.Block().Instrs {
		if x == ins {
			return k
		}
	}
	return -1
}

// reach are the blocks that can be reached from the successors of a block.
func reachFrom(bs ...*ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	bs = append([]*ssa.BasicBlock(nil), bs...) // the list of the caller stays as it is
	for len(bs) > 0 {
		b := bs[len(bs)-1]
		bs = bs[:len(bs)-1]
		if m[b] {
			continue
		}
		m[b] = true
		bs = append(bs, b.Succs...)
	}
	return m
}

// mapRange decides whether what an iteration over a map computes depends on its order.
func mapRange(p *load.Prog, r *rep.R, fn *ssa.Function, rg *ssa.Range) {
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	head := next.Block()
	body := map[*ssa.BasicBlock]bool{head: true}
	var work []*ssa.BasicBlock
	for _, b := range head.Preds {
		if head.Dominates(b) {
			work = append(work, b)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if !body[b] {
			body[b] = true
			work = append(work, b.Preds...)
		}
	}
	// what depends on the key or the value of this iteration
	var key ssa.Value
	dep := map[ssa.Value]bool{}
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index > 0 {
			dep[e] = true
			if e.Index == 1 {
				key = e
			}
		}
	}
	// what an earlier round may have changed
	var stored []ssa.Value
	updated := map[ssa.Value]bool{}
	for b := range body {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if a, ok := rootAlloc(i.Addr); !ok || !body[a.Block()] {
					stored = append(stored, i.Addr)
				}
			case *ssa.MapUpdate:
				updated[i.Map] = true
			}
		}
	}
	changed := func(v ssa.Value) bool {
		for _, a := range stored {
			if sameAddr(a, v) {
				return true
			}
		}
		return false
	}
	changedMap := func(v ssa.Value) bool {
		for m := range updated {
			if m == v || sameLoad(m, v) {
				return true
			}
		}
		return false
	}
	for again := true; again; {
		again = false
		for b := range body {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && dep[st.Val] {
					if a, ok := rootAlloc(st.Addr); ok && body[a.Block()] && !dep[a] {
						dep[a] = true
						again = true
					}
				}
				v, ok := ins.(ssa.Value)
				if !ok || dep[v] {
					continue
				}
				switch x := ins.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL && changed(x.X) {
						dep[v], again = true, true
					}
				case *ssa.Lookup:
					if x.Index != key && changedMap(x.X) {
						dep[v], again = true, true
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && changedMap(x.Call.Args[0]) {
						dep[v], again = true, true
					}
				}
				if _, ok := ins.(*ssa.Next); ok {
					continue
				}
				for _, o := range ins.Operands(nil) {
					if dep[*o] {
						dep[v] = true
						again = true
						break
					}
				}
			}
		}
	}
	fail := func(ins ssa.Instruction, what string) {
		r.Fail("order:"+fn.String()+":"+what, pos(p, ins), "in an iteration over a map, whose order is random, %s %s", fn.Name(), what)
	}
	inside := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && body[i.Block()]
	}
	r.OK()
	// values carried from one round to the next
	for _, ins := range head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for k, e := range phi.Edges {
			if !body[head.Preds[k]] {
				continue
			}
			if !gathered(phi, e, dep, map[ssa.Value]bool{}) {
				fail(phi, "computes "+phi.Comment+" in an order that matters")
			} else if _, ok := phi.Type().Underlying().(*types.Slice); ok && e != phi {
				if !sortedAfter(phi, body) {
					fail(phi, "lists "+phi.Comment+" without sorting it afterwards")
				}
			}
		}
	}
	for b := range body {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.MapUpdate:
				if op, ok := i.Value.(*ssa.BinOp); ok && commutative(op) && (isLookupOf(op.X, i) || isLookupOf(op.Y, i)) {
					continue
				}
				if i.Key != key && dep[i.Value] {
					fail(i, "writes entries of a map that may be the same in several rounds")
				} else if roundly(i.Value, dep, changedMap, map[ssa.Value]bool{}) {
					fail(i, "writes entries of a map that depend on the rounds before")
				}
			case *ssa.Store:
				if a, ok := rootAlloc(i.Addr); ok && inside(a) {
					continue
				}
				if !dep[i.Val] {
					continue
				}
				if op, ok := i.Val.(*ssa.BinOp); ok && commutative(op) && (isLoadOf(op.X, i.Addr) || isLoadOf(op.Y, i.Addr)) {
					continue
				}
				if sortedCell(i.Addr, body) {
					continue
				}
				fail(i, "stores something that the last round decides")
			case *ssa.Send:
				fail(i, "sends")
			case *ssa.Go:
				fail(i, "starts goroutines")
			case ssa.CallInstruction:
				f := i.Common().StaticCallee()
				if f != nil && f.Pkg == fn.Pkg && hasEffects(f, map[*ssa.Function]bool{}) {
					fail(ins, "calls "+f.Name()+", which has effects")
				} else if f == nil {
					if _, ok := i.Common().Value.(*ssa.Builtin); !ok {
						fail(ins, "calls a function that is not known")
					}
				}
			case *ssa.Return:
				for _, v := range i.Results {
					if dep[v] {
						fail(i, "returns what the first round decides")
					}
				}
			}
		}
		for _, s := range b.Succs {
			if body[s] || b == head {
				continue
			}
			// left early
			for _, ins := range s.Instrs {
				switch x := ins.(type) {
				case *ssa.Phi:
					for k, e := range x.Edges {
						if s.Preds[k] == b && dep[e] {
							fail(x, "leaves with a value of the first round that fits")
						}
					}
				case *ssa.Return:
					for _, v := range x.Results {
						if dep[v] {
							fail(x, "returns what the first round that fits decides")
						}
					}
				}
			}
		}
	}
}

func commutative(op *ssa.BinOp) bool {
	b, ok := op.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	switch op.Op {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
		return true
	}
	return false
}

func isLoadOf(v, addr ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && sameAddr(u.X, addr)
}

func isLookupOf(v ssa.Value, u *ssa.MapUpdate) bool {
	l, ok := v.(*ssa.Lookup)
	return ok && l.Index == u.Key && (l.X == u.Map || sameLoad(l.X, u.Map))
}

// sameAddr tells whether two addresses are of the same variable or of the same field of one.
func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	f, ok := a.(*ssa.FieldAddr)
	g, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && f.Field == g.Field && (sameAddr(f.X, g.X) || sameLoad(f.X, g.X))
}

func sameLoad(a, b ssa.Value) bool {
	u, ok := a.(*ssa.UnOp)
	w, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && u.Op == token.MUL && w.Op == token.MUL && sameAddr(u.X, w.X)
}

// roundly tells whether a value is computed from the size of a map that the rounds change.
func roundly(v ssa.Value, dep map[ssa.Value]bool, changedMap func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		bi, ok := x.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && changedMap(x.Call.Args[0])
	case *ssa.BinOp:
		return roundly(x.X, dep, changedMap, seen) || roundly(x.Y, dep, changedMap, seen)
	case *ssa.Convert:
		return roundly(x.X, dep, changedMap, seen)
	case *ssa.Phi:
		if len(x.Edges) > 0 && dep[x] {
			for _, e := range x.Edges {
				if b, ok := e.(*ssa.BinOp); ok && (b.X == x || b.Y == x) {
					return true // a counter of rounds
				}
			}
		}
	}
	return false
}

// gathered tells whether a value is the one of the round before, or that with something added to it
// in an order that does not matter.
func gathered(phi *ssa.Phi, v ssa.Value, dep map[ssa.Value]bool, seen map[ssa.Value]bool) bool {
	if v == phi || seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !gathered(phi, e, dep, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return commutative(x) && (gathered(phi, x.X, dep, seen) && !uses(x.Y, phi) || gathered(phi, x.Y, dep, seen) && !uses(x.X, phi))
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				return gathered(phi, x.Call.Args[0], dep, seen)
			case "min", "max":
				return true
			}
		}
	}
	return !dep[v]
}

func uses(v ssa.Value, phi *ssa.Phi) bool { return v == phi }

// sortedAfter tells whether a list that a loop made is sorted before any other use outside of the loop.
func sortedAfter(phi *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	var sorts, others []ssa.Instruction
	for _, u := range *phi.Referrers() {
		if body[u.Block()] && u.Block() != phi.Block() {
			continue
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if _, ok := isSort(u); ok {
			sorts = append(sorts, u)
			continue
		}
		if m, ok := u.(*ssa.MakeInterface); ok {
			s := 0
			for _, uu := range *m.Referrers() {
				if _, ok := isSort(uu); ok {
					sorts = append(sorts, uu)
					s++
				}
			}
			if s > 0 {
				continue
			}
		}
		others = append(others, u)
	}
	for _, o := range others {
		ok := false
		for _, s := range sorts {
			ok = ok || before(s, o, phi)
		}
		if c, isCall := o.(*ssa.Call); isCall && !ok {
			bi, isB := c.Call.Value.(*ssa.Builtin)
			ok = isB && bi.Name() == "len"
		}
		if !ok {
			return false
		}
	}
	return true
}

// sortedCell tells whether what is stored at an address is sorted after the loop.
func sortedCell(addr ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	for _, b := range addr.Parent().Blocks {
		if body[b] {
			continue
		}
		for _, ins := range b.Instrs {
			if a, ok := isSort(ins); ok && isLoadOf(a, addr) {
				return true
			}
		}
	}
	return false
}

func rootAlloc(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x, true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil, false
		}
	}
}

// hasEffects tells whether a function writes memory that it did not make, or sends.
func hasEffects(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if _, ok := rootAlloc(i.Addr); !ok {
					return true
				}
			case *ssa.MapUpdate:
				if _, ok := i.Map.(*ssa.MakeMap); !ok {
					return true
				}
			case *ssa.Send, *ssa.Go:
				return true
			case ssa.CallInstruction:
				if f := i.Common().StaticCallee(); f != nil && f.Pkg == fn.Pkg && hasEffects(f, seen) {
					return true
				}
			}
		}
	}
	return false
}

// senders checks that every channel has one goroutine that sends on it.
func senders(p *load.Prog, r *rep.R) {
	for _, fn := range p.Funcs {
		if fn.Pkg != p.RootSSA {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				mk, ok := ins.(*ssa.MakeChan)
				if !ok {
					continue
				}
				r.Count("channels", 1)
				n := 0
				loop := ""
				for _, g := range goesWith(mk) {
					if sendsOn(g.fn, g.v, map[*ssa.Function]bool{}) {
						n++
						if loops(g.at.Block()) && !sameRound(mk, g.at) {
							loop = pos(p, g.at)
						}
					}
				}
				direct := sendsHere(mk)
				r.Check(loop == "" && (n <= 1) && !(n == 1 && direct), "senders:"+fn.String(), pos(p, mk),
					"the channel made in %s is sent on by several goroutines: the order of what is received depends on the schedule", fn.Name())
			}
		}
	}
}

type started struct {
	at *ssa.Go
	fn *ssa.Function
	v  ssa.Value // the channel within the goroutine
}

// aliases are the values of a function that are surely the given one, through local variables.
func aliases(v ssa.Value) []ssa.Value {
	r := []ssa.Value{v}
	for k := 0; k < len(r); k++ {
		rs := r[k].Referrers()
		if rs == nil {
			continue
		}
		for _, u := range *rs {
			switch x := u.(type) {
			case *ssa.ChangeType:
				r = add(r, x)
			case *ssa.Store:
				if x.Val == r[k] {
					if a, ok := x.Addr.(*ssa.Alloc); ok {
						r = add(r, a)
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					r = add(r, x)
				}
			}
		}
	}
	return r
}

func add(r []ssa.Value, v ssa.Value) []ssa.Value {
	for _, x := range r {
		if x == v {
			return r
		}
	}
	return append(r, v)
}

// goesWith are the goroutines that are started with a value.
func goesWith(v ssa.Value) []started {
	var r []started
	for _, a := range aliases(v) {
		rs := a.Referrers()
		if rs == nil {
			continue
		}
		for _, u := range *rs {
			switch x := u.(type) {
			case *ssa.Go:
				if f := x.Call.StaticCallee(); f != nil {
					for k, arg := range x.Call.Args {
						if arg == a && k < len(f.Params) {
							r = append(r, started{x, f, f.Params[k]})
						}
					}
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for k, bd := range x.Bindings {
					if bd != a {
						continue
					}
					for _, uu := range *x.Referrers() {
						if g, ok := uu.(*ssa.Go); ok && g.Call.Value == x {
							r = append(r, started{g, f, f.FreeVars[k]})
						}
					}
				}
			}
		}
	}
	return r
}

// sendsOn tells whether a function sends on a channel that it was given, itself or by a call.
func sendsOn(fn *ssa.Function, v ssa.Value, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, a := range aliases(v) {
		rs := a.Referrers()
		if rs == nil {
			continue
		}
		for _, u := range *rs {
			switch x := u.(type) {
			case *ssa.Send:
				if x.Chan == a {
					return true
				}
			case *ssa.Select:
				for _, s := range x.States {
					if s.Chan == a && s.Dir == types.SendOnly {
						return true
					}
				}
			case *ssa.MakeClosure:
				for k, bd := range x.Bindings {
					if f := x.Fn.(*ssa.Function); bd == a && sendsOn(f, f.FreeVars[k], seen) {
						return true
					}
				}
			case ssa.CallInstruction:
				if _, ok := u.(*ssa.Go); ok {
					continue
				}
				if f := x.Common().StaticCallee(); f != nil {
					for k, arg := range x.Common().Args {
						if arg == a && k < len(f.Params) && sendsOn(f, f.Params[k], seen) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func sendsHere(mk *ssa.MakeChan) bool {
	for _, a := range aliases(mk) {
		for _, u := range *a.Referrers() {
			if s, ok := u.(*ssa.Send); ok && s.Chan == a {
				return true
			}
		}
	}
	return false
}

// loops tells whether a block can be reached from itself.
func loops(b *ssa.BasicBlock) bool { return reachFrom(b.Succs...)[b] }

// sameRound tells whether the channel is made anew before every start.
func sameRound(mk *ssa.MakeChan, g *ssa.Go) bool {
	if !loops(g.Block()) {
		return true
	}
	if mk.Block() == g.Block() {
		return true
	}
	// every way from the start back to it passes the making
	seen := map[*ssa.BasicBlock]bool{mk.Block(): true}
	work := append([]*ssa.BasicBlock{}, g.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == g.Block() {
			return false
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	return true
}

// access is a use of a variable.
type access struct {
	ins   ssa.Instruction
	write bool
	field int // of the variable, -1 for all of it
}

func (a access) meets(b access) bool {
	return (a.write || b.write) && (a.field < 0 || b.field < 0 || a.field == b.field)
}

func within(as []access, field int) []access {
	for k := range as {
		as[k].field = field
	}
	return as
}

// accesses are the uses of the variable behind an address within a function and its closures.
func accesses(addr ssa.Value, seen map[ssa.Value]bool) []access {
	if seen[addr] {
		return nil
	}
	seen[addr] = true
	var r []access
	rs := addr.Referrers()
	if rs == nil {
		return nil
	}
	for _, u := range *rs {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == addr {
				r = append(r, access{x, true, -1})
			}
		case *ssa.UnOp:
			r = append(r, access{x, false, -1})
		case *ssa.FieldAddr:
			r = append(r, within(accesses(x, seen), x.Field)...)
		case *ssa.IndexAddr:
			r = append(r, accesses(x, seen)...)
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for k, bd := range x.Bindings {
				if bd == addr {
					for _, a := range accesses(f.FreeVars[k], seen) {
						r = append(r, access{x, a.write, a.field})
					}
				}
			}
		case ssa.CallInstruction:
			if _, ok := u.(*ssa.Go); ok {
				continue // judged on its own
			}
			f := x.Common().StaticCallee()
			for k, arg := range x.Common().Args {
				switch {
				case arg != addr:
				case f != nil && len(f.Blocks) > 0 && k < len(f.Params):
					for _, a := range accesses(f.Params[k], seen) {
						r = append(r, access{x, a.write, a.field})
					}
				case f != nil && strings.HasPrefix(strings.TrimLeft(f.String(), "(*"), "sync"):
					// synchronises by itself
				default:
					r = append(r, access{x, true, -1}) // it may write what it is given
				}
			}
		}
	}
	return r
}

// goRaces compares the uses of captured variables by a goroutine with those of its starter.
func goRaces(p *load.Prog, r *rep.R, fn *ssa.Function, g *ssa.Go, k int) {
	type shared struct{ here, there ssa.Value }
	var sh []shared
	var body *ssa.Function
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if ok {
		body = mc.Fn.(*ssa.Function)
		for i, b := range mc.Bindings {
			sh = append(sh, shared{b, body.FreeVars[i]})
		}
	} else if f := g.Call.StaticCallee(); f != nil {
		body = f
	}
	if body == nil {
		r.Fail("go:"+fn.String(), pos(p, g), "undecided: %s starts a goroutine whose function is not known", fn.Name())
		return
	}
	for i, a := range g.Call.Args {
		if _, ok := a.Type().Underlying().(*types.Pointer); ok && i < len(body.Params) {
			sh = append(sh, shared{a, body.Params[i]})
		}
	}
	after := reachFrom(g.Block().Succs...)
	for _, s := range sh {
		if _, ok := s.here.Type().Underlying().(*types.Pointer); !ok {
			r.OK()
			continue
		}
		there := accesses(s.there, map[ssa.Value]bool{})
		r.Count("shared variables", 1)
		bad := ssa.Instruction(nil)
		for _, a := range accesses(s.here, map[ssa.Value]bool{}) {
			meets := false
			for _, t := range there {
				meets = meets || a.meets(t)
			}
			if a.ins == ssa.Instruction(mc) || !meets || a.ins.Parent() != fn {
				continue
			}
			later := a.ins.Block() == g.Block() && index(a.ins) > k || after[a.ins.Block()]
			if later && !renewed(s.here, g, a.ins) && !waited(g, a.ins) {
				bad = a.ins
			}
		}
		if bad == nil {
			r.OK()
			continue
		}
		r.Fail("race:"+fn.String()+":"+varName(s.here), pos(p, bad), "the variable %s is used here while the goroutine that is started at %s uses it, and one of them writes it", varName(s.here), pos(p, g))
	}
	// goroutines of one function that run at the same time
	if loops(g.Block()) {
		for _, s := range sh {
			a, ok := s.here.(*ssa.Alloc)
			if !ok || !roundTrip(g, a) {
				continue
			}
			for _, x := range accesses(s.there, map[ssa.Value]bool{}) {
				if x.write {
					r.Fail("race:"+fn.String()+":"+varName(s.here), pos(p, x.ins), "the variable %s is written by several goroutines that are started at %s", varName(s.here), pos(p, g))
				}
			}
		}
	}
}

func varName(v ssa.Value) string {
	if a, ok := v.(*ssa.Alloc); ok && a.Comment != "" {
		return a.Comment
	}
	return v.Name()
}

// renewed tells whether every way from the go statement to a use passes the allocation of the variable.
func renewed(v ssa.Value, g *ssa.Go, use ssa.Instruction) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	if use.Block() == g.Block() && index(use) > index(g) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, g.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == a.Block() {
			if b == use.Block() && index(use) < index(a) {
				return false
			}
			continue
		}
		if b == use.Block() {
			return false
		}
		work = append(work, b.Succs...)
	}
	return true
}

// roundTrip tells whether the go statement can be reached from itself without a new variable.
func roundTrip(g *ssa.Go, a *ssa.Alloc) bool {
	if a.Block() == g.Block() {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{a.Block(): true}
	work := append([]*ssa.BasicBlock{}, g.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == g.Block() {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	return false
}

// given tells whether a goroutine is given a channel or a variable of package sync.
func given(g *ssa.Go, v ssa.Value) bool {
	vs := append([]ssa.Value(nil), g.Call.Args...)
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		vs = append(vs, mc.Bindings...)
	}
	for _, w := range vs {
		for _, a := range aliases(w) {
			if a == v {
				return true
			}
		}
		for _, a := range aliases(v) {
			if a == w {
				return true
			}
		}
	}
	if f, ok := v.(*ssa.FieldAddr); ok {
		return given(g, f.X)
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return given(g, u.X)
	}
	return false
}

// waited tells whether every way from the go statement to a use passes something that waits for another
// goroutine: the end of a channel, a single receive, or a wait or lock of package sync.
func waited(g *ssa.Go, use ssa.Instruction) bool {
	waits := func(b *ssa.BasicBlock, lo, hi int) bool {
		for i := lo; i < hi; i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW && !x.CommaOk && !loops(b) && given(g, x.X) {
					return true
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && strings.HasPrefix(strings.TrimLeft(f.String(), "(*"), "sync.") && len(x.Call.Args) > 0 && given(g, x.Call.Args[0]) {
					return true
				}
			}
		}
		return false
	}
	// edges on which a channel turned out to be closed
	closed := func(b, s *ssa.BasicBlock) bool {
		f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		e, ok := f.Cond.(*ssa.Extract)
		if !ok || e.Index != 1 {
			return false
		}
		u, ok := e.Tuple.(*ssa.UnOp)
		return ok && u.Op == token.ARROW && b.Succs[1] == s && b.Succs[0] != s && given(g, u.X)
	}
	if use.Block() == g.Block() && index(use) > index(g) {
		return waits(g.Block(), index(g)+1, index(use))
	}
	if waits(g.Block(), index(g)+1, len(g.Block().Instrs)) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool // true if the use can be reached without waiting
	visit = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if b == use.Block() {
			return !waits(b, 0, index(use))
		}
		if waits(b, 0, len(b.Instrs)) {
			return false
		}
		for _, s := range b.Succs {
			if !closed(b, s) && visit(s) {
				return true
			}
		}
		return false
	}
	for _, s := range g.Block().Succs {
		if !closed(g.Block(), s) && visit(s) {
			return false
		}
	}
	return true
}

// sentRaces finds writes to memory after a pointer to it was sent.
func sentRaces(p *load.Prog, r *rep.R, fn *ssa.Function, s *ssa.Send, k int) {
	after := reachFrom(s.Block().Succs...)
	for _, a := range pointees(s.X, map[ssa.Value]bool{}) {
		r.Count("sent variables", 1)
		bad := ssa.Instruction(nil)
		for _, x := range accesses(a, map[ssa.Value]bool{}) {
			if !x.write || x.ins.Parent() != fn {
				continue
			}
			if x.ins.Block() == s.Block() && index(x.ins) > k || after[x.ins.Block()] && !remade(a, s, x.ins) {
				bad = x.ins
			}
		}
		if bad == nil {
			r.OK()
			continue
		}
		r.Fail("sent:"+fn.String()+":"+varName(a), pos(p, bad), "%s is written after it was sent at %s: the receiver may read it at the same time", varName(a), pos(p, s))
	}
}

// remade tells whether every way from a send to a use passes the allocation.
func remade(a *ssa.Alloc, s *ssa.Send, use ssa.Instruction) bool {
	if a.Block() == s.Block() && index(a) > index(s) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, s.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == a.Block() {
			if b == use.Block() && index(use) < index(a) {
				return false
			}
			continue
		}
		if b == use.Block() {
			return false
		}
		work = append(work, b.Succs...)
	}
	return true
}

// pointees are the variables of the function that a value holds pointers to.
func pointees(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Alloc {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return append([]*ssa.Alloc{x}, held(x, seen)...)
	case *ssa.MakeInterface:
		return pointees(x.X, seen)
	case *ssa.ChangeType:
		return pointees(x.X, seen)
	case *ssa.FieldAddr:
		return pointees(x.X, seen)
	case *ssa.Slice:
		return pointees(x.X, seen)
	case *ssa.UnOp:
		if a, ok := rootAlloc(x.X); ok {
			return held(a, seen)
		}
	case *ssa.Phi:
		var r []*ssa.Alloc
		for _, e := range x.Edges {
			r = append(r, pointees(e, seen)...)
		}
		return r
	}
	return nil
}

// held are the variables that pointers stored in a variable point to.
func held(a *ssa.Alloc, seen map[ssa.Value]bool) []*ssa.Alloc {
	var r []*ssa.Alloc
	var walk func(addr ssa.Value)
	walk = func(addr ssa.Value) {
		for _, u := range *addr.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					r = append(r, pointees(x.Val, seen)...)
				}
			case *ssa.FieldAddr:
				walk(x)
			case *ssa.IndexAddr:
				walk(x)
			}
		}
	}
	walk(a)
	return r
}
