package checks

import (
	"go/types"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"

	"golang.org/x/tools/go/ssa"
)

var cycleProps = []string{"P10"}

// The search for cycles is decided in product with Kahn's algorithm: the reference follows the keys that are looked
// at first, the list of files without references that are left, and the references of the file that is removed.
type cycleExplorer struct {
	*prod
	deg, edges *ai.T
	degSym     *ai.T
	head       bool // removed files stay in the list
}

var cycleAll = memo(func(p *load.Prog) *prodRun {
	run := newRun()
	fn := cycleFn(p)
	if fn == nil {
		run.anchor(cycleProps, "the method of the parser that looks for cycles was not found")
		return run
	}
	// whether removed files are taken off the list or counted is found by trying
	var first *prodRun
	for try := 0; try < 2; try++ {
		r := newRun()
		cycleExplore(p, r, fn, try == 1)
		r.need(cycleProps, "key without references", "key with references", "file removed", "reference removed", "file added", "edges done", "answered")
		if first == nil || len(r.problems) == 0 {
			first = r
		}
		if len(r.problems) == 0 {
			break
		}
	}
	return first
})

// cycleFn is the method that looks for cycles.
func cycleFn(p *load.Prog) (fn *ssa.Function) {
	for _, f := range p.Funcs {
		s := f.Signature
		if f.Pkg == p.RootSSA && s.Recv() != nil && isNamed(s.Recv().Type(), "parser") && f.Synthetic == "" && f.Parent() == nil &&
			sigIs(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), false), nil, []string{"bool"}) {
			if fn == nil || rangesOver(f, map[*ssa.Function]bool{}) {
				fn = f
			}
		}
	}
	return fn
}

// rangesOver tells whether a function, or one of the package that it calls, iterates over a map.
func rangesOver(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Range:
				if _, ok := i.X.Type().Underlying().(*types.Map); ok {
					return true
				}
			case *ssa.Call:
				if f := i.Call.StaticCallee(); f != nil && f.Pkg == fn.Pkg && rangesOver(f, seen) {
					return true
				}
			}
		}
	}
	return false
}

func cycleExplore(p *load.Prog, run *prodRun, fn *ssa.Function, head bool) {
	x := &cycleExplorer{prod: newProd(p, run, "P10"), head: head}
	e := x.e
	as := args(fn)
	st := ai.NewState(e)
	st.Assume(ai.Eq(as[0], ai.Nil), false)
	e.OnNext = x.next
	e.OnLookup = x.lookup
	e.OnMapPut = x.put
	e.OnAppend = x.appended
	e.OnHeader = x.header
	e.OnLoad = nil
	e.Return = x.ret
	e.Defer = nil
	e.WidenGhost = func(k string) bool { return false }
	st.Ghost["stage"] = ai.Str("keys")
	st.Ghost["n"], st.Ghost["e"] = ai.Int(0), ai.Int(0)
	x.prod.explore(st, fn, as, cycleProps)
}

// queue are the files that are left.
func (x *cycleExplorer) queue(st *ai.State) []*ai.T {
	if q := st.Ghost["queue"]; q != nil {
		return listOf(st.Norm(q))
	}
	return nil
}

// key checks that the key that was looked at was treated as it is to be.
func (x *cycleExplorer) key(st *ai.State, ins ssa.Instruction) bool {
	k := st.Ghost["key"]
	if k == nil {
		return true
	}
	zero := st.Eval(ai.Eq(ai.App("mget", intT, x.degSym, k), ai.Int(0)))
	switch added := st.Ghost["added"] != nil; {
	case zero == 0:
		x.fail(st, ins, "P10", "key-unknown", "undecided: whether a file without references is looked for")
		return false
	case zero == 1 && !added:
		x.fail(st, ins, "P10", "key-missed", "a file that no other file refers to is not looked at")
		return false
	case zero == -1 && added:
		x.fail(st, ins, "P10", "key-wrong", "a file that others refer to is looked at first")
		return false
	case zero == 1:
		x.run.events["key without references"]++
	default:
		x.run.events["key with references"]++
	}
	delete(st.Ghost, "key")
	delete(st.Ghost, "added")
	return true
}

func (x *cycleExplorer) next(st *ai.State, it, k, v *ai.T, ok bool, ins ssa.Instruction) {
	if gs(st, "stage") != "keys" || !it.Is("range") {
		return
	}
	m := it.Args[0]
	if x.deg == nil {
		x.deg = m
		x.degSym = st.MapOf(m)
	}
	if st.Ghost["l"] == nil {
		st.Ghost["l"] = ai.Len(x.degSym)
	}
	if m != x.deg {
		x.fail(st, ins, "P10", "keys", "undecided: the keys of %s are looked at", show(m))
		return
	}
	if !x.key(st, ins) {
		return
	}
	if !ok {
		st.Ghost["stage"] = ai.Str("run")
		return
	}
	st.Ghost["key"] = k
}

func (x *cycleExplorer) appended(st *ai.State, base *ai.T, parts []*ai.T, res *ai.T, ins ssa.Instruction) {
	if res.Typ == nil || res.Typ.Underlying().String() != "[]string" {
		return
	}
	if !sameParts(listOf(st.Norm(base)), x.queue(st)) {
		x.fail(st, ins, "P10", "queue", "a file is added to %s, not to the files that are left", show(base))
		return
	}
	if len(parts) != 1 || !parts[0].Is("el") {
		x.fail(st, ins, "P10", "queue-form", "undecided: %v is added to the files that are left", parts)
		return
	}
	v := st.Norm(parts[0].Args[0])
	switch gs(st, "stage") {
	case "keys":
		if st.Ghost["key"] == nil || v != st.Ghost["key"] || st.Ghost["added"] != nil {
			x.fail(st, ins, "P10", "queue-key", "%s is added to the files that are left, or it is added twice", show(v))
			return
		}
		st.Ghost["added"] = ai.True
	case "node":
		if st.Ghost["dec"] == nil || v != x.edge(st) || st.Ghost["added"] != nil {
			x.fail(st, ins, "P10", "queue-edge", "%s is added to the files that are left, or it is added twice", show(v))
			return
		}
		st.Ghost["added"] = ai.True
	default:
		x.fail(st, ins, "P10", "queue-late", "%s is added to the files that are left", show(v))
		return
	}
	st.Ghost["queue"] = res
}

// edge is the file that the file that is removed refers to next.
func (x *cycleExplorer) edge(st *ai.State) *ai.T {
	return at(st, st.Ghost["to"], st.Ghost["e"], strT)
}

// lookup notices which file is removed.
func (x *cycleExplorer) lookup(st *ai.State, m, k *ai.T, has bool, v *ai.T, ins *ssa.Lookup) {
	if m == x.deg && !has {
		// every file that is referred to is counted
		st.Kill()
		return
	}
	if m.Typ == nil || gs(st, "stage") == "keys" {
		return
	}
	mt, ok := m.Typ.Underlying().(*types.Map)
	if !ok || mt.Elem().Underlying().String() != "[]string" {
		return
	}
	if x.edges != nil && m != x.edges {
		x.fail(st, ins, "P10", "edges", "undecided: references are looked up in %s and %s", show(m), show(x.edges))
		return
	}
	x.edges = m
	if gs(st, "stage") == "node" && !x.node(st, ins) {
		return
	}
	q := x.queue(st)
	k = st.Norm(k)
	var rest []*ai.T
	switch {
	case x.head && len(q) == 1 && k == at(st, q[0], st.Ghost["n"], strT) && st.Eval(ai.Lt(st.Ghost["n"], ai.Len(q[0]))) == 1:
		rest = q
	case x.head:
		x.fail(st, ins, "P10", "removed", "the references of %s are looked at, which is not the next of the files that are left", show(k))
		return
	case len(q) > 0 && q[0].Is("el") && q[0].Args[0] == k:
		rest = q[1:]
	case len(q) > 0 && q[len(q)-1].Is("el") && q[len(q)-1].Args[0] == k:
		rest = q[:len(q)-1]
	case len(q) == 1 && k == at(st, q[0], ai.Int(0), strT) && st.Eval(ai.Lt(ai.Int(0), ai.Len(q[0]))) == 1:
		rest = []*ai.T{st.Norm(ai.App("subslice", q[0].Typ, q[0], ai.Int(1), ai.Nil))}
	case len(q) == 1 && k == at(st, q[0], ai.Add(ai.Len(q[0]), -1), strT) && st.Eval(ai.Lt(ai.Int(0), ai.Len(q[0]))) == 1:
		rest = []*ai.T{st.Norm(ai.App("subslice", q[0].Typ, q[0], ai.Int(0), ai.Add(ai.Len(q[0]), -1)))}
	default:
		x.fail(st, ins, "P10", "removed", "the references of %s are looked at, which is not the next of the files that are left", show(k))
		return
	}
	if len(rest) == 1 && !rest[0].Is("el") {
		st.Ghost["queue"] = rest[0]
	} else {
		st.Ghost["queue"] = ai.List(nil, rest...)
	}
	st.Ghost["stage"] = ai.Str("node")
	st.Ghost["to"] = v
	st.Ghost["fresh"] = ai.True
	st.Ghost["e"] = ai.Int(0)
	st.Ghost["n"] = st.Norm(ai.Add(st.Ghost["n"], 1))
	st.Ghost["l"] = st.Norm(ai.Add(st.Ghost["l"], -1))
	delete(st.Ghost, "dec")
	delete(st.Ghost, "added")
	x.run.events["file removed"]++
}

// node checks that all references of the file that was removed were followed.
func (x *cycleExplorer) node(st *ai.State, ins ssa.Instruction) bool {
	if !x.settle(st, ins) {
		return false
	}
	if st.Eval(ai.Le(ai.Len(st.Ghost["to"]), st.Ghost["e"])) != 1 {
		x.fail(st, ins, "P10", "edges-left", "references of a file that is removed are left")
		return false
	}
	x.run.events["edges done"]++
	st.Ghost["stage"] = ai.Str("run")
	for _, k := range []string{"to", "e", "fresh"} {
		delete(st.Ghost, k)
	}
	st.Ghost["e"] = ai.Int(0)
	return true
}

// settle finishes a reference that was removed.
func (x *cycleExplorer) settle(st *ai.State, ins ssa.Instruction) bool {
	if st.Ghost["dec"] == nil {
		return true
	}
	z := st.Eval(ai.Eq(st.Ghost["dec"], ai.Int(0)))
	switch added := st.Ghost["added"] != nil; {
	case z == 0:
		x.fail(st, ins, "P10", "edge-unknown", "whether a file that loses a reference has others is not looked at")
		return false
	case z == 1 && !added:
		x.fail(st, ins, "P10", "edge-missed", "a file that lost its last reference is not looked at")
		return false
	case z == -1 && added:
		x.fail(st, ins, "P10", "edge-wrong", "a file that others still refer to is looked at")
		return false
	case added:
		x.run.events["file added"]++
	}
	delete(st.Ghost, "dec")
	delete(st.Ghost, "added")
	st.Ghost["e"] = st.Norm(ai.Add(st.Ghost["e"], 1))
	return true
}

func (x *cycleExplorer) put(st *ai.State, m, k, v *ai.T, ins ssa.Instruction) {
	if m != x.deg || gs(st, "stage") != "node" {
		x.fail(st, ins, "P10", "put", "undecided: %s is changed", show(m))
		return
	}
	if st.Ghost["dec"] != nil && !x.settle(st, ins) {
		return
	}
	k = st.Norm(k)
	if st.Eval(ai.Lt(st.Ghost["e"], ai.Len(st.Ghost["to"]))) != 1 || k != x.edge(st) {
		x.fail(st, ins, "P10", "dec-what", "a reference to %s is removed, not the next one of the file that is removed", show(k))
		return
	}
	old := st.Norm(ai.App("mget", intT, st.MapOf(m), k))
	if st.Eval(ai.Eq(v, ai.Add(old, -1))) != 1 {
		x.fail(st, ins, "P10", "dec", "the number of references to a file becomes %s", show(v))
		return
	}
	// every reference was counted
	st.Assume(ai.Le(ai.Int(1), old), true)
	st.Ghost["dec"] = v
	x.run.events["reference removed"]++
}

func (x *cycleExplorer) header(st *ai.State, b *ssa.BasicBlock) {
	var ins ssa.Instruction
	if len(b.Instrs) > 0 {
		ins = b.Instrs[0]
	}
	switch gs(st, "stage") {
	case "keys":
		if !x.key(st, ins) {
			return
		}
	case "node":
		if !x.settle(st, ins) {
			return
		}
		// the loop over the references starts at the first loop head
		if st.Ghost["fresh"] != nil {
			delete(st.Ghost, "fresh")
		} else if st.Eval(ai.Le(ai.Len(st.Ghost["to"]), st.Ghost["e"])) == 1 && !x.node(st, ins) {
			return
		}
	}
	g := gs(st, "stage")
	if g == "node" {
		// what was counted so far does not matter here; the file that is removed does
		x.e.WidenGhost = func(k string) bool { return k == "e" }
	} else {
		x.e.WidenGhost = func(k string) bool { return k == "n" || k == "l" }
	}
	if q := x.queue(st); len(q) > 0 {
		l := st.Norm(st.Ghost["queue"])
		f := st.Fresh("left", types.NewSlice(strT))
		st.Replace(l, f)
		st.Ghost["queue"] = f
	}
	if x.degSym != nil {
		st.SetMap(x.deg, x.degSym)
	}
	st.Forget(func(t *ai.T) bool { return t.Is("mhas") || t.Is("mget") || t.Is("index") || t.Is("subslice") })
}

func (x *cycleExplorer) ret(st *ai.State, res []*ai.T, ins ssa.Instruction) {
	if len(res) != 1 {
		return
	}
	switch gs(st, "stage") {
	case "keys":
		x.fail(st, ins, "P10", "early", "undecided: the search ends before every file was looked at")
		return
	case "node":
		if !x.node(st, ins) {
			return
		}
	}
	for _, q := range x.queue(st) {
		if x.head && !q.Is("el") && len(x.queue(st)) == 1 && st.Eval(ai.Lt(st.Ghost["n"], ai.Len(q))) == -1 {
			continue
		}
		if q.Is("el") || st.Eval(ai.Lt(ai.Int(0), ai.Len(q))) != -1 {
			x.fail(st, ins, "P10", "left", "the search ends before every file was looked at")
			return
		}
	}
	// no file is removed twice
	n, l, files := st.Ghost["n"], st.Ghost["l"], ai.Len(x.degSym)
	st.Assume(ai.Le(n, files), true)
	st.Assume(ai.Le(ai.Int(0), l), true)
	r := st.Eval(res[0])
	for _, all := range []*ai.T{ai.Eq(n, files), ai.Eq(l, ai.Int(0))} {
		if v := st.Eval(all); st.Norm(res[0]) == st.Norm(ai.Not(all)) || r != 0 && v == -r {
			x.run.events["answered"]++
			return
		}
	}
	for _, some := range []*ai.T{ai.Lt(n, files), ai.Lt(ai.Int(0), l)} {
		if st.Norm(res[0]) == st.Norm(some) {
			x.run.events["answered"]++
			return
		}
	}
	x.fail(st, ins, "P10", "answer", "the search ends with %s, not with whether files are left that were never removed (%s of %s)", show(res[0]), show(st.Ghost["n"]), show(ai.Len(x.degSym)))
}

func init() {
	prodCheck("P10", "abstract interpretation (path-sensitive fixpoint over SSA) of the search for cycles in product with Kahn's algorithm (property simulation)",
		"The search is explored for every graph of files; the reference follows which file is removed, which of its references were, and which files have no reference left.",
		cycleAll, "every file without references is added once to those that are left, and each reference of a file that is removed is removed once", "the answer compares the number of removed files with the number of files")
	extend("P10", func(p *load.Prog, r *rep.R) {
		parseReport(parseAll(p), r, "P10", []string{"every file of an include is counted once as included and recorded once as included by the file that is parsed"})
	})
}
