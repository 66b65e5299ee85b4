package checks

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"crossplanecheck/internal/ai"
	"crossplanecheck/internal/load"
	"crossplanecheck/internal/rep"

	"golang.org/x/tools/go/ssa"
)

// prodRun collects what the product of some functions with their reference yields.
type prodRun struct {
	problems []problem
	states   int
	oblig    int
	events   map[string]int
	samples  []string
	roots    []string
	assumes  map[string]bool
	cut      []string // explorations that were given up
}

func newRun() *prodRun { return &prodRun{events: map[string]int{}, assumes: map[string]bool{}} }

// prod is the product of one function with its reference.
type prod struct {
	p     *load.Prog
	e     *ai.Engine
	run   *prodRun
	main  string // the property that failures of the analysis itself are reported for
	quiet bool
	bad   map[string]bool
}

func newProd(p *load.Prog, run *prodRun, main string) *prod {
	x := &prod{p: p, run: run, main: main, bad: map[string]bool{}, e: newEngine(p)}
	e := x.e
	e.Debug = os.Getenv("AIDEBUG") != ""
	e.MaxStates = 60000
	e.PartLimit = 2
	e.Near = 1
	e.KeepLen = true
	e.ConstLimit = -1
	e.OffLimit = 0
	e.DiffLimit = 2
	e.LowLimit = 1
	e.Module = inModule(p)
	e.Imprecise = func(st *ai.State, what string, ins ssa.Instruction) {
		x.fail(st, ins, main, "undecided:"+what, "undecided: %s", what)
	}
	e.Ext = func(st *ai.State, c *ai.CallInfo) {
		run.assumes["calls of "+c.Name+" have no effect on what is decided"] = true
	}
	e.Obligation = func(st *ai.State, kind string, ok bool, ins ssa.Instruction, d string) {
		run.oblig++
		watch(p, st, kind, ok, ins, d)
	}
	e.Defer = func(st *ai.State, c *ai.CallInfo) bool { return true }
	e.Recursive = func(st *ai.State, c *ai.CallInfo) []ai.Outcome {
		x.fail(st, c.Instr, main, "recursion", "the recursive call of %s is not analysed", c.Name)
		return nil
	}
	return x
}

// fail records a violation of one or more properties and ends the path.
func (x *prod) fail(st *ai.State, ins ssa.Instruction, props, key, f string, a ...interface{}) {
	if x.quiet {
		st.Kill()
		return
	}
	ps := "-"
	if ins != nil {
		ps = pos(x.p, ins)
	}
	for _, prop := range strings.Split(props, ",") {
		if x.bad[prop+key] {
			continue
		}
		x.bad[prop+key] = true
		q := problem{prop, key, ps, fmt.Sprintf(f, a...), st.Path()}
		if x.e.Debug {
			fmt.Println("PROBLEM", q.prop, q.key, q.pos, q.msg)
			for _, l := range q.trace {
				fmt.Println("    ", l)
			}
			fmt.Print(st.Dump())
		}
		x.run.problems = append(x.run.problems, q)
		if Only == prop {
			x.e.Stop = true
		}
	}
	st.Kill()
}

// explore runs the engine on a function.
func (x *prod) explore(st *ai.State, fn *ssa.Function, as []*ai.T, props []string) {
	x.e.Start(st, fn, as, nil)
	x.e.Run(st)
	x.run.states += len(x.e.Visited)
	x.run.roots = append(x.run.roots, fn.String())
	if os.Getenv("AISTAT") != "" {
		ai.PrintStats(8, 45)
	}
	if x.e.Overflow {
		x.run.cut = append(x.run.cut, fn.String())
	}
}

// need records a problem for every event that was never seen.
func (r *prodRun) need(props []string, events ...string) {
	if len(r.problems) > 0 || len(r.cut) > 0 {
		return
	}
	for _, k := range events {
		if r.events[k] == 0 {
			for _, pr := range props {
				r.problems = append(r.problems, problem{pr, "vacuous:" + k, "-", fmt.Sprintf("no execution with the event %q was found", k), nil})
			}
		}
	}
}

func (r *prodRun) anchor(props []string, what string) {
	for _, pr := range props {
		r.problems = append(r.problems, problem{pr, "anchor", "-", what, nil})
	}
}

// prodCheck makes the check of a property from a product.
func prodCheck(prop, technique, explanation string, f func(p *load.Prog) *prodRun, rules ...string) {
	register(prop, func(p *load.Prog, r *rep.R) {
		run := f(p)
		r.Technique = technique
		r.Explanation = explanation
		for _, x := range rules {
			r.Rule("%s", x)
		}
		prodReport(run, r, prop)
		r.Floor("functions", 1)
	})
}

// prodMore adds another product to the check of a property.
func prodMore(prop string, f func(p *load.Prog) *prodRun, rules ...string) {
	extend(prop, func(p *load.Prog, r *rep.R) {
		for _, x := range rules {
			r.Rule("%s", x)
		}
		prodReport(f(p), r, prop)
	})
}

func prodReport(run *prodRun, r *rep.R, prop string) {
	for k := range run.assumes {
		r.Assume("%s", k)
	}
	for _, c := range run.cut {
		r.Cut(c)
	}
	r.Count("abstract states", run.states)
	r.Count("functions", len(run.roots))
	for k, n := range run.events {
		r.Count("events "+k, n)
		for i := 0; i < n; i++ {
			r.OK()
		}
	}
	for _, s := range run.samples {
		r.Sample("%s", s)
	}
	for _, q := range run.problems {
		if q.prop == prop {
			r.FailTrace(q.key, q.pos, q.trace, "%s", q.msg)
		} else {
			r.Masked(q.prop, q.key)
		}
	}
}

// memo runs a product once per program.
func memo(f func(p *load.Prog) *prodRun) func(p *load.Prog) *prodRun {
	m := map[*load.Prog]*prodRun{}
	return func(p *load.Prog) *prodRun {
		if r, ok := m[p]; ok {
			return r
		}
		m[p] = f(p)
		return m[p]
	}
}

// three-valued logic: 1 true, -1 false, 0 unknown
func and3(vs ...int) int {
	r := 1
	for _, v := range vs {
		if v < r {
			r = v
		}
	}
	return r
}

func or3(vs ...int) int {
	r := -1
	for _, v := range vs {
		if v > r {
			r = v
		}
	}
	return r
}

// rootFn is a function of the library by name.
func rootFn(p *load.Prog, name string) *ssa.Function {
	fn, _ := p.RootSSA.Members[name].(*ssa.Function)
	return fn
}

// rootMethod is a method of a type of the library.
func rootMethod(p *load.Prog, typ, name string) *ssa.Function {
	for _, f := range p.Funcs {
		if f.Name() == name && f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), typ) && f.Pkg == p.RootSSA && f.Synthetic == "" {
			return f
		}
	}
	return nil
}

// field reads a field of the struct that a pointer points to.
func field(st *ai.State, ptr *ai.T, typ types.Type, name string) *ai.T {
	i := fieldIndex(typ, name)
	if i < 0 {
		return ai.Nil
	}
	return st.Norm(st.Load(ai.FieldAddr(ptr, i), typ.Underlying().(*types.Struct).Field(i).Type()))
}

// at is an element of a list.
func at(st *ai.State, list *ai.T, i *ai.T, typ types.Type) *ai.T {
	return st.Norm(st.Index(st.Norm(list), st.Norm(i), typ))
}

var (
	strT  = types.Typ[types.String]
	intT  = types.Typ[types.Int]
	boolT = types.Typ[types.Bool]
	uintT = types.Typ[types.Uint]
	errT  = types.Universe.Lookup("error").Type()
)
