package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"text/template/parse"

	"crossplanecheck/internal/load"

	"golang.org/x/tools/go/ssa"
)

// The template of the generator is evaluated symbolically: names stand for its fields, loops are unrolled twice.

// tmplVal is a value in a template.
type tmplVal struct {
	kind string // "root", "field", "masks", "name", "bits", "mask", "text"
	text string
}

type tmplEval struct {
	out   strings.Builder
	vars  map[string]tmplVal
	used  map[string]string // what a field stands for -> its name
	roles map[string]string // a field -> what it stands for
	why   string
	cond  bool // the comment is there
}

func (e *tmplEval) give(f string, a ...interface{}) {
	if e.why == "" {
		e.why = fmt.Sprintf(f, a...)
	}
}

// genTemplate checks the template and returns the names of its fields by what they stand for.
func genTemplate(p *load.Prog, run *prodRun) map[string]string {
	text, where, why := templateText(p)
	if why != "" {
		if strings.HasPrefix(why, "!") {
			run.problems = append(run.problems, problem{"G03", "template", where, why[1:], nil})
		} else {
			run.cut = append(run.cut, "the template: "+why)
		}
		return nil
	}
	funcs := map[string]interface{}{"Join": strings.Join, "ne": 0, "eq": 0, "not": 0, "and": 0, "or": 0, "len": 0, "printf": 0, "print": 0, "index": 0, "println": 0, "gt": 0, "lt": 0, "ge": 0, "le": 0, "html": 0, "js": 0, "urlquery": 0, "slice": 0, "call": 0}
	ts, err := parse.Parse("t", text, "", "", funcs)
	if err != nil || ts["t"] == nil {
		run.problems = append(run.problems, problem{"G03", "template", where, fmt.Sprintf("the template cannot be parsed: %v", err), nil})
		return nil
	}
	var used map[string]string
	for _, cond := range []bool{true, false} {
		e := &tmplEval{vars: map[string]tmplVal{"$": {"root", ""}}, used: map[string]string{}, roles: map[string]string{}, cond: cond}
		e.list(ts["t"].Root, tmplVal{"root", ""})
		run.oblig++
		if e.why != "" {
			run.cut = append(run.cut, "the template: "+e.why)
			return nil
		}
		if why := e.check(); why != "" {
			run.problems = append(run.problems, problem{"G03", "template", where, why, nil})
			return nil
		}
		if cond {
			used = e.used
		}
	}
	run.events["templates"]++
	return used
}

// templateText finds the text of the template that is executed.
func templateText(p *load.Prog) (text, where, why string) {
	where = "-"
	var arg ssa.Value
	for _, f := range p.Funcs {
		if f.Pkg != p.GenSSA {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					continue
				}
				switch n := c.Call.StaticCallee().String(); {
				case strings.HasPrefix(n, "(*html/template.Template)"):
					return "", p.Pos(c.Pos()), "!the template is one for HTML: what it makes of Go code is escaped"
				case n == "(*text/template.Template).Parse":
					if arg != nil {
						return "", "", "there are several"
					}
					arg, where = c.Call.Args[1], p.Pos(c.Pos())
				case n == "(*text/template.Template).Funcs":
					if w := templateFuncs(c.Call.Args[1]); w != "" {
						return "", "", w
					}
				case strings.HasPrefix(n, "(*text/template.Template).") && (strings.HasSuffix(n, ".Delims") || strings.HasSuffix(n, ".Option") || strings.HasSuffix(n, ".ParseFS") || strings.HasSuffix(n, ".ParseFiles")):
					return "", "", n + " is not followed"
				}
			}
		}
	}
	switch a := arg.(type) {
	case *ssa.Const:
		return constant.StringVal(a.Value), where, ""
	case *ssa.UnOp:
		g, ok := a.X.(*ssa.Global)
		if !ok {
			break
		}
		for _, f := range p.Gen.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						if n.Name != g.Name() {
							continue
						}
						for _, doc := range []*ast.CommentGroup{vs.Doc, gd.Doc} {
							if doc == nil {
								continue
							}
							for _, c := range doc.List {
								if strings.HasPrefix(c.Text, "//go:embed ") {
									file := filepath.Join(filepath.Dir(p.Fset.Position(f.Pos()).Filename), strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:embed ")))
									b, err := os.ReadFile(file)
									if err != nil {
										return "", "", err.Error()
									}
									if r, err := filepath.Rel(p.Dir, file); err == nil {
										where = r
									}
									return string(b), where, ""
								}
							}
						}
						if i < len(vs.Values) {
							if tv, ok := p.Gen.TypesInfo.Types[vs.Values[i]]; ok && tv.Value != nil {
								return constant.StringVal(tv.Value), where, ""
							}
						}
					}
				}
			}
		}
	}
	return "", "", "its text was not found"
}

// templateFuncs checks that Join is strings.Join.
func templateFuncs(v ssa.Value) string {
	for {
		c, ok := v.(*ssa.ChangeType)
		if !ok {
			break
		}
		v = c.X
	}
	m, ok := v.(*ssa.MakeMap)
	if !ok {
		return "its functions are not followed"
	}
	for _, r := range *m.Referrers() {
		u, ok := r.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		k, ok1 := u.Key.(*ssa.Const)
		i, ok2 := u.Value.(*ssa.MakeInterface)
		if !ok1 || !ok2 {
			return "its functions are not followed"
		}
		f, ok := i.X.(*ssa.Function)
		if !ok || f.String() != "strings.Join" || constant.StringVal(k.Value) != "Join" {
			return "its function " + constant.StringVal(k.Value) + " is not followed"
		}
	}
	return ""
}

func (e *tmplEval) list(l *parse.ListNode, dot tmplVal) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		if e.why != "" {
			return
		}
		switch n := n.(type) {
		case *parse.TextNode:
			e.out.Write(n.Text)
		case *parse.CommentNode:
		case *parse.ActionNode:
			v := e.pipe(n.Pipe, dot)
			if len(n.Pipe.Decl) == 0 {
				e.print(v)
			}
		case *parse.IfNode:
			if e.test(n.Pipe, dot) {
				e.list(n.List, dot)
			} else {
				e.list(n.ElseList, dot)
			}
		case *parse.WithNode:
			v := e.pipe(n.Pipe, dot)
			if v.kind != "comment" {
				e.give("with is used for %s", v.kind)
				return
			}
			if e.cond {
				e.list(n.List, v)
			} else {
				e.list(n.ElseList, dot)
			}
		case *parse.RangeNode:
			e.loop(n, dot)
		default:
			e.give("%s is not followed", n)
		}
	}
}

func (e *tmplEval) loop(n *parse.RangeNode, dot tmplVal) {
	var vars []string
	for _, d := range n.Pipe.Decl {
		vars = append(vars, d.Ident[0])
	}
	decl := n.Pipe.Decl
	n.Pipe.Decl = nil
	over := e.pipe(n.Pipe, dot)
	n.Pipe.Decl = decl
	for i := 1; i <= 2; i++ {
		var k, v tmplVal
		switch over.kind {
		case "masks":
			k, v = tmplVal{"name", fmt.Sprintf("name%d", i)}, tmplVal{"bits", fmt.Sprintf("d%d", i)}
		case "field":
			e.used["masks"], e.roles[over.text] = over.text, "masks"
			k, v = tmplVal{"name", fmt.Sprintf("name%d", i)}, tmplVal{"bits", fmt.Sprintf("d%d", i)}
		case "bits":
			k, v = tmplVal{"number", ""}, tmplVal{"mask", fmt.Sprintf("%sm%d", over.text, i)}
		default:
			e.give("a loop over %s is not followed", over.kind)
			return
		}
		old := map[string]tmplVal{}
		for s, t := range e.vars {
			old[s] = t
		}
		switch len(vars) {
		case 1:
			e.vars[vars[0]] = v
		case 2:
			e.vars[vars[0]], e.vars[vars[1]] = k, v
		}
		e.list(n.List, v)
		e.vars = old
	}
}

// test evaluates a condition: only whether there is a comment may be asked for.
func (e *tmplEval) test(p *parse.PipeNode, dot tmplVal) bool {
	if len(p.Cmds) == 1 {
		as := p.Cmds[0].Args
		if id, ok := as[0].(*parse.IdentifierNode); ok && (id.Ident == "ne" || id.Ident == "eq") && len(as) == 3 {
			x, y := e.arg(as[1], dot), e.arg(as[2], dot)
			if x.kind == "text" {
				x, y = y, x
			}
			if x.kind == "field" && y.kind == "text" && y.text == "" {
				e.role(x, "comment")
				return e.cond == (id.Ident == "ne")
			}
		}
		if len(as) == 1 {
			if x := e.arg(as[0], dot); x.kind == "field" {
				e.role(x, "comment")
				return e.cond
			}
		}
		if id, ok := as[0].(*parse.IdentifierNode); ok && id.Ident == "not" && len(as) == 2 {
			if x := e.arg(as[1], dot); x.kind == "field" {
				e.role(x, "comment")
				return !e.cond
			}
		}
	}
	e.give("the condition %s is not followed", p)
	return false
}

func (e *tmplEval) role(x tmplVal, r string) {
	if x.kind == "field" {
		e.used[r], e.roles[x.text] = x.text, r
	}
}

func (e *tmplEval) pipe(p *parse.PipeNode, dot tmplVal) tmplVal {
	var v tmplVal
	for i, c := range p.Cmds {
		as := c.Args
		if id, ok := as[0].(*parse.IdentifierNode); ok {
			var vs []tmplVal
			for _, a := range as[1:] {
				vs = append(vs, e.arg(a, dot))
			}
			if i > 0 {
				vs = append(vs, v)
			}
			v = e.call(id.Ident, vs)
			continue
		}
		if i > 0 || len(as) != 1 {
			e.give("%s is not followed", p)
			return v
		}
		v = e.arg(as[0], dot)
	}
	for _, d := range p.Decl {
		e.vars[d.Ident[0]] = v
	}
	return v
}

func (e *tmplEval) call(f string, vs []tmplVal) tmplVal {
	switch {
	case f == "Join" && len(vs) == 2 && vs[0].kind == "mask" && vs[1].kind == "text":
		return tmplVal{"text", vs[0].text + "a" + vs[1].text + vs[0].text + "b"}
	case f == "printf" && len(vs) == 2 && vs[0].text == "%q" && vs[1].kind == "name":
		return tmplVal{"text", `"` + vs[1].text + `"`}
	case f == "print" && len(vs) == 1:
		return vs[0]
	}
	e.give("the call of %s is not followed", f)
	return tmplVal{}
}

func (e *tmplEval) arg(n parse.Node, dot tmplVal) tmplVal {
	switch n := n.(type) {
	case *parse.StringNode:
		return tmplVal{"text", n.Text}
	case *parse.DotNode:
		return dot
	case *parse.FieldNode:
		if dot.kind == "root" && len(n.Ident) == 1 {
			return tmplVal{"field", n.Ident[0]}
		}
	case *parse.VariableNode:
		v, ok := e.vars[n.Ident[0]]
		if !ok {
			break
		}
		if len(n.Ident) == 2 && v.kind == "root" {
			return tmplVal{"field", n.Ident[1]}
		}
		if len(n.Ident) == 1 {
			return v
		}
	case *parse.PipeNode:
		return e.pipe(n, dot)
	}
	e.give("%s is not followed", n)
	return tmplVal{}
}

func (e *tmplEval) print(v tmplVal) {
	switch v.kind {
	case "text", "name":
		e.out.WriteString(v.text)
	case "field", "comment":
		e.out.WriteString("FIELD_" + v.text)
	default:
		e.give("a value that is %s is written", v.kind)
	}
}

// check compares the Go code with the expected form; it finds out what the fields stand for.
func (e *tmplEval) check() string {
	src := e.out.String()
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "generated.go", src, parser.ParseComments)
	if err != nil {
		return fmt.Sprintf("the template does not make Go code: %v", err)
	}
	if f.Name.Name != "crossplane" {
		return "the code that the template makes is in the package " + f.Name.Name
	}
	field := func(s string) (string, bool) {
		if strings.HasPrefix(s, "FIELD_") {
			return strings.TrimPrefix(s, "FIELD_"), true
		}
		return "", false
	}
	var table *ast.CompositeLit
	var fun *ast.FuncDecl
	mapName := ""
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT || d.Tok == token.CONST {
				return "the code that the template makes has a declaration that is not expected"
			}
			for _, s := range d.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || table != nil || len(vs.Names) != 1 || len(vs.Values) != 1 {
					return "the code that the template makes has a declaration that is not expected"
				}
				c, ok := vs.Values[0].(*ast.CompositeLit)
				if !ok {
					return "the variable that the template makes is no table"
				}
				table, mapName = c, vs.Names[0].Name
			}
		case *ast.FuncDecl:
			if fun != nil || d.Recv != nil {
				return "the template makes several functions"
			}
			fun = d
		}
	}
	if table == nil || fun == nil {
		return "the template does not make a table and a function"
	}
	m, ok1 := field(mapName)
	fn, ok2 := field(fun.Name.Name)
	if !ok1 || !ok2 || m == fn {
		return fmt.Sprintf("the table has the name %s and the function %s: they are not those of the configuration", mapName, fun.Name.Name)
	}
	e.used["map"], e.used["func"] = m, fn
	text := func(n ast.Node) string {
		var b bytes.Buffer
		(&printer.Config{}).Fprint(&b, token.NewFileSet(), n)
		return strings.Join(strings.Fields(b.String()), "")
	}
	if t := text(table.Type); t != "map[string][]uint" {
		return "the table is a " + t
	}
	var got []string
	for _, el := range table.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			return "the table has an element without a key"
		}
		l, ok := kv.Value.(*ast.CompositeLit)
		if !ok {
			return "the masks of a directive are no list"
		}
		s := text(kv.Key) + ":"
		for _, x := range l.Elts {
			s += text(x) + ";"
		}
		got = append(got, s)
	}
	want := `"name1":d1m1a|d1m1b;d1m2a|d1m2b; "name2":d2m1a|d2m1b;d2m2a|d2m2b;`
	if g := strings.Join(got, " "); g != want {
		return fmt.Sprintf("the template makes the table %s and not %s", g, want)
	}
	if e.used["masks"] == "" {
		return "the template does not use the directives"
	}
	if why := matchBody(fun, mapName, text); why != "" {
		return why
	}
	if c, has := e.used["comment"]; has {
		n := 0
		for _, g := range f.Comments {
			for _, l := range g.List {
				if strings.Contains(l.Text, "FIELD_"+c) {
					n++
					if strings.TrimSpace(strings.TrimPrefix(l.Text, "//")) != "FIELD_"+c || g.End() > fun.Pos() || fset.Position(l.Pos()).Line+1 != fset.Position(fun.Name.Pos()).Line {
						return "the comment is not the one above the function"
					}
				}
			}
		}
		if e.cond != (n == 1) {
			return "the comment is not written exactly if there is one"
		}
	} else {
		return "the comment is not written"
	}
	return ""
}

// matchBody: the function answers from the table.
func matchBody(fun *ast.FuncDecl, table string, text func(ast.Node) string) string {
	names := map[string]string{}
	n := 0
	ast.Inspect(fun, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.Field:
			for _, id := range x.Names {
				n++
				names[id.Name] = fmt.Sprintf("v%d", n)
			}
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && names[id.Name] == "" {
						n++
						names[id.Name] = fmt.Sprintf("v%d", n)
					}
				}
			}
		}
		return true
	})
	ast.Inspect(fun, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && names[id.Name] != "" {
			id.Name = names[id.Name]
		}
		return true
	})
	typ, body := text(fun.Type), text(fun.Body)
	if typ != "func(v1string)([]uint,bool)" && typ != "func(v1string)(v2[]uint,v3bool)" {
		return "the function that the template makes is a " + typ
	}
	if body != "{v2,v3:="+table+"[v1]return"+"v2,v3}" && body != "{v2,v3="+table+"[v1]return"+"v2,v3}" && body != "{v2,v3="+table+"[v1]return}" && body != "{v4,v5:="+table+"[v1]returnv4,v5}" {
		return "the function that the template makes does not answer from the table: " + body
	}
	return ""
}
