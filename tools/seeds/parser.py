PRE='''package crossplane

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"testing"
)

type zzFS map[string]string

func (f zzFS) open(p string) (io.ReadCloser, error) {
	if s, ok := f[p]; ok {
		return io.NopCloser(strings.NewReader(s)), nil
	}
	return nil, os.ErrNotExist
}

func zzDump(ds Directives) string {
	var b strings.Builder
	for _, d := range ds {
		fmt.Fprintf(&b, "%s%q@%d", d.Directive, d.Args, d.Line)
		if d.Comment != nil {
			fmt.Fprintf(&b, "#%s", *d.Comment)
		}
		if len(d.Includes) > 0 {
			fmt.Fprintf(&b, "%v", d.Includes)
		}
		if d.Block != nil {
			fmt.Fprintf(&b, "{%s}", zzDump(d.Block))
		}
		b.WriteString(" ")
	}
	return b.String()
}

func zzParse(t *testing.T, f zzFS, o ParseOptions) (*Payload, error) {
	o.Open = f.open
	return Parse("/n/main", &o)
}

func zzWant(t *testing.T, f zzFS, o ParseOptions, want string) {
	p, err := zzParse(t, f, o)
	if err != nil {
		t.Fatal(err)
	}
	var b strings.Builder
	for _, c := range p.Config {
		fmt.Fprintf(&b, "%s: %s", c.File, zzDump(c.Parsed))
		for _, e := range c.Errors {
			fmt.Fprintf(&b, "!%s", e.Error)
			if e.Line != nil {
				fmt.Fprintf(&b, "@%d", *e.Line)
			}
		}
	}
	if got := b.String(); got != want {
		t.Errorf("got  %s\\nwant %s", got, want)
	}
}

var _ = json.Marshal
var _ = errors.Is
'''
def T(body): return PRE+"\nfunc TestZZDemo(t *testing.T) {\n"+body+"\n}\n"
SEEDS=[
dict(id="par-skip-quoted-brace",prop="P01",
 edits=[("parse.go",'''			if t.Value == "{" && !t.IsQuoted {
				if _, err := p.parse''','''			if t.Value == "{" {
				if _, err := p.parse''')],
 needs="a block that is left out (an ignored directive, or one with an error) which holds the quoted argument \"{\"",
 breaks="the statements after the block that is left out are swallowed up to another closing brace",
 test=T('''	zzWant(t, zzFS{"/n/main": "http { foo { a '{'; } } events { }"}, ParseOptions{IgnoreDirectives: []string{"foo"}},
		`/n/main: http[]@1{} events[]@1{} `)''')),
dict(id="par-bad-pattern-dropped",prop="P02",
 edits=[("parse.go",'''				fnames, err = p.options.Glob(pattern)
				if err != nil {''','''				fnames, err = p.options.Glob(pattern)
				if err != nil && !errors.Is(err, filepath.ErrBadPattern) {''')],
 needs="an include whose pattern is malformed",
 breaks="the error of the pattern is lost: the include matches no file and the configuration looks valid",
 test=T('''	if _, err := zzParse(t, zzFS{"/n/main": "include /n/[*.conf;"}, ParseOptions{StopParsingOnError: true}); err == nil {
		t.Error("no error")
	}''')),
dict(id="par-map-error-kept-going",prop="P03",
 edits=[("parse.go",'''if mapErr != nil && p.options.StopParsingOnError {''','''if mapErr != nil && p.options.StopParsingOnError && !p.options.SkipDirectiveArgsCheck {''')],
 needs="StopParsingOnError and SkipDirectiveArgsCheck together, and a bad parameter in a map-like block",
 breaks="parsing goes on after the error although StopParsingOnError is set",
 test=T('''	if _, err := zzParse(t, zzFS{"/n/main": "http { map $a $b { x 1 2; } }"}, ParseOptions{StopParsingOnError: true, SkipDirectiveArgsCheck: true}); err == nil {
		t.Error("no error")
	}''')),
dict(id="par-comment-blanks",prop="P04",
 edits=[("parse.go",'''				comment := t.Value[1:]
				stmt.Directive = "#"''','''				comment := strings.TrimRight(t.Value[1:], " \\t")
				stmt.Directive = "#"''')],
 needs="a comment with blanks at its end",
 breaks="the comment loses its last characters",
 test=T('''	zzWant(t, zzFS{"/n/main": "# title \\n#a\\n"}, ParseOptions{ParseComments: true}, "/n/main: #[]@1# title  #[]@2#a ")''')),
dict(id="par-ignore-fold",prop="P05",
 edits=[("util.go",'''		if s == x {
			return true''','''		if s == x || strings.EqualFold(s, x) {
			return true''')],
 needs="a directive whose name differs from an ignored one in case only",
 breaks="directives that IgnoreDirectives does not name are left out",
 test=T('''	zzWant(t, zzFS{"/n/main": "Foo a; foo b;"}, ParseOptions{IgnoreDirectives: []string{"foo"}}, `/n/main: Foo["a"]@1 `)''')),
dict(id="par-include-relative-to-file",prop="P06",
 edits=[("parse.go",'''pattern = filepath.Join(p.configDir, pattern)''','''if strings.HasPrefix(pattern, "../") {
					pattern = filepath.Join(filepath.Dir(parsing.File), pattern)
				} else {
					pattern = filepath.Join(p.configDir, pattern)
				}''')],
 needs="an include that starts with ../ inside a file that lies in another directory than the main file",
 breaks="the path is taken relative to the including file, not to the main file's directory",
 test=T('''	zzWant(t, zzFS{"/n/main": "include sub/a;", "/n/sub/a": "include ../b;", "/b": "foo;"}, ParseOptions{},
		`/n/main: include["sub/a"]@1[1] /n/sub/a: include["../b"]@1[2] /b: foo[]@1 `)''')),
dict(id="par-ignored-include-opened",prop="P06",
 edits=[("parse.go",'''	if p.options.Open != nil {''','''	if p.options.Open != nil && !p.options.StopParsingOnError {''')],
 needs="an Open function together with StopParsingOnError",
 breaks="files are opened in the file system, past the Open function of the options",
 test=T('''	if _, err := zzParse(t, zzFS{"/n/main": "foo;"}, ParseOptions{StopParsingOnError: true}); err != nil {
		t.Error(err)
	}''')),
dict(id="par-glob-unsorted",prop="P07",
 edits=[("parse.go",'''				sort.Strings(fnames)
''','''				if p.options.Open == nil {
					sort.Strings(fnames)
				}
''')],
 needs="Open and Glob functions of the options, where Glob returns files that are not sorted",
 breaks="files are included in the order in which the Glob function happens to return them",
 test=T('''	o := ParseOptions{Glob: func(string) ([]string, error) { return []string{"/n/b", "/n/a"}, nil }}
	zzWant(t, zzFS{"/n/main": "include *;", "/n/a": "foo a;", "/n/b": "foo b;"}, o,
		`/n/main: include["*"]@1[1 2] /n/a: foo["a"]@1 /n/b: foo["b"]@1 `)''')),
dict(id="par-edge-once",prop="P07",
 edits=[("parse.go",'''					p.includes = append(p.includes, fileCtx{fname, ctx})
				}
				stmt.Includes = append(stmt.Includes, p.included[fname])
				// add edge between the current file and it's included file and
				// increase the included file's in degree
				p.includeEdges[parsing.File] = append(p.includeEdges[parsing.File], fname)
				p.includeInDegree[fname]++
''','''					p.includes = append(p.includes, fileCtx{fname, ctx})
				}
				stmt.Includes = append(stmt.Includes, p.included[fname])
				// add edge between the current file and it's included file and
				// increase the included file's in degree
				if edges := p.includeEdges[parsing.File]; len(edges) == 0 || edges[len(edges)-1] != fname {
					p.includeEdges[parsing.File] = append(edges, fname)
				}
				p.includeInDegree[fname]++
''')],
 needs="a file that includes the same file twice in a row",
 breaks="the degree of the included file counts more edges than there are, so that a configuration without a cycle is refused as one with a cycle",
 test=T('''	zzWant(t, zzFS{"/n/main": "include a; include a;", "/n/a": "foo;"}, ParseOptions{},
		`/n/main: include["a"]@1[1] include["a"]@1[1] /n/a: foo[]@1 `)''')),
dict(id="par-location-anywhere",prop="P08",
 edits=[("analyze.go",'''len(ctx) > 0 && ctx[0] == "http" && stmt.Directive == "location"''','''len(ctx) > 0 && ctx.getLastBlock() != "server" && ctx[0] == "http" && stmt.Directive == "location" || len(ctx) == 2 && ctx[1] == "server" && stmt.Directive == "location"''')],
 needs="a location in a block named server which is not the second block (or not in http)",
 breaks="the context of the statements in that location is not http and location",
 test=T('''	o := ParseOptions{SkipDirectiveContextCheck: true, StopParsingOnError: true}
	zzWant(t, zzFS{"/n/main": "stream { server { location / { proxy_method GET; } } }"}, o,
		`/n/main: stream[]@1{server[]@1{location["/"]@1{proxy_method["GET"]@1 } } } `)
	if got := enterBlockCtx(&Directive{Directive: "location"}, blockCtx{"stream", "server"}).key(); got != "stream>server>location" {
		t.Error(got)
	}''')),
dict(id="par-quoted-hash-argument",prop="P09",
 edits=[("parse.go",'''if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {''','''if !strings.HasPrefix(t.Value, "#") || (t.IsQuoted && len(t.Value) > 1) {''')],
 needs="a quoted argument that is just \"#\"",
 breaks="the argument is taken for a comment and is missing from the directive",
 test=T('''	zzWant(t, zzFS{"/n/main": "foo a '#' b;"}, ParseOptions{}, `/n/main: foo["a" "#" "b"]@1 `)''')),
dict(id="par-file-of-directive",prop="P09",
 edits=[("parse.go",'''		if p.options.CombineConfigs {
			fileName''','''		if p.options.CombineConfigs && !p.options.SingleFile {
			fileName''')],
 needs="CombineConfigs together with SingleFile",
 breaks="directives do not name the file they come from",
 test=T('''	p, err := zzParse(t, zzFS{"/n/main": "foo a;"}, ParseOptions{CombineConfigs: true, SingleFile: true})
	if err != nil || p.Config[0].Parsed[0].File != "/n/main" {
		t.Error(err, p)
	}''')),
dict(id="par-error-block",prop="P12",
 edits=[("parse.go","""	if len(c) == 0 {
		return "main"
	}
	return c[len(c)-1]""","""	switch len(c) {
	case 0:
		return "main"
	case 1, 2:
		return c[len(c)-1]
	}
	return c[1]""")],
 needs="an error in a block three or more levels deep",
 breaks="the error names the second block around it, not the innermost",
 test=T('''	p, err := zzParse(t, zzFS{"/n/main": "http { server { if ($a) { include a; } } }"}, ParseOptions{SkipDirectiveContextCheck: true})
	if err != nil {
		t.Fatal(err)
	}
	var pe *ParseError
	if !errors.As(p.Errors[0].Error, &pe) || pe.BlockCtx != "if" {
		t.Error(pe)
	}''')),
]
