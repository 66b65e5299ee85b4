PRE='''package crossplane

import (
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = errors.New
var _ = io.EOF
var _ = os.Args
var _ = filepath.Join
var _ = bytes.NewReader

func zzOpen(files map[string]string) func(string) (io.ReadCloser, error) {
	return func(p string) (io.ReadCloser, error) {
		s, ok := files[p]
		if !ok { return nil, errors.New("no file " + p) }
		return io.NopCloser(strings.NewReader(s)), nil
	}
}

func zzParse(t *testing.T, s string, o ParseOptions) *Payload {
	t.Helper()
	if o.Open == nil { o.Open = zzOpen(map[string]string{"/m": s}) }
	p, err := Parse("/m", &o)
	if err != nil { t.Fatal(err) }
	return p
}

func zzLex(s string) (out []NgxToken) {
	for t := range Lex(strings.NewReader(s)) { out = append(out, t) }
	return out
}

func zzBuild(t *testing.T, d Directives, o BuildOptions) string {
	t.Helper()
	var b bytes.Buffer
	if err := Build(&b, Config{Parsed: d}, &o); err != nil { t.Fatal(err) }
	return b.String()
}

'''
L='lex.go';P='parse.go';A='analyze.go';M='analyze_map.go';B='build.go';U='util.go';Y='types.go';LU='lua.go';BF='buffer.go'
def D(body,imports=''): return PRE+'func TestZZDemo(t *testing.T) {\n'+body+'}\n'
SEEDS=[
dict(id='b2-var-tab',prop='L01',edits=[(L,'''"}") && !isSpace(la) {''','''"}") && la != " " && la != "\\n" {''')],needs='a tab after ${ in a word',breaks='the word goes on after it',
 test=D('''	ts := zzLex("a ${b\\tc d;")
	for i, w := range []string{"a", "${b\\tc", "d", ";"} { if i >= len(ts) || ts[i].Value != w { t.Fatalf("%q", ts) } }
''')),
dict(id='b2-magic-argument',prop='P06',edits=[(P,'hasMagic.MatchString(pattern)','hasMagic.MatchString(stmt.Args[0])')],needs='a config in a directory whose name has a pattern character',breaks='an include is opened and not looked up',
 test=D('''	var g string
	o := ParseOptions{Open: zzOpen(map[string]string{"/x[1]/m": "include a;", "/x1/a": "b c;"}), Glob: func(p string) ([]string, error) { g = p; return []string{"/x1/a"}, nil }}
	p, err := Parse("/x[1]/m", &o)
	if err != nil { t.Fatal(err) }
	if g != "/x[1]/a" || len(p.Config) != 2 { t.Fatal(g, p) }
''')),
dict(id='b2-context-sticky',prop='P08',edits=[(P,'p.includes = append(p.includes, fileCtx{fname, ctx})','''if len(ctx) > 1 && ctx[len(ctx)-1] == "if" {
						ctx = ctx[:len(ctx)-1]
					}
					p.includes = append(p.includes, fileCtx{fname, ctx})''')],needs='an include in an if',breaks='the file is analysed as if it was outside of it',
 test=D('''	p := zzParse(t, "", ParseOptions{Open: zzOpen(map[string]string{"/m": "http { server { if ($a) { include /a; } } }", "/a": "listen 80;"})})
	if len(p.Errors) != 1 { t.Fatal(p.Errors) }
''')),
dict(id='b2-error-lines-shared',prop='R02',edits=[(P,'		config.Errors = append(config.Errors, cerr)\n','		if n := len(config.Errors); n == 0 || config.Errors[n-1].Line == nil || line == nil || *config.Errors[n-1].Line != *line {\n			config.Errors = append(config.Errors, cerr)\n		}\n')],needs='two errors in one line',breaks='the config has one of them',
 test=D('''	p := zzParse(t, "http { listen 1; listen 2; }", ParseOptions{})
	if len(p.Config[0].Errors) != len(p.Errors) { t.Fatal(p.Config[0].Errors) }
''')),
dict(id='b2-callback-err',prop='R02',edits=[(P,'perr.Callback = options.ErrorCallback(err)','perr.Callback = options.ErrorCallback(cerr.Error)\n			if perr.Callback == nil {\n				perr.Callback = err.Error()\n			}')],needs='a callback that returns nil',breaks='the payload has another result',
 test=D('''	p := zzParse(t, "http { listen 1; }", ParseOptions{ErrorCallback: func(error) interface{} { return nil }})
	if p.Errors[0].Callback != nil { t.Fatal(p.Errors) }
''')),
dict(id='b2-take-seven',prop='A01',edits=[(A,'((mask>>len(stmt.Args)&1) != 0 && len(stmt.Args) <= 7) ||','((mask>>len(stmt.Args)&1) != 0 && len(stmt.Args) < 7) ||')],needs='a directive that takes seven arguments',breaks='it is refused',
 test=D('''	src := func(d string) ([]uint, bool) { return []uint{ngxMainConf | 0x80}, d == "zz" }
	p := zzParse(t, "zz 1 2 3 4 5 6 7;", ParseOptions{DirectiveSources: []MatchFunc{src}})
	if len(p.Errors) != 0 { t.Fatal(p.Errors) }
''')),
dict(id='b2-any-and-flag',prop='A01',edits=[(A,'		} else if (mask&ngxConfFlag) != 0 && len(stmt.Args) == 1 && !validFlag(stmt.Args[0]) {\n','		} else if (mask&ngxConfFlag) != 0 && len(stmt.Args) == 1 && !validFlag(stmt.Args[0]) {\n			ctxMasks = ctxMasks[:i+1]\n')],needs='a directive with a mask for a flag before one for other arguments',breaks='the second mask does not count',
 test=D('''	src := func(d string) ([]uint, bool) { return []uint{ngxMainConf | ngxConfFlag, ngxMainConf | ngxConfTake1}, d == "zz" }
	p := zzParse(t, "zz maybe;", ParseOptions{DirectiveSources: []MatchFunc{src}})
	if len(p.Errors) != 0 { t.Fatal(p.Errors) }
''')),
dict(id='b2-masks-of-first-context',prop='A02',edits=[(A,'''			if (mask & currCtx) != 0 {
				ctxMasks = append(ctxMasks, mask)
			}
''','''			if (mask & currCtx) != 0 {
				ctxMasks = append(ctxMasks, mask)
			} else if mask&ngxAnyConf == ngxAnyConf {
				ctxMasks = append(ctxMasks, mask)
			}
''')],needs='a directive that is allowed anywhere, in mgmt',breaks='it is accepted',
 test=D('''	src := func(d string) ([]uint, bool) {
		if d == "mgmt" { return []uint{ngxMainConf | ngxConfBlock | ngxConfNoArgs}, true }
		return []uint{ngxAnyConf | ngxConfTake1}, d == "zz" }
	p := zzParse(t, "mgmt { zz a; }", ParseOptions{DirectiveSources: []MatchFunc{src}})
	if len(p.Errors) != 1 { t.Fatal(p.Errors) }
''')),
dict(id='b2-sources-stop',prop='A04',edits=[(A,'			knownDirective = true\n		}','			knownDirective = knownDirective || len(masksInFn) > 1 || currCtx != ngxMainConf || len(masks) > 0\n			if len(masks) > 8 {\n				break\n			}\n		}')],needs='sources that know more than eight masks of a directive together',breaks='the later ones are not asked',
 test=D('''	src := func(m uint) MatchFunc { return func(d string) ([]uint, bool) { return []uint{m, m, m, m, m}, d == "zz" } }
	p := zzParse(t, "zz a b;", ParseOptions{DirectiveSources: []MatchFunc{src(ngxMainConf | ngxConfTake1), src(ngxMainConf | ngxConfNoArgs), src(ngxMainConf | ngxConfTake2)}})
	if len(p.Errors) != 0 { t.Fatal(p.Errors) }
''')),
dict(id='b2-margin-limit',prop='B02',edits=[(B,'	return strings.Repeat(" ", options.Indent*depth)','	return strings.Repeat(marginSpaces, indent/MaxIndent) + marginSpaces[:indent-MaxIndent]')],needs='an indentation of 200 and more',breaks='it is wrong or a panic',
 test=D('''	defer func() { if e := recover(); e != nil { t.Fatal(e) } }()
	in := Directives{{Directive: "x", Args: []string{}}}
	for i := 0; i < 3; i++ { in = Directives{{Directive: "b", Args: []string{}, Block: in}} }
	if s := zzBuild(t, in, BuildOptions{Indent: 99}); !strings.Contains(s, "\\n"+strings.Repeat(" ", 297)+"x;") { t.Fatalf("%q", s) }
''')),
dict(id='b2-if-quoted',prop='B02',edits=[(B,'			if directive == "if" {','			if directive == "if" && len(stmt.Args) > 0 {')],needs='an if without arguments',breaks='it has no parentheses',
 test=D('''	if s := zzBuild(t, Directives{{Directive: "if", Args: []string{}, Block: Directives{}}}, BuildOptions{}); !strings.HasPrefix(s, "if () {") { t.Fatalf("%q", s) }
''')),
dict(id='b2-mkdir-ignored',prop='B03',edits=[(B,'''		if err := os.MkdirAll(dirpath, os.ModeDir|os.ModePerm); err != nil {
			return err
		}
''','''		if err := os.MkdirAll(dirpath, os.ModeDir|os.ModePerm); err != nil && !os.IsExist(err) {
			continue
		}
''')],needs='a directory that cannot be made',breaks='the config is left out without an error',
 test=D('''	d, _ := os.MkdirTemp("", "zz")
	defer os.RemoveAll(d)
	_ = os.WriteFile(filepath.Join(d, "f"), nil, 0o600)
	if err := BuildFiles(Payload{Config: []Config{{File: "f/a"}}}, d, &BuildOptions{}); err == nil { t.Fatal("no error") }
''')),
dict(id='b2-into-order',prop='B04',edits=[(B,'''		wc, err := into.Create(config.File)
''','''		if len(config.Parsed) == 0 && config.Status == "failed" {
			continue
		}
		wc, err := into.Create(config.File)
''')],needs='a config that failed and has no statements',breaks='no file is created for it',
 test=PRE+'''
type zzC struct{ n int }
type zzW struct{ bytes.Buffer }

func (*zzW) Close() error { return nil }
func (c *zzC) Create(string) (io.WriteCloser, error) { c.n++; return &zzW{}, nil }
func (c *zzC) Reset()                                {}

func TestZZDemo(t *testing.T) {
	c := &zzC{}
	if err := BuildInto(&Payload{Config: []Config{{File: "a", Status: "failed"}, {File: "b"}}}, c, &BuildOptions{}); err != nil || c.n != 2 { t.Fatal(err, c.n) }
}
'''),
dict(id='b2-include-shared',prop='K01',edits=[(U,'			dir := *d\n','			dir := *d\n			if dir.IsInclude() && len(dir.Includes) == 0 {\n				dir.Block = nil\n				c <- included{directive: &dir}\n				continue\n			}\n')],needs='an include that includes no file',breaks='it stays in the combined config',
 test=D('''	p := &Payload{Config: []Config{{File: "a", Parsed: Directives{{Directive: "include", Args: []string{"x*"}, Includes: []int{}}, {Directive: "b", Args: []string{}}}}}}
	c, err := p.Combined()
	if err != nil || len(c.Config[0].Parsed) != 1 { t.Fatal(err, c) }
''')),
dict(id='b2-combined-status',prop='K02',edits=[(U,'		if config.Status == "failed" {\n','		if config.Status == "failed" && len(config.Errors) > 0 {\n')],needs='a failed config without errors of its own',breaks='the combined config is ok',
 test=D('''	p := &Payload{Config: []Config{{File: "a", Status: "ok"}, {File: "b", Status: "failed"}}}
	c, err := p.Combined()
	if err != nil || c.Config[0].Status != "failed" { t.Fatal(err, c) }
''')),
dict(id='b2-cycle-count',prop='P10',edits=[(P,'	return fileCount != len(p.includeInDegree)','	return fileCount+1 < len(p.includeInDegree)')],needs='a file that includes itself only',breaks='the cycle is not found',
 test=D('''	o := ParseOptions{Open: zzOpen(map[string]string{"/m": "include /a;", "/a": "include /a;"})}
	if _, err := Parse("/m", &o); err == nil { t.Fatal("no error") }
''')),
dict(id='b2-lua-set-args',prop='B06',edits=[(LU,'		return fmt.Sprintf("%s %s {%s}", stmt.Directive, stmt.Args[0], stmt.Args[1])','		return fmt.Sprintf("%s %s {%s}", stmt.Directive, Enquote(stmt.Args[0]), stmt.Args[1])')],needs='a variable with braces',breaks='it is quoted',
 test=D('''	l := &Lua{}
	if s := l.Build(&Directive{Directive: "set_by_lua_block", Args: []string{"$a;", " b "}}); s != "set_by_lua_block $a; { b }" { t.Fatal(s) }
''')),
dict(id='b2-lexers-other',prop='L08',edits=[(L,'	if o.extLexers == nil {\n','	if len(o.extLexers) == 0 || len(o.extLexers) > 16 {\n')],needs='more than sixteen directives with lexers',breaks='the lexers that were registered first are lost',
 test=PRE+'''
type zzL struct{}

func (zzL) Lex(s *SubScanner, m string) <-chan NgxToken {
	c := make(chan NgxToken, 1)
	c <- NgxToken{Value: "lexed"}
	close(c)
	return c
}

func TestZZDemo(t *testing.T) {
	names := []string{}
	for i := 0; i < 20; i++ { names = append(names, "x"+strings.Repeat("y", i)) }
	n := 0
	for x := range LexWithOptions(strings.NewReader("x ;"), LexOptions{Lexers: []RegisterLexer{LexWithLexer(zzL{}, names...), LexWithLexer(zzL{}, "other")}}) { if x.Value == "lexed" { n++ } }
	if n != 1 { t.Fatal(n) }
}
'''),
dict(id='b2-expr-prefix',prop='P13',edits=[(U,'		if len(d.Args[0]) == 0 {\n			b++\n		}','		if len(d.Args[0]) == 0 && len(d.Args) > 2 {\n			b++\n		}')],needs='an if whose argument is ( $a)',breaks='it keeps an empty argument',
 test=D('''	p := zzParse(t, "http { server { if ( $a) { } } }", ParseOptions{})
	if a := p.Config[0].Parsed[0].Block[0].Block[0].Args; len(a) != 1 { t.Fatalf("%q", a) }
''')),
dict(id='b2-file-combined',prop='P09',edits=[(P,'			t, tokenOk = <-tokens\n			if !tokenOk {\n				return nil','			if len(stmt.Args) == 1 && t.IsQuoted && stmt.Args[0] == "" {\n				stmt.Line = t.Line\n			}\n			t, tokenOk = <-tokens\n			if !tokenOk {\n				return nil')],needs='a first argument that is empty and on another line',breaks='the directive has its line',
 test=D('''	p := zzParse(t, "a\\n '' b;", ParseOptions{})
	if l := p.Config[0].Parsed[0].Line; l != 1 { t.Fatal(l) }
''')),
dict(id='b2-stop-glob',prop='P03',edits=[(P,'					if !p.options.StopParsingOnError {\n						p.handleError(parsing, perr)\n					} else {','					if !p.options.StopParsingOnError || len(ctx) > 0 && ctx[0] != "http" {\n						p.handleError(parsing, perr)\n					} else {')],needs='an include that fails in stream',breaks='the parsing goes on',
 test=D('''	o := ParseOptions{StopParsingOnError: true, Open: zzOpen(map[string]string{"/m": "stream { include /a; }"})}
	if _, err := Parse("/m", &o); err == nil { t.Fatal("no error") }
''')),
dict(id='b2-block-of-nothing',prop='P01',edits=[(P,'			stmt.Block = append(stmt.Block, blocks...)\n','			if len(blocks) > 0 || len(stmt.Args) == 0 || !p.options.CombineConfigs {\n				stmt.Block = append(stmt.Block, blocks...)\n			} else {\n				stmt.Block = blocks\n			}\n')],needs='an empty block with arguments in a parse that combines configs',breaks='it is not a block',
 test=D('''	p := zzParse(t, "http { server { location / { } } }", ParseOptions{CombineConfigs: true})
	if d := p.Config[0].Parsed[0].Block[0].Block[0]; d.Block == nil { t.Fatal(d) }
''')),
]
SEEDS=[s for s in SEEDS if s]
for s in SEEDS:
    if s['id']=='b2-read-error-close': s['test']=s['test'].replace('"testing"\n','"testing"\n	"time"\n')
    if s['id']=='b2-read-error-eof': pass
