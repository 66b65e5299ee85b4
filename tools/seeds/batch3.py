PRE='''package crossplane

import (
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = errors.New
var _ = io.EOF
var _ = os.Args
var _ = filepath.Join
var _ = bytes.NewReader

func zzOpen(files map[string]string) func(string) (io.ReadCloser, error) {
	return func(p string) (io.ReadCloser, error) {
		s, ok := files[p]
		if !ok { return nil, errors.New("no file " + p) }
		return io.NopCloser(strings.NewReader(s)), nil
	}
}

func zzParse(t *testing.T, s string, o ParseOptions) *Payload {
	t.Helper()
	if o.Open == nil { o.Open = zzOpen(map[string]string{"/m": s}) }
	p, err := Parse("/m", &o)
	if err != nil { t.Fatal(err) }
	return p
}

func zzLex(s string) (out []NgxToken) {
	for t := range Lex(strings.NewReader(s)) { out = append(out, t) }
	return out
}

func zzBuild(t *testing.T, d Directives, o BuildOptions) string {
	t.Helper()
	var b bytes.Buffer
	if err := Build(&b, Config{Parsed: d}, &o); err != nil { t.Fatal(err) }
	return b.String()
}

'''
L='lex.go';P='parse.go';A='analyze.go';M='analyze_map.go';B='build.go';U='util.go';Y='types.go';LU='lua.go';BF='buffer.go'
def D(body,imports=''): return PRE+'func TestZZDemo(t *testing.T) {\n'+body+'}\n'
SEEDS=[
dict(id='b3-escaped-line',prop='L02',edits=[(L,'''			if isEOL(la) {
				tokenLine++
				nextTokenIsDirective = true''','''			if isEOL(la) {
				if !esc || lexState != inQuote {
					tokenLine++
				}
				nextTokenIsDirective = true''')],needs='a backslash before the end of a line in a quoted string',breaks='the tokens behind it have the line before',
 test=D('''	ts := zzLex("a 'b\\\\\\nc' d;")
	if ts[2].Line != 2 { t.Fatal(ts) }
''')),
dict(id='b3-deep-blocks',prop='L03',edits=[(L,'''				if la == "{" {
					depth++
				}''','''				if la == "{" && depth < 255 {
					depth++
				}''')],needs='more than 255 open blocks',breaks='a brace that closes one of them is an error',
 test=D('''	for _, x := range zzLex(strings.Repeat("a{", 300) + strings.Repeat("}", 300)) { if x.Error != nil { t.Fatal(x.Error) } }
''')),
dict(id='b3-truncated-input',prop='L05',edits=[(L,'''	if token.Len() > 0 {
		emit(tokenStartLine, lexState == inQuote, nil)
	}
''','''	if token.Len() > 0 {
		emit(tokenStartLine, lexState == inQuote, nil)
	}
	if scanner.Err() == io.ErrUnexpectedEOF && depth == 0 {
		close(tokenCh)
		return
	}
''')],needs='a reader that ends with io.ErrUnexpectedEOF between statements',breaks='the input ends there as if it was complete',
 test=PRE+'''
type zzR struct{ n int }

func (r *zzR) Read(b []byte) (int, error) {
	r.n++
	if r.n == 1 { return copy(b, "a;"), nil }
	return 0, io.ErrUnexpectedEOF
}

func TestZZDemo(t *testing.T) {
	var last NgxToken
	for x := range Lex(&zzR{}) { last = x }
	if last.Error == nil { t.Fatal(last) }
}
'''),
dict(id='b3-comment-hashes',prop='P04',edits=[(P,'''				comment := t.Value[1:]
				commentsInArgs''','''				comment := strings.TrimLeft(t.Value, "#")
				commentsInArgs''')],needs='a comment among arguments that starts with ##',breaks='it loses all of them',
 test=D('''	p := zzParse(t, "a ## b\\n c;", ParseOptions{ParseComments: true})
	if c := p.Config[0].Parsed[1].Comment; *c != "# b" { t.Fatal(*c) }
''')),
dict(id='b3-lexer-once',prop='R01',edits=[(P,'''		payload.Config = append(payload.Config, config)
	}
''','''		payload.Config = append(payload.Config, config)
		if len(config.Errors) > 0 {
			options.LexOptions = LexOptions{}
		}
	}
''')],needs='a file with an error before one that has Lua',breaks='the second is read without the lexers',
 test=D('''	l := &Lua{}
	o := ParseOptions{LexOptions: LexOptions{Lexers: []RegisterLexer{l.RegisterLexer()}}, SkipDirectiveContextCheck: true, ErrorOnUnknownDirectives: true, DirectiveSources: []MatchFunc{MatchLuaLatest, func(s string) ([]uint, bool) { return []uint{ngxConf1More | ngxAnyConf}, s == "include" }}, Open: zzOpen(map[string]string{"/m": "include /a; zz;", "/a": "init_by_lua_block { a = {} } zz;"})}
	p, err := Parse("/m", &o)
	if err != nil || len(p.Config) != 2 || len(p.Config[1].Parsed) != 1 || len(p.Config[1].Parsed[0].Args) != 1 { t.Fatal(err, p) }
''')),
dict(id='b3-known-before',prop='T01',edits=[("analyze_oss_124_directives.gen.go",'''func MatchOss124''','''func MatchOss124''')],needs='x',breaks='x',test=''),
dict(id='b3-eight-arguments',prop='A01',edits=[(A,"len(stmt.Args) <= 7) || // NOARGS","len(stmt.Args) <= 8) || // NOARGS")],needs='a block with eight arguments',breaks='it is accepted, as bit 8 says that it is a block',
 test=D('''	p := zzParse(t, "http { server { location a b c d e f g h { } } }", ParseOptions{})
	if len(p.Errors) != 1 { t.Fatal(p.Errors) }
''')),
dict(id='b3-include-repeated',prop='K01',edits=[(U,'''			for _, idx := range dir.Includes {
''','''			for i, idx := range dir.Includes {
				if i > 0 && idx == dir.Includes[i-1] {
					continue
				}
''')],needs='an include that lists a config twice in a row',breaks='its statements are there once',
 test=D('''	p := &Payload{Config: []Config{{File: "a", Parsed: Directives{{Directive: "include", Args: []string{"x"}, Includes: []int{1, 1}}}}, {File: "b", Parsed: Directives{{Directive: "b"}}}}}
	c, err := p.Combined()
	if err != nil || len(c.Config[0].Parsed) != 2 { t.Fatal(err, c) }
''')),
dict(id='b3-sorted-by-case',prop='P07',edits=[(P,'''				sort.Strings(fnames)
''','''				sort.Slice(fnames, func(i, j int) bool {
					return strings.ToLower(fnames[i]) < strings.ToLower(fnames[j])
				})
''')],needs='files whose names differ in case',breaks='they are not in the order of their names',
 test=D('''	o := ParseOptions{Open: zzOpen(map[string]string{"/m": "include /*;", "/a": "a;", "/B": "b;"}), Glob: func(string) ([]string, error) { return []string{"/a", "/B"}, nil }}
	p, err := Parse("/m", &o)
	if err != nil || p.Config[1].File != "/B" { t.Fatal(err, p) }
''')),
dict(id='b3-edge-once',prop='P10',edits=[(P,'''				p.includeInDegree[fname]++
''','''				if fname != filename(parsing) {
					p.includeInDegree[fname]++
				}
'''),(P,"// isAcyclic performs","func filename(c *Config) string { return c.File }\n\n// isAcyclic performs")],needs='a file that includes itself',breaks='the cycle is not found',
 test=D('''	o := ParseOptions{Open: zzOpen(map[string]string{"/m": "include /a;", "/a": "include /a;"})}
	if _, err := Parse("/m", &o); err == nil { t.Fatal("no error") }
''')),
dict(id='b3-no-context-no-args',prop='A02',edits=[(A,"if len(ctxMasks) == 0 && !options.SkipDirectiveContextCheck {","if len(ctxMasks) == 0 && !(options.SkipDirectiveArgsCheck && len(stmt.Args) == 0) {")],needs='a directive without arguments, where it is not allowed, while arguments are not checked',breaks='there is no error',
 test=D('''	p := zzParse(t, "events { http { } }", ParseOptions{SkipDirectiveArgsCheck: true})
	if len(p.Errors) != 1 { t.Fatal(p.Errors) }
''')),
dict(id='b3-file-name-error',prop='P12',edits=[(P,'''	for t := range tokens {
		if t.Error != nil {
''','''	for t := range tokens {
		if t.Error != nil {
			if len(ctx) > 1 {
				ctx = ctx[:1]
			}
''')],needs='a lexical error in an inner block',breaks='the error names the outermost block',
 test=D('''	o := ParseOptions{Open: zzOpen(map[string]string{"/m": "http { server { ; } }"})}
	p, err := Parse("/m", &o)
	if err != nil { t.Fatal(err) }
	if e := p.Errors[0].Error.(*ParseError); e.BlockCtx != "server" { t.Fatal(e.BlockCtx) }
''')),
dict(id='b3-callback-order',prop='R02',edits=[(P,'''		payload.Status = failedSts
		payload.Errors = append(payload.Errors, perr)''','''		payload.Status = failedSts
		if n := len(payload.Errors); n > 0 && config.File == payload.Errors[0].File && line == nil {
			payload.Errors = append([]PayloadError{perr}, payload.Errors...)
			return
		}
		payload.Errors = append(payload.Errors, perr)''')],needs='an error without a line after another of the same file',breaks='it comes first',
 test=D('''	o := ParseOptions{Open: zzOpen(map[string]string{"/m": "foo;\\nhttp { listen 1; }\\n include *[;"}), Glob: func(string) ([]string, error) { return nil, errors.New("glob") }}
	p, err := Parse("/m", &o)
	if err != nil || len(p.Errors) != 2 || p.Errors[0].Line == nil { t.Fatal(err, p) }
''')),
dict(id='b3-quoted-brace-block',prop='P01',edits=[(P,'''		// we are parsing a block, so break if it's closing
		if t.Value == "}" && !t.IsQuoted {''','''		// we are parsing a block, so break if it's closing
		if t.Value == "}" && (!t.IsQuoted || consume) {''')],needs='a quoted brace in a block that is left out',breaks='the block ends there',
 test=D('''	p := zzParse(t, "types { a '}' b; } c;", ParseOptions{IgnoreDirectives: []string{"types"}})
	if len(p.Config[0].Parsed) != 1 || p.Config[0].Parsed[0].Directive != "c" { t.Fatal(p.Config[0].Parsed) }
''')),
]
SEEDS=[s for s in SEEDS if s['test']]
