PRE='''package crossplane

import (
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = errors.New
var _ = io.EOF
var _ = os.Args
var _ = filepath.Join
var _ = bytes.NewReader

func zzOpen(files map[string]string) func(string) (io.ReadCloser, error) {
	return func(p string) (io.ReadCloser, error) {
		s, ok := files[p]
		if !ok { return nil, errors.New("no file " + p) }
		return io.NopCloser(strings.NewReader(s)), nil
	}
}

func zzParse(t *testing.T, s string, o ParseOptions) *Payload {
	t.Helper()
	if o.Open == nil { o.Open = zzOpen(map[string]string{"/m": s}) }
	p, err := Parse("/m", &o)
	if err != nil { t.Fatal(err) }
	return p
}

func zzLex(s string) (out []NgxToken) {
	for t := range Lex(strings.NewReader(s)) { out = append(out, t) }
	return out
}

func zzBuild(t *testing.T, d Directives, o BuildOptions) string {
	t.Helper()
	var b bytes.Buffer
	if err := Build(&b, Config{Parsed: d}, &o); err != nil { t.Fatal(err) }
	return b.String()
}

'''
L='lex.go';P='parse.go';A='analyze.go';M='analyze_map.go';B='build.go';U='util.go';Y='types.go';LU='lua.go';BF='buffer.go'
def D(body,imports=''): return PRE+'func TestZZDemo(t *testing.T) {\n'+body+'}\n'
SEEDS=[
dict(id='b4-external-line',prop='L06',edits=[(L,'''					for tok := range extTokenCh {
						tokenCh <- tok
					}
''','''					for tok := range extTokenCh {
						if tok.Line == 0 {
							tok.Line = tokenLine
						}
						tokenCh <- tok
					}
''')],needs='an external lexer that sends a token without a line',breaks='the token is not forwarded as it was sent',
 test=PRE+'''
type zzL struct{}

func (zzL) Lex(s *SubScanner, m string) <-chan NgxToken {
	c := make(chan NgxToken, 1)
	c <- NgxToken{Value: "lexed"}
	close(c)
	return c
}

func TestZZDemo(t *testing.T) {
	for x := range LexWithOptions(strings.NewReader("x ;"), LexOptions{Lexers: []RegisterLexer{LexWithLexer(zzL{}, "x")}}) {
		if x.Value == "lexed" && x.Line != 0 { t.Fatal(x) }
	}
}
'''),
dict(id='b4-external-name-case',prop='L06',edits=[(L,"if ext, ok := options.extLexers[tokenStr]; ok {","if ext, ok := options.extLexers[strings.ToLower(tokenStr)]; ok {")],needs='a directive in upper case',breaks='it is read by the lexer of the name in lower case',
 test=PRE+'''
type zzL struct{}

func (zzL) Lex(s *SubScanner, m string) <-chan NgxToken {
	c := make(chan NgxToken, 1)
	c <- NgxToken{Value: "lexed"}
	close(c)
	return c
}

func TestZZDemo(t *testing.T) {
	for x := range LexWithOptions(strings.NewReader("X ;"), LexOptions{Lexers: []RegisterLexer{LexWithLexer(zzL{}, "x")}}) {
		if x.Value == "lexed" { t.Fatal(x) }
	}
}
'''),
dict(id='b4-close-late',prop='L04',edits=[(L,'''						emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected "}"`, Line: &tokenLine})
						close(tokenCh)
						return''','''						emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected "}"`, Line: &tokenLine})
						if dupSpecialChar {
							close(tokenCh)
						}
						if scanner.Scan() {
							return
						}
						return''')],needs='x',breaks='x',test=''),
dict(id='b4-error-file-main',prop='P12',edits=[(P,'''					perr := &ParseError{
						What:      err.Error(),
						File:      &parsing.File,''','''					perr := &ParseError{
						What:      err.Error(),
						File:      &p.includes0,'''),],needs='x',breaks='x',test=''),
dict(id='b4-premature-line',prop='P12',edits=[(P,'''			if !tokenOk {
				return nil, &ParseError{
					What:        ErrPrematureLexEnd.Error(),
					File:        &parsing.File,
					Line:        &stmt.Line,''','''			if !tokenOk {
				if n := len(parsed); n > 0 && len(commentsInArgs) > 0 {
					stmt.Line = parsed[n-1].Line
				}
				return nil, &ParseError{
					What:        ErrPrematureLexEnd.Error(),
					File:        &parsing.File,
					Line:        &stmt.Line,''')],needs='a file that ends after a comment within a statement that is not the first, with ParseComments',breaks='the error has the line of the statement before',
 test=D('''	o := ParseOptions{ParseComments: true, Open: zzOpen(map[string]string{"/m": "a;\\n b # c\\n"})}
	p, err := Parse("/m", &o)
	if err != nil || *p.Errors[0].Line != 2 { t.Fatal(err, p.Errors) }
''')),
dict(id='b4-ignored-prefix',prop='P05',edits=[(U,'''		if s == x {''','''		if s == x || len(x) > 1 && strings.HasSuffix(s, "_") && strings.HasPrefix(x, s) {''')],needs='a name in IgnoreDirectives that ends with _',breaks='directives that start with it are left out',
 test=D('''	p := zzParse(t, "a_b;", ParseOptions{IgnoreDirectives: []string{"a_"}})
	if len(p.Config[0].Parsed) != 1 { t.Fatal(p) }
''')),
dict(id='b4-error-in-comment',prop='P02',edits=[(P,'''			if p.options.ParseComments {
				comment := t.Value[1:]
				stmt.Directive''','''			if !p.options.ParseComments && strings.HasPrefix(t.Value, "#!") {
				return parsed, nil
			}
			if p.options.ParseComments {
				comment := t.Value[1:]
				stmt.Directive''')],needs='a comment that starts with #!, without ParseComments',breaks='the rest of the file, with its errors, is not read',
 test=D('''	p := zzParse(t, "a;\\n#! x\\nb", ParseOptions{})
	if len(p.Errors) != 1 { t.Fatal(p) }
''')),
dict(id='b4-file-of-main',prop='R01',edits=[(P,'''		config := Config{
			File:   incl.path,''','''		config := Config{
			File:   filepath.Clean(incl.path),''')],needs='a file name that is not clean',breaks='the config has another name',
 test=D('''	o := ParseOptions{Open: zzOpen(map[string]string{"/x/../m": "a;"})}
	p, err := Parse("/x/../m", &o)
	if err != nil || p.Config[0].File != "/x/../m" { t.Fatal(err, p) }
''')),
dict(id='b4-close-main-only',prop='R04',edits=[(P,"		defer file.Close()\n","		if len(payload.Config) < 64 {\n			defer file.Close()\n		}\n")],needs='more than 64 files',breaks='the files behind are not closed',
 test=PRE+'''
type zzF struct{ io.Reader; n *int }

func (f zzF) Close() error { *f.n--; return nil }

func TestZZDemo(t *testing.T) {
	n := 0
	o := ParseOptions{Open: func(p string) (io.ReadCloser, error) {
		n++
		s := ""
		if p == "/m" { s = "include /x*;" }
		return zzF{strings.NewReader(s), &n}, nil
	}, Glob: func(string) (r []string, err error) {
		for i := 0; i < 100; i++ { r = append(r, "/x"+strings.Repeat("y", i)) }
		return
	}}
	if _, err := Parse("/m", &o); err != nil || n != 0 { t.Fatal(err, n) }
}
'''),
dict(id='b4-known-without-masks',prop='T01',edits=[('analyze_njs_directives.gen.go','''    m, ok := njsDirectives[directive]
    return m, ok''','''    m, ok := njsDirectives[directive]
    if !ok {
        m, ok = otelDirectives[directive]
    }
    return m, ok''')],needs='a directive of OpenTelemetry',breaks='the njs match function knows it',
 test=D('''	for k := range otelDirectives { if _, ok := MatchNjsLatest(k); ok { if _, in := njsDirectives[k]; !in { t.Fatal(k) } } }
''')),
dict(id='b4-lua-quote-newline',prop='L07',edits=[(LU,'''			case next == "}" && !inQuotes:
				tokenDepth--''','''			case next == "}" && (!inQuotes || tokenDepth == 1 && quoteType == ""):
				tokenDepth--''')],needs='x',breaks='x',test=''),
dict(id='b4-map-include-term',prop='A03',edits=[(M,"x","x")],needs='x',breaks='x',test=''),
dict(id='b4-shared-errors',prop='X02',edits=[(U,'''	errors := old.Errors
	if errors == nil {
		errors = []PayloadError{}
	}
''','''	errors := old.Errors
	if errors == nil {
		errors = []PayloadError{}
	}
	for i := range errors {
		if errors[i].File == "" {
			errors[i].File = old.Config[0].File
		}
	}
''')],needs='a payload with an error without a file',breaks='combining it writes to the errors of the payload',
 test=D('''	p := &Payload{Errors: []PayloadError{{}}, Config: []Config{{File: "a"}}}
	if _, err := p.Combined(); err != nil || p.Errors[0].File != "" { t.Fatal(err, p) }
''')),
dict(id='b4-comment-margin',prop='B02',edits=[(B,"			_, _ = sb.WriteString(\" #\")\n			_, _ = sb.WriteString(*stmt.Comment)\n","			_, _ = sb.WriteString(\" #\")\n			_, _ = sb.WriteString(strings.TrimRight(*stmt.Comment, \" \"))\n")],needs='a comment behind a statement that ends with blanks',breaks='they are lost',
 test=D('''	c := " c "
	if s := zzBuild(t, Directives{{Directive: "a", Line: 1}, {Directive: "#", Comment: &c, Line: 1}}, BuildOptions{}); s != "a; # c " { t.Fatalf("%q", s) }
''')),
dict(id='b4-into-close',prop='B03',edits=[(B,'''		if err := wc.Close(); err != nil {
			return err
		}
	}

	return nil
}''','''		if err := wc.Close(); err != nil && len(config.Parsed) > 0 {
			return err
		}
	}

	return nil
}''')],needs='an empty config whose file cannot be closed',breaks='the error is lost',
 test=PRE+'''
type zzC struct{ bytes.Buffer }

func (c *zzC) Close() error { return errors.New("close") }

func (c *zzC) Create(string) (io.WriteCloser, error) { return c, nil }

func (c *zzC) Reset() {}

func TestZZDemo(t *testing.T) {
	if BuildInto(&Payload{Config: []Config{{File: "a"}}}, &zzC{}, &BuildOptions{}) == nil { t.Fatal("no error") }
}
'''),
dict(id='b4-expr-two-parens',prop='A01',edits=[(U,"(l == 2 && (len(d.Args[b]) > 1 || len(d.Args[e]) > 1)) || // empty","(l == 2 && (len(d.Args[b]) > 1 && len(d.Args[e]) >= 1)) || // empty")],needs='an if with ( and $a)',breaks='it is rejected',
 test=D('''	p := zzParse(t, "http { server { if ( $a) { } } }", ParseOptions{})
	if len(p.Errors) != 0 { t.Fatal(p.Errors) }
''')),
dict(id='b4-flag-case',prop='A01',edits=[(U,"strings.ToLower(s)","strings.TrimSpace(strings.ToLower(s))")],needs='a quoted flag with blanks',breaks='it is accepted',
 test=D('''	p := zzParse(t, "http { sendfile ' on'; }", ParseOptions{})
	if len(p.Errors) != 1 { t.Fatal(p.Errors) }
''')),
dict(id='b4-mask-in-loop',prop='X03',edits=[(U,'''	for _, config := range old.Config {
		combined.Errors = append(combined.Errors, config.Errors...)''','''	byFile := map[string][]ConfigError{}
	if len(old.Config) > 8 {
		for _, config := range old.Config {
			byFile[config.File] = append(byFile[config.File], config.Errors...)
		}
		for _, es := range byFile {
			combined.Errors = append(combined.Errors, es...)
		}
	}
	for _, config := range old.Config {
		if len(old.Config) <= 8 {
			combined.Errors = append(combined.Errors, config.Errors...)
		}''')],needs='more than eight configs with errors',breaks='the order of the errors of the combined config depends on the order of a map',
 test=D('''	p := &Payload{}
	for i := 0; i < 30; i++ { l := i; p.Config = append(p.Config, Config{File: strings.Repeat("x", i+1), Errors: []ConfigError{{Line: &l}}}) }
	c, err := p.Combined()
	if err != nil { t.Fatal(err) }
	for i, e := range c.Config[0].Errors { if *e.Line != i { t.Fatal(i, *e.Line) } }
''')),
]
SEEDS=[s for s in SEEDS if s['test']]
