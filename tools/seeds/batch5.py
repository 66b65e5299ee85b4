PRE='''package crossplane

import (
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = errors.New
var _ = io.EOF
var _ = os.Args
var _ = filepath.Join
var _ = bytes.NewReader

func zzOpen(files map[string]string) func(string) (io.ReadCloser, error) {
	return func(p string) (io.ReadCloser, error) {
		s, ok := files[p]
		if !ok { return nil, errors.New("no file " + p) }
		return io.NopCloser(strings.NewReader(s)), nil
	}
}

func zzParse(t *testing.T, s string, o ParseOptions) *Payload {
	t.Helper()
	if o.Open == nil { o.Open = zzOpen(map[string]string{"/m": s}) }
	p, err := Parse("/m", &o)
	if err != nil { t.Fatal(err) }
	return p
}

func zzLex(s string) (out []NgxToken) {
	for t := range Lex(strings.NewReader(s)) { out = append(out, t) }
	return out
}

func zzBuild(t *testing.T, d Directives, o BuildOptions) string {
	t.Helper()
	var b bytes.Buffer
	if err := Build(&b, Config{Parsed: d}, &o); err != nil { t.Fatal(err) }
	return b.String()
}

'''
L='lex.go';P='parse.go';A='analyze.go';M='analyze_map.go';B='build.go';U='util.go';Y='types.go';LU='lua.go';BF='buffer.go'
def D(body,imports=''): return PRE+'func TestZZDemo(t *testing.T) {\n'+body+'}\n'

LUAT=lambda src,cond: D('''	l := &Lua{}
	var out []NgxToken
	for x := range LexWithOptions(strings.NewReader(%s), LexOptions{Lexers: []RegisterLexer{l.RegisterLexer()}}) { out = append(out, x) }
	if !(%s) { t.Fatalf("%%v", out) }
'''%(src,cond))
SEEDS=[
dict(id='b5-sub-line',prop='L02',edits=[(L,'''	if t := e.scanner.Text(); isEOL(t) {
		e.tokenLine++''','''	if t := e.scanner.Text(); isEOL(t) && e.scanner.Err() == nil && e.tokenLine < 1<<16-1 {
		e.tokenLine++''')],needs='a Lua block behind line 65535',breaks='the lines behind it are counted wrong',
 test=LUAT('strings.Repeat("\\n", 70000)+"content_by_lua_block {\\n}\\n;a;"','len(out) > 1 && out[len(out)-1].Line > 70002')),
dict(id='b5-sub-text',prop='L07',edits=[(L,'func (e *SubScanner) Text() string { return e.scanner.Text() }','''func (e *SubScanner) Text() string {
	if t := e.scanner.Text(); t != "\\u00a0" {
		return t
	}
	return " "
}''')],needs='a no-break space in a Lua block',breaks='it is a blank in the argument',
 test=LUAT('"content_by_lua_block { a\\u00a0 }"','len(out) > 1 && strings.Contains(out[1].Value, "\\u00a0")')),
dict(id='b5-sub-zero',prop='L07',edits=[(L,'''	if !e.scanner.Scan() {
		return false
	}
	if t''','''	if !e.scanner.Scan() || e.scanner.Text() == "\\x00" {
		return false
	}
	if t''')],needs='a zero byte in a Lua block',breaks='the block ends there',
 test=LUAT('"content_by_lua_block { a\\x00 b }"','len(out) > 1 && strings.HasSuffix(out[1].Value, "b ")')),
dict(id='b5-lua-quoted',prop='L07',edits=[(LU,'tokenCh <- NgxToken{Value: arg, Line: s.Line(), IsQuoted: false}','tokenCh <- NgxToken{Value: arg, Line: s.Line(), IsQuoted: strings.HasPrefix(arg, "$") && len(arg) == 1}')],needs='set_by_lua_block with the variable $',breaks='it is quoted',
 test=LUAT('"set_by_lua_block $ { a }"','len(out) > 1 && !out[1].IsQuoted')),
]
