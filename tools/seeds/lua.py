PRE='''package crossplane

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func zzLua(in string) []string {
	var r []string
	lua := &Lua{}
	for t := range LexWithOptions(strings.NewReader(in), LexOptions{Lexers: []RegisterLexer{lua.RegisterLexer()}}) {
		if t.Error != nil {
			r = append(r, "!")
			continue
		}
		r = append(r, fmt.Sprintf("%s@%d/%v", t.Value, t.Line, t.IsQuoted))
	}
	return r
}

func zzWant(t *testing.T, in string, want ...string) {
	if got := zzLua(in); !reflect.DeepEqual(got, want) {
		t.Errorf("%q\\n got  %q\\n want %q", in, got, want)
	}
}

type zzLexer struct{ id string }

func (z zzLexer) Lex(s *SubScanner, m string) <-chan NgxToken {
	c := make(chan NgxToken, 2)
	c <- NgxToken{Value: z.id}
	c <- NgxToken{Value: ";"}
	close(c)
	return c
}

'''
L='lua.go'; X='lex.go'
def T(b): return PRE+b
SEEDS=[
dict(id='lua-any-quote-ends',prop='L07',edits=[(L,'} else if inQuotes && next == quoteType {','} else if inQuotes && (next == quoteType || tokenDepth > 2) {')],
 needs="a string that holds the other quote, two blocks deep", breaks='a brace in the string ends the block',
 test=T('''func TestZZDemo(t *testing.T) {
	zzWant(t, "log_by_lua_block {a={b={\\"it's }\\"}}}", "log_by_lua_block@1/false", "a={b={\\"it's }\\"}}@1/true", ";@1/false")
}
''')),
dict(id='lua-arg-ends-at-blank',prop='L07',edits=[(L,'''				if isSpace(next) {
					if arg != "" {''','''				if isSpace(next) {
					if arg != "" && !isEOL(next) {''')],
 needs='the argument of set_by_lua_block at the end of its line', breaks='the argument is joined with what follows',
 test=T('''func TestZZDemo(t *testing.T) {
	zzWant(t, "set_by_lua_block $a\\n{x}", "set_by_lua_block@1/false", "$a@2/false", "x@2/true", ";@2/false")
}
''')),
dict(id='lua-overread',prop='L07',edits=[(L,'''				if next != "{" {
					lineno := s.Line()''','''				if next != "{" {
					for next != ";" && next != "}" && s.Scan() {
						next = s.Text()
					}
					lineno := s.Line()''')],
 needs='something else than a brace after the directive, on the line before', breaks='the error names a later line',
 test=T('''func TestZZDemo(t *testing.T) {
	lua := &Lua{}
	for tok := range LexWithOptions(strings.NewReader("log_by_lua_block x\\n\\n;"), LexOptions{Lexers: []RegisterLexer{lua.RegisterLexer()}}) {
		if tok.Error == nil {
			continue
		}
		if pe := tok.Error.(*ParseError); *pe.Line != 1 {
			t.Fatal(*pe.Line)
		}
		return
	}
	t.Fatal("no error")
}
''')),
dict(id='lua-carriage-return',prop='L07',edits=[(L,'''				if isSpace(next) && tokenDepth == 0 {
					continue
				}
''','''				if isSpace(next) && (tokenDepth == 0 || next == "\\r" && tok.Len() > 0) {
					continue
				}
''')],
 needs='a carriage return in a block', breaks='it is dropped',
 test=T('''func TestZZDemo(t *testing.T) {
	zzWant(t, "log_by_lua_block {x\\r\\n}", "log_by_lua_block@1/false", "x\\r\\n@2/true", ";@2/false")
}
''')),
dict(id='lua-builder-names',prop='B06',edits=[(L,'	return BuildWithBuilder(l, l.directiveNames()...)','	return BuildWithBuilder(l, l.directiveNames()[:12]...)')],
 needs='one of the last four directives', breaks='it is built as an ordinary directive with a quoted argument',
 test=T('''func TestZZDemo(t *testing.T) {
	lua := &Lua{}
	var sb strings.Builder
	c := Config{Parsed: Directives{{Directive: "ssl_session_store_by_lua_block", Args: []string{" x "}}}}
	if err := Build(&sb, c, &BuildOptions{Builders: []RegisterBuilder{lua.RegisterBuilder()}}); err != nil {
		t.Fatal(err)
	}
	if sb.String() != "ssl_session_store_by_lua_block { x }" {
		t.Fatal(sb.String())
	}
}
''')),
dict(id='lua-build-trims',prop='B06',edits=[(L,'	return fmt.Sprintf("%s {%s}", stmt.Directive, stmt.Args[0])','	return fmt.Sprintf("%s {%s}", stmt.Directive, strings.TrimPrefix(stmt.Args[0], "\\r"))')],
 needs='a block that starts with a carriage return', breaks='it is dropped',
 test=T('''func TestZZDemo(t *testing.T) {
	if s := (&Lua{}).Build(&Directive{Directive: "log_by_lua_block", Args: []string{"\\rx"}}); s != "log_by_lua_block {\\rx}" {
		t.Fatalf("%q", s)
	}
}
''')),
dict(id='ext-first-wins',prop='L08',edits=[(X,'		o.extLexers[s] = rl.l\n','		if _, ok := o.extLexers[s]; !ok {\n			o.extLexers[s] = rl.l\n		}\n')],
 needs='two lexers for one directive', breaks='the first one is used',
 test=T('''func TestZZDemo(t *testing.T) {
	var r []string
	for tok := range LexWithOptions(strings.NewReader("a x;"), LexOptions{Lexers: []RegisterLexer{LexWithLexer(zzLexer{"1"}, "a"), LexWithLexer(zzLexer{"2"}, "a")}}) {
		r = append(r, tok.Value)
	}
	if len(r) < 2 || r[1] != "2" {
		t.Fatal(r)
	}
}
''')),
dict(id='ext-drops-others',prop='L08',edits=[(X,'	if o.extLexers == nil {\n','	if len(o.extLexers) < len(rl.stringTokens) {\n')],
 needs='a lexer for one directive, then one for two', breaks='the first one is forgotten',
 test=T('''func TestZZDemo(t *testing.T) {
	var r []string
	for tok := range LexWithOptions(strings.NewReader("a x;"), LexOptions{Lexers: []RegisterLexer{LexWithLexer(zzLexer{"1"}, "a"), LexWithLexer(zzLexer{"2"}, "b", "c")}}) {
		r = append(r, tok.Value)
	}
	if len(r) < 2 || r[1] != "1" {
		t.Fatal(r)
	}
}
''')),
]
