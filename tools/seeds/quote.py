PRE='''package crossplane

import (
	"strings"
	"testing"
)

// zzBack builds a statement with the argument and parses it again.
func zzBack(t *testing.T, args ...string) {
	t.Helper()
	for _, arg := range args {
		var b strings.Builder
		if err := Build(&b, Config{Parsed: Directives{{Directive: "x", Line: 1, Args: []string{arg}}}}, &BuildOptions{}); err != nil {
			t.Fatal(err)
		}
		var got []string
		for tok := range Lex(strings.NewReader(b.String())) {
			if tok.Error != nil {
				t.Fatalf("%q is built as %q: %v", arg, b.String(), tok.Error)
			}
			got = append(got, tok.Value)
		}
		if len(got) != 3 || got[1] != arg {
			t.Fatalf("%q is built as %q and read as %q", arg, b.String(), got)
		}
	}
}

func zzPlain(t *testing.T, arg string) {
	t.Helper()
	if Enquote(arg) != arg {
		t.Fatalf("%q is quoted", arg)
	}
}

'''
B='build.go'
U='util.go'
def T(body): return PRE+body
SEEDS=[
dict(id='quote-ascii-blanks',prop='B01',edits=[(B,'''		if unicode.IsSpace(char) || strings.ContainsRune("{;\\"'", char) {''','''		if char == ' ' || strings.ContainsRune("\\t\\n{;\\"'", char) {''')],
 needs='an argument with a no-break space or a vertical tab inside', breaks='it is written without quotes and read back as two words',
 test=T('''func TestZZDemo(t *testing.T) { zzBack(t, "a b", "a;b"); if Enquote("a\\u00a0b") == "a\\u00a0b" { t.Fatal("not quoted") } }
''')),
dict(id='quote-escaped-pair',prop='B01',edits=[(B,'''		if prev == '\\\\' {
			prev = 0
			continue
		}
''','''		if prev == '\\\\' {
			prev = char
			continue
		}
''')],
 needs='an argument with two backslashes and then a character that needs quotes', breaks='the second backslash is taken for an escape, the argument is written without quotes',
 test=T('''func TestZZDemo(t *testing.T) { zzBack(t, "a;b", "ab"); if s := Enquote(`a\\\\\\\\;b`); s == `a\\\\\\\\;b` { t.Fatalf("not quoted: %s", s) } }
''')),

dict(id='quote-variable-open',prop='B01',edits=[(B,'''		if unicode.IsSpace(char) || strings.ContainsRune("{;\\"'", char) {''','''		if unicode.IsSpace(char) || strings.ContainsRune(";\\"'", char) || char == '{' && prev != '$' {'''),
 (B,"return expanding || char == '\\\\' || char == '$'","return char == '\\\\' || char == '$'"),
 (B,'''		if (expanding && (prev == '$' && char == '{')) || (!expanding && char == '}') {''','''		if !expanding && char == '}' {''')],
 needs='an argument with `${` that is not closed', breaks='it is written without quotes and swallows what follows',
 test=T('''func TestZZDemo(t *testing.T) { zzBack(t, "a${b}", "a${b", "a;b") }
''')),
dict(id='quote-single-quote-once',prop='B01',edits=[(U,'''			q = strings.ReplaceAll(q, `'`, `\\'`)
''','''			q = strings.Replace(q, `'`, `\\'`, 2)
''')],
 needs='an argument with a double quote and three single quotes', breaks='the third single quote closes the string',
 test=T('''func TestZZDemo(t *testing.T) { zzBack(t, `a "b" 'c'`, `it's "x" and 'y'`) }
''')),
dict(id='quote-escape-state',prop='B01',edits=[(B,'''			sb.WriteRune(cc)
			pc = 0
			continue
''','''			sb.WriteRune(cc)
			pc = cc
			continue
''')],
 needs='an argument with two backslashes and then a separator', breaks='it is written without quotes',
 test=T('''func TestZZDemo(t *testing.T) { if s := `a\\\\\\\\;b`; Enquote(s) == s { t.Fatal("not quoted") } }
''')),
]
