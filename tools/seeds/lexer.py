PRE='''package crossplane

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func zzLex(in string) []string {
	var r []string
	for t := range Lex(strings.NewReader(in)) {
		e := ""
		if t.Error != nil {
			l := -1
			if p, ok := t.Error.(*ParseError); ok && p.Line != nil {
				l = *p.Line
			}
			e = fmt.Sprintf("!%s@%d", t.Error, l)
			r = append(r, e)
			continue
		}
		r = append(r, fmt.Sprintf("%s@%d/%v", t.Value, t.Line, t.IsQuoted))
	}
	return r
}

func zzWant(t *testing.T, in string, want ...string) {
	if got := zzLex(in); !reflect.DeepEqual(got, want) {
		t.Errorf("%q\\n got  %q\\n want %q", in, got, want)
	}
}

var _ = fmt.Sprint
'''
def T(body): return PRE+"\nfunc TestZZDemo(t *testing.T) {\n"+body+"\n}\n"
SEEDS=[
dict(id="lex-escaped-brace-in-variable",prop="L01",
 edits=[("lex.go",'!strings.HasSuffix(token.String(), "}") && !isSpace(la)','la != "}" && !isSpace(la)')],
 needs="an escaped closing brace inside a ${...} variable, followed by more of the word",
 breaks="a variable that holds an escaped brace does not end there, so that a following ; or { becomes part of the word",
 test=T('''	zzWant(t, "a ${x\\\\};", "a@1/false", "${x\\\\}@1/false", ";@1/false")''')),
dict(id="lex-eof-error-line",prop="L02",
 edits=[("lex.go",'''expecting "}"`, Line: &tokenLine''','''expecting "}"`, Line: &tokenStartLine''')],
 needs="an input that ends inside an open block with newlines after the last token",
 breaks="the error for an unclosed block has the line of the last token, not the line on which the input ends",
 test=T('''	got := zzLex("a {\\n b c;\\n\\n\\n")
	if last := got[len(got)-1]; !strings.HasSuffix(last, "@5") {
		t.Error(last)
	}''')),
dict(id="lex-depth-saturates",prop="L03",
 edits=[("lex.go","depth++","if depth < 512 {\n\t\t\t\t\t\tdepth++\n\t\t\t\t\t}")],
 needs="blocks nested more than 512 deep, all closed",
 breaks="valid input nested deeper than 512 blocks yields an error token",
 test=T('''	in := strings.Repeat("a {", 600) + strings.Repeat("}", 600)
	for tok := range Lex(strings.NewReader(in)) {
		if tok.Error != nil {
			t.Fatal(tok.Error)
		}
	}''')),
dict(id="lex-unterminated-quote",prop="L01",
 edits=[("lex.go","		emit(tokenStartLine, lexState == inQuote, nil)\n	}","		emit(tokenStartLine, false, nil)\n	}")],
 needs="an input that ends inside a quoted string",
 breaks="the unterminated quoted string is sent as an unquoted word",
 test=T('''	zzWant(t, "a 'b c", "a@1/false", "b c@1/true")''')),
dict(id="lex-variable-directive",prop="L06",also=["L01"],
 edits=[("lex.go",'''				nextTokenIsDirective = false
				token.WriteString(la)
				lexState = inVar''','''				token.WriteString(la)
				lexState = inVar''')],
 needs="a registered name that is written with a ${...} expansion where a directive may start",
 breaks="an external lexer is called for a word that is built with a variable",
 test='''package crossplane

import (
	"strings"
	"testing"
)

type zzLexer struct{ n int }

func (l *zzLexer) Lex(s *SubScanner, w string) <-chan NgxToken {
	l.n++
	c := make(chan NgxToken)
	close(c)
	return c
}

func TestZZDemo(t *testing.T) {
	l := &zzLexer{}
	for range LexWithOptions(strings.NewReader("${x} a; b c;"), LexOptions{Lexers: []RegisterLexer{LexWithLexer(l, "${x}")}}) {
	}
	if l.n != 0 {
		t.Error("external lexer called", l.n)
	}
}
'''),
dict(id="lex-cr-in-quotes",prop="L01",
 edits=[("lex.go",'''if la == "\\r" || la == "\\\\\\r" {''','''if (la == "\\r" || la == "\\\\\\r") && lexState != inQuote {''')],
 needs="a quoted string that spans lines of a file with CRLF line ends",
 breaks="carriage returns in quoted strings are kept",
 test=T('''	zzWant(t, "a 'b\\r\\nc';", "a@1/false", "b\\nc@1/true", ";@2/false")''')),
]
