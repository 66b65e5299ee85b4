PRE='''package crossplane

import (
	"fmt"
	"io"
	"strings"
	"testing"
)

func zzArgs(t *testing.T, in, want string) {
	o := &ParseOptions{SkipDirectiveContextCheck: true, SkipDirectiveArgsCheck: true, Open: func(string) (io.ReadCloser, error) {
		return io.NopCloser(strings.NewReader(in)), nil
	}}
	pl, err := Parse("f", o)
	if err != nil {
		t.Fatal(err)
	}
	d := pl.Config[0].Parsed[0]
	for d.Directive != "if" {
		d = d.Block[0]
	}
	if got := fmt.Sprintf("%q", d.Args); got != want {
		t.Errorf("%q\\n got  %s\\n want %s", in, got, want)
	}
}

'''
U='util.go'; P='parse.go'
def T(i,w): return PRE+'func TestZZDemo(t *testing.T) {\n\tzzArgs(t, %s, %s)\n}\n'%('`'+i+'`','`'+w+'`')
SEEDS=[
dict(id='if-trims-blanks-only',prop='P13',edits=[(U,'strings.TrimLeftFunc(strings.TrimPrefix(d.Args[0], "("), unicode.IsSpace)','strings.TrimLeft(strings.TrimPrefix(d.Args[0], "("), " \\t")')],
 needs='an `if` whose quoted first argument has a newline after the parenthesis', breaks='the newline stays in the argument',
 test=T('http { server { if "(\n$a" = b) {} } }', '["$a" "=" "b"]')),
dict(id='if-strips-all-parens',prop='P13',edits=[(U,'strings.TrimSuffix(d.Args[e], ")")','strings.TrimRight(d.Args[e], ")")')],
 needs='an `if` whose last argument ends with a group of a regular expression', breaks='the parenthesis of the group is removed too',
 test=T('http { server { if ($a ~ (b|c)) {} } }', '["$a" "~" "(b|c)"]')),
dict(id='if-not-in-main',prop='P13',edits=[(P,'if stmt.Directive == "if" {','if stmt.Directive == "if" && len(ctx) > 0 {')],
 needs='an `if` at the top of a file (an included one, or with context checks off)', breaks='the parentheses stay',
 test=T('if ($a) {}', '["$a"]')),
dict(id='if-keeps-empty',prop='P13',edits=[(U,'''		if len(d.Args[0]) == 0 {
			b++''','''		if len(d.Args[0]) == 0 && e > 1 {
			b++''')],
 needs='an `if` with two arguments, the first of them only a parenthesis', breaks='an empty first argument is kept',
 test=T('http { server { if ( $a) {} } }', '["$a"]')),
dict(id='if-before-analysis',prop='P13',edits=[(P,'''		// prepare arguments - strip parentheses
		if stmt.Directive == "if" {
			stmt = prepareIfArgs(stmt)
		}
''','''		// prepare arguments - strip parentheses
		if stmt.Directive == "if" && !commentsInArgs(commentsInArgs_) {
			stmt = prepareIfArgs(stmt)
		}
''')],
 needs='',breaks='',test=''),
]
SEEDS.pop()
