PRE='''package crossplane

import (
	"errors"
	"testing"
)

var _ = errors.New

'''
Y='types.go'; R='errors.go'
def T(body): return PRE+body
SEEDS=[
dict(id='text-empty-file',prop='E03',edits=[(R,'	if e.File != nil {\n','	if e.File != nil && *e.File != "" {\n')],
 needs='an error of an unnamed file', breaks='its text says that there is no file',
 test=T('''func TestZZDemo(t *testing.T) {
	for _, f := range []string{"f", ""} {
		f := f
		if s := (&ParseError{What: "w", File: &f}).Error(); s != "w in "+f { t.Fatal(s) }
	}
}
''')),
dict(id='unwrap-deep',prop='E03',edits=[(R,'''	return e.originalErr
''','''	if pe, ok := e.originalErr.(*ParseError); ok {
		return pe.originalErr
	}
	return e.originalErr
''')],
 needs='a parse error that is caused by a parse error', breaks='errors.Is does not find the cause',
 test=T('''func TestZZDemo(t *testing.T) {
	e := errors.New("e")
	in := &ParseError{What: "w", originalErr: e}
	if out := (&ParseError{What: "o", originalErr: in}); !errors.Is(out, in) || !errors.Is(out, e) { t.Fatal("not found") }
}
''')),
dict(id='kind-empty-comment',prop='E04',edits=[(Y,'d.Directive == "#" && d.Comment != nil','d.Directive == "#" && d.Comment != nil && *d.Comment != ""')],
 needs='an empty comment', breaks='it is no comment',
 test=T('''func TestZZDemo(t *testing.T) {
	for _, c := range []string{"c", ""} {
		c := c
		if !(Directive{Directive: "#", Comment: &c}).IsComment() { t.Fatal("no comment") }
	}
}
''')),
dict(id='kind-include-empty',prop='E04',edits=[(Y,'d.Directive == "include" && d.Includes != nil','d.Directive == "include" && len(d.Includes) > 0')],
 needs='an include of no files', breaks='it is no include',
 test=T('''func TestZZDemo(t *testing.T) {
	if !(Directive{Directive: "include", Includes: []int{}}).IsInclude() { t.Fatal("no include") }
}
''')),
]
