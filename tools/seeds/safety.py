PRE='''package crossplane

import (
	"bytes"
	"io"
	"strings"
	"testing"
)

func zzParse(in string, o *ParseOptions) {
	o.Open = func(string) (io.ReadCloser, error) { return io.NopCloser(strings.NewReader(in)), nil }
	_, _ = Parse("/n/main", o)
}

var _ = bytes.NewBuffer

func TestZZDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic: %v", r)
		}
	}()
'''
A='analyze.go'; P='parse.go'; B='build.go'; L='lua.go'
SEEDS=[
dict(id='safe-flag-without-value',prop='X01',edits=[(A,'} else if (mask&ngxConfFlag) != 0 && len(stmt.Args) == 1 && !validFlag(stmt.Args[0]) {','} else if (mask&ngxConfFlag) != 0 && len(stmt.Args) <= 1 && !validFlag(stmt.Args[0]) {')],
 needs='a directive that takes on or off, without an argument', breaks='Parse panics',
 test=PRE+'	zzParse("http { gzip; }", &ParseOptions{})\n}\n'),
dict(id='safe-top-location',prop='X01',edits=[(A,'if len(ctx) > 0 && ctx[0] == "http" && stmt.Directive == "location" {','if stmt.Directive == "location" && ctx[0] == "http" {')],
 needs='a location outside every block, with SkipDirectiveContextCheck', breaks='Parse panics',
 test=PRE+'	zzParse("location / { return 200; }", &ParseOptions{SkipDirectiveContextCheck: true})\n}\n'),
dict(id='safe-include-without-file',prop='X01',edits=[(P,'''			if len(stmt.Args) == 0 {
				return nil, &ParseError{''','''			if len(stmt.Args) == 0 && !p.options.SkipDirectiveArgsCheck {
				return nil, &ParseError{''')],
 needs='an include without an argument, with SkipDirectiveArgsCheck', breaks='Parse panics',
 test=PRE+'	zzParse("include;", &ParseOptions{SkipDirectiveArgsCheck: true})\n}\n'),
dict(id='safe-empty-body',prop='X01',edits=[(B,"if len(bodyStr) > 0 && bodyStr[len(bodyStr)-1] == '\\n' {","if len(config.Parsed) > 0 && bodyStr[len(bodyStr)-1] == '\\n' {")],
 needs='a config of which nothing is rendered although it has statements: a registered builder that renders nothing', breaks='Build panics',
 test=PRE.replace('func TestZZDemo','''type zzNone struct{}

func (zzNone) Build(*Directive) string { return "" }

func TestZZDemo''')+'''	_ = Build(&bytes.Buffer{}, Config{Parsed: Directives{{Directive: "a"}}}, &BuildOptions{Builders: []RegisterBuilder{BuildWithBuilder(zzNone{}, "a")}})
}
'''),
dict(id='safe-map-parameter-last',prop='X01',edits=[(P,'''		if len(ctx) > 0 {
			if _, ok := mapBodies''','''		if len(ctx) > 0 || stmt.Directive == "default" {
			if _, ok := mapBodies''')],
 needs='a statement called default outside every block', breaks='Parse panics',
 test=PRE+'	zzParse("default a;", &ParseOptions{})\n}\n'),
dict(id='safe-lua-one-argument',prop='X01',edits=[(L,'if len(stmt.Args) < numArgsForOtherDirectives {','if len(stmt.Args) < numArgsForOtherDirectives && stmt.Comment == nil {')],
 needs='a Lua directive with a comment and no arguments', breaks='Build panics',
 test=PRE+'''	c := "x"
	_ = Build(&bytes.Buffer{}, Config{Parsed: Directives{{Directive: "log_by_lua_block", Comment: &c}}}, &BuildOptions{Builders: []RegisterBuilder{(&Lua{}).RegisterBuilder()}})
}
'''),
]
