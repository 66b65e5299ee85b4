PRE='''package crossplane

import "testing"

func zzSrc(m map[string][]uint) MatchFunc {
	return func(d string) ([]uint, bool) { x, ok := m[d]; return x, ok }
}

func zzAna(d string, args []string, term string, ctx blockCtx, o *ParseOptions) error {
	return analyze("f", &Directive{Directive: d, Args: args, Line: 7}, term, ctx, o)
}

'''
def T(body): return PRE+"func TestZZDemo(t *testing.T) {\n"+body+"\n}\n"
SEEDS=[
dict(id="ana-flag-first",prop="A01",
 edits=[("analyze.go",'''((mask&ngxConfFlag) != 0 && len(stmt.Args) == 1 && validFlag(stmt.Args[0])) ||''','''((mask&ngxConfFlag) != 0 && i == 0 && len(stmt.Args) == 1 && validFlag(stmt.Args[0])) ||''')],
 needs="a directive whose flag bitmask is not the first of those that allow the context",
 breaks="a valid `on` or `off` is rejected",
 test=T('''	o := &ParseOptions{DirectiveSources: []MatchFunc{zzSrc(map[string][]uint{"d": {ngxMainConf | ngxConfTake2, ngxMainConf | ngxConfFlag}})}}
	if err := zzAna("d", []string{"on"}, ";", blockCtx{}, o); err != nil {
		t.Error(err)
	}''')),
dict(id="ana-expr-terminator",prop="A01",
 edits=[("analyze.go",'''		if (mask&ngxConfBlock) == 0 && term != ";" {''','''		if (mask&(ngxConfBlock|ngxConfExpr)) == 0 && term != ";" {''')],
 needs="a directive with an expression bitmask that is not a block bitmask, followed by a block",
 breaks="a block is accepted where a semicolon is needed",
 test=T('''	o := &ParseOptions{DirectiveSources: []MatchFunc{zzSrc(map[string][]uint{"d": {ngxMainConf | ngxConfExpr | ngxConf1More}})}}
	if err := zzAna("d", []string{"($a)"}, "{", blockCtx{}, o); err == nil {
		t.Error("accepted")
	}''')),
dict(id="ana-expr-open",prop="A01",
 edits=[("util.go",'''		strings.HasSuffix(d.Args[e], ")") &&''','''		(strings.HasSuffix(d.Args[e], ")") || l > 4) &&''')],
 needs="an expression of more than four arguments whose closing parenthesis is missing",
 breaks="it is accepted",
 test=T('''	o := &ParseOptions{DirectiveSources: []MatchFunc{zzSrc(map[string][]uint{"d": {ngxMainConf | ngxConfExpr | ngxConf1More}})}}
	if err := zzAna("d", []string{"(a", "b", "c", "d", "e"}, ";", blockCtx{}, o); err == nil {
		t.Error("accepted")
	}''')),
dict(id="ana-context-any-bit",prop="A02",
 edits=[("analyze.go",'''			if (mask & currCtx) != 0 {''','''			if (mask&currCtx) != 0 || currCtx&ngxHTTPLmtConf != 0 && mask&ngxHTTPLocConf != 0 {''')],
 needs="a directive that is allowed in a location but not in a limit_except block",
 breaks="it is accepted in limit_except",
 test=T('''	o := &ParseOptions{DirectiveSources: []MatchFunc{zzSrc(map[string][]uint{"d": {ngxHTTPLocConf | ngxConfTake1}})}}
	if err := zzAna("d", []string{"a"}, ";", blockCtx{"http", "location", "limit_except"}, o); err == nil {
		t.Error("accepted")
	}''')),
dict(id="ana-context-args-skipped",prop="A02",
 edits=[("analyze.go",'''		if len(ctxMasks) == 0 && !options.SkipDirectiveContextCheck {''','''		if len(ctxMasks) == 0 && !options.SkipDirectiveArgsCheck {''')],
 needs="SkipDirectiveArgsCheck and a directive that is not allowed in its context",
 breaks="turning off the check of arguments also turns off that of the context",
 test=T('''	o := &ParseOptions{SkipDirectiveArgsCheck: true, DirectiveSources: []MatchFunc{zzSrc(map[string][]uint{"d": {ngxHTTPLocConf | ngxConfTake1}})}}
	if err := zzAna("d", []string{"a"}, ";", blockCtx{"http"}, o); err == nil {
		t.Error("accepted")
	}''')),
dict(id="ana-table-stream-upstream",prop="A02",
 edits=[("analyze.go",'''	blockCtx{"stream", "upstream"}.key():               ngxStreamUpsConf,''','''	blockCtx{"stream", "upstream"}.key():               ngxStreamUpsConf | ngxStreamSrvConf,''')],
 needs="a directive that is allowed in stream servers, used in a stream upstream",
 breaks="it is accepted there",
 test=T('''	o := &ParseOptions{DirectiveSources: []MatchFunc{zzSrc(map[string][]uint{"d": {ngxStreamSrvConf | ngxConfTake1}})}}
	if err := zzAna("d", []string{"a"}, ";", blockCtx{"stream", "upstream"}, o); err == nil {
		t.Error("accepted")
	}''')),
dict(id="ana-map-special-case",prop="A03",
 edits=[("analyze_map.go",'''masks.specialParameterMasks[parameter.Directive]; ok {''','''masks.specialParameterMasks[strings.ToLower(parameter.Directive)]; ok {'''),("analyze_map.go",'import "fmt"','import (\n\t"fmt"\n\t"strings"\n)')],
 needs="a value named like a special parameter but for its case, such as `Volatile x;` in a map",
 breaks="it is rejected",
 test=T('''	if err := analyzeMapBody("f", &Directive{Directive: "Volatile", Args: []string{"1"}}, ";", "map"); err != nil {
		t.Error(err)
	}''')),
dict(id="ana-map-brace",prop="A03",
 edits=[("analyze_map.go",'''	if term != ";" {''','''	if term != ";" && (term != "{" || mapCtx != "geo") {''')],
 needs="a parameter of a geo block followed by a block, such as `ranges { }` in a geo block",
 breaks="the block is accepted",
 test=T('''	if err := analyzeMapBody("f", &Directive{Directive: "ranges"}, "{", "geo"); err == nil {
		t.Error("accepted")
	}''')),
dict(id="ana-sources-first",prop="A04",
 edits=[("analyze.go",'''			masks = append(masks, masksInFn...)
			knownDirective = true''','''			if len(masks) < 2 {
				masks = append(masks, masksInFn...)
			}
			knownDirective = true''')],
 needs="two sources that know the same directive, the first with two bitmasks or more",
 breaks="the bitmask of the second source is lost, what it allows is rejected",
 test=T('''	o := &ParseOptions{DirectiveSources: []MatchFunc{
		zzSrc(map[string][]uint{"d": {ngxMainConf | ngxConfTake1, ngxMainConf | ngxConfBlock}}),
		zzSrc(map[string][]uint{"d": {ngxMainConf | ngxConfTake2}})}}
	if err := zzAna("d", []string{"a", "b"}, ";", blockCtx{}, o); err != nil {
		t.Error(err)
	}''')),
dict(id="ana-unknown-in-unknown-context",prop="A04",
 edits=[("analyze.go",'''	if options.ErrorOnUnknownDirectives && !knownDirective {''','''	if options.ErrorOnUnknownDirectives && !knownDirective && (knownContext || len(ctx) == 0) {''')],
 needs="ErrorOnUnknownDirectives and an unknown directive in a block whose context is not known",
 breaks="the unknown directive is accepted",
 test=T('''	o := &ParseOptions{ErrorOnUnknownDirectives: true, DirectiveSources: []MatchFunc{zzSrc(nil)}}
	if err := zzAna("d", nil, ";", blockCtx{"http", "zz"}, o); err == nil {
		t.Error("accepted")
	}''')),
dict(id="ana-position-last-block",prop="A05",
 edits=[("parse.go",'''	return c[len(c)-1]
''','''	return c[(len(c)-1)%3]
''')],
 needs="an error in a block that is nested four levels deep",
 breaks="the error names an outer block",
 test=T('''	o := &ParseOptions{ErrorOnUnknownDirectives: true, DirectiveSources: []MatchFunc{zzSrc(nil)}}
	err := zzAna("d", nil, ";", blockCtx{"a", "b", "c", "d"}, o)
	if pe, ok := err.(*ParseError); !ok || pe.BlockCtx != "d" {
		t.Error(err)
	}''')),
]
