PRE='''package generator

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func zzGen(t *testing.T, files map[string]string, c GenerateConfig) (string, error) {
	t.Helper()
	dir, err := os.MkdirTemp("", "zz")
	if err != nil { t.Fatal(err) }
	defer os.RemoveAll(dir)
	for n, s := range files {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil { t.Fatal(err) }
	}
	if c.DirectiveMapName == "" { c.DirectiveMapName = "m" }
	if c.MatchFuncName == "" { c.MatchFuncName = "Match" }
	var b bytes.Buffer
	err = Generate(dir, &b, c)
	return strings.Join(strings.Fields(b.String()), " "), err
}

func zzHas(t *testing.T, got string, want ...string) {
	t.Helper()
	for _, w := range want { if !strings.Contains(got, w) { t.Fatalf("no %q in %s", w, got) } }
}

func zzHasNot(t *testing.T, got string, not ...string) {
	t.Helper()
	for _, w := range not { if strings.Contains(got, w) { t.Fatalf("%q in %s", w, got) } }
}

const zzA = "static ngx_command_t a_commands[] = { { ngx_string(\\"aa\\"), NGX_HTTP_MAIN_CONF|NGX_CONF_FLAG, f, 0, 0, NULL }, { ngx_string(\\"ab\\"), NGX_HTTP_LOC_CONF|NGX_CONF_TAKE1, f, 0, 0, NULL }, ngx_null_command };\\n"
const zzB = "static ngx_command_t b_commands[] = { { ngx_string(\\"aa\\"), NGX_STREAM_MAIN_CONF|NGX_CONF_TAKE2, f, 0, 0, NULL }, ngx_null_command };\\n"

'''
T='internal/generator/generator_util.go'; C='internal/generator/generator.go'; TM='internal/generator/tmpl/support_file.tmpl'
P='internal/generator/'
def D(body): return PRE+'func TestZZDemo(t *testing.T) {\n'+body+'}\n'
SEEDS=[
dict(id='gen-override-appends',pkg=P,prop='G03',edits=[(T,'''			if newMasks, found := override[d]; found {
				directive2Masks[d] = newMasks
''','''			if newMasks, found := override[d]; found && len(newMasks) > 0 {
				directive2Masks[d] = newMasks
''')],needs='an override with no masks at all',breaks='the masks of the source code are generated',
 test=D('''	got, err := zzGen(t, map[string]string{"a.c": zzA}, GenerateConfig{Override: map[string][]Mask{"aa": {}}})
	if err != nil { t.Fatal(err) }
	zzHas(t, got, `"aa": { },`)
''')),
dict(id='gen-filter-needs-two',pkg=P,prop='G03',edits=[(T,'	if len(filter) > 0 {\n','	if len(filter) > 1 || len(filter) > 0 && len(config.Override) == 0 {\n')],needs='a filter of one directive together with overrides',breaks='the directive is generated',
 test=D('''	got, err := zzGen(t, map[string]string{"a.c": zzA}, GenerateConfig{Filter: Filters{"aa": {}}, Override: map[string][]Mask{"ab": {{"ngxConfFlag"}}}})
	if err != nil { t.Fatal(err) }
	zzHasNot(t, got, `"aa"`)
''')),
dict(id='gen-exec-error',pkg=P,prop='G03',edits=[(T,'''	if err != nil {
		return err
	}

	return nil
}''','''	if err != nil && !errors.Is(err, io.ErrShortWrite) {
		return err
	}

	return nil
}''')],needs='a writer that takes only a part of the output',breaks='Generate succeeds',
 test=PRE.replace('"bytes"','"bytes"\n	"io"')+'''
type zzShort struct{}

func (zzShort) Write(p []byte) (int, error) { return 0, io.ErrShortWrite }

func TestZZDemo(t *testing.T) {
	dir, _ := os.MkdirTemp("", "zz")
	defer os.RemoveAll(dir)
	_ = os.WriteFile(filepath.Join(dir, "a.c"), []byte(zzA), 0o644)
	if err := Generate(dir, zzShort{}, GenerateConfig{DirectiveMapName: "m", MatchFuncName: "M"}); err == nil { t.Fatal("no error") }
}
'''),
dict(id='gen-comment-name',pkg=P,prop='G03',edits=[(T,'		MatchFnComment:  config.MatchFuncComment,\n','		MatchFnComment:  strings.TrimPrefix(config.MatchFuncComment, "// "),\n')],needs='a comment that starts with slashes',breaks='it is not the one that was asked for',
 test=D('''	got, err := zzGen(t, map[string]string{"a.c": zzA}, GenerateConfig{MatchFuncComment: "// x"})
	if err != nil { t.Fatal(err) }
	zzHas(t, got, "// // x func")
''')),
dict(id='gen-one-block',pkg=P,prop='G02',edits=[(T,'	blocks := directivesDefineBlockExtracter.FindAllStringSubmatch(strContent, -1)','	blocks := directivesDefineBlockExtracter.FindAllStringSubmatch(strContent, 64)')],needs='a file with more than 64 tables of directives',breaks='the others are lost',
 test=D('''	s := strings.Repeat(zzA, 70) + zzB
	got, err := zzGen(t, map[string]string{"a.c": s}, GenerateConfig{})
	if err != nil { t.Fatal(err) }
	zzHas(t, got, "ngxStreamMainConf")
''')),
dict(id='gen-last-file-wins',pkg=P,prop='G02',edits=[(T,'			directive2Masks[directive] = append(directive2Masks[directive], masksInFile...)','			if len(masksInFile) > 1 {\n				masksInFile = masksInFile[1:]\n			}\n			directive2Masks[directive] = append(directive2Masks[directive], masksInFile...)')],needs='a directive that is defined twice in one file',breaks='its first definition is lost',
 test=D('''	got, err := zzGen(t, map[string]string{"a.c": zzA + zzB}, GenerateConfig{})
	if err != nil { t.Fatal(err) }
	zzHas(t, got, "ngxStreamMainConf", "ngxHTTPMainConf | ngxConfFlag")
''')),
dict(id='gen-shared-file-masks',pkg=P,prop='G02',edits=[(T,'			directive2Masks[directive] = append(directive2Masks[directive], masksInFile...)','			if _, found := directive2Masks[directive]; found && strings.HasSuffix(path, ".cpp") {\n				continue\n			}\n			directive2Masks[directive] = append(directive2Masks[directive], masksInFile...)')],needs='a directive that a C file and a C++ file define',breaks='the definition of the C++ file is lost',
 test=D('''	got, err := zzGen(t, map[string]string{"a.c": zzA, "b.cpp": zzB}, GenerateConfig{})
	if err != nil { t.Fatal(err) }
	zzHas(t, got, "ngxStreamMainConf", "ngxHTTPMainConf | ngxConfFlag")
''')),
dict(id='gen-skip-hidden',pkg=P,prop='G02',edits=[(T,'''		if d.IsDir() {
			return nil
''','''		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
''')],needs='source code below a directory whose name starts with a dot',breaks='it is not read',
 test=D('''	got, err := zzGen(t, map[string]string{"a.c": zzA, ".b/b.c": zzB}, GenerateConfig{})
	if err != nil { t.Fatal(err) }
	zzHas(t, got, "ngxStreamMainConf")
''')),
dict(id='gen-same-mask-once',pkg=P,prop='G02',edits=[(T,'			directive2Masks[directiveName] = append(directive2Masks[directiveName], directiveMask)','			if n := len(directive2Masks[directiveName]); n > 0 && len(directive2Masks[directiveName][n-1]) == len(directiveMask) {\n				directive2Masks[directiveName][n-1] = directiveMask\n				continue\n			}\n			directive2Masks[directiveName] = append(directive2Masks[directiveName], directiveMask)')],needs='a directive that one file defines twice with as many bits',breaks='the first definition is lost',
 test=D('''	got, err := zzGen(t, map[string]string{"a.c": zzA + zzB}, GenerateConfig{})
	if err != nil { t.Fatal(err) }
	zzHas(t, got, "ngxStreamMainConf", "ngxHTTPMainConf | ngxConfFlag")
''')),
dict(id='gen-unknown-any',pkg=P,prop='G02',edits=[(T,'				if !found {\n','				if !found && strings.TrimSpace(ngxVarName) != "" {\n')],needs='a definition without a mask',breaks='an empty name is generated',
 test=D('''	_, err := zzGen(t, map[string]string{"a.c": "static ngx_command_t a_commands[] = { { ngx_string(\\"aa\\"), NGX_CONF_FLAG| , f, 0, 0, NULL } };"}, GenerateConfig{})
	if err == nil { t.Fatal("no error") }
''')),
dict(id='gen-mask-skips-last',pkg=P,prop='G02',edits=[(T,'			directiveMask := strings.Split(attributes[2], "|")','			directiveMask := strings.SplitN(attributes[2], "|", 64)')],needs='a definition with more than 64 parts',breaks='it is refused',
 test=D('''	s := "static ngx_command_t a_commands[] = { { ngx_string(\\"aa\\"), " + strings.Repeat("NGX_HTTP_MAIN_CONF|", 70) + "NGX_CONF_FLAG, f, 0, 0, NULL } };"
	if _, err := zzGen(t, map[string]string{"a.c": s}, GenerateConfig{}); err != nil { t.Fatal(err) }
''')),
dict(id='gen-name-case',pkg=P,prop='G02',edits=[(T,'ngxVarNameToGo[strings.TrimSpace(ngxVarName)]','ngxVarNameToGo[strings.Trim(ngxVarName, " ")]')],needs='a tab in the mask of a definition',breaks='it is refused',
 test=D('''	s := "static ngx_command_t a_commands[] = { { ngx_string(\\"aa\\"),\\tNGX_HTTP_MAIN_CONF\\t|\\tNGX_CONF_FLAG, f, 0, 0, NULL } };"
	if _, err := zzGen(t, map[string]string{"a.c": s}, GenerateConfig{}); err != nil { t.Fatal(err) }
''')),
dict(id='gen-name-wrong',pkg='',prop='G01',edits=[('analyze.go','	ngxConfTake23   = ngxConfTake2 | ngxConfTake3','	ngxConfTake23   = ngxConfTake2 | ngxConfTake13')],needs='a directive that a generated table gives two or three arguments',breaks='it is accepted with one',
 test='package crossplane\n\nimport "testing"\n\nfunc TestZZDemo(t *testing.T) {\n	if ngxConfTake23 != ngxConfTake2|ngxConfTake3 { t.Fatal() }\n}\n'),
dict(id='gen-bit-shared',pkg='',prop='G01',edits=[('analyze.go','	ngxConfTake6  = 0x00000040','	ngxConfTake6  = 0x00000020')],needs='a directive of a generated table with six arguments',breaks='the analyzer takes five for six',
 test='package crossplane\n\nimport "testing"\n\nfunc TestZZDemo(t *testing.T) {\n	if ngxConfTake6 == ngxConfTake5 { t.Fatal() }\n}\n'),
]
SEEDS=[s for s in SEEDS if s]
