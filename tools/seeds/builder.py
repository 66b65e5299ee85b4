PRE='''package crossplane

import (
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = bytes.NewReader
var _ = errors.New
var _ = io.EOF
var _ = os.Getpid
var _ = filepath.Join
var _ = strings.Join

func zzBuild(t *testing.T, ds Directives, o BuildOptions, want string) {
	t.Helper()
	var b strings.Builder
	if err := Build(&b, Config{Parsed: ds}, &o); err != nil {
		t.Fatal(err)
	}
	if b.String() != want {
		t.Fatalf("got %q, want %q", b.String(), want)
	}
}

type zzB struct{ s string }

func (b zzB) Build(d *Directive) string { return b.s }

type zzW struct {
	bytes.Buffer
	werr, cerr error
	closed     *int
}

func (w *zzW) Write(p []byte) (int, error) {
	if w.werr != nil {
		return 0, w.werr
	}
	return w.Buffer.Write(p)
}
func (w *zzW) Close() error {
	if w.closed != nil {
		*w.closed++
	}
	return w.cerr
}

type zzC struct{ f func(p string) (io.WriteCloser, error) }

func (c zzC) Create(p string) (io.WriteCloser, error)   { return c.f(p) }
func (c zzC) Reset() {}
func (c zzC) Open(p string) (io.ReadCloser, error)      { return nil, os.ErrNotExist }

'''
B='build.go'
def T(body): return PRE+body
SEEDS=[
dict(id='bld-margin-deep',prop='B02',edits=[(B,'return strings.Repeat(" ", options.Indent*depth)','return strings.Repeat(" ", MaxIndent)')],
 needs='blocks nested so deeply that the indentation is more than 100 columns', breaks='deeper statements are indented by 100 columns only',
 test=T('''func TestZZDemo(t *testing.T) {
	ds := Directives{{Directive: "x", Line: 9}}
	want := strings.Repeat(" ", 130) + "x;"
	for i := 12; i >= 0; i-- {
		ds = Directives{{Directive: "b", Line: 1, Block: ds}}
		m := strings.Repeat(" ", 10*i)
		want = m + "b {\\n" + want + "\\n" + m + "}"
	}
	zzBuild(t, ds, BuildOptions{Indent: 10}, want)
}
''')),
dict(id='bld-margin-tabs',prop='B02',edits=[(B,'return strings.Repeat("\\t", depth)','return strings.Repeat("\\t", indent)')],
 needs='tabs, an indentation that would pass 100 columns', breaks='deep statements get a tab for every column',
 test=T('''func TestZZDemo(t *testing.T) {
	ds := Directives{{Directive: "x", Line: 9}}
	want := strings.Repeat("\\t", 3) + "x;"
	for i := 2; i >= 0; i-- {
		ds = Directives{{Directive: "b", Line: 1, Block: ds}}
		m := strings.Repeat("\\t", i)
		want = m + "b {\\n" + want + "\\n" + m + "}"
	}
	zzBuild(t, ds, BuildOptions{Indent: 40, Tabs: true}, want)
}
''')),
dict(id='bld-line-after-comment',prop='B02',edits=[(B,'''				_, _ = sb.WriteString("}")
			}
		}

		lastLine = stmt.Line
''','''				_, _ = sb.WriteString("}")
			}
			lastLine = stmt.Line
		}
''')],
 needs='a comment on the line of an earlier statement of the payload, after a comment of its own, as for statements of two files', breaks='it is appended to the comment before it',
 test=T('''func TestZZDemo(t *testing.T) {
	c := func(s string) *string { return &s }
	zzBuild(t, Directives{
		{Directive: "a", Line: 1},
		{Directive: "#", Line: 2, Comment: c(" two")},
		{Directive: "#", Line: 1, Comment: c(" one")},
	}, BuildOptions{}, "a;\\n# two\\n# one")
}
''')),
dict(id='bld-trim-newlines',prop='B02',edits=[(B,'''	if len(bodyStr) > 0 && bodyStr[len(bodyStr)-1] == '\\n' {
		bodyStr = bodyStr[:len(bodyStr)-1]
	}
''','''	bodyStr = strings.TrimRight(bodyStr, "\\n")
''')],
 needs='a registered builder whose text ends with empty lines', breaks='more than one newline is cut off',
 test=T('''func TestZZDemo(t *testing.T) {
	zzBuild(t, Directives{{Directive: "a", Line: 1}}, BuildOptions{Builders: []RegisterBuilder{BuildWithBuilder(zzB{"x\\n\\n"}, "a")}}, "x\\n")
}
''')),
dict(id='bld-if-block-args',prop='B02',edits=[(B,'''			if directive == "if" {
''','''			if directive == "if" && stmt.IsBlock() {
''')],
 needs='an `if` that has no block', breaks='its arguments lose their parentheses',
 test=T('''func TestZZDemo(t *testing.T) {
	zzBuild(t, Directives{{Directive: "if", Line: 1, Args: []string{"$a"}}}, BuildOptions{}, "if ($a);")
}
''')),
dict(id='bld-comment-first',prop='B02',edits=[(B,'''		if i != 0 || parent != nil {
''','''		if i != 0 || parent != nil && !stmt.IsComment() {
''')],
 needs='a block that starts with a comment on a line of its own', breaks='the comment follows the brace directly',
 test=T('''func TestZZDemo(t *testing.T) {
	s := " c"
	zzBuild(t, Directives{{Directive: "a", Line: 1, Block: Directives{{Directive: "#", Line: 2, Comment: &s}}}}, BuildOptions{}, "a {\\n    # c\\n}")
}
''')),
dict(id='bld-first-builder',prop='B05',edits=[(B,'''	for _, s := range rb.directives {
		o.extBuilders[s] = rb.b
	}
''','''	for _, s := range rb.directives {
		if _, ok := o.extBuilders[s]; !ok {
			o.extBuilders[s] = rb.b
		}
	}
''')],
 needs='two builders for one directive', breaks='the first one is used, not the last one',
 test=T('''func TestZZDemo(t *testing.T) {
	zzBuild(t, Directives{{Directive: "a", Line: 1}}, BuildOptions{Builders: []RegisterBuilder{BuildWithBuilder(zzB{"x"}, "a"), BuildWithBuilder(zzB{"y"}, "b", "a")}}, "y")
}
''')),
dict(id='bld-map-replaced',prop='B05',edits=[(B,'''	if o.extBuilders == nil {
		o.extBuilders = make(map[string]Builder)
	}
''','''	if len(o.extBuilders) < len(rb.directives) {
		o.extBuilders = make(map[string]Builder, len(rb.directives))
	}
''')],
 needs='two options for builders, the later one for more directives than were registered before', breaks='the builders that were registered first are dropped',
 test=T('''func TestZZDemo(t *testing.T) {
	zzBuild(t, Directives{{Directive: "a", Line: 1}}, BuildOptions{Builders: []RegisterBuilder{BuildWithBuilder(zzB{"x"}, "a"), BuildWithBuilder(zzB{"y"}, "b", "c")}}, "x")
}
''')),
dict(id='bld-empty-skipped',prop='B04',edits=[(B,'''		path := config.File
		if !filepath.IsAbs(path) {
''','''		path := config.File
		if len(config.Parsed) == 0 {
			continue
		}
		if !filepath.IsAbs(path) {
''')],
 needs='a payload with a config that has no directives', breaks='its file is not written, or keeps what it held',
 test=T('''func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	if err := BuildFiles(Payload{Config: []Config{{File: "a"}}}, dir, &BuildOptions{}); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(filepath.Join(dir, "a")); err != nil {
		t.Fatal(err)
	}
}
''')),
dict(id='bld-append-file',prop='B04',edits=[(B,'''		f, err := os.Create(path)
''','''		f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)
''')],
 needs='a file that is there already and is longer than what is written', breaks='the end of the old file is left behind the new one',
 test=T('''func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	p := filepath.Join(dir, "a")
	if err := os.WriteFile(p, []byte(strings.Repeat("old;\\n", 9)), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := BuildFiles(Payload{Config: []Config{{File: "a", Parsed: Directives{{Directive: "x", Line: 1}}}}}, dir, &BuildOptions{}); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(p); string(b) != "x;\\n" {
		t.Fatalf("%q", b)
	}
}
''')),
dict(id='bld-trim-both',prop='B04',edits=[(B,'''append(bytes.TrimRightFunc(buf.Bytes(), unicode.IsSpace), '\\n')''','''append(bytes.TrimFunc(buf.Bytes(), unicode.IsSpace), '\\n')''')],
 needs='a registered builder whose text starts with whitespace', breaks='the whitespace at the start of the file is lost',
 test=T('''func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	o := BuildOptions{Builders: []RegisterBuilder{BuildWithBuilder(zzB{"\\n  x"}, "a")}}
	if err := BuildFiles(Payload{Config: []Config{{File: "a", Parsed: Directives{{Directive: "a", Line: 1}}}}}, dir, &o); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(filepath.Join(dir, "a")); string(b) != "\\n  x\\n" {
		t.Fatalf("%q", b)
	}
}
''')),
dict(id='bld-close-error',prop='B03',edits=[(B,'''		if err := wc.Close(); err != nil {
			return err
		}
''','''		if err := wc.Close(); err != nil && !errors.Is(err, os.ErrClosed) {
			return err
		}
'''),(B,'import (\n','import (\n\t"errors"\n')],
 needs='a creator whose file reports when it is closed that it was closed already', breaks='the error is dropped',
 test=T('''func TestZZDemo(t *testing.T) {
	c := zzC{func(p string) (io.WriteCloser, error) { return &zzW{cerr: os.ErrClosed}, nil }}
	if err := BuildInto(&Payload{Config: []Config{{File: "a"}}}, c, &BuildOptions{}); err == nil {
		t.Fatal("no error")
	}
}
''')),
dict(id='bld-header-error',prop='B03',edits=[(B,'''		_, err := w.Write([]byte(header))
		if err != nil {
			return err
		}
''','''		if _, err := w.Write([]byte(header)); err == io.ErrClosedPipe {
			return err
		}
''')],
 needs='a writer that fails once, while the header is written', breaks='the error is dropped and the header missing',
 test=T('''type zzOnce struct{ n int }

func (w *zzOnce) Write(p []byte) (int, error) {
	w.n++
	if w.n == 1 {
		return 0, errors.New("full")
	}
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	if err := Build(&zzOnce{}, Config{Parsed: Directives{{Directive: "x", Line: 1}}}, &BuildOptions{Header: true}); err == nil {
		t.Fatal("no error")
	}
}
''')),
]
