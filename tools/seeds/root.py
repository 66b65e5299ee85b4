PRE='''package crossplane

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"testing"
)

type zzFS map[string]string

func (f zzFS) open(p string) (io.ReadCloser, error) {
	if s, ok := f[p]; ok {
		return io.NopCloser(strings.NewReader(s)), nil
	}
	return nil, os.ErrNotExist
}

func zzDump(ds Directives) string {
	var b strings.Builder
	for _, d := range ds {
		fmt.Fprintf(&b, "%s%q@%d", d.Directive, d.Args, d.Line)
		if d.Comment != nil {
			fmt.Fprintf(&b, "#%s", *d.Comment)
		}
		if len(d.Includes) > 0 {
			fmt.Fprintf(&b, "%v", d.Includes)
		}
		if d.Block != nil {
			fmt.Fprintf(&b, "{%s}", zzDump(d.Block))
		}
		b.WriteString(" ")
	}
	return b.String()
}

func zzParse(t *testing.T, f zzFS, o ParseOptions) (*Payload, error) {
	o.Open = f.open
	return Parse("/n/main", &o)
}

func zzWant(t *testing.T, f zzFS, o ParseOptions, want string) {
	p, err := zzParse(t, f, o)
	if err != nil {
		t.Fatal(err)
	}
	var b strings.Builder
	for _, c := range p.Config {
		fmt.Fprintf(&b, "%s: %s", c.File, zzDump(c.Parsed))
		for _, e := range c.Errors {
			fmt.Fprintf(&b, "!%s", e.Error)
			if e.Line != nil {
				fmt.Fprintf(&b, "@%d", *e.Line)
			}
		}
	}
	if got := b.String(); got != want {
		t.Errorf("got  %s\\nwant %s", got, want)
	}
}

var _ = json.Marshal
var _ = errors.Is
'''
def T(body): return PRE+"\nfunc TestZZDemo(t *testing.T) {\n"+body+"\n}\n"
SEEDS=[
dict(id="root-unreadable-skipped",prop="R03",
 edits=[("parse.go",'''		if err != nil {
			return nil, err
		}

		defer file.Close()''','''		if err != nil && errors.Is(err, os.ErrPermission) && len(payload.Config) > 0 {
			continue
		}
		if err != nil {
			return nil, err
		}

		defer file.Close()''')],
 needs="a file that matches the pattern of an include but may not be read",
 breaks="the file is left out silently and the files after it have the wrong numbers",
 test=T('''	fs := zzFS{"/n/main": "include /n/*.conf;", "/n/b.conf": "events { }"}
	o := ParseOptions{Glob: func(string) ([]string, error) { return []string{"/n/a.conf", "/n/b.conf"}, nil }}
	o.Open = func(p string) (io.ReadCloser, error) {
		if p == "/n/a.conf" {
			return nil, os.ErrPermission
		}
		return fs.open(p)
	}
	if _, err := Parse("/n/main", &o); err == nil {
		t.Error("no error")
	}''')),
dict(id="root-context-deep",prop="R01",
 edits=[("parse.go",'''		parsed, err := p.parse(&config, tokens, incl.ctx, false)''','''		ctx := incl.ctx
		if len(ctx) > 3 {
			ctx = ctx[:3]
		}
		parsed, err := p.parse(&config, tokens, ctx, false)''')],
 needs="an include that is more than three blocks deep",
 breaks="the directives of the included file are analysed in the context of an outer block",
 test=T('''	fs := zzFS{"/n/main": "http { server { if ($a) { x { include f; } } } }", "/n/f": "server_name a;"}
	pl, err := zzParse(t, fs, ParseOptions{})
	if err != nil || pl.Status != "ok" {
		t.Error(err, pl)
	}''')),
dict(id="root-callback-no-line",prop="R02",
 edits=[("parse.go",'''		if options.ErrorCallback != nil {''','''		if options.ErrorCallback != nil && line != nil {''')],
 needs="an error without a line, such as that of an invalid pattern of Glob or of a reader that fails",
 breaks="ErrorCallback is not called for it",
 test=T('''	n := 0
	o := ParseOptions{ErrorCallback: func(error) interface{} { n++; return n }}
	o.Glob = func(string) ([]string, error) { return nil, io.ErrUnexpectedEOF }
	if pl, err := zzParse(t, zzFS{"/n/main": "include *.conf;"}, o); err == nil && n != len(pl.Errors) {
		t.Error(n)
	}''')),
dict(id="root-error-dedup",prop="R02",
 edits=[("parse.go",'''		config.Errors = append(config.Errors, cerr)
''','''		if l := len(config.Errors); l == 0 || config.Errors[l-1].Error.Error() != err.Error() {
			config.Errors = append(config.Errors, cerr)
		}
''')],
 needs="the same error twice in a row in one file, such as the same bad statement twice on a line",
 breaks="the config lists it once, the payload twice",
 test=T('''	pl, err := zzParse(t, zzFS{"/n/main": "events; events;"}, ParseOptions{})
	if err != nil || len(pl.Config[0].Errors) != 2 || len(pl.Errors) != 2 {
		t.Error(err, pl.Config, pl.Errors)
	}''')),
dict(id="root-stop-included",prop="R02",
 edits=[("parse.go",'''			if options.StopParsingOnError {
				return nil, err
			}
			handleError(&config, err)''','''			if options.StopParsingOnError && len(payload.Config) == 0 {
				return nil, err
			}
			handleError(&config, err)''')],
 needs="StopParsingOnError and an error in an included file",
 breaks="Parse goes on and returns a payload",
 test=T('''	if _, err := zzParse(t, zzFS{"/n/main": "include a;", "/n/a": "events;"}, ParseOptions{StopParsingOnError: true}); err == nil {
		t.Error("no error")
	}''')),
dict(id="root-cycle-failed",prop="R03",
 edits=[("parse.go",'''	if p.isAcyclic() {''','''	if payload.Status == "ok" && p.isAcyclic() {''')],
 needs="includes that form a cycle and an error in one of the files",
 breaks="Parse returns a payload whose includes are cyclic",
 test=T('''	if _, err := zzParse(t, zzFS{"/n/main": "include a;", "/n/a": "include main; events;"}, ParseOptions{}); err == nil {
		t.Error("no error")
	}''')),
dict(id="root-close-on-success",prop="R04",
 edits=[("parse.go",'''		defer file.Close()

''',''),("parse.go",'''			handleError(&config, err)
		} else {
			config.Parsed = parsed
		}
''','''			handleError(&config, err)
		} else {
			config.Parsed = parsed
			file.Close()
		}
''')],
 needs="a file whose parsing ends with an error",
 breaks="the file is not closed",
 test=T('''	open := 0
	fs := zzFS{"/n/main": "http {"}
	_, _ = Parse("/n/main", &ParseOptions{Open: func(p string) (io.ReadCloser, error) {
		f, err := fs.open(p)
		open++
		return zzCloser{f, &open}, err
	}})
	if open != 0 {
		t.Error(open)
	}''')+'''
type zzCloser struct {
	io.ReadCloser
	n *int
}

func (c zzCloser) Close() error { *c.n--; return nil }
'''),
]
