PRE='''package crossplane

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"
)

var _ = bytes.NewBuffer
var _ = fmt.Sprint
var _ = reflect.DeepEqual

func zzParse(in string, o ParseOptions) string {
	o.Open = func(string) (io.ReadCloser, error) { return io.NopCloser(strings.NewReader(in)), nil }
	p, err := Parse("/n/main", &o)
	if err != nil {
		return err.Error()
	}
	s := p.Status
	for _, e := range p.Errors {
		s += "|" + e.Error.Error()
	}
	for _, d := range p.Config[0].Parsed {
		s += "|" + d.String()
	}
	return s
}

func TestZZDemo(t *testing.T) {
'''
A='analyze.go'; P='parse.go'; B='build.go'; L='lua.go'; U='util.go'; X='lex.go'
SEEDS=[
dict(id='mem-masks-of-source',prop='X02',edits=[(A,'''			masks = append(masks, masksInFn...)
''','''			if masks == nil {
				masks = masksInFn
			} else {
				masks = append(masks, masksInFn...)
			}
''')],
 needs='two sources, of which the first returns a part of a longer list', breaks='masks behind the end of what a source returned are overwritten',
 test=PRE+'''	all := []uint{ngxMainConf | ngxConfTake1, ngxMainConf | ngxConfTake2}
	one := func(d string) ([]uint, bool) {
		if d == "a" {
			return all[:1], true
		}
		return all[1:], d == "b"
	}
	two := func(d string) ([]uint, bool) { return []uint{ngxMainConf | ngxConfTake3}, d == "a" }
	o := ParseOptions{DirectiveSources: []MatchFunc{one, two}}
	if s := zzParse("a x; b x y;", o); !strings.HasPrefix(s, "ok") {
		t.Error(s)
	}
}
'''),
dict(id='mem-combine-shares',prop='X02',edits=[(U,'			dir := *d\n','			dir := d\n'),(U,'c <- included{directive: &dir}','c <- included{directive: dir}')],
 needs='an include within a block, and a payload that is used after it was combined', breaks='Combined changes the payload it is called on',
 test=PRE+'''	p := &Payload{Config: []Config{
		{File: "a", Parsed: Directives{{Directive: "http", Args: []string{}, Block: Directives{{Directive: "include", Args: []string{"b"}, Includes: []int{1}}}}}},
		{File: "b", Parsed: Directives{{Directive: "x", Args: []string{}}}},
	}}
	if _, err := p.Combined(); err != nil {
		t.Fatal(err)
	}
	if d := p.Config[0].Parsed[0].Block[0].Directive; d != "include" {
		t.Errorf("the payload now has %s", d)
	}
}
'''),
dict(id='mem-quoted-arguments',prop='X02',edits=[(B,'''				for i, arg := range stmt.Args {
					if i > 0 {
						_, _ = sb.WriteString(" ")
					}
					_, _ = sb.WriteString(Enquote(arg))
				}
''','''				for i := range stmt.Args {
					stmt.Args[i] = Enquote(stmt.Args[i])
				}
				_, _ = sb.WriteString(strings.Join(stmt.Args, " "))
''')],
 needs='an if with an argument that needs quotes, and a config that is used after it was built', breaks='Build changes the arguments of the statements',
 test=PRE+'''	c := Config{Parsed: Directives{{Directive: "if", Args: []string{"b c"}}}}
	if err := Build(&bytes.Buffer{}, c, &BuildOptions{}); err != nil {
		t.Fatal(err)
	}
	if a := c.Parsed[0].Args[0]; a != "b c" {
		t.Errorf("the argument is now %s", a)
	}
}
'''),
dict(id='eff-include-set',prop='X03',edits=[(P,'''			for _, fname := range fnames {
				// the included set keeps''','''			if len(fnames) > 8 { // a file may be listed twice
				names := map[string]bool{}
				for _, fname := range fnames {
					names[fname] = true
				}
				fnames = fnames[:0:0]
				for fname := range names {
					fnames = append(fnames, fname)
				}
			}
			for _, fname := range fnames {
				// the included set keeps''')],
 needs='a pattern that more than eight files match', breaks='the order of the configs and includes differs from run to run',
 test=PRE+'''	run := func() string {
		p, err := Parse("/m", &ParseOptions{
			Open: func(s string) (io.ReadCloser, error) {
				if s == "/m" {
					return io.NopCloser(strings.NewReader("include /x/*;")), nil
				}
				return io.NopCloser(strings.NewReader(" a;")), nil
			},
			Glob: func(string) ([]string, error) { return []string{"/x/a", "/x/b", "/x/c", "/x/d", "/x/e", "/x/f", "/x/g", "/x/h", "/x/i"}, nil },
		})
		if err != nil {
			t.Fatal(err)
		}
		s := ""
		for _, c := range p.Config {
			s += c.File + "|"
		}
		return s
	}
	first := run()
	for i := 0; i < 50; i++ {
		if s := run(); s != first {
			t.Fatalf("%s, then %s", first, s)
		}
	}
}
'''),
dict(id='eff-sources-at-once',prop='X03',edits=[(A,'''	for _, matchFn := range options.DirectiveSources {
		if masksInFn, found := matchFn(directiveName); found {
			masks = append(masks, masksInFn...)
			knownDirective = true
		}
	}
''','''	found := make(chan []uint)
	for _, matchFn := range options.DirectiveSources {
		go func(match MatchFunc) {
			ms, ok := match(directiveName)
			if ok && ms == nil {
				ms = []uint{}
			} else if !ok {
				ms = nil
			}
			found <- ms
		}(matchFn)
	}
	for range options.DirectiveSources {
		if ms := <-found; ms != nil {
			masks = append(masks, ms...)
			knownDirective = true
		}
	}
''')],
 needs='two sources that know a directive, and a statement that breaks the rules of both in different ways', breaks='which error is reported depends on the schedule',
 test=PRE.replace('"testing"\n','"testing"\n	"time"\n')+'''	slow := false
	one := func(d string) ([]uint, bool) {
		if slow {
			time.Sleep(20 * time.Millisecond)
		}
		return []uint{ngxMainConf | ngxConfTake2}, true
	}
	two := func(d string) ([]uint, bool) {
		if !slow {
			time.Sleep(20 * time.Millisecond)
		}
		return []uint{ngxMainConf | ngxConfBlock | ngxConfTake1}, true
	}
	o := ParseOptions{DirectiveSources: []MatchFunc{one, two}}
	first := zzParse("a x;", o)
	slow = true
	if s := zzParse("a x;", o); s != first {
		t.Fatalf("%s, then %s", first, s)
	}
}
'''),
dict(id='eff-late-registration',prop='X04',edits=[(X,'''	for _, o := range options.Lexers {
		o.applyLexOptions(&options)
	}

	tc := make(chan NgxToken, tokChanCap)
	go tokenize(r, tc, options)
	return tc
''','''	first := len(options.Lexers)
	if first > 1 {
		first = 1
	}
	for _, o := range options.Lexers[:first] {
		o.applyLexOptions(&options)
	}

	tc := make(chan NgxToken, tokChanCap)
	go func() { tokenize(r, tc, options) }()
	for _, o := range options.Lexers[first:] {
		o.applyLexOptions(&options)
	}
	return tc
''')],
 needs='the goroutine starts before the second lexer is registered', breaks='the lexer reads the options while they are written',
 test=PRE.replace('func TestZZDemo','''type zzSlow struct{ l RegisterLexer }

func (s zzSlow) applyLexOptions(o *LexOptions) {
	for i := 0; i < 20; i++ {
		time.Sleep(time.Millisecond)
	}
	s.l.applyLexOptions(o)
}

type zzLexer struct{}

func (zzLexer) Lex(s *SubScanner, m string) <-chan NgxToken {
	c := make(chan NgxToken)
	go func() {
		defer close(c)
		for s.Scan() && s.Text() != ";" {
		}
		c <- NgxToken{Value: ";"}
	}()
	return c
}

func TestZZDemo''').replace('"testing"\n','"testing"\n	"time"\n')+'''	n := 0
	for range LexWithOptions(strings.NewReader("x y; a b c;"), LexOptions{Lexers: []RegisterLexer{LexWithLexer(zzLexer{}, "z"), zzSlow{LexWithLexer(zzLexer{}, "a")}}}) {
		n++
	}
	if n != 5 {
		t.Errorf("%d tokens", n)
	}
}
'''),
dict(id='eff-errors-aside',prop='X04',edits=[(U,'''	for _, config := range old.Config {
		combined.Errors = append(combined.Errors, config.Errors...)
		if config.Status == "failed" {
			combined.Status = "failed"
		}
	}
''','''	gather := func() {
		for _, config := range old.Config {
			combined.Errors = append(combined.Errors, config.Errors...)
			if config.Status == "failed" {
				combined.Status = "failed"
			}
		}
	}
	if len(old.Config) > 1000 {
		go gather() // meanwhile the includes are expanded
	} else {
		gather()
	}
''')],
 needs='a payload with many configs and few includes', breaks='Combined returns before the errors are gathered, while they are still written',
 test=PRE+'''	p := &Payload{Config: make([]Config, 20000)}
	for i := range p.Config {
		p.Config[i].Errors = []ConfigError{{Error: io.EOF}}
	}
	c, err := p.Combined()
	if err != nil {
		t.Fatal(err)
	}
	if n := len(c.Config[0].Errors); n != 20000 {
		t.Errorf("%d errors", n)
	}
}
'''),
dict(id='mem-margin-grows',prop='X02',race=True,edits=[(B,'''	return strings.Repeat(" ", options.Indent*depth)
''','''	if indent > len(marginSpaces) {
		marginSpaces = strings.Repeat(" ", 2*indent)
	}
	return marginSpaces[:indent]
''')],
 needs='two goroutines that build configs with an indentation beyond 100', breaks='a package-level variable is written without synchronisation',
 test=PRE+'''	c := Config{Parsed: Directives{{Directive: "a", Block: Directives{{Directive: "b", Block: Directives{{Directive: "c"}}}}}}}
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func(i int) {
			for n := 60; n < 90; n++ {
				_ = Build(&bytes.Buffer{}, c, &BuildOptions{Indent: n})
			}
			done <- true
		}(i)
	}
	for i := 0; i < 4; i++ {
		<-done
	}
}
'''),
dict(id='mem-combine-fills-in',prop='X02',edits=[(U,'''	status := old.Status
	if status == "" {
		status = "ok"
	}
''','''	if old.Status == "" {
		old.Status = "ok"
	}
	status := old.Status
''')],
 needs='a payload made without a status', breaks='Combined sets the status of the payload that it is called on',
 test=PRE+'''	p := &Payload{Config: []Config{{File: "a"}}}
	if _, err := p.Combined(); err != nil {
		t.Fatal(err)
	}
	if p.Status != "" {
		t.Errorf("the status is now %s", p.Status)
	}
}
'''),
]
