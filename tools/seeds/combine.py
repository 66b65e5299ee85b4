PRE='''package crossplane

import (
	"errors"
	"reflect"
	"testing"
)

var _ = errors.New
var _ = reflect.DeepEqual

func zzCombined(t *testing.T, p Payload) *Payload {
	t.Helper()
	c, err := p.Combined()
	if err != nil {
		t.Fatal(err)
	}
	return c
}

'''
U='util.go'
def T(b): return PRE+b
SEEDS=[
dict(id='cmb-status-of-last',prop='K02',edits=[(U,'''		if config.Status == "failed" {
			combined.Status = "failed"
		}''','''		if config.Status != "" {
			combined.Status = config.Status
		}''')],
 needs='a config that failed, followed by one that did not', breaks='the combined config has the status of the last one',
 test=T('''func TestZZDemo(t *testing.T) {
	c := zzCombined(t, Payload{Status: "failed", Config: []Config{{File: "a", Status: "failed"}, {File: "b", Status: "ok"}}})
	if c.Config[0].Status != "failed" {
		t.Fatal(c.Config[0].Status)
	}
}
''')),
dict(id='cmb-errors-order',prop='K02',edits=[(U,'combined.Errors = append(combined.Errors, config.Errors...)','combined.Errors = append(append([]ConfigError{}, config.Errors...), combined.Errors...)')],
 needs='errors in two files', breaks='the errors of later files come first',
 test=T('''func TestZZDemo(t *testing.T) {
	e1, e2 := errors.New("1"), errors.New("2")
	c := zzCombined(t, Payload{Config: []Config{{File: "a", Errors: []ConfigError{{Error: e1}}}, {File: "b", Errors: []ConfigError{{Error: e2}}}}})
	if es := c.Config[0].Errors; len(es) != 2 || es[0].Error != e1 || es[1].Error != e2 {
		t.Fatal(es)
	}
}
''')),
dict(id='cmb-errors-of-failed-only',prop='K02',edits=[(U,'''		combined.Errors = append(combined.Errors, config.Errors...)
		if config.Status == "failed" {
			combined.Status = "failed"
		}''','''		if config.Status != "failed" {
			continue
		}
		combined.Errors = append(combined.Errors, config.Errors...)
		combined.Status = "failed"''')],
 needs='a config with errors whose status is not failed, as programs that fill in payloads make it', breaks='its errors are lost',
 test=T('''func TestZZDemo(t *testing.T) {
	c := zzCombined(t, Payload{Config: []Config{{File: "a", Errors: []ConfigError{{Error: errors.New("1")}}}}})
	if es := c.Config[0].Errors; len(es) != 1 {
		t.Fatal(es)
	}
}
''')),
dict(id='cmb-error-file',prop='K01',edits=[(U,'range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed)','range performIncludes(old, fromfile, old.Config[idx].Parsed)')],
 needs='an include with a bad number in a file that is itself included', breaks='the error names the main file',
 test=T('''func TestZZDemo(t *testing.T) {
	p := Payload{Config: []Config{
		{File: "a", Parsed: Directives{{Directive: "include", Args: []string{"b"}, Includes: []int{1}}}},
		{File: "b", Parsed: Directives{{Directive: "include", Args: []string{"c"}, Line: 3, Includes: []int{9}}}},
	}}
	_, err := p.Combined()
	var pe *ParseError
	if !errors.As(err, &pe) || *pe.File != "b" {
		t.Fatal(err)
	}
}
''')),
dict(id='cmb-nested-error',prop='K01',edits=[(U,'''					if incl.err != nil {
						c <- incl
						return
					}
					nblock''','''					if incl.err != nil {
						break
					}
					nblock''')],
 needs='an include with a bad number inside a block', breaks='the error is dropped and the block cut off',
 test=T('''func TestZZDemo(t *testing.T) {
	p := Payload{Config: []Config{
		{File: "a", Parsed: Directives{{Directive: "http", Block: Directives{{Directive: "include", Args: []string{"c"}, Line: 3, Includes: []int{9}}}}}},
	}}
	if c, err := p.Combined(); err == nil {
		t.Fatal(c)
	}
}
''')),
dict(id='cmb-writes-payload',prop='K01',edits=[(U,'			dir := *d\n','			dir := d\n'),(U,'included{directive: &dir}','included{directive: dir}')],
 needs='the payload that was combined is used afterwards', breaks='the blocks of the payload itself lose their includes',
 test=T('''func TestZZDemo(t *testing.T) {
	p := Payload{Config: []Config{
		{File: "a", Parsed: Directives{{Directive: "http", Block: Directives{{Directive: "include", Args: []string{"b"}, Includes: []int{1}}}}}},
		{File: "b", Parsed: Directives{{Directive: "gzip", Args: []string{"on"}}}},
	}}
	zzCombined(t, p)
	if d := p.Config[0].Parsed[0].Block[0].Directive; d != "include" {
		t.Fatal(d)
	}
}
''')),
dict(id='cmb-include-of-nothing',prop='K01',edits=[(U,'			if !dir.IsInclude() {','			if len(dir.Includes) == 0 {')],
 needs='an include whose pattern matches no file', breaks='the include is kept in the combined config',
 test=T('''func TestZZDemo(t *testing.T) {
	c := zzCombined(t, Payload{Config: []Config{{File: "a", Parsed: Directives{{Directive: "include", Args: []string{"b*"}, Includes: []int{}}}}}})
	if ds := c.Config[0].Parsed; len(ds) != 0 {
		t.Fatal(ds)
	}
}
''')),
dict(id='cmb-empty-block',prop='K01',edits=[(U,'				nblock := Directives{}\n','				var nblock Directives\n')],
 needs='a block whose only contents are includes of empty files, or an empty block', breaks='it is a block no more: it is built as a simple directive',
 test=T('''func TestZZDemo(t *testing.T) {
	c := zzCombined(t, Payload{Config: []Config{{File: "a", Parsed: Directives{{Directive: "events", Block: Directives{}}}}}})
	if !c.Config[0].Parsed[0].IsBlock() {
		t.Fatal("no block")
	}
}
''')),
dict(id='cmb-include-once',prop='K01',edits=[(U,'			for _, idx := range dir.Includes {\n','			for i, idx := range dir.Includes {\n				if i > 0 && idx == dir.Includes[i-1] {\n					continue\n				}\n')],
 needs='an include whose numbers name the same config twice in a row', breaks='the file is expanded once only',
 test=T('''func TestZZDemo(t *testing.T) {
	c := zzCombined(t, Payload{Config: []Config{
		{File: "a", Parsed: Directives{{Directive: "include", Args: []string{"b"}, Includes: []int{1, 1}}}},
		{File: "b", Parsed: Directives{{Directive: "gzip", Args: []string{"on"}}}},
	}})
	if n := len(c.Config[0].Parsed); n != 2 {
		t.Fatal(n)
	}
}
''')),
]
