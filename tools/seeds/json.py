PRE='''package crossplane

import (
	"encoding/json"
	"testing"
)

func zzJSON(t *testing.T, v interface{}) string {
	t.Helper()
	b, err := json.Marshal(v)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func zzWant(t *testing.T, v interface{}, want string) {
	t.Helper()
	if got := zzJSON(t, v); got != want {
		t.Fatalf("%s, want %s", got, want)
	}
}

'''
Y='types.go'
def T(body): return PRE+body
SEEDS=[
dict(id='json-map-flag',prop='E02',edits=[(Y,'`json:"mapBlockParameter,omitempty"`','`json:"-"`')],
 needs='a payload with a map block that goes through JSON', breaks='the parameters of the block lose their mark',
 test=T('''func TestZZDemo(t *testing.T) {
	zzWant(t, &Directive{Directive: "a", Line: 1, Args: []string{}, IsMapBlockParameter: true}, `{"directive":"a","line":1,"args":[],"mapBlockParameter":true}`)
	zzWant(t, &Directive{Directive: "a", Line: 1, Args: []string{}}, `{"directive":"a","line":1,"args":[]}`)
}
''')),
dict(id='json-line-omitted',prop='E02',edits=[(Y,'''	Line     *int        `json:"line"`
''','''	Line     *int        `json:"line,omitempty"`
''')],
 needs='an error without a line', breaks='the error of a payload has no key for the line',
 test=T('''func TestZZDemo(t *testing.T) {
	zzWant(t, PayloadError{File: "f"}, `{"file":"f","line":null,"error":null}`)
}
''')),
dict(id='json-args-omitted',prop='E02',edits=[(Y,'''	Args      []string   `json:"args"`
''','''	Args      []string   `json:"args,omitempty"`
''')],
 needs='a directive without arguments', breaks='its JSON has no arguments, and they are nil when it is read',
 test=T('''func TestZZDemo(t *testing.T) {
	zzWant(t, &Directive{Directive: "a", Line: 1, Args: []string{"b"}}, `{"directive":"a","line":1,"args":["b"]}`)
	zzWant(t, &Directive{Directive: "a", Line: 1, Args: []string{}}, `{"directive":"a","line":1,"args":[]}`)
}
''')),
dict(id='json-comment-string',prop='E02',edits=[(Y,'''	Comment   *string    `json:"comment,omitempty"`
''','''	Comment   *string    `json:"comment"`
''')],
 needs='a directive that is no comment', breaks='it has a comment in JSON',
 test=T('''func TestZZDemo(t *testing.T) {
	c := ""
	zzWant(t, &Directive{Directive: "#", Line: 1, Args: []string{}, Comment: &c}, `{"directive":"#","line":1,"args":[],"comment":""}`)
	zzWant(t, &Directive{Directive: "a", Line: 1, Args: []string{}}, `{"directive":"a","line":1,"args":[]}`)
}
''')),
dict(id='json-error-what',prop='E02',edits=[('errors.go','''	return json.Marshal(e.Error())
''','''	if e.Line == nil {
		return json.Marshal(e.What)
	}
	return json.Marshal(e.Error())
''')],
 needs='an error without a line', breaks='its JSON does not name the file',
 test=T('''func TestZZDemo(t *testing.T) {
	f, l := "f", 3
	zzWant(t, &ParseError{What: "w", File: &f, Line: &l}, `"w in f:3"`)
	zzWant(t, &ParseError{What: "w", File: &f}, `"w in f"`)
}
''')),
]
