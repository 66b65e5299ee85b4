PRE='''package crossplane

import "testing"

func zzEq(t *testing.T, want bool, a, b *Directive) {
	t.Helper()
	if a.Equal(b) != want || b.Equal(a) != want {
		t.Fatalf("%+v and %+v: equal %v, want %v", a, b, a.Equal(b), want)
	}
}

'''
Y='types.go'
def T(body): return PRE+body
SEEDS=[
dict(id='equal-args-joined',prop='E01',edits=[(Y,'''	for i, x := range a {
		if x != b[i] {
			return false
		}
	}
	return true
}

// strPtr''','''	return strings.Join(a, " ") == strings.Join(b, " ")
}

// strPtr''')],
 needs='arguments with blanks inside, divided at another place', breaks='directives with other arguments are equal',
 test=T('''func TestZZDemo(t *testing.T) {
	zzEq(t, true, &Directive{Args: []string{"a b", "c"}}, &Directive{Args: []string{"a b", "c"}})
	zzEq(t, false, &Directive{Args: []string{"a b", "c"}}, &Directive{Args: []string{"a", "b c"}})
}
''')),
dict(id='equal-includes-order',prop='E01',edits=[(Y,'''	for i, inc := range a.Includes {
		if inc != d.Includes[i] {
			return false
		}
	}
''','''	seen := map[int]bool{}
	for _, inc := range a.Includes {
		seen[inc] = true
	}
	for _, inc := range d.Includes {
		if !seen[inc] {
			return false
		}
	}
''')],
 needs='includes of the same configs in another order', breaks='the directives are equal though they include in another order',
 test=T('''func TestZZDemo(t *testing.T) {
	zzEq(t, true, &Directive{Includes: []int{1, 2}}, &Directive{Includes: []int{1, 2}})
	zzEq(t, false, &Directive{Includes: []int{1, 2}}, &Directive{Includes: []int{2, 1}})
}
''')),
dict(id='equal-skips-comments',prop='E01',edits=[(Y,'''		if !dir.Equal(d.Block[i]) {
''','''		if dir != nil && dir.IsComment() {
			continue
		}
		if !dir.Equal(d.Block[i]) {
''')],
 needs='a comment in a block where the other has another one', breaks='blocks with other comments are equal',
 test=T('''func TestZZDemo(t *testing.T) {
	c, e := "one", "two"
	zzEq(t, true, &Directive{Block: Directives{{Directive: "#", Comment: &c}}}, &Directive{Block: Directives{{Directive: "#", Comment: &c}}})
	zzEq(t, false, &Directive{Block: Directives{{Directive: "#", Comment: &c}}}, &Directive{Block: Directives{{Directive: "#", Comment: &e}}})
}
''')),
dict(id='equal-comment-empty',prop='E01',edits=[(Y,'''	if a == nil || b == nil {
		return false
	}
	return *a == *b
''','''	if a == nil {
		return *b == ""
	}
	if b == nil {
		return *a == ""
	}
	return *a == *b
''')],
 needs='an empty comment and no comment', breaks='a directive without comment equals one with an empty comment',
 test=T('''func TestZZDemo(t *testing.T) {
	c := ""
	zzEq(t, true, &Directive{Comment: &c}, &Directive{Comment: &c})
	zzEq(t, false, &Directive{Comment: &c}, &Directive{})
}
''')),
dict(id='equal-file-case',prop='E01',edits=[(Y,'a.File != d.File','!strings.EqualFold(a.File, d.File)')],
 needs='files whose names differ only in case', breaks='directives of different files are equal',
 test=T('''func TestZZDemo(t *testing.T) {
	zzEq(t, true, &Directive{File: "a"}, &Directive{File: "a"})
	zzEq(t, false, &Directive{File: "a"}, &Directive{File: "A"})
}
''')),
]
