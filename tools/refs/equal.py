T='types.go'
SRC=open('/repo/types.go').read()
a=SRC.index('func (d *Directive) Equal('); EQ=SRC[a:SRC.index('\n}\n',a)+3]
a=SRC.index('func equals('); EQS=SRC[a:SRC.index('\n}\n',a)+3]
a=SRC.index('func strPtrEqual('); PTR=SRC[a:SRC.index('\n}\n',a)+3]
LOOPS=EQ[EQ.index('	for i, inc'):EQ.index('	return true\n}\n')]
SW=EQ[EQ.index('	switch {'):EQ.index('	for i, inc')]
MUTS=[
('reverse',(T,LOOPS,'''	for i := len(a.Includes) - 1; i >= 0; i-- {
		if a.Includes[i] != d.Includes[i] {
			return false
		}
	}
	for i := len(a.Block); i > 0; i-- {
		if !d.Block[i-1].Equal(a.Block[i-1]) {
			return false
		}
	}
''')),
('classic',(T,LOOPS,'''	for i := 0; i < len(d.Includes); i++ {
		if a.Includes[i] != d.Includes[i] {
			return false
		}
	}
	i := 0
	for i < len(a.Block) {
		if !d.Block[i].Equal(a.Block[i]) {
			return false
		}
		i++
	}
''')),
('switch',(T,SW,'''	if a.Directive != d.Directive || a.Line != d.Line || a.File != d.File || a.IsMapBlockParameter != d.IsMapBlockParameter {
		return false
	}
	if len(a.Block) != len(d.Block) || len(a.Includes) != len(d.Includes) {
		return false
	}
	if !equals(a.Args, d.Args) || !strPtrEqual(a.Comment, d.Comment) {
		return false
	}
''')),
('slices',(T,'equals(a.Args, d.Args)','slices.Equal(a.Args, d.Args)'),(T,EQS,''),(T,'	"fmt"\n','	"fmt"\n	"slices"\n')),
('helpers',(T,LOOPS+'	return true\n','''	return sameIncludes(a.Includes, d.Includes) && a.Block.same(d.Block)
'''),(T,EQS,EQS+'''
func sameIncludes(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (ds Directives) same(other Directives) bool {
	if len(ds) != len(other) {
		return false
	}
	for i, d := range ds {
		if !other[i].Equal(d) {
			return false
		}
	}
	return true
}
''')),
('flag',(T,LOOPS+'	return true\n','''	same := true
	for i, inc := range a.Includes {
		if inc != d.Includes[i] {
			same = false
			break
		}
	}
	for i := 0; same && i < len(a.Block); i++ {
		same = a.Block[i].Equal(d.Block[i])
	}
	return same
''')),
('ptr',(T,PTR,'''func strPtrEqual(a, b *string) bool {
	if a == nil {
		return b == nil
	}
	return b != nil && *a == *b
}
''')),
('generic',(T,EQS,'''func sameList[E comparable](a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	for i, x := range a {
		if x != b[i] {
			return false
		}
	}
	return true
}
'''),(T,'!equals(a.Args, d.Args)','!sameList(a.Args, d.Args)'),(T,'''	for i, inc := range a.Includes {
		if inc != d.Includes[i] {
			return false
		}
	}
''',''),(T,'len(a.Includes) != len(d.Includes)','!sameList(a.Includes, d.Includes)')),
('equalfunc',(T,'''	for i, dir := range a.Block {
		if !dir.Equal(d.Block[i]) {
			return false
		}
	}
	return true
''','''	return slices.EqualFunc(a.Block, d.Block, (*Directive).Equal)
'''),(T,'	"fmt"\n','	"fmt"\n	"slices"\n')),
('differs',(T,LOOPS,'''	for i, inc := range a.Includes {
		if inc != d.Includes[i] {
			return false
		}
	}
	for i, dir := range a.Block {
		other := d.Block[i]
		if dir == other {
			continue
		}
		if !dir.Equal(other) {
			return false
		}
	}
''')),
('join',(T,EQS,'''func equals(a, b []string) bool {
	n := len(a)
	if n != len(b) {
		return false
	}
	for n > 0 {
		n--
		if a[n] != b[n] {
			return false
		}
	}
	return true
}
''')),
]
