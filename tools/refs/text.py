T='types.go'; R='errors.go'
SRC=open('/repo/errors.go').read()
a=SRC.index('func (e *ParseError) Error('); ER=SRC[a:SRC.index('\n}\n',a)+3]
MUTS=[
('builder',(R,ER,'''func (e *ParseError) Error() string {
	var b strings.Builder
	b.WriteString(e.What)
	b.WriteString(" in ")
	if e.File == nil {
		b.WriteString("(nofile)")
	} else {
		b.WriteString(*e.File)
	}
	if e.Line != nil {
		b.WriteByte(':')
		b.WriteString(strconv.Itoa(*e.Line))
	}
	return b.String()
}
'''),(R,'	"fmt"\n','	"strconv"\n	"strings"\n')),
('concat',(R,ER,'''func (e *ParseError) Error() string {
	return e.What + " in " + e.where()
}

func (e *ParseError) where() string {
	file := "(nofile)"
	if f := e.File; f != nil {
		file = *f
	}
	if e.Line == nil {
		return file
	}
	return fmt.Sprintf("%s:%v", file, *e.Line)
}
''')),
('sprint',(R,'''	return fmt.Sprintf("%s in %s", e.What, file)
''','''	return fmt.Sprint(e.What, " in ", file)
''')),
('early',(T,'''	return d.Directive == "include" && d.Includes != nil
''','''	if d.Includes == nil {
		return false
	}
	return strings.Compare(d.Directive, "include") == 0
''')),
('switch',(T,'''	return d.Directive == "#" && d.Comment != nil
''','''	switch d.Directive {
	case "#":
		return !(d.Comment == nil)
	default:
		return false
	}
''')),
('has',(T,'''	return d.Block != nil
''','''	return hasBlock(&d)
'''),(T,'// IsInclude returns','''func hasBlock(d *Directive) bool { return d.Block != nil }

// IsInclude returns''')),
]
