T='types.go'
SRC=open('/repo/types.go').read()
a=SRC.index('// MarshalJSON keeps'); MJ=SRC[a:SRC.index('\n}\n',a)+3]
MUTS=[
('omitzero',(T,MJ,''),(T,'json:"block,omitempty"','json:"block,omitzero"'),(T,'	"encoding/json"\n','')),
('pointer',(T,'	if d.Block == nil || len(d.Block) > 0 {\n','''	if d.Block != nil {
		return json.Marshal(struct {
			plain
			Block *Directives `json:"block,omitempty"`
		}{plain(d), &d.Block})
	}
	if d.Block == nil || len(d.Block) > 0 {
''')),
('switched',(T,MJ[MJ.index('	if d.Block'):],'''	if d.Block != nil {
		v := struct {
			plain
			Block Directives `json:"block"`
		}{plain: plain(d)}
		v.Block = d.Block
		return json.Marshal(v)
	}
	return json.Marshal(plain(d))
}
''')),
('checked',(T,'''		return json.Marshal(plain(d))
''','''		b, err := json.Marshal(plain(d))
		if err != nil {
			return nil, err
		}
		return b, nil
''')),
('alias',(T,'''	type plain Directive
''',''),(T,'// MarshalJSON keeps','''// plain is a directive without its methods.
type plain Directive

// MarshalJSON keeps''')),
('message',('errors.go','json.Marshal(e.Error())','json.Marshal(e.text())'),('errors.go','func (e *ParseError) Error() string {\n','''func (e *ParseError) Error() string { return e.text() }

func (e *ParseError) text() string {
''')),
('ptrptr',(T,'json.Marshal(plain(d))','json.Marshal((*plain)(&d))')),
]
