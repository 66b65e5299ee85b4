U='util.go'; P='parse.go'
BODY='''	b := 0
	e := len(d.Args) - 1
	if len(d.Args) > 0 && strings.HasPrefix(d.Args[0], "(") && strings.HasSuffix(d.Args[e], ")") {
		d.Args[0] = strings.TrimLeftFunc(strings.TrimPrefix(d.Args[0], "("), unicode.IsSpace)
		d.Args[e] = strings.TrimRightFunc(strings.TrimSuffix(d.Args[e], ")"), unicode.IsSpace)
		if len(d.Args[0]) == 0 {
			b++
		}
		if b <= e && len(d.Args[e]) == 0 {
			e--
		}
		d.Args = d.Args[b : e+1]
	}
	return d
'''
MUTS=[
('early',(U,BODY,'''	n := len(d.Args)
	if n == 0 || !strings.HasPrefix(d.Args[0], "(") || !strings.HasSuffix(d.Args[n-1], ")") {
		return d
	}
	d.Args[0] = strings.TrimLeftFunc(d.Args[0][1:], unicode.IsSpace)
	last := d.Args[n-1]
	d.Args[n-1] = strings.TrimRightFunc(last[:len(last)-1], unicode.IsSpace)
	if d.Args[0] == "" {
		d.Args = d.Args[1:]
	}
	if m := len(d.Args); m > 0 && d.Args[m-1] == "" {
		d.Args = d.Args[:m-1]
	}
	return d
''')),
('local',(U,BODY,'''	args := d.Args
	e := len(args) - 1
	if len(args) == 0 || !(strings.HasPrefix(args[0], "(") && strings.HasSuffix(args[e], ")")) {
		return d
	}
	args[0] = strings.TrimLeftFunc(strings.TrimPrefix(args[0], "("), unicode.IsSpace)
	args[e] = strings.TrimRightFunc(strings.TrimSuffix(args[e], ")"), unicode.IsSpace)
	if args[0] == "" {
		args = args[1:]
	}
	if len(args) > 0 && args[len(args)-1] == "" {
		args = args[:len(args)-1]
	}
	d.Args = args
	return d
''')),
('rename',(U,'func prepareIfArgs(d *Directive) *Directive {','func stripParens(d *Directive) *Directive {'),(P,'prepareIfArgs(stmt)','stripParens(stmt)')),
('inside',(P,'		if stmt.Directive == "if" {\n			stmt = prepareIfArgs(stmt)\n		}\n','		stmt = prepareIfArgs(stmt)\n'),(U,'	b := 0\n	e := len(d.Args) - 1\n	if len(d.Args) > 0 &&','	if d.Directive != "if" {\n		return d\n	}\n	b := 0\n	e := len(d.Args) - 1\n	if len(d.Args) > 0 &&')),
('noresult',(P,'stmt = prepareIfArgs(stmt)','prepareIfArgs(stmt)'),(U,'func prepareIfArgs(d *Directive) *Directive {','func prepareIfArgs(d *Directive) {'),(U,'		d.Args = d.Args[b : e+1]\n	}\n	return d\n','		d.Args = d.Args[b : e+1]\n	}\n')),
('method',(P,'stmt = prepareIfArgs(stmt)','stmt.stripParens()'),(U,'func prepareIfArgs(d *Directive) *Directive {','func (d *Directive) stripParens() {'),(U,'		d.Args = d.Args[b : e+1]\n	}\n	return d\n','		d.Args = d.Args[b : e+1]\n	}\n')),
('helper',(U,BODY,'''	if !inParens(d.Args) {
		return d
	}
	b, e := 0, len(d.Args)-1
	d.Args[0] = strings.TrimLeftFunc(strings.TrimPrefix(d.Args[0], "("), unicode.IsSpace)
	d.Args[e] = strings.TrimRightFunc(strings.TrimSuffix(d.Args[e], ")"), unicode.IsSpace)
	if len(d.Args[0]) == 0 {
		b++
	}
	if b <= e && len(d.Args[e]) == 0 {
		e--
	}
	d.Args = d.Args[b : e+1]
	return d
'''),(U,'// prepareIfArgs','''func inParens(args []string) bool {
	n := len(args)
	return n > 0 && strings.HasPrefix(args[0], "(") && strings.HasSuffix(args[n-1], ")")
}

// prepareIfArgs''')),
]
