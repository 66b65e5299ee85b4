P="parse.go"
END="// isAcyclic performs"
def helper(code): return (P,END,code+"\n\n"+END)
COMM='''			comment := t.Value[1:]
				stmt.Directive = "#"
				stmt.Comment = &comment
				parsed = append(parsed, stmt)
'''
ARGLOOP_START="		// parse arguments by reading tokens\n"
src=open('/repo/parse.go').read()
a=src.index(ARGLOOP_START); b=src.index("		// if inside \"map-like\" block")
ARGS=src[a:b]
i0=src.index("		// add \"includes\" to the payload"); i1=src.index("		// if this statement terminated with \"{\" then it is a block")
INCL=src[i0:i1]
m0=src.index('		// if inside "map-like" block'); m1=src.index("		// consume the directive if it is ignored and move on")
MAP=src[m0:m1]
an0=src.index("		// raise errors if this statement is invalid"); an1=src.index("		// prepare arguments - strip")
AN=src[an0:an1]
MUTS=[
("noop",(P,"		var commentsInArgs Directives\n","		var commentsInArgs Directives\n		_ = len(parsed)\n")),
("isspecial",(P,'for t.Error != nil || t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {','for !ends(t) {'),
  helper('''func ends(t NgxToken) bool {
	if t.Error != nil || t.IsQuoted {
		return false
	}
	switch t.Value {
	case "{", "}", ";":
		return true
	}
	return false
}''')),
("comment",(P,'''				commentsInArgs = append(commentsInArgs, &Directive{
					Directive: "#",
					Line:      stmt.Line,
					Args:      []string{},
					File:      fileName,
					Comment:   &comment,
				})
''','''				commentsInArgs = append(commentsInArgs, newComment(comment, stmt.Line, fileName))
'''),helper('''func newComment(text string, line int, file string) *Directive {
	d := new(Directive)
	d.Directive = "#"
	d.Line = line
	d.Args = make([]string, 0)
	d.File = file
	d.Comment = &text
	return d
}''')),
("loop",(P,'''	for t := range tokens {
		if t.Error != nil {
			return nil, lexError(parsing, t, ctx)
		}

		var comm''','''	for {
		t, ok := <-tokens
		if !ok {
			return parsed, nil
		}
		if t.Error != nil {
			return nil, lexError(parsing, t, ctx)
		}

		var comm''')),
("include",(P,INCL,'''		if err := p.include(parsing, stmt, ctx); err != nil {
			return nil, err
		}

'''),helper("func (p *parser) include(parsing *Config, stmt *Directive, ctx blockCtx) (err error) {\n"+INCL.replace("return nil, ","return ")+"	return nil\n}")),
("args",(P,ARGS,'''		t, commentsInArgs, err = p.readArgs(parsing, tokens, ctx, stmt)
		if err != nil {
			return nil, err
		}

'''),(P,"	var tokenOk bool\n",""),helper("func (p *parser) readArgs(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, stmt *Directive) (NgxToken, Directives, error) {\n	var commentsInArgs Directives\n	fileName := stmt.File\n"+ARGS.replace("t, tokenOk = <-tokens","t, tokenOk := <-tokens",1).replace("return nil, ","return t, nil, ")+"	return t, commentsInArgs, nil\n}")),
("report",(P,AN,'''		err = analyze(parsing.File, stmt, t.Value, ctx, p.options)
		if err != nil {
			if err := p.report(parsing, err); err != nil {
				return nil, err
			}
			closed, err := p.skip(parsing, tokens, t)
			if err != nil {
				return nil, err
			}
			if closed {
				return parsed, nil
			}
			continue
		}

'''),helper('''func (p *parser) report(parsing *Config, err error) error {
	if p.options.StopParsingOnError {
		return err
	}
	p.handleError(parsing, err)
	return nil
}''')),
("mapblock",(P,MAP,'''		if inMap(ctx) {
			if mapErr := analyzeMapBody(parsing.File, stmt, t.Value, ctx[len(ctx)-1]); mapErr == nil {
				stmt.IsMapBlockParameter = true
				parsed = append(append(parsed, stmt), commentsInArgs...)
				continue
			} else if p.options.StopParsingOnError {
				return nil, mapErr
			} else {
				p.handleError(parsing, mapErr)
				closed, err := p.skip(parsing, tokens, t)
				switch {
				case err != nil:
					return nil, err
				case closed:
					return parsed, nil
				}
				continue
			}
		}

'''),helper('''func inMap(ctx blockCtx) bool {
	if len(ctx) == 0 {
		return false
	}
	_, ok := mapBodies[ctx[len(ctx)-1]]
	return ok
}''')),
("lastappend",(P,'''		parsed = append(parsed, stmt)

		// add all comments found inside args after stmt is added
		parsed = append(parsed, commentsInArgs...)
''','''		parsed = append(parsed, stmt)
		for _, c := range commentsInArgs {
			parsed = append(parsed, c)
		}
''')),
("block",(P,'''			stmt.Block = make(Directives, 0)
			inner := enterBlockCtx(stmt, ctx) // get context for block
			blocks, err := p.parse(parsing, tokens, inner, false)
			if err != nil {
				return nil, err
			}
			stmt.Block = append(stmt.Block, blocks...)
''','''			block, err := p.parse(parsing, tokens, enterBlockCtx(stmt, ctx), false)
			if err != nil {
				return nil, err
			}
			if block == nil {
				block = Directives{}
			}
			stmt.Block = block
''')),
("skiponly",(P,'''			if t.Value == "{" && !t.IsQuoted {
				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
					return nil, err
				}
			}
			continue
''','''			if t.IsQuoted || t.Value != "{" {
				continue
			}
			if _, err := p.skip(parsing, tokens, t); err != nil {
				return nil, err
			}
			continue
''')),
("contains",(P,"contains(p.options.IgnoreDirectives, stmt.Directive)","slices.Contains(p.options.IgnoreDirectives, stmt.Directive)"),(P,"import (","import (\n	\"slices\"")),
("inlineignore",(P,"		if contains(p.options.IgnoreDirectives, stmt.Directive) {","		ignored := false\n		for _, d := range p.options.IgnoreDirectives {\n			if d == stmt.Directive {\n				ignored = true\n				break\n			}\n		}\n		if ignored {")),
("switchname",(P,'''		if strings.HasPrefix(t.Value, "#") && !t.IsQuoted {
			if p.options.ParseComments {''','''		if !t.IsQuoted && len(t.Value) > 0 && t.Value[0] == '#' {
			if p.options.ParseComments {''')),
("premature",(P,'''		if !tokenOk {
			return nil, &ParseError{
				What:        ErrPrematureLexEnd.Error(),
				File:        &parsing.File,
				Line:        &stmt.Line,
				originalErr: ErrPrematureLexEnd,
				BlockCtx:    ctx.getLastBlock(),
			}
		}
''','''		if !tokenOk {
			return nil, premature(parsing, stmt, ctx)
		}
'''),helper('''func premature(parsing *Config, stmt *Directive, ctx blockCtx) error {
	return &ParseError{
		What:        ErrPrematureLexEnd.Error(),
		File:        &parsing.File,
		Line:        &stmt.Line,
		originalErr: ErrPrematureLexEnd,
		BlockCtx:    ctx.getLastBlock(),
	}
}''')),
]
