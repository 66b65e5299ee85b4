# refactorings written as somebody would who does not know the checks; run them with all properties
L,P,A,M,B,U,Y,LU='lex.go','parse.go','analyze.go','analyze_map.go','build.go','util.go','types.go','lua.go'
MUTS=[
("o-consume-helper",(P,'''		if consume {
			// if we find a block inside this context, consume it too
			if t.Value == "{" && !t.IsQuoted {
				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
					return nil, err
				}
			}
			continue
		}
''','''		if consume {
			if err := p.consumeNested(parsing, tokens, t); err != nil {
				return nil, err
			}
			continue
		}
'''),(P,'''// skip finishes a statement''','''// consumeNested consumes a block that is opened by t.
func (p *parser) consumeNested(parsing *Config, tokens <-chan NgxToken, t NgxToken) error {
	if t.IsQuoted || t.Value != "{" {
		return nil
	}
	_, err := p.parse(parsing, tokens, nil, true)
	return err
}

// skip finishes a statement''')),
("o-resolve-include",(P,'''			pattern := stmt.Args[0]
			if !filepath.IsAbs(pattern) {
				pattern = filepath.Join(p.configDir, pattern)
			}
''','''			pattern := p.resolve(stmt.Args[0])
'''),(P,'''// skip finishes a statement''','''func (p *parser) resolve(path string) string {
	if filepath.IsAbs(path) {
		return path
	}
	return filepath.Join(p.configDir, path)
}

// skip finishes a statement''')),
("o-register",(P,'''				if _, ok := p.included[fname]; !ok {
					p.included[fname] = len(p.included)
					p.includes = append(p.includes, fileCtx{fname, ctx})
				}
				stmt.Includes = append(stmt.Includes, p.included[fname])
				// add edge between the current file and it's included file and
				// increase the included file's in degree
				p.includeEdges[parsing.File] = append(p.includeEdges[parsing.File], fname)
				p.includeInDegree[fname]++
''','''				stmt.Includes = append(stmt.Includes, p.register(parsing.File, fname, ctx))
'''),(P,'''// skip finishes a statement''','''// register notes that the file from includes the file to, and returns the index of to.
func (p *parser) register(from, to string, ctx blockCtx) int {
	p.includeEdges[from] = append(p.includeEdges[from], to)
	p.includeInDegree[to]++
	idx, known := p.included[to]
	if !known {
		idx = len(p.included)
		p.included[to] = idx
		p.includes = append(p.includes, fileCtx{path: to, ctx: ctx})
	}
	return idx
}

// skip finishes a statement''')),
("o-premature-helper",(P,'''		if !tokenOk {
			return nil, &ParseError{
				What:        ErrPrematureLexEnd.Error(),
				File:        &parsing.File,
				Line:        &stmt.Line,
				originalErr: ErrPrematureLexEnd,
				BlockCtx:    ctx.getLastBlock(),
			}
		}
		var argErr error''','''		if !tokenOk {
			return nil, prematureEnd(parsing, stmt, ctx)
		}
		var argErr error'''),(P,'''			if !tokenOk {
				return nil, &ParseError{
					What:        ErrPrematureLexEnd.Error(),
					File:        &parsing.File,
					Line:        &stmt.Line,
					originalErr: ErrPrematureLexEnd,
					BlockCtx:    ctx.getLastBlock(),
				}
			}
		}

		if argErr''','''			if !tokenOk {
				return nil, prematureEnd(parsing, stmt, ctx)
			}
		}

		if argErr'''),(P,'''// skip finishes a statement''','''func prematureEnd(config *Config, stmt *Directive, ctx blockCtx) *ParseError {
	return &ParseError{
		What:        ErrPrematureLexEnd.Error(),
		File:        &config.File,
		Line:        &stmt.Line,
		BlockCtx:    ctx.getLastBlock(),
		originalErr: ErrPrematureLexEnd,
	}
}

// skip finishes a statement''')),
("o-comment-helper",(P,'''			if p.options.ParseComments {
				comment := t.Value[1:]
				stmt.Directive = "#"
				stmt.Comment = &comment
				parsed = append(parsed, stmt)
			}
			continue''','''			if p.options.ParseComments {
				parsed = append(parsed, newComment(t.Value, t.Line, fileName))
			}
			continue'''),(P,'''				comment := t.Value[1:]
				commentsInArgs = append(commentsInArgs, &Directive{
					Directive: "#",
					Line:      stmt.Line,
					Args:      []string{},
					File:      fileName,
					Comment:   &comment,
				})
''','''				commentsInArgs = append(commentsInArgs, newComment(t.Value, stmt.Line, fileName))
'''),(P,'''// skip finishes a statement''','''func newComment(text string, line int, file string) *Directive {
	text = strings.TrimPrefix(text, "#")
	return &Directive{Directive: "#", Line: line, Args: []string{}, File: file, Comment: &text}
}

// skip finishes a statement''')),
("o-terminator",(P,'''		for t.Error != nil || t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
''','''		for !isTerminator(t) {
'''),(P,'''// skip finishes a statement''','''func isTerminator(t NgxToken) bool {
	if t.Error != nil || t.IsQuoted {
		return false
	}
	switch t.Value {
	case "{", "}", ";":
		return true
	default:
		return false
	}
}

// skip finishes a statement''')),
("o-inmap",(P,'''		if len(ctx) > 0 {
			if _, ok := mapBodies[ctx[len(ctx)-1]]; ok {
				mapErr := analyzeMapBody(parsing.File, stmt, t.Value, ctx[len(ctx)-1])
				if mapErr != nil && p.options.StopParsingOnError {
					return nil, mapErr
				} else if mapErr != nil {
					p.handleError(parsing, mapErr)
					if closed, err := p.skip(parsing, tokens, t); err != nil {
						return nil, err
					} else if closed {
						break
					}
					continue
				}
				stmt.IsMapBlockParameter = true
				parsed = append(parsed, stmt)
				parsed = append(parsed, commentsInArgs...)
				continue
			}
		}
''','''		if block, ok := mapBlock(ctx); ok {
			if mapErr := analyzeMapBody(parsing.File, stmt, t.Value, block); mapErr != nil {
				if p.options.StopParsingOnError {
					return nil, mapErr
				}
				p.handleError(parsing, mapErr)
				closed, err := p.skip(parsing, tokens, t)
				if err != nil {
					return nil, err
				}
				if closed {
					break
				}
				continue
			}
			stmt.IsMapBlockParameter = true
			parsed = append(append(parsed, stmt), commentsInArgs...)
			continue
		}
'''),(P,'''// skip finishes a statement''','''func mapBlock(ctx blockCtx) (string, bool) {
	if len(ctx) == 0 {
		return "", false
	}
	last := ctx[len(ctx)-1]
	_, ok := mapBodies[last]
	return last, ok
}

// skip finishes a statement''')),
("o-loop-comments",(P,'''		parsed = append(parsed, stmt)

		// add all comments found inside args after stmt is added
		parsed = append(parsed, commentsInArgs...)
''','''		parsed = append(parsed, stmt)
		for i := range commentsInArgs {
			parsed = append(parsed, commentsInArgs[i])
		}
''')),
("o-loop-block",(P,'''			stmt.Block = append(stmt.Block, blocks...)
''','''			for _, b := range blocks {
				stmt.Block = append(stmt.Block, b)
			}
''')),
("o-noprealloc",(P,'''			stmt.Block = make(Directives, 0)
			inner''','''			stmt.Block = Directives{}
			inner''')),
("o-glob-first",(P,'''			if hasMagic.MatchString(pattern) {
				fnames, err = p.options.Glob(pattern)
				if err != nil {
					return nil, err
				}
				sort.Strings(fnames)
			} else {''','''			if strings.ContainsAny(pattern, "*?[") {
				matches, globErr := p.options.Glob(pattern)
				if globErr != nil {
					return nil, globErr
				}
				sort.Strings(matches)
				fnames = matches
			} else {''')),
("o-acyclic-rename",(P,'''	fileCount := 0
	for len(queue) > 0 {
		// dequeue
		file := queue[0]
		queue = queue[1:]
		fileCount++

		// decrease each neighbor's in degree
		neighbors := p.includeEdges[file]
		for _, f := range neighbors {
			p.includeInDegree[f]--
			if p.includeInDegree[f] == 0 {
				queue = append(queue, f)
			}
		}
	}
	return fileCount != len(p.includeInDegree)''','''	visited := 0
	for ; len(queue) > 0; visited++ {
		file := queue[0]
		queue = queue[1:]
		for _, f := range p.includeEdges[file] {
			if p.includeInDegree[f]--; p.includeInDegree[f] == 0 {
				queue = append(queue, f)
			}
		}
	}
	return visited != len(p.includeInDegree)''')),
("o-lex-emiterr",(L,'''				if dupSpecialChar && la != "}" {
					emit(tokenStartLine, false, &ParseError{
						File: &lexerFile,
						What: fmt.Sprintf(`unexpected "%s"`, la),
						Line: &tokenLine,
					})
					close(tokenCh)
					return
				}
''','''				if dupSpecialChar && la != "}" {
					abort(fmt.Sprintf(`unexpected "%s"`, la))
					return
				}
'''),(L,'''						emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected "}"`, Line: &tokenLine})
						close(tokenCh)
						return''','''						abort(`unexpected "}"`)
						return'''),(L,'''	for {
		if readNext {
''','''	abort := func(what string) {
		emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: what, Line: &tokenLine})
		close(tokenCh)
	}

	for {
		if readNext {
''')),
("o-lex-switch",(L,'''				if la == "{" {
					depth++
				}
				if la == "}" {
					depth--
					// early exit if unbalanced braces
					if depth < 0 {''','''				switch la {
				case "{":
					depth++
				case "}":
					depth--
					// early exit if unbalanced braces
					if depth < 0 {''')),
("o-lex-extfn",(L,'''					externalScanner := &SubScanner{scanner: scanner, tokenLine: tokenLine}
					extTokenCh := ext.Lex(externalScanner, tokenStr)
					for tok := range extTokenCh {
						tokenCh <- tok
					}
					tokenLine = externalScanner.tokenLine
''','''					tokenLine = runExternal(ext, &SubScanner{scanner: scanner, tokenLine: tokenLine}, tokenStr, tokenCh)
'''),(L,'''//nolint:gocyclo,funlen,gocognit,maintidx
func tokenize''','''func runExternal(ext Lexer, s *SubScanner, name string, out chan<- NgxToken) int {
	for tok := range ext.Lex(s, name) {
		out <- tok
	}
	return s.Line()
}

//nolint:gocyclo,funlen,gocognit,maintidx
func tokenize''')),
("o-lex-andif",(L,'''		if token.Len() > 0 {
			tokenStr := token.String()
			if nextTokenIsDirective && endsToken(lexState, la, quote) {
				if ext, ok := options.extLexers[tokenStr]; ok {''','''		if token.Len() > 0 && nextTokenIsDirective {
			tokenStr := token.String()
			if endsToken(lexState, la, quote) {
				if ext, ok := options.extLexers[tokenStr]; ok {''')),
("o-lex-isspecial-fn",(L,'''	return lexState == inWord && (isSpace(la) || la == "{" || la == "}" || la == ";")
''','''	return lexState == inWord && (isSpace(la) || isPunct(la))
'''),(L,'''			if la == "{" || la == "}" || la == ";" {
				// if token''','''			if isPunct(la) {
				// if token'''),(L,'''// endsToken returns''','''func isPunct(s string) bool {
	return len(s) == 1 && strings.Contains("{};", s)
}

// endsToken returns''')),
("o-build-sep",(B,'''				for i, arg := range stmt.Args {
					if i > 0 {
						_, _ = sb.WriteString(" ")
					}
					_, _ = sb.WriteString(Enquote(arg))
				}
				_, _ = sb.WriteString(")")''','''				args := make([]string, len(stmt.Args))
				for i, arg := range stmt.Args {
					args[i] = Enquote(arg)
				}
				_, _ = sb.WriteString(strings.Join(args, " "))
				_, _ = sb.WriteString(")")''')),
("o-build-comment-fn",(B,'''			_, _ = sb.WriteString(" #")
			_, _ = sb.WriteString(*stmt.Comment)
''','''			_, _ = sb.WriteString(" #" + *stmt.Comment)
'''),(B,'''			_, _ = sb.WriteString("#")
			_, _ = sb.WriteString(*stmt.Comment)
''','''			_, _ = sb.WriteString("#" + *stmt.Comment)
''')),
("o-build-closer",(B,'''		if err := Build(wc, config, options); err != nil {
			_ = wc.Close()
			return err
		}

		if err := wc.Close(); err != nil {
			return err
		}
''','''		buildErr := Build(wc, config, options)
		closeErr := wc.Close()
		if buildErr != nil {
			return buildErr
		}
		if closeErr != nil {
			return closeErr
		}
''')),
("o-build-path",(B,'''		path := config.File
		if !filepath.IsAbs(path) {
			path = filepath.Join(dir, path)
		}
''','''		path := targetPath(dir, config.File)
'''),(B,'''// Build creates an NGINX config''','''func targetPath(dir, file string) string {
	if filepath.IsAbs(file) {
		return file
	}
	return filepath.Join(dir, file)
}

// Build creates an NGINX config''')),
("o-margin",(B,'''	indent := depth * options.Indent
	if indent < MaxIndent {
		if options.Tabs {
			return marginTabs[:depth]
		}
		return marginSpaces[:indent]
	}

	if options.Tabs {
		return strings.Repeat("\\t", depth)
	}
	return strings.Repeat(" ", options.Indent*depth)''','''	unit := " "
	n := depth * options.Indent
	if options.Tabs {
		unit, n = "\\t", depth
	}
	return strings.Repeat(unit, n)''')),
("o-quote-range",(B,'''		if unicode.IsSpace(char) || strings.ContainsRune("{;\\"'", char) {
			return true
		}

		if (expanding && (prev == '$' && char == '{')) || (!expanding && char == '}') {
			return true
		}

		if (expanding && char == '}') || (!expanding && (prev == '$' && char == '{')) {
			expanding = !expanding
		}
''','''		opens := prev == '$' && char == '{'
		switch {
		case unicode.IsSpace(char), strings.ContainsRune("{;\\"'", char):
			return true
		case opens && expanding, char == '}' && !expanding:
			return true
		case opens, char == '}':
			expanding = !expanding
		}
''')),
("o-repr",(U,'''	for _, char := range s {
		if char == '"' {
			q = strings.ReplaceAll(q, `\\"`, `"`)
			q = strings.ReplaceAll(q, `'`, `\\'`)
			q = `'` + q[1:len(q)-1] + `'`
			return q
		}
	}
	return q''','''	if !strings.ContainsRune(s, '"') {
		return q
	}
	q = strings.ReplaceAll(q, `\\"`, `"`)
	q = strings.ReplaceAll(q, `'`, `\\'`)
	return `'` + q[1:len(q)-1] + `'`''')),
("o-validexpr",(U,'''	return l > 0 &&
		strings.HasPrefix(d.Args[b], "(") &&
		strings.HasSuffix(d.Args[e], ")") &&
		((l == 1 && len(d.Args[b]) > 2) || // empty expression single arg '()'
			(l == 2 && (len(d.Args[b]) > 1 || len(d.Args[e]) > 1)) || // empty expression two args '(', ')'
			(l > 2)) //nolint: mnd''','''	if l == 0 || !strings.HasPrefix(d.Args[b], "(") || !strings.HasSuffix(d.Args[e], ")") {
		return false
	}
	switch l {
	case 1:
		return len(d.Args[0]) > 2
	case 2:
		return len(d.Args[0]) > 1 || len(d.Args[1]) > 1
	}
	return true''')),
("o-combine-fn",(U,'''	for _, config := range old.Config {
		combined.Errors = append(combined.Errors, config.Errors...)
		if config.Status == "failed" {
			combined.Status = "failed"
		}
	}
''','''	for i := range old.Config {
		config := &old.Config[i]
		for _, e := range config.Errors {
			combined.Errors = append(combined.Errors, e)
		}
		if config.Status == "failed" {
			combined.Status = config.Status
		}
	}
''')),
("o-combine-inv",(U,'''			if !dir.IsInclude() {
				c <- included{directive: &dir}
				continue
			}
			for _, idx := range dir.Includes {
				if idx < 0 || idx >= len(old.Config) {
					c <- included{
						err: &ParseError{
							What:      fmt.Sprintf("include config with index: %d", idx),
							File:      &fromfile,
							Line:      &dir.Line,
							Statement: dir.String(),
						},
					}
					return
				}
				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed) {
					c <- incl
					if incl.err != nil {
						return
					}
				}
			}
''','''			if dir.IsInclude() {
				for _, idx := range dir.Includes {
					if 0 > idx || len(old.Config) <= idx {
						c <- included{err: &ParseError{
							What:      fmt.Sprintf("include config with index: %d", idx),
							File:      &fromfile,
							Line:      &dir.Line,
							Statement: dir.String(),
						}}
						return
					}
					target := old.Config[idx]
					for incl := range performIncludes(old, target.File, target.Parsed) {
						c <- incl
						if incl.err != nil {
							return
						}
					}
				}
			} else {
				c <- included{directive: &dir}
			}
''')),
("o-analyze-accept",(A,'''		if ((mask>>len(stmt.Args)&1) != 0 && len(stmt.Args) <= 7) || // NOARGS to TAKE7
			((mask&ngxConfFlag) != 0 && len(stmt.Args) == 1 && validFlag(stmt.Args[0])) ||
			((mask & ngxConfAny) != 0) ||
			((mask&ngxConf1More) != 0 && len(stmt.Args) >= 1) ||
			((mask&ngxConf2More) != 0 && len(stmt.Args) >= 2) {
			return nil
		} else if''','''		n := len(stmt.Args)
		switch {
		case n <= 7 && mask&(1<<n) != 0:
			return nil
		case mask&ngxConfFlag != 0 && n == 1 && validFlag(stmt.Args[0]):
			return nil
		case mask&ngxConfAny != 0, mask&ngxConf1More != 0 && n > 0, mask&ngxConf2More != 0 && n > 1:
			return nil
		}
		if''')),
("o-analyze-ctxhelper",(A,'''	var ctxMasks []uint
	if options.SkipDirectiveContextCheck {
		ctxMasks = masks
	} else {
		for _, mask := range masks {
			if (mask & currCtx) != 0 {
				ctxMasks = append(ctxMasks, mask)
			}
		}
		if len(ctxMasks) == 0 && !options.SkipDirectiveContextCheck {''','''	ctxMasks := masks
	if !options.SkipDirectiveContextCheck {
		ctxMasks = inContext(masks, currCtx)
		if len(ctxMasks) == 0 {'''),(A,'''func unionBitmaskMaps''','''func inContext(masks []uint, ctx uint) []uint {
	var res []uint
	for _, mask := range masks {
		if mask&ctx == 0 {
			continue
		}
		res = append(res, mask)
	}
	return res
}

func unionBitmaskMaps''')),
("o-analyze-err",(A,'''	if options.ErrorOnUnknownDirectives && !knownDirective {
		return &ParseError{
			What:      fmt.Sprintf(`unknown directive "%s"`, stmt.Directive),
			File:      &fname,
			Line:      &stmt.Line,
			Statement: stmt.String(),
			BlockCtx:  ctx.getLastBlock(),
		}
	}
''','''	fail := func(what string) error {
		return &ParseError{
			What:      what,
			File:      &fname,
			Line:      &stmt.Line,
			Statement: stmt.String(),
			BlockCtx:  ctx.getLastBlock(),
		}
	}
	if options.ErrorOnUnknownDirectives && !knownDirective {
		return fail(fmt.Sprintf(`unknown directive "%s"`, stmt.Directive))
	}
'''),(A,'''			return &ParseError{
				What:      fmt.Sprintf(`"%s" directive is not allowed here`, stmt.Directive),
				File:      &fname,
				Line:      &stmt.Line,
				Statement: stmt.String(),
				BlockCtx:  ctx.getLastBlock(),
			}
''','''			return fail(fmt.Sprintf(`"%s" directive is not allowed here`, stmt.Directive))
'''),(A,'''	return &ParseError{
		What:      what,
		File:      &fname,
		Line:      &stmt.Line,
		Statement: stmt.String(),
		BlockCtx:  ctx.getLastBlock(),
	}
}''','''	return fail(what)
}''')),
("o-enter",(A,'''	inner := make(blockCtx, 0, len(ctx)+1)
	inner = append(inner, ctx...)
	return append(inner, stmt.Directive)''','''	inner := make(blockCtx, len(ctx)+1)
	copy(inner, ctx)
	inner[len(ctx)] = stmt.Directive
	return inner''')),
("o-union",(A,'''	for _, m := range maps {
		for key, value := range m {
			union[key] = value
		}
	}

	return union''','''	for i := range maps {
		for key := range maps[i] {
			union[key] = maps[i][key]
		}
	}

	return union''')),
("o-parse-main",(P,'''	for len(p.includes) > 0 {
		incl := p.includes[0]
		p.includes = p.includes[1:]

		file, err := p.openFile(incl.path)
''','''	for i := 0; i < len(p.includes); i++ {
		incl := p.includes[i]

		file, err := p.openFile(incl.path)
''')),
("o-parse-handle",(P,'''		const failedSts = "failed"
		config.Status = failedSts
		config.Errors = append(config.Errors, cerr)

		payload.Status = failedSts
		payload.Errors = append(payload.Errors, perr)
''','''		config.Errors = append(config.Errors, cerr)
		payload.Errors = append(payload.Errors, perr)
		config.Status, payload.Status = "failed", "failed"
''')),
("o-parse-errorsas",(P,'''		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
			p.handleError(parsing, perr)
			if closed, err := p.skip(parsing, tokens, t); err != nil {
				return nil, err
			} else if closed {
				break
			}
			// keep on parsin'
			continue
		} else if err != nil {
			return nil, err
		}
''','''		if err != nil {
			var perr *ParseError
			if p.options.StopParsingOnError || !errors.As(err, &perr) {
				return nil, err
			}
			p.handleError(parsing, perr)
			closed, err := p.skip(parsing, tokens, t)
			if err != nil {
				return nil, err
			}
			if closed {
				break
			}
			continue
		}
''')),
]
