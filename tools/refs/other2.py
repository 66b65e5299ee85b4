# more refactorings written without regard to the checks; run them with all properties
L,P,A,M,B,U,Y,LU='lex.go','parse.go','analyze.go','analyze_map.go','build.go','util.go','types.go','lua.go'
G='analyze_nplus_R36_directives.gen.go'
MUTS=[
("q-advance",(L,'''	for {
		if readNext {
			if !scanner.Scan() {
				break // done
			}

			la = scanner.Text()
			if isEOL(la) {
				tokenLine++
				nextTokenIsDirective = true
			}
		} else {
			readNext = true
		}
''','''	// advance reads the next character, unless the last one is to be looked at again.
	advance := func() bool {
		if !readNext {
			readNext = true
			return true
		}
		if !scanner.Scan() {
			return false
		}
		la = scanner.Text()
		if isEOL(la) {
			tokenLine++
			nextTokenIsDirective = true
		}
		return true
	}

	for advance() {
''')),
("q-cr",(L,'''		if la == "\\r" || la == "\\\\\\r" {
			continue
		}
''','''		if isCR(la) {
			continue
		}
'''),(L,'''// endsToken returns''','''func isCR(s string) bool {
	switch s {
	case "\\r", "\\\\\\r":
		return true
	default:
		return false
	}
}

// endsToken returns''')),
("q-eof",(L,'''	if token.Len() > 0 {
		emit(tokenStartLine, lexState == inQuote, nil)
	}
	if err := scanner.Err(); err != nil {
		emit(tokenLine, false, &ParseError{File: &lexerFile, What: err.Error(), Line: &tokenLine, originalErr: err})
		close(tokenCh)
		return
	}
	if depth > 0 {
		emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected end of file, expecting "}"`, Line: &tokenLine})
	}

	close(tokenCh)
}''','''	if token.Len() != 0 {
		quoted := lexState == inQuote
		emit(tokenStartLine, quoted, nil)
	}
	readErr := scanner.Err()
	switch {
	case readErr != nil:
		emit(tokenLine, false, &ParseError{File: &lexerFile, What: readErr.Error(), Line: &tokenLine, originalErr: readErr})
	case depth > 0:
		emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected end of file, expecting "}"`, Line: &tokenLine})
	}
	close(tokenCh)
}''')),
("q-unbalanced",(L,'''				if la == "{" {
					depth++
				}
				if la == "}" {
					depth--
					// early exit if unbalanced braces
					if depth < 0 {
						emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected "}"`, Line: &tokenLine})
						close(tokenCh)
						return
					}
				}
''','''				switch la {
				case "{":
					depth++
				case "}":
					// early exit if unbalanced braces
					if depth == 0 {
						emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected "}"`, Line: &tokenLine})
						close(tokenCh)
						return
					}
					depth--
				}
''')),
("q-match-if",(G,'''    m, ok := nginxPlusR36Directives[directive]
    return m, ok''','''    if m, ok := nginxPlusR36Directives[directive]; ok {
        return m, true
    }
    return nil, false''')),
("q-match-helper",(G,'''    m, ok := nginxPlusR36Directives[directive]
    return m, ok''','''    return lookupMasks(nginxPlusR36Directives, directive)'''),(A,'''func DefaultDirectivesMatchFunc(directive string) ([]uint, bool) {
	masks, matched := defaultDirectives[directive]
	return masks, matched
}''','''func DefaultDirectivesMatchFunc(directive string) ([]uint, bool) {
	return lookupMasks(defaultDirectives, directive)
}

// lookupMasks returns the masks of a directive and whether it is known.
func lookupMasks(table map[string][]uint, directive string) ([]uint, bool) {
	masks, matched := table[directive]
	return masks, matched
}''')),
("q-union-size",(A,'''	union := make(map[string][]uint)

	for _, m := range maps {
		for key, value := range m {
			union[key] = value
		}
	}

	return union''','''	size := 0
	for _, m := range maps {
		size += len(m)
	}
	union := make(map[string][]uint, size)

	for i := range maps {
		for name := range maps[i] {
			union[name] = maps[i][name]
		}
	}

	return union''')),
("q-mask-has",(A,'''		for _, mask := range masks {
			if (mask & currCtx) != 0 {
				ctxMasks = append(ctxMasks, mask)
			}
		}''','''		for i := range masks {
			if masks[i]&currCtx == 0 {
				continue
			}
			ctxMasks = append(ctxMasks, masks[i])
		}''')),
("q-build-open",(B,'''			if !stmt.IsBlock() {
				_, _ = sb.WriteString(";")
			} else {
				_, _ = sb.WriteString(" {")
				stmt := stmt
				buildBlock(sb, stmt, stmt.Block, depth+1, stmt.Line, options)
				_, _ = sb.WriteString("\\n")
				_, _ = sb.WriteString(margin(options, depth))
				_, _ = sb.WriteString("}")
			}
''','''			if stmt.IsBlock() {
				_, _ = sb.WriteString(" {")
				buildBlock(sb, stmt, stmt.Block, depth+1, stmt.Line, options)
				_, _ = sb.WriteString("\\n" + margin(options, depth) + "}")
			} else {
				_, _ = sb.WriteString(";")
			}
''')),
("q-build-args-fn",(B,'''				for _, arg := range stmt.Args {
					_, _ = sb.WriteString(" ")
					_, _ = sb.WriteString(Enquote(arg))
				}
			}
''','''				writeArgs(sb, stmt.Args)
			}
'''),(B,'''func margin(''','''func writeArgs(sb io.StringWriter, args []string) {
	for i := 0; i < len(args); i++ {
		_, _ = sb.WriteString(" " + Enquote(args[i]))
	}
}

func margin(''')),
("q-files-one",(B,'''	for _, config := range payload.Config {
		path := config.File
		if !filepath.IsAbs(path) {
			path = filepath.Join(dir, path)
		}
''','''	for i := range payload.Config {
		config := payload.Config[i]
		var path string
		if filepath.IsAbs(config.File) {
			path = config.File
		} else {
			path = filepath.Join(dir, config.File)
		}
''')),
("q-error-string",("errors.go","","")),
("q-equal-len",(Y,'''	for i, inc := range a.Includes {
		if inc != d.Includes[i] {
			return false
		}
	}
	for i, dir := range a.Block {
		if !dir.Equal(d.Block[i]) {
			return false
		}
	}
	return true
}''','''	for i := range d.Includes {
		if d.Includes[i] != a.Includes[i] {
			return false
		}
	}
	same := true
	for i := 0; same && i < len(d.Block); i++ {
		same = d.Block[i].Equal(a.Block[i])
	}
	return same
}''')),
("q-perform-switch",(U,'''			if !dir.IsInclude() {
				c <- included{directive: &dir}
				continue
			}
			for _, idx''','''			isInclude := dir.IsInclude()
			if !isInclude {
				c <- included{directive: &dir}
			}
			if !isInclude {
				continue
			}
			for _, idx''')),
("q-ifargs-trim",(U,'''		d.Args[0] = strings.TrimLeftFunc(strings.TrimPrefix(d.Args[0], "("), unicode.IsSpace)
		d.Args[e] = strings.TrimRightFunc(strings.TrimSuffix(d.Args[e], ")"), unicode.IsSpace)
''','''		first := strings.TrimPrefix(d.Args[0], "(")
		d.Args[0] = strings.TrimLeftFunc(first, unicode.IsSpace)
		last := strings.TrimSuffix(d.Args[e], ")")
		d.Args[e] = strings.TrimRightFunc(last, unicode.IsSpace)
''')),
("q-parse-init",(P,'''	payload := &Payload{
		Status: "ok",
		Errors: []PayloadError{},
		Config: []Config{},
	}
''','''	payload := new(Payload)
	payload.Status = "ok"
	payload.Errors = make([]PayloadError, 0)
	payload.Config = make([]Config, 0)
''')),
("q-parse-drain-fn",(P,'''		for range tokens { //nolint:revive
		}
''','''		drain(tokens)
'''),(P,'''func (p *parser) openFile''','''// drain reads tokens to their end.
func drain(tokens <-chan NgxToken) {
	for {
		if _, more := <-tokens; !more {
			return
		}
	}
}

func (p *parser) openFile''')),
("q-block-fn",(P,'''		if t.Value == "{" && !t.IsQuoted {
			stmt.Block = make(Directives, 0)
			inner := enterBlockCtx(stmt, ctx) // get context for block
			blocks, err := p.parse(parsing, tokens, inner, false)
			if err != nil {
				return nil, err
			}
			stmt.Block = append(stmt.Block, blocks...)
		}
''','''		if t.Value == "{" && !t.IsQuoted {
			if stmt.Block, err = p.parseBody(parsing, tokens, stmt, ctx); err != nil {
				return nil, err
			}
		}
'''),(P,'''// skip finishes a statement''','''// parseBody parses the block of stmt.
func (p *parser) parseBody(parsing *Config, tokens <-chan NgxToken, stmt *Directive, ctx blockCtx) (Directives, error) {
	body, err := p.parse(parsing, tokens, enterBlockCtx(stmt, ctx), false)
	if err != nil {
		return nil, err
	}
	if body == nil {
		body = Directives{}
	}
	return body, nil
}

// skip finishes a statement''')),
("q-quote-none",(B,'''	if !needsQuote(arg) {
		return arg
	}
	return strings.ReplaceAll(repr(arg), `\\\\`, `\\`)''','''	if needsQuote(arg) {
		quoted := repr(arg)
		return strings.ReplaceAll(quoted, `\\\\`, `\\`)
	}
	return arg''')),
("q-lua-space",(LU,'''			if !isSpace(next) {
				if next != "{" {
					lineno := s.Line()
					tokenCh <- NgxToken{Error: &ParseError{File: &lexerFile, What: `expected "{" to start lua block`, Line: &lineno}}
					return
				}
				tokenDepth++
				break
			}
''','''			if isSpace(next) {
				continue
			}
			if next == "{" {
				tokenDepth++
				break
			}
			lineno := s.Line()
			tokenCh <- NgxToken{Error: &ParseError{File: &lexerFile, What: `expected "{" to start lua block`, Line: &lineno}}
			return
''')),
]
MUTS=[m for m in MUTS if m[0]!="q-error-string"]
