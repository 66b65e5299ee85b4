MUTS=[
("switchif",("lex.go",'if la == "{" || la == "}" || la == ";" {\n				// if token','switch la {\n			case "{", "}", ";":\n				// if token')) if False else
("isspecial",("lex.go",'if la == "{" || la == "}" || la == ";" {\n				// if token','if isSpecial(la) {\n				// if token'),("lex.go","//nolint:gocyclo,funlen,gocognit,maintidx\nfunc tokenize","func isSpecial(s string) bool {\n	switch s {\n	case \"{\", \"}\", \";\":\n		return true\n	}\n	return false\n}\n\n//nolint:gocyclo,funlen,gocognit,maintidx\nfunc tokenize")),
("lastchar",("lex.go",'token.Len() > 0 && strings.HasSuffix(token.String(), "$") && la == "{"','la == "{" && token.Len() > 0 && token.String()[token.Len()-1] == \'$\'')),
("struct",("lex.go","	token := strings.Builder{}\n	tokenLine := 1\n	tokenStartLine := 1\n","	var token strings.Builder\n	tokenLine, tokenStartLine := 1, 1\n	consumed := 0\n"),("lex.go","			la = scanner.Text()\n			if isEOL","			consumed++\n			la = scanner.Text()\n			if isEOL")),
("buf",("lex.go","	token := strings.Builder{}\n","	token := &bytes.Buffer{}\n"),("lex.go",'import (\n','import (\n	"bytes"\n')),
("deferclose",("lex.go","	token := strings.Builder{}\n","	defer close(tokenCh)\n	token := strings.Builder{}\n"),("lex.go","						close(tokenCh)\n						return","						return"),("lex.go","					close(tokenCh)\n					return","					return"),("lex.go","		close(tokenCh)\n		return","		return"),("lex.go","\n	close(tokenCh)\n}","\n}")),
("noop",("lex.go","		// skip CRs\n","		_ = token.Len()\n		// skip CRs\n")),
("errhelper",("lex.go","func tokenize(","func lexErr(line *int, format string, args ...interface{}) *ParseError {\n	return &ParseError{File: &lexerFile, What: fmt.Sprintf(format, args...), Line: line}\n}\n\nfunc tokenize("),("lex.go",'''&ParseError{File: &lexerFile, What: `unexpected "}"`, Line: &tokenLine}''','''lexErr(&tokenLine, `unexpected "%s"`, la)'''),("lex.go",'''&ParseError{File: &lexerFile, What: `unexpected end of file, expecting "}"`, Line: &tokenLine}''','''lexErr(&tokenLine, `unexpected end of file, expecting "}"`)''')),
("exthelper",("lex.go","""					extTokenCh := ext.Lex(externalScanner, tokenStr)
					for tok := range extTokenCh {
						tokenCh <- tok
					}
					tokenLine = externalScanner.tokenLine
""","""					tokenLine = forward(ext, externalScanner, tokenStr, tokenCh)
"""),("lex.go","//nolint:gocyclo,funlen,gocognit,maintidx\nfunc tokenize","func forward(ext Lexer, s *SubScanner, name string, out chan<- NgxToken) int {\n	for tok := range ext.Lex(s, name) {\n		out <- tok\n	}\n	return s.Line()\n}\n\n//nolint:gocyclo,funlen,gocognit,maintidx\nfunc tokenize")),
("escswitch",("lex.go",'''		if la == "\\\\" && !esc {
			esc = true
			continue
		}
		if esc {
			esc = false
			la = "\\\\" + la
		}
''','''		switch {
		case esc:
			esc = false
			la = "\\\\" + la
		case la == "\\\\":
			esc = true
			continue
		}
''')),
("loopcond",("lex.go",'''	for {
		if readNext {
			if !scanner.Scan() {
				break // done
			}

			la = scanner.Text()''','''	for !readNext || scanner.Scan() {
		if readNext {
			la = scanner.Text()''')),
]
