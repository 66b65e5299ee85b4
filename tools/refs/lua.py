L='lua.go'; X='lex.go'; B='build.go'
ARG='''			arg := ""
			for {
				if !s.Scan() {
					return
				}
				next := s.Text()
				if isSpace(next) {
					if arg != "" {
						tokenCh <- NgxToken{Value: arg, Line: s.Line(), IsQuoted: false}
						break
					}

					for isSpace(next) {
						if !s.Scan() {
							return
						}
						next = s.Text()
					}
				}
				arg += next
			}
'''
MUTS=[
('argsimple',(L,ARG,'''			arg := ""
			for {
				if !s.Scan() {
					return
				}
				next := s.Text()
				if !isSpace(next) {
					arg += next
				} else if arg != "" {
					tokenCh <- NgxToken{Value: arg, Line: s.Line()}
					break
				}
			}
''')),
('arghelper',(L,ARG,'''			arg, ok := readLuaArg(s)
			if !ok {
				return
			}
			tokenCh <- NgxToken{Value: arg, Line: s.Line(), IsQuoted: false}
'''),(L,'// RegisterBuilder registers','''// readLuaArg reads a word.
func readLuaArg(s *SubScanner) (string, bool) {
	var arg strings.Builder
	for s.Scan() {
		next := s.Text()
		if !isSpace(next) {
			arg.WriteString(next)
			continue
		}
		if arg.Len() > 0 {
			return arg.String(), true
		}
	}
	return "", false
}

// RegisterBuilder registers''')),
('nodead',(L,'''				if tokenDepth < 0 {
					lineno := s.Line()
					tokenCh <- NgxToken{Error: &ParseError{File: &lexerFile, What: `unexpected "}"`, Line: &lineno}}
					return
				}

''',''),(L,'''				// Expected first token is “{” to open a Lua block. If the first non-whitespace character is not “{”,
				// we are not starting Lua tokenization. This is crucial for cases like ‘server_name content_by_lua_block;’.
				// Without an opening “{”, ignore input until encountering a brace “{” with tokenDepth > 0.
				if isSpace(next) && tokenDepth == 0 {
					continue
				}

				// stricly check that first non space character is {
				if tokenDepth == 0 {
					tokenCh <- NgxToken{Value: next, Line: s.Line(), IsQuoted: false}
					return
				}
''','')),
('quoteempty',(L,'			case next == `"` || next == "\'":\n				if !inQuotes {\n					inQuotes = true\n					quoteType = next\n				} else if inQuotes && next == quoteType {\n					inQuotes = false\n				}\n','			case next == `"` || next == "\'":\n				switch quoteType {\n				case "":\n					quoteType = next\n				case next:\n					quoteType = ""\n				}\n'),(L,'		var inQuotes bool\n',''),(L,'next == "{" && !inQuotes','next == "{" && quoteType == ""'),(L,'next == "}" && !inQuotes','next == "}" && quoteType == ""')),
('bytes',(L,'var tok strings.Builder','tok := []byte{}'),(L,'tok.WriteString(next)','tok = append(tok, next...)'),(L,'tok.WriteString(next)','tok = append(tok, next...)'),(L,'tok.WriteString(next)','tok = append(tok, next...)'),(L,'tok.WriteString(next)','tok = append(tok, next...)'),(L,'tok.String()','string(tok)'),(L,'	"strings"\n','')),
('plus',(L,'var tok strings.Builder','tok := ""'),(L,'tok.WriteString(next)','tok += next'),(L,'tok.WriteString(next)','tok += next'),(L,'tok.WriteString(next)','tok += next'),(L,'tok.WriteString(next)','tok += next'),(L,'tok.String()','tok'),(L,'	"strings"\n','')),
('named',(L,'	go func() {\n		defer close(tokenCh)','	go lexLua(s, matchedToken, tokenCh, tokenDepth)\n\n	return tokenCh\n}\n\nfunc lexLua(s *SubScanner, matchedToken string, tokenCh chan<- NgxToken, tokenDepth int) {\n		defer close(tokenCh)'),(L,'				tok.WriteString(next)\n			}\n		}\n	}()\n\n	return tokenCh\n}','				tok.WriteString(next)\n			}\n		}\n}')),
('forscan',(L,'''		for {
			if !s.Scan() {
				return
			}
			next := s.Text()

			if !isSpace(next) {''','''		for s.Scan() {
			next := s.Text()

			if !isSpace(next) {''')),
('depthinc',(L,'''				tokenDepth++
				if tokenDepth > 1 { // not the first open brace
					tok.WriteString(next)
				}''','''				if tokenDepth > 0 {
					tok.WriteString(next)
				}
				tokenDepth++''')),
('closeexplicit',(L,'''				if tokenDepth > 0 { // not the last close brace for it to be 0
					tok.WriteString(next)
				}

				if tokenDepth == 0 {''','''				if tokenDepth != 0 {
					tok.WriteString(next)
				} else {''')),
('buffered',(L,'make(chan NgxToken)','make(chan NgxToken, 2)')),
('build',(L,'''	if stmt.Directive == setByLuaBlock {
		if len(stmt.Args) < numArgsForSetByLuaBlock {
			return stmt.Directive
		}
		return fmt.Sprintf("%s %s {%s}", stmt.Directive, stmt.Args[0], stmt.Args[1])
	}
	if len(stmt.Args) < numArgsForOtherDirectives {
		return stmt.Directive
	}
	return fmt.Sprintf("%s {%s}", stmt.Directive, stmt.Args[0])''','''	name, args := stmt.Directive, stmt.Args
	n := numArgsForOtherDirectives
	if name == setByLuaBlock {
		n = numArgsForSetByLuaBlock
	}
	if len(args) < n {
		return name
	}
	var sb strings.Builder
	sb.WriteString(name)
	if n == numArgsForSetByLuaBlock {
		sb.WriteString(" " + args[0])
	}
	sb.WriteString(" {" + args[n-1] + "}")
	return sb.String()'''),(L,'import (\n	"fmt"\n','import (\n')),
('namesvar',(L,'	return []string{\n		"init_by_lua_block",','	return luaNames()\n}\n\nfunc luaNames() []string {\n	return []string{\n		"init_by_lua_block",')),
('regptr',(X,'func (rl registerLexer) apply','func (rl *registerLexer) apply'),(X,'return registerLexer{l','return &registerLexer{l')),
('regloop',(X,'	for _, s := range rl.stringTokens {\n		o.extLexers[s] = rl.l\n	}','	for i := range rl.stringTokens {\n		o.extLexers[rl.stringTokens[i]] = rl.l\n	}')),
('lwoidx',(X,'	for _, o := range options.Lexers {\n		o.applyLexOptions(&options)\n	}','	for i := 0; i < len(options.Lexers); i++ {\n		options.Lexers[i].applyLexOptions(&options)\n	}')),
('lwocopy',(X,'	for _, o := range options.Lexers {\n		o.applyLexOptions(&options)\n	}','	opts := options\n	for _, o := range options.Lexers {\n		o.applyLexOptions(&opts)\n	}'),(X,'go tokenize(r, tc, options)','go tokenize(r, tc, opts)')),
('lwoclosure',(X,'go tokenize(r, tc, options)','go func() {\n		tokenize(r, tc, options)\n	}()')),
]
