P='build.go'
ARGS='''			if directive == "if" {
				_, _ = sb.WriteString(" (")
				for i, arg := range stmt.Args {
					if i > 0 {
						_, _ = sb.WriteString(" ")
					}
					_, _ = sb.WriteString(Enquote(arg))
				}
				_, _ = sb.WriteString(")")
			} else {
				for _, arg := range stmt.Args {
					_, _ = sb.WriteString(" ")
					_, _ = sb.WriteString(Enquote(arg))
				}
			}
'''
BLOCKEND='''			if !stmt.IsBlock() {
				_, _ = sb.WriteString(";")
			} else {
				_, _ = sb.WriteString(" {")
				stmt := stmt
				buildBlock(sb, stmt, stmt.Block, depth+1, stmt.Line, options)
				_, _ = sb.WriteString("\\n")
				_, _ = sb.WriteString(margin(options, depth))
				_, _ = sb.WriteString("}")
			}
'''
FULL=open('/repo/build.go').read()
FN=FULL[FULL.index('//nolint:gocognit\nfunc buildBlock'):FULL.index('func margin(')]
MARGIN=FULL[FULL.index('func margin('):FULL.index('func Enquote(')]
FILES=FULL[FULL.index('	for _, config := range payload.Config {\n		path'):FULL.index('// Build creates an NGINX config')]
INTO=FULL[FULL.index('	for _, config := range payload.Config {\n		wc'):]
TRIM='''	bodyStr := body.String()
	if len(bodyStr) > 0 && bodyStr[len(bodyStr)-1] == '\\n' {
		bodyStr = bodyStr[:len(bodyStr)-1]
	}
'''
MUTS=[
("argshelper",(P,ARGS,"			writeArgs(sb, directive, stmt.Args)\n"),(P,"func margin(",'''func writeArgs(sb io.StringWriter, directive string, args []string) {
	if directive != "if" {
		for _, arg := range args {
			_, _ = sb.WriteString(" " + Enquote(arg))
		}
		return
	}
	_, _ = sb.WriteString(" (")
	for i := 0; i < len(args); i++ {
		if i != 0 {
			_, _ = sb.WriteString(" ")
		}
		_, _ = sb.WriteString(Enquote(args[i]))
	}
	_, _ = sb.WriteString(")")
}

func margin(''')),
("argssep",(P,ARGS,'''			sep, end := " ", ""
			if directive == "if" {
				sep, end = " (", ")"
				if len(stmt.Args) == 0 {
					end = " ()"
				}
			}
			for _, arg := range stmt.Args {
				_, _ = sb.WriteString(sep)
				_, _ = sb.WriteString(Enquote(arg))
				sep = " "
			}
			_, _ = sb.WriteString(end)
''')),
("trimsuffix",(P,TRIM,'''	bodyStr := strings.TrimSuffix(body.String(), "\\n")
''')),
("hassuffix",(P,TRIM,'''	bodyStr := body.String()
	if strings.HasSuffix(bodyStr, "\\n") {
		bodyStr = bodyStr[:len(bodyStr)-1]
	}
''')),
("marginrepeat",(P,MARGIN,'''func margin(options *BuildOptions, depth int) string {
	if options.Tabs {
		return strings.Repeat("\\t", depth)
	}
	return strings.Repeat(" ", depth*options.Indent)
}

'''),(P,'''//nolint:gochecknoglobals
var (
	marginSpaces = strings.Repeat(" ", MaxIndent)
	marginTabs   = strings.Repeat("\\t", MaxIndent)
)

''','')),
("margininline",(P,MARGIN,'''func margin(options *BuildOptions, depth int) string {
	fill, n := marginSpaces, depth*options.Indent
	if options.Tabs {
		fill, n = marginTabs, depth
	}
	if n <= len(fill) {
		return fill[:n]
	}
	return strings.Repeat(fill[:1], n)
}

''')),
("stmtfn",(P,BLOCKEND,"			writeTail(sb, stmt, depth, options)\n"),(P,"func margin(",'''func writeTail(sb io.StringWriter, stmt *Directive, depth int, options *BuildOptions) {
	if !stmt.IsBlock() {
		_, _ = sb.WriteString(";")
		return
	}
	_, _ = sb.WriteString(" {")
	buildBlock(sb, stmt, stmt.Block, depth+1, stmt.Line, options)
	_, _ = sb.WriteString("\\n" + margin(options, depth) + "}")
}

func margin(''')),
("noparent",(P,"func buildBlock(sb io.StringWriter, parent *Directive, block","func buildBlock(sb io.StringWriter, block"),(P,"if i != 0 || parent != nil {","if i != 0 || depth > 0 {"),(P,"buildBlock(sb, stmt, stmt.Block,","buildBlock(sb, stmt.Block,"),(P,"buildBlock(&body, nil, config","buildBlock(&body, config")),
("noline",(P,"depth int, lastLine int, options *BuildOptions) {\n","depth int, options *BuildOptions) {\n	lastLine := 0\n	if parent != nil {\n		lastLine = parent.Line\n	}\n"),(P,"depth+1, stmt.Line, options)","depth+1, options)"),(P,"config.Parsed, 0, 0, options)","config.Parsed, 0, options)")),
("continueelse",(P,'''			_, _ = sb.WriteString(*stmt.Comment)
			// sb.WriteString("\\n")
			continue
		}
''','''			_, _ = sb.WriteString(*stmt.Comment)
			continue
		}
		comment := stmt.IsComment()
'''),(P,'''		if stmt.IsComment() {
			_, _ = sb.WriteString("#")
''','''		if comment {
			_, _ = sb.WriteString("#")
''')),
("extnil",(P,'''		if options.extBuilders != nil {
			if ext, ok := options.extBuilders[stmt.Directive]; ok {
				_, _ = sb.WriteString(ext.Build(stmt))
				continue
			}
		}
''','''		if ext, ok := options.extBuilders[stmt.Directive]; ok {
			text := ext.Build(stmt)
			_, _ = sb.WriteString(text)
			continue
		}
''')),
("commentonce",(P,'''		// if the this statement is a comment on the same line as the preview, do not emit EOL for this stmt
		if stmt.Line == lastLine && stmt.IsComment() {
			_, _ = sb.WriteString(" #")
			_, _ = sb.WriteString(*stmt.Comment)
			// sb.WriteString("\\n")
			continue
		}
''','''		if stmt.IsComment() && lastLine == stmt.Line {
			_, _ = sb.WriteString(" #" + *stmt.Comment)
			continue
		}
''')),
("method",(P,FN,FN.replace("func buildBlock(sb io.StringWriter, parent","func (b *blockBuilder) block(parent").replace(", options *BuildOptions) {",") {\n	sb, options := b.sb, b.options",1).replace("buildBlock(sb, stmt,","b.block(stmt,").replace("stmt.Line, options)","stmt.Line)").replace("//nolint:gocognit\n","type blockBuilder struct {\n	sb      io.StringWriter\n	options *BuildOptions\n}\n\n")),(P,"buildBlock(&body, nil, config.Parsed, 0, 0, options)","(&blockBuilder{&body, options}).block(nil, config.Parsed, 0, 0)")),
("indexloop",(P,"	for i, stmt := range block {\n","	for i := 0; i < len(block); i++ {\n		stmt := block[i]\n")),
("valueopts",(P,'''	opts := *options
	options = &opts
	if options.Indent <= 0 {
		options.Indent = 4
	}
''','''	opts := *options
	if opts.Indent < 1 {
		opts.Indent = 4
	}
	options = &opts
''')),
("headerbody",(P,'''	if options.Header {
		_, err := w.Write([]byte(header))
		if err != nil {
			return err
		}
	}
''','''	if options.Header {
		if _, err := io.WriteString(w, header); err != nil {
			return err
		}
	}
''')),
("filehelper",(P,FILES,'''	for _, config := range payload.Config {
		if err := buildFile(config, dir, options); err != nil {
			return err
		}
	}

	return nil
}

func buildFile(config Config, dir string, options *BuildOptions) (err error) {
	path := config.File
	if !filepath.IsAbs(path) {
		path = filepath.Join(dir, path)
	}

	var buf bytes.Buffer
	if err := Build(&buf, config, options); err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), os.ModeDir|os.ModePerm); err != nil {
		return err
	}
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := f.Close(); err == nil {
			err = cerr
		}
	}()
	_, err = f.Write(append(bytes.TrimRightFunc(buf.Bytes(), unicode.IsSpace), '\\n'))
	return err
}

''')),
("writefile",(P,FILES[FILES.index("		f, err := os.Create"):FILES.index("	return nil\n")],'''		output := append(bytes.TrimRightFunc(buf.Bytes(), unicode.IsSpace), '\\n')
		if err := os.WriteFile(path, output, 0o666); err != nil {
			return err
		}
	}

''')),
("stringsout",(P,"		var buf bytes.Buffer\n","		var buf strings.Builder\n"),(P,"output := append(bytes.TrimRightFunc(buf.Bytes(), unicode.IsSpace), '\\n')","output := []byte(strings.TrimRightFunc(buf.String(), unicode.IsSpace) + \"\\n\")"),(P,'	"bytes"\n','')),
("intohelper",(P,INTO,'''	for i := range payload.Config {
		if err := buildOne(payload.Config[i], into, options); err != nil {
			return err
		}
	}
	return nil
}

func buildOne(config Config, into Creator, options *BuildOptions) error {
	wc, err := into.Create(config.File)
	if err != nil {
		return err
	}
	err = Build(wc, config, options)
	if cerr := wc.Close(); err == nil {
		err = cerr
	}
	return err
}
''')),
]
