A='analyze.go'; M='analyze_map.go'; U='util.go'
def helper(s,f=A): return (f,'''func unionBitmaskMaps(''' if f==A else '''func hasValidArguments(''',s+'\n\n'+('func unionBitmaskMaps(' if f==A else 'func hasValidArguments('))
FILT='''		for _, mask := range masks {
			if (mask & currCtx) != 0 {
				ctxMasks = append(ctxMasks, mask)
			}
		}
'''
MUTS=[
("filter",(A,FILT,"		ctxMasks = masksFor(masks, currCtx)\n"),helper('''func masksFor(masks []uint, bit uint) (r []uint) {
	for i := range masks {
		if masks[i]&bit == 0 {
			continue
		}
		r = append(r, masks[i])
	}
	return r
}''')),
("filterif",(A,'''	if options.SkipDirectiveContextCheck {
		ctxMasks = masks
	} else {
'''+FILT+'''		if len(ctxMasks) == 0 && !options.SkipDirectiveContextCheck {''','''	for _, mask := range masks {
		if options.SkipDirectiveContextCheck || mask&currCtx != 0 {
			ctxMasks = append(ctxMasks, mask)
		}
	}
	if !options.SkipDirectiveContextCheck {
		if len(ctxMasks) == 0 {''')),
("argshelper",(A,'''		if ((mask>>len(stmt.Args)&1) != 0 && len(stmt.Args) <= 7) || // NOARGS to TAKE7
			((mask&ngxConfFlag) != 0 && len(stmt.Args) == 1 && validFlag(stmt.Args[0])) ||
			((mask & ngxConfAny) != 0) ||
			((mask&ngxConf1More) != 0 && len(stmt.Args) >= 1) ||
			((mask&ngxConf2More) != 0 && len(stmt.Args) >= 2) {''','''		if hasValidArguments(mask, stmt.Args) {''')),
("errhelper",(A,'''	return &ParseError{
		What:      what,
		File:      &fname,
		Line:      &stmt.Line,
		Statement: stmt.String(),
		BlockCtx:  ctx.getLastBlock(),
	}
''','''	return errAt(fname, stmt, ctx, what)
'''),(A,'''		return &ParseError{
			What:      fmt.Sprintf(`unknown directive "%s"`, stmt.Directive),
			File:      &fname,
			Line:      &stmt.Line,
			Statement: stmt.String(),
			BlockCtx:  ctx.getLastBlock(),
		}
''','''		return errAt(fname, stmt, ctx, fmt.Sprintf(`unknown directive "%s"`, stmt.Directive))
'''),helper('''func errAt(fname string, stmt *Directive, ctx blockCtx, what string) error {
	e := &ParseError{What: what, BlockCtx: ctx.getLastBlock()}
	e.File, e.Line = &fname, &stmt.Line
	e.Statement = stmt.String()
	return e
}''')),
("lookup",(A,'''	// Find all bitmasks from the sources invoker provides.
	for _, matchFn := range options.DirectiveSources {
		if masksInFn, found := matchFn(directiveName); found {
			masks = append(masks, masksInFn...)
			knownDirective = true
		}
	}

	// If DirectiveSources was not provided, DefaultDirectivesMatchFunc will be used
	// for validation
	if len(options.DirectiveSources) == 0 {
		masks, knownDirective = DefaultDirectivesMatchFunc(directiveName)
	}
''','''	if len(options.DirectiveSources) == 0 {
		masks, knownDirective = DefaultDirectivesMatchFunc(directiveName)
	} else {
		masks, knownDirective = lookupAll(options.DirectiveSources, directiveName)
	}
'''),helper('''func lookupAll(sources []MatchFunc, name string) (masks []uint, known bool) {
	for i := 0; i < len(sources); i++ {
		m, found := sources[i](name)
		if !found {
			continue
		}
		known = true
		masks = append(masks, m...)
	}
	return masks, known
}''')),
("early",(A,'''	// if we don't know where this directive is allowed and how
	// many arguments it can take then don't bother analyzing it
	if !knownContext || !knownDirective {
		return nil
	}
''','''	if !knownContext {
		return nil
	}
	if !knownDirective {
		return nil
	}
''')),
("maskloop",(A,'''	for i := 0; i < len(ctxMasks); i++ {
		mask := ctxMasks[i]
''','''	for _, mask := range ctxMasks {
''')),
("acceptsfn",(A,'''		// if the directive isn't a block but should be according to the mask
		if (mask&ngxConfBlock) != 0 && term != "{" {
			what = fmt.Sprintf(`directive "%s" has no opening "{"`, stmt.Directive)
			continue
		}

		// if the directive is a block but shouldn't be according to the mask
		if (mask&ngxConfBlock) == 0 && term != ";" {
			what = fmt.Sprintf(`directive "%s" is not terminated by ";"`, stmt.Directive)
			continue
		}
''','''		if w := checkTerm(mask, term, stmt.Directive); w != "" {
			what = w
			continue
		}
'''),helper('''func checkTerm(mask uint, term, name string) string {
	isBlock := mask&ngxConfBlock != 0
	switch {
	case isBlock && term != "{":
		return fmt.Sprintf(`directive "%s" has no opening "{"`, name)
	case !isBlock && term != ";":
		return fmt.Sprintf(`directive "%s" is not terminated by ";"`, name)
	}
	return ""
}''')),
("flagsplit",(A,'''((mask&ngxConfFlag) != 0 && len(stmt.Args) == 1 && validFlag(stmt.Args[0])) ||
''','''(len(stmt.Args) == 1 && mask&ngxConfFlag == ngxConfFlag && validFlag(stmt.Args[0])) ||
'''),(U,'''	l := strings.ToLower(s)
	return l == "on" || l == "off"''','''	switch strings.ToLower(s) {
	case "on", "off":
		return true
	}
	return false''')),
("flagfold",(U,'''	l := strings.ToLower(s)
	return l == "on" || l == "off"''','''	return strings.EqualFold(s, "on") || strings.EqualFold(s, "off")''')),
("keyloop",('parse.go','''	return strings.Join(c, ">")''','''	const sep = ">"
	return strings.Join([]string(c), sep)''')),
("mapmask",(M,'''	if mask, ok := masks.specialParameterMasks[parameter.Directive]; ok {
		// use mask to check the parameter's arguments
		if hasValidArguments(mask, parameter.Args) {
			return nil
		}

		return &ParseError{
			What:      "invalid number of parameters",
			File:      &fname,
			Line:      &parameter.Line,
			Statement: parameter.String(),
			BlockCtx:  mapCtx,
		}
	}

	mask := masks.defaultMasks
''','''	mask, special := masks.specialParameterMasks[parameter.Directive]
	if !special {
		mask = masks.defaultMasks
	}
''')),
("mapif",(M,'''	if !known {
		return nil
	}
	if term != ";" {
		return &ParseError{''','''	if !known {
		return nil
	} else if ";" != term {
		return &ParseError{''')),
("validargs",(M,'''	return ((mask>>len(args)&1) != 0 && len(args) <= 7) || // NOARGS to TAKE7
		((mask&ngxConfFlag) != 0 && len(args) == 1 && validFlag(args[0])) ||
		((mask & ngxConfAny) != 0) ||
		((mask&ngxConf1More) != 0 && len(args) >= 1) ||
		((mask&ngxConf2More) != 0 && len(args) >= 2)''','''	n := len(args)
	switch {
	case mask&ngxConfAny != 0:
		return true
	case mask&ngxConf1More != 0 && n > 0:
		return true
	case mask&ngxConf2More != 0 && n > 1:
		return true
	case mask&ngxConfFlag != 0 && n == 1 && validFlag(args[0]):
		return true
	}
	return n < 8 && mask&(1<<n) != 0''')),
("validexpr",(U,'''	l := len(d.Args)
	b := 0
	e := l - 1

	return l > 0 &&
''','''	l := len(d.Args)
	if l == 0 {
		return false
	}
	b := 0
	e := l - 1

	return true &&
''')),
]
