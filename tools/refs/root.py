P='parse.go'
def helper(s): return (P,"func (p *parser) openFile(",s+"\n\nfunc (p *parser) openFile(")
BODY='''		file, err := p.openFile(incl.path)
		if err != nil {
			return nil, err
		}

		defer file.Close()

		tokens := LexWithOptions(file, options.LexOptions)
		config := Config{
			File:   incl.path,
			Status: "ok",
			Errors: []ConfigError{},
			Parsed: Directives{},
		}
		parsed, err := p.parse(&config, tokens, incl.ctx, false)
		// let the lexer finish: it would wait forever for the rest of its tokens to be read
		for range tokens { //nolint:revive
		}
		if err != nil {
			if options.StopParsingOnError {
				return nil, err
			}
			handleError(&config, err)
		} else {
			config.Parsed = parsed
		}

		payload.Config = append(payload.Config, config)
'''
MUTS=[
("parsefile",(P,BODY,'''		config, err := p.parseFile(incl)
		if err != nil {
			return nil, err
		}
		payload.Config = append(payload.Config, *config)
'''),helper('''func (p *parser) parseFile(incl fileCtx) (*Config, error) {
	file, err := p.openFile(incl.path)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	config := &Config{
		File:   incl.path,
		Status: "ok",
		Errors: []ConfigError{},
		Parsed: Directives{},
	}
	tokens := LexWithOptions(file, p.options.LexOptions)
	parsed, err := p.parse(config, tokens, incl.ctx, false)
	drain(tokens)
	if err == nil {
		config.Parsed = parsed
		return config, nil
	}
	if p.options.StopParsingOnError {
		return nil, err
	}
	p.handleError(config, err)
	return config, nil
}

func drain(tokens <-chan NgxToken) {
	for range tokens { //nolint:revive
	}
}''')),
("deferdrain",(P,'''		// let the lexer finish: it would wait forever for the rest of its tokens to be read
		for range tokens { //nolint:revive
		}
''','''		for {
			if _, ok := <-tokens; !ok {
				break
			}
		}
''')),
("index",(P,'''	for len(p.includes) > 0 {
		incl := p.includes[0]
		p.includes = p.includes[1:]
''','''	for i := 0; i < len(p.includes); i++ {
		incl := p.includes[i]
''')),
("closelater",(P,'''		defer file.Close()

''',''),(P,'''		if err != nil {
			if options.StopParsingOnError {''','''		file.Close()
		if err != nil {
			if options.StopParsingOnError {''')),
("closefn",(P,'''		defer file.Close()
''','''		defer func() { _ = file.Close() }()
''')),
("recorder",(P,'''	handleError := func(config *Config, err error) {
		var line *int
		if e, ok := err.(*ParseError); ok {
			line = e.Line
		}
		cerr := ConfigError{Line: line, Error: err}
		perr := PayloadError{Line: line, Error: err, File: config.File}
		if options.ErrorCallback != nil {
			perr.Callback = options.ErrorCallback(err)
		}

		const failedSts = "failed"
		config.Status = failedSts
		config.Errors = append(config.Errors, cerr)

		payload.Status = failedSts
		payload.Errors = append(payload.Errors, perr)
	}
''','''	rec := &recorder{payload, options.ErrorCallback}
	handleError := rec.record
'''),helper('''type recorder struct {
	payload  *Payload
	callback func(error) interface{}
}

func (r *recorder) record(config *Config, err error) {
	line := lineOf(err)
	perr := PayloadError{File: config.File, Line: line, Error: err}
	if r.callback != nil {
		perr.Callback = r.callback(err)
	}
	r.payload.Errors = append(r.payload.Errors, perr)
	r.payload.Status = "failed"
	config.Errors = append(config.Errors, ConfigError{Line: line, Error: err})
	config.Status = "failed"
}

func lineOf(err error) *int {
	switch e := err.(type) {
	case *ParseError:
		return e.Line
	default:
		return nil
	}
}''')),
("newpayload",(P,'''	payload := &Payload{
		Status: "ok",
		Errors: []PayloadError{},
		Config: []Config{},
	}
''','''	payload := newPayload()
'''),helper('''func newPayload() *Payload {
	var p Payload
	p.Status = "ok"
	p.Errors = make([]PayloadError, 0)
	p.Config = make([]Config, 0, 4)
	return &p
}''')),
("combinelast",(P,'''	if options.CombineConfigs {
		return payload.Combined()
	}

	return payload, nil
}''','''	if !options.CombineConfigs {
		return payload, nil
	}
	return combineConfigs(payload)
}''')),
("newparser",(P,'''	p := parser{
		configDir:   filepath.Dir(filename),''','''	p := &parser{
		configDir:   filepath.Dir(filename),''')),
("errfirst",(P,'''		if err != nil {
			if options.StopParsingOnError {
				return nil, err
			}
			handleError(&config, err)
		} else {
			config.Parsed = parsed
		}
''','''		switch {
		case err == nil:
			config.Parsed = parsed
		case options.StopParsingOnError:
			return nil, err
		default:
			p.handleError(&config, err)
		}
''')),
("queuemethod",(P,'''	for len(p.includes) > 0 {
		incl := p.includes[0]
		p.includes = p.includes[1:]
''','''	for {
		incl, ok := p.next()
		if !ok {
			break
		}
'''),helper('''func (p *parser) next() (fileCtx, bool) {
	if len(p.includes) == 0 {
		return fileCtx{}, false
	}
	f := p.includes[0]
	p.includes = p.includes[1:]
	return f, true
}''')),
]
