U='util.go'
FULL=open('/repo/util.go').read()
COMB=FULL[FULL.index('// combineConfigs combines'):FULL.index('func performIncludes(')]
GEN=FULL[FULL.index('func performIncludes('):]
MUTS=[
('renames',(U,'		for incl := range performIncludes(old, fromfile, dir.Block) {\n					if incl.err != nil {\n						c <- incl\n						return\n					}\n					nblock = append(nblock, incl.directive)','		for got := range performIncludes(old, fromfile, dir.Block) {\n					if got.err != nil {\n						c <- included{err: got.err}\n						return\n					}\n					nblock = append(nblock, got.directive)')),
('statushelper',(U,'		if config.Status == "failed" {\n			combined.Status = "failed"\n		}','		if hasFailed(&config) {\n			combined.Status = config.Status\n		}'),(U,'// combineConfigs combines','func hasFailed(c *Config) bool { return c.Status == "failed" }\n\n// combineConfigs combines')),
('twoloops',(U,'		combined.Errors = append(combined.Errors, config.Errors...)\n		if config','		combined.Errors = append(combined.Errors, config.Errors...)\n	}\n	for _, config := range old.Config {\n		if config')),
('breakstatus',(U,'		combined.Errors = append(combined.Errors, config.Errors...)\n		if config.Status == "failed" {\n			combined.Status = "failed"\n','		combined.Errors = append(combined.Errors, config.Errors...)\n	}\n	for _, config := range old.Config {\n		if config.Status == "failed" {\n			combined.Status = "failed"\n			break\n')),
('eacherr',(U,'		combined.Errors = append(combined.Errors, config.Errors...)','		for _, e := range config.Errors {\n			combined.Errors = append(combined.Errors, e)\n		}')),
('index',(U,'	for _, config := range old.Config {','	for i := 0; i < len(old.Config); i++ {\n		config := &old.Config[i]')),
('firsterrs',(U,'	for _, config := range old.Config {\n		combined.Errors','	for i, config := range old.Config {\n		if i == 0 && len(config.Errors) == 0 && config.Status != "failed" {\n			continue\n		}\n		combined.Errors')),
('ptrdirect',(U,'	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed) {\n		if incl.err != nil {\n			return nil, incl.err\n		}\n		combined.Parsed = append(combined.Parsed, incl.directive)\n	}','	ch := performIncludes(old, combined.File, old.Config[0].Parsed)\n	for {\n		incl, ok := <-ch\n		if !ok {\n			break\n		}\n		if err := incl.err; err != nil {\n			return nil, err\n		}\n		combined.Parsed = append(combined.Parsed, incl.directive)\n	}')),
('buffered',(U,'	c := make(chan included)','	c := make(chan included, 8)')),
('namedfn',(U,'	go func() {\n		defer close(c)\n		for _, d := range block {','	go generate(old, fromfile, block, c)\n	return c\n}\n\nfunc generate(old *Payload, fromfile string, block Directives, c chan included) {\n		defer close(c)\n		for _, d := range block {'),(U,'			}\n		}\n	}()\n	return c\n}\n','			}\n		}\n}\n')),
('closelast',(U,'			if !dir.IsInclude() {\n				c <- included{directive: &dir}\n				continue\n			}\n			for _, idx','			if !dir.IsInclude() {\n				out := included{}\n				out.directive = &dir\n				c <- out\n				continue\n			}\n			for _, idx')),
('rangehelper',(U,'			for _, idx := range dir.Includes {\n				if idx < 0 || idx >= len(old.Config) {','			for k := range dir.Includes {\n				idx := dir.Includes[k]\n				if !(0 <= idx && idx < len(old.Config)) {')),
('errhelper',(U,'					c <- included{\n						err: &ParseError{\n							What:      fmt.Sprintf("include config with index: %d", idx),\n							File:      &fromfile,\n							Line:      &dir.Line,\n							Statement: dir.String(),\n						},\n					}\n','					c <- included{err: badInclude(fromfile, &dir, idx)}\n'),(U,'// combineConfigs combines','func badInclude(file string, d *Directive, idx int) error {\n	line := d.Line\n	return &ParseError{What: fmt.Sprintf("include config with index: %d", idx), File: &file, Line: &line, Statement: d.String()}\n}\n\n// combineConfigs combines')),
('expandhelper',(U,'				nblock := Directives{}\n				for incl := range performIncludes(old, fromfile, dir.Block) {\n					if incl.err != nil {\n						c <- incl\n						return\n					}\n					nblock = append(nblock, incl.directive)\n				}\n				dir.Block = nblock\n','				nblock, err := collect(performIncludes(old, fromfile, dir.Block))\n				if err != nil {\n					c <- included{err: err}\n					return\n				}\n				dir.Block = nblock\n'),(U,'	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed) {\n		if incl.err != nil {\n			return nil, incl.err\n		}\n		combined.Parsed = append(combined.Parsed, incl.directive)\n	}','	parsed, err := collect(performIncludes(old, combined.File, old.Config[0].Parsed))\n	if err != nil {\n		return nil, err\n	}\n	combined.Parsed = parsed'),(U,'// combineConfigs combines','func collect(c chan included) (Directives, error) {\n	ds := Directives{}\n	for i := range c {\n		if i.err != nil {\n			return nil, i.err\n		}\n		ds = append(ds, i.directive)\n	}\n	return ds, nil\n}\n\n// combineConfigs combines')),
('target',(U,'				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed) {','				target := &old.Config[idx]\n				for incl := range performIncludes(old, target.File, target.Parsed) {')),
('switch',(U,'			if !dir.IsInclude() {\n				c <- included{directive: &dir}\n				continue\n			}\n			for _, idx','			if incl := dir.IsInclude(); !incl {\n				c <- included{&dir, nil}\n				continue\n			}\n			for _, idx')),
('literal',(U,'	combined := Config{\n		File:   old.Config[0].File,\n		Status: "ok",\n		Errors: []ConfigError{},\n		Parsed: Directives{},\n	}\n','	var combined Config\n	main := old.Config[0]\n	combined.File = main.File\n	combined.Status = "ok"\n	combined.Errors = make([]ConfigError, 0)\n	combined.Parsed = make(Directives, 0, len(main.Parsed))\n')),
('copyptr',(U,'			dir := *d\n','			copied := *d\n			dir := &copied\n'),(U,'directive: &dir','directive: dir')),
('isblocklen',(U,'	if len(old.Config) < 1 {','	if len(old.Config) == 0 {')),
('retpayload',(U,'	return &Payload{\n		Status: status,\n		Errors: errors,\n		Config: []Config{combined},\n	}, nil','	res := new(Payload)\n	res.Status, res.Errors = status, errors\n	res.Config = append(res.Config, combined)\n	return res, nil')),
]
