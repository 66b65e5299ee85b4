U='util.go'; A='analyze.go'; P='parse.go'; B='build.go'; X='lex.go'
G='''	for _, config := range old.Config {
		combined.Errors = append(combined.Errors, config.Errors...)
		if config.Status == "failed" {
			combined.Status = "failed"
		}
	}
'''
W='''	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed) {
		if incl.err != nil {
			return nil, incl.err
		}
'''
MUTS=[
('waitgroup',(U,G,'''	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, config := range old.Config {
			combined.Errors = append(combined.Errors, config.Errors...)
			if config.Status == "failed" {
				combined.Status = "failed"
			}
		}
	}()
	wg.Wait()
'''),(U,'	"strings"\n','	"strings"\n	"sync"\n')),
('donechan',(U,G,'''	done := make(chan struct{})
	go func() {
		defer close(done)
		for _, config := range old.Config {
			combined.Errors = append(combined.Errors, config.Errors...)
			if config.Status == "failed" {
				combined.Status = "failed"
			}
		}
	}()
	<-done
''')),
('dedupesorted',(P,'''				sort.Strings(fnames)
''','''				set := make(map[string]int, len(fnames))
				for _, f := range fnames {
					set[f]++
				}
				names := make([]string, 0, len(fnames))
				for f, n := range set {
					for ; n > 0; n-- {
						names = append(names, f)
					}
				}
				sort.Strings(names)
				fnames = names
''')),
('fnamescopy',(P,'''				sort.Strings(fnames)
''','''				fnames = append([]string(nil), fnames...)
				sort.Strings(fnames)
''')),
('slicessort',(A,'''	var ctxMasks []uint
''','''	ctxMasks := make([]uint, 0, len(masks))
''')),
('queuesorted',(P,'''	fileCount := 0
''','''	sort.Strings(queue)
	fileCount := 0
''')),
('opts',(B,'''	opts := *options
	options = &opts
	if options.Indent <= 0 {
		options.Indent = 4
	}
''','''	options = &BuildOptions{Indent: options.Indent, Tabs: options.Tabs, Header: options.Header, Builders: options.Builders}
	if options.Indent <= 0 {
		options.Indent = 4
	}
''')),
('dircopy',(U,'''			dir := *d
			if dir.IsBlock() {''','''			dir := Directive{
				Directive:           d.Directive,
				Line:                d.Line,
				Args:                d.Args,
				File:                d.File,
				Includes:            d.Includes,
				Block:               d.Block,
				Comment:             d.Comment,
				IsMapBlockParameter: d.IsMapBlockParameter,
			}
			if dir.IsBlock() {''')),
('sendpointer',(U,'''				c <- included{directive: &dir}
				continue
''','''				out := dir
				c <- included{directive: &out}
				continue
''')),
('lexclosure',(X,'''	go tokenize(r, tc, options)
	return tc
''','''	go func() {
		tokenize(r, tc, options)
	}()
	return tc
''')),
('fullslice',(A,'''			masks = append(masks, masksInFn...)
''','''			if masks == nil {
				masks = masksInFn[:len(masksInFn):len(masksInFn)]
			} else {
				masks = append(masks, masksInFn...)
			}
''')),
('maskscopy',(A,'''	var ctxMasks []uint
''','''	masks = append([]uint(nil), masks...)
	var ctxMasks []uint
''')),
('failedset',(U,G,'''	statuses := map[string]int{}
	for _, config := range old.Config {
		combined.Errors = append(combined.Errors, config.Errors...)
		statuses[config.Status]++
	}
	for s := range statuses {
		if s == "failed" {
			combined.Status = "failed"
		}
	}
''')),
('anyfailed',(P,'''	for k, v := range p.includeInDegree {
		if v == 0 {
			queue = append(queue, k)
		}
	}
''','''	for k := range p.includeInDegree {
		if p.includeInDegree[k] > 0 {
			continue
		}
		queue = append(queue, k)
	}
''')),
]
