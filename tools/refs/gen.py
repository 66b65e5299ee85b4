T='internal/generator/generator_util.go'
SRC=open('/repo/'+T).read()
def fn(name):
    a=SRC.index('func '+name+'('); return SRC[a:SRC.index('\n}\n',a)+3]
GEN=fn('genFromSrcCode'); FILE=fn('masksFromFile'); TREE=fn('getMasksFromPath')
FILT=GEN[GEN.index('	filter :='):GEN.index('	err = supp')]
CONV=FILE[FILE.index('			directiveMask := strings.Split'):FILE.index('		}\n	}\n	return directive2Masks, nil')]
MUTS=[
('filterloop',(T,FILT,'''	for d := range config.Filter {
		delete(directive2Masks, d)
	}
	for d, masks := range config.Override {
		if _, found := directive2Masks[d]; found {
			directive2Masks[d] = masks
		}
	}
''')),
('swap',(T,FILT,'''	for d := range directive2Masks {
		if _, found := config.Filter[d]; found {
			delete(directive2Masks, d)
			continue
		}
		masks, found := config.Override[d]
		if !found {
			continue
		}
		directive2Masks[d] = masks
	}
''')),
('newmap',(T,FILT,'''	selected := make(map[string][]Mask, len(directive2Masks))
	for d, masks := range directive2Masks {
		if _, found := config.Filter[d]; found {
			continue
		}
		if over, found := config.Override[d]; found {
			masks = over
		}
		selected[d] = masks
	}
	directive2Masks = selected
''')),
('helpers',(T,FILT,'''	config.filter(directive2Masks)
	override(directive2Masks, config.Override)
'''),(T,'func genFromSrcCode(','''func (c GenerateConfig) filter(masks map[string][]Mask) {
	if len(c.Filter) == 0 {
		return
	}
	for d := range masks {
		if _, found := c.Filter[d]; found {
			delete(masks, d)
		}
	}
}

func override(masks, by map[string][]Mask) {
	for d := range masks {
		if m, ok := by[d]; ok {
			masks[d] = m
		}
	}
}

func genFromSrcCode(''')),
('returnexec',(T,'''	err = supportFileTmpl.Execute(writer''','''	return supportFileTmpl.Execute(writer'''),(T,'''		MatchFnComment:  config.MatchFuncComment,
	})
	if err != nil {
		return err
	}

	return nil
}''','''		MatchFnComment:  config.MatchFuncComment,
	})
}''')),
('dataptr',(T,'''	err = supportFileTmpl.Execute(writer, supportFileTmplStruct{''','''	data := supportFileTmplStruct{'''),(T,'''		MatchFnComment:  config.MatchFuncComment,
	})
	if err''','''		MatchFnComment:  config.MatchFuncComment,
	}
	err = supportFileTmpl.Execute(writer, &data)
	if err''')),
('rename',(T,'''	MapVariableName string
''','''	MapName         string
'''),(T,'''		MapVariableName: c''','''		MapName: c'''),('internal/generator/tmpl/support_file.tmpl','{{.MapVariableName}} =','{{.MapName}} ='),('internal/generator/tmpl/support_file.tmpl','{{.MapVariableName}}[','{{.MapName}}[')),
('tmpl',('internal/generator/tmpl/support_file.tmpl','''{{if ne .MatchFnComment ""}}// {{.MatchFnComment}}{{end}}
''','''{{if .MatchFnComment}}// {{.MatchFnComment}}{{end}}
''')),
('convhelper',(T,CONV,'''			directiveMask, err := toMask(directiveName, strings.Split(attributes[2], "|"))
			if err != nil {
				return nil, err
			}
			directive2Masks[directiveName] = append(directive2Masks[directiveName], directiveMask)
'''),(T,'//nolint:nonamedreturns\nfunc masksFromFile','''func toMask(directiveName string, names []string) (Mask, error) {
	mask := make(Mask, 0, len(names))
	for _, name := range names {
		v, found := ngxVarNameToGo[strings.TrimSpace(name)]
		if !found {
			return nil, fmt.Errorf("parsing directive %s, bitmask %s in source code not found in crossplane", directiveName, name)
		}
		mask = append(mask, v)
	}
	return mask, nil
}

//nolint:nonamedreturns
func masksFromFile''')),
('convnew',(T,CONV,'''			parts := strings.Split(attributes[2], "|")
			mask := make(Mask, len(parts))
			for i := range parts {
				v, found := ngxVarNameToGo[strings.TrimSpace(parts[i])]
				if !found {
					return nil, fmt.Errorf("parsing directive %s, bitmask %s in source code not found in crossplane", directiveName, parts[i])
				}
				mask[i] = v
			}
			masks := directive2Masks[directiveName]
			masks = append(masks, mask)
			directive2Masks[directiveName] = masks
''')),
('indexloops',(T,'''	for _, block := range blocks {''','''	for i := 0; i < len(blocks); i++ {
		block := blocks[i]'''),(T,'''		for _, attributes := range subBlocks {''','''		for j := range subBlocks {
			attributes := subBlocks[j]''')),
('nested',(T,'''		subBlocks := singleDirectiveExtracter.FindAllStringSubmatch(block[2], -1)

''',''),(T,'range subBlocks {','range singleDirectiveExtracter.FindAllStringSubmatch(block[2], -1) {'),(T,'''	blocks := directivesDefineBlockExtracter.FindAllStringSubmatch(strContent, -1)

	for _, block := range blocks {''','''	for _, block := range directivesDefineBlockExtracter.FindAllStringSubmatch(strContent, -1) {''')),
('clean',(T,FILE[FILE.index('	strContent := string'):FILE.index('	// Extract directives def')],'''	strContent := withoutComments(string(byteContent))

'''),(T,'//nolint:nonamedreturns\nfunc masksFromFile','''func withoutComments(s string) string {
	for _, re := range []*regexp.Regexp{singleLineCommentExtracter, multiLineCommentExtracter} {
		s = re.ReplaceAllString(s, "")
	}
	return strings.NewReplacer("\\r\\n", "", "\\n", "").Replace(s)
}

//nolint:nonamedreturns
func masksFromFile''')),
('ext',(T,'''		if !(strings.HasSuffix(path, ".c") || strings.HasSuffix(path, ".cpp")) {
			return nil
		}
''','''		switch filepath.Ext(path) {
		case ".c", ".cpp":
		default:
			return nil
		}
''')),
('walkhelper',(T,'''		if d.IsDir() {
			return nil
		}

		if !(strings.HasSuffix(path, ".c") || strings.HasSuffix(path, ".cpp")) {
			return nil
		}
''','''		if d.IsDir() || !isSource(d.Name()) {
			return nil
		}
'''),(T,'//nolint:nonamedreturns\nfunc getMasksFromPath','''func isSource(name string) bool {
	return strings.HasSuffix(name, ".c") || strings.HasSuffix(name, ".cpp")
}

//nolint:nonamedreturns
func getMasksFromPath''')),
('addhelper',(T,'''		for directive, masksInFile := range directive2MasksInFile {
			directive2Masks[directive] = append(directive2Masks[directive], masksInFile...)
		}

		return nil
''','''		add(directive2Masks, directive2MasksInFile)
		return nil
'''),(T,'//nolint:nonamedreturns\nfunc getMasksFromPath','''func add(to, from map[string][]Mask) {
	for d, masks := range from {
		for _, m := range masks {
			to[d] = append(to[d], m)
		}
	}
}

//nolint:nonamedreturns
func getMasksFromPath''')),
('addpart',(T,'''			directive2Masks[directive] = append(directive2Masks[directive], masksInFile...)
''','''			known, found := directive2Masks[directive]
			if !found {
				directive2Masks[directive] = masksInFile
				continue
			}
			directive2Masks[directive] = append(known, masksInFile...)
''')),
('oldwalk',(T,'filepath.WalkDir(path, func(path string, d fs.DirEntry, err error)','filepath.Walk(path, func(path string, d fs.FileInfo, err error)')),
('pathsfirst',(T,TREE,'''func getMasksFromPath(path string) (directive2Masks map[string][]Mask, err error) {
	directive2Masks = make(map[string][]Mask, 0)
	var files []string
	err = filepath.WalkDir(path, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() && (strings.HasSuffix(path, ".c") || strings.HasSuffix(path, ".cpp")) {
			files = append(files, path)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		masks, err := masksFromFile(f)
		if err != nil {
			return nil, err
		}
		for directive, m := range masks {
			directive2Masks[directive] = append(directive2Masks[directive], m...)
		}
	}
	if len(directive2Masks) == 0 {
		return nil, errors.New("can't find any directives in the directory and subdirectories, please check the path")
	}
	return directive2Masks, nil
}
''')),
]
