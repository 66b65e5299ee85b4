B='build.go'; U='util.go'
import os
SRC=open('/repo/build.go').read()
def body(name):
    a=SRC.index('func '+name+'('); b=SRC.index('\n}\n',a)+3
    return SRC[a:b]
NEED=body('needsQuote'); ESC=body('escape'); ENQ=body('Enquote')
LOOP=NEED[NEED.index('	expanding := false'):NEED.index('	return expanding')]
REPR='''	q := fmt.Sprintf("%q", s)
	for _, char := range s {
		if char == '"' {
			q = strings.ReplaceAll(q, `\\"`, `"`)
			q = strings.ReplaceAll(q, `'`, `\\'`)
			q = `'` + q[1:len(q)-1] + `'`
			return q
		}
	}
	return q
'''
MUTS=[
('switch',(B,LOOP,'''	expanding := false
	prev := char
	for _, c := range chars {
		char = c
		switch {
		case prev == '\\\\':
			prev = 0
			continue
		case unicode.IsSpace(c), c == '{', c == ';', c == '"', c == '\\'':
			return true
		case expanding && prev == '$' && c == '{', !expanding && c == '}':
			return true
		case expanding && c == '}':
			expanding = false
		case !expanding && prev == '$' && c == '{':
			expanding = true
		}
		prev = c
	}

''')),
('helper',(B,'''		if unicode.IsSpace(char) || strings.ContainsRune("{;\\"'", char) {
			return true
		}
''','''		if isSeparator(char) {
			return true
		}
'''),(B,'func escape(','''func isSeparator(c rune) bool {
	switch c {
	case '{', ';', '"', '\\'':
		return true
	}
	return unicode.IsSpace(c)
}

func escape(''')),
('reprcontains',(U,REPR,'''	q := fmt.Sprintf("%q", s)
	if !strings.Contains(s, `"`) {
		return q
	}
	q = strings.ReplaceAll(q, `\\"`, `"`)
	q = strings.ReplaceAll(q, `'`, `\\'`)
	return "'" + q[1:len(q)-1] + "'"
''')),
('reprrune',(U,REPR,'''	q := strconv.Quote(s)
	if strings.ContainsRune(s, '"') {
		inner := strings.ReplaceAll(strings.ReplaceAll(q, `\\"`, `"`), `'`, `\\'`)
		q = `'` + inner[1:len(inner)-1] + `'`
	}
	return q
'''),(U,'"fmt"\n','"fmt"\n\t"strconv"\n')),
('enquote',(B,ENQ,'''func Enquote(arg string) string {
	if needsQuote(arg) {
		return strings.Replace(repr(arg), `\\\\`, `\\`, -1)
	}
	return arg
}
''')),
('escapeappend',(B,ESC,ESC.replace('sb := strings.Builder{}','var sb strings.Builder\n	sb.Grow(len(s))').replace('''		if pc == '\\\\' || (pc == '$' && cc == '{') {
			sb.WriteRune(pc)
			sb.WriteRune(cc)
			pc = 0
			continue
		}

		if pc == '$' {
			sb.WriteRune(pc)
		}
		if cc != '\\\\' && cc != '$' {
			sb.WriteRune(cc)
		}
		pc = cc
''','''		switch {
		case pc == '\\\\', pc == '$' && cc == '{':
			sb.WriteString(string(pc) + string(cc))
			pc = 0
		default:
			if pc == '$' {
				sb.WriteByte('$')
			}
			if cc != '\\\\' && cc != '$' {
				sb.WriteRune(cc)
			}
			pc = cc
		}
'''))),
('noescape',(B,'	chars := escape(s)\n','	chars := s\n'),(B,"	return expanding || char == '\\\\' || char == '$'","	return expanding || prev == '\\\\' || char == '$'"),(B,ESC,'')),
('firstbyte',(B,'''	char, off := utf8.DecodeRuneInString(chars)
''','''	var off int
	char, off = utf8.DecodeRuneInString(chars)
''')),
('fullrange',(B,NEED,'''func needsQuote(s string) bool {
	chars := escape(s)
	if s == "" || strings.HasPrefix(chars, "${") {
		return true
	}
	expanding := false
	var prev, char rune
	for i, c := range chars {
		char = c
		if i == 0 {
			if unicode.IsSpace(c) || strings.ContainsRune("{};\\"'#", c) {
				return true
			}
			prev = c
			continue
		}
		if prev == '\\\\' {
			prev = 0
			continue
		}
		if unicode.IsSpace(c) || strings.ContainsRune("{;\\"'", c) {
			return true
		}
		if !expanding && c == '}' {
			return true
		}
		prev = c
	}
	return expanding || char == '\\\\' || char == '$'
}
'''),(B,'\t"unicode/utf8"\n','')),
('runes',(B,LOOP,LOOP.replace('range chars {','range []rune(chars) {'))),
('index',(B,LOOP,LOOP.replace('for _, c := range chars {','rs := []rune(chars)\n\tfor i := 0; i < len(rs); i++ {\n\t\tc := rs[i]'))),
('decode',(B,LOOP,LOOP.replace('for _, c := range chars {','for len(chars) > 0 {\n\t\tc, size := utf8.DecodeRuneInString(chars)\n\t\tchars = chars[size:]'))),
('quotenow',(B,ENQ,'''func Enquote(arg string) string {
	quoted := strings.ReplaceAll(repr(arg), `\\\\`, `\\`)
	if !needsQuote(arg) {
		quoted = arg
	}
	return quoted
}
''')),
]
