package ai

import (
	"go/types"
	"path"
	"strings"
)

// Model is the effect of a library function.
type Model func(st *State, c *CallInfo) []Outcome

func one(st *State, r *T) []Outcome { return []Outcome{{st, r}} }

func pure(f func(a []*T) *T) Model {
	return func(st *State, c *CallInfo) []Outcome { return one(st, f(c.Args)) }
}

// on splits on a condition.
func on(st *State, c *T, yes, no func(st *State) *T) []Outcome {
	y, n := st.Split(st.norm(c))
	var out []Outcome
	if y != nil {
		out = append(out, Outcome{y, yes(y)})
	}
	if n != nil {
		out = append(out, Outcome{n, no(n)})
	}
	return out
}

func substr(s, lo, hi *T) *T { return App("substr", strT, s, lo, hi) }

func typed(t *T, ty types.Type) *T {
	if t.Typ == nil {
		t.Typ = ty
	}
	return t
}

var models map[string]Model

func errNew(s *T) *T { return raw("errnew", nil, s) }

func init() {
	app := func(op string, ty types.Type) Model {
		return pure(func(a []*T) *T { return App(op, ty, a...) })
	}
	models = map[string]Model{
		"strings.HasPrefix":  app("hasprefix", boolT),
		"strings.HasSuffix":  app("hassuffix", boolT),
		"strings.Contains": func(st *State, c *CallInfo) []Outcome {
			if s, ok := c.Args[0].IsStr(); ok && len(s) <= 8 {
				if _, known := c.Args[1].IsStr(); !known {
					// one of the few parts of a short text
					var cs []*T
					seen := map[string]bool{}
					for i := 0; i <= len(s); i++ {
						for j := i; j <= len(s); j++ {
							if w := s[i:j]; !seen[w] {
								seen[w] = true
								cs = append(cs, Eq(c.Args[1], Str(w)))
							}
						}
					}
					return one(st, Or(cs...))
				}
			}
			return one(st, App("contains", boolT, c.Args...))
		},
		"strings.TrimSpace":  app("trimspace", strT),
		"strings.ToLower":    app("lower", strT),
		"strings.Join":       app("join", strT),
		"strings.ReplaceAll": app("replaceall", strT),
		"strings.Replace": func(st *State, c *CallInfo) []Outcome {
			if n, ok := c.Args[3].IsInt(); ok && n < 0 {
				return one(st, App("replaceall", strT, c.Args[:3]...))
			}
			return one(st, App("replacen", strT, c.Args...))
		},
		"strings.Repeat": func(st *State, c *CallInfo) []Outcome {
			st.E.oblige(st, "repeat", st.Eval(Le(Int(0), c.Args[1])) == 1, c.Instr, "strings.Repeat with count %s, which may be negative", c.Args[1])
			if s, ok := c.Args[0].IsStr(); ok {
				if n, ok := c.Args[1].IsInt(); ok && n >= 0 && n <= 4096 {
					return one(st, Str(strings.Repeat(s, int(n))))
				}
			}
			return one(st, App("repeat", strT, c.Args...))
		},
		"strings.EqualFold": func(st *State, c *CallInfo) []Outcome {
			if s, ok := c.Args[1].IsStr(); ok {
				return one(st, Eq(App("lower", strT, c.Args[0]), Str(strings.ToLower(s))))
			}
			return one(st, App("equalfold", boolT, c.Args...))
		},
		"strings.ContainsRune": func(st *State, c *CallInfo) []Outcome {
			if s, ok := c.Args[0].IsStr(); ok {
				var cs []*T
				for _, r := range s {
					cs = append(cs, Eq(c.Args[1], Int(int64(r))))
				}
				return one(st, Or(cs...))
			}
			return one(st, App("containsrune", boolT, c.Args...))
		},
		"strings.IndexRune": func(st *State, c *CallInfo) []Outcome {
			if s, ok := c.Args[0].IsStr(); ok {
				var cs []*T
				for _, r := range s {
					cs = append(cs, Eq(c.Args[1], Int(int64(r))))
				}
				return on(st, Or(cs...), func(st *State) *T { return st.Fresh("natidx", intT) }, func(st *State) *T { return Int(-1) })
			}
			return one(st, App("call:strings.IndexRune", intT, c.Args...))
		},
		"strings.ContainsAny": func(st *State, c *CallInfo) []Outcome { return one(st, App("containsany", boolT, c.Args...)) },
		"strings.TrimPrefix": func(st *State, c *CallInfo) []Outcome {
			return on(st, App("hasprefix", boolT, c.Args...), func(st *State) *T { return substr(c.Args[0], Len(c.Args[1]), Nil) }, func(st *State) *T { return c.Args[0] })
		},
		"strings.TrimSuffix": func(st *State, c *CallInfo) []Outcome {
			return on(st, App("hassuffix", boolT, c.Args...), func(st *State) *T {
				if n, ok := Len(c.Args[1]).IsInt(); ok {
					return substr(c.Args[0], Int(0), Add(Len(c.Args[0]), -n))
				}
				return App("trimsuffix", strT, c.Args...)
			}, func(st *State) *T { return c.Args[0] })
		},
		"strings.CutPrefix": func(st *State, c *CallInfo) []Outcome {
			return on(st, App("hasprefix", boolT, c.Args...), func(st *State) *T { return Tuple(substr(c.Args[0], Len(c.Args[1]), Nil), True) }, func(st *State) *T { return Tuple(c.Args[0], False) })
		},
		"strings.CutSuffix": func(st *State, c *CallInfo) []Outcome {
			return on(st, App("hassuffix", boolT, c.Args...), func(st *State) *T {
				n, _ := Len(c.Args[1]).IsInt()
				return Tuple(substr(c.Args[0], Int(0), Add(Len(c.Args[0]), -n)), True)
			}, func(st *State) *T { return Tuple(c.Args[0], False) })
		},
		"strings.Cut": func(st *State, c *CallInfo) []Outcome {
			return on(st, App("contains", boolT, c.Args...), func(st *State) *T {
				return Tuple(App("before", strT, c.Args...), App("after", strT, c.Args...), True)
			}, func(st *State) *T { return Tuple(c.Args[0], Str(""), False) })
		},
		"strings.TrimLeftFunc": func(st *State, c *CallInfo) []Outcome {
			return one(st, App("trimleft", strT, trimArgs(c)...))
		},
		"strings.TrimRightFunc": func(st *State, c *CallInfo) []Outcome {
			return one(st, App("trimright", strT, trimArgs(c)...))
		},
		"strings.TrimFunc": func(st *State, c *CallInfo) []Outcome {
			return one(st, App("trimspace", strT, trimArgs(c)...))
		},
		"bytes.TrimRightFunc": func(st *State, c *CallInfo) []Outcome {
			a := trimArgs(c)
			a[0] = App("string", strT, a[0])
			return one(st, App("bytes", c.Typ, App("trimright", strT, a...)))
		},
		"strings.Split": func(st *State, c *CallInfo) []Outcome {
			r := st.norm(raw("split", c.Typ, c.Args...))
			if s, ok := c.Args[1].IsStr(); ok && s != "" {
				st.addDiff(nil, Len(r), -1)
			}
			return one(st, r)
		},
		"unicode.IsSpace": app("isspace", boolT),
		"unicode/utf8.DecodeRuneInString": func(st *State, c *CallInfo) []Outcome {
			s := c.Args[0]
			if k, ok := s.IsStr(); ok && k != "" {
				for _, r := range k {
					return one(st, Tuple(Int(int64(r)), Int(int64(len(string(r))))))
				}
			}
			n := App("runelen", intT, s)
			st.addDiff(nil, n, 0)
			if la, off := Lin(Len(s)); la != nil {
				st.addDiff(n, la, off)
			}
			return one(st, Tuple(App("firstrune", types.Typ[types.Rune], s), n))
		},
		"fmt.Sprintf": func(st *State, c *CallInfo) []Outcome { return one(st, sprintf(c.Args)) },
		"fmt.Sprint":  func(st *State, c *CallInfo) []Outcome { return one(st, App("call:fmt.Sprint", strT, c.Args...)) },
		"fmt.Errorf": func(st *State, c *CallInfo) []Outcome {
			return one(st, raw("errnew", nil, sprintf(c.Args), errOperand(c.Args)))
		},
		"invoke error.Error": func(st *State, c *CallInfo) []Outcome {
			return one(st, App("errstr", strT, c.Callee))
		},
		"errors.New": func(st *State, c *CallInfo) []Outcome { return one(st, errNew(c.Args[0])) },
		"errors.As":  modelErrorsAs,
		"errors.Is": func(st *State, c *CallInfo) []Outcome {
			// equal errors match, but others may match too
			if c.Args[0] == Nil && c.Args[1] == Nil || st.Norm(c.Args[0]) == st.Norm(c.Args[1]) {
				return one(st, True)
			}
			if c.Args[0] == Nil || c.Args[1] == Nil {
				return one(st, Eq(c.Args[0], c.Args[1]))
			}
			return one(st, App("erris", boolT, c.Args...))
		},
		"path/filepath.IsAbs": app("isabs", boolT),
		"path/filepath.Dir":   app("dir", strT),
		"path/filepath.Join":  func(st *State, c *CallInfo) []Outcome { return one(st, App("pathjoin", strT, c.Args...)) },
		"path/filepath.Base":  app("base", strT),
		"path/filepath.Ext":   app("ext", strT),
		"path/filepath.Clean": app("clean", strT),
		"slices.Contains": func(st *State, c *CallInfo) []Outcome {
			return one(st, App("listhas", boolT, c.Args...))
		},
		"slices.Equal": func(st *State, c *CallInfo) []Outcome {
			return one(st, App("listeq", boolT, c.Args...))
		},
		"slices.Clone": func(st *State, c *CallInfo) []Outcome { return one(st, App("clone", c.Typ, c.Args[0])) },
		"slices.Sort": func(st *State, c *CallInfo) []Outcome {
			st.Replace(c.Args[0], App("sorted", c.Args[0].Typ, c.Args[0]))
			return one(st, Nil)
		},
		"sort.Strings": func(st *State, c *CallInfo) []Outcome {
			if c.Args[0].K != KNil && !c.Args[0].Is("sorted") {
				st.Replace(c.Args[0], App("sorted", c.Args[0].Typ, c.Args[0]))
			}
			return one(st, Nil)
		},
		"strconv.Itoa":  app("itoa", strT),
		"strconv.Quote": app("quote", strT),

		"(*strings.Builder).WriteString": sbWrite(func(a *T) *T { return a }),
		"(*strings.Builder).WriteByte":   sbWrite1(func(a *T) *T { return byteStr(a) }),
		"(*strings.Builder).WriteRune":   sbWrite(func(a *T) *T { return App("runestr", strT, a) }),
		"(*strings.Builder).Write":       sbWrite(func(a *T) *T { return App("string", strT, a) }),
		"(*strings.Builder).String":      func(st *State, c *CallInfo) []Outcome { return one(st, st.SB(c.Args[0])) },
		"(*strings.Builder).Len":         func(st *State, c *CallInfo) []Outcome { return one(st, Len(st.SB(c.Args[0]))) },
		"(*strings.Builder).Grow":        func(st *State, c *CallInfo) []Outcome { return one(st, Nil) },
		"(*strings.Builder).Reset": func(st *State, c *CallInfo) []Outcome {
			st.SetSB(c.Args[0], Str(""))
			return one(st, Nil)
		},
		"(*bytes.Buffer).WriteString": sbWrite(func(a *T) *T { return a }),
		"(*bytes.Buffer).WriteByte":   sbWrite1(func(a *T) *T { return byteStr(a) }),
		"(*bytes.Buffer).WriteRune":   sbWrite(func(a *T) *T { return App("runestr", strT, a) }),
		"(*bytes.Buffer).Write":       sbWrite(func(a *T) *T { return App("string", strT, a) }),
		"(*bytes.Buffer).String":      func(st *State, c *CallInfo) []Outcome { return one(st, st.SB(c.Args[0])) },
		"(*bytes.Buffer).Bytes": func(st *State, c *CallInfo) []Outcome {
			return one(st, App("bytes", c.Typ, st.SB(c.Args[0])))
		},
		"(*bytes.Buffer).Len": func(st *State, c *CallInfo) []Outcome { return one(st, Len(st.SB(c.Args[0]))) },
		"(*bytes.Buffer).Reset": func(st *State, c *CallInfo) []Outcome {
			st.SetSB(c.Args[0], Str(""))
			return one(st, Nil)
		},
		"(*bytes.Buffer).Truncate": func(st *State, c *CallInfo) []Outcome {
			st.SetSB(c.Args[0], substr(st.SB(c.Args[0]), Int(0), c.Args[1]))
			return one(st, Nil)
		},
	}
	models["strings.TrimLeft"] = func(st *State, c *CallInfo) []Outcome { return one(st, App("trimleftset", strT, c.Args...)) }
	models["strings.TrimRight"] = func(st *State, c *CallInfo) []Outcome { return one(st, App("trimrightset", strT, c.Args...)) }
	models["strings.Trim"] = func(st *State, c *CallInfo) []Outcome { return one(st, App("trimset", strT, c.Args...)) }
	models["io.WriteString"] = func(st *State, c *CallInfo) []Outcome {
		if p := c.Args[0]; strings.HasPrefix(p.Op, "iface:*strings.Builder") || strings.HasPrefix(p.Op, "iface:*bytes.Buffer") {
			st.SetSB(p.Args[0], Cat(st.SB(p.Args[0]), c.Args[1]))
			return one(st, Tuple(Len(c.Args[1]), Nil))
		}
		return one(st, st.FreshOf("write", c.Typ))
	}
}

func byteStr(a *T) *T {
	if b, ok := a.IsInt(); ok {
		return Str(string([]byte{byte(b)}))
	}
	return App("bytestr", strT, a)
}

func trimArgs(c *CallInfo) []*T {
	if f := c.Args[1]; f.K == KFunc && f.Fn.String() == "unicode.IsSpace" {
		return []*T{c.Args[0]}
	}
	return []*T{c.Args[0], c.Args[1]}
}

func sbWrite(f func(*T) *T) Model {
	return func(st *State, c *CallInfo) []Outcome {
		s := f(c.Args[1])
		st.SetSB(c.Args[0], Cat(st.SB(c.Args[0]), s))
		return one(st, Tuple(Len(s), Nil))
	}
}

func sbWrite1(f func(*T) *T) Model {
	return func(st *State, c *CallInfo) []Outcome {
		st.SetSB(c.Args[0], Cat(st.SB(c.Args[0]), f(c.Args[1])))
		return one(st, Nil)
	}
}

func modelErrorsAs(st *State, c *CallInfo) []Outcome {
	// errors.As(err, &target)
	if len(c.Common.Args) != 2 {
		return one(st, st.Fresh("as", boolT))
	}
	tt := c.Common.Args[1]
	var elem types.Type
	if len(c.Args) == 2 && strings.HasPrefix(c.Args[1].Op, "iface:") {
		_ = tt
		p := c.Args[1].Args[0]
		if p.Typ != nil {
			elem = p.Typ
		}
		if elem == nil {
			return one(st, st.Fresh("as", boolT))
		}
		cond := IsType(c.Args[0], elem)
		return on(st, cond, func(s *State) *T {
			s.Store(p, AsType(s.norm(c.Args[0]), elem), elem)
			return True
		}, func(s *State) *T { return False })
	}
	return one(st, st.Fresh("as", boolT))
}

// errOperand lists the operands of a format, so that a wrapped error can be found.
func errOperand(a []*T) *T {
	if len(a) == 2 {
		return a[1]
	}
	return Nil
}

// sprintf renders the formats with simple verbs as concatenations.
func sprintf(a []*T) *T {
	f, ok := a[0].IsStr()
	if !ok || len(a) < 2 {
		return App("call:fmt.Sprintf", strT, a...)
	}
	var args []*T
	if a[1].Is("list") {
		for _, e := range a[1].Args {
			if !e.Is("el") {
				return App("call:fmt.Sprintf", strT, a...)
			}
			args = append(args, e.Args[0])
		}
	} else if a[1].K != KNil {
		return App("call:fmt.Sprintf", strT, a...)
	}
	var ps []*T
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			ps = append(ps, Str(f[i:i+j]))
			i += j - 1
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			ps = append(ps, Str("%"))
			continue
		}
		if i >= len(f) || n >= len(args) {
			return App("call:fmt.Sprintf", strT, a...)
		}
		x := args[n]
		n++
		v := x
		kind := ""
		if strings.HasPrefix(x.Op, "iface:") {
			kind = strings.TrimPrefix(x.Op, "iface:")
			v = x.Args[0]
		}
		switch {
		case kind == "string" && (f[i] == 's' || f[i] == 'v'):
			ps = append(ps, v)
		case kind == "string" && f[i] == 'q':
			ps = append(ps, App("quote", strT, v))
		case kind == "int" && (f[i] == 'd' || f[i] == 'v'):
			ps = append(ps, App("itoa", strT, v))
		default:
			ps = append(ps, App("fmt%"+string(f[i]), strT, x))
		}
	}
	if n != len(args) {
		return App("call:fmt.Sprintf", strT, a...)
	}
	return Cat(ps...)
}

// pureName tells whether a library function has no effects and depends on its arguments only.
// writesArg tells whether a library function writes to its first argument.
func writesArg(n string) bool {
	if strings.HasPrefix(n, "sort.") {
		return !strings.Contains(n, "AreSorted") && !strings.HasPrefix(n, "sort.Search") && !strings.HasPrefix(n, "sort.Is") && !strings.HasPrefix(n, "sort.Find")
	}
	for _, p := range []string{"slices.Sort", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Replace", "slices.Compact", "slices.Grow", "maps.Copy", "maps.DeleteFunc", "maps.Insert"} {
		if strings.HasPrefix(n, p) && !strings.HasPrefix(n, "slices.Sorted") {
			return true
		}
	}
	return false
}

func pureName(n string) bool {
	n = strings.TrimLeft(n, "(*")
	pkg := n
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		if j := strings.IndexByte(n[i:], '.'); j >= 0 {
			pkg = n[:i+j]
		}
	} else if j := strings.IndexByte(n, '.'); j >= 0 {
		pkg = n[:j]
	}
	switch pkg {
	case "strings", "unicode", "unicode/utf8", "strconv", "bytes", "path", "slices", "maps", "regexp", "cmp":
		if strings.Contains(n, "Builder)") || strings.Contains(n, "Buffer)") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse") {
			return false
		}
		return true
	case "path/filepath":
		switch path.Ext(n) {
		case ".Base", ".Clean", ".Dir", ".Ext", ".IsAbs", ".Join", ".ToSlash", ".FromSlash", ".Split", ".VolumeName", ".Match", ".Rel":
			return true
		}
	case "fmt":
		return strings.HasPrefix(n, "fmt.Sprint")
	case "errors":
		return n == "errors.Unwrap" || n == "errors.Join"
	}
	return false
}
