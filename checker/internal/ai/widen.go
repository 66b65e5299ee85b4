package ai

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// widen replaces terms that grow around a loop by unknowns, everywhere in the state at once, so
// that equalities between parts of the state are kept.
func (e *Engine) widen(st *State, b *ssa.BasicBlock) {
	var locs []envLoc
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		locs = append(locs, envLoc{len(st.Frames) - 1, p})
	}
	scale := 1
	if e.HeaderScale != nil {
		scale = e.HeaderScale(st)
	}
	e.widenAt(st, b.Parent().String()+"/"+strconv.Itoa(b.Index), locs, scale)
}

// Widen does the same at a point that is chosen by the caller; all live values take part.
func (e *Engine) Widen(st *State, key string) {
	var locs []envLoc
	for i, f := range st.Frames {
		live := e.liveAt(f.Fn, f.Block, f.Idx)
		for _, v := range e.order(f.Fn) {
			if live[v] {
				locs = append(locs, envLoc{i, v})
			}
		}
		key += "/" + f.Fn.String() + "/" + strconv.Itoa(f.Block.Index)
	}
	e.widenAt(st, key, locs, 1)
}

type envLoc struct {
	frame int
	v     ssa.Value
}

func (l envLoc) name() string { return strconv.Itoa(l.frame) + l.v.Name() }

func (l envLoc) get(st *State) (*T, bool) {
	t, ok := st.Frames[l.frame].Env[l.v]
	return t, ok
}

func (e *Engine) widenAt(st *State, hk string, locs []envLoc, scale int) {
	st.closeDiffs()

	// integers that keep changing at this loop head; the same value becomes the same unknown in
	// every location that changes
	to := map[*T]*T{}
	type bound struct {
		t  *T
		lo int64
		hi int64
		ol bool
		oh bool
	}
	var bs []bound
	var lens [][2]*T
	// the first pass finds the values to replace, the second the locations that hold them
	first := true
	near := func(t *T) *T {
		if n := to[t]; n != nil {
			return n
		}
		a, off := Lin(t)
		for _, d := range []int64{1, -1, 2, -2} {
			if d > e.Near || d < -e.Near {
				break
			}
			x := Int(off + d)
			if a != nil {
				x = Add(a, off+d)
			}
			if n := to[x]; n != nil {
				return Add(n, -d)
			}
		}
		return nil
	}
	check := func(loc string, t *T) (*T, bool) {
		a, off := Lin(t)
		k := hk + "|" + loc
		if first {
			if a == t {
				return nil, false
			}
			if !e.varying[k] {
				s := e.seen[k]
				if s == nil {
					s = map[string]bool{}
					e.seen[k] = s
				}
				s[shape(t)] = true
				if len(s) > (e.ConstLimit+3)*scale || a != nil && (off > e.OffLimit*int64(scale)+int64(scale-1) || off < -e.OffLimit*int64(scale)-int64(scale-1)) {
					e.varying[k] = true
				}
			}
			if !e.varying[k] || a == nil && off >= -1 && off <= 1 || near(t) != nil {
				return nil, false
			}
			n := st.Fresh("int", t.Typ)
			to[t] = n
			if e.KeepLen {
				for k, c := range st.Diff {
					// t <= len
					if a == nil && k.a == nil && k.b != nil && k.b.Is("len") && off+c <= 0 || a != nil && k.a == a && k.b != nil && k.b.Is("len") && off+c <= 0 {
						lens = append(lens, [2]*T{n, k.b})
					}
				}
			}
			bd := bound{t: n}
			if a == nil {
				if off > 0 {
					bd.lo, bd.ol = min64(off, min64(2, e.LowLimit)), true
				} else {
					bd.hi, bd.oh = -1, true
				}
			} else {
				if d, ok := st.UpperDiff(nil, a); ok { // -a <= d
					bd.lo, bd.ol = min64(off-d, e.LowLimit), true
				}
			}
			bs = append(bs, bd)
			return nil, false
		}
		n := near(t)
		if n == nil || !e.varying[k] && len(e.seen[k]) < 2 {
			return nil, false
		}
		return n, true
	}
	type hl struct {
		r *T
		k string
	}
	nh := map[hl]*T{}
	ng := map[string]*T{}
	np := map[envLoc]*T{}
	for pass := 0; pass < 2; pass++ {
		first = pass == 0
		for _, l := range locs {
			if t, ok := l.get(st); ok && (isInt(t) || !first && len(to) > 0) && numeric(l.v.Type()) {
				if n, ok := check("env"+l.name(), t); ok {
					np[l] = n
				}
			}
		}
		for k, t := range st.Ghost {
			if (isInt(t) || !first && len(to) > 0) && (e.WidenGhost == nil || e.WidenGhost(k)) {
				if n, ok := check("ghost"+k, t); ok {
					ng[k] = n
				}
			}
		}
		for r, c := range st.Heap {
			for k, t := range c {
				if (isInt(t) || !first && len(to) > 0) && (k == "" || k[0] != '!') && !(k == "" && r.Typ != nil && !numeric(r.Typ)) {
					if n, ok := check("heap"+r.Op+k, t); ok {
						nh[hl{r, k}] = n
					}
				}
			}
		}
	}
	if len(to) > 0 {
		// sums with an unknown are replaced everywhere: nothing else can be meant by them
		sums := false
		for t := range to {
			if t.K != KConst {
				sums = true
			}
		}
		for l, n := range np {
			st.frame(l.frame).Env[l.v] = n
		}
		for k, n := range ng {
			st.Ghost[k] = n
		}
		for l, n := range nh {
			st.cells(l.r)[l.k] = n
		}
		if sums {
			st.mapAll(func(t *T) *T {
				if n, ok := to[t]; ok && t.K != KConst {
					return n
				}
				return nil
			})
		}
		for _, l := range lens {
			st.addDiff(l[0], st.norm(l[1]), 0)
		}
		for _, bd := range bs {
			if bd.ol {
				st.addDiff(nil, bd.t, -bd.lo)
			}
			if bd.oh {
				st.addDiff(bd.t, nil, bd.hi)
			}
		}
	}

	// strings that keep changing at this loop head: all but the last character is forgotten
	for round := 0; round < 20; round++ {
		var big *T
		hold, set := map[string]*T{}, map[string]func(*T){}
		look := func(loc string, t *T, put func(*T)) {
			k := hk + "|s|" + loc
			hold[k], set[k] = t, put
			if e.growing(t) && !e.ahead(st, locs, t) {
				if !e.varying[k] {
					m := e.seen[k]
					if m == nil {
						m = map[string]bool{}
						e.seen[k] = m
					}
					m[shape(t)] = true
					if len(m) > (e.StrLimit+1)*scale-1 {
						e.varying[k] = true
					}
				}
				if e.varying[k] && big == nil {
					big = t
				}
			}
		}
		for _, l := range locs {
			if t, ok := l.get(st); ok {
				l := l
				look("env"+l.name(), t, func(x *T) { st.frame(l.frame).Env[l.v] = x })
			}
		}
		for _, k := range sortedKeys(st.Ghost) {
			if e.WidenGhost == nil || e.WidenGhost(k) {
				k := k
				look("ghost"+k, st.Ghost[k], func(x *T) { st.Ghost[k] = x })
			}
		}
		var rs []*T
		for r := range st.Heap {
			rs = append(rs, r)
		}
		sortTerms(rs)
		for _, r := range rs {
			for _, k := range sortedKeys(st.Heap[r]) {
				if k != "!over" {
					r, k := r, k
					look("heap"+r.Op+k, st.Heap[r][k], func(x *T) { st.cells(r)[k] = x })
				}
			}
		}
		if big == nil {
			break
		}
		ps := parts(big)
		last := ps[len(ps)-1]
		if c, ok := last.IsStr(); ok {
			rr := []rune(c)
			last = Str(string(rr[len(rr)-1]))
		}
		var to *T
		if e.WordClass != nil {
			to = st.FreshCls("word", strT, e.WordClass(last))
		} else {
			to = Cat(st.FreshCls("str", strT, NonEmpty), last)
		}
		if !big.Is("cat") {
			// only in locations that hold strings that grow
			for k, l := range hold {
				if l == big && e.varying[k] {
					set[k](to)
				}
			}
			continue
		}
		st.mapAll(func(t *T) *T {
			if t == big {
				return to
			}
			if t.Is("cat") && len(t.Args) > len(ps) && hasPre(t, ps) {
				return Cat(append([]*T{to}, t.Args[len(ps):]...)...)
			}
			return nil
		})
	}

	// sequences
	for round := 0; round < 20; round++ {
		var big *T
		look := func(t *T) {
			t.Walk(func(x *T) bool {
				if big != nil || x.size <= e.PartLimit {
					return false
				}
				if x.Is("cat") && len(x.Args) > e.PartLimit/2 && len(x.Args) > 2 || x.Is("list") && len(x.Args) > e.PartLimit && x.tr ||
					(x.Is("mput") || x.Is("mdel")) && mapDepth(x) > e.PartLimit/2 && x.tr ||
					x.Is("upd") && updDepth(x) > 2 ||
					x.Is("subslice") && x.Args[0].Is("subslice") {
					big = x
					return false
				}
				return true
			})
		}
		for i := range st.Frames {
			for _, v := range e.order(st.Frames[i].Fn) {
				if t, ok := st.Frames[i].Env[v]; ok && big == nil {
					look(t)
				}
			}
		}
		for _, k := range sortedKeys(st.Ghost) {
			if big == nil {
				look(st.Ghost[k])
			}
		}
		if big == nil {
			var rs []*T
			for r := range st.Heap {
				rs = append(rs, r)
			}
			sortTerms(rs)
			for _, r := range rs {
				for _, k := range sortedKeys(st.Heap[r]) {
					if big == nil {
						look(st.Heap[r][k])
					}
				}
			}
		}
		if big == nil {
			return
		}
		switch {
		case big.Is("cat"):
			// keep the last part: what a string ends with is often asked
			n := len(big.Args)
			pre := Cat(big.Args[:n-1]...)
			sym := st.FreshCls("str", strT, NonEmpty)
			st.mapAll(func(t *T) *T {
				if t == pre {
					return sym
				}
				if t.Is("cat") && len(t.Args) >= n && hasPre(t, big.Args[:n-1]) {
					return Cat(append([]*T{sym}, t.Args[n-1:]...)...)
				}
				return nil
			})
		case big.Is("list"):
			sym := st.Fresh("list", big.Typ)
			n := 0
			for _, p := range big.Args {
				if p.Is("el") {
					n++
				}
			}
			pre := big.Args
			st.mapAll(func(t *T) *T {
				if t == big {
					return sym
				}
				if t.Is("list") && len(t.Args) > len(pre) && hasPre(t, pre) {
					return List(t.Typ, append([]*T{sym}, t.Args[len(pre):]...)...)
				}
				return nil
			})
			if n > 0 {
				st.addDiff(nil, Len(sym), -min64(int64(n), 3))
			}
			st.Atoms[Eq(sym, Nil)] = false
		default:
			sym := st.Fresh("m", big.Typ)
			var n *T
			if big.Is("upd") || big.Is("make") {
				n = Len(big) // setting elements keeps the length
			}
			st.Replace(big, sym)
			if n != nil {
				st.Assume(Eq(Len(sym), st.norm(n)), true)
			}
		}
	}
}

// NonEmpty is the class of non-empty strings.
var NonEmpty = &Class{Name: "nonempty", MinLen: 1, MayEq: func(s string) bool { return s != "" }}

// growing tells whether a string may still be cut down.
func (e *Engine) growing(t *T) bool {
	if c, ok := t.IsStr(); ok {
		return c != "" && (e.WordClass != nil || len([]rune(c)) > 1)
	}
	if e.WordClass != nil && t.K == KSym && t.Cls != nil && t.Cls.Char && t.Num >= 0 {
		return true
	}
	if !t.Is("cat") {
		return false
	}
	if e.WordClass != nil {
		return true
	}
	if len(t.Args) == 2 && t.Args[0].K == KSym && t.Args[0].Num >= 0 && t.Args[0].Cls == NonEmpty {
		last := t.Args[1]
		c, ok := last.IsStr()
		return ok && len([]rune(c)) > 1 || !ok && !(last.Cls != nil && last.Cls.Char)
	}
	return true
}

// ahead tells whether a string is the value of another location and at most two characters more:
// that location is widened, if at all.
func (e *Engine) ahead(st *State, locs []envLoc, t *T) bool {
	behind := func(p *T) bool {
		if p == t || !isStringish(p) {
			return false
		}
		if !p.Is("cat") {
			return false
		}
		n := len(t.Args) - len(p.Args)
		return t.Is("cat") && n > 0 && n <= 2 && hasPre(t, p.Args)
	}
	for _, l := range locs {
		if x, ok := l.get(st); ok && behind(x) {
			return true
		}
	}
	for k, x := range st.Ghost {
		if (e.WidenGhost == nil || e.WidenGhost(k)) && behind(x) {
			return true
		}
	}
	for _, c := range st.Heap {
		for k, x := range c {
			if k != "!over" && behind(x) {
				return true
			}
		}
	}
	return false
}

// shape is a term without the numbers of its unknowns.
func shape(t *T) string {
	var sb strings.Builder
	t.Walk(func(x *T) bool {
		switch x.K {
		case KConst:
			sb.WriteString(x.C.ExactString())
		default:
			sb.WriteString(x.Op)
			if x.Cls != nil {
				sb.WriteString(x.Cls.Name)
			}
		}
		sb.WriteByte(',')
		return true
	})
	return sb.String()
}

func hasPre(t *T, pre []*T) bool {
	for i, p := range pre {
		if t.Args[i] != p {
			return false
		}
	}
	return true
}

func mapDepth(x *T) int {
	n := 0
	for x.Is("mput") || x.Is("mdel") {
		n++
		x = x.Args[0]
	}
	return n
}

func updDepth(x *T) int {
	n := 0
	for x.Is("upd") {
		n++
		x = x.Args[0]
	}
	return n
}

func numeric(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Rune && b.Kind() != types.Byte
}

func isInt(t *T) bool {
	if _, ok := t.IsInt(); ok {
		return true
	}
	return t.Is("+")
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func sortTerms(ts []*T) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

var _ = fmt.Sprint

// Widened says whether the list t was made by a loop that was not followed to its end, so that not all of what is
// in it is known.
func Widened(t *T) bool {
	switch {
	case t.K == KSym:
		return t.Op == "m"
	case t.Is("upd"), t.Is("copied"):
		return Widened(t.Args[0])
	case t.Is("make"):
		return true
	case t.Is("list"):
		for _, a := range t.Args {
			if !a.Is("el") && Widened(a) {
				return true
			}
		}
	}
	return false
}
