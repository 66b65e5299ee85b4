package ai

import (
	"strings"
)

const inf = int64(1) << 40

// graph returns the nodes and the shortest-path closure of the difference constraints; extra
// nodes are added.
func (st *State) graph(extra ...*T) ([]*T, map[*T]int, [][]int64, bool) {
	idx := map[*T]int{nil: 0}
	nodes := []*T{nil}
	add := func(t *T) {
		if _, ok := idx[t]; !ok {
			idx[t] = len(nodes)
			nodes = append(nodes, t)
		}
	}
	for k := range st.Diff {
		add(k.a)
		add(k.b)
	}
	for _, e := range extra {
		add(e)
	}
	for i := 0; i < len(nodes); i++ {
		if t := nodes[i]; t != nil && t.Is("&") {
			continue
		}
	}
	n := len(nodes)
	d := make([][]int64, n)
	for i := range d {
		d[i] = make([]int64, n)
		for j := range d[i] {
			if i != j {
				d[i][j] = inf
			}
		}
	}
	set := func(a, b *T, c int64) {
		i, j := idx[a], idx[b]
		if c < d[i][j] {
			d[i][j] = c
		}
	}
	for k, c := range st.Diff {
		set(k.a, k.b, c)
	}
	for _, t := range nodes {
		if t == nil {
			continue
		}
		if lo, ok := st.lower(t); ok {
			set(nil, t, -lo) // 0 - t <= -lo
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if d[i][k] == inf {
				continue
			}
			for j := 0; j < n; j++ {
				if d[k][j] < inf && d[i][k]+d[k][j] < d[i][j] {
					d[i][j] = d[i][k] + d[k][j]
				}
			}
		}
	}
	ok := true
	for i := 0; i < n; i++ {
		if d[i][i] < 0 {
			ok = false
		}
	}
	return nodes, idx, d, ok
}

// lower is a known lower bound of an atom.
func (st *State) lower(t *T) (int64, bool) {
	switch {
	case t.Is("len"):
		x := t.Args[0]
		n := int64(minLen(x))
		if x.Is("list") {
			n = 0
			for _, p := range x.Args {
				if p.Is("el") {
					n++
				}
			}
		}
		if x.Is("submatch") {
			if k, ok := x.Args[0].IsInt(); ok {
				n = k
			}
		}
		return n, true
	case t.Is("*") && !st.noProd:
		st.noProd = true
		defer func() { st.noProd = false }()
		a, ok1 := st.lowerOf(t.Args[0])
		b, ok2 := st.lowerOf(t.Args[1])
		if ok1 && ok2 && a >= 0 && b >= 0 {
			return a * b, true
		}
	case t.Is("nat"):
		return 0, true
	case t.K == KSym && strings.HasPrefix(t.Op, "nat"):
		return 0, true
	case t.Is("decoded"):
		return 0, true
	}
	return 0, false
}

func (st *State) lowerOf(t *T) (int64, bool) {
	a, off := Lin(t)
	if a == nil {
		return off, true
	}
	c, ok := st.UpperDiff(nil, a) // 0 - a <= c
	if !ok {
		return 0, false
	}
	return off - c, true
}

// UpperDiff returns the least known c with a - b <= c; nil is zero.
func (st *State) UpperDiff(a, b *T) (int64, bool) {
	if a == b {
		return 0, true
	}
	var ex []*T
	if a != nil {
		ex = append(ex, a)
	}
	if b != nil {
		ex = append(ex, b)
	}
	_, idx, d, _ := st.graph(ex...)
	c := d[idx[a]][idx[b]]
	if c >= inf/2 {
		// depth <= depth*indent when 1 <= indent
		if p := b; p != nil && p.Is("*") && a != nil {
			for i := 0; i < 2; i++ {
				if p.Args[i] == a {
					if lo, ok := st.lowerOf(p.Args[1-i]); ok && lo >= 1 {
						if l2, ok := st.lowerOf(a); ok && l2 >= 0 {
							return 0, true
						}
					}
				}
			}
		}
		if a != nil && b == nil {
			// an upper bound through a product
			for k, c2 := range st.Diff {
				if k.b == nil && k.a != nil && k.a.Is("*") {
					if c3, ok := st.UpperDiff(a, k.a); ok && c3 <= 0 {
						return c2, true
					}
				}
			}
		}
		return 0, false
	}
	return c, true
}

func (st *State) closeDiffs() {
	if len(st.Diff) == 0 {
		return
	}
	if len(st.Diff) > 1 {
		nodes, _, d, _ := st.graph()
		for i, a := range nodes {
			for j, b := range nodes {
				if i != j && d[i][j] < inf/2 {
					if i == 0 && b != nil {
						if lo, ok := st.lower(b); ok && -lo <= d[i][j] {
							continue
						}
					}
					st.Diff[dkey{a, b}] = d[i][j]
				}
			}
		}
	}
	for k, c := range st.Diff {
		lim := st.E.DiffLimit
		if lim == 0 {
			lim = 3
		}
		if c > lim {
			if k.b == nil || c > 128 {
				if !(k.b == nil && c <= 128) {
					delete(st.Diff, k)
				}
			} else {
				delete(st.Diff, k)
			}
		} else if c < -lim && !(k.b == nil || k.a == nil) {
			st.Diff[k] = -lim
		} else if k.a == nil && c < -8 {
			st.Diff[k] = -8
		} else if k.a == nil && c < -st.E.LowLimit && k.b.K == KSym && k.b.Op == "int" {
			st.Diff[k] = -st.E.LowLimit
		}
		if k.a == nil && k.b != nil {
			if lo, ok := st.lower(k.b); ok && -lo <= c {
				delete(st.Diff, k)
			}
		}
	}
}

// Eval decides a condition from the facts: 1 true, -1 false, 0 unknown.
func (st *State) Eval(c *T) int {
	if b, ok := c.IsBool(); ok {
		if b {
			return 1
		}
		return -1
	}
	if c.Is("not") {
		return -st.Eval(c.Args[0])
	}
	c = st.Norm(c)
	if c.Is("not") {
		return -st.Eval(c.Args[0])
	}
	if b, ok := c.IsBool(); ok {
		if b {
			return 1
		}
		return -1
	}
	if b, ok := st.Atoms[c]; ok {
		if b {
			return 1
		}
		return -1
	}
	if o := st.opaque(c); o != c {
		return st.Eval(o)
	}
	if c.Is("and") {
		r := 1
		for _, a := range c.Args {
			switch st.Eval(a) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	}
	if c.Is("or") {
		r := -1
		for _, a := range c.Args {
			switch st.Eval(a) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	}
	if c.Is("le") {
		a, i := Lin(c.Args[0])
		b, j := Lin(c.Args[1])
		// a + i <= b + j  iff  a - b <= j - i
		if d, ok := st.UpperDiff(a, b); ok && d <= j-i {
			return 1
		}
		if d, ok := st.UpperDiff(b, a); ok && d < i-j {
			return -1
		}
		return 0
	}
	if c.Is("eq") {
		x, y := c.Args[0], c.Args[1]
		if nx, ny := st.norm(x), st.norm(y); nx != x || ny != y {
			return st.Eval(Eq(nx, ny))
		}
		if y.K == KNil && st.nonNilNow(x) {
			return -1
		}
		if s, ok := y.IsStr(); ok {
			// other facts about x must hold for s
			for a, b := range st.Atoms {
				if v := unaryOn(a, x, s); v != 0 && (v == 1) != b {
					return -1
				}
			}
			if s == "" {
				if d, ok := st.UpperDiff(nil, Len(x)); ok && d <= -1 {
					return -1
				}
			}
			l := Len(x)
			if la, off := Lin(l); la != nil {
				n := int64(len(s)) - off
				if d, ok := st.UpperDiff(nil, la); ok && -d > n {
					return -1
				}
				if d, ok := st.UpperDiff(la, nil); ok && d < n {
					return -1
				}
			}
		}
		if i, ok := y.IsInt(); ok {
			a, off := Lin(x)
			if d, ok := st.UpperDiff(nil, a); ok && -d+off > i {
				return -1
			}
			if d, ok := st.UpperDiff(a, nil); ok && d+off < i {
				return -1
			}
			return 0
		}
		if y.K != KConst && y.K != KNil {
			a, i := Lin(x)
			b, j := Lin(y)
			if d, ok := st.UpperDiff(a, b); ok {
				if d < j-i {
					return -1
				}
				if e, ok := st.UpperDiff(b, a); ok {
					if e < i-j {
						return -1
					}
					if d == j-i && e == i-j {
						return 1
					}
				}
			} else if e, ok := st.UpperDiff(b, a); ok && e < i-j {
				return -1
			}
		}
		return 0
	}
	if c.Is("hasprefix") || c.Is("hassuffix") || c.Is("contains") {
		x := c.Args[0]
		if s, ok := c.Args[1].IsStr(); ok {
			if len(s) > 0 && st.Atoms[Eq(x, Str(""))] == true {
				return -1
			}
			for a, b := range st.Atoms {
				if !b || !(a.Is("hasprefix") || a.Is("hassuffix") || a.Is("contains")) || a.Args[0] != x {
					continue
				}
				q, ok := a.Args[1].IsStr()
				if !ok {
					continue
				}
				switch {
				case c.Op == "contains":
					if strings.Contains(q, s) {
						return 1
					}
				case a.Op == c.Op && c.Op == "hasprefix":
					if strings.HasPrefix(q, s) {
						return 1
					}
					if !strings.HasPrefix(s, q) {
						return -1
					}
				case a.Op == c.Op && c.Op == "hassuffix":
					if strings.HasSuffix(q, s) {
						return 1
					}
					if !strings.HasSuffix(s, q) {
						return -1
					}
				}
			}
			if d, ok := st.UpperDiff(Len(x), nil); ok && d < int64(len(s)) {
				return -1
			}
			if y, cut := cutOf(c.Op, x); y != nil && len(s) > 0 {
				if r := st.Eval(App(c.Op, boolT, y, c.Args[1])); r != 0 {
					if r == -1 || st.apart(c.Op, y, s, cut) {
						return r
					}
				}
			}
		}
	}
	if c.Is("blank") {
		x := c.Args[0]
		for _, op := range []string{"hassuffix", "hasprefix"} {
			y, _ := cutOf(op, x)
			for a, b := range st.Atoms {
				if b && y != nil && a.Is(op) && a.Args[0] == y {
					if s, ok := a.Args[1].IsStr(); ok && strings.TrimSpace(s) != "" && st.Eval(App(op, boolT, x, a.Args[1])) == 1 {
						return -1
					}
				}
			}
		}
		if st.Eval(Eq(x, Str(""))) == 1 {
			return 1
		}
		for a, b := range st.Atoms {
			if b && (a.Is("hasprefix") || a.Is("hassuffix") || a.Is("contains")) && a.Args[0] == x {
				if s, ok := a.Args[1].IsStr(); ok && strings.TrimSpace(s) != "" {
					return -1
				}
			}
		}
	}
	return 0
}

// cutOf is the string that some bytes were cut off from on the side where op does not look, and their number.
func cutOf(op string, x *T) (*T, int64) {
	if !x.Is("substr") {
		return nil, 0
	}
	y := x.Args[0]
	lo, ok := x.Args[1].IsInt()
	if !ok {
		return nil, 0
	}
	if op == "hassuffix" && x.Args[2].K == KNil {
		return y, lo
	}
	if op == "hasprefix" && lo == 0 && x.Args[2].K != KNil {
		if l, off := Lin(x.Args[2]); l == Len(y) && off < 0 {
			return y, -off
		}
	}
	return nil, 0
}

// apart tells whether what is cut off does not touch the affix s on the other side.
func (st *State) apart(op string, y *T, s string, cut int64) bool {
	if d, ok := st.UpperDiff(nil, Len(y)); ok && -d >= cut+int64(len(s)) {
		return true
	}
	o := "hasprefix"
	if op == "hasprefix" {
		o = "hassuffix"
	}
	for a, b := range st.Atoms {
		if !b || !a.Is(o) || a.Args[0] != y {
			continue
		}
		q, ok := a.Args[1].IsStr()
		if !ok || int64(len(q)) < cut {
			continue
		}
		// no overlap of the two affixes is possible
		p, f := q, s
		if o == "hassuffix" {
			p, f = s, q
		}
		over := false
		for k := 1; k <= len(p) && k <= len(f); k++ {
			if strings.HasSuffix(p, f[:k]) {
				over = true
			}
		}
		if !over && !strings.Contains(p, f) && !strings.Contains(f, p) {
			return true
		}
	}
	return false
}

func (st *State) nonNilNow(x *T) bool {
	if nonNil(x) {
		return true
	}
	if x.Is("load") || x.K == KSym {
		return st.E.NonNil != nil && st.E.NonNil(x)
	}
	return st.E.NonNil != nil && st.E.NonNil(x)
}

// unaryOn evaluates an atom about x at a constant: 1 true, -1 false, 0 not applicable.
func unaryOn(a, x *T, s string) int {
	r := func(b bool) int {
		if b {
			return 1
		}
		return -1
	}
	switch {
	case a.Is("eq") && a.Args[0] == x:
		if q, ok := a.Args[1].IsStr(); ok {
			return r(q == s)
		}
	case (a.Is("hasprefix") || a.Is("hassuffix") || a.Is("contains")) && a.Args[0] == x:
		if q, ok := a.Args[1].IsStr(); ok {
			switch a.Op {
			case "hasprefix":
				return r(strings.HasPrefix(s, q))
			case "hassuffix":
				return r(strings.HasSuffix(s, q))
			default:
				return r(strings.Contains(s, q))
			}
		}
	case a.Is("blank") && a.Args[0] == x:
		return r(strings.TrimSpace(s) == "")
	case a.Is("eq") && a.Args[0].Is("lower") && a.Args[0].Args[0] == x:
		if q, ok := a.Args[1].IsStr(); ok {
			return r(strings.ToLower(s) == q)
		}
	}
	return 0
}

// Assume adds a condition to the facts; it returns false if the state becomes impossible.
func (st *State) Assume(c *T, val bool) bool {
	if c.Is("not") {
		return st.Assume(c.Args[0], !val)
	}
	switch st.Eval(c) {
	case 1:
		return val
	case -1:
		return !val
	}
	c = st.Norm(c)
	if c.Is("not") {
		return st.Assume(c.Args[0], !val)
	}
	if c.Is("and") && val {
		for _, a := range c.Args {
			if !st.Assume(a, true) {
				return false
			}
		}
		return true
	}
	if c.Is("or") && !val {
		for _, a := range c.Args {
			if !st.Assume(a, false) {
				return false
			}
		}
		return true
	}
	if c.Is("le") {
		a, i := Lin(c.Args[0])
		b, j := Lin(c.Args[1])
		if val {
			return st.addDiff(a, b, j-i)
		}
		return st.addDiff(b, a, i-j-1)
	}
	if c.Is("eq") {
		x, y := c.Args[0], c.Args[1]
		if val {
			if x.K == KSym && x.Cls != nil && x.Cls.Opaque && y.K == KConst {
				st.Atoms[c] = true
				return !st.dead
			}
			return st.unify(x, y)
		}
		st.Atoms[c] = false
		if i, ok := y.IsInt(); ok {
			// x != lower bound tightens it
			a, off := Lin(x)
			i -= off
			if d, ok := st.UpperDiff(nil, a); ok && -d == i {
				return st.addDiff(nil, a, -i-1)
			}
			if d, ok := st.UpperDiff(a, nil); ok && d == i {
				return st.addDiff(a, nil, i-1)
			}
		}
		if s, ok := y.IsStr(); ok && s == "" {
			if la, off := Lin(Len(x)); la != nil {
				return st.addDiff(nil, la, off-1)
			}
		}
		return true
	}
	st.Atoms[c] = val
	if val && (c.Is("hasprefix") || c.Is("hassuffix") || c.Is("contains")) {
		if s, ok := c.Args[1].IsStr(); ok && s != "" {
			st.Atoms[Eq(c.Args[0], Str(""))] = false
			if la, off := Lin(Len(c.Args[0])); la != nil {
				if !st.addDiff(nil, la, off-int64(len(s))) {
					return false
				}
			}
		}
	}
	if val && c.Is("mhas") {
		return !st.dead
	}
	return !st.dead
}

func (st *State) addDiff(a, b *T, c int64) bool {
	if a == b {
		return c >= 0
	}
	k := dkey{a, b}
	if o, ok := st.Diff[k]; !ok || c < o {
		st.Diff[k] = c
	}
	_, _, _, ok := st.graph()
	if !ok {
		return false
	}
	// pinned?
	var x *T
	if a == nil {
		x = b
	} else if b == nil {
		x = a
	}
	if x != nil {
		u, ok1 := st.UpperDiff(x, nil)
		l, ok2 := st.UpperDiff(nil, x)
		if ok1 && ok2 && u == -l {
			// disequalities
			if v, ok := st.Atoms[Eq(x, Int(u))]; ok && !v {
				return false
			}
			return st.unify(x, Int(u))
		}
		// values at the bounds that are excluded
		if v, ok := st.Atoms[Eq(x, Int(-l))]; ok2 && ok && !v {
			return st.addDiff(nil, x, l-1)
		}
		if v, ok := st.Atoms[Eq(x, Int(u))]; ok1 && ok && !v {
			return st.addDiff(x, nil, u-1)
		}
	}
	return true
}

// unify makes two terms equal.
func (st *State) unify(x, y *T) bool {
	if x == y {
		return true
	}
	// prefer constants, then named inputs, then older terms
	rank := func(t *T) int {
		switch {
		case t.K == KConst || t.K == KNil:
			return 0
		case t.K == KObj:
			return 1
		case t.K == KApp && !t.tr:
			return 2
		case t.K == KSym && t.Num < 0:
			return 2
		case t.K == KApp:
			return 3
		}
		return 4
	}
	if rank(x) < rank(y) {
		x, y = y, x
	}
	if y.Contains(x) {
		if x.Contains(y) {
			return true
		}
		x, y = y, x
	}
	if i, ok := y.IsInt(); ok {
		a, off := Lin(x)
		if a != x && a != nil {
			return st.unify(a, Int(i-off))
		}
		if d, ok := st.UpperDiff(nil, x); ok && -d > i {
			return false
		}
		if d, ok := st.UpperDiff(x, nil); ok && d < i {
			return false
		}
		if x.Is("len") && i == 0 && isStringish(x.Args[0]) {
			return st.unify(x.Args[0], Str(""))
		}
	}
	if _, ok := y.IsStr(); ok && x.Is("cat") {
		st.Atoms[Eq(x, y)] = true
	}
	st.Rew[x] = y
	st.Replace(x, y)
	if x.K == KApp || x.Num < 0 {
		st.Rew[x] = y
	}
	return !st.dead
}

// opaque replaces opaque unknowns by the constants that they are known to be equal to.
func (st *State) opaque(c *T) *T {
	var eqs map[*T]*T
	c.Walk(func(x *T) bool {
		if !x.tr {
			return false
		}
		if x.K == KSym && x.Cls != nil && x.Cls.Opaque && eqs[x] == nil {
			for a, b := range st.Atoms {
				if b && a.Is("eq") && a.Args[0] == x && a.Args[1].K == KConst {
					if eqs == nil {
						eqs = map[*T]*T{}
					}
					eqs[x] = a.Args[1]
				}
			}
		}
		return true
	})
	if eqs == nil {
		return c
	}
	return subst(c, func(x *T) *T { return eqs[x] }, map[*T]*T{})
}
