package main

import (
	"fmt"
	"sort"
	"strings"
)

// Sym is a numeric symbol (an unknown integer) local to a state.
type Sym int32

type lterm struct {
	s Sym
	k int64
}

// Lin is a linear expression over symbols.
type Lin struct {
	c int64
	t []lterm // sorted by symbol, no zero coefficient
}

func linC(c int64) Lin { return Lin{c: c} }
func linS(s Sym) Lin   { return Lin{t: []lterm{{s, 1}}} }

func (a Lin) isConst() bool { return len(a.t) == 0 }

func (a Lin) add(b Lin) Lin {
	r := Lin{c: a.c + b.c}
	if len(a.t) == 0 {
		r.t = b.t
		return r
	}
	if len(b.t) == 0 {
		r.t = a.t
		return r
	}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].s < b.t[j].s:
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s < a.t[i].s:
			r.t = append(r.t, b.t[j])
			j++
		default:
			if k := a.t[i].k + b.t[j].k; k != 0 {
				r.t = append(r.t, lterm{a.t[i].s, k})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) scale(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{c: a.c * k}
	for _, t := range a.t {
		r.t = append(r.t, lterm{t.s, t.k * k})
	}
	return r
}

func (a Lin) neg() Lin         { return a.scale(-1) }
func (a Lin) sub(b Lin) Lin    { return a.add(b.neg()) }
func (a Lin) addC(c int64) Lin { return Lin{c: a.c + c, t: a.t} }
func (a Lin) eq(b Lin) bool    { d := a.sub(b); return d.isConst() && d.c == 0 }
func (a Lin) subst(f func(Sym) Lin) Lin {
	if len(a.t) == 0 {
		return a
	}
	r := Lin{c: a.c}
	for _, t := range a.t {
		r = r.add(f(t.s).scale(t.k))
	}
	return r
}

func (a Lin) String() string {
	if len(a.t) == 0 {
		return fmt.Sprint(a.c)
	}
	var sb strings.Builder
	for i, t := range a.t {
		if i > 0 || t.k < 0 {
			if t.k < 0 {
				sb.WriteByte('-')
			} else {
				sb.WriteByte('+')
			}
		}
		k := t.k
		if k < 0 {
			k = -k
		}
		if k != 1 {
			fmt.Fprintf(&sb, "%d*", k)
		}
		fmt.Fprintf(&sb, "s%d", t.s)
	}
	if a.c != 0 {
		fmt.Fprintf(&sb, "%+d", a.c)
	}
	return sb.String()
}

// Zone is a difference bound matrix over symbols: x - y <= m[x][y]; index 0 is the constant zero.
type Zone struct {
	ids  []Sym // ids[0] is unused
	m    []int64
	lens []lenDef
	open bool // widened, and not closed since
}

// lenDef says that l stands for b - a.
type lenDef struct{ a, b, l Sym }

func (l Lin) coef(s Sym) int64 {
	for _, t := range l.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}

// short rewrites an expression with the name of a length.
func (d lenDef) short(l Lin) (Lin, bool) {
	k := l.coef(d.b)
	if k == 0 || l.coef(d.a) != -k {
		return l, false
	}
	return l.sub(linS(d.b).scale(k)).add(linS(d.a).scale(k)).add(linS(d.l).scale(k)), true
}

const inf = int64(1) << 60

func newZone() *Zone { return &Zone{ids: []Sym{-1}, m: []int64{0}} }

func (z *Zone) clone() *Zone {
	n := &Zone{ids: append([]Sym(nil), z.ids...), m: append([]int64(nil), z.m...), lens: z.lens, open: z.open}
	return n
}

func (z *Zone) idx(s Sym) int {
	if s > 0 && int(s) < len(z.ids) && z.ids[s] == s {
		return int(s) // the symbols of a canonical state
	}
	for i := len(z.ids) - 1; i > 0; i-- {
		if z.ids[i] == s {
			return i
		}
	}
	return -1
}

func (z *Zone) n() int { return len(z.ids) }

func (z *Zone) at(i, j int) int64 { return z.m[i*len(z.ids)+j] }

func (z *Zone) addSym(s Sym) int {
	if i := z.idx(s); i > 0 {
		return i
	}
	n := len(z.ids)
	m := make([]int64, (n+1)*(n+1))
	for i := 0; i <= n; i++ {
		for j := 0; j <= n; j++ {
			switch {
			case i < n && j < n:
				m[i*(n+1)+j] = z.m[i*n+j]
			case i == j:
				m[i*(n+1)+j] = 0
			default:
				m[i*(n+1)+j] = inf
			}
		}
	}
	z.ids = append(z.ids, s)
	z.m = m
	return n
}

// addSyms adds several symbols that the zone does not have.
func (z *Zone) addSyms(ss []Sym) {
	n, w := len(z.ids), len(z.ids)+len(ss)
	m := make([]int64, w*w)
	for i := range m {
		m[i] = inf
	}
	for i := 0; i < n; i++ {
		copy(m[i*w:], z.m[i*n:(i+1)*n])
	}
	for i := n; i < w; i++ {
		m[i*w+i] = 0
	}
	z.ids = append(z.ids[:n:n], ss...)
	z.m = m
}

// constrain adds x_i - x_j <= c and reports whether the zone stays satisfiable.
func (z *Zone) constrain(i, j int, c int64) bool {
	n := len(z.ids)
	if i == j {
		return c >= 0
	}
	if z.m[i*n+j] <= c {
		return true
	}
	if r := z.m[j*n+i]; r < inf && r+c < 0 {
		return false
	}
	z.m[i*n+j] = c
	for a := 0; a < n; a++ {
		ai := z.m[a*n+i]
		if ai >= inf {
			continue
		}
		for b := 0; b < n; b++ {
			jb := z.m[j*n+b]
			if jb >= inf {
				continue
			}
			if d := ai + c + jb; d < z.m[a*n+b] {
				z.m[a*n+b] = d
			}
		}
	}
	for a := 0; a < n; a++ {
		if z.m[a*n+a] < 0 {
			return false
		}
	}
	return true
}

func satAdd(a, b int64) int64 {
	if a >= inf || b >= inf {
		return inf
	}
	return a + b
}

// ub returns an upper bound of the linear expression (inf when unbounded).
func (z *Zone) ub(l Lin) int64 {
	switch len(l.t) {
	case 0:
		return l.c
	case 1:
		if k := l.t[0].k; k == 1 || k == -1 {
			i := z.idx(l.t[0].s)
			if i < 0 {
				return inf
			}
			if k == 1 {
				return satAdd(z.at(i, 0), l.c)
			}
			return satAdd(z.at(0, i), l.c)
		}
	case 2:
		a, b := l.t[0], l.t[1]
		if a.k == -b.k && (a.k == 1 || a.k == -1) {
			if a.k < 0 {
				a, b = b, a
			}
			i, j := z.idx(a.s), z.idx(b.s)
			if i < 0 || j < 0 {
				return inf
			}
			// the matrix is closed, so the direct entry is the tightest
			return satAdd(z.at(i, j), l.c)
		}
	}
	best := z.ubMatch(l)
	for _, d := range z.lens {
		if s, ok := d.short(l); ok {
			best = min(best, z.ub(s))
		}
	}
	return best
}

func (z *Zone) ubMatch(l Lin) int64 {
	var posBuf, negBuf [8]int
	pos, neg := posBuf[:0], negBuf[:0]
	for _, t := range l.t {
		i := z.idx(t.s)
		if i < 0 {
			return inf
		}
		k := t.k
		if k > 4 || k < -4 {
			return inf
		}
		for ; k > 0; k-- {
			pos = append(pos, i)
		}
		for ; k < 0; k++ {
			neg = append(neg, i)
		}
	}
	for len(pos) < len(neg) {
		pos = append(pos, 0)
	}
	for len(neg) < len(pos) {
		neg = append(neg, 0)
	}
	if len(pos) > 5 {
		return inf
	}
	// a zero slot pair lets a positive and a negative term be bounded independently
	if len(pos) > 0 && len(pos) < 5 {
		pos = append(pos, 0)
		neg = append(neg, 0)
	}
	return satAdd(z.match(pos, neg, 0, 0, 0, inf), l.c)
}

func (z *Zone) match(pos, neg []int, i int, used uint, sum, best int64) int64 {
	if sum >= inf {
		return best
	}
	if i == len(pos) {
		return min(sum, best)
	}
	for j := range neg {
		if used&(1<<j) == 0 {
			best = z.match(pos, neg, i+1, used|1<<j, satAdd(sum, z.at(pos[i], neg[j])), best)
		}
	}
	return best
}

func (z *Zone) lb(l Lin) int64 {
	u := z.ub(l.neg())
	if u >= inf {
		return -inf
	}
	return -u
}

// le reports whether a <= b is entailed.
func (z *Zone) le(a, b Lin) bool { return z.ub(a.sub(b)) <= 0 }
func (z *Zone) lt(a, b Lin) bool { return z.ub(a.sub(b)) <= -1 }

// plain gives the index of the only symbol of an expression, 0 for a constant.
func (z *Zone) plain(l Lin) (int, bool) {
	switch {
	case len(l.t) == 0:
		return 0, true
	case len(l.t) == 1 && l.t[0].k == 1:
		i := z.idx(l.t[0].s)
		return i, i > 0
	}
	return 0, false
}

func (z *Zone) equal(a, b Lin) bool {
	if i, ok := z.plain(a); ok {
		if j, ok := z.plain(b); ok {
			if i == j {
				return a.c == b.c
			}
			return z.at(i, j) == b.c-a.c && z.at(j, i) == a.c-b.c
		}
	}
	d := a.sub(b)
	if d.isConst() {
		return d.c == 0
	}
	return z.ub(d) <= 0 && z.lb(d) >= 0
}

// constDiff reports the constant value of the expression, when it has one.
func (z *Zone) constOf(l Lin) (int64, bool) {
	if len(l.t) == 1 && l.t[0].k == 1 {
		i := z.idx(l.t[0].s)
		if i < 0 || z.at(i, 0) >= inf || z.at(i, 0) != -z.at(0, i) {
			return 0, false
		}
		return z.at(i, 0) + l.c, true
	}
	if l.isConst() {
		return l.c, true
	}
	u := z.ub(l)
	if u >= inf {
		return 0, false
	}
	if z.lb(l) == u {
		return u, true
	}
	return 0, false
}

// assumeLE adds l <= 0; it returns false when that is impossible.
func (z *Zone) assumeLE(l Lin) bool {
	if len(l.t) == 2 {
		if a, b := l.t[0], l.t[1]; a.k == -b.k && (a.k == 1 || a.k == -1) {
			// the matrix holds this exactly
			i, j := z.addSym(a.s), z.addSym(b.s)
			if a.k == -1 {
				i, j = j, i
			}
			return z.constrain(i, j, -l.c)
		}
	}
	// substitute fixed symbols
	l = l.subst(func(s Sym) Lin {
		i := z.idx(s)
		if i > 0 {
			if u, d := z.at(i, 0), z.at(0, i); u < inf && d < inf && u == -d {
				return linC(u)
			}
		}
		return linS(s)
	})
	if l.isConst() {
		return l.c <= 0
	}
	if z.lb(l) > 0 {
		return false
	}
	switch len(l.t) {
	case 1:
		t := l.t[0]
		i := z.addSym(t.s)
		switch {
		case t.k > 0: // k*x <= -c  => x <= floor(-c/k)
			return z.constrain(i, 0, floorDiv(-l.c, t.k))
		default: // -k*x <= -c => x >= ceil(c/k)
			return z.constrain(0, i, floorDiv(-l.c, -t.k))
		}
	case 2:
		a, b := l.t[0], l.t[1]
		if a.k == -b.k && (a.k == 1 || a.k == -1) {
			i, j := z.addSym(a.s), z.addSym(b.s)
			if a.k == -1 {
				i, j = j, i
			}
			return z.constrain(i, j, -l.c)
		}
	}
	for _, d := range z.lens {
		if s, ok := d.short(l); ok && !z.assumeLE(s) {
			return false
		}
	}
	// no exact representation: tighten each single pair using the bounds of the rest
	for x := range l.t {
		if l.t[x].k != 1 {
			continue
		}
		for y := range l.t {
			if l.t[y].k != -1 {
				continue
			}
			rest := l.sub(linS(l.t[x].s)).add(linS(l.t[y].s))
			if lo := z.lb(rest); lo > -inf {
				i, j := z.addSym(l.t[x].s), z.addSym(l.t[y].s)
				if !z.constrain(i, j, -lo) {
					return false
				}
			}
		}
	}
	for x := range l.t {
		if k := l.t[x].k; k == 1 || k == -1 {
			rest := l.sub(linS(l.t[x].s).scale(k))
			if lo := z.lb(rest); lo > -inf {
				i := z.addSym(l.t[x].s)
				ok := true
				if k == 1 {
					ok = z.constrain(i, 0, -lo)
				} else {
					ok = z.constrain(0, i, -lo)
				}
				if !ok {
					return false
				}
			}
		}
	}
	return true
}

func (z *Zone) assumeEQ(a, b Lin) bool {
	d := a.sub(b)
	return z.assumeLE(d) && z.assumeLE(d.neg())
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// project builds a zone over new symbols: new symbol vals[i].s stands for expression vals[i].l.
func (z *Zone) project(names []Sym, exprs []Lin) *Zone {
	n := len(names) + 1
	r := &Zone{ids: make([]Sym, n), m: make([]int64, n*n)}
	r.ids[0] = -1
	copy(r.ids[1:], names)
	get := func(i int) Lin {
		if i == 0 {
			return Lin{}
		}
		return exprs[i-1]
	}
	// plain symbols and constants are read from the matrix directly
	type plain struct {
		i  int // index, 0 for a constant, -1 when the expression is not plain
		c  int64
		ok bool
	}
	ps := make([]plain, n)
	for i := 0; i < n; i++ {
		l := get(i)
		switch {
		case len(l.t) == 0:
			ps[i] = plain{0, l.c, true}
		case len(l.t) == 1 && l.t[0].k == 1:
			if x := z.idx(l.t[0].s); x >= 0 {
				ps[i] = plain{x, l.c, true}
			}
		}
	}
	closed := !z.open
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			if a, b := ps[i], ps[j]; a.ok && b.ok {
				if a.i == b.i {
					r.m[i*n+j] = a.c - b.c
				} else {
					r.m[i*n+j] = satAdd(z.at(a.i, b.i), a.c-b.c)
				}
				continue
			}
			r.m[i*n+j] = z.ub(get(i).sub(get(j)))
			closed = false
		}
	}
	if !closed {
		r.close()
	}
	return r
}

func (z *Zone) close() {
	n := len(z.ids)
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			ik := z.m[i*n+k]
			if ik >= inf {
				continue
			}
			from, to := z.m[k*n:k*n+n], z.m[i*n:i*n+n]
			for j, kj := range from {
				if kj < inf && ik+kj < to[j] {
					to[j] = ik + kj
				}
			}
		}
	}
}

// leq: every constraint of o holds in z (z is at least as strong). Same symbol order.
func (z *Zone) leq(o *Zone) bool {
	for i := range z.m {
		if z.m[i] > o.m[i] {
			return false
		}
	}
	return true
}

func (z *Zone) join(o *Zone) *Zone {
	r := z.clone()
	for i := range r.m {
		if o.m[i] > r.m[i] {
			r.m[i] = o.m[i]
		}
	}
	return r
}

var widenThresholds = []int64{-2, -1, 0, 1, 2}

func (z *Zone) widen(o *Zone) *Zone {
	r := z.clone()
	for i := range r.m {
		if o.m[i] > r.m[i] {
			v := inf
			for _, t := range widenThresholds {
				if t >= o.m[i] {
					v = t
					break
				}
			}
			r.m[i] = v
			r.open = true
		}
	}
	return r
}

func (z *Zone) String() string {
	var out []string
	n := len(z.ids)
	name := func(i int) string {
		if i == 0 {
			return "0"
		}
		return fmt.Sprintf("s%d", z.ids[i])
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j && z.m[i*n+j] < inf {
				out = append(out, fmt.Sprintf("%s-%s<=%d", name(i), name(j), z.m[i*n+j]))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}
