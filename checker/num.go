package main

// Numeric domain: linear expressions over symbols, and a closed difference-bound matrix (zone) per abstract state.

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Sym is a symbolic integer. Sym 0 is the constant zero.
type Sym int32

type term struct {
	s Sym
	k int64
}

// Lin is c + sum of k*s, terms sorted by symbol, no zero coefficient.
type Lin struct {
	c int64
	t []term
}

func K(c int64) Lin { return Lin{c: c} }
func S(s Sym) Lin {
	if s == 0 {
		return Lin{}
	}
	return Lin{t: []term{{s, 1}}}
}

func (a Lin) isConst() bool { return len(a.t) == 0 }

func (a Lin) add(b Lin) Lin { return a.comb(b, 1) }
func (a Lin) sub(b Lin) Lin { return a.comb(b, -1) }
func (a Lin) addc(c int64) Lin {
	return Lin{c: a.c + c, t: a.t}
}

func (a Lin) comb(b Lin, m int64) Lin {
	r := Lin{c: a.c + m*b.c}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].s < b.t[j].s):
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s < a.t[i].s:
			r.t = append(r.t, term{b.t[j].s, m * b.t[j].k})
			j++
		default:
			k := a.t[i].k + m*b.t[j].k
			if k != 0 {
				r.t = append(r.t, term{a.t[i].s, k})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) neg() Lin { return K(0).sub(a) }

func (a Lin) scale(m int64) Lin {
	if m == 0 {
		return K(0)
	}
	r := Lin{c: a.c * m}
	for _, t := range a.t {
		r.t = append(r.t, term{t.s, t.k * m})
	}
	return r
}

func (a Lin) eq(b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// single returns the symbol if a is exactly one symbol with coefficient 1 plus a constant
func (a Lin) single() (Sym, int64, bool) {
	if len(a.t) == 0 {
		return 0, a.c, true
	}
	if len(a.t) == 1 && a.t[0].k == 1 {
		return a.t[0].s, a.c, true
	}
	return 0, 0, false
}

// diff returns x,y,c with a == x - y + c, if a has that form
func (a Lin) diff() (x, y Sym, c int64, ok bool) {
	switch len(a.t) {
	case 0:
		return 0, 0, a.c, true
	case 1:
		if a.t[0].k == 1 {
			return a.t[0].s, 0, a.c, true
		}
		if a.t[0].k == -1 {
			return 0, a.t[0].s, a.c, true
		}
	case 2:
		if a.t[0].k == 1 && a.t[1].k == -1 {
			return a.t[0].s, a.t[1].s, a.c, true
		}
		if a.t[0].k == -1 && a.t[1].k == 1 {
			return a.t[1].s, a.t[0].s, a.c, true
		}
	}
	return 0, 0, 0, false
}

func (a Lin) String() string {
	var b strings.Builder
	for _, t := range a.t {
		switch {
		case t.k == 1:
			fmt.Fprintf(&b, "+%s", symName(t.s))
		case t.k == -1:
			fmt.Fprintf(&b, "-%s", symName(t.s))
		default:
			fmt.Fprintf(&b, "%+d*%s", t.k, symName(t.s))
		}
	}
	if a.c != 0 || len(a.t) == 0 {
		fmt.Fprintf(&b, "%+d", a.c)
	}
	return strings.TrimPrefix(b.String(), "+")
}

func (a Lin) subst(f func(Sym) Lin) Lin {
	r := K(a.c)
	for _, t := range a.t {
		r = r.add(f(t.s).scale(t.k))
	}
	return r
}

var symNames = map[Sym]string{}
var symGlobal = map[string]Sym{}
var nextSym Sym = 1

func symName(s Sym) string {
	if n, ok := symNames[s]; ok {
		return n
	}
	return fmt.Sprintf("s%d", s)
}

func freshSym() Sym { s := nextSym; nextSym++; return s }

// globalSym returns the symbol interned under a key: it means the same in every state
func globalSym(key string) Sym {
	if s, ok := symGlobal[key]; ok {
		return s
	}
	s := freshSym()
	symGlobal[key] = s
	symNames[s] = key
	return s
}

func isGlobalSym(s Sym) bool {
	if s == 0 {
		return true
	}
	_, ok := symNames[s]
	return ok
}

const inf = math.MaxInt64

func addb(a, b int64) int64 {
	if a == inf || b == inf {
		return inf
	}
	return a + b
}

// DBM is a closed difference bound matrix; m[i][j] bounds x_i - x_j. Row 0 is symbol 0 (the constant 0).
type DBM struct {
	syms []Sym
	idx  map[Sym]int
	m    []int64
	n    int // stride
	bot  bool
}

func newDBM() *DBM {
	return &DBM{syms: []Sym{0}, idx: map[Sym]int{0: 0}, m: []int64{0}, n: 1}
}

func (d *DBM) clone() *DBM {
	r := &DBM{syms: append([]Sym(nil), d.syms...), idx: make(map[Sym]int, len(d.idx)), m: append([]int64(nil), d.m...), n: d.n, bot: d.bot}
	for k, v := range d.idx {
		r.idx[k] = v
	}
	return r
}

func (d *DBM) at(i, j int) int64     { return d.m[i*d.n+j] }
func (d *DBM) set(i, j int, v int64) { d.m[i*d.n+j] = v }

func (d *DBM) need(s Sym) int {
	if i, ok := d.idx[s]; ok {
		return i
	}
	k := len(d.syms)
	if k >= d.n {
		nn := d.n*2 + 4
		m := make([]int64, nn*nn)
		for i := range m {
			m[i] = inf
		}
		for i := 0; i < k; i++ {
			copy(m[i*nn:i*nn+k], d.m[i*d.n:i*d.n+k])
		}
		d.m, d.n = m, nn
	}
	for j := 0; j <= k; j++ {
		d.set(k, j, inf)
		d.set(j, k, inf)
	}
	d.set(k, k, 0)
	d.syms = append(d.syms, s)
	d.idx[s] = k
	return k
}

func (d *DBM) bound(x, y Sym) int64 {
	if x == y {
		return 0
	}
	i, ok1 := d.idx[x]
	j, ok2 := d.idx[y]
	if !ok1 || !ok2 {
		return inf
	}
	return d.at(i, j)
}

// addDiff adds x - y <= c
func (d *DBM) addDiff(x, y Sym, c int64) {
	if d.bot {
		return
	}
	if x == y {
		if c < 0 {
			d.bot = true
		}
		return
	}
	i, j := d.need(x), d.need(y)
	if d.at(i, j) <= c {
		return
	}
	if addb(d.at(j, i), c) < 0 {
		d.bot = true
		return
	}
	n := len(d.syms)
	for a := 0; a < n; a++ {
		ai := d.at(a, i)
		if ai == inf {
			continue
		}
		for b := 0; b < n; b++ {
			jb := d.at(j, b)
			if jb == inf {
				continue
			}
			if v := ai + c + jb; v < d.at(a, b) {
				d.set(a, b, v)
			}
		}
	}
}

// upper returns a bound u with a <= u, or inf
func (d *DBM) upper(a Lin) int64 {
	if d.bot {
		return -1 << 60
	}
	if x, y, c, ok := a.diff(); ok {
		return addb(d.bound(x, y), c)
	}
	var pos, neg []Sym
	for _, t := range a.t {
		k := t.k
		if k < -4 || k > 4 {
			return inf
		}
		for ; k > 0; k-- {
			pos = append(pos, t.s)
		}
		for ; k < 0; k++ {
			neg = append(neg, t.s)
		}
	}
	for len(pos) < len(neg) {
		pos = append(pos, 0)
	}
	for len(neg) < len(pos) {
		neg = append(neg, 0)
	}
	if len(pos) > 5 {
		return inf
	}
	best := int64(inf)
	var rec func(i int, sum int64)
	used := make([]bool, len(neg))
	rec = func(i int, sum int64) {
		if sum == inf {
			return
		}
		if i == len(pos) {
			if sum < best {
				best = sum
			}
			return
		}
		for j := range neg {
			if !used[j] {
				used[j] = true
				rec(i+1, addb(sum, d.bound(pos[i], neg[j])))
				used[j] = false
			}
		}
	}
	rec(0, a.c)
	return best
}

// assumeLe0 adds a <= 0, exactly if it is a difference, otherwise the differences it implies
func (d *DBM) assumeLe0(a Lin) {
	if d.bot {
		return
	}
	if x, y, c, ok := a.diff(); ok {
		d.addDiff(x, y, -c)
		return
	}
	if d.upper(a.neg()) < 0 {
		d.bot = true
		return
	}
	// for each pair (p,-q) in a: p - q <= -(rest), rest >= -upper(-rest)
	for _, p := range a.t {
		if p.k <= 0 {
			continue
		}
		for _, q := range append([]term{{0, -1}}, a.t...) {
			if q.k >= 0 {
				continue
			}
			rest := a.sub(S(p.s).sub(S(q.s)))
			u := d.upper(rest.neg())
			if u != inf && u < 1<<50 {
				d.addDiff(p.s, q.s, u)
				if d.bot {
					return
				}
			}
		}
	}
	for _, q := range a.t {
		if q.k < 0 {
			rest := a.sub(S(q.s).neg())
			u := d.upper(rest.neg())
			if u != inf && u < 1<<50 {
				d.addDiff(0, q.s, u)
			}
		}
	}
}

func (d *DBM) String() string {
	var out []string
	for i, x := range d.syms {
		for j, y := range d.syms {
			if i == j || d.at(i, j) == inf {
				continue
			}
			// drop redundant through zero
			if i != 0 && j != 0 && addb(d.at(i, 0), d.at(0, j)) <= d.at(i, j) {
				continue
			}
			a := d.at(i, j)
			switch {
			case j == 0:
				out = append(out, fmt.Sprintf("%s<=%d", symName(x), a))
			case i == 0:
				out = append(out, fmt.Sprintf("%s>=%d", symName(y), -a))
			case a == 0:
				out = append(out, fmt.Sprintf("%s<=%s", symName(x), symName(y)))
			default:
				out = append(out, fmt.Sprintf("%s<=%s%+d", symName(x), symName(y), a))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}
