package main

// Comparing, joining and widening abstract states of the same shape.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sumDim marks symbols that stand for a different value in each object a summary covers
var sumDim = map[Sym]bool{}

// walker visits everything reachable in a state in canonical order
type walker struct {
	s      *State
	sb     strings.Builder
	slots  []Lin
	raw    []Lin // slots before constants were put in
	obj    map[int]int
	inList int
	ids    map[int]int
	idSeq  []int
	objSeq []int
	// if out is not nil the walk rebuilds the state into it, replacing the slots
	out  *State
	repl []Lin
	k    int
}

func (w *walker) lin(l Lin) Lin {
	if w.out == nil {
		w.raw = append(w.raw, l)
	}
	if c, ok := w.s.constOf(l); ok && w.out == nil {
		l = K(c)
	}
	if w.out != nil {
		r := w.repl[w.k]
		w.k++
		return r
	}
	w.slots = append(w.slots, l)
	if l.isConst() && l.c == -1 {
		w.sb.WriteByte('E') // the mark for the end of the text is not mixed with chars
	} else {
		w.sb.WriteByte('#')
	}
	return l
}

func (w *walker) id(id int, facts byte) {
	if key, ok := internRev[id]; ok {
		w.sb.WriteString("@" + key)
		return
	}
	n, ok := w.ids[id]
	if !ok {
		n = len(w.ids)
		w.ids[id] = n
		w.idSeq = append(w.idSeq, id)
		if facts == 't' {
			if t, ok := w.s.truth[id]; ok {
				fmt.Fprintf(&w.sb, "=%v", t)
			}
		}
		if facts == 'n' {
			if t, ok := w.s.nilf[id]; ok {
				fmt.Fprintf(&w.sb, "=%v", t)
			}
		}
	}
	fmt.Fprintf(&w.sb, "i%d", n)
}

func (w *walker) idx(p *Lin) *Lin {
	if p == nil {
		return nil
	}
	l := w.lin(*p)
	return &l
}

func (w *walker) val(v Val) Val {
	switch v := v.(type) {
	case nil:
		w.sb.WriteByte('-')
		return nil
	case VInt:
		w.sb.WriteByte('I')
		return VInt{w.lin(v.l)}
	case VNil:
		w.sb.WriteByte('0')
		return v
	case VPtr:
		w.sb.WriteString("P" + v.path)
		w.object(v.obj)
		return v
	case VOpq:
		if o, ok := w.s.mat[v.id]; ok {
			w.sb.WriteString("M")
			w.object(o)
		}
		w.sb.WriteString("O" + v.key)
		w.id(v.id, 'n')
		v.idx = w.idx(v.idx)
		return v
	case VRope:
		w.sb.WriteByte('R')
		r := VRope{isNil: v.isNil && len(v.p) == 0}
		for _, p := range v.p {
			w.sb.WriteString(p.tape + ",")
			if p.tape == "" {
				p.ch = w.lin(p.ch)
			} else {
				if p.tape == tapeT && w.out == nil && w.inList == 0 {
					// text that reaches to where the stream is is not mixed with text that may not
					if q, ok := w.s.ghost["q"].(VInt); ok && w.s.eq(p.hi, q.l) {
						w.sb.WriteByte('=')
					}
				}
				p.lo = w.lin(p.lo)
				p.hi = w.lin(p.hi)
			}
			r.p = append(r.p, p)
		}
		w.sb.WriteByte(';')
		return r
	case VList:
		w.sb.WriteByte('L')
		w.inList++
		defer func() { w.inList-- }()
		r := VList{isNil: v.isNil && len(v.p) == 0}
		for _, p := range v.p {
			w.sb.WriteByte(p.kind)
			switch p.kind {
			case 'e':
				p.v = w.val(p.v)
			case 'w':
				w.sb.WriteString(p.key)
				p.lo, p.hi = w.lin(p.lo), w.lin(p.hi)
				if p.key == groupKey {
					p.cnt = w.lin(p.cnt)
				}
			case 's':
				w.id(p.id, 0)
				p.v = w.val(p.v)
				p.lo, p.hi = w.lin(p.lo), w.lin(p.hi)
			}
			r.p = append(r.p, p)
		}
		w.sb.WriteByte(';')
		return r
	case VStr:
		if v.cst != nil {
			fmt.Fprintf(&w.sb, "%q", *v.cst)
			return v
		}
		w.sb.WriteByte('S')
		w.id(v.id, 0)
		w.sb.WriteString(v.key)
		v.idx = w.idx(v.idx)
		if v.runes != nil {
			r := w.val(*v.runes).(VRope)
			v.runes = &r
		}
		return v
	case *VBool:
		return w.bool(v)
	case VStruct:
		w.sb.WriteByte('{')
		r := VStruct{}
		for _, x := range v.f {
			r.f = append(r.f, w.val(x))
		}
		w.sb.WriteByte('}')
		return r
	case VTuple:
		w.sb.WriteByte('(')
		r := VTuple{}
		for _, x := range v.v {
			r.v = append(r.v, w.val(x))
		}
		w.sb.WriteByte(')')
		return r
	case VFunc:
		w.sb.WriteString("F" + v.fn.String())
		r := VFunc{fn: v.fn}
		for _, x := range v.bind {
			r.bind = append(r.bind, w.val(x))
		}
		return r
	case VTop:
		w.sb.WriteByte('T')
		return v
	case VElemPtr:
		w.sb.WriteByte('E')
		return VElemPtr{w.val(v.seq), w.lin(v.idx)}
	case VIter:
		w.sb.WriteByte('Y')
		v.src = w.val(v.src)
		return v
	}
	panic(fmt.Sprintf("walker: %T", v))
}

func (w *walker) bool(v *VBool) *VBool {
	if v == nil {
		return nil
	}
	w.sb.WriteByte('B')
	w.sb.WriteByte(v.op)
	r := *v
	switch v.op {
	case 'T', 'F':
		return v
	case 'a':
		w.sb.WriteString(v.key)
		w.id(v.id, 't')
	case 'p':
		w.sb.WriteString(v.key)
		r.l = w.lin(v.l)
	case '<', '=':
		r.l = w.lin(v.l)
	case 'n':
		r.v = w.val(v.v)
	default:
		r.x, r.y = w.bool(v.x), w.bool(v.y)
	}
	return &r
}

func (w *walker) object(id int) {
	if n, ok := w.obj[id]; ok {
		fmt.Fprintf(&w.sb, "o%d", n)
		return
	}
	w.obj[id] = len(w.obj)
	w.objSeq = append(w.objSeq, id)
	o := w.s.heap[id]
	if o == nil {
		w.sb.WriteString("o?")
		return
	}
	fmt.Fprintf(&w.sb, "o:%s%s%v(", o.symKey, o.tag, o.summary)
	c := o.clone()
	c.symIdx = w.idx(o.symIdx)
	for i, v := range o.f {
		c.f[i] = w.val(v)
	}
	if o.m != nil {
		w.sb.WriteString("m" + o.m.from)
		for i := range o.m.keys {
			c.m.keys[i] = w.val(o.m.keys[i])
			c.m.vals[i] = w.val(o.m.vals[i])
		}
		c.m.sum = w.val(o.m.sum)
		c.m.n = w.lin(o.m.n)
		if o.m.last != nil {
			l := w.val(*o.m.last).(VStr)
			c.m.last = &l
		}
	}
	w.sb.WriteByte(')')
	if w.out != nil {
		w.out.heap[id] = c
		w.out.own[id] = true
	}
}

func regOrder(f *Frame) []ssa.Value {
	ks := make([]ssa.Value, 0, len(f.regs))
	for k := range f.regs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		if a.Name() != b.Name() {
			return a.Name() < b.Name()
		}
		return a.Pos() < b.Pos()
	})
	return ks
}

// exactReg: values of which different constants are kept apart in joins
var exactReg = map[ssa.Value]bool{}

// walk visits the whole state
func (w *walker) walk() {
	s := w.s
	for _, f := range s.frames {
		fmt.Fprintf(&w.sb, "\n%s/%d:", f.fn.Name(), len(f.defers))
		nf := &Frame{fn: f.fn, defers: f.defers, callSite: f.callSite, regs: map[ssa.Value]Val{}}
		for _, k := range regOrder(f) {
			w.sb.WriteString(" " + k.Name() + "=")
			if v, ok := f.regs[k].(VInt); ok && exactReg[k] && len(v.l.t) == 0 {
				fmt.Fprintf(&w.sb, "%d", v.l.c)
			}
			nf.regs[k] = w.val(f.regs[k])
		}
		if w.out != nil {
			w.out.frames = append(w.out.frames, nf)
		}
	}
	var gs []string
	for k := range s.ghost {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	for _, k := range gs {
		w.sb.WriteString("\nghost " + k + "=")
		v := w.val(s.ghost[k])
		if w.out != nil {
			w.out.ghost[k] = v
		}
	}
	// facts about values that are the same in every state
	var fs []string
	for id, t := range s.truth {
		if key, ok := internRev[id]; ok {
			fs = append(fs, fmt.Sprintf("%s=%v", key, t))
		}
	}
	for id, t := range s.nilf {
		if key, ok := internRev[id]; ok {
			fs = append(fs, fmt.Sprintf("nil %s=%v", key, t))
		}
	}
	for k, v := range s.flags {
		if v {
			fs = append(fs, k)
		}
	}
	sort.Strings(fs)
	w.sb.WriteString("\n" + strings.Join(fs, " "))
	// objects standing for what opaque global pointers point to
	var ms []string
	byKey := map[string]int{}
	for id, o := range s.mat {
		if key, ok := internRev[id]; ok {
			if ob := s.heap[o]; ob != nil && dirty(ob) {
				ms = append(ms, key)
				byKey[key] = o
			}
		}
	}
	sort.Strings(ms)
	for _, k := range ms {
		w.sb.WriteString("\nmat " + k)
		w.object(byKey[k])
	}
}

// dirty: the object holds something that is not its initial symbolic content
func dirty(o *Obj) bool {
	for _, v := range o.f {
		if v != nil {
			return true
		}
	}
	return o.m != nil
}

func (s *State) normalize() {
	var nv func(v Val) Val
	nv = func(v Val) Val {
		switch v := v.(type) {
		case VRope:
			return s.normRope(v)
		case VOpq:
			if o, ok := s.mat[v.id]; ok {
				return VPtr{obj: o}
			}
			if s.nilf[v.id] {
				return VNil{}
			}
		case *VBool:
			if v.op != 'T' && v.op != 'F' {
				if t, ok := s.truthOf(v); ok {
					return mkBool(t)
				}
			}
		}
		return v
	}
	for _, f := range s.frames {
		for k, v := range f.regs {
			f.regs[k] = nv(v)
		}
	}
	for id, o := range s.heap {
		for i, v := range o.f {
			if v == nil {
				continue
			}
			n := nv(v)
			if !sameVal(n, v) {
				s.wobj(id).f[i] = n
			}
		}
	}
	for k, v := range s.ghost {
		s.ghost[k] = nv(v)
	}
}

func sameVal(a, b Val) bool {
	switch a := a.(type) {
	case VRope:
		b, ok := b.(VRope)
		if !ok || len(a.p) != len(b.p) {
			return false
		}
		for i := range a.p {
			p, q := a.p[i], b.p[i]
			if p.tape != q.tape || !p.lo.eq(q.lo) || !p.hi.eq(q.hi) || !p.ch.eq(q.ch) {
				return false
			}
		}
		return true
	case VPtr:
		c, ok := b.(VPtr)
		return ok && a == c
	case VNil:
		_, ok := b.(VNil)
		return ok
	case *VBool:
		c, ok := b.(*VBool)
		return ok && a == c
	case VOpq:
		c, ok := b.(VOpq)
		return ok && a.id == c.id
	}
	return true
}

func shapeOf(s *State) *walker {
	s.normalize()
	w := &walker{s: s, obj: map[int]int{}, ids: map[int]int{}}
	w.walk()
	return w
}

// gc drops what nothing refers to any more
func (s *State) gc() {
	w := &walker{s: s, obj: map[int]int{}, ids: map[int]int{}}
	w.walk()
	for id := range s.heap {
		if _, ok := w.obj[id]; !ok {
			delete(s.heap, id)
		}
	}
	for id, o := range s.mat {
		if _, ok := s.heap[o]; !ok {
			delete(s.mat, id)
		}
	}
	for id := range s.truth {
		if _, ok := w.ids[id]; !ok && internRev[id] == "" {
			delete(s.truth, id)
		}
	}
	for id := range s.nilf {
		if _, ok := w.ids[id]; !ok && internRev[id] == "" {
			delete(s.nilf, id)
		}
	}
	// symbols in use
	used := map[Sym]bool{0: true}
	add := func(l Lin) {
		for _, t := range l.t {
			used[t.s] = true
		}
	}
	for _, l := range w.raw {
		add(l)
	}
	// positions are expressed by symbols that are still in use where they are equal but for a constant
	for i, c := range s.chars {
		for _, t := range c.pos.t {
			if used[t.s] || isGlobalSym(t.s) {
				continue
			}
			for _, y := range s.d.syms {
				if y == 0 || !(used[y] || isGlobalSym(y)) {
					continue
				}
				if up := s.d.bound(t.s, y); up != inf && s.d.bound(y, t.s) == -up {
					s.chars[i].pos = c.pos.subst(func(z Sym) Lin {
						if z == t.s {
							return S(y).addc(up)
						}
						return S(z)
					})
					break
				}
			}
			break
		}
		if k, ok := s.constOf(s.chars[i].pos); ok && !witnessPos(c.pos) {
			s.chars[i].pos = K(k)
		}
	}
	// chars are kept while their position can still be expressed
	for _, c := range s.chars {
		used[c.v] = used[c.v]
	}
	for again := true; again; {
		again = false
		for _, c := range s.chars {
			ok := true
			for _, t := range c.pos.t {
				if !used[t.s] && !isGlobalSym(t.s) {
					ok = false
				}
			}
			if (ok || used[c.v]) && !used[c.v] {
				used[c.v] = true
				again = true
			}
			if used[c.v] {
				for _, t := range c.pos.t {
					if !used[t.s] {
						used[t.s] = true
						again = true
					}
				}
			}
		}
	}
	for _, e := range s.eqs {
		add(e.i)
		add(e.j)
		add(e.n)
	}
	var whites []span
	for _, w := range s.whites {
		ok := true
		for _, l := range []Lin{w.lo, w.hi} {
			for _, t := range l.t {
				if !used[t.s] && !isGlobalSym(t.s) {
					ok = false
				}
			}
		}
		if ok {
			whites = append(whites, w)
		}
	}
	s.whites = whites
	var keep []Sym
	for _, x := range s.d.syms {
		if used[x] || isGlobalSym(x) {
			keep = append(keep, x)
		}
	}
	if len(keep) < len(s.d.syms) {
		s.d = s.d.project(keep)
	}
	live := func(l Lin) bool {
		for _, t := range l.t {
			if !used[t.s] && !isGlobalSym(t.s) {
				return false
			}
		}
		return true
	}
	neq := s.neq
	s.neq = nil
	for _, n := range neq {
		if live(n) {
			s.addNeq(n)
		}
	}
	var chars []charMemo
	for _, c := range s.chars {
		if used[c.v] && live(c.pos) {
			chars = append(chars, c)
		}
	}
	s.chars = chars
	var preds []predFact
	for _, p := range s.preds {
		if live(p.arg) {
			preds = append(preds, p)
		}
	}
	s.preds = preds
}

// addNeq notes n != 0 unless that is known already
func (s *State) addNeq(n Lin) {
	if s.d.upper(n) < 0 || s.d.upper(n.neg()) < 0 {
		return
	}
	for _, m := range s.neq {
		if m.eq(n) || m.eq(n.neg()) {
			return
		}
	}
	s.neq = append(s.neq, n)
}

func (d *DBM) project(keep []Sym) *DBM {
	r := newDBM()
	r.bot = d.bot
	for _, x := range keep {
		r.need(x)
	}
	for i, x := range r.syms {
		for j, y := range r.syms {
			r.set(i, j, d.bound(x, y))
		}
	}
	return r
}

type slotJoin struct {
	n    Sym
	a, b Lin
}

// joinStates returns a state that covers a and b, which must have the same shape. With widen, bounds of a that b
// does not satisfy are dropped.
// baseSym: values that are some way behind this one stay shown in terms of it
var baseSym Sym

func coef(l Lin) int64 {
	for _, t := range l.t {
		if t.s == baseSym {
			return int64(t.k)
		}
	}
	return 0
}

func joinStates(a, b *State, wa, wb *walker, visits int) *State {
	widen := visits > 3
	var sj []slotJoin
	memo := map[string]Sym{}
	offs := map[Sym]int64{}        // the values that are shown in terms of a symbol are that much above it
	pair := func(ta, tb Lin) Lin { // ta and tb without constant part differences
		if ta.eq(tb) {
			glob := true
			for _, t := range ta.t {
				if !isGlobalSym(t.s) {
					glob = false
				}
			}
			if glob {
				return ta
			}
		}
		off := ta.c
		ta, tb = ta.addc(-off), tb.addc(-off)
		key := ta.String() + "|" + tb.String()
		n, ok := memo[key]
		if !ok {
			n = freshSym()
			for _, l := range []Lin{ta, tb} {
				for _, t := range l.t {
					if sumDim[t.s] {
						sumDim[n] = true
					}
				}
			}
			memo[key] = n
			sj = append(sj, slotJoin{n, ta, tb})
		}
		if off > offs[n] {
			offs[n] = off
		}
		return S(n).addc(off)
	}
	repl := make([]Lin, len(wa.slots))
	var several []int
	for i := range wa.slots {
		ta, tb := wa.slots[i], wb.slots[i]
		if baseSym != 0 && i < len(wa.raw) && i < len(wb.raw) {
			ra, rb, k := wa.raw[i].sub(S(baseSym)), wb.raw[i].sub(S(baseSym)), S(baseSym)
			if coef(wa.raw[i]) == 1 && coef(wb.raw[i]) == 1 && len(ra.t) < 2 && len(rb.t) < 2 {
				if c, ok := a.constOf(ra); ok {
					ra = K(c)
				}
				if c, ok := b.constOf(rb); ok {
					rb = K(c)
				}
				repl[i] = k.add(pair(ra, rb))
				if ra.eq(rb) && ra.isConst() {
					repl[i] = k.add(ra)
				}
				continue
			}
		}
		if i < len(wa.raw) && i < len(wb.raw) && wa.raw[i].eq(wb.raw[i]) && len(wa.raw[i].t) > 0 {
			ta, tb = wa.raw[i], wb.raw[i]
		} else if i < len(wa.raw) && i < len(wb.raw) {
			// what is the same in terms of the inputs stays so
			if g := wa.raw[i]; allGlobal(g) && b.eq(g, wb.raw[i]) {
				repl[i] = g
				continue
			}
			if g := wb.raw[i]; allGlobal(g) && a.eq(g, wa.raw[i]) {
				repl[i] = g
				continue
			}
		}
		if len(ta.t) <= 1 && len(tb.t) <= 1 {
			if _, _, ok := ta.single(); ok || len(ta.t) == 0 {
				repl[i] = pair(ta, tb)
				continue
			}
		}
		several = append(several, i)
	}
	for _, i := range several {
		ta, tb := wa.slots[i], wb.slots[i]
		if i < len(wa.raw) && i < len(wb.raw) && wa.raw[i].eq(wb.raw[i]) && len(wa.raw[i].t) > 0 {
			ta, tb = wa.raw[i], wb.raw[i]
		}
		// several terms: what is common and global stays, other terms are paired by coefficient
		res := K(0)
		ra, rb := ta, tb
		for _, t := range ta.t {
			if !isGlobalSym(t.s) {
				continue
			}
			for _, u := range tb.t {
				if u == t {
					res = res.add(S(t.s).scale(t.k))
					ra = ra.sub(S(t.s).scale(t.k))
					rb = rb.sub(S(t.s).scale(t.k))
				}
			}
		}
		matched := len(ra.t) == len(rb.t)
		used := make([]bool, len(rb.t))
		acc := K(ra.c)
		if ra.c != rb.c {
			matched = false
		}
		if matched {
			for _, t := range ra.t {
				found := false
				for _, known := range []bool{true, false} { // terms that go together elsewhere do so here
					for j, u := range rb.t {
						if found || used[j] || u.k != t.k {
							continue
						}
						if _, ok := memo[S(t.s).String()+"|"+S(u.s).String()]; known && !ok {
							continue
						}
						used[j] = true
						found = true
						acc = acc.add(pair(S(t.s), S(u.s)).scale(t.k))
					}
				}
				if !found {
					matched = false
					break
				}
			}
		}
		if matched {
			repl[i] = res.add(acc)
		} else {
			repl[i] = res.add(pair(ra, rb))
		}
	}
	// chars at the arbitrary but fixed positions that stand for all
	type fixedChar struct {
		m charMemo
		v Lin
	}
	var fixed []fixedChar
	for _, c := range a.chars {
		if !witnessPos(c.pos) {
			continue
		}
		for _, m := range b.chars {
			if m.tape == c.tape && m.pos.eq(c.pos) {
				fixed = append(fixed, fixedChar{c, pair(S(c.v), S(m.v))})
				break
			}
		}
	}
	// chars something is known about
	early := func(l Lin) (Lin, Lin, bool) { // in terms of a's symbols: the same in the result, and in b
		r, rb := K(l.c), K(l.c)
		for _, t := range l.t {
			if isGlobalSym(t.s) {
				r, rb = r.add(S(t.s).scale(t.k)), rb.add(S(t.s).scale(t.k))
				continue
			}
			ok := false
			for _, j := range sj {
				if x, c, o := j.a.single(); o && x == t.s {
					r = r.add(S(j.n).addc(-c).scale(t.k))
					rb = rb.add(j.b.addc(-c).scale(t.k))
					ok = true
					break
				}
			}
			if !ok {
				return r, rb, false
			}
		}
		return r, rb, true
	}
	for _, c := range a.chars {
		if witnessPos(c.pos) || !a.telling(c.v) {
			continue
		}
		if _, _, ok := early(S(c.v)); ok {
			continue
		}
		if _, pb, ok := early(c.pos); ok {
			for _, m := range b.chars {
				if m.tape == c.tape && b.eq(m.pos, pb) {
					pair(S(c.v), S(m.v))
					break
				}
			}
		}
	}
	out := newState()
	// numeric part
	type gsym struct {
		n    Sym
		a, b Lin
	}
	all := []gsym{{0, K(0), K(0)}}
	seen := map[Sym]bool{0: true}
	for _, d := range []*DBM{a.d, b.d} {
		for _, x := range d.syms {
			if x != 0 && isGlobalSym(x) && !seen[x] {
				seen[x] = true
				all = append(all, gsym{x, S(x), S(x)})
			}
		}
	}
	for _, j := range sj {
		all = append(all, gsym{j.n, j.a, j.b})
	}
	for _, x := range all {
		out.d.need(x.n)
	}
	unstable := map[int]bool{}
	for i, x := range all {
		for j, y := range all {
			if i == j {
				continue
			}
			ba := a.d.upper(x.a.sub(y.a))
			bb := b.d.upper(x.b.sub(y.b))
			v := ba
			if bb > ba {
				v = bb
				if widen {
					unstable[i], unstable[j] = true, true
					v = inf
					o := offs[y.n] - offs[x.n]
					for _, t := range []int64{-1, 0, 1, int64(o) - 1, int64(o), int64(o) + 1} {
						if bb <= t && t < v {
							v = t
						}
					}
				}
			}
			out.d.set(i, j, v)
		}
	}
	if widen {
		if visits > 8 {
			// bounds that depend on one another may grow in turns: drop all large bounds of what is not stable
			for i := range unstable {
				for j := range all {
					if i != j {
						oi, oj := offs[all[i].n], offs[all[j].n]
						if v := out.d.at(i, j); v > 1 && v-oj+oi > 1 {
							out.d.set(i, j, inf)
						}
						if v := out.d.at(j, i); v > 1 && v-oi+oj > 1 {
							out.d.set(j, i, inf)
						}
					}
				}
			}
		}
		out.d.close()
	}
	// disequalities
	expr := func(l Lin) (Lin, bool) { // an expression over a's symbols in terms of the new ones
		r := K(l.c)
		for _, t := range l.t {
			if isGlobalSym(t.s) {
				r = r.add(S(t.s).scale(t.k))
				continue
			}
			ok := false
			for _, j := range sj {
				if x, c, o := j.a.single(); o && x == t.s {
					r = r.add(S(j.n).addc(-c).scale(t.k))
					ok = true
					break
				}
			}
			if !ok {
				return Lin{}, false
			}
		}
		return r, true
	}
	inB := func(l Lin) Lin { // new expression in b's terms
		return l.subst(func(x Sym) Lin {
			for _, j := range sj {
				if j.n == x {
					return j.b
				}
			}
			return S(x)
		})
	}
	for _, n := range a.neq {
		if e, ok := expr(n); ok && b.ne(inB(e), K(0)) {
			out.addNeq(e)
		}
	}
	for _, n := range b.neq {
		// the same the other way round
		r := K(n.c)
		ok := true
		for _, t := range n.t {
			if isGlobalSym(t.s) {
				r = r.add(S(t.s).scale(t.k))
				continue
			}
			f := false
			for _, j := range sj {
				if x, c, o := j.b.single(); o && x == t.s {
					r = r.add(S(j.n).addc(-c).scale(t.k))
					f = true
					break
				}
			}
			ok = ok && f
		}
		if !ok {
			continue
		}
		ia := r.subst(func(x Sym) Lin {
			for _, j := range sj {
				if j.n == x {
					return j.a
				}
			}
			return S(x)
		})
		if a.ne(ia, K(0)) {
			out.addNeq(r)
		}
	}
	for _, p := range a.preds {
		if e, ok := expr(p.arg); ok {
			if t, known := b.predTruth(p.key, inB(e)); known && t == p.val {
				out.preds = append(out.preds, predFact{p.key, e, p.val})
			}
		}
	}
	for _, c := range fixed {
		if x, k, ok := c.v.single(); ok && k == 0 {
			out.chars = append(out.chars, charMemo{c.m.tape, c.m.pos, x})
		}
	}
	keepChar := func(tape string, pos, v Lin) {
		x, k, o := v.single()
		if !o || k != 0 {
			return
		}
		for _, m := range out.chars {
			if m.tape == tape && m.pos.eq(pos) {
				return
			}
		}
		pb, vb := inB(pos), inB(v)
		for _, m := range b.chars {
			if m.tape == tape && b.eq(m.pos, pb) && b.eq(S(m.v), vb) {
				out.chars = append(out.chars, charMemo{tape, pos, x})
				break
			}
		}
	}
	for _, c := range a.chars {
		v, ok := expr(S(c.v))
		if !ok {
			continue
		}
		if !witnessPos(c.pos) {
			if pos, ok := expr(c.pos); ok {
				keepChar(c.tape, pos, v)
			}
		} else if k, ok := a.constOf(c.pos); ok {
			keepChar(c.tape, K(k), v)
		}
		// the same position as seen from elsewhere
		for _, j := range sj {
			d := j.a.sub(c.pos)
			if up := a.d.upper(d); up != inf && a.d.upper(d.neg()) == -up {
				keepChar(c.tape, S(j.n).addc(-up), v)
			}
		}
	}
	for _, w := range a.whites {
		lo, ok1 := expr(w.lo)
		hi, ok2 := expr(w.hi)
		if !ok1 || !ok2 {
			continue
		}
		ok := b.le(inB(hi), inB(lo))
		for _, v := range b.whites {
			if b.le(v.lo, inB(lo)) && b.le(inB(hi), v.hi) {
				ok = true
			}
		}
		if ok {
			out.whites = append(out.whites, span{lo, hi})
		}
	}
	for _, e := range a.eqs {
		i, ok1 := expr(e.i)
		j, ok2 := expr(e.j)
		n, ok3 := expr(e.n)
		if !ok1 || !ok2 || !ok3 {
			continue
		}
		for _, f := range b.eqs {
			if f.ta == e.ta && f.tb == e.tb && b.eq(f.i, inB(i)) && b.eq(f.j, inB(j)) && b.le(inB(n), f.n) {
				out.eqs = append(out.eqs, eqFact{e.ta, e.tb, i, j, n})
				break
			}
		}
	}
	// structure
	w := &walker{s: a, obj: map[int]int{}, ids: map[int]int{}, out: out, repl: repl}
	w.walk()
	for id, t := range a.truth {
		if _, ok := w.ids[id]; ok || internRev[id] != "" {
			out.truth[id] = t
		}
	}
	for id, t := range a.nilf {
		if _, ok := w.ids[id]; ok || internRev[id] != "" {
			out.nilf[id] = t
		}
	}
	for id, o := range a.mat {
		if _, ok := out.heap[o]; ok {
			out.mat[id] = o
		}
	}
	for k, v := range a.flags {
		out.flags[k] = v
	}
	out.trace = a.trace
	return out
}

func (d *DBM) close() {
	n := len(d.syms)
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			ik := d.at(i, k)
			if ik == inf {
				continue
			}
			for j := 0; j < n; j++ {
				kj := d.at(k, j)
				if kj == inf {
					continue
				}
				if v := ik + kj; v < d.at(i, j) {
					d.set(i, j, v)
				}
			}
		}
	}
}

// witness symbols stand for one arbitrary but fixed position (or index), and so for all of them
var witness = map[Sym]bool{}

func witnessSym(n string) Sym {
	s := globalSym(n)
	witness[s] = true
	return s
}

// telling: more is known about a char than where it is
func (s *State) telling(v Sym) bool {
	for i, y := range s.d.syms {
		for j := range s.d.syms {
			if y == v && i != j && (s.d.at(i, j) != inf || s.d.at(j, i) != inf) {
				return true
			}
		}
	}
	for _, n := range s.neq {
		for _, t := range n.t {
			if t.s == v {
				return true
			}
		}
	}
	for _, p := range s.preds {
		for _, t := range p.arg.t {
			if t.s == v {
				return true
			}
		}
	}
	for _, c := range s.chars {
		if c.v != v && s.d.bound(c.v, v) == 0 && s.d.bound(v, c.v) == 0 {
			return true
		}
	}
	return false
}

// allGlobal: an expression over input symbols only, at least one
func allGlobal(l Lin) bool {
	for _, t := range l.t {
		if !isGlobalSym(t.s) || witness[t.s] {
			return false
		}
	}
	return len(l.t) > 0
}

// renamed is the state with a symbol replaced by an expression it is known to equal
func (s *State) renamed(x Sym, l Lin) *State {
	sub := func(e Lin) Lin {
		return e.subst(func(y Sym) Lin {
			if y == x {
				return l
			}
			return S(y)
		})
	}
	wa := shapeOf(s)
	repl := make([]Lin, len(wa.raw))
	for i, e := range wa.raw {
		repl[i] = sub(e)
	}
	out := newState()
	out.d = s.d.clone()
	for _, n := range s.neq {
		out.neq = append(out.neq, sub(n))
	}
	for _, c := range s.chars {
		out.chars = append(out.chars, charMemo{c.tape, sub(c.pos), c.v})
	}
	for _, p := range s.preds {
		out.preds = append(out.preds, predFact{p.key, sub(p.arg), p.val})
	}
	for _, e := range s.eqs {
		out.eqs = append(out.eqs, eqFact{e.ta, e.tb, sub(e.i), sub(e.j), sub(e.n)})
	}
	for _, w := range s.whites {
		out.whites = append(out.whites, span{sub(w.lo), sub(w.hi)})
	}
	w := &walker{s: s, obj: map[int]int{}, ids: map[int]int{}, out: out, repl: repl}
	w.walk()
	for id, t := range s.truth {
		out.truth[id] = t
	}
	for id, t := range s.nilf {
		out.nilf[id] = t
	}
	for id, o := range s.mat {
		if _, ok := out.heap[o]; ok {
			out.mat[id] = o
		}
	}
	for k, v := range s.flags {
		out.flags[k] = v
	}
	out.trace = s.trace
	return out
}

func witnessPos(l Lin) bool {
	any := false
	for _, t := range l.t {
		if !isGlobalSym(t.s) {
			return false
		}
		any = any || witness[t.s]
	}
	return any
}

// leq: everything b allows is allowed by a (same shape)
func leq(b, a *State, wb, wa *walker) bool {
	theta := map[Sym]Lin{}
	for i := range wa.slots {
		ta, tb := wa.slots[i], wb.slots[i]
		if x, c, ok := ta.single(); ok && x != 0 && !isGlobalSym(x) {
			if t, bound := theta[x]; bound {
				if !b.eq(t, tb.addc(-c)) {
					return false
				}
			} else {
				theta[x] = tb.addc(-c)
			}
		}
	}
	for i := range wa.slots {
		ta, tb := wa.slots[i], wb.slots[i]
		if len(ta.t) < 2 {
			continue
		}
		// one symbol besides global ones
		var x Sym
		n := 0
		for _, t := range ta.t {
			if !isGlobalSym(t.s) {
				if _, bound := theta[t.s]; !bound {
					n++
					x = t.s
					if t.k != 1 {
						n = 2
					}
				}
			}
		}
		if n > 1 {
			// terms are paired by coefficient, as in a join
			used := make([]bool, len(tb.t))
			for _, t := range ta.t {
				if isGlobalSym(t.s) {
					continue
				}
				for j, u := range tb.t {
					if !used[j] && u.k == t.k {
						used[j] = true
						if _, bound := theta[t.s]; !bound {
							theta[t.s] = S(u.s)
						}
						break
					}
				}
			}
			continue
		}
		if n != 1 {
			continue
		}
		rest := ta.sub(S(x)).subst(func(y Sym) Lin {
			if t, ok := theta[y]; ok {
				return t
			}
			return S(y)
		})
		theta[x] = tb.sub(rest)
	}
	for _, c := range a.chars {
		if !witnessPos(c.pos) {
			continue
		}
		found := false
		for _, m := range b.chars {
			if m.tape == c.tape && m.pos.eq(c.pos) {
				if t, bound := theta[c.v]; bound && !b.eq(t, S(m.v)) {
					continue
				}
				theta[c.v] = S(m.v)
				found = true
			}
		}
		if !found {
			return false
		}
	}
	sub := func(l Lin) (Lin, bool) {
		ok := true
		r := l.subst(func(x Sym) Lin {
			if isGlobalSym(x) {
				return S(x)
			}
			if t, f := theta[x]; f {
				return t
			}
			ok = false
			return K(0)
		})
		return r, ok
	}
	for i := range wa.slots {
		l, ok := sub(wa.slots[i])
		if !ok || !b.eq(l, wb.slots[i]) {
			return false
		}
	}
	for _, c := range a.chars {
		if witnessPos(c.pos) || !a.telling(c.v) {
			continue
		}
		if _, bound := theta[c.v]; bound {
			continue
		}
		pos, ok := sub(c.pos)
		if !ok {
			continue
		}
		found := false
		for _, m := range b.chars {
			if m.tape == c.tape && b.eq(m.pos, pos) {
				theta[c.v] = S(m.v)
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	for i, x := range a.d.syms {
		lx, ok := sub(S(x))
		if !ok {
			continue
		}
		for j, y := range a.d.syms {
			v := a.d.at(i, j)
			if i == j || v == inf {
				continue
			}
			ly, ok := sub(S(y))
			if !ok {
				continue
			}
			if b.d.upper(lx.sub(ly)) > v {
				return false
			}
		}
	}
	for _, n := range a.neq {
		if l, ok := sub(n); ok && !b.ne(l, K(0)) {
			return false
		}
	}
	for _, p := range a.preds {
		if l, ok := sub(p.arg); ok {
			if t, known := b.predTruth(p.key, l); !known || t != p.val {
				return false
			}
		}
	}
	for _, c := range a.chars {
		v, ok := sub(S(c.v))
		if !ok {
			continue
		}
		pos, ok := sub(c.pos)
		if !ok {
			continue
		}
		found := false
		for _, m := range b.chars {
			if m.tape == c.tape && b.eq(m.pos, pos) && b.eq(S(m.v), v) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	for _, w := range a.whites {
		lo, ok1 := sub(w.lo)
		hi, ok2 := sub(w.hi)
		if !ok1 || !ok2 {
			continue
		}
		found := b.le(hi, lo)
		for _, v := range b.whites {
			if b.le(v.lo, lo) && b.le(hi, v.hi) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	for _, e := range a.eqs {
		i, ok1 := sub(e.i)
		j, ok2 := sub(e.j)
		n, ok3 := sub(e.n)
		if !ok1 || !ok2 || !ok3 {
			continue
		}
		found := false
		for _, f := range b.eqs {
			if f.ta == e.ta && f.tb == e.tb && b.eq(f.i, i) && b.eq(f.j, j) && b.le(n, f.n) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// fold returns a value that covers x and y, both of state s
func (s *State) fold(x, y Val, typ types.Type) Val {
	f := &folder{s: s, memo: map[string]Sym{}, objs: map[[2]int]int{}}
	v := f.val(x, y, typ)
	f.finish()
	return v
}

type folder struct {
	s    *State
	memo map[string]Sym
	sj   []slotJoin
	objs map[[2]int]int
}

func (f *folder) lin(a, b Lin) Lin {
	if f.s.eq(a, b) {
		dims := false
		for _, t := range b.t {
			if sumDim[t.s] {
				dims = true
			}
		}
		if !dims {
			return b
		}
	}
	off := a.c
	a, b = a.addc(-off), b.addc(-off)
	key := a.String() + "|" + b.String()
	n, ok := f.memo[key]
	if !ok {
		n = freshSym()
		sumDim[n] = true
		f.memo[key] = n
		f.sj = append(f.sj, slotJoin{n, a, b})
	}
	return S(n).addc(off)
}

func (f *folder) finish() {
	if len(f.sj) == 0 {
		return
	}
	d := f.s.d
	type gs struct{ a, b Lin }
	terms := map[Sym]gs{}
	var order []Sym
	for _, x := range d.syms {
		terms[x] = gs{S(x), S(x)}
		order = append(order, x)
	}
	out := d.clone()
	for _, j := range f.sj {
		terms[j.n] = gs{j.a, j.b}
		order = append(order, j.n)
		out.need(j.n)
	}
	for _, j := range f.sj {
		for _, y := range order {
			if y == j.n {
				continue
			}
			t := terms[y]
			i1, i2 := out.idx[j.n], out.idx[y]
			out.set(i1, i2, max64(d.upper(j.a.sub(t.a)), d.upper(j.b.sub(t.b))))
			out.set(i2, i1, max64(d.upper(t.a.sub(j.a)), d.upper(t.b.sub(j.b))))
		}
	}
	f.s.d = out
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// oneEmpty: one of two texts is empty
func (f *folder) oneEmpty(x, y Val) bool {
	a, ok1 := x.(VRope)
	b, ok2 := y.(VRope)
	return ok1 && ok2 && (len(f.s.normRope(a).p) == 0) != (len(f.s.normRope(b).p) == 0)
}

func (f *folder) val(x, y Val, typ types.Type) Val {
	s := f.s
	switch a := x.(type) {
	case VInt:
		if b, ok := y.(VInt); ok {
			return VInt{f.lin(a.l, b.l)}
		}
	case VNil:
		if _, ok := y.(VNil); ok {
			return a
		}
	case VPtr:
		b, ok := y.(VPtr)
		if !ok || a.path != b.path || a.path != "" {
			break
		}
		key := [2]int{a.obj, b.obj}
		if id, ok := f.objs[key]; ok {
			return VPtr{obj: id}
		}
		oa, ob := s.heap[a.obj], s.heap[b.obj]
		if oa == nil || ob == nil || oa.m != nil || ob.m != nil || !types.Identical(oa.typ, ob.typ) || oa.symb != ob.symb {
			break
		}
		n := &Obj{typ: oa.typ, summary: true, symb: oa.symb, tag: oa.tag, f: make([]Val, len(oa.f))}
		if oa.tag != ob.tag {
			n.tag = ""
		}
		if n.tag != "" && oa.symIdx != nil && ob.symIdx != nil {
			i := f.lin(*oa.symIdx, *ob.symIdx)
			n.symIdx = &i
		}
		id := s.alloc(n)
		f.objs[key] = id
		for late := 0; late < 2; late++ {
			for i := range oa.f {
				if oa.f[i] == nil && ob.f[i] == nil || (late == 1) != f.oneEmpty(oa.f[i], ob.f[i]) {
					continue
				}
				n.f[i] = f.val(oa.f[i], ob.f[i], fieldType(oa.typ, i))
			}
		}
		return VPtr{obj: id}
	case VOpq:
		if b, ok := y.(VOpq); ok {
			k := ""
			if a.key == b.key {
				k = a.key
			}
			v := VOpq{id: freshID(), key: k, typ: a.typ}
			if isChild(k) && a.idx != nil && b.idx != nil {
				i := f.lin(*a.idx, *b.idx)
				v.idx = &i
			}
			na, ka := s.nilf[a.id]
			nb, kb := s.nilf[b.id]
			if ka && kb && na == nb {
				s.nilf[v.id] = na
			}
			return v
		}
	case *VBool:
		if b, ok := y.(*VBool); ok {
			ta, ka := s.truthOf(a)
			tb, kb := s.truthOf(b)
			if ka && kb && ta == tb {
				return mkBool(ta)
			}
			return &VBool{op: 'a', id: freshID()}
		}
	case VRope:
		b, ok := y.(VRope)
		if !ok {
			break
		}
		a, b = s.normRope(a), s.normRope(b)
		// an empty text is empty anywhere: where the other one ends, if that is known of the side it is on, or starts
		if len(a.p) == 1 && len(b.p) == 0 && a.p[0].tape != "" && a.p[0].tape != "?" {
			at := a.p[0].lo
			for _, j := range f.sj {
				if c := a.p[0].hi.sub(j.a); c.isConst() && len(j.a.t) > 0 {
					at = j.b.add(c)
					break
				}
			}
			b = VRope{p: []piece{{tape: a.p[0].tape, lo: at, hi: at}}}
		}
		if len(b.p) == 1 && len(a.p) == 0 && b.p[0].tape != "" && b.p[0].tape != "?" {
			at := b.p[0].lo
			for _, j := range f.sj {
				if c := b.p[0].hi.sub(j.b); c.isConst() && len(j.b.t) > 0 {
					at = j.a.add(c)
					break
				}
			}
			a = VRope{p: []piece{{tape: b.p[0].tape, lo: at, hi: at}}}
		}
		if len(a.p) == len(b.p) {
			r := VRope{isNil: a.isNil && b.isNil}
			okAll := true
			for i := range a.p {
				p, q := a.p[i], b.p[i]
				if p.tape != q.tape {
					okAll = false
					break
				}
			}
			if okAll {
				for i := range a.p {
					p, q := a.p[i], b.p[i]
					if p.tape == "" {
						r.p = append(r.p, piece{ch: f.lin(p.ch, q.ch)})
					} else {
						r.p = append(r.p, piece{tape: p.tape, lo: f.lin(p.lo, q.lo), hi: f.lin(p.hi, q.hi)})
					}
				}
				return r
			}
		}
		return VRope{p: []piece{{tape: "?", lo: K(0), hi: f.lin(a.length(), b.length())}}}
	case VStr:
		if b, ok := y.(VStr); ok {
			if a.cst != nil && b.cst != nil && *a.cst == *b.cst {
				return a
			}
			if k := foldNames(a, b); isNameKind(k) || strings.HasPrefix(k, mixed) {
				return VStr{id: freshID(), key: k}
			}
			return VStr{id: freshID()}
		}
	case VStruct:
		if b, ok := y.(VStruct); ok && len(a.f) == len(b.f) {
			r := VStruct{}
			for i := range a.f {
				r.f = append(r.f, f.val(a.f[i], b.f[i], fieldType(typ, i)))
			}
			return r
		}
	case VList:
		if b, ok := y.(VList); ok && len(a.p) == 0 && len(b.p) == 0 {
			return VList{}
		}
	}
	return VTop{typ}
}

func fieldType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Type()
	}
	return t
}

// expand returns a value like v for one of the objects a summary covers
func (s *State) expand(v Val) Val {
	e := &expander{s: s, syms: map[Sym]Sym{}, objs: map[int]int{}, ids: map[int]int{}}
	r := e.val(v)
	e.finish()
	return r
}

type expander struct {
	s    *State
	syms map[Sym]Sym
	objs map[int]int
	ids  map[int]int
}

func (e *expander) lin(l Lin) Lin {
	return l.subst(func(x Sym) Lin {
		if !sumDim[x] {
			return S(x)
		}
		n, ok := e.syms[x]
		if !ok {
			n = freshSym()
			e.syms[x] = n
		}
		return S(n)
	})
}

func (e *expander) finish() {
	d := e.s.d
	for x, n := range e.syms {
		for _, y := range append([]Sym(nil), d.syms...) {
			if _, isNew := e.syms[y]; isNew {
				continue
			}
			isFresh := false
			for _, m := range e.syms {
				if m == y {
					isFresh = true
				}
			}
			if isFresh {
				continue
			}
			if sumDim[y] {
				continue
			}
			if b := d.bound(x, y); b != inf {
				d.addDiff(n, y, b)
			}
			if b := d.bound(y, x); b != inf {
				d.addDiff(y, n, b)
			}
		}
	}
	for x, n := range e.syms {
		for y, m := range e.syms {
			if x != y {
				if b := d.bound(x, y); b != inf {
					d.addDiff(n, m, b)
				}
			}
		}
	}
}

func (e *expander) id(id int) int {
	if internRev[id] != "" {
		return id
	}
	n, ok := e.ids[id]
	if !ok {
		n = freshID()
		e.ids[id] = n
		if t, ok := e.s.truth[id]; ok {
			e.s.truth[n] = t
		}
		if t, ok := e.s.nilf[id]; ok {
			e.s.nilf[n] = t
		}
	}
	return n
}

func (e *expander) val(v Val) Val {
	s := e.s
	switch v := v.(type) {
	case VInt:
		return VInt{e.lin(v.l)}
	case VPtr:
		o := s.heap[v.obj]
		if o == nil || !o.summary {
			return v
		}
		if id, ok := e.objs[v.obj]; ok {
			return VPtr{obj: id, path: v.path}
		}
		c := o.clone()
		c.summary = false
		c.tag = o.tag
		if o.symIdx != nil {
			i := e.lin(*o.symIdx)
			c.symIdx = &i
		}
		id := s.alloc(c)
		e.objs[v.obj] = id
		for i := range c.f {
			c.f[i] = e.val(c.f[i])
		}
		return VPtr{obj: id, path: v.path}
	case VOpq:
		v.id = e.id(v.id)
		if isChild(v.key) && v.idx != nil {
			i := e.lin(*v.idx)
			v.idx = &i
		}
		return v
	case *VBool:
		if v.op == 'a' {
			return &VBool{op: 'a', id: e.id(v.id), key: v.key}
		}
		return v
	case VRope:
		r := VRope{isNil: v.isNil}
		for _, p := range v.p {
			p.lo, p.hi, p.ch = e.lin(p.lo), e.lin(p.hi), e.lin(p.ch)
			r.p = append(r.p, p)
		}
		return r
	case VStr:
		if v.cst == nil {
			v.id = e.id(v.id)
		}
		return v
	case VStruct:
		r := VStruct{}
		for _, x := range v.f {
			r.f = append(r.f, e.val(x))
		}
		return r
	}
	return v
}
