package main

// C32: line and column.
//
// A stream remembers where the lines it has read end. The table of all line breaks of the text is the tape "breaks"; the
// list a stream keeps must be the entries below a mark, followed by the char before the mark, which is the last one taken
// note of. That is shown to hold after every operation if it held before; with it, lookups are compared with the table.
// What a loop finds out about the entries it passes is shown for one arbitrary entry K.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const breaks = "breaks"

var (
	symCur   = globalSym("cursor") // where the stream is, counted from the begin of its text
	symBreak = witnessSym("K")
)

// lineList finds the list of line ends within a stream: the path to it
func lineList(t types.Type, path string) (found []string) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		p := fmt.Sprintf("%s.%d", path, i)
		if sl, ok := ft.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				found = append(found, p)
			}
		}
		if _, ok := ft.Underlying().(*types.Struct); ok && !strings.HasPrefix(types.TypeString(ft, nil), "sync.") {
			found = append(found, lineList(ft, p)...)
		}
	}
	return
}

type lines struct {
	p     *Program
	r     *Report
	x     *Exec
	ro    streamRoles
	at    string // path to the list
	recv  int
	name  string
	where string
}

func (m *lines) list(s *State) VList {
	l, _ := m.x.loadPtr(s, nil, VPtr{m.recv, m.at}, types.NewSlice(types.Typ[types.Int])).(VList)
	return l
}

func (m *lines) mark(s *State) Lin  { return s.ghost["mark"].(VInt).l }
func (m *lines) known(s *State) Lin { return s.ghost["breaks"].(VInt).l }

// entry is where line break number k is, with what the table says about it
func (m *lines) entry(s *State, k Lin) Lin {
	v := s.charAt(breaks, k)
	s.assumeLe(k, v)
	last := m.mark(s).addc(-1)
	switch n := m.known(s); {
	case s.flags["break"] && s.eq(k, n.addc(-1)):
		s.assumeEq(v, last)
	case s.lt(k, n.addc(-1)) || !s.flags["break"] && s.lt(k, n):
		s.assumeLt(v, last)
	case s.lt(k, n):
		s.assumeLe(v, last)
	}
	if s.le(m.known(s), k) {
		s.assumeLe(m.mark(s), v)
	}
	for _, o := range append([]charMemo(nil), s.chars...) {
		if o.tape != breaks {
			continue
		}
		if s.lt(o.pos, k) {
			s.assumeLt(S(o.v), v)
		}
		if s.lt(k, o.pos) {
			s.assumeLt(v, S(o.v))
		}
	}
	return v
}

// settle takes note of chars at the mark that are known to be line breaks, or not
func (m *lines) settle(s *State) {
	for {
		l, k, n := m.list(s), m.mark(s), m.known(s)
		var last []Val
		ok := true
		for i, p := range l.p {
			switch {
			case p.kind == 'w' && p.key == breaks && i == 0 && s.eq(p.lo, K(0)) && s.eq(p.hi, n):
			case p.kind == 'e':
				last = append(last, p.v)
			default:
				ok = false
			}
		}
		is := func(i int, l Lin) bool { v, ok := last[i].(VInt); return ok && s.eq(v.l, l) }
		if !ok || len(last) == 0 || len(last) > 2 || !is(len(last)-1, k) {
			return
		}
		c := s.charAt(tapeT, k.sub(S(symCur)))
		v, isConst := s.constOf(c)
		switch {
		case isConst && v == newLine && len(last) == 2 && is(0, k):
			s.ghost["breaks"] = VInt{n.addc(1)}
			s.flags["break"] = true
		case s.ne(c, K(newLine)) && len(last) == 1:
			delete(s.flags, "break")
		default:
			return
		}
		s.ghost["mark"] = VInt{k.addc(1)}
		m.set(s, VList{p: m.window(s, k)})
	}
}

func (m *lines) window(s *State, last Lin) (l []part) {
	if n := m.known(s); !s.eq(n, K(0)) {
		l = append(l, part{kind: 'w', key: breaks, v: VTop{types.Typ[types.Int]}, lo: K(0), hi: n})
	}
	return append(l, part{kind: 'e', v: VInt{last}})
}

func (m *lines) set(s *State, l VList) {
	h := m.x.h.store
	m.x.h.store = nil
	m.x.storePtr(s, nil, VPtr{m.recv, m.at}, l)
	m.x.h.store = h
}

// asKept: the list is the one a stream keeps
func (m *lines) asKept(s *State) bool {
	l, want := m.list(s), m.window(s, m.mark(s).addc(-1))
	if len(l.p) > 0 && l.p[0].kind == 'w' && s.eq(l.p[0].lo, l.p[0].hi) {
		l.p = l.p[1:]
	}
	if len(l.p) != len(want) {
		return false
	}
	for i, p := range l.p {
		w := want[i]
		if p.kind != w.kind || p.kind == 'w' && (p.key != w.key || !s.eq(p.lo, w.lo) || !s.eq(p.hi, w.hi)) {
			return false
		}
		if p.kind == 'e' {
			v, ok := p.v.(VInt)
			if !ok || !s.eq(v.l, w.v.(VInt).l) {
				return false
			}
		}
	}
	return true
}

func (s *State) sameList(a, b VList) bool {
	if len(a.p) != len(b.p) {
		return false
	}
	for i, p := range a.p {
		q := b.p[i]
		if p.kind != q.kind || p.kind == 's' {
			return false
		}
		if p.kind == 'w' && (p.key != q.key || !s.eq(p.lo, q.lo) || !s.eq(p.hi, q.hi)) {
			return false
		}
		if p.kind == 'e' {
			v, ok1 := p.v.(VInt)
			w, ok2 := q.v.(VInt)
			if !ok1 || !ok2 || !v.l.eq(w.l) {
				return false
			}
		}
	}
	return true
}

func (m *lines) hooks() {
	x := m.x
	x.h.elemLoad = func(x *Exec, s *State, in ssa.Instruction, seq Val, idx Lin, v Val) []Out {
		l, ok := seq.(VList)
		if !ok || !s.sameList(l, m.list(s)) {
			return nil
		}
		delete(s.flags, "at the mark") // whether the last entry seen is that of the char before the mark
		if s.le(m.known(s), idx) {
			s.flags["at the mark"] = true
		}
		if len(l.p) == 0 || l.p[0].kind != 'w' || l.p[0].key != breaks || !s.lt(idx, l.p[0].hi) || !s.eq(l.p[0].lo, K(0)) {
			return nil
		}
		var outs []Out
		for k := 0; k < 3; k++ {
			t := s.clone()
			switch k {
			case 0:
				t.assumeLt(idx, S(symBreak))
			case 1:
				t.assumeEq(idx, S(symBreak))
			case 2:
				t.assumeLt(S(symBreak), idx)
			}
			if t.bot() {
				continue
			}
			v := m.entry(t, idx)
			switch k {
			case 0:
				t.flags["below K"] = true
			case 1:
				if g, ok := t.ghost["at K"].(VInt); ok {
					t.assumeEq(v, g.l)
				}
				t.ghost["at K"] = VInt{v}
			case 2:
				t.flags["above K"] = true
			}
			if !t.bot() {
				outs = append(outs, Out{t, VInt{v}})
			}
		}
		return outs
	}
	x.h.elemStore = func(x *Exec, s *State, in ssa.Instruction, ep VElemPtr, v Val) bool {
		l, ok := ep.seq.(VList)
		if !ok || !s.sameList(l, m.list(s)) {
			return false
		}
		off := K(0)
		for i, p := range l.p {
			if p.kind == 'e' && s.eq(off, ep.idx) {
				n := VList{p: append([]part(nil), l.p...)}
				n.p[i].v = v
				x.everyVal(s, func(w Val) Val {
					if k, ok := w.(VList); ok && s.sameList(k, l) {
						return n
					}
					return w
				})
				m.set(s, n)
				return true
			}
			off = off.add(p.length())
		}
		return false
	}
	x.h.backEdge = func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock) {
		m.settle(s)
		s.flags["back"] = true
		if g, ok := s.ghost["at K"].(VInt); ok {
			// on which side of the char that is looked up
			for _, l := range []Lin{S(symCur), S(globalSym("input"))} {
				if s.lt(l, g.l) {
					s.flags["K behind "+l.String()] = true
				}
				if s.le(g.l, l) {
					s.flags["K not behind "+l.String()] = true
				}
			}
		}
	}
	x.h.loopHead = func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock) {
		m.settle(s)
		// the first time round is kept apart from those after it
		on := map[string]bool{}
		for _, f := range s.frames {
			on[f.fn.Name()] = true
		}
		for f := range s.flags {
			if k := strings.Index(f, "@"); k >= 0 && !on[strings.SplitN(f[k+1:], ".", 2)[0]] {
				delete(s.flags, f)
			}
		}
		again := fmt.Sprintf("again @%s.%d", fn.Name(), head.Index)
		delete(s.flags, again)
		if !s.flags["back"] {
			return
		}
		delete(s.flags, "back")
		s.flags[again] = true
		// on which side of K what the loop counts is, and whether it is past the line breaks there are
		for _, in := range head.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			name := "@" + fn.Name() + "." + phi.Name()
			v, ok := s.frames[len(s.frames)-1].regs[phi].(VInt)
			for rel, is := range map[string]bool{
				"K before ": ok && s.lt(S(symBreak), v.l), "K at ": ok && s.eq(S(symBreak), v.l), "K behind ": ok && s.lt(v.l, S(symBreak)),
				"all before ": ok && s.le(m.known(s), v.l)} {
				delete(s.flags, rel+name)
				if is {
					s.flags[rel+name] = true
				}
			}
		}
	}
}

// entries: the stream has read up to its cursor, and may have looked at the char there
func (m *lines) entries(fn *ssa.Function) (es []entry) {
	for i := 0; i < 4; i++ {
		ahead, broken := i > 1, i%2 > 0
		s := newState()
		o := &Obj{typ: m.ro.t, symb: true, f: make([]Val, nfields(m.ro.t))}
		m.recv = s.alloc(o)
		s.ghost["recv"] = VPtr{obj: m.recv}
		s.assumeLe(K(0), S(symCur))
		s.assumeLe(K(0), S(symE))
		s.assumeLe(K(0), S(symBreak))
		s.ghost["q"] = VInt{K(0)}
		o.f[m.ro.text] = VRope{p: []piece{{tape: tapeT, lo: S(symCur).neg(), hi: S(symE)}}}
		o.f[m.ro.cur] = VInt{S(symCur)}
		n := S(freshSym())
		s.assumeLe(K(0), n)
		k := S(symCur)
		if ahead {
			s.assumeLt(K(0), S(symE))
			k = k.addc(1)
		}
		s.assumeLe(n, k)
		if broken {
			s.flags["break"] = true // the char before the mark is a line break
			s.assumeLt(K(0), n)
		}
		s.ghost["mark"], s.ghost["breaks"] = VInt{k}, VInt{n}
		m.set(s, VList{p: m.window(s, k.addc(-1))})
		args := []Val{VPtr{obj: m.recv}}
		for _, prm := range fn.Params[1:] {
			args = append(args, m.x.sym(s, prm.Type(), "input"))
		}
		es = append(es, entry{s, args, nil})
	}
	return
}

// right: the value is the line and column of the char at idx
func (m *lines) right(s *State, v Val, idx Lin) (bool, string) {
	x := m.x
	pt, ok := v.(VPtr)
	if !ok || s.heap[pt.obj] == nil {
		return false, "it is not made here"
	}
	st, ok := s.heap[pt.obj].typ.Underlying().(*types.Struct)
	if !ok {
		return false, "it is no line and column"
	}
	var line, col Lin
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		f, ok := x.loadPtr(s, nil, VPtr{pt.obj, fmt.Sprintf("%s.%d", pt.path, i)}, st.Field(i).Type()).(VInt)
		switch {
		case ok && st.Field(i).Name() == "Line":
			line = f.l
			n++
		case ok && st.Field(i).Name() == "Col":
			col = f.l
			n++
		}
	}
	if n != 2 {
		return false, "line and column are not known"
	}
	i := line.addc(-1)
	if !s.le(K(0), i) || !s.le(i, m.known(s)) {
		return false, fmt.Sprintf("line %s may be one there is not", line)
	}
	for k := 0; k < 2; k++ {
		t := s.clone()
		if k == 0 {
			t.assumeEq(i, K(0))
			if !t.bot() && !t.eq(col, idx.addc(1)) {
				return false, fmt.Sprintf("column %s of line 1 is not where char %s is", col, idx)
			}
			continue
		}
		t.assumeLt(K(0), i)
		if t.bot() {
			continue
		}
		b := m.entry(t, i.addc(-1))
		if t.bot() {
			continue
		}
		u := t.clone()
		u.assumeEq(i.addc(-1), S(symBreak))
		if g, ok := u.ghost["at K"].(VInt); ok {
			u.assumeEq(b, g.l)
		}
		if !t.lt(b, idx) && !u.bot() && !u.lt(b, idx) {
			return false, fmt.Sprintf("char %s is not known to be behind the line break before line %s", idx, line)
		}
		if !t.eq(col, idx.sub(b)) {
			return false, fmt.Sprintf("column %s is not how far char %s is behind the line break before it, which is at %s", col, idx, b)
		}
	}
	t := s.clone()
	t.assumeEq(i, m.known(s))
	if !t.bot() && !t.le(idx, m.mark(t)) {
		return false, fmt.Sprintf("char %s has not been taken note of", idx)
	}
	t = s.clone()
	t.assumeLt(i, m.known(s))
	if t.bot() {
		return true, ""
	}
	u := t.clone()
	if b := m.entry(u, i); u.bot() || u.le(idx, b) {
		return true, ""
	}
	t.assumeEq(i, S(symBreak))
	if t.bot() {
		return true, ""
	}
	b := m.entry(t, S(symBreak))
	if g, ok := t.ghost["at K"].(VInt); ok {
		t.assumeEq(b, g.l)
	}
	return t.bot() || t.le(idx, b), fmt.Sprintf("the line break that ends line %s may be before char %s", line, idx)
}

func c32(p *Program, r *Report) {
	baseSym = symCur
	defer func() { baseSym = 0 }()
	n := 0
	for _, t := range p.impls(p.tStream) {
		t := t
		var ro streamRoles
		var paths []string
		guarded(r, types.TypeString(t, qual), func() {
			x := newExec(p)
			ro = x.streamRolesOf(t)
			paths = lineList(ro.t, "")
			if ro.text >= 0 && len(paths) != 1 {
				unresolved("stream type %s has no list of line ends, or several", t)
			}
		})
		if ro.t == nil {
			continue
		}
		for _, op := range []string{"Next", "Peek", "SkipSpaces", "Match", "Cursor", "Position", "PositionLookup"} {
			fn := p.method(t, op)
			if fn == nil || fn.Blocks == nil {
				unresolved("%s.%s has no source", t, op)
			}
			op, name := op, p.fname(fn)
			if ro.text >= 0 {
				n++
				guarded(r, name, func() { c32op(p, r, fn, op, name, ro, paths[0]) })
			} else if strings.HasPrefix(op, "Position") {
				guarded(r, name, func() { c32below(p, r, fn, op, name, ro) })
			}
		}
	}
	if n == 0 {
		unresolved("no stream on a text found")
	}
	c32made(p, r)
}

func c32op(p *Program, r *Report, fn *ssa.Function, op, name string, ro streamRoles, path string) {
	where := p.pos(fn.Pos())
	x := newExec(p)
	x.debug = debugAll
	x.listK = 3
	x.deadline = r.entryDeadline()
	m := &lines{p: p, r: r, x: x, ro: ro, at: path, name: name, where: where}
	m.hooks()
	outs := 0
	for _, e := range m.entries(fn) {
		m.recv = e.args[0].(VPtr).obj
		for _, o := range x.run(fn, []entry{e}) {
			outs++
			s := o.st
			m.settle(s)
			tell := func(f string, a ...interface{}) func() string {
				return func() string { return fmt.Sprintf(f, a...) + "\n" + s.dump() }
			}
			cur, ok := s.heap[m.recv].f[ro.cur].(VInt)
			if !r.ob(ok && m.asKept(s), "kept", name, where, tell("the list of line ends is %s, not the line breaks of the text up to a char and that char", s.show(m.list(s)))) {
				continue
			}
			k := m.mark(s)
			r.ob(s.le(cur.l, k) && s.le(k, cur.l.addc(1)) && s.le(k, S(symCur).add(S(symE))), "kept", name, where,
				tell("line ends are kept for chars up to %s, the stream is at %s", k, cur.l))
			isNil, known := s.nilKnown(o.ret)
			switch op {
			case "Position":
				if !r.ob(known, "position", name, where, tell("whether there is a position is not known")) {
					continue
				}
				if isNil {
					r.ob(s.eq(S(symE), K(0)), "position", name, where, tell("there is no position although the text goes on"))
					continue
				}
				good, why := m.right(s, o.ret, S(symCur))
				r.ob(good && s.lt(K(0), S(symE)), "position", name, where, tell("the position %s is not that of char %s: %s", s.show(o.ret), S(symCur), why))
				r.sample("%s: %s", name, s.show(o.ret))
			case "PositionLookup":
				idx := e.args[1].(VInt).l
				if !r.ob(known, "position", name, where, tell("whether there is a position is not known")) {
					continue
				}
				if isNil {
					t := s.clone()
					t.assumeLe(K(0), idx)
					t.assumeLt(idx, S(symCur))
					r.ob(t.bot(), "position", name, where, tell("there may be no position for a char that has been read"))
					continue
				}
				if t := s.clone(); s.eq(idx, K(0)) {
					// the first char of a text, before anything is read
					t.assumeEq(S(symCur), K(0))
					if !t.bot() {
						good, why := m.right(t, o.ret, idx)
						r.ob(good, "position", name, where, tell("the position %s is not that of char %s: %s", s.show(o.ret), idx, why))
					}
					s.assumeLt(K(0), S(symCur))
					if s.bot() {
						continue
					}
				}
				r.ob(s.le(K(0), idx) && s.lt(idx, S(symCur)), "position", name, where, tell("there is a position for a char that has not been read"))
				good, why := m.right(s, o.ret, idx)
				r.ob(good, "position", name, where, tell("the position %s is not that of char %s: %s", s.show(o.ret), idx, why))
				r.sample("%s: %s", name, s.show(o.ret))
			}
		}
	}
	r.ob(outs > 0, "anchor", name, where, func() string { return "no return is reached" })
	r.absorb(x, name)
}

// c32below: a stream with chars put in front of another one
func c32below(p *Program, r *Report, fn *ssa.Function, op, name string, ro streamRoles) {
	where := p.pos(fn.Pos())
	x := newExec(p)
	x.debug = debugAll
	x.places = true
	x.deadline = r.entryDeadline()
	x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
		r.ob(false, "stream", name, p.where(in), func() string { return msg })
	}
	x.h.streamOp = func(x *Exec, s *State, in ssa.CallInstruction, m string, before, after Lin, v Val) {
		if o, ok := v.(VOpq); ok && m == "PositionLookup" && op == "Position" {
			r.ob(s.lt(*o.idx, before), "read before", name, p.where(in), func() string {
				return fmt.Sprintf("the position of char %s is asked for, which has not been read\n%s", *o.idx, s.dump())
			})
		}
	}
	n := 0
	for _, e := range x.streamEntries(fn, ro) {
		for _, o := range x.run(fn, []entry{e}) {
			n++
			s := o.st
			at, none, ok := s.placeOf(o.ret)
			if !r.ob(ok, "position", name, where, func() string { return "the position is not known: " + s.show(o.ret) + "\n" + s.dump() }) {
				continue
			}
			want := K(0)
			if op == "PositionLookup" {
				want = e.args[1].(VInt).l
			}
			r.ob(none && op == "Position" && s.eq(S(symE), K(0)) || !none && s.eq(*at, want), "position", name, where, func() string {
				return fmt.Sprintf("the position is %s, not that of char %s\n%s", s.show(o.ret), want, s.dump())
			})
		}
	}
	r.ob(n > 0, "anchor", name, where, func() string { return "no return is reached" })
	r.absorb(x, name)
}

// c32made: a new stream has read nothing
func c32made(p *Program, r *Report) {
	for _, fn := range p.funcs {
		if !p.makesStream(fn) || fn.Pkg != p.lib || fn.Parent() != nil {
			continue
		}
		fn := fn
		name, where := p.fname(fn), p.pos(fn.Pos())
		guarded(r, name, func() {
			x := newExec(p)
			x.listK = 3
			x.deadline = r.entryDeadline()
			s := newState()
			var args []Val
			for _, prm := range fn.Params {
				args = append(args, x.sym(s, prm.Type(), "text"))
			}
			for _, o := range x.run(fn, []entry{{s, args, nil}}) {
				st := o.st
				v, ok := x.resolve(st, o.ret).(VPtr)
				if !r.ob(ok && st.heap[v.obj] != nil, "made", name, where, func() string { return "the new stream is not known" }) {
					continue
				}
				paths := lineList(st.heap[v.obj].typ, "")
				if len(paths) == 0 {
					continue
				}
				l, ok := x.loadPtr(st, nil, VPtr{v.obj, paths[0]}, types.NewSlice(types.Typ[types.Int])).(VList)
				ok = ok && len(l.p) == 1 && l.p[0].kind == 'e'
				if ok {
					i, isInt := l.p[0].v.(VInt)
					ok = isInt && st.eq(i.l, K(-1))
				}
				r.ob(ok, "made", name, where, func() string { return "the list of line ends of a new stream is " + st.show(l) })
			}
			r.absorb(x, name)
		})
	}
}

func init() {
	register(&check{id: "C32", level: "proof", run: c32, trust: engineTrust,
		rule: "the list of line ends of a stream is, before and after every operation, the line breaks of its text up to a char that is the last one read or the next, followed by that char; with it, at every return of Position and PositionLookup with a position: the line is one more than the number of line breaks before the char, the column is how far the char is behind the last of them; a stream with chars in front asks the one below for the same char"})
}
