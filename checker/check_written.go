package main

// C31: terminal rules and references hold the chars that are written.

import (
	"go/types"
	"strings"
)

// afterValue: the stage behind the four digits of a char given by its number
var afterValue = map[string]string{
	"q' hex4": "q'", `q" hex4`: `q"`, "bare hex4": "closed bare", "end q hex4": "end q one", "end bare hex4": "end closed",
}

func (s *State) within(c Lin, lo, hi rune) bool {
	return s.le(K(int64(lo)), c) && s.le(c, K(int64(hi)))
}

func (s *State) hexDigit(c Lin) bool {
	return s.within(c, '0', '9') || s.within(c, 'a', 'f') || s.within(c, 'A', 'F')
}

func (s *State) letter(c Lin) bool {
	return s.within(c, 'a', 'z') || s.within(c, 'A', 'Z') || s.within(c, '_', '_')
}

// spell follows a char of a terminal rule or a reference
func (m *means) spell(s *State, at, c Lin) {
	st := s.stage()
	is := func(k rune) bool { return s.eq(c, K(int64(k))) }
	not := func(k rune) bool { return s.ne(c, K(int64(k))) }
	next := "bad"
	put := func(then string) {
		s.content(at)
		next = then
	}
	i := strings.LastIndex(st, " hex")
	switch {
	case strings.HasPrefix(st, "bad"):
		return
	case i >= 0:
		n := st[i+4] - '0'
		if n < 4 && s.hexDigit(c) {
			next = st[:i+4] + string(rune('0'+n+1))
		}
	case st == "" && s.spacious(c):
		next = ""
	case st == "" && is('\''):
		next = "q'"
	case st == "" && is('"'):
		next = `q"`
	case st == "" && is('\\'):
		next = "bare"
	case st == "" && s.letter(c):
		put("name")
	case st == "name" && (s.letter(c) || s.digit(c)):
		put("name")
	case st == "q'" && is('\''), st == `q"` && is('"'):
		next = "closed" + st[1:]
	case (st == "q'" || st == `q"`) && is('\\'):
		next = st + " esc"
	case st == "q'" && not('\'') && not('\\'), st == `q"` && not('"') && not('\\'):
		put(st)
	case (st == "q' esc" || st == `q" esc`) && is('u'), st == "bare" && is('u'), st == "end q esc" && is('u'), st == "end bare" && is('u'):
		next = strings.TrimSuffix(st, " esc") + " hex0"
		s.ghost["hex"] = VInt{at.addc(1)}
	case (st == "q' esc" || st == `q" esc`) && not('u'):
		put(strings.TrimSuffix(st, " esc"))
	case (st == "closed'" || st == "closed bare") && is('-'):
		next = "end"
	case st == "end" && is('\''):
		next = "end q"
	case st == "end" && is('\\'):
		next = "end bare"
	case st == "end q" && is('\\'):
		next = "end q esc"
	case st == "end q" && not('\\'), st == "end q esc" && not('u'):
		put("end q one")
	case st == "end q one" && is('\''):
		next = "end closed"
	}
	m.next(s, next, "a char is taken that does not belong there, or what it is was not looked at")
}

// isWritten: the text is all that is written
func (s *State) isWritten(r VRope, tape string) bool {
	r = s.normRope(r)
	k := s.count("k " + tape)
	if len(r.p) == 0 {
		return s.eq(k, K(0))
	}
	return len(r.p) == 1 && r.p[0].tape == tape && s.eq(r.p[0].lo, K(0)) && s.eq(r.p[0].hi, k)
}

// isChar: the char is the only one written
func (s *State) isChar(v Val, tape string) bool {
	i, ok := v.(VInt)
	if !ok || !s.eq(s.count("k "+tape), K(1)) {
		return false
	}
	if l, ok := s.ghost["last "+tape].(VInt); ok && s.eq(i.l, s.charAt(tapeT, l.l)) {
		return true
	}
	if l, ok := s.ghost["value "+tape].(VInt); ok && s.eq(i.l, l.l) {
		return true
	}
	return s.eq(i.l, s.charAt(tape, K(0)))
}

func c31(p *Program, r *Report) {
	m := newMeans(p, r)
	found := map[string]bool{}
	for _, rd := range m.d.all {
		rd := rd
		any := false
		for n := range m.d.made(rd) {
			t, isTerm := m.terms[n]
			c, isComp := m.comps[n]
			if isTerm {
				found[t.kind] = true
			}
			if isComp && c.kind == "reference" {
				found[c.kind] = true
			}
			any = any || isTerm || isComp && c.kind == "reference"
		}
		if !any {
			continue
		}
		guarded(r, rd.name, func() {
			for _, given := range m.d.alone(rd) {
				m.spelled(rd, given)
			}
		})
	}
	for _, k := range []string{"char", "range", "text", "end", "reference"} {
		if !found[k] {
			unresolved("no function makes a terminal of kind %s", k)
		}
	}
}

const namedEnd = "named EOF"

func (m *means) spelled(rd *reader, given map[int]int64) {
	m.rd, m.kind, m.free = rd, "terminal", true
	m.fact = func(x *Exec, s *State, b *VBool, val bool) {
		if c, ok := x.compared[b.id]; ok && b.op == 'a' && val && c.with == "EOF" {
			r := s.normRope(c.text)
			if len(r.p) == 1 && r.p[0].tape == wantTape && s.eq(r.p[0].lo, K(0)) {
				s.ghost[namedEnd] = VInt{r.p[0].hi}
			}
		}
	}
	defer func() { m.fact = nil }()
	item := func(x *Exec, s *State, t *taken) { m.next(s, "bad", "a rule is read where none belongs") }
	m.run(rd, given, m.spell, item, func(x *Exec, s *State, v Val) {
		q, ok := v.(VPtr)
		if !ok || q.path != "" || s.heap[q.obj] == nil {
			if s.childIndex(v) == nil {
				m.ob(s, false, "made", "it is not known what is returned: "+s.show(v))
			}
			return
		}
		o := s.heap[q.obj]
		name := types.TypeString(o.typ, qual)
		c, isComp := m.comps[name]
		t, isTerm := m.terms[name]
		if !m.ob(s, isComp || isTerm, "made", "a rule of type "+name+" is returned, and it is not known what it means") || isComp && c.kind != "reference" || !m.bad(s) {
			return
		}
		st := s.stage()
		if isComp {
			n, ok := o.f[c.rule].(VStr)
			m.ob(s, st == "name" && ok && n.runes != nil && s.isWritten(*n.runes, wantTape), "name", "a reference is not to the name that is written: "+s.show(o.f[c.rule]))
			m.longest(s)
			return
		}
		text := func() VRope {
			if r, ok := o.f[t.f[0]].(VRope); ok {
				return r
			}
			return s.unknownRope(S(freshSym()))
		}
		switch {
		case t.kind == "char":
			m.ob(s, st == "closed'" || st == "closed bare", "closed", "a char may be accepted that is not written as one")
			m.ob(s, s.isChar(o.f[t.f[0]], wantTape), "char", "the char of the rule is not the one that is written: "+s.show(o.f[t.f[0]]))
		case t.kind == "range":
			m.ob(s, st == "end closed", "closed", "a range may be accepted that is not closed")
			m.ob(s, s.isChar(o.f[t.f[0]], wantTape), "range", "the first char of the range is not the one written first: "+s.show(o.f[t.f[0]]))
			m.ob(s, s.isChar(o.f[t.f[1]], endTape), "range", "the last char of the range is not the one written last: "+s.show(o.f[t.f[1]]))
		case t.kind == "text" && strings.Contains(name, "String"):
			m.ob(s, st == `closed"`, "closed", "a string may be accepted that is not closed")
			m.ob(s, s.isWritten(text(), wantTape), "string", "the text of the rule is not what is written: "+s.show(text()))
		case t.kind == "text":
			m.ob(s, st == "closed'", "closed", "chars may be accepted that are not closed")
			m.ob(s, s.isWritten(text(), wantTape), "chars", "the text of the rule is not what is written: "+s.show(text()))
		case t.kind == "end":
			n, ok := s.ghost[namedEnd].(VInt)
			m.ob(s, st == "name" && ok && s.eq(n.l, s.count("k "+wantTape)), "name", "the end of the text is meant by something else than EOF")
			m.longest(s)
		}
	})
}

// longest: a name goes on as far as it can
func (m *means) longest(s *State) {
	q := s.count("q")
	for _, r := range []string{"az", "AZ", "__", "09"} {
		u := s.clone()
		u.assumeLt(q, S(symE))
		c := u.charAt(tapeT, q)
		u.assumeLe(K(int64(r[0])), c)
		u.assumeLe(c, K(int64(r[1])))
		m.ob(u, u.bot(), "name", "a name may end before chars that belong to it")
	}
}

func init() {
	register(&check{id: "C31", level: "proof", run: c31, trust: engineTrust, rule: "on every path of every function that makes a terminal rule or a reference: the chars between the quotes, the escapes, and the four digits behind \\u are followed one by one; the rule returned holds exactly the chars they stand for, in order, its kind is the one written, and a name is all the chars that belong to it"})
}
