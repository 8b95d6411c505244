package main

// C30: an accepted definition means what is written.
//
// The chars a reader takes itself, and the rules it reads, are followed by a small automaton for the kind of rule it makes.
// A char that is taken is judged when it is known what was found out about it: when the stream is used again, when it is put
// behind other text, when a loop goes round, or at the end. The rule that is returned is compared with what was followed.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type means struct {
	d     *defReaders
	p     *Program
	r     *Report
	comps map[string]composite // by the name of the type
	terms map[string]terminal
	rd    *reader
	kind  string
	where string
	fact  func(x *Exec, s *State, b *VBool, val bool)
	free  bool // annotations and comments are between the parts: what is taken otherwise is shown by C20
}

const minTape, maxTape, wantTape, endTape = "digits of min", "digits of max", "chars written", "chars written at the end"

func (s *State) stage() string {
	for f := range s.flags {
		if strings.HasPrefix(f, "at:") && s.flags[f] {
			return f[3:]
		}
	}
	return ""
}

func (s *State) setStage(st string) {
	for f := range s.flags {
		if strings.HasPrefix(f, "at:") {
			delete(s.flags, f)
		}
	}
	if st != "" {
		s.flags["at:"+st] = true
	}
}

func (s *State) count(g string) Lin {
	if v, ok := s.ghost[g].(VInt); ok {
		return v.l
	}
	return K(0)
}

// chars that were taken and are not followed yet
var pendingChars = []string{"taken", "taken then", "taken after"}

// take: one more char is taken
func (m *means) take(x *Exec, s *State, at Lin, step func(s *State, at, c Lin)) {
	if _, full := s.ghost[pendingChars[len(pendingChars)-1]]; full {
		m.front(s, step)
	}
	for _, g := range pendingChars {
		if _, ok := s.ghost[g]; !ok {
			s.ghost[g] = VInt{at}
			return
		}
	}
}

// front follows the first char that was taken
func (m *means) front(s *State, step func(s *State, at, c Lin)) {
	at, ok := s.ghost[pendingChars[0]].(VInt)
	if !ok {
		return
	}
	for i, g := range pendingChars {
		delete(s.ghost, g)
		if i+1 < len(pendingChars) {
			if v, ok := s.ghost[pendingChars[i+1]]; ok {
				s.ghost[g] = v
			}
		}
	}
	step(s, at.l, s.charAt(tapeT, at.l))
}

// settle follows the chars that were taken, unless what they are may still be found out
func (m *means) settle(x *Exec, s *State, step func(s *State, at, c Lin), force bool) {
	for !s.bot() {
		at, ok := s.ghost[pendingChars[0]].(VInt)
		if !ok {
			return
		}
		if !force && s.atHand(at.l) {
			u := s.clone()
			m.front(u, step)
			if strings.HasPrefix(u.stage(), "bad") {
				return
			}
		}
		m.front(s, step)
	}
}

// atHand: the char there may still be looked at
func (s *State) atHand(at Lin) bool {
	c := s.charAt(tapeT, at)
	if _, known := s.constOf(c); known {
		return false
	}
	for _, f := range s.frames {
		for _, v := range f.regs {
			if i, ok := v.(VInt); ok && i.l.eq(c) {
				return true
			}
		}
	}
	return false
}

// spacious: the char is white space
func (s *State) spacious(c Lin) bool {
	if v, known := s.constOf(c); known {
		return v == ' ' || v == '\t' || v == '\n' || v == '\r'
	}
	w, known := s.predTruth("white", c)
	return known && w
}

func (s *State) digit(c Lin) bool { return s.le(K('0'), c) && s.le(c, K('9')) }

// hasRune: what the function reads depends on a char given
func hasRune(f *ssa.Function) bool {
	for _, prm := range f.Params {
		if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return true
		}
	}
	return false
}

// alone: the reader is analysed with these chars given; none if it is part of those that call it
func (d *defReaders) alone(rd *reader) (given []map[int]int64) {
	if !hasRune(rd.fn) {
		return []map[int]int64{nil}
	}
	for _, c := range d.all {
		if !d.dispatches(c.fn) {
			continue
		}
		d.calls(c.fn, func(ci ssa.CallInstruction, g *ssa.Function) {
			if g != rd.fn {
				return
			}
			m := map[int]int64{}
			for i, a := range ci.Common().Args {
				if b, ok := rd.fn.Params[i].Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
					continue
				}
				k, ok := a.(*ssa.Const)
				if !ok {
					unresolved("the char given to %s at %s is not known", rd.name, d.p.where(ci))
				}
				m[i] = k.Int64()
			}
			given = append(given, m)
		})
	}
	return
}

// made are the types of the objects a reader makes
func (d *defReaders) made(rd *reader) map[string]bool {
	out := map[string]bool{}
	in := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if a, ok := i.(*ssa.Alloc); ok {
					out[types.TypeString(a.Type().Underlying().(*types.Pointer).Elem(), qual)] = true
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var all func(f *ssa.Function)
	all = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		in(f)
		d.calls(f, func(_ ssa.CallInstruction, g *ssa.Function) {
			if g == nil || !d.p.inRepo(g) || g.Blocks == nil {
				return
			}
			if r := d.of[g]; r != nil && !(hasRune(g) && !d.dispatches(rd.fn)) {
				return
			}
			all(g)
		})
	}
	all(rd.fn)
	return out
}

func newMeans(p *Program, r *Report) *means {
	m := &means{d: p.defReaders(r), p: p, r: r, comps: map[string]composite{}, terms: map[string]terminal{}}
	for _, c := range p.composites() {
		m.comps[c.name] = c
	}
	for _, t := range p.terminals() {
		m.terms[types.TypeString(t.t, qual)] = t
	}
	return m
}

func c30(p *Program, r *Report) {
	m := newMeans(p, r)
	found := map[string]bool{}
	for _, rd := range m.d.all {
		rd := rd
		made := m.d.made(rd)
		kinds := []string{}
		for n := range made {
			if c, ok := m.comps[n]; ok && c.kind != "reference" {
				kinds = append(kinds, c.kind)
				found[c.kind] = true
			}
		}
		calls := false
		m.d.calls(rd.fn, func(_ ssa.CallInstruction, g *ssa.Function) { calls = calls || m.d.of[g] != nil })
		if calls {
			kinds = append(kinds, "part")
		}
		for _, k := range kinds {
			k := k
			guarded(r, rd.name, func() {
				for _, given := range m.d.alone(rd) {
					m.structure(rd, k, given, kinds)
				}
			})
		}
	}
	for _, k := range []string{"sequence", "choice", "repetition", "group", "option", "block"} {
		if !found[k] {
			unresolved("no function makes a %s", k)
		}
	}
}

// run analyses a reader, with the automaton given
func (m *means) run(rd *reader, given map[int]int64, step func(s *State, at, c Lin), item func(x *Exec, s *State, t *taken), judge func(x *Exec, s *State, v Val)) {
	d, p, r := m.d, m.p, m.r
	where := p.pos(rd.fn.Pos())
	x := d.exec()
	inner := d.nested(rd, func(x *Exec, s *State, in ssa.CallInstruction, t *taken) []*State {
		m.where = p.where(in)
		m.settle(x, s, step, true)
		if t.ok {
			item(x, s, t)
		}
		return []*State{s}
	})
	dispatches := d.dispatches(rd.fn)
	x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
		if d.of[fn] != nil && hasRune(fn) && !dispatches {
			return nil, false
		}
		return inner(x, s, in, fn, args)
	}
	x.h.streamOp = func(x *Exec, s *State, in ssa.CallInstruction, op string, before, after Lin, v Val) {
		m.where = p.where(in)
		m.settle(x, s, step, false)
		delete(s.ghost, "peeked")
		if op == "Next" && s.lt(before, after) {
			m.take(x, s, before, step)
		} else if op == "Match" && !s.eq(before, after) && !m.free {
			r.ob(false, "looked at", rd.name, m.where, func() string { return "chars are passed over that are not looked at" })
		} else if op == "Peek" && s.lt(before, S(symE)) {
			s.ghost["peeked"] = VInt{s.charAt(tapeT, before)}
		}
	}
	x.h.backEdge = func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock) {
		m.where = p.where(head.Instrs[0])
		m.settle(x, s, step, false)
		delete(s.ghost, "peeked")
	}
	x.h.piece = func(x *Exec, s *State, in ssa.Instruction, q piece) piece {
		m.where = p.where(in)
		return m.piece(x, s, q, step)
	}
	x.h.lib = func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
		m.where = p.where(in)
		return m.number(x, s, in, fn, args, step)
	}
	x.h.groups = m.group(rd)
	if also, fact := m.fact, x.h.fact; also != nil {
		x.h.fact = func(x *Exec, s *State, b *VBool, val bool) {
			fact(x, s, b, val)
			also(x, s, b, val)
		}
	}
	e := d.entry(x, rd)
	for i, v := range given {
		e.args[i] = VInt{K(v)}
	}
	good := 0
	for _, o := range x.run(rd.fn, []entry{e}) {
		s := o.st
		t, ok := o.ret.(VTuple)
		if !r.ob(ok && len(t.v) == 2, "result", rd.name, where, func() string { return "no result" }) {
			continue
		}
		isNil, known := s.nilKnown(t.v[1])
		if !r.ob(known, "error", rd.name, where, func() string { return "whether there is an error is not known: " + s.show(t.v[1]) }) || !isNil {
			continue
		}
		good++
		m.where = where
		m.settle(x, s, step, true)
		judge(x, s, x.resolve(s, t.v[0]))
	}
	r.ob(good > 0, "anchor", rd.name, where, func() string { return "no rule is ever returned" })
	r.sample("%s (%s): accepted in %d ways", rd.name, m.kind, good)
	r.absorb(x, rd.name)
}

// piece: a char that was just taken, or will be taken next, as part of what is followed
func (m *means) piece(x *Exec, s *State, q piece, step func(s *State, at, c Lin)) piece {
	for i, g := range pendingChars {
		if at, ok := s.ghost[g].(VInt); ok && q.tape == tapeT && s.eq(at.l, q.lo) {
			u := s.clone()
			for k := i; k >= 0; k-- {
				m.front(u, step)
			}
			if strings.HasPrefix(u.stage(), "bad") { // it is not known yet what it is
				return q
			}
			for ; i >= 0; i-- {
				m.front(s, step)
			}
			break
		}
	}
	tape := s.tapeOfStage()
	k := s.count("k " + tape)
	if q.tape == tapeT {
		if last, ok := s.ghost["last "+tape].(VInt); ok && s.eq(last.l, q.lo) {
			return piece{tape: tape, lo: k.addc(-1), hi: k}
		}
		if pos, ok := s.ghost["q"].(VInt); ok && s.eq(pos.l, q.lo) && !strings.Contains(s.stage(), "hex") {
			return piece{tape: tape, lo: k, hi: k.addc(1)}
		}
	}
	if v, ok := s.ghost["value "+tape].(VInt); ok && q.tape == "" && s.eq(v.l, q.ch) {
		return piece{tape: tape, lo: k.addc(-1), hi: k}
	}
	return q
}

// tapeOfStage: what the chars taken now are part of
func (s *State) tapeOfStage() string {
	switch st := s.stage(); {
	case st == "min":
		return minTape
	case st == "max":
		return maxTape
	case strings.HasPrefix(st, "end"):
		return endTape
	}
	return wantTape
}

// content: the char there is part of what is written
func (s *State) content(at Lin) {
	tape := s.tapeOfStage()
	s.ghost["k "+tape] = VInt{s.count("k " + tape).addc(1)}
	s.ghost["last "+tape] = VInt{at}
	delete(s.ghost, "value "+tape)
}

// number models reading a number from text that is followed
func (m *means) number(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, step func(s *State, at, c Lin)) ([]Out, bool) {
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	}
	if path != "strconv" || len(args) == 0 {
		return nil, false
	}
	t, ok := args[0].(VStr)
	if !ok || t.runes == nil {
		return nil, false
	}
	var base Lin
	switch fn.Name() {
	case "Atoi":
		base = K(10)
	case "ParseUint", "ParseInt":
		b, ok := args[1].(VInt)
		if !ok {
			return nil, false
		}
		base = b.l
	default:
		return nil, false
	}
	fails := s.clone()
	fails.flags["failed"] = true
	v := S(freshSym())
	s.assumeLe(K(0), v)
	bad := []Out{{fails, VTuple{[]Val{VInt{S(freshSym())}, x.nonNil(fails, errorType, "library error")}}}}
	m.settle(x, s, step, true)
	r := s.normRope(*t.runes)
	if len(r.p) == 1 {
		q := r.p[0]
		switch {
		case (q.tape == minTape || q.tape == maxTape) && s.eq(base, K(10)) && s.eq(q.lo, K(0)):
			s.ghost["v "+q.tape] = VInt{v}
			s.ghost["of "+q.tape] = VInt{q.hi}
		case q.tape == tapeT && s.eq(base, K(16)):
			from, ok := s.ghost["hex"].(VInt)
			st := s.stage()
			if ok && strings.HasSuffix(st, "hex4") && s.eq(from.l, q.lo) && s.eq(q.hi, q.lo.addc(4)) {
				s.content(q.lo)
				tape := s.tapeOfStage()
				delete(s.ghost, "last "+tape)
				delete(s.ghost, "hex")
				s.ghost["value "+tape] = VInt{v}
				s.setStage(afterValue[st])
			}
		}
	}
	return append(bad, Out{s, VTuple{[]Val{VInt{v}, VNil{}}}}), true
}

func (m *means) ob(s *State, ok bool, rule, msg string) bool {
	return m.r.ob(ok, rule, m.rd.name, m.where, func() string { return msg + "\n" + s.dump() })
}

// step follows a char that is taken between the parts of a rule
func (m *means) step(s *State, at, c Lin) {
	if m.free {
		return
	}
	st := s.stage()
	v, known := s.constOf(c)
	is := func(k rune) bool { return known && v == int64(k) }
	next := "bad"
	switch m.kind {
	case "option", "group", "repetition":
		open, closes := rune('['), rune(']')
		if m.kind == "group" {
			open, closes = '(', ')'
		} else if m.kind == "repetition" {
			open, closes = '{', '}'
		}
		switch {
		case st == "" && is(open):
			next = "open"
		case st == "read" && is(closes):
			next = "closed"
		case st != "closed" && s.spacious(c):
			next = st
		case m.kind == "repetition" && st == "closed" && is('*'):
			next = "any"
		case m.kind == "repetition" && st == "closed" && is('+'):
			next = "some"
		case m.kind == "repetition" && st == "closed" && is('<'):
			next = "min"
		case st == "min" && is(','):
			next = "max"
		case (st == "min" || st == "max") && is('>'):
			next = "counts"
		case (st == "min" || st == "max") && s.digit(c):
			s.content(at)
			next = st
		}
	case "choice":
		switch {
		case s.spacious(c):
			next = st
		case st == "" && is('|'):
			next = "same"
		case st == "" && is('>'):
			next = "new"
		}
	case "block":
		switch {
		case st == "" && is('<'):
			next = "open"
		case s.spacious(c) && st != "done":
			next = st
		case (st == "opened" || st == "one" || st == "excluded") && is('^'):
			if st == "one" {
				s.flags["escape"] = true
			}
			m.separate(s)
			next = "exclude"
		case (st == "one" || st == "last") && is('!'):
			s.flags["virtual"] = true
			next = "virtual"
		case (st == "one" || st == "last" || st == "virtual") && is('>'):
			next = "done"
		}
	case "part":
		if s.spacious(c) {
			next = st
		}
	}
	m.next(s, next, "a char is taken that does not belong there, or what it is was not looked at")
}

// next goes on to a stage; what is bad counts when the rule is accepted
func (m *means) next(s *State, st, msg string) {
	if was := s.stage(); strings.HasPrefix(was, "bad") {
		return
	}
	if st == "bad" {
		st += ": " + msg + " (" + m.where + ")"
	}
	s.setStage(st)
}

// bad tells what went wrong before
func (m *means) bad(s *State) bool {
	st := s.stage()
	return m.ob(s, !strings.HasPrefix(st, "bad"), "follows", st)
}

// separate: another part of a block follows the one read last
func (m *means) separate(s *State) {
	m.ob(s, !s.flags["glued"], "parts", "a part of a block is read that may not end at the white space before the next")
	delete(s.flags, "glued")
}

// item follows a rule that is read
func (m *means) item(x *Exec, s *State, t *taken) {
	if m.free {
		return
	}
	st, next := s.stage(), "bad"
	switch m.kind {
	case "option", "group", "repetition":
		if st == "open" {
			next = "read"
		}
	case "part":
		if st == "" {
			next = "read"
		}
	case "choice":
		switch st {
		case "new":
			s.ghost["prev group"] = VInt{s.count("this group")}
			s.ghost["this group"] = VInt{t.item}
			next = ""
		case "same":
			next = ""
		}
	case "block":
		switch st {
		case "open":
			next = "opened"
		case "opened":
			next = "one"
		case "one":
			s.flags["escape"] = true
			next = "last"
		case "exclude":
			next = "excluded"
		case "excluded":
			next = "last"
		}
		if st == "opened" || st == "one" || st == "excluded" {
			m.separate(s)
		}
		m.ends(x, s, t)
	}
	if t.given {
		next = "bad"
	}
	m.next(s, next, "a rule is read where none belongs")
}

// ends notes whether what was read ends before white space or what closes a block
func (m *means) ends(x *Exec, s *State, t *taken) {
	space := false
	if t.rd.stops >= 0 {
		stops, _ := x.runesOf(s, t.args[t.rd.stops])
		for _, c := range stops {
			if v, known := s.constOf(c); known && v == ' ' {
				space = true
			}
		}
	}
	if !s.eq(t.to, S(symE)) {
		c := s.charAt(tapeT, t.to)
		v, known := s.constOf(c)
		if !s.spacious(c) && !(known && (v == '>' || v == '!' || v == '^')) {
			space = false
		}
	}
	if !space {
		s.flags["glued"] = true
	}
}

// group: a group of rules is complete
func (m *means) group(rd *reader) func(x *Exec, s *State, in ssa.Instruction, lo, hi Lin, next VList) {
	return func(x *Exec, s *State, in ssa.Instruction, lo, hi Lin, next VList) {
		if m.kind != "choice" || m.free {
			return
		}
		m.where = m.p.where(in)
		this, prev, n := s.count("this group"), s.count("prev group"), s.count("n")
		ok := s.eq(lo, prev) && s.eq(hi, this) || len(next.p) == 0 && s.eq(lo, this) && s.eq(hi, n)
		m.ob(s, ok, "groups", "a group of a choice does not hold the rules between two >")
	}
}

func (m *means) structure(rd *reader, kind string, given map[int]int64, kinds []string) {
	m.rd, m.kind = rd, kind
	m.free = kind == "sequence" || kind == "part" && (m.d.dispatches(rd.fn) || m.d.sets(rd.fn))
	m.run(rd, given, m.step, m.item, func(x *Exec, s *State, v Val) {
		if k := s.childIndex(v); k != nil {
			if kind == "part" && m.bad(s) {
				m.ob(s, s.eq(*k, K(0)) && s.eq(s.count("n"), K(1)), "same", "a rule is returned that is not the only one read")
			}
			return
		}
		q, ok := v.(VPtr)
		if !m.ob(s, ok && q.path == "" && s.heap[q.obj] != nil, "made", "it is not known what is returned: "+s.show(v)) {
			return
		}
		o := s.heap[q.obj]
		name := types.TypeString(o.typ, qual)
		if _, isTerm := m.terms[name]; isTerm {
			return
		}
		c, known := m.comps[name]
		mine := false
		for _, k := range kinds {
			mine = mine || k == c.kind
		}
		if !m.ob(s, known && (mine || c.kind == "reference"), "made", "a rule of type "+name+" is returned, and it is not known how it is made") || c.kind != kind {
			return
		}
		if m.bad(s) {
			m.judge(x, s, c, o)
		}
	})
}

func (m *means) judge(x *Exec, s *State, c composite, o *Obj) {
	n, st := s.count("n"), s.stage()
	one := func(i int, k Lin) bool {
		v := x.resolve(s, o.f[i])
		j := s.childIndex(v)
		if j == nil {
			j = s.childIndex(o.f[i])
		}
		return j != nil && s.eq(*j, k)
	}
	window := func(v Val, lo, hi Lin) bool {
		l, ok := v.(VList)
		if _, isNil := v.(VNil); isNil || ok && len(l.p) == 0 {
			return s.eq(lo, hi)
		}
		return ok && len(l.p) == 1 && l.p[0].kind == 'w' && l.p[0].key == childKey && s.eq(l.p[0].lo, lo) && s.eq(l.p[0].hi, hi)
	}
	num := func(i int) Lin {
		if v, ok := o.f[i].(VInt); ok {
			return v.l
		}
		return S(freshSym())
	}
	switch c.kind {
	case "sequence":
		m.ob(s, window(o.f[c.rule], K(0), n), "sequence", "a sequence is not made of the rules read, in their order")
		m.ob(s, s.le(K(2), n), "sequence", "a sequence may be made of less than two rules")
		m.ob(s, !s.flags["given"], "sequence", "a choice does not take the place of the rule it begins with")
	case "option", "group":
		m.ob(s, st == "closed", c.kind, "a rule may be accepted that is not closed")
		m.ob(s, one(c.rule, K(0)) && s.eq(n, K(1)), c.kind, "the rule made is not for the one rule read within it")
	case "repetition":
		m.ob(s, one(c.rule, K(0)) && s.eq(n, K(1)), c.kind, "the rule made is not for the one rule read within it")
		min, max := num(c.min), num(c.max)
		switch st {
		case "closed":
			m.ob(s, s.eq(min, K(0)) && s.eq(max, K(0)), "counts", "a repetition without counts is not any number of times")
			q := s.count("q")
			for _, k := range "*+<" {
				u := s.clone()
				u.assumeLt(q, S(symE))
				u.assumeEq(u.charAt(tapeT, q), K(int64(k)))
				m.ob(u, u.bot(), "counts", "counts behind a repetition are not read")
			}
		case "any":
			m.ob(s, s.eq(min, K(0)) && s.eq(max, K(0)), "counts", "* is not any number of times")
		case "some":
			m.ob(s, s.eq(min, K(1)) && s.eq(max, K(0)), "counts", "+ is not once or more often")
		case "counts":
			m.ob(s, m.counted(s, minTape, min), "counts", "the least number of times is not the number written")
			m.ob(s, m.counted(s, maxTape, max), "counts", "the greatest number of times is not the number written")
			u := s.clone()
			u.assumeLt(K(0), max)
			m.ob(u, u.bot() || u.le(min, max), "counts", "the greatest number of times may be less than the least")
		default:
			m.ob(s, false, "repetition", "a repetition may be accepted that is not closed, or its counts not")
		}
	case "choice":
		this := s.count("this group")
		m.ob(s, st == "", "choice", "a choice may end with | or >")
		m.ob(s, s.le(K(2), n), "choice", "a choice may be made of less than two rules")
		l, ok := o.f[c.rule].(VList)
		k := len(l.p)
		ok = ok && (k == 1 || k == 2 && l.p[0].kind == 'w' && l.p[0].key == groupKey && s.eq(l.p[0].lo, K(0)) && s.eq(l.p[0].hi, this))
		ok = ok && l.p[k-1].kind == 'e' && window(l.p[k-1].v, this, n) && (k == 2 || s.eq(this, K(0)))
		m.ob(s, ok, "groups", "a choice is not made of the rules read, in groups separated by >: "+s.show(o.f[c.rule]))
	case "block":
		b := &blockCheck{p: m.p, r: m.r, c: c}
		b.fields()
		m.ob(s, st == "done", "block", "a block may be accepted that is not closed")
		first := K(1)
		e := x.resolve(s, o.f[b.iEscape])
		if s.flags["escape"] {
			m.ob(s, one(b.iEscape, K(1)), "block", "the escape is not the part behind the open")
			first = K(2)
		} else {
			isNil, known := s.nilKnown(e)
			m.ob(s, known && isNil, "block", "there is an escape where none is written")
		}
		m.ob(s, one(b.iOpen, K(0)), "block", "the open is not the first part")
		m.ob(s, one(b.iClose, n.addc(-1)), "block", "the close is not the last part")
		m.ob(s, window(o.f[b.iExcludes], first, n.addc(-1)), "block", "the excludes are not the parts behind ^: "+s.show(o.f[b.iExcludes]))
		v, known := s.truthOf(x.boolOf(o.f[b.iVirt_]))
		m.ob(s, known && v == s.flags["virtual"], "block", "whether the text of the close is kept is not whether ! is written")
	}
}

// counted: the number is the one written
func (m *means) counted(s *State, tape string, v Lin) bool {
	k := s.count("k " + tape)
	n, ok := s.ghost["v "+tape].(VInt)
	if !ok {
		return s.eq(k, K(0)) && s.eq(v, K(0))
	}
	return s.eq(v, n.l) && s.eq(s.count("of "+tape), k)
}

func init() {
	register(&check{id: "C30", level: "proof", run: c30, trust: engineTrust, rule: "on every path of every function that reads a rule and makes one of other rules: the chars it takes itself and the rules it reads follow one another as the kind of rule demands, and the rule returned holds exactly the rules read, in order, in the roles their place gives them, with the counts that are written"})
}
