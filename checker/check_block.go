package main

// C25: where a text block ends, and what is in it.
//
// The text is gone through in rounds. In each, from the position "at", the escape is tried, from "esc" (where a match of the
// escape ends, or "at") the excludes and then the close. The next round is where something is evaluated that comes no later
// in this order; where it starts tells how the round before ended. The excludes are tried by a function that takes the longest
// match of a list of rules; that it does is shown apart, for an arbitrary rule of the list.

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// gapRope joins pieces of the text around an escape: the chars of the escape may be left out or come twice
func gapRope(s *State, r VRope) VRope {
	r = s.normRope(r)
	at, ok1 := s.ghost["at"].(VInt)
	esc, ok2 := s.ghost["esc"].(VInt)
	tail, _ := s.ghost["tail"].(VInt)
	if !ok1 || !ok2 || len(r.p) == 0 {
		return r
	}
	out := []piece{r.p[0]}
	for _, p := range r.p[1:] {
		q := &out[len(out)-1]
		text := (p.tape == tapeT || p.tape == gapTape) && (q.tape == tapeT || q.tape == gapTape)
		switch {
		case !text:
			out = append(out, p)
		case s.eq(q.hi, p.lo):
			if p.tape == gapTape {
				q.tape = gapTape
			}
			q.hi = p.hi
		case s.le(tail.l, q.hi) && s.le(q.hi, at.l) && (s.eq(p.lo, at.l) || s.eq(p.lo, esc.l)), s.eq(q.hi, esc.l) && s.eq(p.lo, at.l):
			q.tape = gapTape
			q.hi = p.hi
		default:
			out = append(out, p)
		}
	}
	return VRope{p: out}
}

const excludesKey = "the excludes"

const gapTape = "text but for escapes"

type blockCheck struct {
	p                                         *Program
	r                                         *Report
	c                                         composite
	name                                      string
	open, escape, excludes, close, virtual    string // keys of the fields
	iOpen, iEscape, iExcludes, iClose, iVirt_ int
}

func (b *blockCheck) fields() {
	t := b.c.t
	b.iOpen, b.iEscape, b.iExcludes, b.iClose, b.iVirt_ = -1, -1, -1, -1, -1
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		n := strings.ToLower(f.Name())
		_, isSlice := f.Type().Underlying().(*types.Slice)
		bt, isBasic := f.Type().Underlying().(*types.Basic)
		switch {
		case f.Embedded():
		case isSlice:
			b.iExcludes = i
		case isBasic && bt.Info()&types.IsBoolean != 0:
			b.iVirt_ = i
		case strings.Contains(n, "open"):
			b.iOpen = i
		case strings.Contains(n, "close"):
			b.iClose = i
		case strings.Contains(n, "escape"):
			b.iEscape = i
		}
	}
	for _, i := range []int{b.iOpen, b.iEscape, b.iExcludes, b.iClose, b.iVirt_} {
		if i < 0 {
			unresolved("the parts of %s are not known", b.c.name)
		}
	}
	key := func(i int) string { return "rule." + t.Field(i).Name() }
	b.open, b.escape, b.excludes, b.close, b.virtual = key(b.iOpen), key(b.iEscape), key(b.iExcludes), key(b.iClose), key(b.iVirt_)
}

func at(s *State, g string) Lin { return s.ghost[g].(VInt).l }

// round: what is evaluated at this place begins a round; how did the round before end?
func (b *blockCheck) round(s *State, where string, from Lin) {
	ob := func(ok bool, rule, f string, a ...interface{}) {
		b.r.ob(ok, rule, b.name, where, func() string { return fmt.Sprintf(f, a...) + "\n" + s.dump() })
	}
	if s.flags["first"] {
		ob(s.eq(from, at(s, "at")), "from", "the content is looked at from %s, the match of the open uses the text up to %s", from, at(s, "at"))
	} else {
		b.tried(s, where)
		ob(!s.flags["tie"], "exclude", "it goes on although several excludes match the same text")
		switch {
		case s.flags["exclude"]:
			ob(s.flags["escaped"], "exclude", "it goes on after text that is excluded")
			ob(s.eq(from, at(s, "exclude end")), "from", "it goes on from %s, the excluded text that is escaped ends at %s", from, at(s, "exclude end"))
		case s.flags["closed"]:
			ob(s.flags["escaped"], "close", "it goes on after the close")
			ob(s.eq(from, at(s, "close end")), "from", "it goes on from %s, the close that is escaped ends at %s", from, at(s, "close end"))
		default:
			ob(s.flags["close tried"], "close", "it goes on without the close having been tried")
			ob(s.eq(from, at(s, "esc").addc(1)), "from", "it goes on from %s, not from the char after %s", from, at(s, "esc"))
		}
	}
	switch {
	case s.flags["first"]:
	case s.flags["escaped"] && (s.flags["exclude"] || s.flags["closed"]):
		if s.flags["nonempty"] {
			b.added(s, at(s, "esc"), from)
		}
	default:
		b.added(s, at(s, "at"), from)
	}
	for _, f := range []string{"first", "escape tried", "escaped", "excludes tried", "exclude", "tie", "nonempty", "close tried", "closed"} {
		delete(s.flags, f)
	}
	for _, g := range []string{"exclude end", "close end"} {
		s.ghost[g] = VInt{K(0)}
	}
	s.ghost["at"], s.ghost["esc"] = VInt{from}, VInt{from}
}

// added: the content has grown
func (b *blockCheck) added(s *State, first, from Lin) {
	if s.flags["lead"] {
		s.ghost["lead"] = VInt{first}
		delete(s.flags, "lead")
	}
	s.ghost["tail"] = VInt{from}
}

// tried: the excludes have been tried in this round
func (b *blockCheck) tried(s *State, where string) {
	b.r.ob(s.flags["excludes tried"] || s.flags["no excludes"], "exclude", b.name, where, func() string { return "the excludes are not tried at a place in the content\n" + s.dump() })
}

func (b *blockCheck) run() {
	p, r := b.p, b.r
	x := newExec(p)
	x.debug = debugAll
	x.ends, x.dull = true, true
	x.gap, x.listK = true, 3
	x.deadline = r.entryDeadline()
	where := p.pos(b.c.fn.Pos())
	x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
		r.ob(false, "stream", b.name, p.where(in), func() string { return msg })
	}
	s0, args := x.evalEntry(b.c.fn, b.c.fn.Params[0].Type())
	s0.flags["start"] = true
	for _, g := range []string{"at", "esc", "exclude end", "close end", "open end", "lead", "tail"} {
		s0.ghost[g] = VInt{K(0)}
	}
	var es []entry
	count := S(globalSym(b.excludes + "#len"))
	for k := 0; k < 8; k++ {
		if c := os.Getenv("XCASE"); c != "" && c != fmt.Sprint(k) {
			continue
		}
		s := s0.clone()
		load := func(i int) Val {
			pt, _ := x.deref(s, nil, args[0])
			return x.loadPtr(s, nil, VPtr{pt.obj, fmt.Sprintf(".%d", i)}, b.c.t.Field(i).Type())
		}
		switch v := load(b.iEscape).(type) {
		case VOpq:
			s.nilf[v.id] = k&1 != 0
		default:
			unresolved("escape of a block")
		}
		if k&1 != 0 {
			s.flags["no escape"] = true
		}
		if k&2 != 0 {
			s.flags["no excludes"] = true
			s.assumeEq(count, K(0))
		} else {
			s.assumeLt(K(0), count)
		}
		vb, ok := load(b.iVirt_).(*VBool)
		if !ok {
			unresolved("how a close is marked virtual")
		}
		if k&4 != 0 {
			s.flags["virtual"] = true
		}
		for _, t := range x.assume(s, vb, k&4 != 0) {
			es = append(es, entry{t, args, nil})
		}
	}
	x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, f *ssa.Function, args []Val) (outs []Out, done bool) {
		if !p.longestOf(f) {
			return nil, false
		}
		for i, a := range args {
			if p.isRules(f.Params[i].Type()) {
				l, ok := a.(VList)
				ok = ok && (s.flags["no excludes"] && s.eq(l.length(), K(0)) || len(l.p) == 1 && l.p[0].kind == 'w' && l.p[0].key == b.excludes && s.eq(l.p[0].lo, K(0)) && s.eq(l.p[0].hi, count))
				r.ob(ok, "part", b.name, p.where(in), func() string { return "these are not the excludes of the block: " + s.show(a) })
			}
		}
		for _, o := range x.longestCall(s, in, f, args, b.c.t.Field(b.iOpen).Type()) {
			found, tie := o.st.flags["exclude"], o.st.flags["tie"]
			if !o.st.flags["no excludes"] || !found && !tie {
				outs = append(outs, o)
			}
		}
		return outs, true
	}
	kind := func(recv Val) string {
		o, ok := recv.(VOpq)
		switch {
		case !ok:
			return ""
		case o.key == b.open:
			return "open"
		case o.key == b.escape:
			return "escape"
		case o.key == b.close:
			return "close"
		case o.key == excludesKey:
			return "exclude"
		}
		return ""
	}
	x.h.evalCall = func(x *Exec, s *State, in ssa.CallInstruction, recv, cs, flag Val, e *evalOut) {
		w := p.where(in)
		ob := func(ok bool, rule, f string, a ...interface{}) {
			r.ob(ok, rule, b.name, w, func() string { return fmt.Sprintf(f, a...) + "\n" + s.dump() })
		}
		k := kind(recv)
		ob(k != "", "part", "%s is evaluated, which is no part of the block", s.show(recv))
		if s.flags["start"] {
			ob(k == "open" && s.eq(e.from, K(0)), "open", "the first thing evaluated is not the open, from the beginning")
			delete(s.flags, "start")
			s.flags["first"], s.flags["lead"] = true, true
			if e.match {
				s.ghost["at"], s.ghost["open end"], s.ghost["lead"], s.ghost["tail"] = VInt{e.used}, VInt{e.used}, VInt{e.used}, VInt{e.used}
				x.named(s, e, "open node")
			} else {
				s.flags["no open"] = true
			}
			return
		}
		ob(!s.flags["no open"], "open", "it goes on without the open")
		ob(k != "open", "open", "the open is evaluated again")
		if f, ok := flag.(VInt); !ok || !s.eq(f.l, K(p.intConst("NOT_SKIP"))) {
			ob(false, "space", "white space may be skipped within the content")
		}
		switch k {
		case "escape":
			b.round(s, w, e.from)
			s.flags["escape tried"] = true
			x.named(s, e, "escape node")
		case "exclude":
			if s.flags["first"] || s.flags["close tried"] {
				b.round(s, w, e.from)
			}
			ob(s.flags["escape tried"] || s.flags["no escape"], "escape", "the excludes are tried before the escape")
			ob(s.eq(e.from, at(s, "esc")), "from", "the excludes are tried from %s, not from %s", e.from, at(s, "esc"))
			s.flags["excludes tried"] = true
			if e.match {
				s.flags["exclude"] = true
				s.ghost["exclude end"] = VInt{e.used}
			}
		case "close":
			if s.flags["first"] || s.flags["close tried"] {
				b.round(s, w, e.from)
			}
			ob(s.flags["escape tried"] || s.flags["no escape"], "escape", "the close is tried before the escape")
			b.tried(s, w)
			ob(!s.flags["exclude"] && !s.flags["tie"], "exclude", "the close is tried although there is text that is excluded")
			ob(s.eq(e.from, at(s, "esc")), "from", "the close is tried from %s, not from %s", e.from, at(s, "esc"))
			s.flags["close tried"] = true
			if e.match {
				s.flags["closed"] = true
				s.ghost["close end"] = VInt{e.used}
			}
			x.named(s, e, "close node")
		}
	}
	x.h.fork = func(x *Exec, s *State, e *evalOut) (out []*State) {
		out = []*State{s}
		if !e.match {
			return out
		}
		k := kind(e.recv)
		if k == "escape" || (k == "exclude" || k == "close") && s.flags["escaped"] && !s.flags["nonempty"] {
			t := s.clone()
			t.assumeLt(e.from, e.used)
			s.assumeEq(e.from, e.used)
			out = append(out, t)
			if k == "escape" { // one that uses no char escapes nothing
				t.flags["escaped"] = true
				t.ghost["esc"] = VInt{e.used}
			} else {
				t.flags["nonempty"] = true
			}
		}
		return out
	}
	good := 0
	for _, o := range x.run(b.c.fn, es) {
		s := o.st
		expect := func(rule string, c bool, f string, a ...interface{}) {
			r.ob(c, rule, b.name, where, func() string { return fmt.Sprintf(f, a...) + "\n" + s.dump() })
		}
		w, isNil, kids, used, ok := x.matched(r, b.c, o)
		if !ok {
			continue
		}
		if !s.flags["no open"] {
			expect("content", !s.flags["first"] && !s.flags["start"], "the content is not looked at")
		}
		if isNil {
			switch {
			case s.flags["no open"]:
			case s.flags["tie"]:
			case s.flags["exclude"]:
				expect("rejected", !s.flags["escaped"], "a block is rejected for excluded text that is escaped")
			default:
				b.tried(s, where)
				expect("rejected", s.flags["close tried"] && !s.flags["closed"], "a block is rejected although the close may be there")
				expect("rejected", s.eq(at(s, "esc"), S(symE)), "a block is rejected before the end of the text")
			}
			continue
		}
		good++
		expect("open", !s.flags["no open"], "a block matches without the open")
		expect("close", s.flags["closed"] && !s.flags["escaped"], "a block matches without a close, or with one that is escaped")
		expect("exclude", !s.flags["exclude"] && !s.flags["tie"], "a block matches although there is text that is excluded")
		b.tried(s, where)
		end := at(s, "close end")
		if s.flags["virtual"] {
			end = at(s, "esc")
		}
		expect("used", s.eq(used, end), "the match uses the text up to %s, not to %s", used, end)
		n := 3
		if s.flags["virtual"] {
			n = 2
		}
		if !r.ob(len(kids.p) == n, "children", b.name, where, func() string { return "the node holds " + s.show(kids) }) {
			continue
		}
		expect("children", s.hasName(kids.p[0].v, "open node"), "the first child is not the node of the open: %s", s.show(kids))
		if n == 3 {
			expect("children", s.hasName(kids.p[2].v, "close node"), "the third child is not the node of the close: %s", s.show(kids))
		}
		text := x.fieldOf(s, kids.p[1].v, p.tNode, "Chars")
		rope, isRope := text.(VRope)
		rope = gapRope(s, rope)
		lo, hi := at(s, "open end"), at(s, "at")
		okText := isRope && len(rope.p) == 0 && (s.eq(lo, hi) || s.flags["lead"])
		if isRope && len(rope.p) == 1 {
			q := rope.p[0]
			whole := s.eq(q.lo, lo) && s.eq(q.hi, hi)
			if q.tape == gapTape || !whole {
				whole = !s.flags["no escape"] && s.le(lo, q.lo) && s.le(q.lo, at(s, "lead")) && s.le(at(s, "tail"), q.hi) && s.le(q.hi, hi)
			}
			okText = whole
		}
		expect("content", okText, "the content is %s, not the text from %s to %s", s.show(text), at(s, "open end"), at(s, "at"))
		_ = w
	}
	r.ob(good > 0, "anchor", b.name, where, func() string { return "no match is ever reported" })
	r.absorb(x, b.name)
}

// named gives the node of a match a name of its own
func (x *Exec) named(s *State, e *evalOut, name string) {
	if !e.match {
		return
	}
	n := e.node.(VOpq)
	e.node = VOpq{id: internID(name), key: name, typ: n.typ}
	s.nilf[e.node.(VOpq).id] = false
	s.wobj(e.res).f[x.p.fNode] = e.node
}

func (s *State) hasName(v Val, name string) bool {
	switch v := v.(type) {
	case VOpq:
		return v.key == name
	case VPtr:
		o := s.heap[v.obj]
		return o != nil && v.path == "" && o.symKey == name
	}
	return false
}

// isRules: a list of rules
func (p *Program) isRules(t types.Type) bool {
	l, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(l.Elem().Underlying(), p.tRule)
}

// longestOf: the function evaluates a list of rules on a stream
func (p *Program) longestOf(f *ssa.Function) bool {
	sig := f.Signature
	if !p.inRepo(f) || sig.Results().Len() != 1 || !isPtrTo(sig.Results().At(0).Type(), p.tResult) {
		return false
	}
	stream, rules := 0, 0
	for i := 0; i < sig.Params().Len(); i++ {
		switch t := sig.Params().At(i).Type(); {
		case p.isStream(t):
			stream++
		case p.isRules(t):
			rules++
		}
	}
	return stream == 1 && rules == 1
}

// longestCall: the call of such a function, which may find a match, none, or a tie
func (x *Exec) longestCall(s *State, in ssa.CallInstruction, f *ssa.Function, args []Val, rule types.Type) (outs []Out) {
	var cs, flag Val
	for i, a := range args {
		t := f.Params[i].Type()
		if x.p.isStream(t) {
			cs = a
		} else if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			flag = a
		}
	}
	for _, o := range x.childOn(s, in, VOpq{id: internID(excludesKey), key: excludesKey, typ: rule}, cs, flag) {
		outs = append(outs, o)
		res := o.ret.(VPtr).obj
		if isNil, known := o.st.nilKnown(o.st.heap[res].f[x.p.fNode]); known && isNil {
			t := o.st.clone()
			o.st.wobj(res).f[x.p.fErr] = VNil{}
			t.flags["tie"] = true
			outs = append(outs, Out{t, o.ret})
		}
	}
	return
}

// c25Longest: a function that evaluates a list of rules takes the longest match. Three runs as for choices.
func c25Longest(p *Program, r *Report, fn *ssa.Function, run string) {
	longest, any := run == "longest", run == "any"
	name, where := p.fname(fn), p.pos(fn.Pos())
	x := newExec(p)
	x.debug = debugAll
	x.ends, x.dull = true, true
	x.loose = !any
	x.deadline = r.entryDeadline()
	x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
		r.ob(false, "stream", name, p.where(in), func() string { return msg })
	}
	s, args := x.evalEntry(fn, fn.Params[0].Type())
	count := S(freshSym())
	s.assumeLe(K(0), S(symI))
	s.assumeLt(S(symI), count)
	s.assumeLe(K(0), S(symU))
	for i, prm := range fn.Params {
		if p.isRules(prm.Type()) {
			args[i] = VList{p: []part{{kind: 'w', key: "rules", v: VTop{}, lo: K(0), hi: count}}}
		}
		if isPtrTo(prm.Type(), p.tGrammar) {
			o := VOpq{id: internID("grammar"), key: "grammar", typ: prm.Type()}
			s.nilf[o.id] = false
			args[i] = o
		}
	}
	if x.loose {
		x.looseStreams()
	}
	x.h.elemLoad = func(x *Exec, s *State, in ssa.Instruction, seq Val, idx Lin, v Val) (out []Out) {
		x.passes(s, in, v)
		l, ok := seq.(VList)
		if !ok || any || len(l.p) != 1 || l.p[0].kind != 'w' || l.p[0].key != "rules" {
			return nil
		}
		pos := l.p[0].lo.add(idx)
		for k := 0; k < 3; k++ {
			t := s.clone()
			w := v
			switch k {
			case 0:
				t.assumeLt(pos, S(symI))
			case 1:
				t.assumeEq(pos, S(symI))
				o := v.(VOpq)
				o.id, o.key, o.idx = internID("the rule"), "the rule", nil
				t.nilf[o.id] = false
				w = o
			case 2:
				t.assumeLt(S(symI), pos)
			}
			if !t.bot() {
				out = append(out, Out{t, w})
			}
		}
		return out
	}
	x.h.evalCall = func(x *Exec, s *State, in ssa.CallInstruction, recv, cs, flag Val, e *evalOut) {
		w := p.where(in)
		r.ob(s.eq(e.from, K(0)), "from", name, w, func() string {
			return fmt.Sprintf("a rule of the list is evaluated from %s, not from where the others are\n%s", e.from, s.dump())
		})
		o, ok := recv.(VOpq)
		if !r.ob(ok && (o.key == "rules[]" || o.key == "the rule"), "part", name, w, func() string { return s.show(recv) + " is evaluated, which is no rule of the list" }) {
			return
		}
		if f, ok := flag.(VInt); !ok || !strings.HasPrefix(s.show(f), "arg:") && !s.eq(f.l, K(p.intConst("NOT_SKIP"))) {
			r.ob(false, "space", name, w, func() string {
				return "a rule of the list is evaluated with another demand for white space: " + s.show(flag)
			})
		}
		if o.key == "the rule" {
			s.flags["tried"] = true
		}
		if !e.match {
			return
		}
		s.flags["some"] = true
		if o.key == "the rule" {
			s.flags["matched"] = true
			x.witnessNode(s, e)
		} else if longest {
			s.assumeLt(e.used, S(symU))
		}
	}
	good := 0
	for _, o := range x.run(fn, []entry{{s, args, nil}}) {
		s := o.st
		expect := func(rule string, c bool, f string, a ...interface{}) {
			r.ob(c, rule, name, where, func() string { return fmt.Sprintf(f, a...) + "\n" + s.dump() })
		}
		w, ok := x.resultOf(s, o.ret, nil)
		if !r.ob(ok && w.okText, "result", name, where, func() string { return "what is returned is not a result made here: " + s.show(o.ret) }) {
			continue
		}
		isNil, known := s.nilKnown(w.node)
		if !r.ob(known, "node", name, where, func() string { return "cannot tell whether there is a node: " + s.show(w.node) }) {
			continue
		}
		if any {
			conserve(x, r, fn, o, false)
		}
		expect("tried", any || s.flags["tried"], "not all rules of the list are tried")
		some, matched := s.flags["some"], s.flags["matched"]
		if isNil {
			noErr, known := s.nilKnown(w.err)
			expect("error", known && noErr == !some, "there is an error without a tie, or a tie without an error")
			expect("longest", !longest || !matched, "no match is reported although one match is longer than all others")
			expect("used", s.eq(w.read.length(), w.unused.length()), "not all is handed back")
			continue
		}
		good++
		expect("match", some, "a match is reported although no rule of the list matched")
		k, end := s.endOf(w.node)
		expect("node", k != "", "the node %s is not that of a rule of the list", s.show(w.node))
		used := w.read.length().sub(w.unused.length())
		expect("used", k == "" || s.eq(used, end), "the match uses the text up to %s, the one taken uses it up to %s", used, end)
		if matched && k != witnessKey {
			expect("longest", s.lt(S(symU), used), "a match up to %s is taken although another one may use as much or more", used)
		}
	}
	r.ob(good > 0, "anchor", name, where, func() string { return "no match is ever reported" })
	r.absorb(x, name)
}

func c25(p *Program, r *Report) {
	found := 0
	for _, f := range p.funcs {
		if p.longestOf(f) && f.Blocks != nil {
			found++
			for _, run := range []string{"any", "tried", "longest"} {
				f, run := f, run
				guarded(r, p.fname(f), func() { c25Longest(p, r, f, run) })
			}
		}
	}
	if found == 0 {
		unresolved("no function takes the longest match of a list of rules")
	}
	for _, c := range p.compositesOf("block") {
		b := &blockCheck{p: p, r: r, c: c, name: p.fname(c.fn)}
		guarded(r, b.name, func() { b.fields(); b.run() })
	}
}

func init() {
	register(&check{id: "C25", level: "proof", run: c25, trust: engineTrust,
		rule: "for every block, every round over its content and an arbitrary exclude: escape, excludes and close are tried in this order, each from where it is due and without skipping white space; it goes on exactly if what matched is escaped, or a char further if nothing matched; it ends with the first close that is not escaped, and fails only at excluded text that is not escaped or at the end of the text; the content is the text between"})
}
