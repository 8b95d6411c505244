package main

// Reading definitions: the functions that take a rule from a stream.
//
// Each is analysed on its own; calls among them are taken by their contract: on success they took at least one char and
// give a rule, and where chars to stop at are given the next char is one of these or the text ends; on failure there is
// an error and the stream is somewhere further on.

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type reader struct {
	fn     *ssa.Function
	name   string
	stream int
	stops  int // the parameter with the chars to stop at, or -1
	rule   types.Type
}

type defReaders struct {
	p         *Program
	r         *Report
	all       []*reader
	of        map[*ssa.Function]*reader
	setter    string // the method of rules that sets annotations
	annotated func(x *Exec, s *State, in ssa.CallInstruction, item Lin, args []Val)
	onMade    func(x *Exec, s *State, rd *reader, v Val) // a rule is returned
	weak      map[*ssa.Function]map[*ssa.Function]string // calls that may happen before any char is taken
}

func (p *Program) isRuleVal(t types.Type) bool {
	if p.isRuleT(t) {
		return true
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return false
	}
	return types.Implements(t, p.tRule)
}

// readers are the functions of the library that take a rule from a stream
func (p *Program) defReaders(r *Report) *defReaders {
	d := &defReaders{p: p, r: r, of: map[*ssa.Function]*reader{}, weak: map[*ssa.Function]map[*ssa.Function]string{}}
	for _, f := range p.funcs {
		if f.Pkg != p.lib || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 2 || !p.isRuleVal(res.At(0).Type()) || !isErrorType(res.At(1).Type()) {
			continue
		}
		rd := &reader{fn: f, name: p.fname(f), stream: -1, stops: -1, rule: res.At(0).Type()}
		n, flags := 0, 0
		for i, prm := range f.Params {
			b, isB := prm.Type().Underlying().(*types.Basic)
			switch {
			case p.isStream(prm.Type()):
				rd.stream = i
				n++
			case isRuneSlice(prm.Type()):
				rd.stops = i
			case isB && b.Kind() == types.Bool, isPtrToBool(prm.Type()):
				flags++
			}
		}
		if n != 1 || flags > 1 {
			continue // a helper with annotations, part of its caller
		}
		d.all = append(d.all, rd)
		d.of[f] = rd
	}
	for i := 0; i < p.tRule.NumMethods(); i++ {
		m := p.tRule.Method(i)
		ps := m.Type().(*types.Signature).Params()
		bools := 0
		for k := 0; k < ps.Len(); k++ {
			if b, ok := ps.At(k).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				bools++
			}
		}
		if bools == 3 && ps.Len() == 3 {
			d.setter = m.Name()
		}
	}
	sort.Slice(d.all, func(i, j int) bool { return d.all[i].name < d.all[j].name })
	if len(d.all) == 0 {
		unresolved("no function takes a rule from a stream")
	}
	return d
}

func isPtrToBool(t types.Type) bool {
	q, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	b, ok := q.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// exec prepares the interpreter for a function that reads definitions
func (d *defReaders) exec() *Exec {
	x := newExec(d.p)
	x.debug = debugAll
	x.deadline = d.r.entryDeadline()
	x.defs, x.track = true, true
	x.h.invoke = func(x *Exec, s *State, in ssa.CallInstruction, recv Val, m *types.Func, args []Val) ([]Out, bool) {
		if m.Name() == d.setter && len(args) == 3 {
			return d.set(x, s, in, recv, args)
		}
		return nil, false
	}
	x.h.elemLoad = func(x *Exec, s *State, in ssa.Instruction, seq Val, idx Lin, v Val) []Out {
		if o, ok := v.(VOpq); ok && o.key == childKey+"[]" {
			s.nilf[o.id] = false
		}
		return []Out{{s, v}}
	}
	x.h.elemStore = func(x *Exec, s *State, in ssa.Instruction, ep VElemPtr, v Val) bool {
		l, ok := ep.seq.(VList)
		if g, isG := v.(VList); ok && isG && x.groupOf(g) {
			return x.setGroup(s, l, ep.idx, g)
		}
		if !ok || len(l.p) != 1 || l.p[0].kind != 'w' || l.p[0].key != childKey {
			return false
		}
		k := s.childIndex(v)
		if k == nil {
			k = s.childIndex(x.resolve(s, v))
		}
		if k == nil || !s.eq(*k, l.p[0].lo.add(ep.idx)) {
			return false
		}
		delete(s.flags, "given")
		return true
	}
	x.h.fact = func(x *Exec, s *State, b *VBool, val bool) {
		if val && b.op == '=' {
			d.stopped(s, b.l)
		}
	}
	x.h.loopHead = func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock) {
		d.known(s)
	}
	return x
}

// entry is the state a reader starts in
func (d *defReaders) entry(x *Exec, rd *reader) entry {
	s := newState()
	s.ghost["n"] = VInt{K(0)}
	var args []Val
	for i, prm := range rd.fn.Params {
		t := prm.Type()
		switch {
		case i == rd.stream:
			args = append(args, x.baseStream(s))
		case isPtrTo(t, d.p.tGrammar):
			o := VOpq{id: internID("grammar"), key: "grammar", typ: t}
			s.nilf[o.id] = false
			args = append(args, o)
		case d.p.isRuleVal(t):
			i := K(0)
			o := VOpq{id: freshID(), key: childKey + "[]", idx: &i, typ: t}
			s.nilf[o.id] = false
			s.ghost["n"] = VInt{K(1)}
			args = append(args, o)
		case i == rd.stops:
			args = append(args, x.sym(s, t, stopsTape))
		default:
			v := x.sym(s, t, "arg:"+prm.Name())
			if n, ok := v.(VInt); ok && d.neverEOF(rd.fn, i) {
				s.assumeNe(n.l, K(d.p.eofChar))
			}
			args = append(args, v)
		}
	}
	return entry{s, args, nil}
}

// neverEOF: every call gives a constant that is not the one for the end of the text
func (d *defReaders) neverEOF(fn *ssa.Function, arg int) bool {
	calls := 0
	for _, f := range d.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != fn {
					for _, op := range in.Operands(nil) {
						if *op == fn {
							return false
						}
					}
					continue
				}
				k, ok := ci.Common().Args[arg].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() == d.p.eofChar {
					return false
				}
				calls++
			}
		}
	}
	return calls > 0
}

// taken is a call of another reader by its contract
type taken struct {
	rd       *reader
	from, to Lin
	args     []Val
	ok       bool
	rule     Val
	item     Lin  // the number of the rule among those read here
	given    bool // the rule takes the place of the one given
}

// groupKey: groups of rules, in order
const groupKey = "group"

// groupOf: a list of rules that were read
func (x *Exec) groupOf(l VList) bool {
	return len(l.p) == 0 || len(l.p) == 1 && l.p[0].kind == 'w' && l.p[0].key == childKey
}

// first is the number of the first element of a part, in what it is part of
func (p part) first() Lin {
	if p.key == groupKey {
		return K(0)
	}
	return p.lo
}

// newGroup adds a group to groups: the one that was the last is complete then
func (x *Exec) newGroup(s *State, in ssa.Instruction, r, g VList, el types.Type) VList {
	n := len(r.p)
	if n == 0 || r.p[n-1].kind != 'e' {
		return r
	}
	last, ok := r.p[n-1].v.(VList)
	if !ok || len(last.p) != 1 || !x.groupOf(last) {
		return r
	}
	lo, hi := last.p[0].lo, last.p[0].hi
	if !s.lt(lo, hi) {
		return r
	}
	if x.h.groups != nil {
		x.h.groups(x, s, in, lo, hi, g)
	}
	rest := append([]part(nil), r.p[:n-1]...)
	if n == 1 {
		rest = append(rest, part{kind: 'w', key: groupKey, v: VTop{el}, lo: lo, hi: hi, cnt: K(1)})
	} else if q := rest[n-2]; n == 2 && q.key == groupKey && s.eq(q.hi, lo) {
		q.hi, q.cnt = hi, q.cnt.addc(1)
		rest[0] = q
	} else {
		return r
	}
	return VList{p: rest}
}

// setGroup replaces the last of some groups
func (x *Exec) setGroup(s *State, l VList, idx Lin, g VList) bool {
	n := len(l.p)
	if n == 0 || l.p[n-1].kind != 'e' || !s.eq(idx, l.length().addc(-1)) {
		return false
	}
	m := VList{p: append(append([]part(nil), l.p[:n-1]...), part{kind: 'e', v: g})}
	same := func(v Val) bool {
		k, ok := v.(VList)
		if !ok || len(k.p) != n {
			return false
		}
		for i, p := range k.p {
			q := l.p[i]
			if p.kind != q.kind || p.key != q.key || !p.lo.eq(q.lo) || !p.hi.eq(q.hi) || !p.cnt.eq(q.cnt) {
				return false
			}
			if p.kind == 'e' && s.show(p.v) != s.show(q.v) {
				return false
			}
		}
		return true
	}
	for _, f := range s.frames {
		for k, v := range f.regs {
			if same(v) {
				f.regs[k] = m
			}
		}
	}
	for id, o := range s.heap {
		for k, v := range o.f {
			if same(v) {
				s.wobj(id).f[k] = m
			}
		}
	}
	return true
}

// groupAt is one of some groups
func (s *State) groupAt(p part, i Lin) Val {
	lo, hi := p.lo, p.hi
	if !s.eq(i, K(0)) {
		lo = S(freshSym())
		s.assumeLe(p.lo, lo)
		s.assumeLt(lo, hi)
	}
	if !s.eq(i, p.cnt.addc(-1)) {
		hi = S(freshSym())
		s.assumeLt(lo, hi)
		s.assumeLe(hi, p.hi)
	}
	return VList{p: []part{{kind: 'w', key: childKey, v: p.v, lo: lo, hi: hi}}}
}

// pieces: a check may know single chars as part of something else
func (x *Exec) pieces(s *State, in ssa.Instruction, b VRope) VRope {
	if x.h.piece == nil {
		return b
	}
	out := VRope{p: append([]piece(nil), b.p...), isNil: b.isNil}
	for i, p := range out.p {
		if p.tape != "?" && s.eq(p.length(), K(1)) {
			out.p[i] = x.h.piece(x, s, in, p)
		}
	}
	return out
}

// isBuilder: a type of a library that text is collected in
func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder"
}

// builder models the text collected in a strings.Builder
func (x *Exec) builder(s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	rv := fn.Signature.Recv()
	if !x.defs || rv == nil {
		return nil, false
	}
	pt, ok := rv.Type().(*types.Pointer)
	if !ok || !isBuilder(pt.Elem()) {
		return nil, false
	}
	q, ok := args[0].(VPtr)
	var o *Obj
	var at int
	if ok && s.heap[q.obj] != nil {
		o = s.heap[q.obj]
	}
	if o == nil || q.path != "" || len(o.f) < 2 {
		return nil, false
	}
	at = 1
	r, ok := o.f[at].(VRope)
	if !ok {
		r = s.unknownRope(S(x.someLen(s)))
	}
	put := func(b VRope) []Out {
		if x.h.appended != nil {
			x.h.appended(x, s, in, r, b)
		}
		n := x.joinText(s, in, r, b)
		s.wobj(q.obj).f[at] = n
		return []Out{{s, VTuple{[]Val{VInt{S(x.someLen(s))}, VNil{}}}}}
	}
	switch fn.Name() {
	case "WriteRune":
		if c, ok := args[1].(VInt); ok {
			return put(x.ropeOfChar(s, c.l)), true
		}
	case "WriteString":
		if t, ok := args[1].(VStr); ok && t.runes != nil {
			return put(*t.runes), true
		}
		return put(s.unknownRope(S(x.someLen(s)))), true
	case "Reset":
		s.wobj(q.obj).f[at] = VRope{}
		return []Out{{s, nil}}, true
	case "Grow":
		return []Out{{s, nil}}, true
	case "Len":
		n := S(x.someLen(s))
		if s.lt(K(0), r.length()) {
			s.assumeLt(K(0), n)
		}
		if s.eq(K(0), r.length()) {
			n = K(0)
		}
		return []Out{{s, VInt{n}}}, true
	case "String":
		return []Out{{s, VStr{id: freshID(), runes: &r}}}, true
	}
	return nil, false
}

func (x *Exec) someLen(s *State) Sym {
	n := freshSym()
	s.d.addDiff(0, n, 0)
	return n
}

// joinText is text followed by other text
func (x *Exec) joinText(s *State, in ssa.Instruction, a, b VRope) VRope {
	r := s.normRope(VRope{p: append(append([]piece(nil), a.p...), x.pieces(s, in, b).p...)})
	if len(r.p) > maxPieces {
		x.note(in, "text of too many pieces")
		r = s.unknownRope(r.length())
	}
	return r
}

// nested makes the hook for calls among readers. after sees each outcome and may split it.
func (d *defReaders) nested(self *reader, after func(x *Exec, s *State, in ssa.CallInstruction, t *taken) []*State) func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	return func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
		if x.p.makesStream(fn) {
			return []Out{{s, x.baseStream(s)}}, true
		}
		rd := d.of[fn]
		if rd == nil {
			return d.annotate(x, s, in, fn, args)
		}
		where := x.p.where(in)
		here := x.p.fname(in.Parent())
		cs := x.resolve(s, args[rd.stream])
		from, ok := x.streamPos(s, cs)
		if !ok {
			d.r.ob(false, "stream", here, where, func() string { return "a definition is read from an unknown stream: " + s.show(cs) })
			return nil, true
		}
		n, _ := s.ghost["n"].(VInt)
		t0 := taken{rd: rd, from: from, args: args, item: n.l}
		for i, prm := range fn.Params {
			if i < len(args) && d.p.isRuleVal(prm.Type()) {
				k := s.childIndex(x.resolve(s, args[i]))
				if k == nil {
					k = s.childIndex(args[i])
				}
				if !d.r.ob(k != nil && s.eq(*k, n.l.addc(-1)), "rule given", here, where, func() string {
					return "the rule handed on is not the last one read: " + s.show(args[i]) + "\n" + s.dump()
				}) {
					return nil, true
				}
				t0.given, t0.item = true, n.l.addc(-1)
			}
		}
		if self != nil && !s.lt(K(0), from) {
			if d.weak[self.fn] == nil {
				d.weak[self.fn] = map[*ssa.Function]string{}
			}
			d.weak[self.fn][fn] = where
		}
		x.pruneForCall(s, in)
		var outs []Out
		emit := func(st *State, t taken, v Val) {
			if st.bot() {
				return
			}
			states := []*State{st}
			if after != nil {
				states = after(x, st, in, &t)
			}
			for _, u := range states {
				if !u.bot() {
					outs = append(outs, Out{u, v})
				}
			}
		}
		// failure
		f := s.clone()
		to := S(freshSym())
		f.assumeLe(from, to)
		f.assumeLe(to, S(symE))
		for _, u := range x.advance(f, cs, to) {
			if u.bot() {
				continue
			}
			e := x.nonNil(u, errorType, "read error")
			u.flags["failed"] = true
			t := t0
			t.to = to
			emit(u, t, VTuple{[]Val{VNil{}, e}})
		}
		// success
		to = S(freshSym())
		s.assumeLt(from, to)
		s.assumeLe(to, S(symE))
		if s.bot() {
			return outs, true
		}
		for _, u := range x.advance(s, cs, to) {
			if u.bot() {
				continue
			}
			states := []*State{u}
			if rd.stops >= 0 {
				states = nil
				stops, ok := x.runesOf(u, args[rd.stops])
				if !d.r.ob(ok, "stops", here, where, func() string { return "where to stop is not known: " + u.show(args[rd.stops]) }) {
					continue
				}
				end := u.clone()
				end.assumeEq(to, S(symE))
				states = append(states, end)
				u.assumeLt(to, S(symE))
				for _, c := range stops {
					v := u.clone()
					if !(c.isConst() && c.c == d.p.eofChar) && !v.bot() {
						v.assumeEq(v.charAt(tapeT, to), c)
						states = append(states, v)
					}
				}
			}
			for _, v := range states {
				if v.bot() {
					continue
				}
				t := t0
				t.to, t.ok = to, true
				i := t.item
				o := VOpq{id: freshID(), key: childKey + "[]", idx: &i, typ: rd.rule}
				v.nilf[o.id] = false
				t.rule = o
				v.flags["read"] = true
				if t.given {
					v.flags["given"] = true
				} else {
					v.ghost["n"] = VInt{n.l.addc(1)}
				}
				emit(v, t, VTuple{[]Val{o, VNil{}}})
			}
		}
		return outs, true
	}
}

// annotate is told when the annotations of a rule are set
func (d *defReaders) annotate(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	if fn.Name() != d.setter || len(args) != 4 {
		return nil, false
	}
	return d.set(x, s, in, args[0], args[1:])
}

func (d *defReaders) set(x *Exec, s *State, in ssa.CallInstruction, recv Val, args []Val) ([]Out, bool) {
	var k *Lin
	if p, ok := recv.(VPtr); ok { // also of a part of the rule
		k = s.childIndex(VPtr{obj: p.obj})
	} else {
		k = s.childIndex(recv)
	}
	if k == nil {
		return nil, false
	}
	if d.annotated != nil {
		d.annotated(x, s, in, *k, args)
	}
	return []Out{{s, nil}}, true
}

// runesOf reads a list of runes
func (x *Exec) runesOf(s *State, v Val) (out []Lin, ok bool) {
	r, isR := v.(VRope)
	if !isR {
		return nil, false
	}
	for _, p := range s.normRope(r).p {
		if p.tape != "" {
			return nil, false
		}
		out = append(out, p.ch)
	}
	return out, true
}

// mayFail: a call of a library that tells about errors
func (x *Exec) mayFail(s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	res := fn.Signature.Results()
	if x.h.lib != nil {
		if o, ok := x.h.lib(x, s, in, fn, args); ok {
			return o, true
		}
	}
	if !x.defs || res.Len() < 2 || !isErrorType(res.At(res.Len()-1).Type()) {
		return nil, false
	}
	var outs []Out
	for _, fails := range []bool{true, false} {
		t := s.clone()
		v, _ := x.havocResult(t, fn.Signature).(VTuple)
		var e Val = VNil{}
		if fails {
			t.flags["failed"] = true
			e = x.nonNil(t, errorType, "library error")
		}
		w := VTuple{append(append([]Val(nil), v.v[:res.Len()-1]...), e)}
		outs = append(outs, Out{t, w})
	}
	return outs, true
}

// known: rules that were read are there
func (d *defReaders) known(s *State) {
	for _, f := range s.frames {
		for _, v := range f.regs {
			if o, ok := v.(VOpq); ok && o.key == childKey+"[]" {
				s.nilf[o.id] = false
			}
		}
	}
}

// stopped notes where a char of the text was found to be one to stop at
func (d *defReaders) stopped(s *State, l Lin) {
	if len(l.t) != 2 || l.c != 0 || l.t[0].k != -l.t[1].k {
		return
	}
	var at *Lin
	stop := false
	for _, t := range l.t {
		for _, c := range s.chars {
			if c.v == t.s {
				switch c.tape {
				case tapeT:
					i := c.pos
					at = &i
				case stopsTape:
					stop = true
				}
			}
		}
	}
	if at != nil && stop {
		s.ghost["stop"] = VInt{*at}
	}
}

const stopsTape = "chars to stop at"
