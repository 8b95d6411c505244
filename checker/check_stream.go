package main

// C09: what the operations of a stream do, shown for every implementation of ICharstream.
//
// Quantified facts ("all chars passed over are white", "all wanted chars follow") are shown for one arbitrary but fixed
// position J: paths are told apart by whether a char at J was looked at.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var (
	symB = globalSym("begin") // where the text of the stream, or what is put in front, begins; 0 is where the stream is
	symJ = witnessSym("J")
)

type streamRoles struct {
	t                     types.Type // struct
	inner, pre, cur, text int
}

func (x *Exec) streamRolesOf(t types.Type) streamRoles {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	inner, pre, cur, ok := x.wrapRoles(t)
	if ok {
		return streamRoles{t, inner, pre, cur, -1}
	}
	r := streamRoles{t, -1, -1, -1, -1}
	st, isS := t.Underlying().(*types.Struct)
	if !isS {
		unresolved("stream type %s is not a struct", t)
	}
	one := func(at *int, i int, what string) {
		if *at >= 0 {
			unresolved("stream type %s has several fields that may be its %s", t, what)
		}
		*at = i
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		b, isB := ft.Underlying().(*types.Basic)
		switch {
		case isRuneSlice(ft):
			one(&r.text, i, "text")
		case isB && b.Kind() == types.Int:
			one(&r.cur, i, "cursor")
		}
	}
	if r.text < 0 || r.cur < 0 {
		unresolved("stream type %s has no text or no cursor", t)
	}
	return r
}

// streamEntries are the states a stream may be in when an operation starts, with the position of the stream
func (x *Exec) streamEntries(fn *ssa.Function, ro streamRoles) (es []entry) {
	mk := func() (*State, *Obj, Val) {
		s := newState()
		o := &Obj{typ: ro.t, symb: true, f: make([]Val, nfields(ro.t))}
		v := VPtr{obj: s.alloc(o)}
		s.ghost["recv"] = v
		return s, o, v
	}
	add := func(s *State, recv Val) {
		s.assumeLe(K(0), S(symJ))
		args := []Val{recv}
		for _, prm := range fn.Params[1:] {
			v := x.sym(s, prm.Type(), "input")
			args = append(args, v)
		}
		es = append(es, entry{s, args, nil})
	}
	if ro.text >= 0 {
		s, o, v := mk()
		s.assumeLe(S(symB), K(0))
		s.assumeLe(K(0), S(symE))
		s.ghost["q"] = VInt{K(0)}
		o.f[ro.text] = VRope{p: []piece{{tape: tapeT, lo: S(symB), hi: S(symE)}}}
		o.f[ro.cur] = VInt{S(symB).neg()}
		add(s, v)
		return
	}
	// chars in front that are not all used: the stream underneath is where they end
	hi := globalSym("below")
	for _, used := range []bool{false, true} {
		s, o, v := mk()
		s.assumeLe(S(symB), K(0))
		s.assumeLt(S(symB), S(hi))
		s.assumeLe(S(hi), S(symE))
		s.assumeLe(K(0), S(symE))
		in := x.baseStream(s)
		o.f[ro.inner] = in
		o.f[ro.pre] = VRope{p: []piece{{tape: tapeT, lo: S(symB), hi: S(hi)}}}
		if used {
			s.assumeLe(S(hi), K(0))
			s.ghost["q"] = VInt{K(0)}
			o.f[ro.cur] = VInt{S(hi).sub(S(symB))}
		} else {
			s.assumeLt(K(0), S(hi))
			s.ghost["q"] = VInt{S(hi)}
			o.f[ro.cur] = VInt{S(symB).neg()}
		}
		add(s, v)
	}
	return
}

func c09(p *Program, r *Report) {
	c09Makers(p, r)
	for _, t := range p.impls(p.tStream) {
		for _, m := range []string{"Next", "Peek", "SkipSpaces", "Match", "Cursor"} {
			fn := p.method(t, m)
			if fn == nil || fn.Blocks == nil {
				unresolved("%s.%s has no source", t, m)
			}
			name := p.fname(fn)
			where := p.pos(fn.Pos())
			guarded(r, name, func() {
				x := newExec(p)
				x.debug = debugAll
				x.deadline = r.entryDeadline()
				x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
					r.ob(false, "stream", name, p.where(in), func() string { return msg })
				}
				ro := x.streamRolesOf(t)
				x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, f *ssa.Function, args []Val) ([]Out, bool) {
					return x.besides(s, f, args)
				}
				if m == "SkipSpaces" {
					x.h.invoke = func(x *Exec, s *State, in ssa.CallInstruction, recv Val, f *types.Func, args []Val) ([]Out, bool) {
						return x.readAtJ(s, in, recv, f.Name(), args)
					}
				}
				if m == "Match" || m == "SkipSpaces" {
					x.h.charLoad = func(x *Exec, s *State, in ssa.Instruction, rp VRope, idx Lin) []*State {
						return x.atJ(s, rp, idx, m == "Match")
					}
				}
				for _, e := range x.streamEntries(fn, ro) {
					outs := x.run(fn, []entry{e})
					if len(outs) == 0 {
						r.fail("returns", name, where, "no return is reached")
					}
					for _, o := range outs {
						x.streamSpec(r, m, fn, ro, e, o)
					}
				}
				r.absorb(x, name)
			})
		}
	}
}

// c09Makers: a new stream yields exactly the text it is made from
func c09Makers(p *Program, r *Report) {
	n := 0
	for _, fn := range p.funcs {
		if fn.Pkg != p.lib || fn.Parent() != nil {
			continue
		}
		sg := fn.Signature
		if fn.Blocks == nil || sg.Results().Len() != 1 || !p.isStream(sg.Results().At(0).Type()) || sg.Recv() != nil {
			continue
		}
		n++
		name, where := p.fname(fn), p.pos(fn.Pos())
		guarded(r, name, func() {
			x := newExec(p)
			x.deadline = r.entryDeadline()
			s := newState()
			var args []Val
			var text *VRope
			var front Lin
			hasFront, hasBase := false, false
			for _, prm := range fn.Params {
				switch t := prm.Type(); {
				case p.isStream(t):
					hasBase = true
					s.assumeLe(K(0), S(symE))
					s.ghost["q"] = VInt{K(0)}
					args = append(args, x.baseStream(s))
				case isRuneSlice(t):
					hasFront = true
					front = S(symB)
					s.assumeLe(front, K(0))
					args = append(args, VRope{p: []piece{{tape: tapeT, lo: front, hi: K(0)}}})
				case isString(t):
					s.assumeLe(K(0), S(symE))
					rp := VRope{p: []piece{{tape: tapeT, lo: K(0), hi: S(symE)}}}
					text = &rp
					args = append(args, VStr{id: internID("text"), key: "text", runes: &rp})
				default:
					unresolved("%s makes a stream from %s", name, t)
				}
			}
			outs := x.run(fn, []entry{{s, args, nil}})
			if len(outs) == 0 {
				r.fail("returns", name, where, "no return is reached")
			}
			for _, o := range outs {
				st := o.st
				v := x.resolve(st, o.ret)
				if text != nil && !hasBase {
					ok := false
					if pt, is := v.(VPtr); is && pt.path == "" && st.heap[pt.obj] != nil {
						obj := st.heap[pt.obj]
						ro := x.streamRolesOf(obj.typ)
						if ro.text >= 0 {
							tx, is1 := obj.f[ro.text].(VRope)
							c, is2 := obj.f[ro.cur].(VInt)
							ok = is1 && is2 && st.isWindow(st.normRope(tx), K(0), S(symE)) && st.eq(c.l, K(0))
						}
					}
					r.ob(ok, "made", name, where, func() string {
						return "the new stream does not start at the begin of exactly the given text: " + st.show(v) + "\n" + st.dump()
					})
					continue
				}
				if !hasBase {
					unresolved("%s makes a stream from nothing", name)
				}
				if !hasFront {
					front = K(0)
				}
				at, ok := x.streamPos(st, v)
				r.ob(ok && st.eq(at, front), "made", name, where, func() string {
					return "the new stream does not yield the chars put in front, then the stream underneath: " + x.showStream(st, v) + "\n" + st.dump()
				})
			}
			r.absorb(x, name)
		})
	}
	if n < 2 {
		unresolved("only %d functions that make streams found", n)
	}
}

// atJ tells states apart by whether the char at the arbitrary position is looked at
func (x *Exec) atJ(s *State, r VRope, idx Lin, input bool) []*State {
	r = s.normRope(r)
	if len(r.p) != 1 || (r.p[0].tape == tapeT) == input {
		return []*State{s}
	}
	return x.splitJ(s, r.p[0].lo.add(idx), input)
}

func (x *Exec) splitJ(s *State, at Lin, input bool) []*State {
	var out []*State
	for k := 0; k < 3; k++ {
		t := s.clone()
		switch k {
		case 0:
			t.assumeLt(at, S(symJ))
		case 1:
			t.assumeEq(at, S(symJ))
		case 2:
			t.assumeLt(S(symJ), at)
			if !input {
				t.flags["behind J"] = true
			}
		}
		if t.bot() {
			continue
		}
		if k == 1 {
			t.flags["J"] = true
			t.charAtJ(tapeT)
			if input {
				t.charAtJ("input")
			}
		}
		out = append(out, t)
	}
	return out
}

// charAtJ notes the char at the arbitrary position under that name
func (s *State) charAtJ(tape string) {
	c := s.charAt(tape, S(symJ))
	for _, m := range s.chars {
		if m.tape == tape && m.pos.eq(S(symJ)) {
			return
		}
	}
	if x, k, ok := c.single(); ok && k == 0 {
		s.chars = append(s.chars, charMemo{tape, S(symJ), x})
	}
}

// besides: a call that is given a part of a stream other than its text, cursor or stream underneath (and nothing else
// it could change them through) may change that part only
func (x *Exec) besides(s *State, f *ssa.Function, args []Val) ([]Out, bool) {
	if !x.p.inRepo(f) || len(f.FreeVars) > 0 {
		return nil, false
	}
	var hit []VPtr
	for _, a := range args {
		switch a := a.(type) {
		case VPtr:
			o := s.heap[a.obj]
			if o == nil || !types.Implements(types.NewPointer(o.typ), x.p.tStream) || a.path == "" {
				return nil, false
			}
			ro := x.streamRolesOf(o.typ)
			var i int
			fmt.Sscanf(a.path, ".%d", &i)
			if i == ro.inner || i == ro.pre || i == ro.cur || i == ro.text {
				return nil, false
			}
			hit = append(hit, a)
		case VInt, VRope, VStr, *VBool, VNil:
		default:
			return nil, false
		}
	}
	if len(hit) == 0 {
		return nil, false
	}
	for _, a := range hit {
		var i int
		fmt.Sscanf(a.path, ".%d", &i)
		o := s.wobj(a.obj)
		o.f[i] = x.sym(s, fieldTypeOf(o.typ, i), "")
	}
	return []Out{{s, x.havocResult(s, f.Signature)}}, true
}

func fieldTypeOf(t types.Type, i int) types.Type {
	return t.Underlying().(*types.Struct).Field(i).Type()
}

// readAtJ tells states apart by whether a stream underneath yields the char at the arbitrary position
func (x *Exec) readAtJ(s *State, in ssa.CallInstruction, recv Val, m string, args []Val) ([]Out, bool) {
	if !x.p.isStream(in.Common().Value.Type()) || m != "Peek" && m != "Next" {
		return nil, false
	}
	at, ok := x.streamPos(s, recv)
	if !ok {
		return nil, false
	}
	var out []Out
	for _, t := range x.splitJ(s, at, false) {
		out = append(out, x.streamCall(t, in, m, recv, args)...)
	}
	return out, true
}

func (x *Exec) streamSpec(r *Report, m string, fn *ssa.Function, ro streamRoles, e entry, o Out) {
	p := x.p
	name, where := p.fname(fn), p.pos(fn.Pos())
	s := o.st
	recv := s.ghost["recv"].(VPtr)
	obj := s.heap[recv.obj]
	pos := K(0)
	var after Lin
	ok := true
	if ro.text >= 0 {
		c, isI := obj.f[ro.cur].(VInt)
		ok = isI
		after = c.l.add(S(symB))
		tx, isR := obj.f[ro.text].(VRope)
		r.ob(isR && s.isWindow(s.normRope(tx), S(symB), S(symE)), "text kept", name, where, func() string {
			return "the text of the stream is changed: " + s.show(obj.f[ro.text])
		})
	} else {
		after, ok = x.streamPos(s, recv)
	}
	if !r.ob(ok, "position", name, where, func() string { return "where the stream is afterwards is not known\n" + s.dump() }) {
		return
	}
	if ro.text >= 0 {
		r.ob(s.le(S(symB), after) && s.le(after, S(symE)), "position", name, where, func() string { return "the stream may be outside of its text\n" + s.dump() })
	}
	expect := func(rule string, c bool, f string, a ...interface{}) {
		r.ob(c, rule, name, where, func() string { return fmt.Sprintf(f, a...) + "\n" + s.dump() })
	}
	r.sample("%s: from %s to %s returns %s", name, pos, after, s.show(o.ret))
	stays := func() { expect("moves", s.eq(after, pos), "the stream moves from %s to %s", pos, after) }
	switch m {
	case "Cursor":
		v, ok := o.ret.(VInt)
		at := S(symB).neg()
		if ro.text < 0 {
			at = K(0) // the stream underneath counts from here
		}
		expect("cursor", ok && s.eq(v.l, at), "the cursor is given as %s, the stream is at %s", s.show(o.ret), at)
		stays()
	case "Next", "Peek":
		v, ok := o.ret.(VInt)
		switch {
		case ok && s.le(S(symE), pos):
			expect("end", s.eq(v.l, K(p.eofChar)), "at the end of the text %s is returned", s.show(o.ret))
			stays()
		case ok && s.lt(pos, S(symE)):
			expect("char", s.eq(v.l, s.charAt(tapeT, pos)), "the char returned is %s, the next char is %s", s.show(o.ret), s.charAt(tapeT, pos))
			if m == "Peek" {
				stays()
			} else {
				expect("moves", s.eq(after, pos.addc(1)), "the stream moves from %s to %s", pos, after)
			}
		default:
			expect("end", false, "what is returned does not depend on whether the text is at its end: %s", s.show(o.ret))
		}
	case "SkipSpaces":
		v, ok := o.ret.(VRope)
		expect("skipped", ok && s.isWindow(s.normRope(v), pos, after), "the chars returned are %s, the stream moved from %s to %s", s.show(o.ret), pos, after)
		if !s.le(after, S(symJ)) { // J may be among them
			t := s.clone()
			t.assumeLt(S(symJ), after)
			w, known := t.predTruth("white", t.charAt(tapeT, S(symJ)))
			expect("white", t.bot() || known && w, "a char that is passed over may not be white space")
		}
		if !s.le(S(symE), after) {
			t := s.clone()
			t.assumeLt(after, S(symE))
			w, known := t.predTruth("white", t.charAt(tapeT, after))
			expect("all", t.bot() || known && !w, "a white space may be left")
		}
	case "Match":
		tp, ok := o.ret.(VTuple)
		if !ok || len(tp.v) != 2 {
			expect("matched", false, "unknown result %s", s.show(o.ret))
			return
		}
		v, ok := tp.v[0].(VRope)
		want := s.normRope(e.args[1].(VRope))
		n := want.length()
		expect("matched", ok && s.isWindow(s.normRope(v), pos, after), "the chars returned are %s, the stream moved from %s to %s", s.show(tp.v[0]), pos, after)
		b, _ := tp.v[1].(*VBool)
		yes, known := false, false
		if b != nil {
			yes, known = s.truthOf(b)
		}
		if !known {
			expect("says", false, "whether it matched is not known: %s", s.show(tp.v[1]))
			return
		}
		if yes {
			expect("length", s.eq(after, pos.add(n)), "a match moves from %s to %s, the wanted text has %s chars", pos, after, n)
			t := s.clone()
			t.assumeLt(S(symJ), n)
			if !t.bot() {
				a, c := t.charAt(tapeT, pos.add(S(symJ))), t.charAt("input", S(symJ))
				expect("same", t.eq(a, c), "a match is reported without comparing a char of the wanted text")
			}
			return
		}
		expect("length", s.le(after, pos.add(n)), "a failed match moves from %s to %s, the wanted text has %s chars", pos, after, n)
		if s.lt(S(symE), pos.add(n)) {
			return // the text is too short
		}
		t := s.clone()
		t.assumeLt(after, S(symE))
		if !t.bot() {
			// the text goes on: the last char read must differ
			last := after.addc(-1)
			t2 := t.clone()
			t2.assumeLe(after, pos)
			expect("differs", t2.bot(), "a failed match read nothing")
			a, c := t.charAt(tapeT, last), t.charAt("input", last.sub(pos))
			expect("differs", t.ne(a, c), "a match is denied although no char differs")
		}
		u := s.clone()
		u.assumeLe(S(symE), after)
		if !u.bot() {
			last := after.addc(-1)
			a, c := u.charAt(tapeT, last), u.charAt("input", last.sub(pos))
			expect("differs", u.lt(after, pos.add(n)) || u.lt(pos, after) && u.ne(a, c), "a match is denied although no char differs and the text is long enough")
		}
	}
}

func init() {
	register(&check{id: "C09", level: "proof", run: c09,
		rule:  "for every implementation of ICharstream, every state it may be in and every path: Next, Peek, SkipSpaces, Match and Cursor do to the position of the stream and return what the contract says; functions that make streams make them yield exactly the given text",
		trust: []string{"go/packages, go/types and go/ssa give the meaning of the source", "one operation at a time (property C10)", "text is not changed by others (property C11)", "chars put in front of a stream are those just before its position (shown at every use by C01)"}})
}
