package main

// The contract of ICharstream and of IRule.Eval, as the abstract interpreter uses them.
//
// The text is the tape "T". The stream a function is given (or makes) has its cursor in ghost "q"; the end of the text
// is the symbol E. Positions count from where the stream was when the function under analysis was entered.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const tapeT = "T"

// childKey: the nodes of the children that matched, in order
const childKey = "child"

// spanKey: nodes that cover a stretch of the text, in order
const spanKey = "span"

// endKey, witnessKey: a node known by where its match ends
const (
	endKey     = "match"
	witnessKey = "witness match"
)

// placeKey: where a char of the text is, as a line and column
const placeKey = "position"

// isChild: a node whose index is followed
func isChild(key string) bool {
	return key == childKey+"[]" || key == spanKey+"[]" || key == endKey+"[]" || key == witnessKey+"[]" || key == placeKey+"[]"
}

var symE = globalSym("E")

// baseStream is the value of the stream a function works on
func (x *Exec) baseStream(s *State) Val {
	o := VOpq{id: internID("stream"), key: "stream", typ: x.p.nStream}
	s.nilf[o.id] = false
	if s.ghost["q"] == nil {
		s.ghost["q"] = VInt{K(0)}
		s.assumeLe(K(0), S(symE))
	}
	return o
}

// wrapRoles finds the fields of a stream that puts chars in front of another one
func (x *Exec) wrapRoles(t types.Type) (inner, pre, cur int, ok bool) {
	st, isS := t.Underlying().(*types.Struct)
	if !isS || !types.Implements(types.NewPointer(t), x.p.tStream) {
		return
	}
	inner, pre, cur = -1, -1, -1
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		switch {
		case x.p.isStream(ft):
			if inner >= 0 {
				return
			}
			inner = i
		case isRuneSlice(ft):
			if pre >= 0 {
				return
			}
			pre = i
		default:
			if b, isB := ft.Underlying().(*types.Basic); isB && b.Kind() == types.Int {
				if cur >= 0 {
					return
				}
				cur = i
			}
		}
	}
	ok = inner >= 0 && pre >= 0 && cur >= 0
	return
}

// isWrap tells whether a value is a wrapper object
func (x *Exec) isWrap(s *State, v Val) (*Obj, bool) {
	p, ok := v.(VPtr)
	if !ok || p.path != "" || s.heap[p.obj] == nil {
		return nil, false
	}
	_, _, _, ok = x.wrapRoles(s.heap[p.obj].typ)
	return s.heap[p.obj], ok
}

// streamPos returns the logical position of a stream. ok is false if the chars a wrapper puts in front are not the ones
// just before the position of the stream below it.
func (x *Exec) streamPos(s *State, v Val) (Lin, bool) {
	if o, ok := v.(VOpq); ok && o.key == "stream" {
		return s.ghost["q"].(VInt).l, true
	}
	o, ok := x.isWrap(s, v)
	if !ok {
		return K(0), false
	}
	inner, pre, cur, _ := x.wrapRoles(o.typ)
	r, ok := o.f[pre].(VRope)
	if !ok {
		return K(0), false
	}
	b, ok := x.streamPos(s, x.resolve(s, o.f[inner]))
	if !ok {
		return b, false
	}
	r = s.normRope(r)
	if len(r.p) == 0 {
		return b, true
	}
	c, ok := o.f[cur].(VInt)
	if !ok {
		return K(0), false
	}
	if s.eq(c.l, r.length()) {
		return b, true
	}
	if len(r.p) != 1 || r.p[0].tape != tapeT || !s.eq(r.p[0].hi, b) {
		return K(0), false
	}
	return r.p[0].lo.add(c.l), true
}

func (x *Exec) resolve(s *State, v Val) Val {
	if o, ok := v.(VOpq); ok {
		if m, ok := s.mat[o.id]; ok {
			return VPtr{obj: m}
		}
	}
	return v
}

// unwrapAll replaces wrappers with nothing left in front by what they wrap
// anyBool is a truth value nothing is remembered about
var anyBool = &VBool{op: 'a', id: internID("any"), key: "any"}

// onlySticky: a truth value that only ends up in fields named like that of results
func (x *Exec) onlySticky(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			if !x.onlySticky(in, seen) {
				return false
			}
		case *ssa.Store:
			fa, ok := in.Addr.(*ssa.FieldAddr)
			if !ok || in.Val != v {
				return false
			}
			st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !ok || st.Field(fa.Field).Name() != "Sticky" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (x *Exec) unwrapAll(s *State) {
	if x.dull {
		for _, f := range s.frames {
			for k, v := range f.regs {
				if b, ok := v.(*VBool); ok && b != anyBool && x.onlySticky(k, map[ssa.Value]bool{}) {
					f.regs[k] = anyBool
				}
			}
		}
	}
	x.flatten(s)
	sub := map[int]Val{}
	for id, o := range s.heap {
		if o.summary || o.symb {
			continue
		}
		inner, pre, cur, ok := x.wrapRoles(o.typ)
		if !ok {
			continue
		}
		r, ok1 := o.f[pre].(VRope)
		c, ok2 := o.f[cur].(VInt)
		if !ok1 || !ok2 || !s.eq(c.l, r.length()) {
			continue
		}
		in := x.resolve(s, o.f[inner])
		if _, w := x.isWrap(s, in); !w {
			if op, ok := in.(VOpq); !ok || op.key != "stream" {
				continue
			}
		}
		sub[id] = in
	}
	if len(sub) == 0 {
		return
	}
	var rep func(v Val) Val
	rep = func(v Val) Val {
		for {
			p, ok := v.(VPtr)
			if !ok || p.path != "" || sub[p.obj] == nil {
				return v
			}
			v = sub[p.obj]
		}
	}
	for _, f := range s.frames {
		for k, v := range f.regs {
			if _, ok := v.(VPtr); ok {
				if _, alloc := k.(*ssa.Alloc); !alloc {
					f.regs[k] = rep(v)
				}
			}
		}
	}
	for id, o := range s.heap {
		for i, v := range o.f {
			if p, ok := v.(VPtr); ok && p.path == "" && sub[p.obj] != nil {
				s.wobj(id).f[i] = rep(v)
			}
		}
	}
}

// flatten replaces a wrapper around a wrapper that nobody else holds by one wrapper
func (x *Exec) flatten(s *State) {
	var ids []int
	for id, o := range s.heap {
		if _, _, _, ok := x.wrapRoles(o.typ); ok && !o.summary && !o.symb {
			ids = append(ids, id)
		}
	}
	if x.spans {
		// chars already taken from the front do not matter any more
		for _, id := range ids {
			o := s.heap[id]
			_, pre, cur, _ := x.wrapRoles(o.typ)
			r, ok1 := o.f[pre].(VRope)
			c, ok2 := o.f[cur].(VInt)
			if r = s.normRope(r); ok1 && ok2 && len(r.p) == 1 && r.p[0].tape == tapeT && !s.eq(c.l, K(0)) {
				w := s.wobj(id)
				w.f[pre] = VRope{p: []piece{{tape: tapeT, lo: r.p[0].lo.add(c.l), hi: r.p[0].hi}}}
				w.f[cur] = VInt{K(0)}
			}
		}
	}
	if len(ids) < 2 {
		return
	}
	sort.Ints(ids)
	held := func(id int) (n int) {
		x.everyVal(s, func(v Val) Val {
			if p, ok := v.(VPtr); ok && p.obj == id {
				n++
			}
			return v
		})
		return
	}
	for again := true; again; {
		again = false
		for _, id := range ids {
			o := s.heap[id]
			inner, pre, cur, _ := x.wrapRoles(o.typ)
			p, ok := x.resolve(s, o.f[inner]).(VPtr)
			if !ok || p.path != "" || s.heap[p.obj] == nil || !types.Identical(s.heap[p.obj].typ, o.typ) || held(p.obj) != 1 {
				continue
			}
			i := s.heap[p.obj]
			if i.summary || i.symb {
				continue
			}
			a, ok1 := o.f[pre].(VRope)
			b, ok2 := i.f[pre].(VRope)
			c, ok3 := i.f[cur].(VInt)
			if !ok1 || !ok2 || !ok3 {
				continue
			}
			a, b = s.normRope(a), s.normRope(b)
			if len(a.p) != 1 || len(b.p) != 1 || a.p[0].tape != tapeT || b.p[0].tape != tapeT || !s.eq(a.p[0].hi, b.p[0].lo.add(c.l)) {
				continue
			}
			w := s.wobj(id)
			w.f[pre] = VRope{p: []piece{{tape: tapeT, lo: a.p[0].lo, hi: b.p[0].hi}}}
			w.f[inner] = i.f[inner]
			delete(s.heap, p.obj)
			again = true
			break
		}
		if again {
			var left []int
			for _, id := range ids {
				if s.heap[id] != nil {
					left = append(left, id)
				}
			}
			ids = left
		}
	}
}

// advance moves a stream to a logical position at or behind the current one
func (x *Exec) advance(s *State, v Val, to Lin) []*State {
	if o, ok := v.(VOpq); ok && o.key == "stream" {
		s.ghost["q"] = VInt{to}
		return []*State{s}
	}
	p := v.(VPtr)
	o := s.heap[p.obj]
	inner, pre, cur, _ := x.wrapRoles(o.typ)
	in := x.resolve(s, o.f[inner])
	r := s.normRope(o.f[pre].(VRope))
	if len(r.p) == 0 {
		return x.advance(s, in, to)
	}
	lo, hi := r.p[0].lo, r.p[0].hi
	if c, ok := o.f[cur].(VInt); ok && s.eq(lo.add(c.l), hi) {
		return x.advance(s, in, to)
	}
	var out []*State
	// within the chars in front, exactly to their end, or beyond
	if !s.le(hi, to) {
		t := s.clone()
		t.assumeLt(to, hi)
		if !t.bot() {
			t.wobj(p.obj).f[cur] = VInt{to.sub(lo)}
			out = append(out, t)
		}
	}
	used := func(t *State) {
		// nothing is left in front: the same as an empty text in front
		t.wobj(p.obj).f[cur] = VInt{K(0)}
		t.wobj(p.obj).f[pre] = VRope{}
	}
	if !s.lt(hi, to) && !s.lt(to, hi) {
		t := s.clone()
		t.assumeEq(to, hi)
		if !t.bot() {
			used(t)
			out = append(out, t)
		}
	}
	if !s.le(to, hi) {
		s.assumeLt(hi, to)
		if !s.bot() {
			used(s)
			out = append(out, x.advance(s, in, to)...)
		}
	}
	return out
}

// badStream is reported through the stale hook: what a stream yields is not the text that follows
func (x *Exec) badStream(s *State, in ssa.Instruction, recv Val) {
	if x.h.stale != nil {
		x.h.stale(x, s, in, "the chars put in front of the stream cannot be shown to be the ones just before its position: "+x.showStream(s, recv))
	} else {
		x.note(in, "stream %s", s.show(recv))
	}
}

func (x *Exec) showStream(s *State, v Val) string {
	if o, ok := x.isWrap(s, v); ok {
		inner, pre, cur, _ := x.wrapRoles(o.typ)
		return fmt.Sprintf("prepend %s from %s before %s", s.show(o.f[pre]), s.show(o.f[cur]), x.showStream(s, x.resolve(s, o.f[inner])))
	}
	if o, ok := v.(VOpq); ok && o.key == "stream" {
		return "stream at " + s.show(s.ghost["q"])
	}
	return s.show(v)
}

func (x *Exec) placeKey() string {
	if x.places {
		return placeKey + "[]"
	}
	return placeKey
}

// unknownPos gives up on a stream: it is at some position
func (x *Exec) unknownPos(s *State) Lin {
	n := freshSym()
	s.assumeLe(K(0), S(n))
	s.assumeLe(S(n), S(symE))
	return S(n)
}

func (x *Exec) streamCall(s *State, in ssa.CallInstruction, m string, recv Val, args []Val) []Out {
	sig := in.Common().Signature()
	pos, ok := x.streamPos(s, recv)
	if !ok {
		x.badStream(s, in, recv)
		s.ghost["q"] = VInt{x.unknownPos(s)}
		return []Out{{s, x.havocResult(s, sig)}}
	}
	s.assumeLe(pos, S(symE))
	if s.bot() {
		return nil
	}
	done := func(st *State, m string, after Lin, v Val) Out {
		if x.h.streamOp != nil {
			x.h.streamOp(x, st, in, m, pos, after, v)
		}
		return Out{st, v}
	}
	// split on the end of the text
	atEnd := func() (end, more *State) {
		end = s.clone()
		more = s
		end.assumeEq(pos, S(symE))
		more.assumeLt(pos, S(symE))
		if end.bot() {
			end = nil
		}
		if more.bot() {
			more = nil
		}
		return
	}
	var out []Out
	switch m {
	case "Peek", "Next":
		end, more := atEnd()
		if end != nil {
			out = append(out, done(end, m, pos, VInt{K(x.p.eofChar)}))
		}
		if more != nil {
			c := VInt{more.charAt(tapeT, pos)}
			if m == "Peek" {
				out = append(out, done(more, m, pos, c))
			} else {
				for _, t := range x.advance(more, recv, pos.addc(1)) {
					out = append(out, done(t, m, pos.addc(1), c))
				}
			}
		}
	case "SkipSpaces":
		skips := []stateTo{{s, S(freshSym())}}
		if x.h.skipTo != nil {
			if l := x.h.skipTo(x, s, pos); l != nil {
				skips = l
			}
		}
		for _, k := range skips {
			s, n := k.s, k.to
			s.assumeLe(pos, n)
			s.assumeLe(n, S(symE))
			s.white(pos, n)
			end := s.clone()
			end.assumeEq(n, S(symE))
			s.assumeLt(n, S(symE))
			for _, t := range []*State{end, s} {
				if t.bot() {
					continue
				}
				if t == s {
					c := t.charAt(tapeT, n)
					t.preds = append(t.preds, predFact{"white", c, false})
				}
				r := t.normRope(VRope{p: []piece{{tape: tapeT, lo: pos, hi: n}}})
				if len(r.p) == 0 {
					r.isNil = true
				}
				for _, u := range x.advance(t, recv, n) {
					out = append(out, done(u, m, n, r))
				}
			}
		}
	case "Match":
		want, ok := args[0].(VRope)
		if !ok {
			x.bad(in, "Match of unknown text")
			return []Out{{s, x.havocResult(s, sig)}}
		}
		want = s.normRope(want)
		ln := want.length()
		// success: the next chars are the wanted ones
		hit := s.clone()
		to := pos.add(ln)
		hit.assumeLe(to, S(symE))
		if !hit.bot() {
			hit.addEq(want, pos)
			for _, t := range x.advance(hit, recv, to) {
				out = append(out, done(t, m, to, VTuple{[]Val{t.normRope(VRope{isNil: true, p: []piece{{tape: tapeT, lo: pos, hi: to}}}), bT}}))
			}
		}
		// failure: some chars were read, at most as many as wanted
		s.assumeLt(K(0), ln)
		if !s.bot() {
			n := freshSym()
			s.assumeLe(pos, S(n))
			s.assumeLe(S(n), S(symE))
			s.assumeLe(S(n), to)
			x.mismatch(s, want, pos)
			states := []*State{s}
			if x.precise && len(want.p) == 1 && want.p[0].tape != "" {
				// the text ends, or the last char read differs
				e := s.clone()
				e.assumeEq(S(n), S(symE))
				e.assumeLt(S(n), to)
				ends := freshSym() // the char of the rule that would follow
				e.assumeLe(want.p[0].lo, S(ends))
				e.assumeLt(S(ends), want.p[0].hi)
				off := VInt{pos.sub(want.p[0].lo)}
				e.ghost["differs"] = VTuple{[]Val{VInt{S(n)}, VInt{S(ends)}, off}}
				s.assumeLt(pos, S(n))
				a, b := S(n).addc(-1), S(freshSym())
				s.assumeLe(want.p[0].lo, b)
				s.assumeLt(b, want.p[0].hi)
				if !s.bot() {
					s.assumeNe(s.charAt(tapeT, a), s.charAt(want.p[0].tape, b))
				}
				s.ghost["differs"] = VTuple{[]Val{VInt{a}, VInt{b}, off}}
				states = []*State{e, s}
			}
			for _, s := range states {
				if s.bot() {
					continue
				}
				for _, t := range x.advance(s, recv, S(n)) {
					out = append(out, done(t, m, S(n), VTuple{[]Val{t.normRope(VRope{isNil: true, p: []piece{{tape: tapeT, lo: pos, hi: S(n)}}}), bF}}))
				}
			}
		}
	case "Cursor":
		out = append(out, done(s, m, pos, VInt{pos}))
	case "Position":
		end, more := atEnd()
		if end != nil {
			out = append(out, done(end, m, pos, VNil{}))
		}
		if more != nil {
			i := pos
			v := VOpq{id: freshID(), key: x.placeKey(), idx: &i, typ: sig.Results().At(0).Type()}
			more.nilf[v.id] = false
			out = append(out, done(more, m, pos, v))
		}
	case "PositionLookup":
		a, ok := args[0].(VInt)
		if !ok {
			a = VInt{S(freshSym())}
		}
		i := a.l
		v := VOpq{id: freshID(), key: x.placeKey(), idx: &i, typ: sig.Results().At(0).Type()}
		if x.places {
			s.nilf[v.id] = false
		}
		out = append(out, done(s, m, pos, v))
	default:
		x.bad(in, "ICharstream.%s is not modelled", m)
		out = append(out, Out{s, x.havocResult(s, sig)})
	}
	return out
}

// white notes that all chars of a stretch of the text are white space
func (s *State) white(lo, hi Lin) {
	if s.eq(lo, hi) {
		return
	}
	s.whites = append(s.whites, span{lo, hi})
}

// addEq notes that the text at a position is what a rope holds
func (s *State) addEq(r VRope, at Lin) {
	off := at
	for _, p := range r.p {
		n := p.length()
		if p.tape == "" {
			s.assumeEq(s.charAt(tapeT, off), p.ch)
		} else if p.tape != "?" {
			s.eqs = append(s.eqs, eqFact{tapeT, p.tape, off, p.lo, n})
		}
		off = off.add(n)
	}
}

// mismatch: the text at a position is not what a rope holds
func (x *Exec) mismatch(s *State, r VRope, at Lin) {
	if len(r.p) == 1 && r.p[0].tape == "" {
		// a single char: the text ends or another char follows
		if s.lt(at, S(symE)) {
			s.assumeNe(s.charAt(tapeT, at), r.p[0].ch)
		}
	}
}

// child rules

// newResult makes the object a child evaluation returns
func (x *Exec) newResult(s *State) int {
	return s.alloc(&Obj{typ: x.p.tResult, symb: true, f: make([]Val, nfields(x.p.tResult))})
}

func (x *Exec) childEval(s *State, in ssa.CallInstruction, recv Val, args []Val) []Out {
	// grammar, stream, flag: found by type
	var cs, flag Val
	sig := in.Common().Signature()
	for i, a := range args {
		t := sig.Params().At(i).Type()
		switch {
		case x.p.isStream(t):
			cs = a
		default:
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				flag = a
			}
		}
	}
	return x.childOn(s, in, recv, cs, flag)
}

func (x *Exec) childOn(s *State, in ssa.CallInstruction, recv, cs, flag Val) []Out {
	from, ok := K(0), true
	if !x.loose {
		from, ok = x.streamPos(s, cs)
	}
	if !ok {
		x.badStream(s, in, cs)
		from = x.unknownPos(s)
		s.ghost["q"] = VInt{x.unknownPos(s)}
	}
	x.pruneForCall(s, in)
	s.assumeLe(from, S(symE))
	if s.bot() {
		return nil
	}
	var outs []Out
	for _, match := range []bool{true, false} {
		st := s.clone()
		to := S(freshSym())
		st.assumeLe(from, to)
		st.assumeLe(to, S(symE))
		var states []*State
		if ok && !x.loose {
			states = x.advance(st, cs, to)
		} else {
			states = []*State{st}
		}
		var none []bool // the match uses no char
		if x.track && match {
			var both []*State
			for _, t := range states {
				both = append(both, t.clone(), t)
				none = append(none, true, false)
			}
			states = both
		}
		for i, t := range states {
			if t.bot() {
				continue
			}
			id := x.newResult(t)
			o := t.wobj(id)
			read := t.normRope(VRope{p: []piece{{tape: tapeT, lo: from, hi: to}}})
			e := evalOut{res: id, from: from, to: to, match: match, recv: recv, flag: flag, stream: cs}
			if match {
				used := S(freshSym())
				t.assumeLe(from, used)
				t.assumeLe(used, to)
				switch {
				case x.spans, x.ends:
					key := spanKey
					if x.ends {
						key = endKey
					}
					o := VOpq{id: freshID(), key: key + "[]", idx: &used, typ: types.NewPointer(x.p.tNode)}
					t.nilf[o.id] = false
					e.node = o
				case x.track:
					if none[i] {
						used = from
					} else {
						t.assumeLt(from, used)
					}
					if t.bot() {
						continue
					}
					n := t.ghost["n"].(VInt).l
					o := VOpq{id: freshID(), key: childKey + "[]", idx: &n, typ: types.NewPointer(x.p.tNode)}
					t.nilf[o.id] = false
					e.node = o
				default:
					e.node = VPtr{obj: t.alloc(&Obj{typ: x.p.tNode, symb: true, f: make([]Val, nfields(x.p.tNode)), tag: "childnode"})}
				}
				e.used = used
				o.f[x.p.fRead] = read
				o.f[x.p.fUnused] = t.normRope(VRope{p: []piece{{tape: tapeT, lo: used, hi: to}}})
				o.f[x.p.fNode] = e.node
				er := VOpq{id: freshID(), key: "child error", typ: errorType}
				o.f[x.p.fErr] = er
			} else {
				e.used = from
				e.node = VNil{}
				o.f[x.p.fRead] = read
				o.f[x.p.fUnused] = read
				o.f[x.p.fNode] = VNil{}
				o.f[x.p.fErr] = x.nonNil(t, errorType, "child error")
			}
			o.f[x.p.fErrIdx] = VInt{S(freshSym())}
			o.f[x.p.fSticky] = &VBool{op: 'a', id: freshID(), key: "child sticky"}
			if x.dull {
				o.f[x.p.fSticky] = anyBool
			}
			if x.h.evalCall != nil {
				x.h.evalCall(x, t, in, recv, cs, flag, &e)
			}
			each := []*State{t}
			if x.h.fork != nil {
				each = x.h.fork(x, t, &e)
			}
			for _, t := range each {
				if !t.bot() {
					outs = append(outs, Out{t, VPtr{obj: id}})
				}
			}
		}
	}
	return outs
}

var errorType = types.Universe.Lookup("error").Type()
