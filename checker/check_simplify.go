package main

// C14, C15, C16: what the simplification of a tree does.
//
// Each pass goes over the children of a node. A list made from the first k of them is followed as
// "what the pass makes of the children up to k"; the recursive call is taken by the same contract.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const workedKey = "what is made of the children of a child"
const textKey = "text of children" // the texts of the children, one after another

// simplifier follows one pass over the children of a node
type simplifier struct {
	p       *Program
	r       *Report
	x       *Exec
	name    string
	where   string
	method  string // name of the pass
	key     string // the children
	recv    types.Type
	field   int // of the receiver, that holds the children
	heads   map[string]*ssa.BasicBlock
	finish  func(s *State, e int, k Lin) bool // the child of object e at k is dealt with
	grown   map[string]bool
	last    func(s *State) Val                                                 // the last node of the list, if the pass leaves none out
	touched func(s *State, in ssa.Instruction, obj int, field int, v Val) bool // a store that is part of the pass
}

// child finds the object of the child at k
func (m *simplifier) child(s *State, k Lin) (int, bool) {
	for id, o := range s.heap {
		if o.symIdx != nil && o.tag == "elem:"+m.key+"[]" && s.eq(*o.symIdx, k) {
			return id, true
		}
	}
	return 0, false
}

func (m *simplifier) isChild(s *State, v Val) (id int, k Lin, ok bool) {
	v = m.x.resolve(s, v)
	if o, isOpq := v.(VOpq); isOpq {
		if _, isPtr := o.typ.Underlying().(*types.Pointer); !isPtr {
			return
		}
		v, _ = m.x.deref(s, nil, o)
	}
	p, isPtr := v.(VPtr)
	if !isPtr || p.path != "" || s.heap[p.obj] == nil {
		return
	}
	o := s.heap[p.obj]
	if o.symIdx == nil || o.tag != "elem:"+m.key+"[]" {
		return
	}
	return p.obj, *o.symIdx, true
}

// lists rewrites all lists of nodes that stand for the children up to k
func (m *simplifier) lists(s *State, from, to Lin, f func(p part) bool) {
	fix := func(v Val, t types.Type) (Val, bool) {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok || !isPtrTo(sl.Elem(), m.p.tNode) {
			return nil, false
		}
		l, ok := v.(VList)
		if !ok {
			return nil, false
		}
		if len(l.p) == 0 && s.eq(from, K(0)) {
			return VList{p: []part{{kind: 'w', key: spanKey, v: VTop{sl.Elem()}, lo: K(0), hi: to}}}, true
		}
		if len(l.p) == 1 && l.p[0].kind == 'w' && l.p[0].key == spanKey && s.eq(l.p[0].hi, from) && (f == nil || f(l.p[0])) {
			q := l.p[0]
			q.hi = to
			return VList{p: []part{q}}, true
		}
		return nil, false
	}
	for _, fr := range s.frames {
		for k, v := range fr.regs {
			if n, ok := fix(v, k.Type()); ok {
				fr.regs[k] = n
			}
		}
	}
	for id, o := range s.heap {
		if len(o.f) == 1 && !isAgg(o.typ) { // a cell
			if n, ok := fix(o.f[0], o.typ); ok {
				s.wobj(id).f[0] = n
			}
		}
	}
}

// end deals with the child that was being worked on
func (m *simplifier) end(s *State) {
	v, ok := s.ghost["at"].(VInt)
	if !ok {
		return
	}
	delete(s.ghost, "at")
	for f := range s.flags {
		if strings.HasPrefix(f, "loop ") {
			delete(s.flags, f)
		}
	}
	e, ok := m.child(s, v.l)
	if !ok {
		m.r.ob(false, "child", m.name, m.where, func() string { return "what became of a child is not known" })
		return
	}
	done := s.ghost["done"].(VInt).l
	m.r.ob(s.eq(done, v.l), "order", m.name, m.where, func() string {
		return fmt.Sprintf("child %s is dealt with after %s children", v.l, done)
	})
	m.finish(s, e, v.l)
	s.ghost["done"] = VInt{v.l.addc(1)}
	delete(s.ghost, "flag")
	delete(s.ghost, "child")
	delete(s.flags, "recursed")
}

func (m *simplifier) setup() {
	p, x := m.p, m.x
	x.spans = true
	x.spanFn = m.span
	x.lenFn = m.length
	x.h.elemLoad = func(x *Exec, s *State, in ssa.Instruction, seq Val, idx Lin, v Val) []Out {
		o, ok := v.(VOpq)
		if ok && o.key == spanKey+"[]" && o.idx != nil {
			return m.listElem(s, in, o)
		}
		if !ok || o.key != m.key+"[]" || o.idx == nil {
			return nil
		}
		if at, ok := s.ghost["at"].(VInt); ok {
			if s.eq(at.l, idx) {
				return nil
			}
			m.end(s)
		}
		if done := s.ghost["done"].(VInt).l; !s.eq(done, idx) {
			if s.lt(idx, done) { // looked at again
				return nil
			}
			m.r.ob(false, "order", m.name, p.where(in), func() string {
				return fmt.Sprintf("child %s is reached after %s children were dealt with\n%s", idx, done, s.dump())
			})
		}
		s.nilf[o.id] = false
		pt, _ := x.deref(s, in, o)
		s.ghost["at"] = VInt{idx}
		s.ghost["child"] = pt
		s.ghost["flag"] = x.loadPtr(s, in, VPtr{pt.obj, fmt.Sprintf(".%d", m.field)}, types.Typ[types.Bool])
		fn := in.Parent()
		info := p.info(fn)
		var best *ssa.BasicBlock
		for h, body := range info.loopOf {
			if body[in.Block()] && (best == nil || len(body) < len(info.loopOf[best])) {
				best = h
			}
		}
		if best != nil {
			s.flags[fmt.Sprintf("loop %s %d", fn.String(), best.Index)] = true
		}
		return []Out{{s, pt}}
	}
	x.h.arrive = func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock) {
		if s.flags[fmt.Sprintf("loop %s %d", fn.String(), head.Index)] {
			m.end(s)
		}
	}
	pass := p.method(types.NewPointer(p.tNode), m.method)
	text := p.method(types.NewPointer(p.tNode), "Text")
	root := x.h.call
	x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
		if root != nil {
			if o, ok := root(x, s, in, fn, args); ok {
				return o, true
			}
		}
		if fn == pass && len(args) == 1 && len(x.stack) > 0 {
			if _, k, ok := m.isChild(s, args[0]); ok {
				at, isAt := s.ghost["at"].(VInt)
				m.r.ob(isAt && s.eq(at.l, k), "recursion", m.name, p.where(in), func() string { return "the pass is made on another child than the one at hand" })
				s.flags["recursed"] = true
				return []Out{{s, nil}}, true
			}
			if pt, ok := x.resolve(s, args[0]).(VPtr); ok && s.heap[pt.obj] != nil && s.heap[pt.obj].tag == "elem:"+spanKey+"[]" && s.heap[pt.obj].symIdx != nil {
				seen := s.ghost["seen"].(VInt).l
				m.r.ob(s.eq(seen, *s.heap[pt.obj].symIdx), "recursion", m.name, p.where(in), func() string { return "the pass is not made on the nodes kept one by one" })
				s.ghost["seen"] = VInt{seen.addc(1)}
				return []Out{{s, nil}}, true
			}
			if x.inStack(fn) {
				m.r.ob(false, "recursion", m.name, p.where(in), func() string { return "the pass is made on " + s.show(args[0]) })
				return []Out{{s, nil}}, true
			}
		}
		if x.inStack(fn) && len(args) == 1 && fn.Signature.Recv() == nil && fn.Signature.Results().Len() == 1 && types.Identical(fn.Signature.Params().At(0).Type(), fn.Signature.Results().At(0).Type()) {
			// the pass is made on the children of the child at hand
			if c, ok := s.ghost["child"].(VPtr); ok {
				a, ok1 := args[0].(VList)
				b, ok2 := s.heap[c.obj].f[p.nKids].(VList)
				if ok1 && ok2 && len(a.p) == 1 && len(b.p) == 1 && a.p[0].kind == b.p[0].kind && a.p[0].id == b.p[0].id && a.p[0].id != 0 && s.eq(a.length(), b.length()) {
					return []Out{{s, VList{p: []part{{kind: 'w', key: workedKey, id: a.p[0].id, v: a.p[0].v, lo: K(0), hi: S(freshSym())}}}}}, true
				}
			}
		}
		if fn == text && len(args) == 1 {
			if id, k, ok := m.isChild(s, args[0]); ok {
				return []Out{{s, m.textOf(s, id, k)}}, true
			}
		}
		return nil, false
	}
	x.h.store = func(x *Exec, s *State, in ssa.Instruction, ptr VPtr, v Val) {
		o := s.heap[ptr.obj]
		if o == nil || !types.Identical(o.typ, p.tNode) && !types.Identical(o.typ, p.tAST) {
			return
		}
		path := splitPath(ptr.path)
		field := -1
		if len(path) > 0 {
			field = path[0]
		}
		if l, isList := v.(VList); isList && field == p.nKids && len(l.p) == 1 && l.p[0].key == workedKey {
			if b, isKids := o.f[p.nKids].(VList); isKids && len(b.p) == 1 && b.p[0].id == l.p[0].id {
				s.flags["recursed"] = true
				return
			}
		}
		ok := m.touched(s, in, ptr.obj, field, v)
		m.r.ob(ok, "change", m.name, p.where(in), func() string {
			f := "all of it"
			if field >= 0 {
				f = o.typ.Underlying().(*types.Struct).Field(field).Name()
			}
			return fmt.Sprintf("changes %s of %s to %s", f, s.show(VPtr{obj: ptr.obj}), s.show(v))
		})
	}
}

// span tells for which children a node stands
func (m *simplifier) span(s *State, v Val) (lo, hi Lin, ok bool) {
	if o, isOpq := v.(VOpq); isOpq && o.key == spanKey+"[]" {
		return
	}
	id, k, ok := m.isChild(s, v)
	if !ok {
		return
	}
	if c, stored := s.heap[id].f[m.p.nChars].(VRope); stored {
		if c = s.normRope(c); len(c.p) == 1 && c.p[0].tape == textKey {
			return c.p[0].lo, c.p[0].hi, true
		}
	}
	return k, k.addc(1), true
}

// listElem: an element of a list of what was made of the children
func (m *simplifier) listElem(s *State, in ssa.Instruction, o VOpq) []Out {
	s.nilf[o.id] = false
	if m.last != nil {
		n, ok := s.ghost["list len"].(VInt)
		if ok && s.eq(*o.idx, n.l.addc(-1)) && s.eq(s.ghost["list hi"].(VInt).l, s.ghost["done"].(VInt).l) {
			if v := m.last(s); v != nil {
				return []Out{{s, v}}
			}
		}
	}
	pt, _ := m.x.deref(s, in, o)
	return []Out{{s, pt}}
}

// length of a list of what was made of the children: the same each time
func (m *simplifier) length(s *State, v Val) (Lin, bool) {
	l, ok := v.(VList)
	if !ok || len(l.p) != 1 || l.p[0].key != spanKey {
		return K(0), false
	}
	if hi, ok := s.ghost["list hi"].(VInt); ok && s.eq(hi.l, l.p[0].hi) {
		return s.ghost["list len"].(VInt).l, true
	}
	n := freshSym()
	s.d.addDiff(0, n, 0)
	s.assumeLe(S(n), l.p[0].hi)
	if m.last != nil && s.lt(K(0), l.p[0].hi) {
		s.assumeLt(K(0), S(n))
	}
	s.ghost["list hi"], s.ghost["list len"] = VInt{l.p[0].hi}, VInt{S(n)}
	return S(n), true
}

// textOf is the text of a child: its own, or what was made of it
func (m *simplifier) textOf(s *State, id int, k Lin) Val {
	o := s.heap[id]
	c, stored := o.f[m.p.nChars].(VRope)
	if stored && m.leaf(s, id) {
		return c
	}
	if stored || o.f[m.p.nKids] != nil && !m.sameKids(s, id) {
		n := freshSym()
		s.d.addDiff(0, n, 0)
		return s.unknownRope(S(n))
	}
	return VRope{p: []piece{{tape: textKey, lo: k, hi: k.addc(1)}}}
}

func (m *simplifier) sameKids(s *State, id int) bool {
	l, ok := s.heap[id].f[m.p.nKids].(VList)
	return ok && len(l.p) == 1 && l.p[0].kind == 's'
}

func (m *simplifier) leaf(s *State, id int) bool {
	l, ok := s.heap[id].f[m.p.nKids].(VList)
	return ok && len(l.p) == 0
}

// covers: the node holds the texts of the children from lo to hi
func (m *simplifier) covers(s *State, id int, lo, hi Lin) bool {
	c, ok := s.heap[id].f[m.p.nChars].(VRope)
	if !ok {
		return false
	}
	c = s.normRope(c)
	return len(c.p) == 1 && c.p[0].tape == textKey && s.eq(c.p[0].lo, lo) && s.eq(c.p[0].hi, hi)
}

// upTo: up to where the children are in a list
func (m *simplifier) upTo(s *State, v Val) (Lin, bool) {
	l, ok := v.(VList)
	if !ok {
		return K(0), false
	}
	if len(l.p) == 0 {
		return K(0), true
	}
	if len(l.p) == 1 && l.p[0].kind == 'w' && l.p[0].key == spanKey && s.eq(l.p[0].lo, K(0)) {
		return l.p[0].hi, true
	}
	return K(0), false
}

// kept: there is a list of what the pass makes of the children up to k
func (m *simplifier) kept(s *State, k Lin) bool {
	for _, fr := range s.frames {
		for _, v := range fr.regs {
			if hi, ok := m.upTo(s, v); ok && s.eq(hi, k) {
				return true
			}
		}
	}
	return false
}

// node and tree passes
type passTarget struct {
	t      *types.Named
	fn     *ssa.Function
	field  string
	holder string
}

func (p *Program) passTargets(method string) (out []passTarget) {
	for _, c := range []struct {
		t *types.Named
		f string
	}{{p.tNode, "ChildNodes"}, {p.tAST, "Nodes"}} {
		fn := p.method(types.NewPointer(c.t), method)
		if fn == nil || fn.Blocks == nil {
			unresolved("%s.%s not found", c.t.Obj().Name(), method)
		}
		out = append(out, passTarget{c.t, fn, c.f, ""})
	}
	return
}

func (x *Exec) passEntry(t passTarget) (*State, []Val, string, int) {
	s := newState()
	o := VOpq{id: internID("node"), key: "node", typ: types.NewPointer(t.t)}
	s.nilf[o.id] = false
	p, _ := x.deref(s, nil, o)
	s.ghost["done"] = VInt{K(0)}
	s.ghost["seen"] = VInt{K(0)}
	s.ghost["node"] = p
	return s, []Val{o}, "node." + t.field, p.obj
}

func c15(p *Program, r *Report) {
	for _, c := range []struct {
		method string
		flag   int
		what   string
	}{{"RemoveVirtualNodes", p.nVirtual, "virtual"}, {"RemoveNonDataNodes", p.nNonData, "non-data"}} {
		for _, t := range p.passTargets(c.method) {
			c, t := c, t
			name, where := p.fname(t.fn), p.pos(t.fn.Pos())
			guarded(r, name, func() {
				x := newExec(p)
				x.debug = debugAll
				x.deadline = r.entryDeadline()
				s, args, key, self := x.passEntry(t)
				fi := p.field(t.t, t.field)
				m := &simplifier{p: p, r: r, x: x, name: name, where: where, method: c.method, key: key, field: c.flag}
				removed, left := 0, 0
				m.finish = func(s *State, e int, k Lin) bool {
					b, ok := s.ghost["flag"].(*VBool)
					val, known := false, false
					if ok {
						val, known = s.truthOf(b)
					}
					if !known && !r.ob(m.kept(s, k.addc(1)) == false, "kept", name, where, func() string { return "a child is kept without looking whether it is " + c.what }) {
						return true
					}
					if !r.ob(known, "decided", name, where, func() string { return "a child is left out without looking whether it is " + c.what }) {
						return true
					}
					if val {
						removed++
						r.ob(!m.kept(s, k.addc(1)), "removed", name, where, func() string { return "a child that is " + c.what + " is kept\n" + s.dump() })
						m.lists(s, k, k.addc(1), nil)
						return true
					}
					left++
					r.ob(m.kept(s, k.addc(1)), "kept", name, where, func() string { return "a child that is not " + c.what + " is not kept\n" + s.dump() })
					if !s.flags["recursed"] {
						s.flags["visit list"] = true
					}
					return true
				}
				m.touched = func(s *State, in ssa.Instruction, obj, field int, v Val) bool { return obj == self && field == fi }
				m.setup()
				outs := x.run(t.fn, []entry{{s, args, nil}})
				r.ob(len(outs) > 0, "returns", name, where, func() string { return "no return is reached" })
				for _, o := range outs {
					m.atEnd(o.st, self, fi)
				}
				r.ob(removed > 0 && left > 0, "anchor", name, where, func() string { return "no child is looked at" })
				r.absorb(x, name)
			})
		}
	}
}

// atEnd: all children were dealt with, and the node has what was made of them
func (m *simplifier) atEnd(s *State, self, fi int) {
	m.end(s)
	n := globalSym(m.key + "#len")
	s.d.addDiff(0, n, 0)
	done := s.ghost["done"].(VInt).l
	if !m.r.ob(s.eq(done, S(n)), "all", m.name, m.where, func() string {
		return fmt.Sprintf("returns after %s of the %s children\n%s", done, S(n), s.dump())
	}) {
		return
	}
	v := s.heap[self].f[fi]
	if l, ok := v.(VList); ok && len(l.p) == 1 && l.p[0].kind == 'w' && l.p[0].key == m.key && s.eq(l.p[0].length(), K(0)) || v == nil {
		m.r.ob(s.eq(S(n), K(0)), "stored", m.name, m.where, func() string { return "the node keeps its children as they are" })
		return
	}
	hi, ok := m.upTo(s, v)
	if s.flags["visit list"] {
		to, isHi := s.ghost["list hi"].(VInt)
		m.r.ob(isHi && s.eq(to.l, S(n)) && s.eq(s.ghost["seen"].(VInt).l, s.ghost["list len"].(VInt).l), "recursion", m.name, m.where, func() string {
			return "nothing is done to the children of a child that is kept\n" + s.dump()
		})
	}
	m.r.ob(ok && s.eq(hi, S(n)), "stored", m.name, m.where, func() string {
		return fmt.Sprintf("the node has %s, which is not what is made of its %s children\n%s", s.show(v), S(n), s.dump())
	})
	m.r.sample("%s: the node has what is made of all %s children", m.name, S(n))
}

func init() {
	register(&check{id: "C15", level: "proof", run: c15, trust: engineTrust[:2],
		rule: "for every child, in order: it is left out exactly if its flag is set, and otherwise kept and worked on in turn; nothing else is changed"})
}
