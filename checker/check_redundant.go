package main

// C29: removing redundant nodes.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	kidsKey   = "kids of child"
	ownKey    = "chars of child"
	liftedKey = "node.ChildNodes lifted"
)

// redundant follows the pass on one node
type redundant struct {
	*simplifier
	self int
	fi   int
}

// fresh content of a child: its name, chars and children are told apart
func (m *redundant) content(s *State, id int) {
	p := m.p
	o := s.wobj(id)
	if o.f[p.nKids] != nil {
		return
	}
	kids, chars := freshSym(), freshSym()
	s.d.addDiff(0, kids, 0)
	s.d.addDiff(0, chars, 0)
	o.f[p.nKids] = VList{p: []part{{kind: 'w', key: kidsKey, v: VTop{types.NewPointer(p.tNode)}, lo: K(0), hi: S(kids), id: freshID()}}}
	o.f[p.nChars] = VRope{p: []piece{{tape: ownKey, lo: K(0), hi: S(chars)}}}
	if o.f[p.nName] == nil {
		o.f[p.nName] = m.x.sym(s, fieldType(p.tNode, p.nName), "")
	}
}

func (m *redundant) nKidsOf(s *State, id int) (Lin, bool) {
	l, ok := s.heap[id].f[m.p.nKids].(VList)
	if !ok || len(l.p) > 1 || len(l.p) == 1 && l.p[0].key != kidsKey {
		return K(0), false
	}
	return l.length(), true
}

func (m *redundant) nCharsOf(s *State, id int) (Lin, bool) {
	c, ok := s.heap[id].f[m.p.nChars].(VRope)
	if !ok || len(c.p) > 1 || len(c.p) == 1 && c.p[0].tape != ownKey {
		return K(0), false
	}
	return c.length(), true
}

func (m *redundant) unnamed(s *State, id int) bool {
	empty := ""
	v, known := s.truthOf(m.x.equal(s, s.heap[id].f[m.p.nName], VStr{cst: &empty}))
	return known && v
}

// empty: nothing of the child holds text
func (m *redundant) empty(s *State, id int) bool {
	if n, ok := s.ghost["text len"].(VInt); ok && s.eq(n.l, K(0)) {
		return true
	}
	k, ok1 := m.nKidsOf(s, id)
	c, ok2 := m.nCharsOf(s, id)
	return ok1 && ok2 && s.eq(k, K(0)) && s.eq(c, K(0))
}

// only: the object is the only child there is
func (m *redundant) only(s *State, id int) bool {
	o := s.heap[id]
	if o == nil || o.symIdx == nil || !s.eq(*o.symIdx, K(0)) {
		return false
	}
	switch o.tag {
	case "elem:" + m.key + "[]":
		return s.eq(S(globalSym(m.key+"#len")), K(1))
	case "elem:" + spanKey + "[]":
		n, ok := s.ghost["list len"].(VInt)
		return ok && s.eq(n.l, K(1))
	}
	return false
}

func (m *redundant) isNodeList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isPtrTo(sl.Elem(), m.p.tNode)
}

func c29(p *Program, r *Report) {
	redundantRoots(p, r)
	t := p.passTargets("RemoveRedundantNodes")[0]
	name, where := p.fname(t.fn), p.pos(t.fn.Pos())
	guarded(r, name, func() {
		x := newExec(p)
		x.debug = debugAll
		x.deadline = r.entryDeadline()
		s, args, key, self := x.passEntry(t)
		fi := p.field(t.t, t.field)
		m := &redundant{simplifier: &simplifier{p: p, r: r, x: x, name: name, where: where, method: "RemoveRedundantNodes", key: key}, self: self, fi: fi}
		s.ghost["recursed"] = VInt{K(0)}
		n := S(globalSym(key + "#len"))
		s.d.addDiff(0, globalSym(key+"#len"), 0)
		s.d.addDiff(0, globalSym(liftedKey+"#len"), 0)
		dropped, spliced, kept := 0, 0, 0
		source := func(s *State) string {
			if s.flags["lifted"] {
				return liftedKey
			}
			return key
		}
		// end of the work on a child
		end := func(s *State) {
			v, ok := s.ghost["at"].(VInt)
			if !ok {
				return
			}
			pt, _ := s.ghost["child"].(VPtr)
			delete(s.ghost, "at")
			delete(s.ghost, "child")
			k := v.l
			done := s.ghost["done"].(VInt).l
			switch {
			case m.kept(s, k.addc(1)):
				r.ob(s.eq(done, k), "order", name, where, func() string { return "children are kept out of order" })
				r.ob(s.flags["lifted"] || s.flags["recursed"] || s.lt(k, s.ghost["recursed"].(VInt).l), "recursion", name, where, func() string {
					return "redundant nodes below a child are not removed before it is dealt with\n" + s.dump()
				})
				s.ghost["done"] = VInt{k.addc(1)}
				kept++
			case s.eq(done, k) && m.unnamed(s, pt.obj) && m.empty(s, pt.obj):
				dropped++
				m.lists(s, k, k.addc(1), nil)
				s.ghost["done"] = VInt{k.addc(1)}
			case s.flags["recursed"]: // nothing but the pass on the child
			default:
				r.ob(false, "kept", name, where, func() string { return "a child that has a name or text is left out\n" + s.dump() })
			}
			if rec := s.ghost["recursed"].(VInt).l; s.flags["recursed"] && s.eq(rec, k) {
				s.ghost["recursed"] = VInt{k.addc(1)}
			}
			delete(s.flags, "recursed")
			delete(s.ghost, "text len")
			for f := range s.flags {
				if len(f) > 5 && f[:5] == "loop " {
					delete(s.flags, f)
				}
			}
		}
		x.spans = true
		x.lenNames = true
		x.spanFn = func(s *State, v Val) (lo, hi Lin, ok bool) {
			v = x.resolve(s, v)
			if o, isOpq := v.(VOpq); isOpq && o.key == source(s)+"[]" {
				v, _ = x.deref(s, nil, o)
			}
			pt, isPtr := v.(VPtr)
			if !isPtr || pt.path != "" || s.heap[pt.obj] == nil || s.heap[pt.obj].tag != "elem:"+source(s)+"[]" || s.heap[pt.obj].symIdx == nil {
				return
			}
			k := *s.heap[pt.obj].symIdx
			return k, k.addc(1), true
		}
		x.listFn = func(s *State, q part) (part, bool) {
			if q.key != kidsKey {
				return q, false
			}
			pt, ok := s.ghost["child"].(VPtr)
			at, isAt := s.ghost["at"].(VInt)
			if !ok || !isAt || s.heap[pt.obj] == nil {
				return q, false
			}
			l, ok := s.heap[pt.obj].f[p.nKids].(VList)
			if !ok || len(l.p) != 1 || l.p[0].id != q.id || !s.eq(q.lo, K(0)) || !s.eq(q.hi, l.p[0].hi) {
				return q, false
			}
			chars, known := m.nCharsOf(s, pt.obj)
			if !m.unnamed(s, pt.obj) || !(s.lt(K(0), q.hi) || known && s.eq(chars, K(0))) {
				return q, false
			}
			spliced++
			return part{kind: 'w', key: spanKey, v: q.v, lo: at.l, hi: at.l.addc(1)}, true
		}
		x.lenFn = func(s *State, v Val) (Lin, bool) {
			switch v := v.(type) {
			case VRope:
				if len(v.p) == 1 && v.p[0].tape == textKey {
					if at, ok := s.ghost["at"].(VInt); ok && s.eq(at.l, v.p[0].lo) {
						n, ok := s.ghost["text len"].(VInt)
						if !ok {
							f := freshSym()
							s.d.addDiff(0, f, 0)
							n = VInt{S(f)}
							s.ghost["text len"] = n
						}
						return n.l, true
					}
				}
			case VList:
				if len(v.p) == 1 && v.p[0].key == spanKey {
					if hi, ok := s.ghost["list hi"].(VInt); ok && s.eq(hi.l, v.p[0].hi) {
						return s.ghost["list len"].(VInt).l, true
					}
					f := freshSym()
					s.d.addDiff(0, f, 0)
					s.ghost["list hi"], s.ghost["list len"] = VInt{v.p[0].hi}, VInt{S(f)}
					return S(f), true
				}
			}
			return K(0), false
		}
		x.h.elemLoad = func(x *Exec, s *State, in ssa.Instruction, seq Val, idx Lin, v Val) []Out {
			o, ok := v.(VOpq)
			if !ok || o.idx == nil {
				return nil
			}
			switch o.key {
			case spanKey + "[]":
				s.nilf[o.id] = false
				pt, _ := x.deref(s, in, o)
				m.content(s, pt.obj)
				return []Out{{s, pt}}
			case key + "[]", liftedKey + "[]":
			default:
				return nil
			}
			s.nilf[o.id] = false
			pt, _ := x.deref(s, in, o)
			m.content(s, pt.obj)
			if o.key != source(s)+"[]" {
				return []Out{{s, pt}}
			}
			fn := in.Parent()
			info := p.info(fn)
			var best *ssa.BasicBlock
			for h, body := range info.loopOf {
				if body[in.Block()] && (best == nil || len(body) < len(info.loopOf[best])) {
					best = h
				}
			}
			if best == nil { // looked at outside of a loop
				return []Out{{s, pt}}
			}
			if at, ok := s.ghost["at"].(VInt); ok {
				if s.eq(at.l, idx) {
					return []Out{{s, pt}}
				}
				end(s)
			}
			s.ghost["at"] = VInt{idx}
			s.ghost["child"] = pt
			s.flags[fmt.Sprintf("loop %s %d", fn.String(), best.Index)] = true
			return []Out{{s, pt}}
		}
		x.h.arrive = func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock) {
			if s.flags[fmt.Sprintf("loop %s %d", fn.String(), head.Index)] {
				end(s)
			}
			delete(s.ghost, "list hi")
			delete(s.ghost, "list len")
		}
		pass := p.method(types.NewPointer(p.tNode), m.method)
		text := p.method(types.NewPointer(p.tNode), "Text")
		x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
			if fn == pass && len(args) == 1 {
				pt, isPtr := x.resolve(s, args[0]).(VPtr)
				o := s.heap[pt.obj]
				if isPtr && o != nil && o.symIdx != nil && o.tag == "elem:"+key+"[]" {
					at, isAt := s.ghost["at"].(VInt)
					if isAt && s.eq(at.l, *o.symIdx) {
						s.flags["recursed"] = true
					} else if rec := s.ghost["recursed"].(VInt).l; s.eq(rec, *o.symIdx) {
						s.ghost["recursed"] = VInt{rec.addc(1)}
					}
					w := s.wobj(pt.obj) // its children are others now
					w.f[p.nKids], w.f[p.nChars] = nil, nil
					m.content(s, pt.obj)
					return []Out{{s, nil}}, true
				}
				if x.inStack(fn) {
					r.ob(false, "recursion", name, p.where(in), func() string { return "the pass is made on " + s.show(args[0]) })
					return []Out{{s, nil}}, true
				}
			}
			if fn == text && len(args) == 1 {
				if pt, ok := x.resolve(s, args[0]).(VPtr); ok && s.heap[pt.obj] != nil {
					if o := s.heap[pt.obj]; o.symIdx != nil && o.tag == "elem:"+source(s)+"[]" {
						return []Out{{s, VRope{p: []piece{{tape: textKey, lo: *o.symIdx, hi: o.symIdx.addc(1)}}}}}, true
					}
				}
			}
			return nil, false
		}
		// ownerOf finds the child whose chars or children a value is
		ownerOf := func(s *State, v Val) (int, bool) {
			for id, o := range s.heap {
				if o.tag != "elem:"+key+"[]" && o.tag != "elem:"+spanKey+"[]" && o.tag != "elem:"+liftedKey+"[]" {
					continue
				}
				switch v := v.(type) {
				case VRope:
					c, ok := o.f[p.nChars].(VRope)
					if ok && len(c.p) == 1 && len(v.p) == 1 && v.p[0].tape == ownKey && s.eq(v.p[0].lo, K(0)) && v.p[0].hi.eq(c.p[0].hi) {
						return id, true
					}
				case VList:
					l, ok := o.f[p.nKids].(VList)
					if ok && len(l.p) == 1 && len(v.p) == 1 && v.p[0].key == kidsKey && v.p[0].id == l.p[0].id && s.eq(v.p[0].lo, K(0)) && s.eq(v.p[0].hi, l.p[0].hi) {
						return id, true
					}
				}
			}
			return 0, false
		}
		x.h.store = func(x *Exec, s *State, in ssa.Instruction, ptr VPtr, v Val) {
			o := s.heap[ptr.obj]
			if o == nil || !types.Identical(o.typ, p.tNode) {
				return
			}
			path := splitPath(ptr.path)
			if !r.ob(ptr.obj == self && len(path) == 1 && (path[0] == fi || path[0] == p.nChars), "change", name, p.where(in), func() string {
				return "changes a node other than by giving it the text or children of its child: " + s.show(ptr) + " to " + s.show(v)
			}) {
				return
			}
			if path[0] == p.nChars {
				id, ok := ownerOf(s, v)
				r.ob(ok && m.only(s, id) && m.unnamed(s, id), "lift", name, p.where(in), func() string {
					return "the node is given chars that are not those of its only child without a name: " + s.show(v) + "\n" + s.dump()
				})
				s.flags["chars lifted"] = true
			}
		}
		x.h.stored = func(x *Exec, s *State, in ssa.Instruction, ptr VPtr, v Val) {
			if ptr.obj != self || len(splitPath(ptr.path)) != 1 || splitPath(ptr.path)[0] != fi {
				return
			}
			id, ok := ownerOf(s, v)
			if !ok || s.flags["lifted"] {
				return
			}
			// the children of the only child come in its place
			kids, _ := m.nKidsOf(s, id)
			if !r.ob(m.only(s, id) && m.unnamed(s, id) && s.lt(K(0), s.ghost["recursed"].(VInt).l), "lift", name, p.where(in), func() string {
				return "the node is given children that are not those of its only child without a name\n" + s.dump()
			}) {
				return
			}
			s.flags["lifted"] = true
			s.ghost["lifted from"] = VPtr{obj: id}
			s.ghost["done"] = VInt{K(0)}
			s.assumeEq(S(globalSym(liftedKey+"#len")), kids)
			s.wobj(self).f[fi] = VList{p: []part{{kind: 'w', key: liftedKey, v: VTop{types.NewPointer(p.tNode)}, lo: K(0), hi: S(globalSym(liftedKey + "#len"))}}}
		}
		outs := x.run(t.fn, []entry{{s, args, nil}})
		r.ob(len(outs) > 0, "returns", name, where, func() string { return "no return is reached" })
		for _, o := range outs {
			s := o.st
			end(s)
			v := s.heap[self].f[fi]
			total := S(globalSym(source(s) + "#len"))
			l, isList := v.(VList)
			if s.flags["chars lifted"] {
				r.ob(isList && len(l.p) == 0, "stored", name, where, func() string {
					return "the node has the chars of its child, and children " + s.show(v)
				})
				continue
			}
			if f, ok := s.ghost["lifted from"].(VPtr); ok {
				chars, known := m.nCharsOf(s, f.obj)
				r.ob(s.lt(K(0), total) || known && s.eq(chars, K(0)), "lift", name, where, func() string {
					return "the node is given the children of its only child, but not its chars\n" + s.dump()
				})
			}
			if v == nil || isList && len(l.p) == 1 && l.p[0].key == source(s) && s.eq(l.p[0].lo, K(0)) && s.eq(l.p[0].hi, total) {
				r.ob(s.eq(n, K(0)), "stored", name, where, func() string { return "the node keeps its children as they are\n" + s.dump() })
				continue
			}
			hi, ok := m.upTo(s, v)
			r.ob(ok && s.eq(hi, total) && s.eq(s.ghost["done"].(VInt).l, total), "stored", name, where, func() string {
				return fmt.Sprintf("the node has %s, which is not what is made of its %s children\n%s", s.show(v), total, s.dump())
			})
			r.sample("%s: the node has %s", name, s.show(v))
		}
		r.ob(dropped > 0 && spliced > 0 && kept > 0, "anchor", name, where, func() string {
			return fmt.Sprintf("children are dropped at %d, replaced at %d, kept at %d", dropped, spliced, kept)
		})
		r.absorb(x, name)
	})
}

// redundantRoots: the pass on a whole tree
func redundantRoots(p *Program, r *Report) {
	t := p.passTargets("RemoveRedundantNodes")[1]
	name, where := p.fname(t.fn), p.pos(t.fn.Pos())
	guarded(r, name, func() {
		x := newExec(p)
		x.debug = debugAll
		x.deadline = r.entryDeadline()
		s, args, key, self := x.passEntry(t)
		m := &simplifier{p: p, r: r, x: x, name: name, where: where, method: "RemoveRedundantNodes", key: key, field: p.nNonData}
		worked := 0
		m.finish = func(s *State, e int, k Lin) bool {
			nonData, known := s.truthOf(x.boolOf(s.ghost["flag"]))
			if s.flags["recursed"] {
				worked++
			}
			r.ob(s.flags["recursed"] || known && nonData, "roots", name, where, func() string { return "redundant nodes below a root that is data are not removed" })
			r.ob(!s.flags["recursed"] || known && !nonData, "roots", name, where, func() string { return "a root that is not data is worked on" })
			return true
		}
		m.touched = func(s *State, in ssa.Instruction, obj, field int, v Val) bool { return false }
		m.setup()
		n := S(globalSym(key + "#len"))
		s.d.addDiff(0, globalSym(key+"#len"), 0)
		for _, o := range x.run(t.fn, []entry{{s, args, nil}}) {
			m.end(o.st)
			done := o.st.ghost["done"].(VInt).l
			r.ob(o.st.eq(done, n), "roots", name, where, func() string { return fmt.Sprintf("returns after %s of %s roots", done, n) })
			v := o.st.heap[self].f[p.field(p.tAST, "Nodes")]
			l, isList := v.(VList)
			r.ob(v == nil || isList && len(l.p) == 1 && l.p[0].key == key, "roots", name, where, func() string { return "the roots are changed" })
		}
		r.ob(worked > 0, "anchor", name, where, func() string { return "no root is worked on" })
		r.absorb(x, name)
	})
}

func init() {
	register(&check{id: "C29", level: "proof", run: c29, trust: append(engineTrust[:2:2], "a node has chars or children, not both (evaluation and merging make no others)"),
		rule: "for every child, in order: left out only without name and text, replaced by its children only without name, otherwise kept; text or children are taken over only from an only child without name"})
}
