package main

// C16: merging adjacent sticky nodes.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func c16(p *Program, r *Report) {
	block := p.stringConst("TypeBlock")
	for _, t := range p.passTargets("MergeStickyNodes") {
		t := t
		name, where := p.fname(t.fn), p.pos(t.fn.Pos())
		guarded(r, name, func() {
			x := newExec(p)
			x.debug = debugAll
			x.deadline = r.entryDeadline()
			s, args, key, self := x.passEntry(t)
			fi := p.field(t.t, t.field)
			m := &simplifier{p: p, r: r, x: x, name: name, where: where, method: "MergeStickyNodes", key: key, field: p.nSticky}
			isNode := types.Identical(t.t, p.tNode)
			merged, alone := 0, 0
			// group: the node that others are merged into
			group := func(s *State) (id int, from Lin, ok bool) {
				g, ok := s.ghost["group"].(VPtr)
				if !ok {
					return
				}
				return g.obj, s.ghost["group from"].(VInt).l, true
			}
			closed := func(s *State, id int) bool {
				v, known := s.truthOf(x.boolOf(s.heap[id].f[p.nSticky]))
				return known && !v
			}
			emptyKids := func(s *State, id int) bool {
				l, ok := s.heap[id].f[p.nKids].(VList)
				return ok && len(l.p) == 0
			}
			untouched := func(s *State, id int) bool {
				_, ok := s.heap[id].f[p.nChars].(VRope)
				return s.heap[id].f[p.nChars] == nil && s.heap[id].f[p.nKids] == nil || ok && !s.flags["changed"]
			}
			isBlock := func(s *State) bool { return isNode && s.flags["block"] }
			m.finish = func(s *State, e int, k Lin) bool {
				if isBlock(s) {
					r.ob(untouched(s, e) && s.flags["recursed"], "block", name, where, func() string {
						return "the parts of a block are not worked on one by one\n" + s.dump()
					})
					r.ob(closed(s, e), "block", name, where, func() string { return "a part of a block stays sticky" })
					return true
				}
				sticky, known := s.truthOf(x.boolOf(s.ghost["flag"]))
				if !r.ob(known, "decided", name, where, func() string { return "a child is dealt with without looking whether it is sticky" }) {
					return true
				}
				g, from, open := group(s)
				switch {
				case sticky && open:
					merged++
					r.ob(m.covers(s, g, from, k.addc(1)), "merged", name, where, func() string {
						return fmt.Sprintf("a sticky node after sticky nodes is not merged: of children %s to %s the node has %s\n%s", from, k, s.show(s.heap[g].f[p.nChars]), s.dump())
					})
					r.ob(!m.kept(s, k.addc(1)), "merged", name, where, func() string { return "a node that is merged is kept as well" })
					r.ob(emptyKids(s, g), "merged", name, where, func() string { return "a merged node keeps children" })
					m.lists(s, k, k.addc(1), func(q part) bool { return s.lt(from, q.hi) })
				case sticky:
					r.ob(m.covers(s, e, k, k.addc(1)) && emptyKids(s, e), "merged", name, where, func() string {
						return "the first of sticky nodes does not have its text as chars, and no children\n" + s.dump()
					})
					s.ghost["group"] = VPtr{obj: e}
					s.ghost["group from"] = VInt{k}
					if !closed(s, e) {
						s.wobj(e).f[p.nSticky] = bT
					}
				default:
					alone++
					if open {
						r.ob(m.covers(s, g, from, k) && closed(s, g), "end of run", name, where, func() string {
							return "merged nodes stay sticky, or hold more, when a node follows that is not sticky\n" + s.dump()
						})
					}
					delete(s.ghost, "group")
					delete(s.ghost, "group from")
					r.ob(untouched(s, e), "kept", name, where, func() string { return "the text of a node that is not sticky is changed" })
					r.ob(s.flags["recursed"], "recursion", name, where, func() string { return "nothing is done to the children of a node that is not sticky" })
					r.ob(m.kept(s, k.addc(1)), "kept", name, where, func() string { return "a node that is not sticky is not kept, or not in its place\n" + s.dump() })
				}
				delete(s.flags, "changed")
				return true
			}
			m.touched = func(s *State, in ssa.Instruction, obj, field int, v Val) bool {
				if obj == self {
					return field == fi || isNode && field == p.nSticky
				}
				e, isChild := -1, false
				if c, ok := s.ghost["child"].(VPtr); ok {
					e, isChild = c.obj, true
				}
				g, _, open := group(s)
				if !(isChild && obj == e || open && obj == g) {
					return false
				}
				if field == p.nSticky {
					if isFalse, known := s.truthOf(x.boolOf(v)); !known || isFalse {
						return false
					}
					return true
				}
				if obj == e {
					s.flags["changed"] = true
				}
				return field == p.nChars || field == p.nKids
			}
			m.last = func(s *State) Val {
				if g, _, open := group(s); open {
					return VPtr{obj: g}
				}
				o := &Obj{typ: p.tNode, symb: true, f: make([]Val, nfields(p.tNode)), tag: "kept"}
				o.f[p.nSticky] = bF
				return VPtr{obj: s.alloc(o)}
			}
			m.setup()
			var es []entry
			if isNode {
				ty := s.heap[self].f[p.nType]
				if ty == nil {
					ty = x.loadPtr(s, nil, VPtr{self, fmt.Sprintf(".%d", p.nType)}, fieldType(p.tNode, p.nType))
				}
				eq := x.equal(s, ty, VStr{cst: &block})
				for _, want := range []bool{true, false} {
					for _, u := range x.assume(s.clone(), eq, want) {
						if want {
							u.flags["block"] = true
						}
						es = append(es, entry{u, append([]Val(nil), args...), nil})
					}
				}
			} else {
				es = append(es, entry{s, args, nil})
			}
			outs := x.run(t.fn, es)
			r.ob(len(outs) > 0, "returns", name, where, func() string { return "no return is reached" })
			for _, o := range outs {
				s := o.st
				if isBlock(s) {
					m.end(s)
					n := globalSym(m.key + "#len")
					done := s.ghost["done"].(VInt).l
					r.ob(s.eq(done, S(n)), "block", name, where, func() string { return "not all parts of a block are worked on" })
					v := s.heap[self].f[fi]
					l, ok := v.(VList)
					same := v == nil || ok && len(l.p) == 1 && l.p[0].kind == 'w' && l.p[0].key == m.key && s.eq(l.p[0].lo, K(0)) && s.eq(l.p[0].hi, S(n))
					r.ob(same || s.eq(S(n), K(0)), "block", name, where, func() string { return "the parts of a block are changed: " + s.show(v) })
					continue
				}
				m.atEnd(s, self, fi)
				if g, from, open := group(s); open {
					r.ob(m.covers(s, g, from, s.ghost["done"].(VInt).l) && closed(s, g), "end of run", name, where, func() string {
						return "merged nodes stay sticky, or hold more, at the end\n" + s.dump()
					})
				}
			}
			r.ob(merged > 0 && alone > 0, "anchor", name, where, func() string { return "no child is looked at" })
			r.absorb(x, name)
		})
	}
}

// stringConst is the value of a constant of the package
func (p *Program) stringConst(n string) string {
	c, ok := p.lib.Members[n].(*ssa.NamedConst)
	if !ok {
		unresolved("constant %s is gone", n)
	}
	return constString(c)
}

func init() {
	register(&check{id: "C16", level: "proof", run: c16, trust: engineTrust[:2],
		rule: "for every child, in order: a sticky node adds its text to the sticky node before it, or stands with its text as chars and without children, another is kept and worked on; parts of a block are worked on one by one"})
}
