package main

// C23: the position of a node is that of the first char of its text.
//
// A position is followed as the index of the char it is of. A node without text has none.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// nodePos reads the position of a node
func (x *Exec) nodePos(s *State, v Val) Val {
	np, ok := x.resolve(s, v).(VPtr)
	if !ok || s.heap[np.obj] == nil || !types.Identical(s.heap[np.obj].typ, x.p.tNode) {
		return VTop{}
	}
	return x.loadPtr(s, nil, VPtr{np.obj, fmt.Sprintf(".%d", x.p.nPos)}, fieldType(x.p.tNode, x.p.nPos))
}

// placeOf: the char a position is of; none if there is no position
func (s *State) placeOf(v Val) (at *Lin, none, ok bool) {
	if n, known := s.nilKnown(v); known && n {
		return nil, true, true
	}
	o, isO := v.(VOpq)
	if n, known := s.nilKnown(v); isO && o.key == placeKey+"[]" && o.idx != nil && known && !n {
		return o.idx, false, true
	}
	return nil, false, false
}

func c23(p *Program, r *Report) {
	lookups := func(x *Exec, name string) func(x *Exec, s *State, in ssa.CallInstruction, m string, before, after Lin, v Val) {
		return func(x *Exec, s *State, in ssa.CallInstruction, m string, before, after Lin, v Val) {
			o, ok := v.(VOpq)
			if m != "PositionLookup" || !ok || o.idx == nil {
				return
			}
			r.ob(s.le(K(0), *o.idx) && s.lt(*o.idx, before), "read before", name, p.where(in), func() string {
				return fmt.Sprintf("the position of char %s is asked for, of which it is not known that it has been read\n%s", *o.idx, s.dump())
			})
		}
	}
	for _, t := range p.terminals() {
		for _, flag := range []string{"SUGGEST_SKIP", "SUGGEST_NOT_SKIP", "NOT_SKIP"} {
			t, flag := t, flag
			name, where := p.fname(t.fn), p.pos(t.fn.Pos())
			guarded(r, name, func() {
				good := 0
				c08One(p, r, t, flag, func(x *Exec) {
					x.places = true
					op, see := x.h.streamOp, lookups(x, name)
					x.h.streamOp = func(x *Exec, s *State, in ssa.CallInstruction, m string, before, after Lin, v Val) {
						op(x, s, in, m, before, after, v)
						see(x, s, in, m, before, after, v)
					}
				}, func(x *Exec, o Out) {
					s := o.st
					w, ok := x.resultOf(s, o.ret, nil)
					if !r.ob(ok && w.okText, "result", name, where, func() string { return "what is returned is not a result this function builds: " + s.show(o.ret) }) {
						return
					}
					isNil, known := s.nilKnown(w.node)
					if !r.ob(known, "node", name, where, func() string { return "cannot tell whether there is a node" }) || isNil {
						return
					}
					good++
					np, _ := w.node.(VPtr)
					text, isRope := x.loadPtr(s, nil, VPtr{np.obj, fmt.Sprintf(".%d", p.nChars)}, fieldType(p.tNode, p.nChars)).(VRope)
					v := x.nodePos(s, w.node)
					at, none, ok := s.placeOf(v)
					if !r.ob(isRope && ok, "position", name, where, func() string { return "the position of the node is not known: " + s.show(v) + "\n" + s.dump() }) {
						return
					}
					if t.kind == "end" {
						r.ob(none, "position", name, where, func() string { return "the end of the text has a position: " + s.show(v) })
						return
					}
					n := text.length()
					if s.eq(n, K(0)) {
						r.ob(none, "position", name, where, func() string { return "a node without text has the position of char " + at.String() })
						return
					}
					first := s.ghost["q"].(VInt).l.sub(w.unused.length()).sub(n)
					r.ob(!none && s.eq(*at, first), "position", name, where, func() string {
						return fmt.Sprintf("%s: the position of the node is %s, its text starts with char %s\n%s", flag, s.show(v), first, s.dump())
					})
				})
				r.ob(good > 0, "anchor", name, where, func() string { return "no match is ever reported" })
			})
		}
	}
	for _, c := range p.composites() {
		c := c
		name, where := p.fname(c.fn), p.pos(c.fn.Pos())
		guarded(r, name, func() { c23parts(p, r, c, name, where, lookups) })
	}
	c23passes(p, r)
}

// c23parts: rules made of rules
func c23parts(p *Program, r *Report, c composite, name, where string, lookups func(*Exec, string) func(*Exec, *State, ssa.CallInstruction, string, Lin, Lin, Val)) {
	x := newExec(p)
	x.debug = debugAll
	x.dull = true
	x.places = true
	if c.kind == "block" {
		x.listK, x.listOf = 3, types.NewPointer(p.tNode)
		defer func(n int) { maxPieces = n }(maxPieces)
		maxPieces = 1
	}
	x.ends = c.kind == "choice"
	x.blank = map[int]bool{p.nChars: true, p.nSticky: true, p.nVirtual: true, p.nNonData: true, p.nTokenized: true, p.nName: true}
	x.deadline = r.entryDeadline()
	x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
		r.ob(false, "stream", name, p.where(in), func() string { return msg })
	}
	x.h.streamOp = lookups(x, name)
	s, args := x.evalEntry(c.fn, c.fn.Params[0].Type())
	x.h.fork = func(x *Exec, s *State, e *evalOut) []*State {
		np, ok := e.node.(VPtr)
		if !e.match || !ok {
			return []*State{s}
		}
		if c.kind == "block" && s.flags["opened"] {
			return []*State{s} // where the other parts of a block are does not matter
		}
		if c.kind == "block" {
			s.flags["opened"] = true
			s.ghost["content"] = VInt{e.used}
			s.assumeLt(e.from, e.used) // what opens a block uses text
		} else {
			t := s.clone()
			t.wobj(np.obj).f[p.nPos] = VNil{}
			s.assumeLt(e.from, e.used)
			k := freshSym()
			s.assumeLe(e.from, S(k))
			s.assumeLt(S(k), e.used)
			c23kid(x, s, np, S(k), c)
			if s.bot() {
				return []*State{t}
			}
			return []*State{s, t}
		}
		k := freshSym()
		s.assumeLe(e.from, S(k))
		s.assumeLt(S(k), e.used)
		c23kid(x, s, np, S(k), c)
		return []*State{s}
	}
	x.h.store = func(x *Exec, s *State, in ssa.Instruction, pt VPtr, v Val) {
		if o := s.heap[pt.obj]; o != nil && o.tag == "childnode" && pt.path == fmt.Sprintf(".%d", p.nPos) {
			r.ob(false, "part", name, p.where(in), func() string { return "the position of the node of a part is changed" })
		}
	}
	good := 0
	for _, o := range x.run(c.fn, []entry{{s, args, nil}}) {
		s := o.st
		w, ok := x.resultOf(s, o.ret, nil)
		if !r.ob(ok, "result", name, where, func() string { return "what is returned is not a result this function builds: " + s.show(o.ret) }) {
			continue
		}
		isNil, known := s.nilKnown(w.node)
		if !r.ob(known, "node", name, where, func() string { return "cannot tell whether there is a node: " + s.show(w.node) }) || isNil {
			continue
		}
		good++
		if np, ok := w.node.(VPtr); ok && s.heap[np.obj] != nil && s.heap[np.obj].tag == "childnode" && c.kind == "reference" {
			continue // the node of the rule that is named, with its position
		}
		v := x.nodePos(s, w.node)
		if c.kind == "choice" {
			// that of the only child
			kids, ok := x.fieldOf(s, w.node, p.tNode, "ChildNodes").(VList)
			ok = ok && len(kids.p) == 1 && s.eq(kids.length(), K(1)) && kids.p[0].v != nil
			if !r.ob(ok, "children", name, where, func() string { return "the node does not have one child: " + s.show(kids) }) {
				continue
			}
			kind, end := s.endOf(kids.p[0].v)
			at, isPos := v.(VOpq)
			ok = kind != "" && isPos && at.key == placeKey+"[]" && at.idx != nil && s.eq(*at.idx, end)
			r.ob(ok, "position", name, where, func() string {
				return fmt.Sprintf("the position of the node is %s, which is not that of its child %s\n%s", s.show(v), s.show(kids.p[0].v), s.dump())
			})
			continue
		}
		at, none, ok := s.placeOf(v)
		if !r.ob(ok, "position", name, where, func() string { return "the position of the node is not known: " + s.show(v) + "\n" + s.dump() }) {
			continue
		}
		first, some := s.ghost["first"].(VInt)
		r.ob(none == !some, "position", name, where, func() string {
			return fmt.Sprintf("the position of the node is %s, the first part with text starts at %s\n%s", s.show(v), s.show(first), s.dump())
		})
		r.ob(none || !some || s.eq(*at, first.l), "position", name, where, func() string {
			return fmt.Sprintf("the position of the node is %s, its first part with text starts with char %s\n%s", s.show(v), first.l, s.dump())
		})
		if c.kind != "block" {
			continue
		}
		kids, ok := x.fieldOf(s, w.node, p.tNode, "ChildNodes").(VList)
		ok = ok && len(kids.p) >= 2 && kids.p[0].kind == 'e' && kids.p[1].kind == 'e'
		if !r.ob(ok, "children", name, where, func() string { return "the content of the block is not known: " + s.show(kids) }) {
			continue
		}
		cp := x.nodePos(s, kids.p[1].v)
		at, none, ok = s.placeOf(cp)
		from := s.ghost["content"].(VInt).l
		r.ob(ok && (none && s.eq(from, S(symE)) || !none && s.eq(*at, from)), "content", name, where, func() string {
			return fmt.Sprintf("the position of the content is %s, it starts with char %s\n%s", s.show(cp), from, s.dump())
		})
	}
	r.ob(good > 0, "anchor", name, where, func() string { return "no match is ever reported" })
	r.absorb(x, name)
}

// c23kid: the node of a part has text that starts at k
func c23kid(x *Exec, s *State, np VPtr, k Lin, c composite) {
	v := VOpq{id: freshID(), key: placeKey + "[]", idx: &k, typ: fieldType(x.p.tNode, x.p.nPos)}
	s.nilf[v.id] = false
	s.wobj(np.obj).f[x.p.nPos] = v
	if _, some := s.ghost["first"]; !some {
		s.ghost["first"] = VInt{k}
	}
}

// c23passes: nothing that works on a finished tree changes positions
func c23passes(p *Program, r *Report) {
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn != nil && fn.Blocks != nil && !seen[fn] && (fn.Pkg == p.lib || fn.Parent() != nil) {
			seen[fn] = true
			todo = append(todo, fn)
		}
	}
	for _, m := range []string{"MergeStickyNodes", "RemoveVirtualNodes", "RemoveNonDataNodes", "RemoveRedundantNodes"} {
		for _, t := range p.passTargets(m) {
			add(t.fn)
		}
	}
	place := fieldType(p.tNode, p.nPos).Underlying().(*types.Pointer).Elem()
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		name := p.fname(fn)
		for _, fn := range fn.AnonFuncs {
			add(fn)
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees(c) {
						add(g)
					}
				}
				if al, ok := in.(*ssa.Alloc); ok && types.Identical(al.Type().Underlying().(*types.Pointer).Elem(), p.tNode) {
					n++
					r.ob(p.placed(al), "pass", name, p.where(in), func() string {
						return "a node is made that does not have the position of the node it is made from"
					})
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				base, what := st.Addr, ""
				switch f, isField := st.Addr.(*ssa.FieldAddr); {
				case isField && types.Identical(f.X.Type().Underlying().(*types.Pointer).Elem(), p.tNode) && f.Field == p.nPos:
					base, what = f.X, "the position of a node is changed"
				case isField && types.Identical(f.X.Type().Underlying().(*types.Pointer).Elem(), place):
					base, what = f.X, "a position is changed"
				case !isField && types.Identical(st.Val.Type(), p.tNode):
					what = "a node is overwritten"
				case !isField && types.Identical(st.Val.Type(), place):
					what = "a position is overwritten"
				default:
					continue
				}
				n++
				_, fresh := base.(*ssa.Alloc)
				r.ob(fresh, "pass", name, p.where(in), func() string { return what })
			}
		}
		r.ob(true, "pass", name, p.pos(fn.Pos()), nil)
		r.sample("%s: %d stores to nodes and positions", name, n)
	}
}

// placed: a new node is a copy of another one, or gets the position of another one
func (p *Program) placed(al *ssa.Alloc) bool {
	from := func(v ssa.Value, whole bool) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		f, isField := u.X.(*ssa.FieldAddr)
		return whole || isField && f.Field == p.nPos && types.Identical(f.X.Type().Underlying().(*types.Pointer).Elem(), p.tNode)
	}
	for _, in := range *al.Referrers() {
		switch i := in.(type) {
		case *ssa.Store:
			if i.Addr == al && from(i.Val, true) {
				return true
			}
		case *ssa.FieldAddr:
			for _, u := range *i.Referrers() {
				if st, ok := u.(*ssa.Store); ok && i.Field == p.nPos && st.Addr == i && from(st.Val, false) {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register(&check{id: "C23", level: "proof", run: c23, trust: engineTrust,
		rule: "at every match reported by an Eval: the node's position is that of the char its text starts with, leading white space apart, a node without text has none, and a block's content node has that of the first char behind the open part; positions are only looked up for chars that have been read; nothing reachable from the tree-simplifying methods stores to a position"})
}
