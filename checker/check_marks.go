package main

// C20: between the parts of a definition there is nothing but white space, comments and annotations, and annotations
// mark exactly the part that follows.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// marks: the symbol of each annotation, and the argument of the method that sets them
type marks struct {
	d     *defReaders
	r     *Report
	syms  []int64
	names []string
	arg   []int
	set   int
}

// newMarks finds which argument of the setter is what, for every rule
func newMarks(d *defReaders) *marks {
	p, r := d.p, d.r
	m := &marks{d: d, r: r}
	for _, a := range []struct{ con, get string }{{"TokenizedSymbol", "IsTokenized"}, {"VirtualSymbol", "IsVirtual"}, {"NonDataSymbol", "IsNonData"}} {
		m.syms = append(m.syms, p.constInt(a.con))
		m.names = append(m.names, a.get)
		m.arg = append(m.arg, -1)
	}
	if d.setter == "" {
		unresolved("rules have no method that takes three annotations")
	}
	for _, t := range p.ruleImpls() {
		set := p.method(t, d.setter)
		if set == nil || set.Blocks == nil {
			unresolved("%s.%s has no source", t, d.setter)
		}
		name := p.fname(set) + " of " + types.TypeString(t, func(*types.Package) string { return "" })
		x := newExec(p)
		x.debug = debugAll
		s, args := x.evalEntry(set, t)
		pt, isPtr := t.Underlying().(*types.Pointer)
		if !r.ob(isPtr, "annotated", name, p.pos(set.Pos()), func() string { return "a rule that is a value cannot be annotated" }) {
			continue
		}
		self := VPtr{obj: x.newObj(s, pt.Elem())}
		args[0] = self
		for _, o := range x.run(set, []entry{{s, args, nil}}) {
			for i, g := range m.names {
				get := p.method(t, g)
				if get == nil || get.Blocks == nil {
					unresolved("%s.%s has no source", t, g)
				}
				u := o.st.clone()
				for _, q := range x.run(get, []entry{{u, []Val{self}, nil}}) {
					b, ok := q.ret.(*VBool)
					k := -1
					for j := 1; ok && j < len(args); j++ {
						if a, isB := args[j].(*VBool); isB && a.op == 'a' && b.op == 'a' && a.id == b.id {
							k = j - 1
						}
					}
					r.ob(k >= 0, "annotated", name, p.pos(get.Pos()), func() string {
						return g + " does not tell what " + d.setter + " was given: " + q.st.show(q.ret)
					})
					r.ob(k < 0 || m.arg[i] < 0 || m.arg[i] == k, "annotated", name, p.pos(get.Pos()), func() string {
						return "not all rules take annotations in the same order"
					})
					if k >= 0 {
						m.arg[i] = k
					}
				}
			}
		}
		r.absorb(x, name)
	}
	return m
}

func expFlag(i int) string { return "annotation " + string(rune('0'+i)) }

// symbols of comments
const slash, newLine = '/', '\n'

// settle judges the last char that was taken: it is white space, an annotation or part of a comment
func (m *marks) settle(x *Exec, s *State, where, name string) {
	at, ok := s.ghost["taken"].(VInt)
	if !ok || s.bot() {
		return
	}
	delete(s.ghost, "taken")
	c := s.charAt(tapeT, at.l)
	v, known := s.constOf(c)
	is := func(k int64) bool { return known && v == k }
	if s.flags["comment"] {
		if is(newLine) {
			delete(s.flags, "comment")
		}
		return
	}
	if s.flags["slash"] {
		delete(s.flags, "slash")
		if m.r.ob(is(slash), "between", name, where, func() string { return "a char after / is passed over that does not make it a comment\n" + s.dump() }) {
			s.flags["comment"] = true
		}
		return
	}
	for i, k := range m.syms {
		if is(k) {
			s.flags[expFlag(i)] = true
			return
		}
	}
	if is(slash) {
		s.flags["slash"] = true
		return
	}
	w, wk := s.predTruth("white", c)
	m.r.ob(wk && w || is(' ') || is('\t') || is('\n') || is('\r'), "between", name, where, func() string {
		return "a char is passed over that is neither white space nor an annotation nor part of a comment\n" + s.dump()
	})
}

// tested: the char there is not known, but still at hand
func (s *State) tested(at Lin) bool {
	c := s.charAt(tapeT, at)
	if _, known := s.constOf(c); known {
		return false
	}
	for _, v := range s.top().regs {
		if i, ok := v.(VInt); ok && i.l.eq(c) {
			return true
		}
	}
	return false
}

// owed: the part read last has the annotations before it
func (m *marks) owed(s *State, where, name string) {
	if _, ok := s.ghost["unmarked"]; !ok {
		return
	}
	delete(s.ghost, "unmarked")
	for i := range m.syms {
		m.r.ob(!s.flags[expFlag(i)], "annotation", name, where, func() string {
			return "the annotation that " + m.names[i] + " tells about is not set for the part that follows\n" + s.dump()
		})
		delete(s.flags, expFlag(i))
	}
}

// parts calls what the function calls, also in what it calls that is not a reader itself
func (d *defReaders) calls(f *ssa.Function, each func(ci ssa.CallInstruction, g *ssa.Function)) {
	seen := map[*ssa.Function]bool{f: true}
	var w []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && d.of[g] == nil && d.p.inRepo(g) && g.Blocks != nil && !seen[g] {
			seen[g] = true
			w = append(w, g)
		}
	}
	for w = append(w, f); len(w) > 0; w = w[1:] {
		for _, b := range w[0].Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					g := ci.Common().StaticCallee()
					each(ci, g)
					add(g)
				}
			}
		}
	}
}

// dispatches: functions that read parts of any kind
func (d *defReaders) dispatches(f *ssa.Function) bool {
	kinds := map[*ssa.Function]bool{}
	d.calls(f, func(ci ssa.CallInstruction, g *ssa.Function) {
		if g != nil && d.of[g] != nil {
			kinds[g] = true
		}
	})
	return len(kinds) >= 3
}

// sets: functions that annotate parts
func (d *defReaders) sets(f *ssa.Function) bool {
	any := false
	d.calls(f, func(ci ssa.CallInstruction, g *ssa.Function) {
		c := ci.Common()
		any = any || c.IsInvoke() && c.Method.Name() == d.setter || g != nil && g.Name() == d.setter
	})
	return any
}

func c20(p *Program, r *Report) {
	d := p.defReaders(r)
	m := newMarks(d)
	n := 0
	for _, rd := range d.all {
		rd := rd
		if d.dispatches(rd.fn) || d.sets(rd.fn) {
			n++
			guarded(r, rd.name, func() { m.between(rd) })
		}
	}
	if n == 0 || m.set == 0 {
		unresolved("no function reads parts of any kind, or none sets annotations")
	}
}

func (m *marks) between(rd *reader) {
	d, r, p := m.d, m.r, m.d.p
	name, where := rd.name, p.pos(rd.fn.Pos())
	x := d.exec()
	x.h.streamOp = func(x *Exec, s *State, in ssa.CallInstruction, op string, before, after Lin, v Val) {
		m.settle(x, s, p.where(in), name)
		m.owed(s, p.where(in), name)
		if op == "Next" && s.lt(before, after) {
			s.ghost["taken"] = VInt{before}
		} else if op == "Match" && !s.eq(before, after) {
			r.ob(false, "between", name, p.where(in), func() string { return "chars are passed over that are not looked at" })
		}
	}
	loopHead := x.h.loopHead
	x.h.loopHead = func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock) {
		loopHead(x, s, fn, head)
		if at, ok := s.ghost["taken"].(VInt); ok {
			if _, known := s.constOf(s.charAt(tapeT, at.l)); known {
				m.settle(x, s, p.where(head.Instrs[0]), name)
			}
		}
	}
	x.h.backEdge = func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock) {
		if at, ok := s.ghost["taken"].(VInt); ok && s.tested(at.l) {
			return
		}
		m.settle(x, s, p.where(head.Instrs[0]), name)
		m.owed(s, p.where(head.Instrs[0]), name)
	}
	calls, set := 0, 0
	x.h.call = d.nested(rd, func(x *Exec, s *State, in ssa.CallInstruction, t *taken) []*State {
		w := p.where(in)
		calls++
		m.settle(x, s, w, name)
		m.owed(s, w, name)
		r.ob(!s.flags["comment"] && !s.flags["slash"], "between", name, w, func() string { return "a part is read within a comment\n" + s.dump() })
		if t.ok && !t.given {
			s.ghost["unmarked"] = VInt{t.item}
		}
		return []*State{s}
	})
	d.annotated = func(x *Exec, s *State, in ssa.CallInstruction, item Lin, args []Val) {
		w := p.where(in)
		set++
		m.settle(x, s, w, name)
		n := s.ghost["n"].(VInt).l
		r.ob(s.eq(item, n.addc(-1)), "annotation", name, w, func() string { return "another part than the last one read is annotated\n" + s.dump() })
		for i := range m.syms {
			b, ok := args[m.arg[i]].(*VBool)
			v, known := false, false
			if ok {
				v, known = s.truthOf(b)
			}
			r.ob(known && v == s.flags[expFlag(i)], "annotation", name, w, func() string {
				return "what " + m.names[i] + " will tell about the part is not whether its symbol is in front of it\n" + s.dump()
			})
			delete(s.flags, expFlag(i))
		}
		delete(s.ghost, "unmarked")
	}
	defer func() { d.annotated = nil }()
	good := 0
	for _, o := range x.run(rd.fn, []entry{d.entry(x, rd)}) {
		s := o.st
		t, ok := o.ret.(VTuple)
		if !r.ob(ok && len(t.v) == 2, "result", name, where, func() string { return "no result" }) {
			continue
		}
		isNil, known := s.nilKnown(t.v[1])
		if !r.ob(known, "error", name, where, func() string { return "whether there is an error is not known: " + s.show(t.v[1]) }) || !isNil {
			continue
		}
		good++
		m.settle(x, s, where, name)
		m.owed(s, where, name)
		r.ob(!s.flags["slash"], "between", name, where, func() string { return "a single / is passed over" })
		for i := range m.syms {
			r.ob(!s.flags[expFlag(i)], "annotation", name, where, func() string {
				return "an annotation with no part behind it is accepted\n" + s.dump()
			})
		}
	}
	r.sample("%s: %d ways to read a part, %d ways to annotate one, %d ways to end", name, calls, set, good)
	// a function that only picks the kind of part takes nothing else, and leaves annotations to its caller
	r.ob(good > 0 && calls > 0, "anchor", name, where, func() string { return "no part is read" })
	m.set += set
	r.absorb(x, name)
}

func init() {
	register(&check{id: "C20", level: "proof", run: c20, trust: engineTrust, rule: "on every path of every function that reads parts of any kind: a char taken other than by reading a part is white space, an annotation symbol, or in a comment (from // to the end of the line); the annotations set on a part are exactly those whose symbols were taken since the part before it, each passed as the argument its getter reports for every type of rule; no annotation is pending when another part is read, or at the end"})
}
