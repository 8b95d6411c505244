package main

// C19: nothing that is wrong with a definition is passed over.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func c19(p *Program, r *Report) {
	d := p.defReaders(r)
	for _, rd := range d.all {
		rd := rd
		guarded(r, rd.name, func() { d.failures(rd) })
	}
	tops := d.tops()
	lines := 0
	for _, f := range tops {
		f := f
		guarded(r, p.fname(f), func() { lines += d.whole(f, tops) })
	}
	if len(tops) == 0 || lines == 0 {
		unresolved("no exported function reads definitions line by line")
	}
}

func (d *defReaders) failures(rd *reader) {
	p, r := d.p, d.r
	where := p.pos(rd.fn.Pos())
	x := d.exec()
	x.h.call = d.nested(rd, nil)
	x.h.ret = func(x *Exec, s *State, fn *ssa.Function, v Val) {
		// a helper of the library fails
		res := fn.Signature.Results()
		if t, ok := v.(VTuple); ok && fn != rd.fn && fn.Pkg == p.lib && res.Len() == 2 && isErrorType(res.At(1).Type()) {
			if isNil, known := s.nilKnown(t.v[1]); !known || !isNil {
				s.flags["failed"] = true
			}
		}
	}
	good := 0
	for _, o := range x.run(rd.fn, []entry{d.entry(x, rd)}) {
		s := o.st
		t, ok := o.ret.(VTuple)
		if !r.ob(ok && len(t.v) == 2, "result", rd.name, where, func() string { return "no result" }) {
			continue
		}
		isNil, known := s.nilKnown(t.v[1])
		if !r.ob(known, "error", rd.name, where, func() string { return "whether there is an error is not known: " + s.show(t.v[1]) }) || !isNil {
			continue
		}
		good++
		if d.onMade != nil {
			d.onMade(x, s, rd, t.v[0])
		}
		r.ob(!s.flags["failed"], "passed on", rd.name, where, func() string {
			return "part of the definition could not be read, but the rule is accepted\n" + s.dump()
		})
		rn, rk := s.nilKnown(t.v[0])
		r.ob(rk && !rn, "rule", rd.name, where, func() string { return "neither a rule nor an error: " + s.show(t.v[0]) })
		q := s.ghost["q"].(VInt).l
		r.ob(s.lt(K(0), q), "takes", rd.name, where, func() string { return "a rule may be made from no text at all\n" + s.dump() })
		if rd.stops >= 0 && !s.le(S(symE), q) {
			u := s.clone()
			u.assumeLt(q, S(symE))
			at, ok := u.ghost["stop"].(VInt)
			r.ob(u.bot() || ok && u.eq(at.l, q), "stops", rd.name, where, func() string {
				return "reading stops before a char that is none of those to stop at\n" + u.dump()
			})
		}
		r.sample("%s: accepted after %s chars", rd.name, q)
	}
	r.ob(good > 0, "anchor", rd.name, where, func() string { return "no rule is ever returned" })
	r.absorb(x, rd.name)
}

const commentLine = "comment line"

// tops are the exported functions that take definitions
func (d *defReaders) tops() (out []*ssa.Function) {
	p := d.p
	leads := map[*ssa.Function]bool{}
	for f := range d.of {
		leads[f] = true
	}
	for again := true; again; {
		again = false
		for _, f := range p.funcs {
			if leads[f] || f.Pkg != p.lib {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && leads[g] {
							leads[f] = true
							again = true
						}
					}
				}
			}
		}
	}
	for _, f := range p.funcs {
		res := f.Signature.Results()
		if leads[f] && d.of[f] == nil && f.Object() != nil && f.Object().Exported() && res.Len() == 2 && isErrorType(res.At(1).Type()) {
			out = append(out, f)
		}
	}
	return
}

// whole: what an exported function accepts was read without failure, from its beginning to its end
func (d *defReaders) whole(f *ssa.Function, tops []*ssa.Function) (lines int) {
	p, r := d.p, d.r
	name, where := p.fname(f), p.pos(f.Pos())
	isTop := map[*ssa.Function]bool{}
	for _, t := range tops {
		isTop[t] = t != f
	}
	if v := p.method(types.NewPointer(p.tGrammar), "Validate"); v != nil {
		isTop[v] = true
	}
	x := d.exec()
	x.lenNames = true
	s := newState()
	s.ghost["n"] = VInt{K(0)}
	var args []Val
	for _, prm := range f.Params {
		if isPtrTo(prm.Type(), p.tGrammar) {
			o := VOpq{id: internID("grammar"), key: "grammar", typ: prm.Type()}
			s.nilf[o.id] = false
			args = append(args, o)
			continue
		}
		args = append(args, x.sym(s, prm.Type(), "arg:"+prm.Name()))
	}
	reads := d.nested(nil, nil)
	direct := 0
	x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, g *ssa.Function, a []Val) ([]Out, bool) {
		if p.makesStream(g) {
			t, ok := a[0].(VStr)
			r.ob(ok && given(args, t), "whole", name, p.where(in), func() string {
				return "a rule is read from something else than the definition given: " + s.show(a[0])
			})
			return []Out{{s, x.baseStream(s)}}, true
		}
		if d.of[g] != nil {
			direct++
			return reads(x, s, in, g, a)
		}
		if !isTop[g] {
			return nil, false
		}
		s.flags["line read"] = true
		fails := s.clone()
		fails.flags["failed"] = true
		e := x.nonNil(fails, errorType, "read error")
		res := g.Signature.Results()
		if res.Len() == 1 {
			return []Out{{s, VNil{}}, {fails, e}}, true
		}
		return []Out{{s, VTuple{[]Val{x.nonNil(s, res.At(0).Type(), "made"), VNil{}}}}, {fails, VTuple{[]Val{x.symOrNil(fails, res.At(0).Type()), e}}}}, true
	}
	// every line is read, or there is nothing in it
	elem := x.h.elemLoad
	x.h.elemLoad = func(x *Exec, s *State, in ssa.Instruction, seq Val, idx Lin, v Val) []Out {
		if t, ok := v.(VStr); ok && inLoopOf(p, in) {
			lines++
			t = VStr{id: freshID()}
			s.ghost["line"] = t
			delete(s.flags, "line read")
			delete(s.flags, "nothing")
			return []Out{{s, t}}
		}
		return elem(x, s, in, seq, idx, v)
	}
	fact := x.h.fact
	x.h.fact = func(x *Exec, s *State, b *VBool, val bool) {
		fact(x, s, b, val)
		if t, ok := s.ghost["line"].(VStr); ok {
			if b.op == 'a' && b.key == commentLine && val || s.le(x.strLen(s, t), K(0)) {
				s.flags["nothing"] = true
			}
		}
	}
	x.h.backEdge = func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock) {
		if _, ok := s.ghost["line"]; ok && fn == f {
			r.ob(s.flags["line read"] || s.flags["nothing"], "lines", name, p.where(head.Instrs[0]), func() string {
				return "a line is passed over that is neither empty nor a comment\n" + s.dump()
			})
			delete(s.ghost, "line")
			delete(s.flags, "line read")
			delete(s.flags, "nothing")
		}
	}
	good := 0
	for _, o := range x.run(f, []entry{{s, args, nil}}) {
		s := o.st
		t, ok := o.ret.(VTuple)
		if !r.ob(ok && len(t.v) == 2, "result", name, where, func() string { return "no result" }) {
			continue
		}
		isNil, known := s.nilKnown(t.v[1])
		if !r.ob(known, "error", name, where, func() string { return "whether there is an error is not known: " + s.show(t.v[1]) }) || !isNil {
			continue
		}
		good++
		r.ob(!s.flags["failed"], "passed on", name, where, func() string {
			return "part of the definition could not be read, but it is accepted\n" + s.dump()
		})
		rn, rk := s.nilKnown(t.v[0])
		r.ob(rk && !rn, "made", name, where, func() string { return "neither a result nor an error: " + s.show(t.v[0]) })
		if q, ok := s.ghost["q"].(VInt); ok && direct > 0 {
			r.ob(s.le(S(symE), q.l), "whole", name, where, func() string { return "the definition may go on where reading stops\n" + s.dump() })
		}
		_, open := s.ghost["line"]
		r.ob(!open, "lines", name, where, func() string { return "lines may be left" })
	}
	r.ob(good > 0, "anchor", name, where, func() string { return "nothing is ever accepted" })
	r.absorb(x, name)
	return
}

// given: the text is one of those the function was given
func given(args []Val, t VStr) bool {
	for _, a := range args {
		if s, ok := a.(VStr); ok && s.id == t.id && t.cst == nil {
			return true
		}
	}
	return false
}

// inLoopOf: the instruction is part of a loop
func inLoopOf(p *Program, in ssa.Instruction) bool {
	for _, body := range p.info(in.Parent()).loopOf {
		if body[in.Block()] {
			return true
		}
	}
	return false
}

func init() {
	register(&check{id: "C19", level: "proof", run: c19, trust: engineTrust, rule: "on every path of every function that reads a rule from a stream: if reading a part, or a call of a library, failed, the function fails; a rule that is returned is not nil, took at least one char, and where chars to stop at are given the next char is one of them or the text ends; on every path of every exported function that takes definitions: no failure is dropped, the stream made holds the text given and is read to its end, every line is read unless it is empty or begins as a comment"})
}
