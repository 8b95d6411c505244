package main

// C03: parsing a whole text covers it completely.
//
// A list of nodes is followed as the stretch of the text that its nodes cover, as long as they follow on one another.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// spanOf tells which stretch of the text a node is for
func (x *Exec) spanOf(s *State, v Val) (lo, hi Lin, ok bool) {
	at, isInt := s.ghost["from"].(VInt)
	switch v := v.(type) {
	case VOpq:
		if v.key == spanKey+"[]" && v.idx != nil && isInt {
			return at.l, *v.idx, true
		}
	case VPtr:
		o := s.heap[v.obj]
		if o == nil || v.path != "" || o.summary || !types.Identical(o.typ, x.p.tNode) {
			return
		}
		if o.tag == "elem:"+spanKey+"[]" && o.symIdx != nil && isInt {
			return at.l, *o.symIdx, true
		}
		if o.symb {
			return
		}
		r, isRope := o.f[x.p.nChars].(VRope)
		l, isList := o.f[x.p.nKids].(VList)
		r = s.normRope(r)
		if isRope && isList && len(l.p) == 0 && len(r.p) == 1 && r.p[0].tape == tapeT {
			return r.p[0].lo, r.p[0].hi, true
		}
	}
	return
}

// makesStream: the function makes a stream from a text
func (p *Program) makesStream(fn *ssa.Function) bool {
	sig := fn.Signature
	if sig.Recv() != nil || sig.Results().Len() != 1 || !p.inRepo(fn) {
		return false
	}
	rt := sig.Results().At(0).Type()
	if !p.isStream(rt) && !types.Implements(rt, p.tStream) {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if p.isStream(sig.Params().At(i).Type()) {
			return false
		}
	}
	return true
}

func c03(p *Program, r *Report) {
	for _, m := range []string{"EvalRaw", "EvalEmbed"} {
		fn := p.method(types.NewPointer(p.tGrammar), m)
		if fn == nil || fn.Blocks == nil {
			unresolved("Grammar.%s not found", m)
		}
		name := p.fname(fn)
		guarded(r, name, func() {
			x := newExec(p)
			x.debug = debugAll
			x.spans = true
			x.deadline = r.entryDeadline()
			where := p.pos(fn.Pos())
			x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
				r.ob(false, "stream", name, p.where(in), func() string { return msg })
			}
			s, args := x.evalEntry(fn, fn.Params[0].Type())
			o := VOpq{id: internID("grammar"), key: "grammar", typ: fn.Params[0].Type()}
			s.nilf[o.id] = false
			args[0] = o
			s.ghost["from"] = VInt{K(0)}
			x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, f *ssa.Function, args []Val) ([]Out, bool) {
				if p.makesStream(f) {
					return []Out{{s, x.baseStream(s)}}, true
				}
				return nil, false
			}
			calls := 0
			x.h.evalCall = func(x *Exec, s *State, in ssa.CallInstruction, recv, cs, flag Val, e *evalOut) {
				calls++
				s.ghost["from"] = VInt{e.from}
			}
			outs := x.run(fn, []entry{{s, args, nil}})
			good := 0
			for _, o := range outs {
				s := o.st
				var nodes Val
				if t, ok := o.ret.(VTuple); ok && len(t.v) == 2 {
					isNil, known := s.nilKnown(t.v[1])
					if !r.ob(known, "error", name, where, func() string { return "whether there is an error is not known: " + s.show(t.v[1]) }) {
						continue
					}
					if !isNil {
						an, ak := s.nilKnown(t.v[0])
						r.ob(ak && an, "error", name, where, func() string { return "nodes are returned together with an error: " + s.show(t.v[0]) })
						continue
					}
					nodes = x.fieldOf(s, t.v[0], x.p.tAST, "Nodes")
				} else {
					w, ok := x.resultOf(s, o.ret, nil)
					if !r.ob(ok, "result", name, where, func() string { return "what is returned is not a result made here: " + s.show(o.ret) }) {
						continue
					}
					if isNil, known := s.nilKnown(w.node); known && isNil {
						en, ek := s.nilKnown(w.err)
						r.ob(ek && !en, "error", name, where, func() string { return "neither a node nor an error is returned" })
						continue
					}
					nodes = x.fieldOf(s, w.node, x.p.tNode, "ChildNodes")
				}
				good++
				l, ok := nodes.(VList)
				whole := ok && len(l.p) == 1 && l.p[0].kind == 'w' && l.p[0].key == spanKey && s.eq(l.p[0].lo, K(0)) && s.eq(l.p[0].hi, S(symE))
				if ok && len(l.p) == 0 && s.eq(S(symE), K(0)) {
					whole = true
				}
				r.ob(whole, "whole", name, where, func() string {
					return fmt.Sprintf("the nodes returned are %s, the text is 0 to E\n%s", s.show(nodes), s.dump())
				})
				r.sample("%s returns nodes %s", name, s.show(nodes))
			}
			r.ob(calls > 0 && good > 0, "anchor", name, where, func() string { return "no rule is evaluated, or no nodes are ever returned" })
			r.absorb(x, name)
		})
	}
}

// fieldOf reads a field by name of what a value points to
func (x *Exec) fieldOf(s *State, v Val, t *types.Named, field string) Val {
	v = x.resolve(s, v)
	p, ok := v.(VPtr)
	if !ok || s.heap[p.obj] == nil || !types.Identical(s.heap[p.obj].typ, t) {
		return VTop{t}
	}
	i := x.p.field(t, field)
	return x.loadPtr(s, nil, VPtr{p.obj, fmt.Sprintf(".%d", i)}, fieldType(t, i))
}

func init() {
	register(&check{id: "C03", level: "proof", run: c03, trust: engineTrust,
		rule: "at every return with nodes of EvalRaw and EvalEmbed, the stretches of the text covered by the nodes follow on one another and cover the text from its beginning to its end"})
}
