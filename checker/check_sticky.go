package main

// C17: where white space may come, and which matches are sticky.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sides: what the evaluation of a part may tell about white space
func (x *Exec) sides(kind, optionType string) func(x *Exec, s *State, e *evalOut) []*State {
	return func(x *Exec, s *State, e *evalOut) (out []*State) {
		if kind == "block" {
			return []*State{s} // sticky never
		}
		for _, sticky := range []bool{true, false} {
			t := s.clone()
			t.wobj(e.res).f[x.p.fSticky] = mkBool(sticky)
			if !sticky {
				t.flags["loose"] = true
			}
			np, ok := e.node.(VPtr)
			if !ok || kind != "sequence" {
				if ok {
					t.wobj(np.obj).f[x.p.nSticky] = mkBool(sticky)
				}
				out = append(out, t)
				continue
			}
			none, some := VList{}, VList{p: []part{{kind: 'e', v: x.sym(t, types.NewPointer(x.p.tNode), "")}}}
			text := VRope{}
			typ := fieldType(x.p.tNode, x.p.nType)
			for k := 0; k < 3; k++ {
				u := t.clone()
				n := u.wobj(np.obj)
				n.f[x.p.nSticky] = mkBool(sticky)
				n.f[x.p.nChars] = text
				opt := optionType
				switch k {
				case 0: // an option without content
					n.f[x.p.nType], n.f[x.p.nKids] = VStr{cst: &opt}, none
				case 1:
					n.f[x.p.nType], n.f[x.p.nKids] = VStr{cst: &opt}, some
				case 2:
					v := x.sym(u, typ, "part type")
					n.f[x.p.nType] = v
					if st := x.assume(u, x.equal(u, v, VStr{cst: &opt}), false); len(st) == 1 {
						u = st[0]
						n = u.wobj(np.obj)
					}
					n.f[x.p.nKids] = x.sym(u, types.NewSlice(types.NewPointer(x.p.tNode)), "")
					n.f[x.p.nChars] = x.sym(u, fieldType(x.p.tNode, x.p.nChars), "")
				}
				if k != 0 {
					d := "SUGGEST_SKIP"
					if sticky {
						d = "SUGGEST_NOT_SKIP"
					}
					u.next(x.p.intConst(d))
				}
				out = append(out, u)
			}
		}
		return
	}
}

// next notes the demand for the part that follows; it is kept apart in every state
func (s *State) next(d int64) {
	for f := range s.flags {
		if strings.HasPrefix(f, "next ") {
			delete(s.flags, f)
		}
	}
	s.flags[fmt.Sprint("next ", d)] = true
	s.ghost["next"] = VInt{K(d)}
}

// keepDemands: the demands for leading spaces are not mixed in joins
func (p *Program) keepDemands() {
	var back func(v ssa.Value)
	back = func(v ssa.Value) {
		ph, ok := v.(*ssa.Phi)
		if !ok || exactReg[v] {
			return
		}
		exactReg[v] = true
		for _, e := range ph.Edges {
			back(e)
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().Signature().Results().Len() != 1 || !isPtrTo(c.Common().Signature().Results().At(0).Type(), p.tResult) {
					continue
				}
				for _, a := range c.Common().Args {
					if t, ok := a.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
						back(a)
					}
				}
			}
		}
	}
}

func c17(p *Program, r *Report) {
	c, isConst := p.lib.Members["TypeOption"].(*ssa.NamedConst)
	if !isConst {
		unresolved("constant TypeOption is gone")
	}
	option := constString(c)
	kinds := p.ruleTypes()
	comp := map[*ssa.Function]string{}
	for _, c := range p.composites() {
		comp[c.fn] = c.kind
	}
	entryDemands(p, r)
	for _, f := range p.funcs {
		if f := f; p.longestOf(f) && f.Blocks != nil {
			guarded(r, p.fname(f), func() { c25Longest(p, r, f, "any") })
		}
	}
	fns, ts := evalImpls(p)
	for i, fn := range fns {
		i, fn := i, fn
		name, where := p.fname(fn), p.pos(fn.Pos())
		kind := comp[fn]
		guarded(r, name, func() {
			x := newExec(p)
			x.debug = debugAll
			x.blank = map[int]bool{p.nChars: true, p.nKids: true, p.nPos: true, p.nVirtual: true, p.nNonData: true, p.nTokenized: true, p.nName: true}
			if kind == "choice" {
				x.ends = true
				x.looseStreams()
			}
			if kind == "block" {
				x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, f *ssa.Function, args []Val) ([]Out, bool) {
					if !p.longestOf(f) {
						return nil, false
					}
					return x.longestCall(s, in, f, args, f.Params[0].Type()), true
				}
			}
			x.deadline = r.entryDeadline()
			x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
				r.ob(false, "stream", name, p.where(in), func() string { return msg })
			}
			s, args := x.evalEntry(fn, ts[i])
			var es []entry
			for _, d := range []string{"SUGGEST_SKIP", "SUGGEST_NOT_SKIP", "NOT_SKIP"} {
				t := s.clone()
				as := append([]Val(nil), args...)
				v := VInt{K(p.intConst(d))}
				for j, prm := range fn.Params {
					if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						as[j] = v
					}
				}
				t.ghost["given"] = v
				t.next(p.intConst(d))
				es = append(es, entry{t, as, nil})
			}
			x.h.evalCall = func(x *Exec, s *State, in ssa.CallInstruction, recv, cs, flag Val, e *evalOut) {
				want := s.ghost["given"].(VInt).l
				switch kind {
				case "sequence":
					want = s.ghost["next"].(VInt).l
				case "block":
					if s.flags["part"] {
						want = K(p.intConst("NOT_SKIP"))
					}
				}
				s.flags["part"] = true
				f, ok := flag.(VInt)
				r.ob(ok && s.eq(f.l, want), "demand", name, p.where(in), func() string {
					return fmt.Sprintf("a part is evaluated with the demand %s for leading spaces, not %s\n%s", s.show(flag), want, s.dump())
				})
			}
			p.keepDemands()
			x.h.fork = x.sides(kind, option)
			good := 0
			for _, o := range x.run(fn, es) {
				s := o.st
				w, ok := x.resultOf(s, o.ret, nil)
				if !r.ob(ok, "result", name, where, func() string { return "what is returned is not a result this function builds: " + s.show(o.ret) }) {
					continue
				}
				isNil, known := s.nilKnown(w.node)
				if !r.ob(known, "node", name, where, func() string { return "cannot tell whether there is a node: " + s.show(w.node) }) || isNil {
					continue
				}
				good++
				want := !s.flags["loose"]
				switch {
				case kind == "block", kinds[fn] == "TypeString":
					want = false
				}
				ns := x.fieldOf(s, w.node, p.tNode, "Sticky")
				for what, v := range map[string]Val{"result": w.sticky, "node": ns} {
					b, ok := v.(*VBool)
					ok = ok && b != anyBool && x.mustBeSame(s, b, mkBool(want))
					r.ob(ok, "sticky", name, where, func() string {
						return fmt.Sprintf("stickiness of the %s is %s, not %v\n%s", what, s.show(v), want, s.dump())
					})
				}
			}
			r.ob(good > 0, "anchor", name, where, func() string { return "no match is ever reported" })
			r.absorb(x, name)
		})
	}
}

// entryDemands: what the whole text, a rule called by name and embedded matches demand
func entryDemands(p *Program, r *Report) {
	for m, d := range map[string]string{"EvalRule": "SUGGEST_SKIP", "EvalEmbed": "NOT_SKIP", "EvalRaw": "SUGGEST_SKIP"} {
		m, want := m, K(p.intConst(d))
		fn := p.method(types.NewPointer(p.tGrammar), m)
		if fn == nil || fn.Blocks == nil {
			unresolved("Grammar.%s not found", m)
		}
		name := p.fname(fn)
		guarded(r, name, func() {
			x := newExec(p)
			x.debug = debugAll
			x.spans = true
			x.deadline = r.entryDeadline()
			p.keepDemands()
			s, args := x.evalEntry(fn, fn.Params[0].Type())
			o := VOpq{id: internID("grammar"), key: "grammar", typ: fn.Params[0].Type()}
			s.nilf[o.id] = false
			args[0] = o
			s.ghost["from"] = VInt{K(0)}
			x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, f *ssa.Function, args []Val) ([]Out, bool) {
				if p.makesStream(f) {
					return []Out{{s, x.baseStream(s)}}, true
				}
				return nil, false
			}
			calls := 0
			x.h.evalCall = func(x *Exec, s *State, in ssa.CallInstruction, recv, cs, flag Val, e *evalOut) {
				calls++
				s.ghost["from"] = VInt{e.from}
				t := s.clone()
				if m == "EvalRaw" { // only the first match is looked at
					t.assumeEq(e.from, K(0))
				}
				f, ok := flag.(VInt)
				r.ob(t.bot() || ok && t.eq(f.l, want), "demand", name, p.where(in), func() string {
					return fmt.Sprintf("a rule is evaluated with the demand %s for leading spaces, not %s\n%s", s.show(flag), want, t.dump())
				})
			}
			x.run(fn, []entry{{s, args, nil}})
			r.ob(calls > 0, "anchor", name, p.pos(fn.Pos()), func() string { return "no rule is evaluated" })
			r.absorb(x, name)
		})
	}
}

func init() {
	register(&check{id: "C17", level: "proof", run: c17, trust: engineTrust,
		rule: "for every implementation of IRule.Eval, run once for each demand: each part is evaluated with the demand that is due (the one given; in a sequence, after a part that is no empty option, the one its stickiness asks for; inside a block none may be skipped), and result and node of a match are sticky exactly if the rule is and everything evaluated is; entry points start with the demand that is due"})
}
