package main

// C14: which simplifications are made at which level.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var levels = []struct{ constant, passes string }{
	{"LevelRaw", ""},
	{"LevelBasic", "MergeStickyNodes RemoveRedundantNodes"},
	{"LevelNoVertual", "MergeStickyNodes RemoveVirtualNodes RemoveRedundantNodes"},
	{"LevelDataOnly", "MergeStickyNodes RemoveVirtualNodes RemoveNonDataNodes RemoveRedundantNodes"},
	{"", "MergeStickyNodes RemoveRedundantNodes"}, // any other level
}

// passesMade lists the passes a state has gone through
func (s *State) passesMade() string {
	var out []string
	for f := range s.flags {
		if strings.HasPrefix(f, "pass ") {
			out = append(out, f[len("pass "):])
		}
	}
	sort.Strings(out)
	for i := range out {
		out[i] = out[i][4:]
	}
	return strings.Join(out, " ")
}

func c14(p *Program, r *Report) {
	fn := p.method(types.NewPointer(p.tGrammar), "Eval")
	raw := p.method(types.NewPointer(p.tGrammar), "EvalRaw")
	if fn == nil || fn.Blocks == nil || raw == nil {
		unresolved("Grammar.Eval or EvalRaw not found")
	}
	passes := map[*ssa.Function]string{}
	for _, m := range []string{"MergeStickyNodes", "RemoveVirtualNodes", "RemoveNonDataNodes", "RemoveRedundantNodes"} {
		f := p.method(types.NewPointer(p.tAST), m)
		if f == nil {
			unresolved("AST.%s not found", m)
		}
		passes[f] = m
	}
	name, where := p.fname(fn), p.pos(fn.Pos())
	level := -1
	for i, prm := range fn.Params {
		if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			level = i
		}
	}
	if level < 0 {
		unresolved("Grammar.Eval has no level")
	}
	for _, l := range levels {
		l := l
		what := l.constant
		if what == "" {
			what = "any other level"
		}
		guarded(r, name+" at "+what, func() {
			x := newExec(p)
			x.debug = debugAll
			x.deadline = r.entryDeadline()
			s, args := x.evalEntry(fn, fn.Params[0].Type())
			o := VOpq{id: internID("grammar"), key: "grammar", typ: fn.Params[0].Type()}
			s.nilf[o.id] = false
			args[0] = o
			if l.constant != "" {
				args[level] = VInt{K(p.intConst(l.constant))}
			} else {
				v := globalSym("level")
				args[level] = VInt{S(v)}
				for _, k := range levels {
					if k.constant != "" {
						s.assumeNe(S(v), K(p.intConst(k.constant)))
					}
				}
			}
			ast := VOpq{id: internID("ast"), key: "ast", typ: types.NewPointer(p.tAST)}
			rerr := VOpq{id: internID("parse error"), key: "parse error", typ: errorType}
			x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, f *ssa.Function, a []Val) ([]Out, bool) {
				if f == raw {
					if !r.ob(len(s.flags) == 0, "once", name, p.where(in), func() string { return "the text is parsed again" }) {
						return nil, true
					}
					t := s.clone()
					for _, u := range []*State{s, t} {
						u.flags["parsed"] = true
					}
					s.nilf[ast.id] = false
					t.nilf[rerr.id] = false
					return []Out{{s, VTuple{[]Val{ast, VNil{}}}}, {t, VTuple{[]Val{VNil{}, rerr}}}}, true
				}
				if m, ok := passes[f]; ok && len(a) == 1 {
					v, isOpq := a[0].(VOpq)
					if pt, ok := a[0].(VPtr); ok {
						isOpq, v = s.mat[ast.id] == pt.obj && pt.path == "", ast
					}
					if !r.ob(isOpq && v.id == ast.id && s.nilf[ast.id] == false, "same tree", name, p.where(in), func() string { return m + " is made on something else than the tree: " + s.show(a[0]) }) {
						return nil, true
					}
					n := 0
					for f := range s.flags {
						if strings.HasPrefix(f, "pass ") {
							n++
						}
					}
					if !r.ob(n < 20, "passes", name, p.where(in), func() string { return "passes are repeated" }) {
						return nil, true
					}
					s.flags[fmt.Sprintf("pass %03d %s", n, m)] = true
					return []Out{{s, nil}}, true
				}
				return nil, false
			}
			trees := 0
			for _, o := range x.run(fn, []entry{{s, args, nil}}) {
				s := o.st
				t, ok := o.ret.(VTuple)
				if !r.ob(ok && len(t.v) == 2 && s.flags["parsed"], "result", name, where, func() string { return "returns without having parsed the text" }) {
					continue
				}
				isNil, known := s.nilKnown(t.v[1])
				failed := s.nilf[rerr.id] == false
				if _, ok := s.nilf[rerr.id]; !ok {
					failed = false
				}
				r.ob(known && isNil != failed, "error", name, where, func() string { return "the error of parsing is not passed on" })
				if failed {
					en, ek := s.nilKnown(t.v[0])
					e, isOpq := t.v[1].(VOpq)
					r.ob(ek && en, "error", name, where, func() string { return "a tree is returned together with an error" })
					_ = e
					_ = isOpq
					continue
				}
				trees++
				v, isOpq := t.v[0].(VOpq)
				if pt, ok := t.v[0].(VPtr); ok {
					isOpq, v = s.mat[ast.id] == pt.obj && pt.path == "", ast
				}
				r.ob(isOpq && v.id == ast.id, "same tree", name, where, func() string { return "what is returned is not the tree of the text: " + s.show(t.v[0]) })
				// the two removals may be made in either order
				made := strings.Replace(s.passesMade(), "RemoveNonDataNodes RemoveVirtualNodes", "RemoveVirtualNodes RemoveNonDataNodes", 1)
				r.ob(made == l.passes, "passes", name+" at "+what, where, func() string {
					return fmt.Sprintf("the passes made are [%s], not [%s]", made, l.passes)
				})
				r.sample("%s: [%s]", what, made)
			}
			r.ob(trees > 0, "anchor", name, where, func() string { return "no tree is ever returned" })
			r.absorb(x, name)
		})
	}
}

func init() {
	register(&check{id: "C14", level: "proof", run: c14, trust: engineTrust[:1],
		rule: "for each level, on every path of Grammar.Eval that returns a tree: the passes made on the tree of EvalRaw, in order, are those of the level"})
}
