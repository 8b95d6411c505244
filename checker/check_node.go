package main

// C13: what a node says about the rule it is for.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ruleType: the name of the constant for the kind of a rule
func (p *Program) ruleTypes() map[*ssa.Function]string {
	m := map[*ssa.Function]string{}
	for _, t := range p.terminals() {
		switch t.kind {
		case "char":
			m[t.fn] = "TypeChar"
		case "range":
			m[t.fn] = "TypeChars"
		case "text":
			m[t.fn] = "TypeChars"
			if t.skip[p.intConst("SUGGEST_NOT_SKIP")] {
				m[t.fn] = "TypeString"
			}
		case "end":
			m[t.fn] = "TypeEOF"
		}
	}
	for _, c := range p.composites() {
		m[c.fn] = map[string]string{"sequence": "TypeConcatenate", "choice": "TypeChoice", "repetition": "TypeRepetition", "group": "TypeGroup", "option": "TypeOption", "block": "TypeBlock"}[c.kind]
	}
	return m
}

// says runs a method of a rule that takes nothing and returns one value
func (x *Exec) says(r *Report, t types.Type, method string) Val {
	fn := x.p.method(t, method)
	if fn == nil || fn.Blocks == nil {
		unresolved("%s.%s has no source", t, method)
	}
	y := newExec(x.p)
	y.deadline = r.entryDeadline()
	s, args := y.evalEntry(fn, t)
	outs := y.run(fn, []entry{{s, args, nil}})
	r.absorb(y, x.p.fname(fn))
	if len(outs) != 1 {
		unresolved("%s.%s is not a simple value", t, method)
	}
	return outs[0].ret
}

func c13(p *Program, r *Report) {
	kinds := p.ruleTypes()
	fns, ts := evalImpls(p)
	flags := []struct {
		name, method string
		field        int
	}{{"Virtual", "IsVirtual", p.nVirtual}, {"NonData", "IsNonData", p.nNonData}, {"Tokenized", "IsTokenized", p.nTokenized}}
	methods := map[string]string{}
	for _, f := range flags {
		methods[f.name] = f.method
	}
	annotated(p, r, methods)
	for i, fn := range fns {
		i, fn := i, fn
		name, where := p.fname(fn), p.pos(fn.Pos())
		guarded(r, name, func() {
			x := newExec(p)
			x.debug = debugAll
			x.dull = true
			x.blank = map[int]bool{p.nChars: true, p.nKids: true, p.nPos: true, p.nSticky: true}
			x.deadline = r.entryDeadline()
			x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
				r.ob(false, "stream", name, p.where(in), func() string { return msg })
			}
			s, args := x.evalEntry(fn, ts[i])
			ref := kinds[fn] == ""
			recvT := fn.Params[0].Type()
			want := map[string]Val{}
			for _, f := range flags {
				want[f.name] = x.says(r, recvT, f.method)
			}
			rname := x.says(r, recvT, "Name")
			given := func(f string) *VBool { return &VBool{op: 'a', id: internID("part." + f), key: "part." + f} }
			x.h.evalCall = func(x *Exec, s *State, in ssa.CallInstruction, recv, cs, flag Val, e *evalOut) {
				np, ok := e.node.(VPtr)
				if !ref || !ok {
					return
				}
				r.ob(!s.flags["evaluated"], "reference", name, p.where(in), func() string { return "a reference evaluates two rules" })
				s.flags["evaluated"] = true
				for _, f := range flags {
					s.wobj(np.obj).f[f.field] = given(f.name)
				}
			}
			x.h.store = func(x *Exec, s *State, in ssa.Instruction, pt VPtr, v Val) {
				o := s.heap[pt.obj]
				if o == nil || o.tag != "childnode" {
					return
				}
				flag := false
				for _, f := range flags {
					flag = flag || pt.path == fmt.Sprintf(".%d", f.field)
				}
				r.ob(ref && flag, "part", name, p.where(in), func() string { return "what the node of a part says is changed" })
			}
			outs := x.run(fn, []entry{{s, args, nil}})
			good := 0
			for _, o := range outs {
				s := o.st
				w, ok := x.resultOf(s, o.ret, nil)
				if !r.ob(ok, "result", name, where, func() string { return "what is returned is not a result this function builds: " + s.show(o.ret) }) {
					continue
				}
				isNil, known := s.nilKnown(w.node)
				if !r.ob(known, "node", name, where, func() string { return "cannot tell whether there is a node: " + s.show(w.node) }) || isNil {
					continue
				}
				good++
				np, ok := w.node.(VPtr)
				if !r.ob(ok && s.heap[np.obj] != nil && (s.heap[np.obj].tag == "childnode") == ref, "node", name, where, func() string {
					return "the node is not the one expected here: " + s.show(w.node)
				}) {
					continue
				}
				get := func(i int) Val {
					return x.loadPtr(s, nil, VPtr{np.obj, fmt.Sprintf(".%d", i)}, fieldType(p.tNode, i))
				}
				if !ref {
					c, isConst := p.lib.Members[kinds[fn]].(*ssa.NamedConst)
					if !isConst {
						unresolved("constant %s is gone", kinds[fn])
					}
					t := get(p.nType)
					v, isStr := t.(VStr)
					r.ob(isStr && v.cst != nil && *v.cst == constString(c), "type", name, where, func() string {
						return fmt.Sprintf("the node has the type %s, not %s", s.show(t), c.Value.Value)
					})
					n := get(p.nName)
					same, known := s.truthOf(x.equal(s, n, rname))
					r.ob(same && known, "name", name, where, func() string {
						return fmt.Sprintf("the node has the name %s, the rule is called %s", s.show(n), s.show(rname))
					})
				}
				for _, f := range flags {
					v, isBool := get(f.field).(*VBool)
					b, isBool2 := want[f.name].(*VBool)
					ok := isBool && isBool2 && v != anyBool && b != anyBool
					if ok {
						e := b
						if ref {
							e = bXor(b, given(f.name))
						}
						ok = x.mustBeSame(s, v, e)
					}
					r.ob(ok, f.name, name, where, func() string {
						if ref {
							return fmt.Sprintf("%s of the node is %s: not toggled by a reference exactly if that is %s\n%s", f.name, s.show(get(f.field)), f.name, s.dump())
						}
						return fmt.Sprintf("%s of the node is %s, that of the rule %s\n%s", f.name, s.show(get(f.field)), s.show(want[f.name]), s.dump())
					})
				}
			}
			r.ob(good > 0, "anchor", name, where, func() string { return "no match is ever reported" })
			r.absorb(x, name)
		})
	}
}

// ruleSetter: what the method of all rules is called that takes the annotations, or the name
func (p *Program) ruleSetter(m string) string {
	i := p.tRule
	found := ""
	for k := 0; k < i.NumMethods(); k++ {
		f := i.Method(k)
		if f.Name() == m {
			return m
		}
		sig := f.Type().(*types.Signature)
		n, kind := 3, types.Bool
		if m == "setName" {
			n, kind = 1, types.String
		}
		fits := sig.Results().Len() == 0 && sig.Params().Len() == n
		for j := 0; fits && j < n; j++ {
			b, ok := sig.Params().At(j).Type().Underlying().(*types.Basic)
			fits = ok && b.Kind() == kind
		}
		if fits && found == "" {
			found = f.Name()
		} else if fits {
			return m // not known which
		}
	}
	if found == "" {
		return m
	}
	return found
}

// annotated: a rule reports the annotations and the name it has been given
func annotated(p *Program, r *Report, flags map[string]string) {
	_, ts := evalImpls(p)
	for _, t := range ts {
		for _, m := range []string{"setAnnotation", "setName"} {
			fn := p.method(t, p.ruleSetter(m))
			if fn == nil || fn.Blocks == nil {
				unresolved("%s.%s has no source", t, m)
			}
			name, where := p.fname(fn), p.pos(fn.Pos())
			of := types.TypeString(t, qual)
			guarded(r, name, func() {
				x := newExec(p)
				x.debug = debugAll
				x.deadline = r.entryDeadline()
				s, args := x.evalEntry(fn, t)
				given := map[string]Val{}
				for i, prm := range fn.Params[1:] {
					n := strings.ToLower(prm.Name())
					for f := range flags {
						if m == "setAnnotation" && strings.HasSuffix(n, strings.ToLower(f)) {
							given[flags[f]] = args[i+1]
						}
					}
					if m == "setName" {
						given["Name"] = args[i+1]
					}
				}
				if m == "setAnnotation" && len(given) != len(flags) {
					unresolved("the parameters of %s are not known", name)
				}
				outs := x.run(fn, []entry{{s, args, nil}})
				r.ob(len(outs) > 0, "anchor", name, where, func() string { return "no return is reached" })
				for _, o := range outs {
					for g, v := range given {
						get := p.method(t, g)
						if get == nil || get.Blocks == nil {
							unresolved("%s.%s has no source", t, g)
						}
						if m == "setName" && x.constant(get) {
							continue // a rule that is always called the same
						}
						y := newExec(p)
						y.deadline = r.entryDeadline()
						for _, o2 := range y.run(get, []entry{{o.st.clone(), args[:1], nil}}) {
							same, known := o2.st.truthOf(y.equal(o2.st, o2.ret, v))
							if a, ok := o2.ret.(*VBool); ok {
								b, ok := v.(*VBool)
								same, known = ok && y.mustBeSame(o2.st, a, b), true
							}
							r.ob(same && known, "given", name, where, func() string {
								return fmt.Sprintf("%s of %s is %s after %s was given %s", g, of, o2.st.show(o2.ret), m, o2.st.show(v))
							})
						}
						r.absorb(y, p.fname(get))
					}
				}
				r.absorb(x, name)
			})
		}
	}
}

// constant: a function that always returns the same constant
func (x *Exec) constant(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				for _, v := range ret.Results {
					if _, ok := v.(*ssa.Const); !ok {
						return false
					}
				}
			}
		}
	}
	return true
}

// mustBeSame: two truth values cannot differ
func (x *Exec) mustBeSame(s *State, a, b *VBool) bool {
	for _, t := range x.assume(s.clone(), bXor(a, b), true) {
		if !t.bot() {
			return false
		}
	}
	return true
}

func init() {
	register(&check{id: "C13", level: "proof", run: c13, trust: engineTrust,
		rule: "for every implementation of IRule.Eval and every return with a node: the type of the node is the one for that kind of rule, its name and flags are those Name, IsVirtual, IsNonData and IsTokenized of the rule report; a reference returns the node of the rule it names with exactly the flags toggled it has itself; no other rule changes the node of a part"})
}

func constString(c *ssa.NamedConst) string { return constant.StringVal(c.Value.Value) }
