package main

// C21, second part: every reference of a definition that is accepted is counted.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// readers finds the functions that make reference rules, and all that lead to them
func (c *nameCheck) readers() (makers []*ssa.Function) {
	p := c.p
	c.parsers = map[*ssa.Function]bool{}
	var all []*ssa.Function
	for _, m := range p.lib.Members {
		switch m := m.(type) {
		case *ssa.Function:
			all = append(all, m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := p.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
						all = append(all, f)
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for i := 0; i < len(all); i++ {
		f := all[i]
		if seen[f] {
			continue
		}
		seen[f] = true
		all = append(all, f.AnonFuncs...)
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for f := range seen {
		made := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && isPtrTo(a.Type(), c.reference) && !p.allocForValue(a) {
					made = true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
		if made && !c.parsers[f] {
			makers = append(makers, f)
			c.parsers[f] = true
		}
	}
	for w := append([]*ssa.Function(nil), makers...); len(w) > 0; w = w[1:] {
		for _, f := range callers[w[0]] {
			if !c.parsers[f] {
				c.parsers[f] = true
				w = append(w, f)
			}
		}
	}
	return
}

// allocForValue: the copy of a rule a method with value receiver or a print works on
func (p *Program) allocForValue(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == a {
			return true
		}
	}
	return false
}

func (c *nameCheck) grammarParam(f *ssa.Function) int {
	for i, prm := range f.Params {
		if isPtrTo(prm.Type(), c.p.tGrammar) {
			return i
		}
	}
	return -1
}

func (c *nameCheck) references() {
	p, r := c.p, c.r
	makers := c.readers()
	if len(makers) == 0 {
		unresolved("no function makes a ReferenceRule")
	}
	top := p.method(types.NewPointer(p.tGrammar), "ParseRule")
	if top == nil || top.Blocks == nil {
		unresolved("Grammar.ParseRule not found")
	}
	c.nameArg = map[*ssa.Function]int{}
	for _, f := range makers {
		f := f
		guarded(r, p.fname(f), func() { c.maker(f) })
	}
	// the grammar and the name are passed on as they are
	work := append([]*ssa.Function(nil), makers...)
	queued := map[*ssa.Function]bool{}
	for _, f := range makers {
		queued[f] = true
	}
	for ; len(work) > 0; work = work[1:] {
		f := work[0]
		k, known := c.nameArg[f]
		g := c.grammarParam(f)
		if !known || g < 0 {
			continue
		}
		for caller := range c.parsers {
			if caller == top {
				continue
			}
			for _, b := range caller.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() != f {
						continue
					}
					args := ci.Common().Args
					gp, ok1 := args[g].(*ssa.Parameter)
					np, ok2 := args[k].(*ssa.Parameter)
					if !r.ob(ok1 && paramIndex(caller, gp) == c.grammarParam(caller), "grammar passed on", p.fname(caller), p.where(in), func() string {
						return "references are counted in something else than the grammar given"
					}) || !r.ob(ok2, "name passed on", p.fname(caller), p.where(in), func() string {
						return "references are counted for something else than the rule being defined"
					}) {
						continue
					}
					n := paramIndex(caller, np)
					if was, ok := c.nameArg[caller]; ok {
						r.ob(was == n, "name passed on", p.fname(caller), p.where(in), func() string {
							return "which parameter is the name of the rule being defined is not clear"
						})
					}
					c.nameArg[caller] = n
					if !queued[caller] {
						queued[caller] = true
						work = append(work, caller)
					}
				}
			}
		}
	}
	for i := 0; i < 8; i++ {
		i := i
		guarded(r, p.fname(top), func() { c.definition(top, i&1 == 1, i&2 == 2, i&4 == 4) })
	}
}

// maker: a reference rule is made together with an entry for its name
func (c *nameCheck) maker(f *ssa.Function) {
	p, r := c.p, c.r
	name, where := p.fname(f), p.pos(f.Pos())
	fRef := p.field(c.reference, "refName")
	gp := c.grammarParam(f)
	if gp < 0 {
		r.ob(false, "counted", name, where, func() string { return "a reference is made without access to the grammar" })
		return
	}
	var prms []int
	for i, prm := range f.Params {
		if isString(prm.Type()) {
			prms = append(prms, i)
		}
	}
	x := c.exec()
	x.lenNames = true
	s, args := x.evalEntry(f, f.Params[0].Type())
	g := VOpq{id: internID("grammar"), key: "grammar", typ: f.Params[gp].Type()}
	s.nilf[g.id] = false
	args[gp] = g
	ns := map[string]int{}
	for _, i := range prms {
		n := followed("parameter " + f.Params[i].Name())
		args[i] = n
		ns[n.key] = i
	}
	refs := x.newMap(s, c.fieldType(c.refs), "references", nil, nil, VList{p: []part{manyNames(s, kindPrefix+"users")}})
	o := c.grammarOf(x, s, g)
	o.f[c.refs] = refs
	x.h.mapUpdate = func(x *Exec, s *State, in *ssa.MapUpdate, m, k, v Val) {
		q, ok := m.(VPtr)
		if !ok || q.obj != refs.obj {
			return
		}
		r.ob(s.ghost["counted"] == nil, "counted once", name, p.where(in), func() string { return "more than one reference is counted" })
		l, isList := v.(VList)
		n := len(l.p)
		if !r.ob(isList && n > 0 && l.p[n-1].kind == 'e' && isName(l.p[n-1].v), "counted for", name, p.where(in), func() string {
			return "the reference is counted for something else than the rule being defined: " + s.show(v)
		}) {
			return
		}
		i, ok := ns[l.p[n-1].v.(VStr).key]
		if was, known := c.nameArg[f]; known {
			ok = ok && was == i
		}
		r.ob(ok, "counted for", name, p.where(in), func() string { return "the reference is not always counted for the same name" })
		c.nameArg[f] = i
		r.ob(n == 1 || n == 2 && l.p[0].kind == 's', "counted", name, p.where(in), func() string { return "what else is counted changes" })
		s.ghost["counted"] = k
	}
	n := 0
	for _, o := range x.run(f, []entry{{s, args, nil}}) {
		s := o.st
		t, ok := o.ret.(VTuple)
		rv := o.ret
		if ok && len(t.v) == 2 {
			rv = t.v[0]
			if isNil, known := s.nilKnown(t.v[1]); known && !isNil {
				continue
			}
		}
		q, isPtr := x.resolve(s, rv).(VPtr)
		counted, was := s.ghost["counted"].(VStr)
		if isPtr && s.heap[q.obj] != nil && types.Identical(s.heap[q.obj].typ, c.reference) {
			n++
			ref, ok := s.heap[q.obj].f[fRef].(VStr)
			eq, known := x.sameKey(s, ref, counted)
			r.ob(ok && was && eq && known, "counted", name, where, func() string {
				return fmt.Sprintf("a rule that refers to %s is returned, counted is %s", s.show(s.heap[q.obj].f[fRef]), s.show(s.ghost["counted"]))
			})
			continue
		}
		r.ob(s.ghost["counted"] == nil, "counted", name, where, func() string { return "a reference is counted but no rule that refers is returned" })
	}
	r.ob(n > 0, "anchor", name, where, func() string { return "no rule that refers is ever returned" })
	r.sample("%s: %d results that refer, each counted", name, n)
	r.absorb(x, name)
}

// definition: the references of a definition that is accepted are added to those of the grammar
func (c *nameCheck) definition(f *ssa.Function, refers, before, itself bool) {
	p, r := c.p, c.r
	name, where := p.fname(f), p.pos(f.Pos())
	gp := c.grammarParam(f)
	nameP := -1
	for i, prm := range f.Params {
		if isString(prm.Type()) {
			nameP = i
			break
		}
	}
	if nameP < 0 || gp != 0 {
		unresolved("ParseRule takes no name")
	}
	x := c.exec()
	x.lenNames = true
	s, args := x.evalEntry(f, f.Params[0].Type())
	g := VOpq{id: internID("grammar"), key: "grammar", typ: f.Params[gp].Type()}
	s.nilf[g.id] = false
	args[gp] = g
	W := followed("W")
	user := followed("new rule")
	if itself {
		user = W
	}
	args[nameP] = user
	var keys []VStr
	var vals []Val
	if before {
		keys, vals = []VStr{W}, []Val{users(s, kindPrefix+"users", nil)}
	}
	refs := x.newMap(s, c.fieldType(c.refs), "references", keys, vals, users(s, kindPrefix+"users", nil))
	records := x.newMap(s, c.fieldType(c.records), "rules", nil, nil, c.someRecord(s))
	o := c.grammarOf(x, s, g)
	o.f[c.refs], o.f[c.records] = refs, records
	gid := x.objID(s, o)
	rule := VOpq{id: internID("new rule"), key: "new rule", typ: p.nRule}
	x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Val) ([]Out, bool) {
		k, ok := c.nameArg[fn]
		if !ok || !c.parsers[fn] || fn == f {
			return nil, false
		}
		gi := c.grammarParam(fn)
		at, ok1 := x.resolve(s, a[gi]).(VPtr)
		if !ok1 || s.heap[at.obj] == nil {
			r.ob(false, "collected", name, p.where(in), func() string { return "where references are collected is not known" })
			return nil, true
		}
		eq, known := x.sameKey(s, a[k], user)
		r.ob(eq && known, "name", name, p.where(in), func() string {
			return "the definition is read for another name than that of the rule: " + s.show(a[k])
		})
		failed := s.clone()
		e := x.nonNil(failed, errorType, "error")
		// some references are found, to W among others
		if q, ok := s.heap[at.obj].f[c.refs].(VPtr); ok && s.heap[q.obj] != nil && s.heap[q.obj].m != nil {
			m := s.wobj(q.obj).m
			one := part{kind: 'e', v: a[k]}
			if refers {
				hit := false
				for i := range m.keys {
					if eq, known := x.sameKey(s, m.keys[i], W); eq && known {
						l, _ := m.vals[i].(VList)
						m.vals[i] = VList{p: append(append([]part(nil), l.p...), one)}
						hit = true
					}
				}
				if !hit {
					m.keys = append(m.keys, W)
					m.vals = append(m.vals, VList{p: []part{one, manyNames(s, kindPrefix+"users")}})
				}
			}
			if m.sum == nil {
				m.sum = VList{p: []part{manyNames(s, kindPrefix+"users")}}
			}
			n := freshSym()
			s.assumeLe(K(int64(len(m.keys))), S(n))
			m.n = S(n)
		} else {
			r.ob(false, "collected", name, p.where(in), func() string { return "where references are collected is not known" })
		}
		s.nilf[rule.id] = false
		s.flags["read"] = true
		return []Out{{s, VTuple{[]Val{rule, VNil{}}}}, {failed, VTuple{[]Val{VNil{}, e}}}}, true
	}
	accepted := 0
	for _, o := range x.run(f, []entry{{s, args, nil}}) {
		s := o.st
		t, ok := o.ret.(VTuple)
		if !r.ob(ok && len(t.v) == 2, "result", name, where, func() string { return "no result" }) {
			continue
		}
		isNil, known := s.nilKnown(t.v[1])
		r.ob(known, "result", name, where, func() string { return "whether there is an error is not known" })
		if !isNil {
			continue
		}
		accepted++
		r.ob(s.flags["read"], "read", name, where, func() string { return "a definition is accepted that was not read" })
		v, in, known := x.held(s, s.heap[gid].f[c.refs], W)
		l, _ := v.(VList)
		has, left := false, false
		for i, q := range l.p {
			if eq, k := x.sameKey(s, q.v, user); q.kind == 'e' && eq && k {
				has = true
			}
			left = left || i == 0 && q.kind == 's'
		}
		r.ob(known && in == (refers || before) && (!refers || has), "references taken over", name, where, func() string {
			return fmt.Sprintf("the definition refers to a name: %v; the name was referred to before: %v; counted afterwards: %s", refers, before, s.show(v))
		})
		r.ob(!before || left, "references kept", name, where, func() string { return "references of other rules are lost" })
		r.ob(refers || !has, "references taken over", name, where, func() string { return "a reference is counted that is not made" })
		rec, in, known := x.held(s, s.heap[gid].f[c.records], user)
		r.ob(known && in, "stored", name, where, func() string { return "the rule is not stored under its name" })
		if q, ok := x.resolve(s, rec).(VPtr); r.ob(ok, "stored", name, where, func() string { return "what is stored is not known" }) {
			fr, fn := p.field(c.tRecord, "rule"), p.field(c.tRecord, "name")
			w := s.heap[q.obj]
			ru, isOpq := w.f[fr].(VOpq)
			if pt, ok := w.f[fr].(VPtr); ok {
				isOpq, ru = s.mat[rule.id] == pt.obj, rule
			}
			r.ob(isOpq && ru.id == rule.id, "stored", name, where, func() string { return "what is stored is not the rule of the definition: " + s.show(w.f[fr]) })
			eq, known := x.sameKey(s, w.f[fn], user)
			r.ob(eq && known, "stored", name, where, func() string { return "the rule is stored with another name" })
		}
	}
	r.ob(accepted > 0, "anchor", name, where, func() string { return "no definition is accepted" })
	r.sample("%s: refers=%v before=%v itself=%v: %d ways to accept", name, refers, before, itself, accepted)
	r.absorb(x, name)
}

// made: a grammar made from a text has been validated since its last rule
func (c *nameCheck) made() {
	p, r := c.p, c.r
	validate := p.method(types.NewPointer(p.tGrammar), "Validate")
	n := 0
	for _, m := range sortedMembers(p.lib) {
		f, ok := m.(*ssa.Function)
		if !ok || f.Blocks == nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() != 2 || !isPtrTo(rs.At(0).Type(), p.tGrammar) || !isErrorType(rs.At(1).Type()) {
			continue
		}
		n++
		guarded(r, p.fname(f), func() {
			name, where := p.fname(f), p.pos(f.Pos())
			x := newExec(p)
			x.debug = debugAll
			x.deadline = r.entryDeadline()
			s := newState()
			var args []Val
			for _, prm := range f.Params {
				args = append(args, x.sym(s, prm.Type(), "arg:"+prm.Name()))
			}
			writes := map[*ssa.Function]bool{}
			for _, m := range []string{"ParseRule", "AddRule", "AddUsage"} {
				if g := p.method(types.NewPointer(p.tGrammar), m); g != nil {
					writes[g] = true
				}
			}
			x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, g *ssa.Function, a []Val) ([]Out, bool) {
				if g != validate && !writes[g] {
					return nil, false
				}
				q, ok := x.resolve(s, a[0]).(VPtr)
				if !r.ob(ok, "grammar", name, p.where(in), func() string { return "what is validated is not known" }) {
					return nil, true
				}
				tag := func(s *State, t string) { s.wobj(q.obj).tag = t }
				res := g.Signature.Results()
				if res.Len() == 0 {
					tag(s, "")
					return []Out{{s, nil}}, true
				}
				failed := s.clone()
				tag(failed, "")
				e := x.nonNil(failed, errorType, "error")
				if g == validate {
					tag(s, "validated")
					return []Out{{s, VNil{}}, {failed, e}}, true
				}
				tag(s, "")
				return []Out{{s, VTuple{[]Val{x.nonNil(s, res.At(0).Type(), "rule"), VNil{}}}}, {failed, VTuple{[]Val{VNil{}, e}}}}, true
			}
			good := 0
			for _, o := range x.run(f, []entry{{s, args, nil}}) {
				s := o.st
				t, _ := o.ret.(VTuple)
				isNil, known := s.nilKnown(t.v[1])
				if !known || isNil {
					good++
					q, ok := x.resolve(s, t.v[0]).(VPtr)
					r.ob(ok && s.heap[q.obj] != nil && s.heap[q.obj].tag == "validated", "validated", name, where, func() string {
						return "a grammar is returned that was not validated after its last rule"
					})
				}
			}
			r.ob(good > 0, "anchor", name, where, func() string { return "no grammar is ever returned" })
			r.absorb(x, name)
		})
	}
	if n == 0 {
		unresolved("no function makes a grammar from a text")
	}
}

func sortedMembers(k *ssa.Package) []ssa.Member {
	var names []string
	for n := range k.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	var r []ssa.Member
	for _, n := range names {
		r = append(r, k.Members[n])
	}
	return r
}
