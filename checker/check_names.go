package main

// C21: which rules are roots and terminals, and that every name is defined.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k, v := range m {
		if v {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

type nameCheck struct {
	p                               *Program
	r                               *Report
	records, refs, terminals, roots int // fields of the grammar
	tRecord                         *types.Named
	parsers                         map[*ssa.Function]bool // functions that read (parts of) a definition
	nameArg                         map[*ssa.Function]int  // their parameter that is the name of the rule under construction
	reference                       *types.Named
}

func (c *nameCheck) anchors() {
	p := c.p
	c.records = p.ruleTable()
	c.refs = -1
	st := p.tGrammar.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		m, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok || !isString(m.Key()) {
			continue
		}
		if sl, ok := m.Elem().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
			if c.refs >= 0 {
				unresolved("two fields of the grammar map names to names")
			}
			c.refs = i
		}
	}
	if c.refs < 0 {
		unresolved("no field of the grammar maps names to names")
	}
	c.terminals, c.roots = p.field(p.tGrammar, "terminals"), p.field(p.tGrammar, "rootRules")
	c.tRecord = p.named("RuleRecord")
	c.reference = p.named("ReferenceRule")
}

func (c *nameCheck) fieldType(k int) types.Type {
	return c.p.tGrammar.Underlying().(*types.Struct).Field(k).Type()
}

func (c *nameCheck) fieldName(k int) string {
	return c.p.tGrammar.Underlying().(*types.Struct).Field(k).Name()
}

// grammarOf gives the grammar's maps of names a symbolic content
func (c *nameCheck) grammarOf(x *Exec, s *State, recv Val) *Obj {
	ptr, ok := x.deref(s, nil, recv)
	if !ok {
		unresolved("no grammar")
	}
	return s.wobj(ptr.obj)
}

// users is a list of names, with W in it if that is asked for
func users(s *State, who string, w *VStr) Val {
	if w == nil {
		l := manyNames(s, who) // at least one
		s.assumeLe(K(1), l.hi)
		return VList{p: []part{l}}
	}
	return VList{p: []part{manyNames(s, who), {kind: 'e', v: *w}, manyNames(s, who)}}
}

func (c *nameCheck) exec() *Exec {
	x := newExec(c.p)
	x.debug = debugAll
	x.deadline = c.r.entryDeadline()
	x.names = true
	x.h.elemLoad = nameElem
	return x
}

func (c *nameCheck) record(x *Exec, s *State, n string) Val {
	o := VOpq{id: internID("record of " + n), key: "record of " + n, typ: types.NewPointer(c.tRecord)}
	s.nilf[o.id] = false
	return o
}

func (c *nameCheck) someRecord(s *State) Val {
	o := VOpq{id: freshID(), typ: types.NewPointer(c.tRecord)}
	s.nilf[o.id] = false
	return o
}

func (x *Exec) sameRecord(s *State, v Val, n string) bool {
	id := internID("record of " + n)
	if o, ok := v.(VOpq); ok {
		return o.id == id
	}
	p, ok := v.(VPtr)
	return ok && p.path == "" && s.mat[id] == p.obj && s.heap[p.obj] != nil
}

func (c *nameCheck) validate() {
	only := os.Getenv("XCASE")
	p, r := c.p, c.r
	fn := p.method(types.NewPointer(p.tGrammar), "Validate")
	if fn == nil || fn.Blocks == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
		unresolved("Grammar.Validate not found")
	}
	name, where := p.fname(fn), p.pos(fn.Pos())
	for n := 0; n < 2*2*4*4; n++ {
		defined, referenced := n%2 == 1, n/2%2 == 1
		user := n / 4 % 3 // 0 refers to nothing, 1 to another name, 2 to itself
		wasT, wasR := n/16%2 == 1, n/32 == 1
		if only != "" && only != fmt.Sprint(n) {
			continue
		}
		if user == 2 && !referenced {
			continue
		}
		what := "a name that is"
		if !defined {
			what += " not"
		}
		what += " defined,"
		if !referenced {
			what += " not"
		}
		what += " referred to, and" + []string{" refers to none", " refers to another", " refers to itself", " may refer to any"}[user]
		guarded(r, name+": "+what, func() {
			x := c.exec()
			s := newState()
			g := VOpq{id: internID("grammar"), key: "grammar", typ: fn.Params[0].Type()}
			s.nilf[g.id] = false
			W, K := followed("W"), followed("K")
			others := kindPrefix + "users"
			if user > 0 {
				others = mixed + kindPrefix + "users"
			}
			var keys []VStr
			var vals []Val
			if referenced {
				keys = append(keys, W)
				if user == 2 {
					vals = append(vals, users(s, others, &W))
				} else {
					vals = append(vals, users(s, others, nil))
				}
			}
			if user == 1 {
				keys = append(keys, K)
				vals = append(vals, users(s, others, &W))
			}
			refs := x.newMap(s, c.fieldType(c.refs), "references", keys, vals, users(s, others, nil))
			one := func(in bool, rec Val) ([]VStr, []Val) {
				if !in {
					return nil, nil
				}
				return []VStr{W}, []Val{rec}
			}
			ks, vs := one(defined, c.record(x, s, "W"))
			if user == 1 {
				ks, vs = append(ks, K), append(vs, c.someRecord(s))
			}
			records := x.newMap(s, c.fieldType(c.records), "rules", ks, vs, c.someRecord(s))
			ks, vs = one(wasT, c.someRecord(s))
			terminals := x.newMap(s, c.fieldType(c.terminals), "terminals", ks, vs, c.someRecord(s))
			ks, vs = one(wasR, c.someRecord(s))
			roots := x.newMap(s, c.fieldType(c.roots), "roots", ks, vs, c.someRecord(s))
			o := c.grammarOf(x, s, g)
			o.f[c.refs], o.f[c.records], o.f[c.terminals], o.f[c.roots] = refs, records, terminals, roots
			gid := 0
			for id, h := range s.heap {
				if h == o {
					gid = id
				}
			}
			x.h.store = func(x *Exec, s *State, in ssa.Instruction, q VPtr, v Val) {
				if q.obj == gid && (q.path == fmt.Sprintf(".%d", c.refs) || q.path == fmt.Sprintf(".%d", c.records)) {
					r.ob(false, "reads only", name, p.where(in), func() string { return "validating changes the rules or references" })
				}
			}
			x.h.mapUpdate = func(x *Exec, s *State, in *ssa.MapUpdate, m, k, v Val) {
				r.ob(m != Val(refs) && m != Val(records), "reads only", name, p.where(in), func() string { return "validating changes the rules or references" })
			}
			valid := 0
			for _, o := range x.run(fn, []entry{{s, []Val{g}, nil}}) {
				s := o.st
				isNil, known := s.nilKnown(o.ret)
				if !r.ob(known, "result", name, where, func() string { return "whether an error is returned is not known" }) {
					continue
				}
				missing := s.flags["no "+kindPrefix+"references in rules"]
				for _, k := range []string{"W", "K"} {
					if s.flags["no "+namePrefix+k+" in rules"] && (k == "K" || referenced && !defined) {
						missing = true
					}
				}
				if !isNil {
					r.ob(missing, "error without reason", name, where, func() string {
						return "an error is returned though no name that is referred to was found to be missing"
					})
					continue
				}
				valid++
				r.ob(!(referenced && !defined) || user == 1, "missing rule", name, where, func() string {
					return "a name that is referred to but not defined is accepted"
				})
				grammar := s.heap[gid]
				isRoot, isTerm := defined && !referenced, defined && user == 0
				for _, q := range []struct {
					k    int
					want bool
				}{{c.roots, isRoot}, {c.terminals, isTerm}} {
					if q.k == c.terminals && user == 3 {
						continue
					}
					v, in, known := x.held(s, grammar.f[q.k], W)
					what := c.fieldName(q.k)
					if !r.ob(known && in == q.want, what, name, where, func() string {
						return fmt.Sprintf("%s: its place in %s is %s (wanted %v)", showName(defined, referenced, user), what, showHeld(in, known), q.want)
					}) || !in {
						continue
					}
					r.ob(x.sameRecord(s, v, "W"), what, name, where, func() string { return "what " + what + " has under a name is not the rule of that name" })
				}
			}
			if referenced && !defined {
				r.sample("%s: rejected on every path", what)
			} else {
				r.ob(valid > 0, "anchor", name, where, func() string { return "no grammar is valid" })
			}
			r.absorb(x, name)
		})
	}
}

func showHeld(in, known bool) string {
	switch {
	case !known:
		return "unknown"
	case in:
		return "taken"
	}
	return "empty"
}

func showName(defined, referenced bool, user int) string {
	var l []string
	if defined {
		l = append(l, "defined")
	}
	if referenced {
		l = append(l, "referred to")
	}
	l = append(l, []string{"refers to nothing", "refers to another name", "refers to itself", "may refer to any"}[user])
	return "a name (" + strings.Join(l, ", ") + ")"
}

func c21(p *Program, r *Report) {
	c := &nameCheck{p: p, r: r}
	c.anchors()
	c.validate()
	c.references()
	c.made()
}

func init() {
	register(&check{id: "C21", level: "proof", run: c21, trust: engineTrust[:1],
		rule: "an arbitrary name is followed through Validate: on success it is a root exactly if it is defined and not referred to, a terminal exactly if it is defined and refers to none, and never undefined and referred to"})
}
