package main

// C06, C07: what rules made of other rules match.
//
// The nodes of the parts that matched are numbered in the order of the matches (ghost "n" counts them, ghost "at" is the
// position up to which they use the text). The node returned must hold exactly these.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type composite struct {
	fn       *ssa.Function
	t        *types.Struct
	name     string
	kind     string // sequence, choice, repetition, group, option, reference, block
	rule     int    // the field with the rule or rules
	min, max int
}

func (p *Program) composites() (l []composite) {
	fns, ts := evalImpls(p)
	for i, fn := range fns {
		if !p.evaluates(fn, map[*ssa.Function]bool{}) {
			continue
		}
		t := ts[i]
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			unresolved("rule type %s is not a struct", t)
		}
		c := composite{fn: fn, t: st, name: types.TypeString(t, qual), rule: -1, min: -1, max: -1}
		ones, lists, groups, strs, str := 0, 0, 0, 0, -1
		for j := 0; j < st.NumFields(); j++ {
			f := st.Field(j)
			if f.Embedded() {
				continue
			}
			switch ft := f.Type().Underlying().(type) {
			case *types.Slice:
				if types.Identical(ft.Elem().Underlying(), p.tRule) {
					lists++
					c.rule = j
				} else if in, ok := ft.Elem().Underlying().(*types.Slice); ok && types.Identical(in.Elem().Underlying(), p.tRule) {
					groups++
					c.rule = j
				}
			case *types.Interface:
				if types.Identical(ft, p.tRule) {
					ones++
					if c.rule < 0 {
						c.rule = j
					}
				}
			case *types.Basic:
				n := strings.ToLower(f.Name())
				switch {
				case ft.Info()&types.IsString != 0:
					strs++
					str = j
				case ft.Info()&types.IsInteger != 0 && strings.Contains(n, "min"):
					c.min = j
				case ft.Info()&types.IsInteger != 0 && strings.Contains(n, "max"):
					c.max = j
				}
			}
		}
		switch {
		case groups == 1 && lists == 0 && ones == 0:
			c.kind = "choice"
		case strings.Contains(c.name, "Block"):
			c.kind = "block"
		case lists == 1 && ones == 0:
			c.kind = "sequence"
		case lists == 0 && ones == 1 && c.min >= 0 && c.max >= 0:
			c.kind = "repetition"
		case lists == 0 && ones == 1 && strings.Contains(c.name, "Option"):
			c.kind = "option"
		case lists == 0 && ones == 1:
			c.kind = "group"
		case lists == 0 && ones == 0 && strs == 1:
			c.kind = "reference"
			c.rule = str
		default:
			unresolved("what rule type %s is made of is not known", t)
		}
		l = append(l, c)
	}
	return
}

// only runs the analysis for the kinds of rules given; each must exist
func (p *Program) compositesOf(kinds ...string) (l []composite) {
	found := map[string]bool{}
	for _, c := range p.composites() {
		for _, k := range kinds {
			if c.kind == k {
				l = append(l, c)
				found[k] = true
			}
		}
	}
	for _, k := range kinds {
		if !found[k] {
			unresolved("no rule type for %s found", k)
		}
	}
	return
}

func runComposites(p *Program, r *Report, cs []composite, setup func(x *Exec, c composite, s *State) []*State, atReturn func(x *Exec, c composite, o Out)) {
	for _, c := range cs {
		c := c
		name := p.fname(c.fn)
		guarded(r, name, func() {
			x := newExec(p)
			x.debug = debugAll
			x.track = true
			x.deadline = r.entryDeadline()
			x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
				r.ob(false, "stream", name, p.where(in), func() string { return msg })
			}
			recvT := c.fn.Params[0].Type()
			s, args := x.evalEntry(c.fn, recvT)
			s.ghost["n"], s.ghost["at"], s.ghost["before"] = VInt{K(0)}, VInt{K(0)}, VInt{K(0)}
			es := []entry{{s, args, nil}}
			if setup != nil {
				es = nil
				for _, t := range setup(x, c, s) {
					es = append(es, entry{t, args, nil})
				}
			}
			x.h.evalCall = func(x *Exec, s *State, in ssa.CallInstruction, recv, cs, flag Val, e *evalOut) {
				at := s.ghost["at"].(VInt).l
				n := s.ghost["n"].(VInt).l
				where := p.where(in)
				r.ob(!s.flags["failed"], "goes on", name, where, func() string { return "a part is evaluated after one did not match" })
				r.ob(s.eq(e.from, at), "from", name, where, func() string {
					return fmt.Sprintf("a part is evaluated from %s, the part before uses the text up to %s\n%s", e.from, at, s.dump())
				})
				x.partIs(r, c, s, where, recv, n)
				if !e.match {
					s.flags["failed"] = true
					return
				}
				s.flags["no char"] = s.eq(e.used, e.from)
				s.ghost["before"] = s.ghost["at"]
				s.ghost["at"] = VInt{e.used}
				s.ghost["n"] = VInt{n.addc(1)}
			}
			x.h.store = func(x *Exec, s *State, in ssa.Instruction, pt VPtr, v Val) {
				if s.childIndex(VPtr{obj: pt.obj}) != nil && c.kind != "reference" {
					r.ob(false, "part", name, p.where(in), func() string { return "the node of a part is changed" })
				}
			}
			outs := x.run(c.fn, es)
			if len(outs) == 0 {
				r.fail("returns", name, p.pos(c.fn.Pos()), "no return is reached")
			}
			for _, o := range outs {
				atReturn(x, c, o)
			}
			r.absorb(x, name)
		})
	}
}

// partIs: the rule evaluated is the part that is due
func (x *Exec) partIs(r *Report, c composite, s *State, where string, recv Val, n Lin) {
	name := x.p.fname(c.fn)
	o, ok := recv.(VOpq)
	key := ""
	if c.rule >= 0 {
		key = "rule." + c.t.Field(c.rule).Name()
	}
	switch c.kind {
	case "sequence":
		r.ob(ok && o.key == key+"[]" && o.idx != nil && s.eq(*o.idx, n), "part", name, where, func() string {
			return fmt.Sprintf("%s is evaluated where part %s is due", s.show(recv), n)
		})
	case "repetition":
		r.ob(ok && o.key == key, "part", name, where, func() string { return s.show(recv) + " is evaluated, which is not the rule to repeat" })
	case "group", "option":
		r.ob(ok && o.key == key && s.eq(n, K(0)), "part", name, where, func() string {
			return s.show(recv) + " is evaluated, which is not the rule inside, or not for the first time"
		})
	case "reference":
		r.ob(ok && strings.HasPrefix(o.key, "grammar.") && strings.Contains(o.key, "{"+key+"}.") && s.eq(n, K(0)), "part", name, where, func() string {
			return s.show(recv) + " is evaluated, which is not the rule of that name"
		})
	}
}

// matched reads what is returned: whether there is a node, what it holds, and up to where it uses the text
func (x *Exec) matched(r *Report, c composite, o Out) (w resultView, isNil bool, kids VList, used Lin, ok bool) {
	name, where := x.p.fname(c.fn), x.p.pos(c.fn.Pos())
	s := o.st
	w, ok = x.resultOf(s, o.ret, nil)
	if !r.ob(ok && w.okText, "result", name, where, func() string { return "what is returned is not a result this function builds: " + s.show(o.ret) }) {
		return w, false, kids, used, false
	}
	isNil, ok = s.nilKnown(w.node)
	if !r.ob(ok, "node", name, where, func() string { return "cannot tell whether there is a node: " + s.show(w.node) }) {
		return w, false, kids, used, false
	}
	used = s.ghost["q"].(VInt).l.sub(w.unused.length())
	if x.loose {
		used = w.read.length().sub(w.unused.length())
	}
	if isNil || c.kind == "reference" {
		return
	}
	np, isPtr := w.node.(VPtr)
	if !r.ob(isPtr && s.heap[np.obj] != nil && s.childIndex(w.node) == nil, "node", name, where, func() string { return "the node is not one made here: " + s.show(w.node) }) {
		return w, false, kids, used, false
	}
	get := func(i int) Val {
		return x.loadPtr(s, nil, VPtr{np.obj, fmt.Sprintf(".%d", i)}, fieldType(x.p.tNode, i))
	}
	text, isText := get(x.p.nChars).(VRope)
	r.ob(isText && s.eq(text.length(), K(0)), "chars", name, where, func() string { return "the node has a text of its own: " + s.show(text) })
	kids, ok = get(x.p.nKids).(VList)
	if !r.ob(ok, "children", name, where, func() string { return "the children are not known: " + s.show(get(x.p.nKids)) }) {
		return
	}
	r.sample("%s: children %s, uses 0 to %s", name, s.show(kids), used)
	return
}

// childIndex: which child a node is that of
func (s *State) childIndex(v Val) *Lin {
	switch v := v.(type) {
	case VOpq:
		if v.key == childKey+"[]" {
			return v.idx
		}
	case VPtr:
		if o := s.heap[v.obj]; o != nil && v.path == "" && !o.summary && o.tag == "elem:"+childKey+"[]" {
			return o.symIdx
		}
	}
	return nil
}

// firstKids: the list holds the nodes of the first n parts
func (s *State) firstKids(l VList, n Lin) bool {
	if s.eq(n, K(0)) && s.eq(l.length(), K(0)) {
		return true
	}
	return len(l.p) == 1 && l.p[0].kind == 'w' && l.p[0].key == childKey && s.eq(l.p[0].lo, K(0)) && s.eq(l.p[0].hi, n)
}

func c07(p *Program, r *Report) {
	runComposites(p, r, p.compositesOf("sequence", "group", "option", "reference"), nil, func(x *Exec, c composite, o Out) {
		name, where := p.fname(c.fn), p.pos(c.fn.Pos())
		s := o.st
		w, isNil, kids, used, ok := x.matched(r, c, o)
		if !ok {
			return
		}
		n, at := s.ghost["n"].(VInt).l, s.ghost["at"].(VInt).l
		failed := s.flags["failed"]
		expect := func(rule string, c bool, f string, a ...interface{}) {
			r.ob(c, rule, name, where, func() string { return fmt.Sprintf(f, a...) + "\n" + s.dump() })
		}
		if isNil {
			expect("no match", c.kind != "option", "an option does not match")
			if c.kind == "reference" && s.flags["missing rule."+c.t.Field(c.rule).Name()] {
				return // the name is not defined
			}
			expect("no match", failed, "no match is reported although no part failed to match")
			return
		}
		expect("used", s.eq(used, at), "the match uses the text up to %s, the parts use it up to %s", used, at)
		switch c.kind {
		case "reference":
			i := s.childIndex(w.node)
			expect("node", i != nil && s.eq(*i, K(0)) && s.eq(n, K(1)), "the node %s is not that of the rule referred to", s.show(w.node))
			return
		case "sequence":
			all := globalSym("rule." + c.t.Field(c.rule).Name() + "#len")
			expect("all parts", s.eq(n, S(all)), "a match is reported after %s parts of %s", n, S(all))
			expect("all parts", !failed, "a match is reported although a part did not match")
		case "group":
			expect("all parts", s.eq(n, K(1)) && !failed, "a match is reported although the rule inside did not match")
		case "option":
			expect("all parts", s.eq(n, K(1)) != failed, "what the rule inside is for is not evaluated")
		}
		expect("children", s.firstKids(kids, n), "the node holds %s, %s parts matched", s.show(kids), n)
	})
}

func c06(p *Program, r *Report) {
	min := func(c composite) Lin { return S(globalSym("rule." + c.t.Field(c.min).Name())) }
	max := func(c composite) Lin { return S(globalSym("rule." + c.t.Field(c.max).Name())) }
	runComposites(p, r, p.compositesOf("repetition"), func(x *Exec, c composite, s *State) []*State {
		s.assumeLe(K(0), min(c))
		t := s.clone()
		t.assumeEq(K(0), max(c))
		t.flags["no maximum"] = true
		s.assumeLt(K(0), max(c))
		s.assumeLe(min(c), max(c))
		return []*State{s, t}
	}, func(x *Exec, c composite, o Out) {
		name, where := p.fname(c.fn), p.pos(c.fn.Pos())
		s := o.st
		_, isNil, kids, used, ok := x.matched(r, c, o)
		if !ok {
			return
		}
		n, at, before := s.ghost["n"].(VInt).l, s.ghost["at"].(VInt).l, s.ghost["before"].(VInt).l
		failed := s.flags["failed"]
		expect := func(rule string, c bool, f string, a ...interface{}) {
			r.ob(c, rule, name, where, func() string { return fmt.Sprintf(f, a...) + "\n" + s.dump() })
		}
		if isNil {
			expect("too few", s.lt(n, min(c)), "no match is reported although %s matches may be enough", n)
			expect("stops", failed || s.eq(at, S(symE)) || s.lt(K(0), max(c)) && s.le(max(c), n), "it gives up after %s matches although more may follow", n)
			return
		}
		k := kids.length()
		dropped := s.eq(k, n.addc(-1)) && s.eq(before, at) && s.lt(K(0), n)
		expect("children", s.firstKids(kids, k) && (s.eq(k, n) || dropped), "the node holds %s of %s matches", s.show(kids), n)
		expect("used", s.eq(used, at), "the match uses the text up to %s, the repetitions use it up to %s", used, at)
		expect("enough", s.le(min(c), k), "a match is reported with %s repetitions, fewer than the minimum", k)
		u := s.clone()
		u.assumeLt(K(0), max(c))
		expect("too many", u.bot() || u.le(k, max(c)), "a match is reported with %s repetitions, more than the maximum", k)
		full := s.lt(K(0), max(c)) && s.eq(n, max(c))
		empty := s.lt(K(0), n) && s.eq(before, at)
		expect("stops", failed || full || empty || s.eq(at, S(symE)), "it stops after %s matches although more may follow", n)
	})
}

func init() {
	register(&check{id: "C06", level: "proof", run: c06, trust: engineTrust,
		rule: "for every repetition: the rule inside is evaluated again and again from where the match before stopped, until it does not match, the text ends, the maximum is reached or a match uses no char; the node holds the matches in order, at least the minimum, at most the maximum; too few are no match"})
	register(&check{id: "C07", level: "proof", run: c07, trust: engineTrust,
		rule: "for every sequence, group, option and reference: each part is evaluated in order from where the part before stopped, the node holds the nodes of the parts in order and uses what they use, and there is a match exactly if the parts that are needed match"})
}
