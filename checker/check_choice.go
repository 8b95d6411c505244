package main

// C05: which alternative a choice takes.
//
// Shown for one arbitrary alternative, the one with index I of the group with index G. In a second run the match of that
// alternative, if there is one, is assumed to be longer than that of all others of its group.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	symG = globalSym("G") // the group of the alternative
	symI = globalSym("I") // its index there
	symM = globalSym("M") // the number of alternatives of the group
	symU = globalSym("U") // up to where its match uses the text
)

func c05(p *Program, r *Report) {
	for _, c := range p.compositesOf("choice") {
		for _, run := range []string{"any", "tried", "longest"} {
			c, run := c, run
			guarded(r, p.fname(c.fn), func() { c05Choice(p, r, c, run) })
		}
	}
}

// looseStreams: it does not matter where a stream is
func (x *Exec) looseStreams() {
	p := x.p
	x.loose = true
	x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, f *ssa.Function, args []Val) ([]Out, bool) {
		if rt := f.Signature.Results(); p.inRepo(f) && rt.Len() == 1 && f.Signature.Recv() == nil && (p.isStream(rt.At(0).Type()) || types.Implements(rt.At(0).Type(), p.tStream)) {
			return []Out{{s, x.baseStream(s)}}, true
		}
		return nil, false
	}
}

func (x *Exec) witnessNode(s *State, e *evalOut) {
	u := S(symU)
	s.assumeEq(e.used, u)
	n := VOpq{id: freshID(), key: witnessKey + "[]", idx: &u, typ: e.node.(VOpq).typ}
	s.nilf[n.id] = false
	o := s.wobj(e.res)
	o.tag = "witness"
	o.f[x.p.fNode] = n
	e.node = n
}

// passes remembers whether the result of the alternative has been looked at in a loop over results
func (x *Exec) passes(s *State, in ssa.Instruction, v Val) {
	w := false
	switch v := v.(type) {
	case VOpq:
		w = v.key == witnessKey+"[]"
	case VPtr:
		o := s.heap[v.obj]
		w = o != nil && (strings.TrimPrefix(o.tag, "!") == "witness" || o.tag == "elem:"+witnessKey+"[]")
	}
	if w {
		s.flags["past "+x.p.where(in)] = true
	}
}

// Three runs. In the first no alternative is singled out; it shows that all are evaluated where the choice begins, which
// the others take for granted.
func c05Choice(p *Program, r *Report, c composite, run string) {
	longest, any := run == "longest", run == "any"
	name, where := p.fname(c.fn), p.pos(c.fn.Pos())
	x := newExec(p)
	x.debug = debugAll
	x.ends, x.dull = true, true
	x.loose = !any
	x.deadline = r.entryDeadline()
	x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
		r.ob(false, "stream", name, p.where(in), func() string { return msg })
	}
	s, args := x.evalEntry(c.fn, c.fn.Params[0].Type())
	groups := "rule." + c.t.Field(c.rule).Name()
	count := globalSym(groups + "#len")
	s.assumeLe(K(0), S(symG))
	s.assumeLt(S(symG), S(count))
	s.assumeLe(K(0), S(symI))
	s.assumeLt(S(symI), S(symM))
	s.assumeLe(K(0), S(symU))
	if x.loose {
		x.looseStreams()
	}
	x.h.elemLoad = func(x *Exec, s *State, in ssa.Instruction, seq Val, idx Lin, v Val) []Out {
		x.passes(s, in, v)
		l, ok := seq.(VList)
		if !ok || len(l.p) != 1 || l.p[0].kind != 'w' {
			return nil
		}
		at := l.p[0].lo.add(idx)
		switch l.p[0].key {
		case groups:
			if any {
				s.ghost["group"] = VInt{at}
				return nil
			}
			var out []Out
			for k := 0; k < 3; k++ {
				t := s.clone()
				w := v
				switch k {
				case 0:
					t.assumeLt(at, S(symG))
				case 1:
					t.assumeEq(at, S(symG))
					w = VList{p: []part{{kind: 'w', key: "group G", v: VTop{}, lo: K(0), hi: S(symM)}}}
				case 2:
					t.assumeLt(S(symG), at)
				}
				if t.bot() {
					continue
				}
				t.ghost["group"] = VInt{at}
				out = append(out, Out{t, w})
			}
			return out
		case "group G":
			var out []Out
			for k := 0; k < 3; k++ {
				t := s.clone()
				w := v
				switch k {
				case 0:
					t.assumeLt(at, S(symI))
				case 1:
					t.assumeEq(at, S(symI))
					o := v.(VOpq)
					o.id, o.key, o.idx = internID("the alternative"), "the alternative", nil
					t.nilf[o.id] = false
					w = o
				case 2:
					t.assumeLt(S(symI), at)
				}
				if !t.bot() {
					out = append(out, Out{t, w})
				}
			}
			return out
		}
		return nil
	}
	x.h.evalCall = func(x *Exec, s *State, in ssa.CallInstruction, recv, cs, flag Val, e *evalOut) {
		at := p.where(in)
		r.ob(s.eq(e.from, K(0)), "from", name, at, func() string {
			return fmt.Sprintf("an alternative is evaluated from %s, not from where the choice begins\n%s", e.from, s.dump())
		})
		o, isOpq := recv.(VOpq)
		g, inGroup := s.ghost["group"].(VInt)
		if !r.ob(isOpq && inGroup, "alternative", name, at, func() string { return s.show(recv) + " is evaluated, which is no alternative" }) {
			return
		}
		if m, ok := s.ghost["decided"].(VInt); ok {
			r.ob(s.eq(m.l, g.l), "order", name, at, func() string {
				return fmt.Sprintf("an alternative of group %s is evaluated although one of group %s matched\n%s", g.l, m.l, s.dump())
			})
		}
		w := o.key == "the alternative"
		if w {
			s.flags["tried"] = true
		}
		if !e.match {
			return
		}
		s.ghost["decided"] = g
		if w {
			s.flags["matched"] = true
			x.witnessNode(s, e)
		} else if longest && s.eq(g.l, S(symG)) {
			s.assumeLt(e.used, S(symU))
		}
	}
	outs := x.run(c.fn, []entry{{s, args, nil}})
	good := 0
	for _, o := range outs {
		s := o.st
		w, isNil, kids, used, ok := x.matched(r, c, o)
		if !ok {
			continue
		}
		tried, matched := s.flags["tried"] || any, s.flags["matched"]
		expect := func(rule string, c bool, f string, a ...interface{}) {
			r.ob(c, rule, name, where, func() string { return fmt.Sprintf(f, a...) + "\n" + s.dump() })
		}
		d, decided := s.ghost["decided"].(VInt)
		if isNil {
			r.sample("%s: no match, tried %v matched %v", name, tried, matched)
			if !decided {
				expect("tried", tried, "no match is reported although not all alternatives have been tried")
				continue
			}
			expect("longest", !longest || !matched, "no match is reported although one match is longer than all others")
			// the group that decides has been tried completely
			expect("tried", tried || s.lt(d.l, S(symG)), "no match is reported although not all alternatives have been tried")
			expect("ambiguous", !longest || !s.eq(d.l, S(symG)) || !matched, "a choice is called ambiguous although one match is longer than all others")
			continue
		}
		good++
		expect("match", decided, "a match is reported although no alternative matched")
		if !decided {
			continue
		}
		if !r.ob(len(kids.p) == 1 && kids.p[0].kind != 'w' && s.eq(kids.length(), K(1)), "children", name, where, func() string {
			return "the node holds " + s.show(kids) + ", not just the node of the alternative taken"
		}) {
			continue
		}
		k, end := s.endOf(kids.p[0].v)
		r.sample("%s: %s, uses 0 to %s; tried %v matched %v", name, s.show(kids), used, tried, matched)
		expect("children", k != "", "the node holds %s, which is not the node of an alternative", s.show(kids))
		if k == "" {
			continue
		}
		expect("used", s.eq(used, end), "the match uses the text up to %s, the alternative taken uses it up to %s", used, end)
		_ = w
		expect("tried", tried || s.lt(d.l, S(symG)), "a match is reported although not all alternatives of the group, or of one before, have been tried")
		if !matched {
			continue
		}
		if k == witnessKey {
			continue
		}
		expect("longest", s.lt(S(symU), used), "a match up to %s is taken although another one of the same group may use as much or more", used)
	}
	r.ob(good > 0, "anchor", name, where, func() string { return "no match is ever reported" })
	r.absorb(x, name)
}

// endOf tells what kind of match a node is that of, and where the match ends
func (s *State) endOf(v Val) (string, Lin) {
	switch v := v.(type) {
	case VOpq:
		if (v.key == endKey+"[]" || v.key == witnessKey+"[]") && v.idx != nil {
			return v.key[:len(v.key)-2], *v.idx
		}
	case VPtr:
		if o := s.heap[v.obj]; o != nil && v.path == "" && !o.summary && o.symIdx != nil && (o.tag == "elem:"+endKey+"[]" || o.tag == "elem:"+witnessKey+"[]") {
			return o.tag[5 : len(o.tag)-2], *o.symIdx
		}
	}
	return "", K(0)
}

func init() {
	register(&check{id: "C05", level: "proof", run: c05, trust: engineTrust,
		rule: "for an arbitrary alternative: all alternatives are evaluated from where the choice begins, group by group, until one of a group matched; the longest match of that group is taken, a match is taken only if it is longer than that of the alternative, and taken if that is longer than all others"})
}
