package main

// C08: when a terminal matches, and what it matches.
//
// Shown for every text, every rule text and every leading-space flag. Facts about all chars of a stretch are shown for
// one arbitrary position J.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tapeW = "want" // the text of the rule

var (
	symN = globalSym("N") // its length
	symL = globalSym("L") // the number of white spaces it begins with
	symA = globalSym("A") // white spaces of the text in front of those
	symC = globalSym("c") // the char of the rule, or the first of its range
	symD = globalSym("d") // the last char of its range
)

// evaluates tells whether a function may evaluate a rule, as far as static calls lead
func (p *Program) evaluates(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || fn.Blocks == nil || !p.inRepo(fn) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && p.evaluates(mc.Fn.(*ssa.Function), seen) {
				return true
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if cc := c.Common(); cc.IsInvoke() {
				if cc.Method.Name() == "Eval" && types.Identical(cc.Value.Type().Underlying(), p.tRule) {
					return true
				}
			} else if p.evaluates(cc.StaticCallee(), seen) {
				return true
			}
		}
	}
	return false
}

func (p *Program) intConst(name string) int64 {
	c, ok := p.lib.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		unresolved("constant %s not found", name)
	}
	v, _ := constant.Int64Val(c.Val())
	return v
}

type terminal struct {
	fn   *ssa.Function
	t    types.Type // struct
	kind string     // char, range, text, end
	f    []int      // fields that hold its chars
	skip map[int64]bool
}

func (p *Program) terminals() (l []terminal) {
	fns, ts := evalImpls(p)
	for i, fn := range fns {
		if p.evaluates(fn, map[*ssa.Function]bool{}) {
			continue
		}
		t := ts[i]
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			unresolved("rule type %s is not a struct", t)
		}
		k := terminal{fn: fn, t: t, skip: map[int64]bool{p.intConst("SUGGEST_SKIP"): true}}
		var runes, texts []int
		for j := 0; j < st.NumFields(); j++ {
			ft := st.Field(j).Type()
			if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				runes = append(runes, j)
			} else if isRuneSlice(ft) {
				texts = append(texts, j)
			}
		}
		switch {
		case len(runes) == 1 && len(texts) == 0:
			k.kind, k.f = "char", runes
		case len(runes) == 2 && len(texts) == 0:
			k.kind, k.f = "range", runes
			if strings.HasPrefix(strings.ToLower(st.Field(runes[0]).Name()), "end") {
				k.f = []int{runes[1], runes[0]}
			}
		case len(runes) == 0 && len(texts) == 1:
			k.kind, k.f = "text", texts
			if strings.Contains(types.TypeString(t, qual), "String") {
				k.skip[p.intConst("SUGGEST_NOT_SKIP")] = true // strings stand alone
			}
		case len(runes) == 0 && len(texts) == 0:
			k.kind = "end"
		default:
			unresolved("what terminal rule type %s matches is not known", t)
		}
		l = append(l, k)
	}
	return
}

func c08(p *Program, r *Report) {
	ts := p.terminals()
	n := map[string]int{}
	for _, t := range ts {
		n[t.kind]++
		for _, flag := range []string{"SUGGEST_SKIP", "SUGGEST_NOT_SKIP", "NOT_SKIP"} {
			t, flag := t, flag
			name := p.fname(t.fn)
			guarded(r, name, func() {
				c08One(p, r, t, flag, nil, func(x *Exec, o Out) { x.terminalSpec(r, t, flag, o) })
			})
		}
	}
	if n["char"] < 1 || n["range"] < 1 || n["text"] < 2 || n["end"] < 1 {
		unresolved("not all kinds of terminals found: %v", n)
	}
}

func c08One(p *Program, r *Report, t terminal, flag string, setup func(x *Exec), spec func(x *Exec, o Out)) {
	name := p.fname(t.fn)
	x := newExec(p)
	x.debug = debugAll
	x.precise = true
	x.deadline = r.entryDeadline()
	x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
		r.ob(false, "stream", name, p.where(in), func() string { return msg })
	}
	s := newState()
	x.baseStream(s)
	s.assumeLe(K(0), S(symE))
	s.assumeLe(K(0), S(symJ))
	o := &Obj{typ: t.t, symb: true, symKey: "rule", f: make([]Val, nfields(t.t))}
	switch t.kind {
	case "char", "range":
		s.assumeLe(K(0), S(symC))
		o.f[t.f[0]] = VInt{S(symC)}
		if t.kind == "range" {
			s.assumeLe(K(0), S(symD))
			o.f[t.f[1]] = VInt{S(symD)}
		}
	case "text":
		s.assumeLe(K(0), S(symL))
		s.assumeLe(S(symL), S(symN))
		s.assumeLt(K(0), S(symN))
		o.f[t.f[0]] = VRope{p: []piece{{tape: tapeW, lo: K(0), hi: S(symN)}}}
	}
	recv := VPtr{obj: s.alloc(o)}
	var args []Val
	for i, prm := range t.fn.Params {
		pt := prm.Type()
		b, isB := pt.Underlying().(*types.Basic)
		switch {
		case i == 0:
			args = append(args, recv)
		case p.isStream(pt):
			args = append(args, x.baseStream(s))
		case isB && b.Info()&types.IsInteger != 0:
			args = append(args, VInt{K(p.intConst(flag))})
		default:
			g := VOpq{id: internID("grammar"), key: "grammar", typ: pt}
			s.nilf[g.id] = false
			args = append(args, g)
		}
	}
	x.h.charLoad = func(x *Exec, s *State, in ssa.Instruction, rp VRope, idx Lin) []*State {
		rp = s.normRope(rp)
		if len(rp.p) != 1 {
			return []*State{s}
		}
		at := rp.p[0].lo.add(idx)
		if rp.p[0].tape == tapeW {
			var out []*State
			for _, u := range x.atL(s, at) {
				for _, v := range x.splitJ(u, at, false) {
					if v.flags["J"] {
						v.charAtJ(tapeW)
					}
					out = append(out, v)
				}
			}
			return out
		}
		if rp.p[0].tape == tapeT && t.kind != "text" {
			return x.splitJ(s, at, false)
		}
		return []*State{s}
	}
	if t.kind == "text" {
		x.h.skipTo = func(x *Exec, s *State, pos Lin) []stateTo {
			if !s.eq(pos, K(0)) {
				return nil
			}
			// fewer than the rule begins with, or some more
			few, n := s.clone(), S(freshSym())
			few.assumeLe(K(0), n)
			few.assumeLt(n, S(symL))
			s.assumeLe(K(0), S(symA))
			return []stateTo{{few, n}, {s, S(symA).add(S(symL))}}
		}
	}
	x.h.streamOp = func(x *Exec, s *State, in ssa.CallInstruction, m string, before, after Lin, v Val) {
		if m == "SkipSpaces" && s.eq(before, K(0)) {
			s.ghost["skipped"] = VInt{after}
		}
	}
	x.h.fact = func(x *Exec, s *State, b *VBool, val bool) {
		if t.kind != "text" {
			// what is found out about the char at J
			for _, m := range s.chars {
				if m.tape != tapeT || !m.pos.eq(S(symJ)) {
					continue
				}
				hi := symC
				if t.kind == "range" {
					hi = symD
				}
				s.flags["below"] = s.flags["below"] || s.lt(S(m.v), S(symC))
				s.flags["above"] = s.flags["above"] || s.lt(S(hi), S(m.v))
			}
			return
		}
		for _, y := range s.d.syms {
			if up := s.d.bound(y, symL); y != 0 && !isGlobalSym(y) && !s.bot() && up != inf && s.d.bound(symL, y) == -up {
				*s = *s.renamed(y, S(symL).addc(up))
				break
			}
		}
		if b.op != '=' {
			return
		}
		// which chars differ, and that the one at J does not
		for _, a := range s.chars {
			for _, c := range s.chars {
				if a.tape != tapeT || c.tape != tapeW || !b.l.eq(S(a.v).sub(S(c.v))) && !b.l.eq(S(c.v).sub(S(a.v))) {
					continue
				}
				off := VInt{a.pos.sub(c.pos)}
				if !val {
					s.ghost["differs"] = VTuple{[]Val{VInt{a.pos}, VInt{c.pos}, off}}
				} else if s.eq(c.pos, S(symJ)) {
					s.ghost["same"] = off
				}
			}
		}
	}
	if setup != nil {
		setup(x)
	}
	es := []entry{{s, args, nil}}
	if t.kind == "text" {
		// J among the white spaces the rule begins with, or not
		u := s.clone()
		u.assumeLt(S(symJ), S(symL))
		u.flags["white J"] = true
		s.assumeLe(S(symL), S(symJ))
		es = append(es, entry{u, args, nil})
	}
	outs := x.run(t.fn, es)
	if len(outs) == 0 {
		r.fail("returns", name, p.pos(t.fn.Pos()), "no return is reached")
	}
	for _, o := range outs {
		spec(x, o)
	}
	r.absorb(x, name)
}

// atL: the chars of the rule up to L are white, the one at L is not
func (x *Exec) atL(s *State, at Lin) []*State {
	var out []*State
	for k := 0; k < 3; k++ {
		t := s.clone()
		switch k {
		case 0:
			t.assumeLt(at, S(symL))
		case 1:
			t.assumeEq(at, S(symL))
		case 2:
			t.assumeLt(S(symL), at)
		}
		if t.bot() {
			continue
		}
		if k < 2 {
			c := t.charAt(tapeW, at)
			if w, known := t.predTruth("white", c); !known {
				t.preds = append(t.preds, predFact{"white", c, k == 0})
			} else if w != (k == 0) {
				continue
			}
			if k == 1 && len(at.t) == 1 && at.t[0].k == 1 && !isGlobalSym(at.t[0].s) {
				t = t.renamed(at.t[0].s, S(symL).addc(-at.c))
			}
		}
		out = append(out, t)
	}
	return out
}

// absurd: what is known contradicts itself
func (s *State) absurd() bool {
	s.checkNeq()
	if s.bot() {
		return true
	}
	for _, p := range s.preds {
		if v, known := s.predTruth(p.key, p.arg); known && v != p.val {
			return true
		}
		for _, c := range s.chars {
			if v, known := s.predTruth(p.key, S(c.v)); known && v != p.val && s.eq(S(c.v), p.arg) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) terminalSpec(r *Report, t terminal, flag string, o Out) {
	p := x.p
	name, where := p.fname(t.fn), p.pos(t.fn.Pos())
	s := o.st
	w, ok := x.resultOf(s, o.ret, nil)
	if !r.ob(ok && w.okText, "result", name, where, func() string { return "what is returned is not a result this function builds: " + s.show(o.ret) }) {
		return
	}
	isNil, known := s.nilKnown(w.node)
	if !r.ob(known, "node", name, where, func() string { return "cannot tell whether there is a node: " + s.show(w.node) }) {
		return
	}
	expect := func(rule string, c bool, f string, a ...interface{}) {
		r.ob(c, rule, name, where, func() string { return flag + ": " + fmt.Sprintf(f, a...) + "\n" + s.dump() })
	}
	q := s.ghost["q"].(VInt).l
	skips := t.skip[p.intConst(flag)]
	skipped := K(0)
	if g, ok := s.ghost["skipped"].(VInt); ok {
		skipped = g.l
	}
	if _, ok := s.ghost["skipped"].(VInt); skips && !ok && !s.le(S(symE), K(0)) {
		expect("skips", false, "leading white space is not skipped with SkipSpaces")
		return
	}
	// in assumes that a char is one the rule matches
	in := func(u *State, c Lin) {
		switch t.kind {
		case "char":
			u.assumeEq(c, S(symC))
		case "range":
			u.assumeLe(S(symC), c)
			u.assumeLe(c, S(symD))
		}
	}
	if !isNil {
		used := q.sub(w.unused.length())
		var begin Lin
		n := K(1)
		switch t.kind {
		case "text":
			n = S(symN)
		case "end":
			n = K(0)
		}
		begin = used.sub(n)
		np, isPtr := w.node.(VPtr)
		if !isPtr || s.heap[np.obj] == nil {
			expect("node", false, "the node is not one that this function makes: %s", s.show(w.node))
			return
		}
		cv, isRope := x.loadPtr(s, nil, VPtr{np.obj, fmt.Sprintf(".%d", p.nChars)}, fieldType(p.tNode, p.nChars)).(VRope)
		cv = s.normRope(cv)
		r.sample("%s(%s): matches %s as %s", name, flag, s.show(cv), begin)
		expect("skipped", s.eq(begin, K(0)) || skips && s.le(K(0), begin) && s.le(begin, skipped), "the match begins at %s, not all that is passed over is white space that may be skipped (%s)", begin, skipped)
		switch t.kind {
		case "text":
			whole := isRope && len(cv.p) == 1 && (cv.p[0].tape == tapeW && s.eq(cv.p[0].lo, K(0)) && s.eq(cv.p[0].hi, n) || s.isWindow(cv, begin, used))
			expect("chars", whole, "the text of the node is %s", s.show(cv))
			u := s.clone()
			u.assumeLt(S(symJ), n)
			if !u.bot() {
				a, c := u.charAt(tapeT, begin.add(S(symJ))), u.charAt(tapeW, S(symJ))
				g, ok := s.ghost["same"].(VInt)
				expect("same", u.eq(a, c) || ok && u.eq(g.l, begin), "a match is reported although a char of the text may differ from the rule")
			}
		case "end":
			expect("end", s.eq(used, S(symE)), "the end is matched before the end of the text")
			expect("chars", isRope && len(cv.p) == 1 && cv.p[0].tape == "" && s.eq(cv.p[0].ch, K(p.eofChar)), "the text of the node is %s", s.show(cv))
		default:
			expect("inside", s.le(used, S(symE)), "a char behind the end is matched")
			c := s.charAt(tapeT, begin)
			one := isRope && len(cv.p) == 1 && s.eq(cv.length(), K(1)) && (cv.p[0].tape == "" && s.eq(cv.p[0].ch, c) || s.isWindow(cv, begin, used))
			expect("chars", one, "the text of the node is %s, the char matched is %s", s.show(cv), c)
			if t.kind == "char" {
				expect("same", s.eq(c, S(symC)), "another char than that of the rule is matched")
			} else {
				expect("same", s.le(S(symC), c) && s.le(c, S(symD)), "a char outside of the range is matched")
			}
		}
		return
	}
	r.sample("%s(%s): no match at %s", name, flag, q)
	if t.kind != "end" && s.le(S(symE), K(0)) {
		return // there is no char to match
	}
	switch t.kind {
	case "end":
		at := K(0)
		if skips {
			at = skipped
		}
		expect("found", s.lt(at, S(symE)), "the end of the text may be missed")
	case "text":
		at := K(0) // where the text would have to begin
		if skips {
			if s.lt(skipped, S(symL)) {
				return
			}
			at = skipped.sub(S(symL)) // A
		}
		d, ok := s.ghost["differs"].(VTuple)
		if !ok {
			expect("found", false, "a match may be missed: no char differs")
			return
		}
		a, b := d.v[0].(VInt).l, d.v[1].(VInt).l
		expect("found", s.eq(d.v[2].(VInt).l, at), "a match may be missed: char %s of the text is compared with char %s of the rule, the text of the rule would have to begin at %s", a, b, at)
		if s.eq(a, S(symE)) {
			expect("found", s.lt(b, S(symN)), "a match may be missed: the text ends at char %s of the rule", b)
			return
		}
		expect("found", (s.lt(a, S(symE)) || s.lt(a, skipped)) && s.lt(b, S(symN)) && s.le(K(0), b), "a match may be missed: char %s of the text may be char %s of the rule", a, b)
	default:
		miss := func(what string, lo, hi, at Lin) {
			u := s.clone()
			u.assumeLe(lo, at)
			u.assumeLt(at, hi)
			u.assumeLt(at, S(symE))
			if u.bot() {
				return
			}
			c := u.charAt(tapeT, at)
			if at.eq(skipped) && skips {
				u.preds = append(u.preds, predFact{"white", c, false}) // this is where skipping stopped
			}
			in(u, c)
			expect("found", u.absurd(), "a match of %s may be missed", what)
		}
		if !skips {
			miss("the first char", K(0), S(symE), K(0))
			return
		}
		miss("a white space", K(0), skipped, S(symJ))
		miss("the first char that is no white space", K(0), S(symE), skipped)
	}
}

func init() {
	register(&check{id: "C08", level: "proof", run: c08,
		rule: "for every terminal rule type and leading-space flag, at every return: a match covers white space that may be skipped and then exactly a text of the rule, which is what the node holds; without a match, the text that follows is shown to be none of the rule",
		trust: []string{
			"go/packages, go/types and go/ssa give the meaning of the source",
			"append, slicing and copying of text are treated as operations on values; that no append overwrites text somebody else holds is property C11",
			"streams meet the contract of ICharstream (property C09), white space is what IsWhiteSpace says (property C18)",
			"the text of a rule is not empty and its chars are not negative",
		}})
}
