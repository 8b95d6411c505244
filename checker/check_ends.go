package main

// C04: evaluating and reading come to an end.
//
// Every loop is shown to lower a measure each round: ints that are counted, texts that get shorter, streams that move
// on. What functions that call each other have taken before is seen by following those that read definitions.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	// onLoopHead sees every state that comes to the head of a loop, onRound those that come from the loop itself
	onLoopHead func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock)
	onRound    func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock)
)

// round tells for each measure whether it gets lower in a round of a loop (2) or does not get higher (1)
type round map[string]int

type endLoop struct {
	rounds map[string]round
	sample map[string]string
}

type endCheck struct {
	p     *Program
	r     *Report
	loops map[*ssa.BasicBlock]map[*ssa.Function]map[*Exec]*endLoop // by head, by where following starts, by run
	execs []*Exec
	seen  map[*ssa.BasicBlock]string
}

const rankKey = "rank|"

func rankName(fn *ssa.Function, head *ssa.BasicBlock) string {
	return fmt.Sprintf("%s%s|%d|", rankKey, fn, head.Index)
}

// measures are the values in a state that may count the rounds of a loop
func (c *endCheck) measures(x *Exec, s *State) map[string]Lin {
	out := map[string]Lin{}
	put := func(k string, l Lin) {
		_, _, ok := l.single()
		if ok || isFixed(l) || strings.HasPrefix(k, "int:") {
			out[k] = l
		}
	}
	q, hasQ := s.ghost["q"].(VInt)
	if hasQ {
		put("at:read", q.l)
	}
	var add func(name string, v Val, deep bool)
	add = func(name string, v Val, deep bool) {
		v = x.resolve(s, v)
		switch v := v.(type) {
		case VInt:
			put("int:"+name, v.l)
		case *VBool:
			if v == bT || v == bF {
				n := int64(0)
				if v == bT {
					n = 1
				}
				put("int:"+name, K(n))
			}
		case VRope:
			v = s.normRope(v)
			if hasQ && len(v.p) == 0 {
				put("at:"+name, q.l)
			}
			if n := len(v.p); hasQ && n == 1 && v.p[0].tape == tapeT && s.eq(v.p[0].hi, q.l) {
				put("at:"+name, v.p[0].lo)
			}
			if n := v.length(); n.isConst() || isFixed(n) {
				put("len:"+name, n)
			}
		case VList:
			put("len:"+name, v.length())
		case VOpq, VPtr:
			if hasQ {
				if at, ok := x.streamPos(s, v); ok {
					put("at:"+name, at)
					deep = false
				}
			}
			if p, ok := v.(VPtr); ok && p.path == "" && deep {
				o := s.heap[p.obj]
				if o == nil || o.m != nil {
					return
				}
				for i, f := range o.f {
					if f != nil {
						add(fmt.Sprintf("%s.%d", name, i), f, false)
					}
				}
			}
		}
	}
	f := s.top()
	for r, v := range f.regs {
		if v != nil {
			add(r.Name(), v, true)
		}
	}
	return out
}

// isFixed: the same all the time
func isFixed(l Lin) bool {
	for _, t := range l.t {
		if !isGlobalSym(t.s) {
			return false
		}
	}
	return true
}

func (c *endCheck) hooks() func() {
	onExec = func(x *Exec) { c.execs = append(c.execs, x) }
	clean := func(s *State, fn *ssa.Function, head *ssa.BasicBlock) {
		for k := range s.ghost {
			if !strings.HasPrefix(k, rankKey) {
				continue
			}
			keep := false
			for _, f := range s.frames {
				for h, body := range c.p.info(f.fn).loopOf {
					if strings.HasPrefix(k, rankName(f.fn, h)) && (f.fn != fn || h != head && body[head]) {
						keep = true
					}
				}
			}
			if !keep {
				delete(s.ghost, k)
			}
		}
	}
	onLoopHead = func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock) {
		clean(s, fn, head)
		if c.counted(fn, head) != "" {
			return
		}
		pre := rankName(fn, head)
		for k, l := range c.measures(x, s) {
			s.ghost[pre+k] = VInt{l}
		}
	}
	onRound = func(x *Exec, s *State, fn *ssa.Function, head *ssa.BasicBlock) {
		if c.counted(fn, head) != "" {
			return
		}
		entry := s.frames[0].fn
		if c.loops[head] == nil {
			c.loops[head] = map[*ssa.Function]map[*Exec]*endLoop{}
		}
		if c.loops[head][entry] == nil {
			c.loops[head][entry] = map[*Exec]*endLoop{}
		}
		l := c.loops[head][entry][x]
		if l == nil {
			l = &endLoop{rounds: map[string]round{}, sample: map[string]string{}}
			c.loops[head][entry][x] = l
		}
		pre := rankName(fn, head)
		now := c.measures(x, s)
		old := map[string]Lin{}
		for k, v := range s.ghost {
			if i, ok := v.(VInt); ok && strings.HasPrefix(k, pre) {
				old[k[len(pre):]] = i.l
			}
		}
		rd := round{}
		note := func(k string, strict, weak bool) {
			if strict {
				rd[k] = 2
			} else if weak {
				rd[k] = 1
			}
		}
		var steady []string
		for k, o := range old {
			if n, ok := now[k]; ok && s.eq(n, o) {
				steady = append(steady, k)
			}
		}
		for k, o := range old {
			n, ok := now[k]
			if !ok {
				continue
			}
			up, down := s.lt(o, n), s.lt(n, o)
			kind := k[:strings.Index(k, ":")]
			switch kind {
			case "at":
				note(k+" goes on", up, s.le(o, n))
				continue
			case "len":
				note(k+" gets shorter", down, s.le(n, o))
			case "int":
				_, below := bound(s, o.neg())
				note(k+" is lowered", down && below, s.le(n, o))
			}
			_, above := bound(s, o)
			for g := range symNames {
				above = above || up && s.le(o, S(g)) // what does not change
			}
			note(k+" is raised", up && above, s.le(o, n))
			for _, b := range steady {
				if b != k && !strings.HasPrefix(b, "at:") {
					note(k+" is raised up to "+b, up && s.le(o, old[b]), s.le(o, n))
				}
			}
		}
		var keys []string
		for k, v := range rd {
			keys = append(keys, fmt.Sprint(k, v))
		}
		sort.Strings(keys)
		key := strings.Join(keys, ";")
		if l.rounds[key] == nil {
			l.rounds[key] = rd
			l.sample[key] = s.dump()
		}
		for k := range s.ghost {
			if strings.HasPrefix(k, pre) {
				delete(s.ghost, k)
			}
		}
	}
	return func() { onExec, onLoopHead, onRound = nil, nil, nil }
}

func bound(s *State, l Lin) (int64, bool) {
	u := s.d.upper(l)
	return u, u != inf
}

// ends: there is an order of the measures in which each round lowers one and does not raise those before it
func (l *endLoop) ends() (by []string, left []string) {
	rest := map[string]round{}
	for k, r := range l.rounds {
		rest[k] = r
	}
	for len(rest) > 0 {
		score := map[string]int{}
		weak := map[string]int{}
		for _, r := range rest {
			for m, v := range r {
				weak[m]++
				if v == 2 {
					score[m]++
				}
			}
		}
		best := ""
		var ms []string
		for m := range score {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if weak[m] == len(rest) && (best == "" || score[m] > score[best]) {
				best = m
			}
		}
		if best == "" {
			for k := range rest {
				left = append(left, k)
			}
			sort.Strings(left)
			return
		}
		by = append(by, best)
		for k, r := range rest {
			if r[best] == 2 {
				delete(rest, k)
			}
		}
	}
	return
}

// counted tells why a loop ends if that is seen from how it counts its rounds
func (c *endCheck) counted(fn *ssa.Function, head *ssa.BasicBlock) string {
	why, ok := c.seen[head]
	if !ok {
		why = c.counts(fn, head)
		c.seen[head] = why
	}
	return why
}

func (c *endCheck) counts(fn *ssa.Function, head *ssa.BasicBlock) string {
	body := c.p.info(fn).loopOf[head]
	for _, in := range head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			rg, ok := n.Iter.(*ssa.Range)
			if !ok || body[rg.Block()] {
				return ""
			}
			if !n.IsString && grows(rg.X, body) {
				return ""
			}
			return "range"
		}
	}
	iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok || body[head.Succs[0]] == body[head.Succs[1]] {
		return ""
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return ""
	}
	stay := body[head.Succs[0]]
	for _, side := range []bool{true, false} {
		v, lim, op := cmp.X, cmp.Y, cmp.Op
		if !side {
			v, lim, op = cmp.Y, cmp.X, flipped(op)
		}
		if !stay {
			op = negated(op)
		}
		phi, _ := stepOf(v)
		if phi == nil || phi.Block() != head || !c.steadyIn(lim, body) {
			continue
		}
		dir := 0
		for k, e := range phi.Edges {
			if !body[head.Preds[k]] {
				continue
			}
			p2, d := stepOf(e)
			s := sign(d)
			if p2 != phi || s == 0 || dir != 0 && dir != s {
				dir = 2
				break
			}
			dir = s
		}
		if dir == 1 && (op == token.LSS || op == token.LEQ) || dir == -1 && (op == token.GTR || op == token.GEQ) {
			return "counter"
		}
	}
	return ""
}

func sign(d int64) int {
	switch {
	case d > 0:
		return 1
	case d < 0:
		return -1
	}
	return 0
}

func flipped(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negated(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

// stepOf: the value is a phi and a number
func stepOf(v ssa.Value) (*ssa.Phi, int64) {
	var d int64
	for i := 0; i < 8; i++ {
		switch w := v.(type) {
		case *ssa.Phi:
			return w, d
		case *ssa.BinOp:
			k, ok := w.Y.(*ssa.Const)
			if !ok || k.Value == nil || w.Op != token.ADD && w.Op != token.SUB {
				return nil, 0
			}
			if w.Op == token.ADD {
				d += k.Int64()
			} else {
				d -= k.Int64()
			}
			v = w.X
		default:
			return nil, 0
		}
	}
	return nil, 0
}

// steadyIn: the value is the same in every round
func (c *endCheck) steadyIn(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	switch w := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.Call:
		if b, ok := w.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.steadyIn(w.Call.Args[0], body)
		}
		return !body[w.Block()]
	case *ssa.BinOp:
		return !body[w.Block()] || c.steadyIn(w.X, body) && c.steadyIn(w.Y, body)
	case *ssa.UnOp:
		if !body[w.Block()] {
			return true
		}
		if w.Op != token.MUL {
			return false
		}
		switch a := w.X.(type) {
		case *ssa.Global:
			return !c.changes(body, func(in ssa.Instruction) bool {
				st, ok := in.(*ssa.Store)
				return ok && st.Addr == a
			})
		case *ssa.FieldAddr:
			return c.steadyIn(a.X, body) && !c.changes(body, func(in ssa.Instruction) bool {
				st, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					return fa.Field == a.Field && types.Identical(fa.X.Type(), a.X.Type())
				}
				return types.Identical(st.Addr.Type(), a.X.Type()) // the whole of it
			})
		}
		return false
	case *ssa.FieldAddr:
		return !body[w.Block()] || c.steadyIn(w.X, body)
	case ssa.Instruction:
		return !body[w.Block()]
	}
	return false
}

// changes: the loop, or what it calls, has such an instruction
func (c *endCheck) changes(body map[*ssa.BasicBlock]bool, is func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var look func(b *ssa.BasicBlock) bool
	look = func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if is(in) {
				return true
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, f := range c.p.callees(ci) {
				if seen[f] || !c.p.inRepo(f) {
					continue
				}
				seen[f] = true
				for _, b := range f.Blocks {
					if look(b) {
						return true
					}
				}
			}
		}
		return false
	}
	for b := range body {
		if look(b) {
			return true
		}
	}
	return false
}

// grows: entries are made in a map while it is gone through
func grows(m ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && sameSource(u.Map, m) {
				return true
			}
		}
	}
	return false
}

// sameSource: the same value, or what the same field of something holds
func sameSource(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 {
		return false
	}
	fa, ok1 := la.X.(*ssa.FieldAddr)
	fb, ok2 := lb.X.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.Field == fb.Field && types.Identical(fa.X.Type(), fb.X.Type())
}

func c04(p *Program, r *Report) {
	c := &endCheck{p: p, r: r, seen: map[*ssa.BasicBlock]string{}, loops: map[*ssa.BasicBlock]map[*ssa.Function]map[*Exec]*endLoop{}}
	defer c.hooks()()
	pc := &panicCheck{p: p, r: r}
	var d *defReaders
	pc.sub("reading", func(sub *Report) {
		d = p.defReaders(sub)
		for _, rd := range d.all {
			rd := rd
			guarded(sub, rd.name, func() { d.failures(rd) })
		}
		tops := d.tops()
		for _, f := range tops {
			f := f
			guarded(sub, p.fname(f), func() { d.whole(f, tops) })
		}
	})
	pc.sub("evaluation", func(sub *Report) {
		runEvals(p, sub, func(x *Exec) {
			noNodes(x)
			x.maxSteps *= 4 // what is kept for loops makes more states
			x.deadline = time.Now().Add(480 * time.Second)
			if r.deadline.Before(x.deadline) {
				x.deadline = r.deadline
			}
			x.h.evalCall = func(x *Exec, s *State, in ssa.CallInstruction, recv, cs, flag Val, e *evalOut) {
				self, ok := x.resolve(s, recv).(VPtr)
				me, isPtr := x.resolve(s, s.frames[0].regs[s.frames[0].fn.Params[0]]).(VPtr)
				r.ob(!(ok && isPtr && self.obj == me.obj) || s.lt(K(0), e.from), "itself", p.fname(in.Parent()), p.where(in), func() string {
					return "a rule is evaluated again where its evaluation began\n" + s.dump()
				})
			}
		}, func(x *Exec, fn *ssa.Function, o Out) {})
	})
	pc.sub("repetition", func(sub *Report) { c06(p, sub) })
	pc.sub("streams", func(sub *Report) { c09(p, sub) })
	pc.sub("positions", func(sub *Report) { c32(p, sub) })
	pc.sub("whole texts", func(sub *Report) { c03(p, sub) })
	// the others are followed if it takes that
	unknown := func() bool {
		for _, f := range p.funcs {
			if f.Pkg == p.lib && f.Blocks != nil && f.Synthetic == "" {
				for h := range p.info(f).loopOf {
					if c.counted(f, h) == "" && len(c.loops[h]) == 0 {
						return true
					}
				}
			}
		}
		return false
	}
	if unknown() {
		pc.sub("nodes", func(sub *Report) { c15(p, sub); c16(p, sub); c29(p, sub) })
	}
	if unknown() {
		pc.execs = c.execs
		pc.sub("rest", func(sub *Report) { pc.rest(sub) })
	}
	pc.execs = c.execs
	// all loops
	met := pc.visited()
	for _, f := range p.funcs {
		if f.Pkg != p.lib || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		info := p.info(f)
		var hs []*ssa.BasicBlock
		for h := range info.loopOf {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
		for _, h := range hs {
			where := p.where(firstPos(h, info.loopOf[h]))
			if why := c.counted(f, h); why != "" {
				r.ob(true, why, p.fname(f), where, nil)
				continue
			}
			if len(c.loops[h]) == 0 {
				r.ob(met[f], "loop", p.fname(f), where, func() string { return "nothing is known about this loop" })
				continue
			}
			for entry, runs := range c.loops[h] {
				var by []string
				var bad string
				ok := false
				for _, l := range runs {
					how, left := l.ends()
					if len(left) == 0 {
						ok, by = true, how
					} else {
						bad = l.sample[left[0]]
					}
				}
				r.ob(ok, "loop", p.fname(f), where, func() string {
					return "the loop may go on forever: no measure is lowered in each round, in " + p.fname(entry) + "\n" + bad
				})
				r.sample("%s in %s: %s", where, p.fname(entry), strings.Join(by, ", then "))
			}
		}
	}
	// readers that call each other before anything is taken
	if d != nil {
		state := map[*ssa.Function]int{}
		var path []string
		var visit func(f *ssa.Function) bool
		visit = func(f *ssa.Function) bool {
			state[f] = 1
			path = append(path, p.fname(f))
			for g := range d.weak[f] {
				if state[g] == 1 {
					path = append(path, p.fname(g))
					return false
				}
				if state[g] == 0 && !visit(g) {
					return false
				}
			}
			path = path[:len(path)-1]
			state[f] = 2
			return true
		}
		for _, rd := range d.all {
			if state[rd.fn] == 0 {
				path = nil
				ok := visit(rd.fn)
				r.ob(ok, "readers", rd.name, p.pos(rd.fn.Pos()), func() string {
					return "may call itself again before any char is taken: " + strings.Join(path, " -> ")
				})
				if !ok {
					break
				}
			} else {
				r.ob(true, "readers", rd.name, p.pos(rd.fn.Pos()), nil)
			}
		}
	}
}

// firstPos is an instruction of a loop that has a position
func firstPos(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) ssa.Instruction {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	for _, b := range h.Parent().Blocks {
		if body[b] {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					return in
				}
			}
		}
	}
	return h.Instrs[0]
}

func init() {
	register(&check{id: "C04", level: "proof", run: c04,
		trust: append(engineTrust[:len(engineTrust):len(engineTrust)], "texts are finite", "no rule is evaluated again at a char at which it is being evaluated (left recursion)"),
		rule:  "every loop goes over a list, text or map, counts towards a limit, or lowers in each round one of an order of measures without raising those before it (a text that is left, a list, what a stream has still to give); no function that reads definitions comes to itself again before it has taken a char"})
}
