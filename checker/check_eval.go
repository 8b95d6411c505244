package main

// C01, C02: what an evaluation reports about the chars it took from the stream.

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var engineTrust = []string{
	"go/packages, go/types and go/ssa give the meaning of the source",
	"append, slicing and copying of text are treated as operations on values; that no append overwrites text somebody else holds is property C11",
	"grammars without left recursion, evaluated by finite recursion (the contract of IRule.Eval is assumed for nested evaluations and shown for each implementation)",
	"streams meet the contract of ICharstream (property C09)",
}

// evalEntry prepares a run of an Eval method
func (x *Exec) evalEntry(fn *ssa.Function, t types.Type) (*State, []Val) {
	s := newState()
	var args []Val
	for i, prm := range fn.Params {
		pt := prm.Type()
		switch {
		case i == 0:
			if _, ok := pt.Underlying().(*types.Pointer); ok {
				o := VOpq{id: internID("rule"), key: "rule", typ: pt}
				s.nilf[o.id] = false
				args = append(args, o)
			} else {
				args = append(args, x.sym(s, pt, "rule"))
			}
		case x.p.isStream(pt):
			args = append(args, x.baseStream(s))
		case isPtrTo(pt, x.p.tGrammar):
			o := VOpq{id: internID("grammar"), key: "grammar", typ: pt}
			s.nilf[o.id] = false
			args = append(args, o)
		default:
			args = append(args, x.sym(s, pt, "arg:"+prm.Name()))
		}
	}
	if s.ghost["q"] == nil {
		x.baseStream(s)
	}
	return s, args
}

func evalImpls(p *Program) (fns []*ssa.Function, ts []types.Type) {
	for _, t := range p.ruleImpls() {
		fn := p.method(t, "Eval")
		if fn == nil || fn.Blocks == nil {
			unresolved("%s.Eval has no source", t)
		}
		// a promoted or pointer wrapper stands for the declared method
		if fn.Synthetic != "" {
			if o, ok := fn.Object().(*types.Func); ok {
				if d := p.prog.FuncValue(o); d != nil && d.Blocks != nil {
					fn = d
				}
			}
		}
		dup := false
		for _, f := range fns {
			dup = dup || f == fn
		}
		if !dup {
			fns = append(fns, fn)
			ts = append(ts, t)
		}
	}
	return
}

func (r *Report) absorb(x *Exec, construct string) {
	for m := range x.unsound {
		r.fail("unmodelled", construct, "", m)
	}
	for m := range x.notes {
		r.notes[m] = true
	}
	for f := range x.visited {
		r.analysed[x.p.fname(f)] = true
	}
	r.states += x.nStates
	r.joins += x.nJoins
}

// evalResult reads the parts of a result object
type resultView struct {
	o            *Obj
	read, unused VRope
	node, err    Val
	sticky       Val
	okText       bool
}

func (x *Exec) resultOf(s *State, v Val, in ssa.Instruction) (resultView, bool) {
	p, ok := v.(VPtr)
	if !ok || p.path != "" || s.heap[p.obj] == nil || !types.Identical(s.heap[p.obj].typ, x.p.tResult) {
		return resultView{}, false
	}
	w := resultView{o: s.heap[p.obj]}
	get := func(i int) Val {
		return x.loadPtr(s, in, VPtr{p.obj, fmt.Sprintf(".%d", i)}, fieldType(x.p.tResult, i))
	}
	var ok1, ok2 bool
	w.read, ok1 = get(x.p.fRead).(VRope)
	w.unused, ok2 = get(x.p.fUnused).(VRope)
	w.read, w.unused = s.normRope(w.read), s.normRope(w.unused)
	w.node = x.resolve(s, get(x.p.fNode))
	w.err = get(x.p.fErr)
	w.sticky = get(x.p.fSticky)
	w.okText = ok1 && ok2
	return w, true
}

// window: a rope that is exactly the text from lo to hi
func (s *State) isWindow(r VRope, lo, hi Lin) bool {
	if s.eq(lo, hi) && len(r.p) == 0 {
		return true
	}
	return len(r.p) == 1 && r.p[0].tape == tapeT && s.eq(r.p[0].lo, lo) && s.eq(r.p[0].hi, hi)
}

func runEvals(p *Program, r *Report, setup func(x *Exec), atReturn func(x *Exec, fn *ssa.Function, o Out)) {
	fns, ts := evalImpls(p)
	for i, fn := range fns {
		name := p.fname(fn)
		if o := os.Getenv("XONLY"); o != "" && !strings.Contains(name, o) {
			continue
		}
		t0 := time.Now()
		guarded(r, name, func() {
			x := newExec(p)
			defer func() { r.timing(name, time.Since(t0), x) }()
			x.debug = debugAll
			x.deadline = r.entryDeadline()
			if n, err := strconv.Atoi(os.Getenv("XLISTK")); err == nil {
				x.listK = n
			}
			if n, err := strconv.Atoi(os.Getenv("XMAX")); err == nil {
				x.deadline = time.Now().Add(time.Duration(n) * time.Second)
			}
			x.h.stale = func(x *Exec, s *State, in ssa.Instruction, msg string) {
				r.ob(false, "stream", name, p.where(in), func() string { return msg })
			}
			if setup != nil {
				setup(x)
			}
			s, args := x.evalEntry(fn, ts[i])
			outs := x.run(fn, []entry{{s, args, nil}})
			if len(outs) == 0 {
				r.fail("returns", name, p.pos(fn.Pos()), "no return is reached")
			}
			for _, o := range outs {
				atReturn(x, fn, o)
			}
			r.absorb(x, name)
		})
	}
}

func noNodes(x *Exec) { x.opaque = []types.Type{x.p.tNode} }

func c01(p *Program, r *Report) {
	runEvals(p, r, noNodes, func(x *Exec, fn *ssa.Function, o Out) {
		conserve(x, r, fn, o, false)
	})
}

func conserve(x *Exec, r *Report, fn *ssa.Function, o Out, allowTail bool) {
	name := x.p.fname(fn)
	s := o.st
	w, ok := x.resultOf(s, o.ret, nil)
	where := x.p.pos(fn.Pos())
	if !r.ob(ok && w.okText, "result", name, where, func() string { return "what is returned is not a result this function builds: " + s.show(o.ret) }) {
		return
	}
	q := s.ghost["q"].(VInt).l
	r.ob(s.isWindow(w.read, K(0), q), "read", name, where, func() string {
		return fmt.Sprintf("chars read are reported as %s, but the stream moved from 0 to %s (node %s)\n%s", s.show(w.read), q, s.show(w.node), s.dump())
	})
	n := w.unused.length()
	at := q.sub(n)
	r.ob(s.isWindow(w.unused, at, q) && s.le(K(0), at), "unused", name, where, func() string {
		return fmt.Sprintf("chars handed back are %s, but the chars read end at %s (node %s)\n%s", s.show(w.unused), q, s.show(w.node), s.dump())
	})
	r.sample("%s: read %s, handed back %s, stream at %s, node %s", name, s.show(w.read), s.show(w.unused), q, s.show(w.node))
}

func c02(p *Program, r *Report) {
	runEvals(p, r, noNodes, func(x *Exec, fn *ssa.Function, o Out) {
		name := p.fname(fn)
		s := o.st
		w, ok := x.resultOf(s, o.ret, nil)
		where := p.pos(fn.Pos())
		if !r.ob(ok && w.okText, "result", name, where, func() string { return "what is returned is not a result this function builds: " + s.show(o.ret) }) {
			return
		}
		isNil, known := s.nilKnown(w.node)
		if !r.ob(known, "node", name, where, func() string { return "cannot tell whether there is a node: " + s.show(w.node) }) {
			return
		}
		if !isNil {
			return
		}
		q := s.ghost["q"].(VInt).l
		r.ob(s.isWindow(w.unused, K(0), q), "handed back", name, where, func() string {
			return fmt.Sprintf("no match, but of the chars read (0 to %s) only %s are handed back", q, s.show(w.unused))
		})
		en, ek := s.nilKnown(w.err)
		r.ob(ek && !en, "error", name, where, func() string { return "no match, but there may be no error: " + s.show(w.err) })
	})
}

func init() {
	register(&check{id: "C01", level: "proof", run: c01, trust: engineTrust,
		rule: "for every IRule.Eval implementation, at every return: CharsRead is the text from where the stream was to where it is, CharsUnused a suffix of it; every stream handed to a child yields the text not yet used"})
	register(&check{id: "C02", level: "proof", run: c02, trust: engineTrust,
		rule: "for every IRule.Eval implementation, at every return without node: all chars read are handed back and the error is set"})
}
