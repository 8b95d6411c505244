package main

// Abstract interpreter over go/ssa: a fixpoint per function invocation, static calls analysed in context.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Out is one outcome of a call
type Out struct {
	st  *State
	ret Val
}

type undecided struct{ msg string }

// Exec is one analysis run
type Exec struct {
	p        *Program
	steps    int
	maxSteps int
	depth    int
	stack    []*ssa.Function
	h        Hooks
	opaque   []types.Type
	places   bool               // positions are told apart by the char they are of
	blank    map[int]bool       // fields of nodes nothing is remembered about
	precise  bool               // keep where a text that does not match differs
	track    bool               // count matches of children, and follow their nodes
	ends     bool               // follow up to where the match of each node uses the text
	dull     bool               // which matches are sticky does not matter
	loose    bool               // evaluations start where the stream was at first, whatever the stream; shown elsewhere
	spans    bool               // follow which stretch of the text each node of a list is for
	lenNames bool               // a string is empty exactly if its length is none
	defs     bool               // definitions are read: calls of libraries may fail, text made of chars is text
	compared map[int]comparison // by the atom that tells
	gap      bool               // text that leaves out or repeats escapes, see check_block.go
	names    bool               // follow single names through maps and lists, see names.go
	listFn   func(s *State, p part) (part, bool)
	lenFn    func(s *State, v Val) (Lin, bool)
	spanFn   func(s *State, v Val) (lo, hi Lin, ok bool)
	listK    int        // explicit list elements kept before they are summarised
	listOf   types.Type // only in lists of these, if set

	notes    map[string]bool // what was modelled imprecisely
	unsound  map[string]bool // what could not be modelled
	visited  map[*ssa.Function]bool
	deletes  bool // entries that are deleted do not matter
	nJoins   int
	nStates  int
	debug    bool
	deadline time.Time
}

// stateTo is a state with the position a stream moves to
type stateTo struct {
	s  *State
	to Lin
}

// Hooks let a check observe and override
type Hooks struct {
	call      func(x *Exec, st *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool)
	invoke    func(x *Exec, st *State, in ssa.CallInstruction, recv Val, m *types.Func, args []Val) ([]Out, bool)
	store     func(x *Exec, st *State, in ssa.Instruction, p VPtr, v Val)
	stored    func(x *Exec, st *State, in ssa.Instruction, p VPtr, v Val)
	mapUpdate func(x *Exec, st *State, in *ssa.MapUpdate, m, k, v Val)
	appended  func(x *Exec, st *State, in ssa.Instruction, dst, src Val)
	backEdge  func(x *Exec, st *State, fn *ssa.Function, head *ssa.BasicBlock)
	arrive    func(x *Exec, st *State, fn *ssa.Function, head *ssa.BasicBlock)
	loopHead  func(x *Exec, st *State, fn *ssa.Function, head *ssa.BasicBlock)
	fact      func(x *Exec, st *State, b *VBool, val bool)
	fork      func(x *Exec, s *State, e *evalOut) []*State
	evalCall  func(x *Exec, st *State, in ssa.CallInstruction, recv Val, cs Val, flag Val, out *evalOut)
	charLoad  func(x *Exec, st *State, in ssa.Instruction, r VRope, idx Lin) []*State
	elemLoad  func(x *Exec, st *State, in ssa.Instruction, seq Val, idx Lin, v Val) []Out
	groups    func(x *Exec, st *State, in ssa.Instruction, lo, hi Lin, next VList) // a group of rules is complete
	elemStore func(x *Exec, st *State, in ssa.Instruction, ep VElemPtr, v Val) bool
	ret       func(x *Exec, st *State, fn *ssa.Function, v Val)
	inLoop    func(x *Exec, st *State, fn *ssa.Function)
	stale     func(x *Exec, st *State, in ssa.Instruction, msg string)
	streamOp  func(x *Exec, st *State, in ssa.CallInstruction, m string, before, after Lin, outv Val)
	skipTo    func(x *Exec, st *State, pos Lin) []stateTo
	split     func(x *Exec, st *State, in ssa.CallInstruction, what string) []*State
	piece     func(x *Exec, st *State, in ssa.Instruction, p piece) piece                                  // a char that is put behind text
	lib       func(x *Exec, st *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) // a call of a library that may fail
}

func newExec(p *Program) *Exec {
	exactReg = map[ssa.Value]bool{}
	x := &Exec{p: p, maxSteps: 3000000, listK: 0, notes: map[string]bool{}, unsound: map[string]bool{}, visited: map[*ssa.Function]bool{}}
	if onExec != nil {
		onExec(x)
	}
	return x
}

func (x *Exec) note(in ssa.Instruction, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	if in != nil {
		m = x.p.where(in) + ": " + m
	}
	x.notes[m] = true
}

// fnInfo caches what is needed about a function
type fnInfo struct {
	rpo     []*ssa.BasicBlock
	order   map[*ssa.BasicBlock]int
	heads   map[*ssa.BasicBlock]bool
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	after   map[ssa.Instruction]map[ssa.Value]bool
	loopOf  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	indices map[ssa.Value]bool
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if i, ok := p.infos[fn]; ok {
		return i
	}
	i := &fnInfo{order: map[*ssa.BasicBlock]int{}, heads: map[*ssa.BasicBlock]bool{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, after: map[ssa.Instruction]map[ssa.Value]bool{}, loopOf: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	p.infos[fn] = i
	seen := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = 1
		for k := len(b.Succs) - 1; k >= 0; k-- {
			c := b.Succs[k]
			if seen[c] == 0 {
				dfs(c)
			} else if seen[c] == 1 {
				i.heads[c] = true
			}
		}
		seen[b] = 2
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for k := len(post) - 1; k >= 0; k-- {
		i.order[post[k]] = len(i.rpo)
		i.rpo = append(i.rpo, post[k])
	}
	// natural loops
	for h := range i.heads {
		body := map[*ssa.BasicBlock]bool{h: true}
		var stack []*ssa.BasicBlock
		for _, p := range h.Preds {
			if _, ok := i.order[p]; ok && i.order[p] >= i.order[h] {
				if !body[p] {
					body[p] = true
					stack = append(stack, p)
				}
			}
		}
		for len(stack) > 0 {
			b := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			for _, p := range b.Preds {
				if _, ok := i.order[p]; ok && !body[p] {
					body[p] = true
					stack = append(stack, p)
				}
			}
		}
		i.loopOf[h] = body
	}
	// loop bodies before what follows the loop: reorder so that blocks of a loop come before later exits
	i.rpo = nil
	i.order = map[*ssa.BasicBlock]int{}
	i.layout(fn, post)
	// liveness
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for k := len(i.rpo) - 1; k >= 0; k-- {
			b := i.rpo[k]
			live := i.liveOut(b, isReg)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(ssa.CallInstruction); ok {
					c := make(map[ssa.Value]bool, len(live))
					for v := range live {
						c[v] = true
					}
					i.after[in] = c
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if d, ok := in.(*ssa.Defer); ok {
					_ = d
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isReg(*op) {
						live[*op] = true
					}
				}
				if _, ok := in.(*ssa.RunDefers); ok {
					for _, bb := range fn.Blocks {
						for _, ii := range bb.Instrs {
							if d, ok := ii.(*ssa.Defer); ok {
								for _, op := range d.Operands(nil) {
									if *op != nil && isReg(*op) {
										live[*op] = true
									}
								}
							}
						}
					}
				}
			}
			old := i.liveIn[b]
			if len(old) != len(live) {
				changed = true
			}
			i.liveIn[b] = live
		}
	}
	return i
}

// layout orders blocks in reverse postorder with the body of each loop kept together
func (i *fnInfo) layout(fn *ssa.Function, post []*ssa.BasicBlock) {
	base := map[*ssa.BasicBlock]int{}
	for k := range post {
		base[post[len(post)-1-k]] = k
	}
	// key of a block: for each enclosing loop from outer to inner ...
	placed := map[*ssa.BasicBlock]bool{}
	var place func(b *ssa.BasicBlock, within map[*ssa.BasicBlock]bool)
	var list []*ssa.BasicBlock
	for k := len(post) - 1; k >= 0; k-- {
		list = append(list, post[k])
	}
	place = func(b *ssa.BasicBlock, within map[*ssa.BasicBlock]bool) {
		if placed[b] {
			return
		}
		placed[b] = true
		i.order[b] = len(i.rpo)
		i.rpo = append(i.rpo, b)
		if body, ok := i.loopOf[b]; ok {
			for _, c := range list {
				if body[c] {
					place(c, body)
				}
			}
		}
	}
	for _, b := range list {
		place(b, nil)
	}
}

func (i *fnInfo) liveOut(b *ssa.BasicBlock, isReg func(ssa.Value) bool) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range i.liveIn[s] {
			live[v] = true
		}
		for k, p := range s.Preds {
			if p != b {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if isReg(phi.Edges[k]) {
					live[phi.Edges[k]] = true
				}
			}
		}
	}
	// phis of s are not live before s
	return live
}

type acc struct {
	st     *State
	w      *walker
	visits int
}

// entry is one way a function is entered
type entry struct {
	st         *State
	args, bind []Val
}

// run analyses fn for all the ways it is entered at once. The states returned have the frame of fn removed.
func (x *Exec) run(fn *ssa.Function, es []entry) []Out {
	if fn.Blocks == nil {
		panic(undecided{"no body: " + fn.String()})
	}
	x.visited[fn] = true
	x.depth++
	x.stack = append(x.stack, fn)
	defer func() { x.depth--; x.stack = x.stack[:len(x.stack)-1] }()
	if x.depth > 24 {
		panic(undecided{"call depth: " + fn.String()})
	}
	info := x.p.info(fn)
	var sts []*State
	for _, e := range es {
		f := &Frame{fn: fn, regs: map[ssa.Value]Val{}}
		for k, p := range fn.Params {
			f.regs[p] = e.args[k]
		}
		for k, p := range fn.FreeVars {
			f.regs[p] = e.bind[k]
		}
		e.st.frames = append(e.st.frames, f)
		sts = append(sts, e.st)
	}
	if len(sts) > 1 {
		sts = x.dedupe(sts)
	}
	pending := map[*ssa.BasicBlock][]*State{fn.Blocks[0]: sts}
	heads := map[*ssa.BasicBlock]map[string]*acc{}
	var outs []Out
	for {
		var b *ssa.BasicBlock
		for c, l := range pending {
			if len(l) > 0 && (b == nil || info.order[c] < info.order[b]) {
				b = c
			}
		}
		if b == nil {
			break
		}
		states := pending[b]
		delete(pending, b)
		var todo []*State
		if info.heads[b] {
			if heads[b] == nil {
				heads[b] = map[string]*acc{}
			}
			for _, s := range states {
				if x.h.arrive != nil {
					x.h.arrive(x, s, fn, b)
				}
				x.unwrapAll(s)
				s.gc()
				if x.h.loopHead != nil {
					x.h.loopHead(x, s, fn, b)
				}
				if onLoopHead != nil {
					onLoopHead(x, s, fn, b)
				}
				w := shapeOf(s)
				key := w.sb.String()
				a := heads[b][key]
				if x.debug {
					fmt.Printf("HEAD %s block %d new %v\n%s\n", fn.Name(), b.Index, a == nil, s.dump())
				}
				if a == nil {
					heads[b][key] = &acc{s, w, 1}
					todo = append(todo, s.clone())
					if len(heads[b]) > 3000 {
						panic(undecided{fmt.Sprintf("%s: too many shapes at loop", fn)})
					}
					continue
				}
				if leq(s, a.st, w, a.w) {
					continue
				}
				a.visits++
				x.nJoins++
				if a.visits > 60 {
					panic(undecided{fmt.Sprintf("%s: loop does not stabilise", fn)})
				}
				n := joinStates(a.st, s, a.w, w, a.visits)
				a.st, a.w = n, shapeOf(n)
				if k2 := a.w.sb.String(); k2 != key {
					// normalisation changed the shape
					heads[b][key] = &acc{n, a.w, a.visits}
					if o := heads[b][k2]; o != nil {
						if leq(n, o.st, a.w, o.w) {
							continue
						}
					} else {
						heads[b][k2] = &acc{n.clone(), a.w, a.visits}
					}
				}
				if x.debug {
					fmt.Printf("JOIN %s block %d visit %d\n%s\n", fn.Name(), b.Index, a.visits, n.dump())
				}
				todo = append(todo, n.clone())
			}
		} else if len(b.Preds) > 1 {
			todo = x.dedupe(states)
		} else {
			todo = states
		}
		for _, o := range x.block(fn, info, b, todo) {
			if o.to == nil {
				outs = append(outs, Out{o.st, o.ret})
				continue
			}
			pending[o.to] = append(pending[o.to], o.st)
		}
		if len(outs) > 200 {
			outs = x.mergeOuts(outs)
		}
	}
	for i := range outs {
		s := outs[i].st
		s.frames = s.frames[:len(s.frames)-1]
	}
	return x.mergeOuts(outs)
}

func (x *Exec) dedupe(states []*State) []*State {
	if len(states) < 2 {
		return states
	}
	type ent struct {
		s *State
		w *walker
	}
	by := map[string][]ent{}
	var order []string
	for _, s := range states {
		x.unwrapAll(s)
		s.gc()
		w := shapeOf(s)
		k := w.sb.String()
		dup := false
		for _, e := range by[k] {
			if leq(s, e.s, w, e.w) {
				dup = true
				break
			}
		}
		if dup {
			continue
		}
		if by[k] == nil {
			order = append(order, k)
		}
		var keep []ent
		for _, e := range by[k] {
			if !leq(e.s, s, e.w, w) {
				keep = append(keep, e)
			}
		}
		by[k] = append(keep, ent{s, w})
	}
	var out []*State
	for _, k := range order {
		l := by[k]
		if len(states) > 100 && len(l) > 4 {
			j := l[0]
			for _, e := range l[1:] {
				n := joinStates(j.s, e.s, j.w, e.w, 0)
				if x.debug {
					fmt.Printf("MERGE\n%s\nAND\n%s\nIS\n%s\n", j.s.dump(), e.s.dump(), n.dump())
				}
				j = ent{n, shapeOf(n)}
				if j.w.sb.String() != k {
					break
				}
			}
			if j.w.sb.String() == k {
				l = []ent{j}
			}
		}
		for _, e := range l {
			out = append(out, e.s)
		}
	}
	return out
}

func (x *Exec) mergeOuts(outs []Out) []Out {
	if len(outs) < 2 {
		return outs
	}
	var states []*State
	for _, o := range outs {
		o.st.ghost["~ret"] = o.ret
		states = append(states, o.st)
	}
	states = x.dedupe(states)
	var r []Out
	for _, s := range states {
		v := s.ghost["~ret"]
		delete(s.ghost, "~ret")
		r = append(r, Out{s, v})
	}
	return r
}

// outOfMemory is set when the analysis needs too much memory; what is being analysed is then given up
var outOfMemory atomic.Bool

func watchMemory(limit uint64) {
	for {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		outOfMemory.Store(m.HeapAlloc > limit)
		if m.HeapAlloc > limit {
			debug.FreeOSMemory()
		}
		time.Sleep(300 * time.Millisecond)
	}
}

type edge struct {
	st  *State
	to  *ssa.BasicBlock
	ret Val
}

func (x *Exec) block(fn *ssa.Function, info *fnInfo, b *ssa.BasicBlock, states []*State) []edge {
	x.nStates += len(states)
	if outOfMemory.Load() {
		panic(undecided{"out of memory in " + fn.String()})
	}
	if !x.deadline.IsZero() && time.Now().After(x.deadline) {
		panic(undecided{"out of time in " + fn.String()})
	}
	for _, in := range b.Instrs {
		x.steps += len(states)
		if x.steps > x.maxSteps {
			panic(undecided{"analysis budget exhausted in " + fn.String()})
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			var es []edge
			for _, s := range states {
				c := x.reg(s, in.Cond).(*VBool)
				for k, want := range []bool{true, false} {
					for _, t := range x.assume(s.clone(), c, want) {
						if e, ok := x.enter(fn, info, t, b, b.Succs[k]); ok {
							es = append(es, e)
						}
					}
				}
			}
			return es
		case *ssa.Jump:
			var es []edge
			for _, s := range states {
				if e, ok := x.enter(fn, info, s, b, b.Succs[0]); ok {
					es = append(es, e)
				}
			}
			return es
		case *ssa.Return:
			var es []edge
			for _, s := range states {
				if s.bot() {
					continue
				}
				var v Val
				switch len(in.Results) {
				case 0:
				case 1:
					v = x.reg(s, in.Results[0])
				default:
					t := VTuple{}
					for _, r := range in.Results {
						t.v = append(t.v, x.reg(s, r))
					}
					v = t
				}
				if x.h.ret != nil {
					x.h.ret(x, s, fn, v)
				}
				s.top().regs = map[ssa.Value]Val{}
				es = append(es, edge{st: s, ret: v})
			}
			return es
		case *ssa.Panic:
			for _, s := range states {
				x.may(s, in, "panic")
			}
			return nil
		}
		var next []*State
		if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && len(states) > 1 {
			for _, o := range x.callAll(states, c, c.Call.StaticCallee()) {
				if !o.st.bot() {
					o.st.top().regs[c] = o.ret
					next = append(next, o.st)
				}
			}
			states = nil
		}
		for _, s := range states {
			for _, t := range x.instr(s, in) {
				if !t.bot() {
					next = append(next, t)
				}
			}
		}
		states = next
		if len(states) == 0 {
			return nil
		}
		if len(states) > 400 {
			states = x.dedupe(states)
			if len(states) > 2000 {
				panic(undecided{"too many states in " + fn.String()})
			}
		}
	}
	return nil
}

// callAll makes one call in several states
func (x *Exec) callAll(states []*State, in *ssa.Call, fn *ssa.Function) []Out {
	var out []Out
	var es []entry
	for _, s := range states {
		var args, bind []Val
		for _, a := range in.Call.Args {
			args = append(args, x.reg(s, a))
		}
		if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
			if f, ok := x.reg(s, mc).(VFunc); ok {
				bind = f.bind
			}
		}
		if o, ok := x.shortcut(s, in, fn, args); ok {
			out = append(out, o...)
			continue
		}
		x.pruneForCall(s, in)
		es = append(es, entry{s, args, bind})
	}
	if len(es) > 0 {
		out = append(out, x.run(fn, es)...)
	}
	return out
}

// enter moves a state along an edge: phis, dead registers
func (x *Exec) enter(fn *ssa.Function, info *fnInfo, s *State, from, to *ssa.BasicBlock) (edge, bool) {
	if s.bot() {
		return edge{}, false
	}
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	// an If with both successors the same block has two pred entries: values are then equal enough
	f := s.top()
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var pvs []pv
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pvs = append(pvs, pv{phi, x.reg(s, phi.Edges[k])})
	}
	live := info.liveIn[to]
	if info.heads[to] && info.order[from] >= info.order[to] && (x.h.backEdge != nil || onRound != nil) {
		for _, p := range pvs {
			f.regs[p.p] = p.v
		}
		if x.h.backEdge != nil {
			x.h.backEdge(x, s, fn, to)
		}
		if onRound != nil && !s.bot() {
			onRound(x, s, fn, to)
		}
		if s.bot() {
			return edge{}, false
		}
	}
	for v := range f.regs {
		if !live[v] {
			delete(f.regs, v)
		}
	}
	for _, p := range pvs {
		f.regs[p.p] = p.v
	}
	return edge{st: s, to: to}, true
}

// reg returns the value of an operand
func (x *Exec) reg(s *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(s, v)
	case *ssa.Global:
		return VPtr{obj: x.global(s, v)}
	case *ssa.Function:
		return VFunc{fn: v}
	case *ssa.Builtin:
		return VTop{v.Type()}
	}
	r, ok := s.top().regs[v]
	if !ok {
		panic(undecided{fmt.Sprintf("register %s of %s has no value", v.Name(), v.Parent())})
	}
	if o, ok := r.(VOpq); ok {
		if m, ok := s.mat[o.id]; ok {
			return VPtr{obj: m}
		}
		if s.nilf[o.id] {
			return VNil{}
		}
	}
	return r
}

func (x *Exec) constVal(s *State, c *ssa.Const) Val {
	t := c.Type().Underlying()
	if c.Value == nil {
		return x.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.Int:
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := constant.Int64Val(c.Value); ok {
				return VInt{K(n)}
			}
		}
	case constant.String:
		v := constant.StringVal(c.Value)
		return VStr{cst: &v}
	}
	return VTop{c.Type()}
}

func isRuneSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (x *Exec) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{K(0)}
		case u.Info()&types.IsBoolean != 0:
			return bF
		case u.Info()&types.IsString != 0:
			e := ""
			return VStr{cst: &e}
		case u.Kind() == types.UntypedNil:
			return VNil{}
		}
		return VTop{t}
	case *types.Slice:
		if isRuneSlice(t) {
			return VRope{isNil: true}
		}
		return VList{isNil: true}
	case *types.Struct:
		r := VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, x.zero(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		r := VStruct{}
		for i := int64(0); i < u.Len() && i < 64; i++ {
			r.f = append(r.f, x.zero(u.Elem()))
		}
		return r
	case *types.Tuple:
		r := VTuple{}
		for i := 0; i < u.Len(); i++ {
			r.v = append(r.v, x.zero(u.At(i).Type()))
		}
		return r
	}
	return VNil{}
}

// sym returns the unknown value of a type; with a key the same value each time
func (x *Exec) sym(s *State, t types.Type, key string) Val {
	mk := func() int {
		if key != "" {
			return internID(key)
		}
		return freshID()
	}
	ms := func(suffix string) Sym {
		if key != "" {
			return globalSym(key + suffix)
		}
		return freshSym()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			v := ms("")
			if u.Info()&types.IsUnsigned != 0 || u.Kind() == types.Int32 && strings.HasPrefix(key, "rule.") {
				s.d.addDiff(0, v, 0) // a char of the definition is a char, not the end marker
			}
			return VInt{S(v)}
		case u.Info()&types.IsBoolean != 0:
			return &VBool{op: 'a', id: mk(), key: key}
		case u.Info()&types.IsString != 0:
			return VStr{id: mk(), key: key}
		}
		return VTop{t}
	case *types.Slice:
		n := ms("#len")
		s.d.addDiff(0, n, 0)
		if isRuneSlice(t) {
			if key == "" {
				return VRope{p: []piece{{tape: "?", lo: K(0), hi: S(n)}}}
			}
			return VRope{p: []piece{{tape: key, lo: K(0), hi: S(n)}}}
		}
		if key == "" {
			return VList{p: []part{{kind: 's', v: VTop{u.Elem()}, lo: K(0), hi: S(n), id: freshID()}}}
		}
		return VList{p: []part{{kind: 'w', key: key, v: VTop{u.Elem()}, lo: K(0), hi: S(n)}}}
	case *types.Struct:
		r := VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			k := ""
			if key != "" {
				k = key + "." + u.Field(i).Name()
			}
			r.f = append(r.f, x.sym(s, u.Field(i).Type(), k))
		}
		return r
	case *types.Tuple:
		r := VTuple{}
		for i := 0; i < u.Len(); i++ {
			r.v = append(r.v, x.sym(s, u.At(i).Type(), ""))
		}
		return r
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return VOpq{id: mk(), key: key, typ: t}
	}
	return VTop{t}
}

// globals are symbolic objects shared by all states
func (x *Exec) global(s *State, g *ssa.Global) int {
	key := "global:" + g.String()
	id := internID(key)
	if s.heap[id] == nil {
		el := g.Type().(*types.Pointer).Elem()
		s.heap[id] = &Obj{typ: el, f: make([]Val, nfields(el)), symb: true, symKey: key, tag: "global"}
	}
	return id
}

func nfields(t types.Type) int {
	if st, ok := t.Underlying().(*types.Struct); ok {
		return st.NumFields()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		n := int(a.Len())
		if n > 64 {
			n = 64
		}
		return n
	}
	return 1
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// newObj allocates an object holding the zero value
func (x *Exec) newObj(s *State, t types.Type) int {
	o := &Obj{typ: t}
	if x.isOpaque(t) {
		o.symb = true
		o.f = make([]Val, nfields(t))
		return s.alloc(o)
	}
	z := x.zero(t)
	if st, ok := z.(VStruct); ok && isAgg(t) {
		o.f = st.f
		if x.defs && isBuilder(t) {
			o.f[1] = VRope{}
		}
	} else {
		o.f = []Val{z}
	}
	return s.alloc(o)
}

// deref resolves a pointer value to an object and path; ok is false if it is (or may only be) nil or unknown
func (x *Exec) deref(s *State, in ssa.Instruction, v Val) (VPtr, bool) {
	switch v := v.(type) {
	case VPtr:
		return v, true
	case VNil:
		x.may(s, in, "nil dereference")
		s.d.bot = true
		return VPtr{}, false
	case VOpq:
		if o, ok := s.mat[v.id]; ok {
			return VPtr{obj: o}, true
		}
		if isnil, known := s.nilKnown(v); known {
			if isnil {
				return x.deref(s, in, VNil{})
			}
		} else {
			x.mayNil(s, in, v, "possible nil dereference of ")
			s.nilf[v.id] = false
		}
		pt, ok := v.typ.Underlying().(*types.Pointer)
		if !ok {
			x.bad(in, "dereference of %s", v.typ)
			s.d.bot = true
			return VPtr{}, false
		}
		// the same element reached again is the same object
		if v.idx != nil {
			for id, m := range s.heap {
				if m.symIdx != nil && m.tag == "elem:"+v.key && s.eq(*m.symIdx, *v.idx) {
					s.mat[v.id] = id
					return VPtr{obj: id}, true
				}
			}
		}
		o := &Obj{typ: pt.Elem(), symb: true, f: make([]Val, nfields(pt.Elem()))}
		if internRev[v.id] != "" || x.track && strings.HasSuffix(v.key, "}") {
			o.symKey = v.key
		} else if v.idx != nil {
			o.tag = "elem:" + v.key
			i := *v.idx
			o.symIdx = &i
		}
		id := s.alloc(o)
		s.mat[v.id] = id
		return VPtr{obj: id}, true
	}
	x.note(in, "dereference of unknown pointer %s", s.show(v))
	return VPtr{}, false
}

func splitPath(p string) []int {
	var r []int
	for _, x := range strings.Split(p, ".") {
		if x == "" {
			continue
		}
		n := 0
		fmt.Sscan(x, &n)
		r = append(r, n)
	}
	return r
}

// loadPtr reads what a pointer points to
func (x *Exec) loadPtr(s *State, in ssa.Instruction, p VPtr, t types.Type) Val {
	o := s.heap[p.obj]
	if o == nil {
		x.note(in, "load from unknown object")
		return x.sym(s, t, "")
	}
	path := splitPath(p.path)
	if x.isOpaque(o.typ) || len(path) > 0 && x.blank[path[0]] && o.tag != "childnode" && types.Identical(o.typ, x.p.tNode) {
		return x.symOrNil(s, t)
	}
	if len(path) == 0 {
		if !isAgg(o.typ) {
			if o.f[0] == nil {
				return x.symField(s, p.obj, o, nil, o.typ)
			}
			return o.f[0]
		}
		// whole struct
		r := VStruct{}
		for i := range o.f {
			r.f = append(r.f, x.loadPtr(s, in, VPtr{p.obj, fmt.Sprintf(".%d", i)}, fieldType(o.typ, i)))
		}
		return r
	}
	v := o.f[path[0]]
	ty := elemType(o.typ, path[0])
	if v == nil {
		v = x.symField(s, p.obj, o, path[:1], ty)
	}
	for _, k := range path[1:] {
		st, ok := v.(VStruct)
		if !ok {
			return x.sym(s, t, "")
		}
		v = st.f[k]
	}
	return v
}

func elemType(t types.Type, i int) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return u.Field(i).Type()
	case *types.Array:
		return u.Elem()
	}
	return t
}

// symField creates the initial content of a field of a symbolic object
func (x *Exec) symField(s *State, id int, o *Obj, path []int, t types.Type) Val {
	key := ""
	if o.symKey != "" {
		key = o.symKey
		if len(path) > 0 {
			if st, ok := o.typ.Underlying().(*types.Struct); ok {
				key += "." + st.Field(path[0]).Name()
			} else {
				key += fmt.Sprintf(".%d", path[0])
			}
		}
	}
	if !o.symb {
		panic(undecided{"uninitialised field"})
	}
	v := x.sym(s, t, key)
	if x.places && o.tag == "elem:"+endKey+"[]" && o.symIdx != nil && len(path) > 0 && path[0] == x.p.nPos {
		// that of the node whose match ends there
		i := *o.symIdx
		v = VOpq{id: freshID(), key: placeKey + "[]", idx: &i, typ: t}
	}
	if onField != nil && len(path) > 0 {
		onField(s, o, path[0], v)
	}
	if key == "" {
		w := s.wobj(id)
		k := 0
		if len(path) > 0 {
			k = path[0]
		}
		w.f[k] = v
	}
	return v
}

func (x *Exec) storePtr(s *State, in ssa.Instruction, p VPtr, v Val) {
	o := s.heap[p.obj]
	if o == nil {
		x.bad(in, "store to unknown object")
		return
	}
	if x.h.store != nil {
		x.h.store(x, s, in, p, v)
	}
	if onStore != nil {
		onStore(x, s, in, p, v)
	}
	path := splitPath(p.path)
	if x.isOpaque(o.typ) || len(path) > 0 && x.blank[path[0]] && o.tag != "childnode" && types.Identical(o.typ, x.p.tNode) {
		return
	}
	w := s.wobj(p.obj)
	if strings.HasPrefix(w.tag, "!") {
		x.bad(in, "an object that is also held by a list summary is changed")
	}
	if len(path) == 0 {
		if isAgg(w.typ) {
			if st, ok := v.(VStruct); ok && len(st.f) == len(w.f) {
				w.f = append([]Val(nil), st.f...)
				return
			}
			x.bad(in, "store of an unknown struct")
			return
		}
		if w.summary && w.f[0] != nil {
			v = s.fold(w.f[0], v, w.typ)
			w = s.wobj(p.obj)
		}
		w.f[0] = v
		return
	}
	if len(path) == 1 {
		if w.summary && w.f[path[0]] != nil {
			v = s.fold(w.f[path[0]], v, elemType(w.typ, path[0]))
			w = s.wobj(p.obj)
		}
		w.f[path[0]] = v
		if x.h.stored != nil {
			x.h.stored(x, s, in, p, v)
		}
		return
	}
	cur := w.f[path[0]]
	if cur == nil {
		cur = x.loadPtr(s, in, VPtr{p.obj, fmt.Sprintf(".%d", path[0])}, elemType(w.typ, path[0]))
		w = s.wobj(p.obj)
	}
	var set func(v0 Val, path []int) Val
	set = func(v0 Val, path []int) Val {
		st, ok := v0.(VStruct)
		if !ok {
			return v0
		}
		n := VStruct{f: append([]Val(nil), st.f...)}
		if len(path) == 1 {
			n.f[path[0]] = v
		} else {
			n.f[path[0]] = set(n.f[path[0]], path[1:])
		}
		return n
	}
	w.f[path[0]] = set(cur, path[1:])
}

// isOpaque: objects of the type are not followed, what they hold is unknown
func (x *Exec) isOpaque(t types.Type) bool {
	for _, o := range x.opaque {
		if types.Identical(t, o) {
			return true
		}
	}
	return false
}

// nilness

func (s *State) nilKnown(v Val) (isNil, known bool) {
	switch v := v.(type) {
	case VNil:
		return true, true
	case VPtr, VFunc, VStruct, VInt, *VBool, VStr:
		return false, true
	case VOpq:
		if t, ok := s.nilf[v.id]; ok {
			return t, true
		}
		if _, ok := s.mat[v.id]; ok {
			return false, true
		}
	case VRope:
		if v.isNil && len(v.p) == 0 {
			return true, true
		}
		if s.lt(K(0), v.length()) {
			return false, true
		}
	case VList:
		if v.isNil && len(v.p) == 0 {
			return true, true
		}
		if s.lt(K(0), v.length()) {
			return false, true
		}
	}
	return false, false
}

func (s *State) truthOf(b *VBool) (val, known bool) {
	switch b.op {
	case 'T':
		return true, true
	case 'F':
		return false, true
	case 'a':
		t, ok := s.truth[b.id]
		return t, ok
	case 'p':
		return s.predTruth(b.key, b.l)
	case '<':
		if s.d.upper(b.l) <= 0 {
			return true, true
		}
		if s.d.upper(b.l.neg()) < 0 {
			return false, true
		}
	case '=':
		if s.eq(b.l, K(0)) {
			return true, true
		}
		if s.ne(b.l, K(0)) {
			return false, true
		}
	case 'n':
		return s.nilKnown(b.v)
	case '!':
		v, k := s.truthOf(b.x)
		return !v, k
	case '^':
		v, k := s.truthOf(b.x)
		w, l := s.truthOf(b.y)
		return v != w, k && l
	}
	return false, false
}

func (x *Exec) assume(s *State, b *VBool, want bool) []*State {
	if t, known := s.truthOf(b); known {
		if t != want {
			return nil
		}
		return []*State{s}
	}
	switch b.op {
	case 'a':
		if b.key != "any" {
			s.truth[b.id] = want
		}
	case 'p':
		s.preds = append(s.preds, predFact{b.key, b.l, want})
	case '<':
		if want {
			s.d.assumeLe0(b.l)
		} else {
			s.d.assumeLe0(b.l.neg().addc(1))
		}
		s.checkNeq()
	case '=':
		if want {
			s.assumeEq(b.l, K(0))
		} else {
			s.assumeNe(b.l, K(0))
		}
	case 'n':
		switch v := b.v.(type) {
		case VOpq:
			s.nilf[v.id] = want
		case VRope:
			if want {
				s.assumeEq(v.length(), K(0))
			}
		case VList:
			if want {
				s.assumeEq(v.length(), K(0))
			}
		}
	case '!':
		return x.assume(s, b.x, !want)
	case '^':
		var out []*State
		for _, t := range []bool{true, false} {
			for _, s1 := range x.assume(s.clone(), b.x, t) {
				out = append(out, x.assume(s1, b.y, want != t)...)
			}
		}
		return out
	}
	if s.bot() {
		return nil
	}
	if x.h.fact != nil {
		x.h.fact(x, s, b, want)
		if s.bot() {
			return nil
		}
	}
	return []*State{s}
}

// onlyBranched: a condition that is used for nothing but branches
func onlyBranched(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r.(type) {
		case *ssa.If, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// comparesChars: a comparison of chars of the text or of texts it is compared with
func (s *State) comparesChars(b *VBool) bool {
	for b.op == '!' {
		b = b.x
	}
	if b.op != '=' && b.op != '<' {
		return false
	}
	for _, t := range b.l.t {
		for _, c := range s.chars {
			if c.v == t.s {
				return true
			}
		}
	}
	return false
}

// instr interprets one instruction
func (x *Exec) instr(s *State, in ssa.Instruction) []*State {
	set := func(v Val) []*State {
		s.top().regs[in.(ssa.Value)] = v
		return []*State{s}
	}
	one := []*State{s}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		return set(VPtr{obj: x.newObj(s, t)})
	case *ssa.BinOp:
		v := x.binop(s, in, in.Op, x.reg(s, in.X), x.reg(s, in.Y), in.X.Type())
		if b, ok := v.(*VBool); ok && x.precise && onlyBranched(in) == false && s.comparesChars(b) {
			var out []*State
			for _, want := range []bool{true, false} {
				for _, t := range x.assume(s.clone(), b, want) {
					t.top().regs[in] = mkBool(want)
					out = append(out, t)
				}
			}
			return out
		}
		return set(v)
	case *ssa.UnOp:
		v := x.reg(s, in.X)
		switch in.Op {
		case token.MUL:
			if ep, ok := v.(VElemPtr); ok {
				var out []*State
				for _, o := range x.loadElem(s, in, ep.seq, ep.idx, in.Type()) {
					o.st.top().regs[in] = o.ret
					out = append(out, o.st)
				}
				return out
			}
			p, ok := x.deref(s, in, v)
			if s.bot() {
				return nil
			}
			if !ok {
				return set(x.sym(s, in.Type(), ""))
			}
			return set(x.loadPtr(s, in, p, in.Type()))
		case token.NOT:
			return set(bNot(x.boolOf(v)))
		case token.SUB:
			if i, ok := v.(VInt); ok {
				return set(VInt{i.l.neg()})
			}
		}
		return set(x.sym(s, in.Type(), ""))
	case *ssa.Store:
		v := x.reg(s, in.Val)
		a := x.reg(s, in.Addr)
		if ep, ok := a.(VElemPtr); ok {
			x.storeElem(s, in, ep, v)
			return one
		}
		p, ok := x.deref(s, in, a)
		if s.bot() {
			return nil
		}
		if ok {
			x.storePtr(s, in, p, v)
		} else {
			x.bad(in, "store through an unknown pointer")
		}
		return one
	case *ssa.FieldAddr:
		p, ok := x.deref(s, in, x.reg(s, in.X))
		if s.bot() {
			return nil
		}
		if !ok {
			return set(VOpq{id: freshID(), typ: in.Type()})
		}
		return set(VPtr{p.obj, p.path + fmt.Sprintf(".%d", in.Field)})
	case *ssa.Field:
		if st, ok := x.reg(s, in.X).(VStruct); ok {
			return set(st.f[in.Field])
		}
		return set(x.sym(s, in.Type(), ""))
	case *ssa.IndexAddr:
		return x.indexAddr(s, in)
	case *ssa.Index:
		v := x.reg(s, in.X)
		i := x.reg(s, in.Index)
		if st, ok := v.(VStruct); ok {
			if vi, ok := i.(VInt); ok {
				if c, ok := s.constOf(vi.l); ok && c >= 0 && int(c) < len(st.f) {
					return set(st.f[c])
				}
			}
		}
		if str, ok := v.(VStr); ok {
			x.strBounds(s, in, str, i)
			return set(x.strIndex(s, str, i))
		}
		return set(x.sym(s, in.Type(), ""))
	case *ssa.Lookup:
		return x.lookup(s, in)
	case *ssa.Slice:
		return x.slice(s, in)
	case *ssa.MakeSlice:
		n := K(0)
		if l, ok := x.reg(s, in.Len).(VInt); ok {
			n = l.l
		}
		if !s.le(K(0), n) {
			x.may(s, in, "a list of a length that may be negative")
		}
		if s.eq(n, K(0)) {
			if isRuneSlice(in.Type()) {
				return set(VRope{})
			}
			return set(VList{})
		}
		if isRuneSlice(in.Type()) {
			return set(VRope{p: []piece{{tape: fmt.Sprintf("?%d", freshID()), lo: K(0), hi: n}}})
		}
		return set(VList{p: []part{{kind: 's', id: freshID(), v: x.zero(in.Type().Underlying().(*types.Slice).Elem()), lo: K(0), hi: n}}})
	case *ssa.MakeMap:
		if onEntry != nil {
			onEntry(s, in, false)
		}
		return set(VPtr{obj: s.alloc(&Obj{typ: in.Type(), f: nil, m: &mapInfo{n: K(0)}})})
	case *ssa.MapUpdate:
		x.mapUpdate(s, in)
		return one
	case *ssa.MakeInterface:
		return set(x.reg(s, in.X))
	case *ssa.ChangeInterface:
		return set(x.reg(s, in.X))
	case *ssa.ChangeType:
		return set(x.reg(s, in.X))
	case *ssa.Convert:
		return set(x.convert(s, in, x.reg(s, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeClosure:
		f := VFunc{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, x.reg(s, b))
		}
		return set(f)
	case *ssa.Extract:
		v := x.reg(s, in.Tuple)
		if t, ok := v.(VTuple); ok && in.Index < len(t.v) {
			return set(t.v[in.Index])
		}
		return set(x.sym(s, in.Type(), ""))
	case *ssa.TypeAssert:
		return x.typeAssert(s, in)
	case *ssa.Range:
		if x.names {
			s.startNames(in)
		}
		return set(VIter{src: x.reg(s, in.X), id: freshID(), str: isString(in.X.Type())})
	case *ssa.Next:
		return x.next(s, in)
	case *ssa.Call:
		var out []*State
		for _, o := range x.call(s, in, &in.Call) {
			if o.st.bot() {
				continue
			}
			o.st.top().regs[in] = o.ret
			out = append(out, o.st)
		}
		return out
	case *ssa.Defer:
		s.top().defers = append(s.top().defers, in)
		return one
	case *ssa.RunDefers:
		states := one
		ds := s.top().defers
		s.top().defers = nil
		for k := len(ds) - 1; k >= 0; k-- {
			var next []*State
			for _, t := range states {
				for _, o := range x.call(t, ds[k], &ds[k].Call) {
					next = append(next, o.st)
				}
			}
			states = next
		}
		return states
	case *ssa.Go, *ssa.Send, *ssa.Select:
		x.bad(in, "concurrency is not modelled")
		if v, ok := in.(ssa.Value); ok {
			return set(x.sym(s, v.Type(), ""))
		}
		return one
	}
	if v, ok := in.(ssa.Value); ok {
		x.bad(in, "instruction %T is not modelled", in)
		return set(x.sym(s, v.Type(), ""))
	}
	x.bad(in, "instruction %T is not modelled", in)
	return one
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) boolOf(v Val) *VBool {
	if b, ok := v.(*VBool); ok {
		return b
	}
	return &VBool{op: 'a', id: freshID()}
}

func (x *Exec) binop(s *State, in ssa.Instruction, op token.Token, a, b Val, t types.Type) Val {
	ai, ok1 := a.(VInt)
	bi, ok2 := b.(VInt)
	if ok1 && ok2 {
		if op == token.ADD || op == token.SUB {
			// a sum of two symbols tells less than one of a symbol and the constant that the other one is
			if c, ok := s.constOf(ai.l); ok && len(bi.l.t) > 0 {
				ai.l = K(c)
			} else if c, ok := s.constOf(bi.l); ok && len(ai.l.t) > 0 {
				bi.l = K(c)
			}
		}
		d := ai.l.sub(bi.l)
		switch op {
		case token.ADD:
			return VInt{ai.l.add(bi.l)}
		case token.SUB:
			return VInt{d}
		case token.MUL:
			if c, ok := s.constOf(ai.l); ok {
				return VInt{bi.l.scale(c)}
			}
			if c, ok := s.constOf(bi.l); ok {
				return VInt{ai.l.scale(c)}
			}
		case token.EQL:
			return x.simp(s, &VBool{op: '=', l: d})
		case token.NEQ:
			return bNot(x.simp(s, &VBool{op: '=', l: d}))
		case token.LSS:
			return x.simp(s, &VBool{op: '<', l: d.addc(1)})
		case token.LEQ:
			return x.simp(s, &VBool{op: '<', l: d})
		case token.GTR:
			return x.simp(s, &VBool{op: '<', l: d.neg().addc(1)})
		case token.GEQ:
			return x.simp(s, &VBool{op: '<', l: d.neg()})
		case token.SHL:
			if c, ok := s.constOf(bi.l); ok && c >= 0 && c < 32 {
				return VInt{ai.l.scale(1 << uint(c))}
			}
		case token.QUO, token.SHR, token.REM, token.AND:
			if c, ok := s.constOf(bi.l); ok && (op == token.QUO && c == 2 || op == token.SHR && c == 1) && s.le(K(0), ai.l) {
				return VInt{s.half(ai.l)}
			}
			if (op == token.QUO || op == token.REM) && !s.ne(bi.l, K(0)) {
				x.may(s, in, "division by zero")
			}
			v := freshSym()
			if s.le(K(0), ai.l) && s.le(K(0), bi.l) {
				s.d.addDiff(0, v, 0)
				s.assumeLe(S(v), ai.l)
			}
			return VInt{S(v)}
		}
		return VInt{S(freshSym())}
	}
	if op == token.EQL || op == token.NEQ {
		r := x.equal(s, a, b)
		if op == token.NEQ {
			r = bNot(r)
		}
		return r
	}
	switch {
	case isString(t):
		switch op {
		case token.ADD:
			as, ok1 := a.(VStr)
			bs, ok2 := b.(VStr)
			if ok1 && ok2 && as.cst != nil && bs.cst != nil {
				c := *as.cst + *bs.cst
				return VStr{cst: &c}
			}
			if x.defs && ok1 && ok2 {
				ar, ok1 := s.runesOfStr(as)
				br, ok2 := s.runesOfStr(bs)
				if ok1 && ok2 {
					r := x.joinText(s, in, ar, br)
					return VStr{id: freshID(), runes: &r}
				}
			}
			return VStr{id: freshID()}
		}
		return &VBool{op: 'a', id: freshID()}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		// & | on booleans do not exist in Go
		return &VBool{op: 'a', id: freshID()}
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return &VBool{op: 'a', id: freshID()}
	}
	return x.sym(s, t, "")
}

func (x *Exec) simp(s *State, b *VBool) *VBool {
	if t, ok := s.truthOf(b); ok {
		return mkBool(t)
	}
	return b
}

func (x *Exec) equal(s *State, a, b Val) *VBool {
	if x1, ok := a.(*VBool); ok {
		if y1, ok := b.(*VBool); ok {
			return bNot(bXor(x1, y1))
		}
	}
	if _, ok := a.(VNil); ok {
		a, b = b, a
	}
	if _, ok := b.(VNil); ok {
		return x.simp(s, &VBool{op: 'n', v: a})
	}
	if _, ok := b.(VRope); ok {
		// slices compare to nil only
		if r, ok := b.(VRope); ok && r.isNil {
			return x.simp(s, &VBool{op: 'n', v: a})
		}
		return x.simp(s, &VBool{op: 'n', v: b})
	}
	if l, ok := b.(VList); ok {
		if l.isNil {
			return x.simp(s, &VBool{op: 'n', v: a})
		}
		return x.simp(s, &VBool{op: 'n', v: b})
	}
	switch a := a.(type) {
	case VPtr:
		if c, ok := b.(VPtr); ok {
			oa, ob := s.heap[a.obj], s.heap[c.obj]
			if a == c && oa != nil && !oa.summary {
				return bT
			}
			if oa != nil && ob != nil && !oa.summary && !ob.summary && (!oa.symb || !ob.symb) {
				return mkBool(a == c)
			}
		}
	case VOpq:
		if c, ok := b.(VOpq); ok && s.sameOpq(a, c) {
			return bT
		}
	case VStr:
		c, ok := b.(VStr)
		if ok && a.cst != nil && c.cst != nil {
			return mkBool(*a.cst == *c.cst)
		}
		if ok && x.names && a.cst == nil && c.cst == nil && a.id != c.id && (isName(a) || isName(c)) {
			return bF
		}
		if ok && a.cst == nil && c.cst == nil && a.id == c.id && (a.idx == nil) == (c.idx == nil) && (a.idx == nil || s.eq(*a.idx, *c.idx)) {
			return bT
		}
		if ok {
			if a.cst != nil {
				a, c = c, a
			}
			if c.cst != nil && *c.cst == "" && a.runes != nil && x.defs {
				return x.simp(s, &VBool{op: '=', l: a.runes.length()})
			}
			if c.cst != nil && a.runes != nil && x.defs {
				b := &VBool{op: 'a', id: internOrFresh(a.id, "=="+*c.cst), key: fmt.Sprintf("%s==%q", showOpq(a.key, nil, a.id), *c.cst)}
				if x.compared == nil {
					x.compared = map[int]comparison{}
				}
				x.compared[b.id] = comparison{*a.runes, *c.cst}
				return b
			}
			if c.cst != nil && *c.cst == "" && a.idx == nil && x.lenNames {
				return x.simp(s, &VBool{op: '=', l: x.strLen(s, a)})
			}
			if c.cst != nil && a.idx == nil {
				return &VBool{op: 'a', id: internOrFresh(a.id, "=="+*c.cst), key: fmt.Sprintf("%s==%q", showOpq(a.key, nil, a.id), *c.cst)}
			}
		}
	case VStruct:
		return &VBool{op: 'a', id: freshID()}
	}
	return &VBool{op: 'a', id: freshID()}
}

// a comparison of the same value with the same constant is the same atom
var cmpIDs = map[string]int{}

func internOrFresh(id int, suffix string) int {
	if key, ok := internRev[id]; ok {
		return internID(key + suffix)
	}
	k := fmt.Sprintf("%d%s", id, suffix)
	if n, ok := cmpIDs[k]; ok {
		return n
	}
	n := freshID()
	cmpIDs[k] = n
	return n
}

func (s *State) sameOpq(a, b VOpq) bool {
	if a.id == b.id {
		return true
	}
	return a.key != "" && a.key == b.key && a.idx != nil && b.idx != nil && s.eq(*a.idx, *b.idx)
}

func (x *Exec) strIndex(s *State, v VStr, i Val) Val {
	c := freshSym()
	s.d.addDiff(0, c, 0)
	s.d.addDiff(c, 0, 255)
	return VInt{S(c)}
}

// comparison of text with a constant
type comparison struct {
	text VRope
	with string
}

// runesOfStr: the chars of a string
func (s *State) runesOfStr(v VStr) (VRope, bool) {
	if v.runes != nil {
		return *v.runes, true
	}
	if v.cst == nil {
		return VRope{}, false
	}
	r := VRope{}
	for _, c := range *v.cst {
		r.p = append(r.p, piece{ch: K(int64(c))})
	}
	return r, true
}

// the length of a string is the same wherever it is asked for
var strLens = map[int]Sym{}

func (x *Exec) strLen(s *State, v VStr) Lin {
	if v.cst != nil {
		return K(int64(len(*v.cst)))
	}
	key := v.key
	if v.runes != nil && x.defs { // at least a byte for each char
		n, l := freshSym(), v.runes.length()
		s.d.addDiff(0, n, 0)
		if s.eq(l, K(0)) {
			return K(0)
		}
		s.assumeLe(l, S(n))
		return S(n)
	}
	if x.lenNames && v.idx == nil && v.id != 0 && internRev[v.id] == "" {
		n, ok := strLens[v.id]
		if !ok {
			n = freshSym()
			strLens[v.id] = n
		}
		s.d.addDiff(0, n, 0)
		return S(n)
	}
	if key == "" || v.idx != nil || internRev[v.id] == "" {
		n := freshSym()
		s.d.addDiff(0, n, 0)
		return S(n)
	}
	n := globalSym(key + "#len")
	s.d.addDiff(0, n, 0)
	return S(n)
}

func (x *Exec) convert(s *State, in *ssa.Convert, v Val, from, to types.Type) Val {
	switch v := v.(type) {
	case VInt:
		if b, ok := to.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				return v
			}
			if b.Info()&types.IsString != 0 {
				r := x.ropeOfChar(s, v.l)
				return VStr{id: freshID(), runes: &r}
			}
		}
	case VRope:
		if isString(to) {
			r := v
			return VStr{id: freshID(), runes: &r}
		}
	case VStr:
		if isRuneSlice(to) {
			if v.runes != nil {
				return *v.runes
			}
			if v.cst != nil {
				r := VRope{}
				for _, c := range *v.cst {
					r.p = append(r.p, piece{ch: K(int64(c))})
				}
				return r
			}
			if internRev[v.id] != "" {
				n := globalSym(v.key + "#runes")
				s.d.addDiff(0, n, 0)
				return VRope{p: []piece{{tape: "runes:" + v.key, lo: K(0), hi: S(n)}}}
			}
			n := freshSym()
			s.d.addDiff(0, n, 0)
			return s.unknownRope(S(n))
		}
		return v
	}
	return x.sym(s, to, "")
}

func (x *Exec) ropeOfChar(s *State, l Lin) VRope {
	if p, ok := s.charOrigin(l); ok {
		return VRope{p: []piece{p}}
	}
	return VRope{p: []piece{{ch: l}}}
}

func (x *Exec) indexAddr(s *State, in *ssa.IndexAddr) []*State {
	set := func(v Val) []*State {
		s.top().regs[in] = v
		return []*State{s}
	}
	idx, ok := x.reg(s, in.Index).(VInt)
	if !ok {
		x.note(in, "index is unknown")
		idx = VInt{S(freshSym())}
	}
	v := x.reg(s, in.X)
	switch v := v.(type) {
	case VPtr: // array
		if c, ok := s.constOf(idx.l); ok {
			return set(VPtr{v.obj, v.path + fmt.Sprintf(".%d", c)})
		}
		x.note(in, "array index is unknown")
		x.may(s, in, "an index of an array that is not known")
		return set(VOpq{id: freshID(), typ: in.Type()})
	case VRope:
		x.inBounds(s, in, idx.l, v.length(), false)
		if s.bot() {
			return nil
		}
		return set(VElemPtr{v, idx.l})
	case VList:
		x.inBounds(s, in, idx.l, v.length(), false)
		if s.bot() {
			return nil
		}
		return set(VElemPtr{v, idx.l})
	}
	x.note(in, "indexing %s", s.show(v))
	x.may(s, in, "an index of something that is not known")
	return set(VOpq{id: freshID(), typ: in.Type()})
}

// inBounds checks and assumes 0 <= i < n (or <= n)
func (x *Exec) inBounds(s *State, in ssa.Instruction, i, n Lin, incl bool) {
	lim := n
	if !incl {
		lim = n.addc(-1)
	}
	if !(s.le(K(0), i) && s.le(i, lim)) {
		x.may(s, in, fmt.Sprintf("%s may be outside of bounds 0 to %s", i, lim))
	}
	s.assumeLe(K(0), i)
	s.assumeLe(i, lim)
}

func (x *Exec) loadElem(s *State, in ssa.Instruction, seq Val, idx Lin, t types.Type) []Out {
	switch q := seq.(type) {
	case VRope:
		states := []*State{s}
		if x.h.charLoad != nil {
			states = x.h.charLoad(x, s, in, q, idx)
		}
		var outs []Out
		for _, st := range states {
			v, ok := st.indexRope(q, idx)
			if !ok {
				x.note(in, "char of a spliced text")
			}
			outs = append(outs, Out{st, VInt{v}})
		}
		return outs
	case VList:
		var outs []Out
		off := K(0)
		// find candidate parts
		type cand struct {
			p   part
			off Lin
		}
		var cs []cand
		for _, p := range q.p {
			end := off.add(p.length())
			if !(s.le(end, idx) || s.lt(idx, off)) {
				cs = append(cs, cand{p, off})
			}
			off = end
		}
		for k, c := range cs {
			st := s
			if k < len(cs)-1 {
				st = s.clone()
			}
			if len(cs) > 1 {
				st.assumeLe(c.off, idx)
				st.assumeLt(idx, c.off.add(c.p.length()))
				if st.bot() {
					continue
				}
			}
			v := x.partElem(st, c.p, c.p.first().add(idx.sub(c.off)), t)
			if onElem != nil {
				onElem(st, q, v)
			}
			if x.h.elemLoad != nil {
				if r := x.h.elemLoad(x, st, in, seq, idx, v); r != nil {
					outs = append(outs, r...)
					continue
				}
			}
			outs = append(outs, Out{st, v})
		}
		if len(cs) == 0 {
			s.d.bot = true
		}
		return outs
	}
	return []Out{{s, x.sym(s, t, "")}}
}

// partElem is the element of a part at position i of its source
func (x *Exec) partElem(s *State, p part, i Lin, t types.Type) Val {
	switch p.kind {
	case 'e':
		return p.v
	case 's':
		if _, ok := p.v.(VTop); ok {
			if isString(t) {
				j := i
				return VStr{id: p.id, key: fmt.Sprintf("elem%d", 0), idx: &j}
			}
			return x.sym(s, t, "")
		}
		return s.expand(p.v)
	}
	if p.key == groupKey {
		return s.groupAt(p, i)
	}
	j := i
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		v := VOpq{id: freshID(), key: p.key + "[]", idx: &j, typ: t}
		return v
	case *types.Slice:
		n := freshSym()
		s.d.addDiff(0, n, 0)
		return VList{p: []part{{kind: 'w', key: p.key + "[]", v: VTop{u.Elem()}, lo: K(0), hi: S(n), id: freshID()}}}
	case *types.Basic:
		if isString(t) {
			return VStr{id: internID("elem:" + p.key), key: p.key + "[]", idx: &j}
		}
	}
	return x.sym(s, t, "")
}

func (x *Exec) slice(s *State, in *ssa.Slice) []*State {
	set := func(st *State, v Val) []*State {
		st.top().regs[in] = v
		return []*State{st}
	}
	v := x.reg(s, in.X)
	if p, ok := v.(VPtr); ok { // pointer to array: its elements
		arr := x.loadPtr(s, in, p, in.X.Type().Underlying().(*types.Pointer).Elem())
		st, ok := arr.(VStruct)
		if !ok {
			return set(s, x.sym(s, in.Type(), ""))
		}
		if isRuneSlice(in.Type()) {
			r := VRope{}
			for _, e := range st.f {
				if i, ok := e.(VInt); ok {
					r.p = append(r.p, x.ropeOfChar(s, i.l).p...)
				} else {
					r.p = append(r.p, piece{tape: "?", lo: K(0), hi: K(1)})
				}
			}
			v = s.normRope(x.pieces(s, in, r))
		} else {
			l := VList{}
			for _, e := range st.f {
				l.p = append(l.p, part{kind: 'e', v: e})
			}
			if x.defs {
				l = x.appendList(s, in, VList{}, l, in.Type().Underlying().(*types.Slice).Elem())
			}
			v = l
		}
	}
	bound := func(b ssa.Value, def Lin) Lin {
		if b == nil {
			return def
		}
		if i, ok := x.reg(s, b).(VInt); ok {
			return i.l
		}
		return S(freshSym())
	}
	switch v := v.(type) {
	case VRope:
		n := v.length()
		lo, hi := bound(in.Low, K(0)), bound(in.High, n)
		// the high bound may reach into the capacity; what lies there is unknown
		if in.High != nil {
			x.inBounds(s, in, hi, n, true)
		}
		x.inBounds(s, in, lo, hi, true)
		if s.bot() {
			return nil
		}
		if in.Low == nil && in.High == nil {
			return set(s, v)
		}
		r, ok := s.sliceRope(v, lo, hi)
		if !ok {
			x.note(in, "cut of %s at %s..%s", s.show(v), lo, hi)
		}
		return set(s, r)
	case VList:
		n := v.length()
		lo, hi := bound(in.Low, K(0)), bound(in.High, n)
		if in.High != nil {
			x.inBounds(s, in, hi, n, true)
		}
		x.inBounds(s, in, lo, hi, true)
		if s.bot() {
			return nil
		}
		if in.Low == nil && in.High == nil {
			return set(s, v)
		}
		return set(s, x.sliceList(s, in, v, lo, hi))
	case VStr:
		n := x.strLen(s, v)
		lo, hi := bound(in.Low, K(0)), bound(in.High, n)
		if in.High != nil {
			x.inBounds(s, in, hi, n, true)
		}
		x.inBounds(s, in, lo, hi, true)
		return set(s, VStr{id: freshID()})
	}
	if in.Low != nil || in.High != nil {
		x.may(s, in, "a cut of something that is not known")
	}
	return set(s, x.sym(s, in.Type(), ""))
}

func (x *Exec) sliceList(s *State, in ssa.Instruction, v VList, lo, hi Lin) VList {
	if s.eq(lo, hi) {
		return VList{}
	}
	cut := func(ps []part, n Lin) (a, b []part, ok bool) {
		off := K(0)
		for k := 0; k <= len(ps); k++ {
			if s.eq(n, off) {
				return ps[:k:k], ps[k:], true
			}
			if k == len(ps) {
				break
			}
			p := ps[k]
			end := off.add(p.length())
			if p.kind != 'e' && p.key != groupKey && s.le(off, n) && s.le(n, end) {
				y, z := p, p
				m := p.lo.add(n.sub(off))
				y.hi, z.lo = m, m
				return append(ps[:k:k], y), append([]part{z}, ps[k+1:]...), true
			}
			off = end
		}
		return nil, nil, false
	}
	a, _, ok := cut(v.p, hi)
	if ok {
		if _, b, ok := cut(a, lo); ok {
			return VList{p: b}
		}
	}
	x.note(in, "cut of %s at %s..%s", s.show(v), lo, hi)
	return VList{p: []part{{kind: 's', id: freshID(), v: VTop{nil}, lo: K(0), hi: hi.sub(lo)}}}
}

func (x *Exec) typeAssert(s *State, in *ssa.TypeAssert) []*State {
	v := x.reg(s, in.X)
	mk := func(st *State, v Val, ok *VBool) {
		if in.CommaOk {
			st.top().regs[in] = VTuple{[]Val{v, ok}}
		} else {
			st.top().regs[in] = v
		}
	}
	if p, ok := v.(VPtr); ok && p.path == "" {
		o := s.heap[p.obj]
		if o != nil {
			dyn := types.NewPointer(o.typ)
			match := false
			if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
				match = types.Implements(dyn, it)
			} else {
				match = types.Identical(dyn, in.AssertedType)
			}
			if match {
				mk(s, v, bT)
				return []*State{s}
			}
			if in.CommaOk {
				mk(s, x.zero(in.AssertedType), bF)
				return []*State{s}
			}
			x.may(s, in, "type assertion that fails")
			s.d.bot = true
			return nil
		}
	}
	if _, ok := v.(VNil); ok {
		if in.CommaOk {
			mk(s, x.zero(in.AssertedType), bF)
			return []*State{s}
		}
		x.may(s, in, "type assertion on nil")
		s.d.bot = true
		return nil
	}
	if in.CommaOk {
		f := s.clone()
		f.top().regs[in] = VTuple{[]Val{x.zero(in.AssertedType), bF}}
		if o, ok := v.(VOpq); ok {
			o.typ = in.AssertedType
			s.nilf[o.id] = false
			mk(s, o, bT)
		} else {
			mk(s, x.sym(s, in.AssertedType, ""), bT)
		}
		return []*State{s, f}
	}
	x.may(s, in, "type assertion that may fail")
	if o, ok := v.(VOpq); ok {
		o.typ = in.AssertedType
		mk(s, o, bT)
	} else {
		mk(s, x.sym(s, in.AssertedType, ""), bT)
	}
	return []*State{s}
}

func (x *Exec) next(s *State, in *ssa.Next) []*State {
	it, _ := x.reg(s, in.Iter).(VIter)
	tt := in.Type().(*types.Tuple)
	t := s.clone()
	t.top().regs[in] = VTuple{[]Val{bF, x.symOrNil(t, tt.At(1).Type()), x.symOrNil(t, tt.At(2).Type())}}
	if p, ok := it.src.(VPtr); ok && s.heap[p.obj] != nil && s.heap[p.obj].m != nil {
		m := s.heap[p.obj].m
		if x.names {
			return x.nextName(s, in, m)
		}
		if len(m.keys) == 0 && m.sum == nil {
			return []*State{t}
		}
		var out []*State
		out = append(out, t)
		for i := range m.keys {
			u := s.clone()
			u.top().regs[in] = VTuple{[]Val{bT, m.keys[i], m.vals[i]}}
			met(u, in)
			out = append(out, u)
		}
		if m.sum != nil {
			u := s.clone()
			u.top().regs[in] = VTuple{[]Val{bT, x.symOrNil(u, tt.At(1).Type()), u.expand(m.sum)}}
			met(u, in)
			out = append(out, u)
		}
		return out
	}
	v2 := x.symOrNil(s, tt.At(2).Type())
	k2 := x.symOrNil(s, tt.At(1).Type())
	s.top().regs[in] = VTuple{[]Val{bT, k2, v2}}
	return []*State{t, s}
}

// met: a range over a map meets an entry
func met(s *State, in *ssa.Next) {
	if rg, ok := in.Iter.(*ssa.Range); ok && onEntry != nil {
		onEntry(s, rg.X, true)
	}
}

func (x *Exec) symOrNil(s *State, t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VNil{}
	}
	return x.sym(s, t, "")
}

// maps

func (x *Exec) sameKey(s *State, a, b Val) (eq, known bool) {
	sa, ok1 := a.(VStr)
	sb, ok2 := b.(VStr)
	if ok1 && ok2 {
		if sa.cst != nil && sb.cst != nil {
			return *sa.cst == *sb.cst, true
		}
		if x.names && sa.cst == nil && sb.cst == nil && sa.id != sb.id && (isName(sa) || isName(sb)) {
			return false, true // a name that is followed is like no other
		}
		if sa.cst == nil && sb.cst == nil && sa.id == sb.id {
			if sa.idx == nil && sb.idx == nil {
				return true, true
			}
			if sa.idx != nil && sb.idx != nil {
				if s.eq(*sa.idx, *sb.idx) {
					return true, true
				}
				if s.ne(*sa.idx, *sb.idx) {
					return false, true // names are keys of a map: distinct
				}
			}
		}
		return false, false
	}
	ia, ok1 := a.(VInt)
	ib, ok2 := b.(VInt)
	if ok1 && ok2 {
		if s.eq(ia.l, ib.l) {
			return true, true
		}
		if s.ne(ia.l, ib.l) {
			return false, true
		}
	}
	return false, false
}

func (x *Exec) mapUpdate(s *State, in *ssa.MapUpdate) {
	m, k, v := x.reg(s, in.Map), x.reg(s, in.Key), x.reg(s, in.Value)
	if x.h.mapUpdate != nil {
		x.h.mapUpdate(x, s, in, m, k, v)
	}
	if onMapUpdate != nil {
		onMapUpdate(x, s, in, m, k, v)
	}
	if isNil, known := s.nilKnown(m); !known || isNil {
		x.mayNil(s, in, m, "change of a map that may be nil: ")
	}
	p, ok := m.(VPtr)
	if !ok || s.heap[p.obj] == nil || s.heap[p.obj].m == nil {
		return
	}
	w := s.wobj(p.obj).m
	fresh := false
	if ks, ok := k.(VStr); ok && ks.cst == nil && ks.idx != nil {
		if w.last != nil && w.last.id == ks.id && s.lt(*w.last.idx, *ks.idx) {
			fresh = true
		}
		if len(w.keys) == 0 && w.sum == nil {
			fresh = true
		}
		c := ks
		w.last = &c
	} else {
		if len(w.keys) == 0 && w.sum == nil {
			fresh = true
		}
		w.last = nil
	}
	for i := range w.keys {
		if eq, known := x.sameKey(s, w.keys[i], k); known && eq {
			w.vals[i] = v
			return
		}
	}
	if x.names && !isName(k) {
		w.sumKey(k)
	}
	if x.keepKey(s, v) && !x.names || x.names && isName(k) {
		w.keys = append(w.keys, k)
		w.vals = append(w.vals, v)
	} else if w.sum == nil {
		w.sum = s.fold(v, v, in.Value.Type())
	} else {
		w.sum = s.fold(w.sum, v, in.Value.Type())
	}
	w = s.wobj(p.obj).m
	if fresh {
		w.n = w.n.addc(1)
	} else {
		n := freshSym()
		s.assumeLe(w.n, S(n))
		s.assumeLe(S(n), w.n.addc(1))
		s.assumeLe(K(1), S(n))
		w.n = S(n)
	}
}

// keepKey: values a check follows individually
func (x *Exec) keepKey(s *State, v Val) bool {
	if x.names && isName(v) {
		return true
	}
	if p, ok := v.(VPtr); ok {
		if o := s.heap[p.obj]; o != nil && strings.HasPrefix(o.tag, "witness") {
			return true
		}
	}
	return false
}

func (x *Exec) lookup(s *State, in *ssa.Lookup) []*State {
	m := x.reg(s, in.X)
	k := x.reg(s, in.Index)
	put := func(st *State, v Val, ok *VBool) {
		if in.CommaOk {
			st.top().regs[in] = VTuple{[]Val{v, ok}}
		} else {
			st.top().regs[in] = v
		}
		if onEntry != nil && ok == bT {
			onEntry(st, in.X, true)
		}
	}
	if str, ok := m.(VStr); ok {
		x.strBounds(s, in, str, k)
		s.top().regs[in] = x.strIndex(s, str, k)
		return []*State{s}
	}
	vt := in.Type()
	if in.CommaOk {
		vt = in.Type().(*types.Tuple).At(0).Type()
	}
	if _, ok := m.(VNil); ok {
		put(s, x.zero(vt), bF)
		return []*State{s}
	}
	p, ok := m.(VPtr)
	if ok && s.heap[p.obj] != nil && s.heap[p.obj].m != nil {
		mi := s.heap[p.obj].m
		if x.names {
			return x.lookupName(s, s.heap[p.obj], k, vt, put)
		}
		var out []*State
		rest := s
		for i := range mi.keys {
			eq, known := x.sameKey(s, mi.keys[i], k)
			if known && !eq {
				continue
			}
			if known && eq {
				put(s, mi.vals[i], bT)
				return []*State{s}
			}
			h := s.clone()
			if ks, ok := k.(VStr); ok && ks.idx != nil {
				if ki, ok := mi.keys[i].(VStr); ok && ki.idx != nil && ki.id == ks.id {
					h.assumeEq(*ki.idx, *ks.idx)
					rest.assumeNe(*ki.idx, *ks.idx)
				}
			}
			if !h.bot() {
				put(h, mi.vals[i], bT)
				out = append(out, h)
			}
		}
		if rest.bot() {
			return out
		}
		if mi.sum != nil {
			h := rest.clone()
			put(h, h.expand(mi.sum), bT)
			out = append(out, h)
		}
		put(rest, x.zero(vt), bF)
		return append(out, rest)
	}
	// symbolic map
	if o, ok := m.(VOpq); ok && strings.HasPrefix(o.key, "global:") {
		if ki, ok := k.(VInt); ok {
			put(s, x.sym(s, vt, ""), &VBool{op: 'p', key: "in " + o.key, l: ki.l})
			return []*State{s}
		}
	}
	miss := func(f *State) {
		if o, ok := m.(VOpq); ok && x.track && strings.HasPrefix(o.key, "grammar.") {
			if ks, ok := k.(VStr); ok {
				f.flags["missing "+ks.key] = true
			}
		}
	}
	if in.CommaOk {
		f := s.clone()
		miss(f)
		put(f, x.zero(vt), bF)
		v := x.mapElem(s, m, k, vt)
		put(s, v, bT)
		return []*State{s, f}
	}
	// a missing key gives the zero value
	f := s.clone()
	miss(f)
	put(f, x.zero(vt), bF)
	v := x.mapElem(s, m, k, vt)
	if o, ok := v.(VOpq); ok && o.idx == nil && internRev[o.id] == "" {
		s.nilf[o.id] = false
	} else if ok {
		s.nilf[o.id] = false
	}
	put(s, v, bT)
	return []*State{s, f}
}

func (x *Exec) mapElem(s *State, m, k Val, vt types.Type) Val {
	v := x.sym(s, vt, "")
	if o, ok := v.(VOpq); ok {
		mo, ok1 := m.(VOpq)
		ks, ok2 := k.(VStr)
		if ok1 && ok2 && mo.key != "" {
			if ks.idx != nil {
				i := *ks.idx
				o.key = mo.key + "{}"
				o.idx = &i
			} else if ks.key != "" {
				o.key = mo.key + "{" + ks.key + "}"
			}
		}
		return o
	}
	return v
}

// lists

func (x *Exec) appendList(s *State, in ssa.Instruction, a, b VList, el types.Type) VList {
	r := VList{p: append([]part(nil), a.p...)}
	for _, p := range b.p {
		if p.kind == 'e' && x.spans {
			spanOf := x.spanOf
			if x.spanFn != nil {
				spanOf = x.spanFn
			}
			if lo, hi, ok := spanOf(s, p.v); ok {
				if x.spanFn == nil {
					x.mark(s, p.v)
				}
				p = part{kind: 'w', key: spanKey, v: VTop{el}, lo: lo, hi: hi}
			}
		}
		if p.kind == 'w' && x.listFn != nil {
			if q, ok := x.listFn(s, p); ok {
				p = q
			}
		}
		if l, ok := p.v.(VList); ok && p.kind == 'e' && x.defs && x.groupOf(l) {
			r = x.newGroup(s, in, r, l, el)
		}
		if p.kind == 'e' && x.track {
			if i := s.childIndex(p.v); i != nil {
				p = part{kind: 'w', key: childKey, v: VTop{el}, lo: *i, hi: i.addc(1)}
			}
		}
		if n := len(r.p); n > 0 && p.kind == 'w' {
			q := r.p[n-1]
			if q.kind == 'w' && q.key == p.key && q.id == p.id && s.eq(q.hi, p.lo) {
				r.p[n-1].hi = p.hi
				continue
			}
		}
		r.p = append(r.p, p)
	}
	if (x.track || x.spans) && len(r.p) > 6 { // not in order anyway
		q := part{kind: 's', id: freshID(), v: VTop{el}, lo: K(0), hi: r.length()}
		for _, p := range r.p {
			x.mark(s, p.v)
		}
		r.p = []part{q}
	}
	if x.names {
		r = x.oneName(s, r)
	}
	// summarise
	count := 0
	for _, p := range r.p {
		if g, ok := p.v.(VList); ok && x.defs && p.kind == 'e' && x.groupOf(g) {
			continue
		}
		if p.kind != 'w' && !x.isWitness(s, p) {
			count++
		}
	}
	hasSum := false
	for _, p := range r.p {
		if p.kind == 's' {
			hasSum = true
		}
	}
	keep := x.listK
	if x.listOf != nil && !types.Identical(x.listOf, el) {
		keep = 0
	}
	if count > keep || hasSum {
		r = x.summarise(s, r, el)
	}
	if x.names {
		for i, p := range r.p {
			if p.kind == 's' && len(p.hi.t) > 1 { // so long that positions can be compared
				n := freshSym()
				s.d.addDiff(0, n, 0)
				sum := p.hi.c >= 0
				for _, m := range p.hi.t {
					sum = sum && m.k == 1 && s.le(K(0), S(m.s))
				}
				for _, m := range p.hi.t {
					if sum {
						s.assumeLe(S(m.s), S(n))
					}
				}
				r.p[i].hi = S(n)
			}
		}
	}
	return r
}

func (x *Exec) isWitness(s *State, p part) bool {
	return p.kind == 'e' && x.keepKey(s, p.v)
}

// summarise folds runs of elements that no check follows
func (x *Exec) summarise(s *State, l VList, el types.Type) VList {
	var out []part
	for _, p := range l.p {
		if p.kind == 'w' || x.isWitness(s, p) {
			out = append(out, p)
			continue
		}
		n := len(out)
		if n > 0 && out[n-1].kind == 's' {
			q := out[n-1]
			x.mark(s, p.v)
			q.v = s.fold(q.v, p.v, el)
			q.hi = q.hi.add(p.length())
			out[n-1] = q
			continue
		}
		if p.kind == 'e' {
			x.mark(s, p.v)
			p = part{kind: 's', id: freshID(), v: s.fold(p.v, p.v, el), lo: K(0), hi: K(1)}
		}
		out = append(out, p)
	}
	return VList{p: out}
}

// mark an object as also covered by a summary
func (x *Exec) mark(s *State, v Val) {
	if p, ok := v.(VPtr); ok {
		if o := s.heap[p.obj]; o != nil && !o.summary && !strings.HasPrefix(o.tag, "!") {
			w := s.wobj(p.obj)
			w.tag = "!" + w.tag
		}
	}
}

func sortedNotes(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// half of a number that is not negative. The middle of a span lies within it: a-b and a+b are halved to that end.
func (s *State) half(l Lin) Lin {
	var a, b Lin // the middle of a and b is what is looked for
	var off Lin  // half is the middle less this
	switch {
	case len(l.t) == 2 && l.t[0].k*l.t[1].k == -1:
		p, n := l.t[0], l.t[1]
		if p.k < 0 {
			p, n = n, p
		}
		a, b = S(n.s), S(p.s).addc(l.c)
		off = a
	case len(l.t) == 2 && l.t[0].k == 1 && l.t[1].k == 1:
		a, b = S(l.t[0].s), S(l.t[1].s).addc(l.c)
		if !s.le(a, b) {
			a, b = b, a
		}
	default:
		b = l
	}
	m := S(freshSym())
	if s.le(a, b) {
		s.assumeLe(a, m)
		s.assumeLe(m, b)
		if s.lt(a, b) {
			s.assumeLt(m, b)
		}
		if s.lt(a.addc(1), b) {
			s.assumeLt(a, m)
		}
	}
	return m.sub(off)
}
