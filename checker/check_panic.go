package main

// C26: reading definitions and evaluating texts does not end in a run-time error.
//
// Every instruction that may end in one is an obligation of the interpreter, wherever it is met. That parts of rules,
// rules of records and tables of grammars are never nil is shown first, where these are made, and used where they are
// read.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	// onPanic is told about every instruction that may end in a run-time error
	onPanic func(x *Exec, s *State, in ssa.Instruction, kind string)
	// notNil tells what is never nil
	notNil func(s *State, in ssa.Instruction, v Val) bool
	// onStore sees every store, onMapUpdate every entry made in a map
	onStore     func(x *Exec, s *State, in ssa.Instruction, p VPtr, v Val)
	onMapUpdate func(x *Exec, s *State, in ssa.Instruction, m, k, v Val)
	// onField sees what a field of something symbolic holds at first
	onField func(s *State, o *Obj, i int, v Val)
	// onEntry sees when an entry of a map was met, or (false) the map made
	onEntry func(s *State, m ssa.Value, met bool)
	// onElem sees the element of a list
	onElem func(s *State, seq VList, v Val)
	// onExec sees every interpreter made
	onExec func(x *Exec)
)

func (x *Exec) may(s *State, in ssa.Instruction, kind string) {
	if in != nil && onPanic != nil && !s.bot() {
		onPanic(x, s, in, kind)
	}
}

// mayNil: something that may be nil must not be
func (x *Exec) mayNil(s *State, in ssa.Instruction, v Val, kind string) {
	if in != nil && onPanic != nil && !s.bot() && !(notNil != nil && notNil(s, in, v)) {
		onPanic(x, s, in, kind+s.show(v))
	}
}

// strBounds: an index of a string
func (x *Exec) strBounds(s *State, in ssa.Instruction, str VStr, k Val) {
	i, ok := k.(VInt)
	if !ok {
		x.may(s, in, "an index of a string that is not known")
		return
	}
	x.inBounds(s, in, i.l, x.strLen(s, str), false)
}

type panicCheck struct {
	p       *Program
	r       *Report
	record  *types.Named
	recRule int
	seen    map[ssa.Instruction]bool
	execs   []*Exec
	maybe   map[string]string // parts of rules that may be nil, with where they are made so
	never   map[string]bool   // parts of rules that are not nil wherever they are made
	filled  map[string]bool   // parts of rules that are lists with something in them wherever they are made
	empty   map[string]string // parts of rules that may be empty lists
	stored  map[ssa.Instruction]bool
	open    bool // parts may still turn out to be nil
}

// partKey names a part of a rule, as symbolic values are named
func partKey(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	return "rule." + st.Field(i).Name()
}

func (c *panicCheck) isRulePart(t types.Type) bool {
	for {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return types.Identical(t.Underlying(), c.p.tRule) || c.p.isRuleVal(t)
		}
		t = sl.Elem()
	}
}

func (c *panicCheck) isRuleStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	return types.Implements(t, c.p.tRule) || types.Implements(types.NewPointer(t), c.p.tRule)
}

// part looks at what a part of a rule is made of
func (c *panicCheck) part(x *Exec, s *State, key, where string, v Val, t types.Type) {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		key += "[]"
		l, isList := v.(VList)
		if _, isNil := v.(VNil); isNil {
			l, isList = VList{}, true
		}
		if !isList {
			c.mayBe(key, where+": "+s.show(v))
			return
		}
		if list := strings.TrimSuffix(key, "[]"); !s.lt(K(0), l.length()) {
			if c.empty[list] == "" {
				c.empty[list] = where + ": " + s.show(v)
			}
		} else {
			c.filled[list] = true
		}
		for _, q := range l.p {
			switch {
			case q.kind == 'e':
				c.part(x, s, key, where, q.v, sl.Elem())
			case q.kind == 'w' && (q.key == childKey || q.key == groupKey):
				if q.key == groupKey { // no group is complete without a rule in it, see newGroup
					c.filled[key] = true
				}
				for e := sl.Elem(); ; key += "[]" { // groups hold rules that were read
					n, ok := e.Underlying().(*types.Slice)
					if !ok {
						break
					}
					e = n.Elem()
				}
				c.never[key] = true
			default:
				c.mayBe(key, where+": "+s.show(v))
			}
		}
		return
	}
	if isNil, known := s.nilKnown(v); !known || isNil {
		c.mayBe(key, where+": "+s.show(v))
		return
	}
	c.never[key] = true
	if q, ok := v.(VPtr); ok {
		c.made(x, s, where, q)
	}
}

func (c *panicCheck) mayBe(key, where string) {
	for k := key; ; k += "[]" {
		if c.maybe[k] == "" {
			c.maybe[k] = where
		}
		if strings.Count(k, "[]") > 3 {
			return
		}
	}
}

// made looks at a rule made here
func (c *panicCheck) made(x *Exec, s *State, where string, q VPtr) {
	o := s.heap[q.obj]
	if o == nil || q.path != "" || o.symb || !c.isRuleStruct(o.typ) {
		return
	}
	for i := 0; i < nfields(o.typ); i++ {
		ft := fieldType(o.typ, i)
		if !c.isRulePart(ft) {
			continue
		}
		v := x.loadPtr(s, nil, VPtr{q.obj, fmt.Sprintf(".%d", i)}, ft)
		c.part(x, s, partKey(o.typ, i), where, v, ft)
	}
}

func (c *panicCheck) hooks() func() {
	p, r := c.p, c.r
	onExec = func(x *Exec) { c.execs = append(c.execs, x) }
	onPanic = func(x *Exec, s *State, in ssa.Instruction, kind string) {
		if c.seen[in] || c.cannotBe(s, in, kind) {
			return
		}
		c.seen[in] = true
		r.fail("run-time error", p.fname(in.Parent()), p.where(in), kind+"\n"+s.dump())
	}
	onStore = func(x *Exec, s *State, in ssa.Instruction, q VPtr, v Val) {
		o := s.heap[q.obj]
		path := splitPath(q.path)
		if len(path) != 1 || in == nil {
			return
		}
		ft := fieldType(o.typ, path[0])
		switch {
		case c.isRuleStruct(o.typ) && c.isRulePart(ft):
			c.stored[in] = true
			if o.symb {
				c.part(x, s, partKey(o.typ, path[0]), p.where(in), v, ft)
			}
		case types.Identical(o.typ, c.record) && path[0] == c.recRule:
			c.stored[in] = true
			isNil, known := s.nilKnown(v)
			r.ob(known && !isNil, "record", p.fname(in.Parent()), p.where(in), func() string { return "a record may be given no rule: " + s.show(v) })
		}
	}
	onMapUpdate = func(x *Exec, s *State, in ssa.Instruction, m, k, v Val) {
		t := in.(*ssa.MapUpdate).Value.Type()
		if !isPtrTo(t, c.record) {
			return
		}
		c.stored[in] = true
		if c.fromTable(in.(*ssa.MapUpdate).Value, 0) {
			return
		}
		isNil, known := s.nilKnown(v)
		if !r.ob(known && !isNil, "record", p.fname(in.Parent()), p.where(in), func() string { return "no record may be entered: " + s.show(v) }) {
			return
		}
		if q, ok := v.(VPtr); ok && s.heap[q.obj] != nil && !s.heap[q.obj].symb {
			ft := fieldType(c.record, c.recRule)
			rv := x.loadPtr(s, nil, VPtr{q.obj, fmt.Sprintf(".%d", c.recRule)}, ft)
			isNil, known := s.nilKnown(rv)
			r.ob(known && !isNil, "record", p.fname(in.Parent()), p.where(in), func() string { return "a record without a rule may be entered: " + s.show(rv) })
		}
	}
	notNil = func(s *State, in ssa.Instruction, v Val) bool {
		o, ok := v.(VOpq)
		if !ok {
			return false
		}
		if isPtrTo(o.typ, c.record) && strings.HasSuffix(o.key, "}") {
			return true // found in a table
		}
		if fa, ok := in.(*ssa.FieldAddr); ok && c.fromTable(fa.X, 0) {
			return true
		}
		if strings.HasSuffix(o.key, "Nodes[]") && isPtrTo(o.typ, p.tNode) {
			return true // trees do not hold nil as a node
		}
		if _, isMap := o.typ.Underlying().(*types.Map); isMap && strings.HasPrefix(o.key, "grammar.") {
			return true
		}
		if c.open {
			return false
		}
		return c.never[o.key] && c.maybe[o.key] == ""
	}
	notEmpty := func(s *State, key string, v Val) {
		if l, ok := v.(VList); ok && !c.open && c.filled[key] && c.empty[key] == "" {
			s.assumeLe(K(1), l.length())
		}
	}
	onElem = func(s *State, seq VList, v Val) {
		if len(seq.p) == 1 && seq.p[0].kind == 'w' {
			notEmpty(s, seq.p[0].key+"[]", v)
		}
	}
	onField = func(s *State, o *Obj, i int, v Val) {
		if c.isRuleStruct(o.typ) {
			notEmpty(s, partKey(o.typ, i), v)
		}
		if q, ok := v.(VOpq); ok && types.Identical(o.typ, c.record) && i == c.recRule {
			s.nilf[q.id] = false
		}
	}
	onEntry = func(s *State, m ssa.Value, met bool) {
		if k := noted(m); k != "" {
			if met {
				s.flags[k] = true
			} else {
				delete(s.flags, k)
			}
		}
	}
	return func() {
		onField, onEntry, onElem = nil, nil, nil
		onPanic, notNil, onStore, onMapUpdate, onExec = nil, nil, nil, nil, nil
	}
}

// noted is the flag of a state in which an entry of a map made here was met
func noted(m ssa.Value) string {
	if _, ok := m.(*ssa.MakeMap); !ok {
		return ""
	}
	return "entry of " + m.Name() + " of " + m.Parent().Name()
}

// cannotBe: the state is one that the interpreter keeps but that does not occur
func (c *panicCheck) cannotBe(s *State, in ssa.Instruction, kind string) bool {
	if kind != "nil dereference" {
		return false
	}
	f := in.Parent()
	if fa, ok := in.(*ssa.FieldAddr); ok {
		if l, ok := fa.X.(*ssa.Lookup); ok && !l.CommaOk && c.listed(l) {
			return true
		}
	}
	// a map that is not empty was gone through, but nothing was found
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			m, ok := i.(*ssa.MakeMap)
			if ok && !s.flags[noted(m)] && holdsSome(m, in.Block()) && c.goneThrough(m, in.Block()) {
				return true
			}
		}
	}
	return false
}

// holdsSome: a block is only reached when the map was found not to be empty
func holdsSome(m *ssa.MakeMap, b *ssa.BasicBlock) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		call, ok := cond.X.(*ssa.Call)
		n, isConst := cond.Y.(*ssa.Const)
		if !ok || !isConst || n.Value == nil {
			continue
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" || call.Call.Args[0] != m {
			continue
		}
		k := n.Int64()
		for e, to := range d.Succs {
			if len(to.Preds) != 1 || !to.Dominates(b) {
				continue
			}
			switch {
			case e == 0 && cond.Op == token.EQL && k >= 1, e == 0 && cond.Op == token.NEQ && k == 0,
				e == 0 && cond.Op == token.GTR && k >= 0, e == 0 && cond.Op == token.GEQ && k >= 1,
				e == 1 && cond.Op == token.EQL && k == 0, e == 1 && cond.Op == token.NEQ && k >= 1,
				e == 1 && cond.Op == token.LEQ && k >= 0, e == 1 && cond.Op == token.LSS && k >= 1:
				return true
			}
		}
	}
	return false
}

// goneThrough: every entry of the map was met before the block is reached: by a range over it, or by looking up all
// that its keys are from
func (c *panicCheck) goneThrough(m *ssa.MakeMap, b *ssa.BasicBlock) bool {
	var list ssa.Value // what the keys are from
	for _, u := range *m.Referrers() {
		switch u := u.(type) {
		case *ssa.MapUpdate:
			l := elemSource(u.Key)
			if u.Map != m || l == nil || list != nil && l != list {
				list = m // no list
				continue
			}
			list = l
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if bi, ok := u.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	info := c.p.info(b.Parent())
	for h, body := range info.loopOf {
		if body[b] || !h.Dominates(b) {
			continue
		}
		out := false
		for k := range body {
			for _, to := range k.Succs {
				out = out || k != h && !body[to]
			}
		}
		if out {
			continue
		}
		for k := range body {
			for _, in := range k.Instrs {
				switch in := in.(type) {
				case *ssa.Next:
					if rg, ok := in.Iter.(*ssa.Range); ok && rg.X == m && k == h {
						return true
					}
				case *ssa.Lookup:
					if in.X != m || list == nil || elemSource(in.Index) != list || !onlyRead(list) {
						continue
					}
					always := goesOver(h, body, list, in.Index)
					for _, q := range h.Preds {
						always = always && (!body[q] || k.Dominates(q))
					}
					if always {
						return true
					}
				}
			}
		}
	}
	return false
}

// elemSource is the list that a value is an element of
func elemSource(v ssa.Value) ssa.Value {
	l, ok := v.(*ssa.UnOp)
	if !ok || l.Op != token.MUL {
		return nil
	}
	ia, ok := l.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	return ia.X
}

// onlyRead: the elements of the list are not changed here
func onlyRead(l ssa.Value) bool {
	for _, u := range *l.Referrers() {
		switch u := u.(type) {
		case *ssa.IndexAddr:
			for _, w := range *u.Referrers() {
				if _, ok := w.(*ssa.UnOp); !ok {
					return false
				}
			}
		case *ssa.Call:
			if bi, ok := u.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// goesOver: the loop is for all elements of the list, v is the one of the turn
func goesOver(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, list, v ssa.Value) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !body[h.Succs[0]] {
		return false
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS {
		return false
	}
	n, ok := cond.Y.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, ok := n.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || n.Call.Args[0] != list {
		return false
	}
	at := v.(*ssa.UnOp).X.(*ssa.IndexAddr).Index
	if at != cond.X {
		return false
	}
	one := func(v ssa.Value, of ssa.Value) bool {
		a, ok := v.(*ssa.BinOp)
		if !ok || a.Op != token.ADD || a.X != of {
			return false
		}
		k, ok := a.Y.(*ssa.Const)
		return ok && k.Value != nil && k.Int64() == 1
	}
	phi, isPhi := at.(*ssa.Phi)
	first := int64(0)
	if !isPhi {
		a, ok := at.(*ssa.BinOp)
		if !ok {
			return false
		}
		if phi, isPhi = a.X.(*ssa.Phi); !isPhi || !one(at, phi) {
			return false
		}
		first = -1
	}
	if phi.Block() != h {
		return false
	}
	for i, e := range phi.Edges {
		if body[h.Preds[i]] {
			if first == 0 && !one(e, phi) || first == -1 && e != at {
				return false
			}
			continue
		}
		k, ok := e.(*ssa.Const)
		if !ok || k.Value == nil || k.Int64() != first {
			return false
		}
	}
	return true
}

// listed: a table of the grammar is asked for a name from a list of the names in it
func (c *panicCheck) listed(l *ssa.Lookup) bool {
	f := c.tableOf(l.X)
	list := elemSource(l.Index)
	if f < 0 || list == nil || !c.namesIn(list, f, map[ssa.Value]bool{}, nil) {
		return false
	}
	for _, b := range l.Parent().Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == f && isPtrTo(fa.X.Type(), c.p.tGrammar) {
					return false
				}
			}
		}
	}
	return true
}

// tableOf is the field of a grammar that the map is read from
func (c *panicCheck) tableOf(v ssa.Value) int {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return -1
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || !isPtrTo(fa.X.Type(), c.p.tGrammar) {
		return -1
	}
	return fa.Field
}

// namesIn: the list only holds keys of a table
func (c *panicCheck) namesIn(v ssa.Value, table int, seen map[ssa.Value]bool, args map[ssa.Value]ssa.Value) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !c.namesIn(e, table, seen, args) {
				return false
			}
		}
		return true
	case *ssa.UnOp: // a variable that a function literal uses too
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Op != token.MUL {
			return false
		}
		for _, u := range *a.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr != a || !c.namesIn(u.Val, table, seen, args) {
					return false
				}
			case *ssa.MakeClosure:
				for i, b := range u.Bindings {
					if b != a {
						continue
					}
					for _, w := range *u.Fn.(*ssa.Function).FreeVars[i].Referrers() {
						if _, ok := w.(*ssa.UnOp); !ok {
							return false
						}
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	case *ssa.MakeSlice:
		k, ok := v.Len.(*ssa.Const)
		return ok && k.Value != nil && k.Int64() == 0
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, u := range *a.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				if u != v {
					return false
				}
				continue
			}
			for _, w := range *ia.Referrers() {
				st, ok := w.(*ssa.Store)
				if !ok {
					return false
				}
				x, ok := st.Val.(*ssa.Extract)
				if !ok || x.Index != 1 {
					return false
				}
				n, ok := x.Tuple.(*ssa.Next)
				if !ok {
					return false
				}
				rg, ok := n.Iter.(*ssa.Range)
				if !ok {
					return false
				}
				m := rg.X
				if a := args[m]; a != nil {
					m = a
				}
				if c.tableOf(m) != table {
					return false
				}
			}
		}
		return true
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok {
			return bi.Name() == "append" && c.namesIn(v.Call.Args[0], table, seen, args) && c.namesIn(v.Call.Args[1], table, seen, args)
		}
		g := v.Call.StaticCallee()
		if g == nil || g.Blocks == nil || g.Signature.Results().Len() != 1 {
			return false
		}
		inner := map[ssa.Value]ssa.Value{}
		for i, prm := range g.Params {
			a := v.Call.Args[i]
			if o := args[a]; o != nil {
				a = o
			}
			inner[prm] = a
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok && !c.namesIn(ret.Results[0], table, seen, inner) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// part of another check that only says whether it could be followed
func (c *panicCheck) sub(name string, f func(r *Report)) {
	sub := newReport(name)
	sub.deadline = c.r.deadline
	guarded(c.r, name, func() { f(sub) })
	for _, v := range sub.violations {
		switch v.Rule {
		case "undecided", "internal", "unmodelled", "anchor", "stream", "returns", "result":
			c.r.fail(v.Rule, v.Construct, v.Where, v.Detail)
		}
	}
	for f := range sub.analysed {
		c.r.analysed[f] = true
	}
	c.r.states += sub.states
	c.r.joins += sub.joins
}

func c26(p *Program, r *Report) {
	c := &panicCheck{p: p, r: r, record: p.named("RuleRecord"), seen: map[ssa.Instruction]bool{}, maybe: map[string]string{}, never: map[string]bool{}, filled: map[string]bool{}, empty: map[string]string{}, stored: map[ssa.Instruction]bool{}}
	c.recRule = -1
	st := c.record.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if p.isRuleT(st.Field(i).Type()) {
			c.recRule = i
		}
	}
	if c.recRule < 0 {
		unresolved("a record holds no rule")
	}
	defer c.hooks()()
	// where rules are made
	c.open = true
	c.sub("reading", func(sub *Report) {
		d := p.defReaders(sub)
		d.onMade = func(x *Exec, s *State, rd *reader, v Val) {
			if q, ok := v.(VPtr); ok {
				c.made(x, s, rd.name, q)
			}
		}
		for _, rd := range d.all {
			rd := rd
			guarded(sub, rd.name, func() { d.failures(rd) })
		}
		tops := d.tops()
		for _, f := range tops {
			f := f
			guarded(sub, p.fname(f), func() { d.whole(f, tops) })
		}
	})
	c.open = false
	// where they are evaluated
	c.sub("evaluation", func(sub *Report) {
		runEvals(p, sub, noNodes, func(x *Exec, fn *ssa.Function, o Out) {})
	})
	c.sub("streams", func(sub *Report) { c09(p, sub) })
	c.sub("positions", func(sub *Report) { c32(p, sub) })
	c.sub("whole texts", func(sub *Report) { c03(p, sub) })
	c.sub("nodes", func(sub *Report) { c15(p, sub); c16(p, sub); c29(p, sub) })
	c.sub("rest", func(sub *Report) { c.rest(sub) })
	c.facts()
}

// rest follows the functions that were not met so far: those of rules and nodes that are called through interfaces or
// by users
func (c *panicCheck) rest(sub *Report) {
	p := c.p
	visited := c.visited()
	for _, f := range p.funcs {
		f := f
		if f.Pkg != p.lib || f.Synthetic != "" || f.Parent() != nil || visited[f] || strings.HasPrefix(f.Name(), "init") {
			continue
		}
		rv := f.Signature.Recv()
		isMethod := rv != nil && p.isRuleVal(rv.Type()) // may be called through an interface
		if f == p.method(types.NewPointer(p.tGrammar), "Serialize") {
			continue // see the statement
		}
		if isMethod && p.tRuleMethod(f.Name()) || f.Object() != nil && f.Object().Exported() {
			guarded(sub, p.fname(f), func() { c.follow(sub, f, visited) })
		}
	}
}

func (p *Program) tRuleMethod(name string) bool {
	for i := 0; i < p.tRule.NumMethods(); i++ {
		if p.tRule.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func (c *panicCheck) follow(sub *Report, f *ssa.Function, visited map[*ssa.Function]bool) {
	x := newExec(c.p)
	x.debug = debugAll
	x.defs = true
	x.deadline = sub.entryDeadline()
	x.h.call = func(x *Exec, s *State, in ssa.CallInstruction, g *ssa.Function, args []Val) ([]Out, bool) {
		if g != f && (!visited[g] || g.Pkg != c.p.lib || g.Signature.Results().Len() == 1 && c.p.isRuleVal(g.Signature.Results().At(0).Type())) {
			return nil, false
		}
		// followed elsewhere, or the function itself
		res := g.Signature.Results()
		switch n := res.Len(); {
		case n == 0:
			return []Out{{s, nil}}, true
		case n == 1:
			v := x.sym(s, res.At(0).Type(), "")
			if o, ok := v.(VOpq); ok && isPtrTo(o.typ, c.p.tResult) {
				s.nilf[o.id] = false
			}
			return []Out{{s, v}}, true
		case n == 2 && isErrorType(res.At(1).Type()):
			u := s.clone()
			e := x.nonNil(u, errorType, "error")
			return []Out{{s, VTuple{[]Val{x.nonNil(s, res.At(0).Type(), "made"), VNil{}}}}, {u, VTuple{[]Val{x.symOrNil(u, res.At(0).Type()), e}}}}, true
		}
		return nil, false
	}
	s, args := x.evalEntry(f, nil)
	x.deletes = true
	x.run(f, []entry{{s, args, nil}})
	sub.absorb(x, c.p.fname(f))
}

func (c *panicCheck) visited() map[*ssa.Function]bool {
	visited := map[*ssa.Function]bool{}
	for _, x := range c.execs {
		for f := range x.visited {
			visited[f] = true
		}
	}
	return visited
}

func init() {
	register(&check{id: "C26", level: "proof", run: c26,
		trust: append(engineTrust[:len(engineTrust):len(engineTrust)], "trees of nodes hold no nil as a node, and streams, grammars and rules that are handed in are not nil", "memory and stack suffice"),
		rule:  "every instruction of a followed function that can end in a run-time error (use of nil, index or cut out of bounds, failed type assertion, division by zero, negative length, entry in a nil map, explicit panic) is met only in states in which it does not; parts of rules are not nil, and lists of them not empty, where every rule is made; records hold a rule where they are entered; every grammar is made with all its tables"})
}

// facts that are seen without following paths
func (c *panicCheck) facts() {
	p, r := c.p, c.r
	visited := c.visited()
	grammars, parts := 0, 0
	for _, f := range p.funcs {
		if f.Pkg != p.lib {
			continue
		}
		name := p.fname(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					t := in.Type().Underlying().(*types.Pointer).Elem()
					switch {
					case types.Identical(t, p.tGrammar):
						if c.copyOf(in) {
							continue
						}
						grammars++
						c.tables(in, name)
					case c.isRuleStruct(t):
						for i := 0; i < nfields(t); i++ {
							if c.isRulePart(fieldType(t, i)) && !c.copyOf(in) {
								parts++
								r.ob(visited[f], "rules", name, p.where(in), func() string { return "rules with parts are made in a function that is not followed" })
							}
						}
					}
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					t := fa.X.Type().Underlying().(*types.Pointer).Elem()
					ft := fieldType(t, fa.Field)
					_, isMap := ft.Underlying().(*types.Map)
					switch {
					case types.Identical(t, p.tGrammar) && isMap:
						r.ob(madeMap(in.Val, 0), "tables", name, p.where(in), func() string { return "a table of a grammar may become nil" })
					case c.isRuleStruct(t) && c.isRulePart(ft), types.Identical(t, c.record) && fa.Field == c.recRule:
						r.ob(c.stored[in] || !visited[f] && c.dead(f), "followed", name, p.where(in), func() string { return "a part of a rule or record is set where it is not followed" })
					}
				case *ssa.MapUpdate:
					if isPtrTo(in.Value.Type(), c.record) {
						r.ob(c.stored[in] || c.fromTable(in.Value, 0), "followed", name, p.where(in), func() string { return "an entry of a table may be nil" })
					}
				}
			}
		}
	}
	var left []string
	for _, f := range p.funcs {
		if f.Pkg != p.lib || f.Synthetic != "" {
			continue
		}
		if !visited[f] {
			left = append(left, p.fname(f))
			continue
		}
		r.analysed[p.fname(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k := mayPanic(in); k != "" {
					r.obligations[k]++
					if !c.seen[in] {
						r.discharged[k]++
					}
				}
			}
		}
	}
	sort.Strings(left)
	r.extra["functions_not_followed"] = left
	for k := range c.never {
		if c.maybe[k] == "" {
			r.sample("never nil: %s", k)
		}
	}
	for k := range c.filled {
		if c.empty[k] == "" {
			r.sample("never empty: %s", k)
		}
	}
	for k, w := range c.maybe {
		r.sample("may be nil: %s, %s", k, w)
	}
	r.ob(grammars > 0 && parts > 0, "anchor", "grammars", "", func() string { return "no grammar or no rule is made" })
}

// copyOf: a variable that holds a copy of something there already
func (c *panicCheck) copyOf(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == a {
			return true
		}
	}
	return false
}

func (c *panicCheck) dead(f *ssa.Function) bool { return false }

// tables: all tables of a grammar are there when the function that makes it returns
func (c *panicCheck) tables(a *ssa.Alloc, name string) {
	p, r := c.p, c.r
	t := a.Type().Underlying().(*types.Pointer).Elem()
	for i := 0; i < nfields(t); i++ {
		if _, isMap := fieldType(t, i).Underlying().(*types.Map); !isMap {
			continue
		}
		set := false
		for _, u := range *a.Referrers() {
			fa, ok := u.(*ssa.FieldAddr)
			if !ok || fa.Field != i {
				continue
			}
			for _, v := range *fa.Referrers() {
				st, ok := v.(*ssa.Store)
				if !ok || st.Addr != fa || !madeMap(st.Val, 0) {
					continue
				}
				all := true
				for _, b := range a.Parent().Blocks {
					if n := len(b.Instrs); n > 0 {
						if _, isRet := b.Instrs[n-1].(*ssa.Return); isRet && !st.Block().Dominates(b) {
							all = false
						}
					}
				}
				set = set || all
			}
		}
		fn := t.Underlying().(*types.Struct).Field(i).Name()
		r.ob(set, "tables", name, p.where(a), func() string { return "a grammar may be made without its table " + fn })
	}
}

// madeMap: the map is not nil
func madeMap(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.ChangeType:
		return madeMap(v.X, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !madeMap(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || g.Blocks == nil || g.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok && !madeMap(ret.Results[0], depth+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// fromTable: a record that was read from a table by going over it
func (c *panicCheck) fromTable(v ssa.Value, depth int) bool {
	switch v := v.(type) {
	case *ssa.Extract:
		n, ok := v.Tuple.(*ssa.Next)
		return ok && v.Index == 2 && !n.IsString
	case *ssa.Phi:
		if depth > 8 {
			return false
		}
		for _, e := range v.Edges {
			if !c.fromTable(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// mayFail tells whether an instruction can end in a run-time error at all, and in which
func mayPanic(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.Panic:
		return "panic"
	case *ssa.FieldAddr, *ssa.Store:
		return "nil"
	case *ssa.UnOp:
		if in.Op == token.MUL {
			return "nil"
		}
	case *ssa.IndexAddr, *ssa.Index:
		return "index"
	case *ssa.Slice:
		return "slice"
	case *ssa.MapUpdate:
		return "nil map"
	case *ssa.Lookup:
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			return "index"
		}
	case *ssa.TypeAssert:
		if !in.CommaOk {
			return "type assertion"
		}
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			return "division"
		}
	case ssa.CallInstruction:
		if in.Common().IsInvoke() {
			return "nil"
		}
	}
	return ""
}
