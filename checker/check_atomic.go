package main

// C22: a rule definition is taken over as a whole or not at all.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type atomCheck struct {
	p       *Program
	t       *Roots
	verdict map[string]string // function and root: "" is atomic, else why not
	busy    map[string]bool
	paths   int
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func lastError(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type())
}

// nilness of a value from its form: 1 nil, 2 not nil, 0 unknown
func formNil(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() {
			return 1
		}
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.IndexAddr:
		return 2
	case *ssa.ChangeInterface:
		return formNil(v.X)
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "errors.New", "fmt.Errorf":
				return 2
			}
			if f.Blocks != nil && f.Signature.Results().Len() == 1 && f.Signature.Recv() == nil && len(f.Blocks) > 0 {
				if neverNil(f, 0) {
					return 2
				}
			}
		}
	}
	return 0
}

// neverNil: every return of a one-result function is something
func neverNil(f *ssa.Function, d int) bool {
	if d > 4 || f.Blocks == nil {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			if len(r.Results) != 1 || !valueNeverNil(r.Results[0], d+1, map[ssa.Value]bool{}) {
				return false
			}
		}
	}
	return n > 0
}

func valueNeverNil(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !valueNeverNil(e, d, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.Signature.Results().Len() == 1 {
			switch f.String() {
			case "errors.New", "fmt.Errorf":
				return true
			}
			return neverNil(f, d+1)
		}
		return false
	}
	return formNil(v) == 2
}

type pathState struct {
	mode  int // 0 nothing changed, 1 changed, 2 changed if the pending call succeeded
	pend  ssa.Value
	facts map[ssa.Value]int
	alias map[ssa.Value]ssa.Value
}

func (s pathState) key(b *ssa.BasicBlock) string {
	var l []string
	for v, n := range s.facts {
		l = append(l, fmt.Sprintf("%s=%d", v.Name(), n))
	}
	for v, n := range s.alias {
		l = append(l, fmt.Sprintf("%s~%s", v.Name(), n.Name()))
	}
	sort.Strings(l)
	pn := ""
	if s.pend != nil {
		pn = s.pend.Name()
	}
	return fmt.Sprintf("%d %d %s %s", b.Index, s.mode, pn, strings.Join(l, ","))
}

func (s pathState) canon(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		if c, ok := v.(*ssa.ChangeInterface); ok {
			v = c.X
			continue
		}
		a, ok := s.alias[v]
		if !ok {
			break
		}
		v = a
	}
	return v
}

func (s pathState) nilness(v ssa.Value) int {
	v = s.canon(v)
	if n, ok := s.facts[v]; ok {
		return n
	}
	return formNil(v)
}

func (s pathState) clone() pathState {
	n := pathState{mode: s.mode, pend: s.pend, facts: map[ssa.Value]int{}, alias: map[ssa.Value]ssa.Value{}}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.alias {
		n.alias[k] = v
	}
	return n
}

// errorOf: the error result of a call
func errorOf(c *ssa.Call) ssa.Value {
	sig := c.Call.Signature()
	n := sig.Results().Len()
	if n == 1 {
		return c
	}
	for _, u := range *c.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == n-1 {
			return e
		}
	}
	return c
}

// atomic decides that f changes what parameter root reaches only on paths that end without error
func (a *atomCheck) atomic(f *ssa.Function, root int, bad func(at ssa.Instruction, write ssa.Instruction)) bool {
	k := fmt.Sprintf("%p %d", f, root)
	if v, ok := a.verdict[k]; ok && bad == nil {
		return v == ""
	}
	if a.busy[k] || !lastError(f) || f.Blocks == nil {
		return false
	}
	a.busy[k] = true
	defer delete(a.busy, k)
	ok := true
	mods := a.t.fn[f].mods
	seen := map[string]bool{}
	var lastWrite ssa.Instruction
	type item struct {
		b *ssa.BasicBlock
		s pathState
	}
	work := []item{{f.Blocks[0], pathState{facts: map[ssa.Value]int{}, alias: map[ssa.Value]ssa.Value{}}}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		key := it.s.key(it.b)
		if seen[key] {
			continue
		}
		seen[key] = true
		if len(seen) > 20000 {
			if bad != nil {
				panic(undecided{"too many paths through " + a.p.fname(f)})
			}
			ok = false
			break
		}
		s := it.s.clone()
		dead := false
		for _, in := range it.b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				continue // done on the edge
			case *ssa.Return:
				a.paths++
				e := x.Results[len(x.Results)-1]
				good := true
				switch s.mode {
				case 1:
					good = s.nilness(e) == 1
				case 2:
					good = s.nilness(e) == 1 || s.canon(e) == s.canon(s.pend)
				}
				if !good {
					ok = false
					if bad != nil {
						bad(x, lastWrite)
					}
				}
				dead = true
			case *ssa.Panic:
				dead = true
			default:
				if !mods[in][root] {
					// a redefinition forgets what was known in an earlier iteration
					if v, okv := in.(ssa.Value); okv {
						delete(s.facts, v)
						delete(s.alias, v)
					}
					break
				}
				lastWrite = in
				c, isCall := in.(*ssa.Call)
				atom := false
				if isCall {
					atom = true
					roots := a.t.fn[f]
					args := c.Call.Args
					if c.Call.IsInvoke() {
						args = append([]ssa.Value{c.Call.Value}, args...)
					}
					callees := a.p.callees(c)
					if len(callees) == 0 {
						atom = false
					}
					for _, g := range callees {
						gs := a.t.fn[g]
						if gs == nil {
							atom = false
							break
						}
						for i := range gs.sum.mods {
							if i < len(args) && roots.deep(roots.of(args[i]))[root] && !a.atomic(g, i, nil) {
								atom = false
							}
							if i >= rootFree {
								atom = false
							}
						}
					}
				}
				if v, okv := in.(ssa.Value); okv {
					delete(s.facts, v)
					delete(s.alias, v)
				}
				switch {
				case atom && s.mode == 0:
					s.mode = 2
					s.pend = errorOf(c)
				default:
					s.mode = 1
				}
			}
			if dead {
				break
			}
		}
		if dead {
			continue
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for i, succ := range it.b.Succs {
			n := s.clone()
			if iff, isIf := last.(*ssa.If); isIf {
				if !n.assume(iff.Cond, i == 0) {
					continue
				}
			}
			// phis
			pi := -1
			for j, q := range succ.Preds {
				if q == it.b {
					pi = j
				}
			}
			type asg struct{ v, e ssa.Value }
			var as []asg
			for _, in := range succ.Instrs {
				ph, okp := in.(*ssa.Phi)
				if !okp {
					break
				}
				if !isNilable(ph.Type()) {
					continue
				}
				as = append(as, asg{ph, n.canon(ph.Edges[pi])})
			}
			for _, x := range as {
				delete(n.facts, x.v)
				delete(n.alias, x.v)
			}
			for _, x := range as {
				if x.e != x.v {
					n.alias[x.v] = x.e
				}
			}
			work = append(work, item{succ, n})
		}
	}
	if ok {
		a.verdict[k] = ""
	} else {
		a.verdict[k] = "no"
	}
	return ok
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// assume takes a branch; false if it cannot be taken
func (s *pathState) assume(c ssa.Value, val bool) bool {
	switch c := c.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return s.assume(c.X, !val)
		}
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return true
		}
		x, y := c.X, c.Y
		if k, ok := x.(*ssa.Const); ok && k.IsNil() {
			x, y = y, x
		}
		k, ok := y.(*ssa.Const)
		if !ok || !k.IsNil() || !isNilable(x.Type()) {
			return true
		}
		want := 1
		if (c.Op == token.EQL) != val {
			want = 2
		}
		x = s.canon(x)
		if n := s.nilness(x); n != 0 {
			return n == want
		}
		s.facts[x] = want
		if s.mode == 2 && s.canon(s.pend) == x {
			if want == 1 {
				s.mode = 1
			} else {
				s.mode = 0
			}
			s.pend = nil
		}
	}
	return true
}

// ruleTable finds the field of the grammar that rules are looked up in by name
func (p *Program) ruleTable() int {
	f := p.method(types.NewPointer(p.tGrammar), "GetRecord")
	if f == nil {
		f = p.method(types.NewPointer(p.tGrammar), "GetRule")
	}
	if f == nil || f.Blocks == nil {
		unresolved("Grammar.GetRecord is gone")
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if l, ok := in.(*ssa.Lookup); ok {
				if k := p.grammarField(l.X); k >= 0 {
					return k
				}
			}
		}
	}
	unresolved("Grammar.GetRecord looks rules up in no field of the grammar")
	return 0
}

// grammarField: a value loaded from field k of a grammar
func (p *Program) grammarField(v ssa.Value) int {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return -1
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || !isPtrTo(fa.X.Type(), p.tGrammar) {
		return -1
	}
	return fa.Field
}

// isMember: v is true (or false: neg) exactly if key is in table k
func (p *Program) isMember(v ssa.Value, k, d int) (key ssa.Value, neg, ok bool) {
	if d > 6 {
		return
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			key, neg, ok = p.isMember(v.X, k, d+1)
			return key, !neg, ok
		}
	case *ssa.Extract:
		if l, isL := v.Tuple.(*ssa.Lookup); isL && v.Index == 1 && p.grammarField(l.X) == k {
			return l.Index, false, true
		}
	case *ssa.BinOp:
		x, y := v.X, v.Y
		if c, isC := x.(*ssa.Const); isC && c.IsNil() {
			x, y = y, x
		}
		if c, isC := y.(*ssa.Const); isC && c.IsNil() && (v.Op == token.NEQ || v.Op == token.EQL) {
			if key := p.lookedUp(x, k, d+1); key != nil {
				return key, v.Op == token.EQL, true
			}
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || f.Blocks == nil || !p.inRepo(f) {
			return
		}
		var arg ssa.Value
		for _, b := range f.Blocks {
			r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isR {
				continue
			}
			if len(r.Results) != 1 {
				return
			}
			ky, ng, okk := p.isMember(r.Results[0], k, d+1)
			prm, isP := ky.(*ssa.Parameter)
			if !okk || !isP || arg != nil && (v.Call.Args[paramIndex(f, prm)] != arg || ng != neg) {
				return nil, false, false
			}
			arg, neg, ok = v.Call.Args[paramIndex(f, prm)], ng, true
		}
		return arg, neg, ok
	}
	return
}

func paramIndex(f *ssa.Function, prm *ssa.Parameter) int {
	for i, q := range f.Params {
		if q == prm {
			return i
		}
	}
	return 0
}

// lookedUp: v is what table k holds for the key, or nil
func (p *Program) lookedUp(v ssa.Value, k, d int) ssa.Value {
	if d > 6 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Lookup:
		if p.grammarField(v.X) == k && !v.CommaOk {
			return v.Index
		}
	case *ssa.Extract:
		if l, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 0 && p.grammarField(l.X) == k {
			return l.Index
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || f.Blocks == nil || !p.inRepo(f) {
			return nil
		}
		var arg ssa.Value
		for _, b := range f.Blocks {
			r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isR {
				continue
			}
			if len(r.Results) != 1 {
				return nil
			}
			prm, ok := p.lookedUp(r.Results[0], k, d+1).(*ssa.Parameter)
			if !ok {
				return nil
			}
			a := v.Call.Args[paramIndex(f, prm)]
			if arg != nil && arg != a {
				return nil
			}
			arg = a
		}
		return arg
	}
	return nil
}

// knownAbsent: at this point the key is known not to be in table k
func (p *Program) knownAbsent(at ssa.Instruction, key ssa.Value, k, d int) bool {
	if d > 5 {
		return false
	}
	f := at.Parent()
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		ky, neg, ok := p.isMember(iff.Cond, k, 0)
		if !ok || !(ky == key || pureSame(ky, key, 0)) {
			continue
		}
		s := b.Succs[1]
		if neg {
			s = b.Succs[0]
		}
		if len(s.Preds) == 1 && s.Dominates(at.Block()) {
			return true
		}
	}
	prm, ok := key.(*ssa.Parameter)
	if !ok {
		return false
	}
	n := 0
	for _, g := range p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != f {
					continue
				}
				n++
				if !p.knownAbsent(in, c.Common().Args[paramIndex(f, prm)], k, d+1) {
					return false
				}
			}
		}
	}
	return n > 0
}

func c22(p *Program, r *Report) {
	t := p.roots()
	a := &atomCheck{p: p, t: t, verdict: map[string]string{}, busy: map[string]bool{}}
	definers := 0
	evals := map[*ssa.Function]bool{}
	for _, f := range p.evalRoots() {
		evals[f] = true
	}
	for _, f := range p.funcs {
		if f.Pkg != p.lib || evals[f] || !lastError(f) || f.Object() == nil || f.Synthetic != "" {
			continue
		}
		exported := f.Object().Exported()
		if exported && f.Signature.Recv() != nil && isPtrTo(f.Signature.Recv().Type(), p.tGrammar) {
			r.analysed[p.fname(f)] = true
			if !t.fn[f].sum.mods[0] {
				r.ob(true, "atomic", p.fname(f), p.pos(f.Pos()), nil)
				continue
			}
			definers++
			good := a.atomic(f, 0, func(at, write ssa.Instruction) {
				r.fail("atomic", p.fname(f), p.where(at), fmt.Sprintf("an error may be returned after the grammar was changed at %s", p.where(write)))
			})
			r.obligations["atomic"]++
			if good {
				r.discharged["atomic"]++
				r.sample("%s: the grammar is only changed on paths that return no error (%d changing instructions)", p.fname(f), len(t.writes(f, 0)))
			}
		}
		if f.Signature.Results().Len() == 2 && isPtrTo(f.Signature.Results().At(0).Type(), p.tGrammar) && exported {
			c22construct(p, r, f, map[*ssa.Function]bool{})
		}
	}
	r.ob(definers >= 1, "definers", "Grammar", "", func() string { return "no exported method of Grammar defines rules" })
	// a defined name is never replaced or removed
	k := p.ruleTable()
	n := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if p.grammarField(x.Map) != k {
						continue
					}
					n++
					r.ob(p.knownAbsent(x, x.Key, k, 0), "redefinition", p.fname(f), p.where(x), func() string {
						return "the rule table is changed without knowing that the name is not defined yet"
					})
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !isPtrTo(fa.X.Type(), p.tGrammar) || fa.Field != k {
						continue
					}
					_, fresh := fa.X.(*ssa.Alloc)
					r.ob(fresh, "redefinition", p.fname(f), p.where(x), func() string { return "the rule table is replaced" })
				case *ssa.Call:
					if bl, ok := x.Call.Value.(*ssa.Builtin); ok && (bl.Name() == "delete" || bl.Name() == "clear") && p.grammarField(x.Call.Args[0]) == k {
						r.ob(false, "redefinition", p.fname(f), p.where(x), func() string { return "rules are removed from the rule table" })
					}
				}
			}
		}
	}
	r.ob(n >= 1, "definers", "Grammar", "", func() string { return "nothing is ever put in the rule table" })
	r.extra["paths"] = a.paths
	c22recorded(p, r, k)
}

// c22construct: a grammar or an error
func c22construct(p *Program, r *Report, f *ssa.Function, seen map[*ssa.Function]bool) {
	r.analysed[p.fname(f)] = true
	st := func() pathState { return pathState{facts: map[ssa.Value]int{}, alias: map[ssa.Value]ssa.Value{}} }
	visited := map[string]bool{}
	var walk func(b *ssa.BasicBlock, from *ssa.BasicBlock, s pathState)
	walk = func(b *ssa.BasicBlock, from *ssa.BasicBlock, s pathState) {
		s = s.clone()
		if from != nil {
			pi := 0
			for j, q := range b.Preds {
				if q == from {
					pi = j
				}
			}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if e := s.canon(ph.Edges[pi]); e != ssa.Value(ph) && isNilable(ph.Type()) {
					delete(s.facts, ph)
					s.alias[ph] = e
				}
			}
		}
		key := s.key(b)
		if visited[key] {
			return
		}
		visited[key] = true
		if len(visited) > 50000 {
			panic(undecided{"too many paths through " + p.fname(f)})
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, isPhi := in.(*ssa.Phi); !isPhi {
					delete(s.facts, v)
					delete(s.alias, v)
				}
			}
			ret, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			g, e := s.canon(ret.Results[0]), s.canon(ret.Results[1])
			good := s.nilness(g) == 1 || s.nilness(e) == 1
			if !good {
				x, ok1 := g.(*ssa.Extract)
				y, ok2 := e.(*ssa.Extract)
				if ok1 && ok2 && x.Tuple == y.Tuple {
					if c, ok := x.Tuple.(*ssa.Call); ok {
						if h := c.Call.StaticCallee(); h != nil && p.inRepo(h) {
							good = true
							if !seen[h] {
								seen[h] = true
								c22construct(p, r, h, seen)
							}
						}
					}
				}
			}
			r.ob(good, "construct", p.fname(f), p.where(ret), func() string { return "a grammar may be returned together with an error" })
			return
		}
		last := b.Instrs[len(b.Instrs)-1]
		for i, succ := range b.Succs {
			n := s.clone()
			if iff, ok := last.(*ssa.If); ok && !n.assume(iff.Cond, i == 0) {
				continue
			}
			walk(succ, b, n)
		}
	}
	walk(f.Blocks[0], nil, st())
}

// c22recorded: what defines rules puts exactly one entry in the table whenever it reports success
func c22recorded(p *Program, r *Report, k int) {
	var changes func(f *ssa.Function, d int) bool
	isUpdate := func(in ssa.Instruction, d int) bool {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return p.grammarField(x.Map) == k
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && p.inRepo(g) && g.Blocks != nil && d < 4 {
				return changes(g, d+1)
			}
		}
		return false
	}
	changes = func(f *ssa.Function, d int) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isUpdate(in, d) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range p.funcs {
		if f.Pkg != p.lib || !lastError(f) || f.Signature.Results().Len() != 2 || !types.Identical(f.Signature.Results().At(0).Type(), p.nRule) || f.Signature.Recv() == nil || !f.Object().Exported() {
			continue
		}
		if !isPtrTo(f.Signature.Recv().Type(), p.tGrammar) {
			continue
		}
		// updates on every path to a return that may report success
		type st struct {
			b *ssa.BasicBlock
			n int
		}
		seen := map[st]bool{}
		var walk func(b *ssa.BasicBlock, n int)
		walk = func(b *ssa.BasicBlock, n int) {
			if n > 2 {
				n = 2
			}
			if seen[st{b, n}] {
				return
			}
			seen[st{b, n}] = true
			for _, in := range b.Instrs {
				if isUpdate(in, 0) {
					n++
				}
				if ret, ok := in.(*ssa.Return); ok {
					e := ret.Results[1]
					if formNil(e) == 2 {
						return
					}
					if n == 1 {
						r.ob(true, "recorded", p.fname(f), p.where(ret), nil)
						return
					}
					// an error that was tested on the way here
					if knownNotNil(e, b) {
						return
					}
					r.ob(false, "recorded", p.fname(f), p.where(ret), func() string {
						return fmt.Sprintf("success may be reported although the rule table was changed %d times", n)
					})
				}
			}
			for _, s := range b.Succs {
				walk(s, n)
			}
		}
		walk(f.Blocks[0], 0)
	}
}

// knownNotNil: every way to b tested that v is not nil
func knownNotNil(v ssa.Value, b *ssa.BasicBlock) bool {
	for _, c := range b.Parent().Blocks {
		iff, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := bo.X, bo.Y
		if k, ok := x.(*ssa.Const); ok && k.IsNil() {
			x, y = y, x
		}
		if k, ok := y.(*ssa.Const); !ok || !k.IsNil() || x != v {
			continue
		}
		var s *ssa.BasicBlock
		switch bo.Op {
		case token.NEQ:
			s = c.Succs[0]
		case token.EQL:
			s = c.Succs[1]
		default:
			continue
		}
		if len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
	}
	return false
}

func init() {
	register(&check{id: "C22", level: "proof", run: c22,
		rule:  "exported methods of Grammar that return an error: on no path is an error returned after an instruction that may change what the receiver reaches (change summaries per function, nil tests followed along paths); the rule table is only changed under a name known to be absent; success is only reported with one new entry; constructors return a grammar or an error",
		trust: []string{"go/packages, go/types and go/ssa give the meaning of the source", "panics are not considered (see the property on panics)"}})
}
