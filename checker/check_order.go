package main

// C12: nothing depends on the order in which Go iterates over a map, or on any other source of chance.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mapLoop struct {
	p      *Program
	fn     *ssa.Function
	rng    *ssa.Range
	next   *ssa.Next
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool // with the header
	why    []string
	acc    map[*ssa.Alloc]bool // variables outside of the loop that the loop updates
	maxIf  map[*ssa.If]bool    // comparisons that only choose the larger
}

func (l *mapLoop) bad(in ssa.Instruction, format string, a ...interface{}) {
	l.why = append(l.why, l.p.where(in)+": "+fmt.Sprintf(format, a...))
}

func (l *mapLoop) isNextPart(v ssa.Value, idx int) bool {
	e, ok := v.(*ssa.Extract)
	return ok && e.Tuple == ssa.Value(l.next) && (idx < 0 || e.Index == idx)
}

// uniqueKey: different entries of the map give different values
func (l *mapLoop) uniqueKey(v ssa.Value) bool {
	if l.isNextPart(v, 1) {
		return true
	}
	switch v := v.(type) {
	case *ssa.ChangeType:
		return l.uniqueKey(v.X)
	case *ssa.MakeInterface:
		return l.uniqueKey(v.X)
	case *ssa.UnOp:
		// the line of a rule record: no two rules of a grammar share one (property C21)
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL && l.isNextPart(fa.X, 2) {
			t := fa.X.Type().Underlying().(*types.Pointer).Elem()
			if n, ok := t.(*types.Named); ok && n.Obj().Name() == "RuleRecord" {
				f := n.Underlying().(*types.Struct).Field(fa.Field).Name()
				return f == "line" || f == "name"
			}
		}
	}
	return false
}

// inLoop: the value is computed inside the loop
func (l *mapLoop) inLoop(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && l.body[in.Block()]
}

// fresh: the address is inside something allocated in this iteration
func (l *mapLoop) fresh(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		return l.body[v.Block()] && v.Block() != l.header
	case *ssa.FieldAddr:
		return l.fresh(v.X, d+1)
	case *ssa.IndexAddr:
		return l.fresh(v.X, d+1)
	case *ssa.Slice:
		return l.fresh(v.X, d+1)
	case *ssa.MakeSlice, *ssa.MakeMap:
		return l.inLoop(v)
	}
	return false
}

// perEntry: the address is inside what the map holds for this entry
func (l *mapLoop) perEntry(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	if l.isNextPart(v, 2) {
		return true
	}
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return l.perEntry(fa.X, d+1)
	}
	return false
}

// keyedEffects: every effect of the function is on map entries named by one of the parameters in keyed; returns the
// parameters that must name the entry
func (p *Program) keyedEffects(f *ssa.Function, depth int) (params map[int]bool, ok bool) {
	params = map[int]bool{}
	if depth > 4 || f.Blocks == nil {
		return nil, false
	}
	pi := func(v ssa.Value) int {
		for i, q := range f.Params {
			if ssa.Value(q) == v {
				return i
			}
		}
		return -1
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !localAddr(in.Addr, 0) {
					return nil, false
				}
			case *ssa.MapUpdate:
				if i := pi(in.Key); i >= 0 {
					params[i] = true
				} else if _, ok := in.Map.(*ssa.MakeMap); !ok {
					return nil, false
				}
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer:
				return nil, false
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "append", "min", "max":
						continue
					case "delete":
						if i := pi(in.Call.Args[1]); i >= 0 {
							params[i] = true
							continue
						}
					}
					return nil, false
				}
				c := in.Call.StaticCallee()
				if c == nil {
					return nil, false
				}
				if p.pure(c) {
					continue
				}
				sub, ok := p.keyedEffects(c, depth+1)
				if !ok || !p.inRepo(c) {
					return nil, false
				}
				for k := range sub {
					i := pi(in.Call.Args[k])
					if i < 0 {
						return nil, false
					}
					params[i] = true
				}
			}
		}
	}
	return params, true
}

// accumulation: what a loop-carried variable becomes is the same for every order
type accKind int

const (
	accNone    accKind = iota
	accSame            // unchanged
	accCollect         // elements are appended
	accComm            // sum, count, maximum, flag
)

func (l *mapLoop) update(ph ssa.Value, v ssa.Value, seen map[ssa.Value]bool, d int) (accKind, bool) {
	if l.isCarried(ph, v) {
		return accSame, true
	}
	if seen[v] {
		return accSame, true
	}
	if d > 12 {
		return accNone, false
	}
	seen[v] = true
	join := func(a, b accKind) (accKind, bool) {
		if a == accSame {
			return b, true
		}
		if b == accSame || a == b {
			return a, true
		}
		return accNone, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return accComm, true // a flag that is set
	case *ssa.Phi:
		k := accSame
		if l.maxLike(ph, v) {
			return accComm, true
		}
		for _, e := range v.Edges {
			u, ok := l.update(ph, e, seen, d+1)
			if !ok {
				return accNone, false
			}
			if k, ok = join(k, u); !ok {
				return accNone, false
			}
		}
		return k, true
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.LOR, token.LAND:
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return accNone, false
			}
			if u, ok := l.update(ph, v.X, seen, d+1); ok && u != accCollect && !l.dependsOnCarried(v.Y, 0) {
				return accComm, true
			}
			if u, ok := l.update(ph, v.Y, seen, d+1); ok && u != accCollect && !l.dependsOnCarried(v.X, 0) {
				return accComm, true
			}
		}
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		if ok && b.Name() == "append" {
			for _, a := range v.Call.Args[1:] {
				if l.dependsOnCarried(a, 0) {
					return accNone, false
				}
			}
			if u, ok := l.update(ph, v.Call.Args[0], seen, d+1); ok && u != accComm {
				return accCollect, true
			}
		}
		if ok && (b.Name() == "max" || b.Name() == "min") {
			return accComm, true
		}
	}
	return accNone, false
}

// maxLike: the phi chooses between the carried value and another one by comparing the two
func (l *mapLoop) maxLike(ph ssa.Value, v *ssa.Phi) bool {
	if len(v.Edges) != 2 {
		return false
	}
	var other ssa.Value
	for i, e := range v.Edges {
		if l.isCarried(ph, e) {
			other = v.Edges[1-i]
		}
	}
	if other == nil {
		return false
	}
	return l.comparedBefore(ph, other, v.Block())
}

// isCarried: the value the accumulator ph has at the start of the iteration
func (l *mapLoop) isCarried(ph, v ssa.Value) bool {
	if ph == v {
		return true
	}
	al, ok := ph.(*ssa.Alloc)
	if !ok {
		return false
	}
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && u.X == ssa.Value(al)
}

// comparedBefore: the accumulator was compared with what replaces it
func (l *mapLoop) comparedBefore(ph, other ssa.Value, at *ssa.BasicBlock) bool {
	same := func(a, b ssa.Value) bool { return a == b || pureSame(a, b, 0) }
	for b := range l.body {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(at) {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch c.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			isPh := func(v ssa.Value) bool { return l.isCarried(ph, v) || same(v, ph) }
			if isPh(c.X) && same(c.Y, other) || isPh(c.Y) && same(c.X, other) {
				l.maxIf[iff] = true
				return true
			}
		}
	}
	return false
}

// pureSame: two registers hold the same value, computed twice
func pureSame(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		bx, ok1 := x.Call.Value.(*ssa.Builtin)
		by, ok2 := y.Call.Value.(*ssa.Builtin)
		if !ok1 || !ok2 || bx.Name() != by.Name() || bx.Name() != "len" {
			return false
		}
		return pureSame(x.Call.Args[0], y.Call.Args[0], d+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && pureSame(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && pureSame(x.X, y.X, d+1)
	}
	return false
}

func (l *mapLoop) dependsOnCarried(v ssa.Value, d int) bool {
	if d > 15 || !l.inLoop(v) {
		return false
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.header {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok && l.acc[al] {
			return true
		}
	}
	if l.isNextPart(v, -1) {
		return false
	}
	in := v.(ssa.Instruction)
	for _, o := range in.Operands(nil) {
		if *o != nil && l.dependsOnCarried(*o, d+1) {
			return true
		}
	}
	return false
}

// onlyDeleted: entries are taken out of a map that nothing else in the loop uses
func (l *mapLoop) onlyDeleted(del *ssa.Call) bool {
	m := del.Call.Args[0]
	other := func(v ssa.Value) bool {
		if _, ok := v.Type().Underlying().(*types.Map); !ok {
			return true
		}
		if !types.Identical(v.Type(), m.Type()) {
			return true
		}
		a, b := l.p.grammarField(m), l.p.grammarField(v)
		return a >= 0 && b >= 0 && a != b
	}
	if !other(l.rng.X) {
		return false
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if !other(in.Map) {
					return false
				}
			case *ssa.Lookup:
				if !other(in.X) {
					return false
				}
			case *ssa.Range:
				if !other(in.X) {
					return false
				}
			case ssa.CallInstruction:
				if bi, ok := in.Common().Value.(*ssa.Builtin); ok {
					if bi.Name() != "delete" && len(in.Common().Args) > 0 && !other(in.Common().Args[0]) {
						return false
					}
					continue
				}
				if f := in.Common().StaticCallee(); f == nil || l.p.inRepo(f) {
					return false
				}
			}
		}
	}
	return true
}

func (l *mapLoop) analyse() {
	if l.lenIsOne() {
		return
	}
	effects := 0
	// variables that live in memory because a function literal captures them
	l.acc, l.maxIf = map[*ssa.Alloc]bool{}, map[*ssa.If]bool{}
	memStores := map[*ssa.Store]*ssa.Alloc{}
	for b := range l.body {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if al, ok := st.Addr.(*ssa.Alloc); ok && !l.body[al.Block()] {
					l.acc[al] = true
					memStores[st] = al
				}
			}
		}
	}
	memKind := map[*ssa.Alloc]accKind{}
	for st, al := range memStores {
		var k accKind
		ok := false
		if !l.capturedWrites(al) {
			k, ok = l.update(al, st.Val, map[ssa.Value]bool{}, 0)
			if !ok && l.comparedBefore(al, st.Val, st.Block()) {
				k, ok = accComm, true
			}
		}
		if !ok || memKind[al] != accNone && memKind[al] != k {
			l.bad(st, "a store that the last iterated entry decides")
			delete(memKind, al)
			continue
		}
		memKind[al] = k
	}
	for al, k := range memKind {
		effects++
		if k == accCollect {
			l.sortedUse(al.Block().Instrs[0], al, l.body, 0)
		}
	}
	// what the iterations do
	for b := range l.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if memStores[in] != nil {
					continue
				}
				if l.fresh(in.Addr, 0) || l.perEntry(in.Addr, 0) {
					if l.perEntry(in.Addr, 0) {
						effects++
						if l.dependsOnCarried(in.Val, 0) {
							l.bad(in, "what is stored depends on the order of the entries")
						}
					}
					continue
				}
				if g, ok := in.Addr.(*ssa.Global); ok && l.collectGlobal(g, in) {
					continue
				}
				effects++
				l.bad(in, "a store that the last iterated entry decides")
			case *ssa.MapUpdate:
				if l.fresh(in.Map, 0) {
					continue
				}
				effects++
				if l.dependsOnCarried(in.Value, 0) {
					l.bad(in, "what is stored depends on the order of the entries")
				}
				if l.uniqueKey(in.Key) {
					continue
				}
				if _, ok := in.Value.(*ssa.Const); ok {
					continue
				}
				l.bad(in, "a map entry that several iterations may write")
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer:
				effects++
				l.bad(in, "%s inside a map iteration", in)
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "append", "min", "max", "ssa:wrapnilchk":
						continue
					case "delete":
						effects++
						if l.uniqueKey(in.Call.Args[1]) || l.onlyDeleted(in) {
							continue
						}
					case "copy":
						if l.fresh(in.Call.Args[0], 0) {
							continue
						}
					}
					effects++
					l.bad(in, "%s inside a map iteration", bi.Name())
					continue
				}
				if in.Call.IsInvoke() {
					rt := in.Call.Value.Type()
					if l.p.isRuleT(rt) && in.Call.Method.Name() != "Eval" {
						continue
					}
					if in.Call.Method.Name() == "Error" || in.Call.Method.Name() == "String" {
						continue
					}
					effects++
					l.bad(in, "a call of %s in map order", in.Call.Method.Name())
					continue
				}
				c := in.Call.StaticCallee()
				if c == nil {
					effects++
					l.bad(in, "an unresolved call in map order")
					continue
				}
				if l.p.pure(c) && (c.Signature.Recv() == nil || l.p.inRepo(c)) {
					continue
				}
				if c.Signature.Recv() != nil && len(in.Call.Args) > 0 && l.fresh(in.Call.Args[0], 0) && !l.p.inRepo(c) {
					continue
				}
				if l.sorts(in) != nil && (l.fresh(l.sorts(in), 0) || l.perEntry(l.sorts(in), 0)) {
					continue
				}
				effects++
				if l.p.inRepo(c) {
					if params, ok := l.p.keyedEffects(c, 0); ok {
						good := true
						for k := range params {
							good = good && l.uniqueKey(in.Call.Args[k])
						}
						if good {
							continue
						}
					}
				}
				l.bad(in, "a call of %s in map order", l.p.fname(c))
			}
		}
	}
	// what is carried from one iteration to the next
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		kind := accSame
		good := true
		for i, e := range ph.Edges {
			if !l.body[l.header.Preds[i]] {
				continue
			}
			k, ok := l.update(ph, e, map[ssa.Value]bool{}, 0)
			if !ok {
				good = false
			}
			if k != accSame {
				kind = k
			}
		}
		switch {
		case !good:
			l.bad(ph, "%s depends on the order of the entries", describe(ph))
		case kind == accCollect:
			effects++
			l.sortedUse(ph, ph, l.body, 0)
		case kind == accComm:
			effects++
		}
	}
	// decisions taken on what earlier iterations did
	if effects > 0 {
		for b := range l.body {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && !l.maxIf[iff] && !l.rangeIf(iff) && l.dependsOnCarried(iff.Cond, 0) {
				l.bad(iff, "what is done for an entry depends on which entries came before")
			}
		}
	}
	// leaving early
	for b := range l.body {
		if b == l.header {
			continue
		}
		for _, s := range b.Succs {
			if l.body[s] {
				continue
			}
			if len(s.Instrs) == 0 {
				continue
			}
			if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok {
				continue
			}
			last := b.Instrs[len(b.Instrs)-1]
			if effects > 0 {
				l.bad(last, "the iteration ends early, after an arbitrary part of its effects")
				continue
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range s.Preds {
					if p == b && l.inLoop(ph.Edges[i]) {
						l.bad(ph, "%s is taken from whichever entry came first", describe(ph))
					}
				}
			}
			// values of the loop used after leaving early
			l.escapes(s, last)
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				if l.inLoop(r) {
					l.bad(ret, "what is returned is taken from whichever entry came first")
				}
			}
		}
	}
}

// capturedWrites: a function literal may write the variable, or its address goes elsewhere
func (l *mapLoop) capturedWrites(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if u.Addr != ssa.Value(al) {
				return true
			}
		case *ssa.UnOp:
		case *ssa.MakeClosure:
			f := u.Fn.(*ssa.Function)
			for i, bnd := range u.Bindings {
				if bnd != ssa.Value(al) {
					continue
				}
				for _, w := range *f.FreeVars[i].Referrers() {
					if ld, ok := w.(*ssa.UnOp); !ok || ld.Op != token.MUL {
						if _, ok := w.(*ssa.DebugRef); !ok {
							return true
						}
					}
				}
			}
		default:
			return true
		}
	}
	return false
}

// rangeIf: the condition of an inner loop
func (l *mapLoop) rangeIf(iff *ssa.If) bool {
	b := iff.Block()
	if b == l.header {
		return true
	}
	for _, q := range b.Preds {
		if b.Dominates(q) && l.body[q] {
			return true
		}
	}
	return false
}

// escapes: values of the iteration used in code that only runs after leaving early
func (l *mapLoop) escapes(b *ssa.BasicBlock, at ssa.Instruction) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || l.body[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			for _, o := range in.Operands(nil) {
				if *o == nil || !l.inLoop(*o) {
					continue
				}
				if ph, ok := (*o).(*ssa.Phi); ok && ph.Block() == l.header {
					continue
				}
				if in.Pos().IsValid() {
					l.bad(in, "uses %s of whichever entry came first", describe(*o))
				} else {
					l.bad(at, "%s of whichever entry came first is used", describe(*o))
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(b)
}

func describe(v ssa.Value) string {
	if ph, ok := v.(*ssa.Phi); ok && ph.Comment != "" {
		return ph.Comment
	}
	return v.Name()
}

// lenIsOne: the loop only runs when the map has exactly one entry
func (l *mapLoop) lenIsOne() bool {
	ln := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && pureSame(c.Call.Args[0], l.rng.X, 0)
	}
	for _, b := range l.fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		k, ok := c.Y.(*ssa.Const)
		if !ok || k.Value == nil || !ln(c.X) {
			continue
		}
		var s *ssa.BasicBlock
		switch {
		case c.Op == token.EQL && k.Int64() == 1, c.Op == token.LSS && k.Int64() == 2, c.Op == token.LEQ && k.Int64() == 1:
			s = b.Succs[0]
		case c.Op == token.NEQ && k.Int64() == 1, c.Op == token.GTR && k.Int64() == 1, c.Op == token.GEQ && k.Int64() == 2:
			s = b.Succs[1]
		}
		if s != nil && len(s.Preds) == 1 && s.Dominates(l.header) {
			return true
		}
	}
	return false
}

// sorts: the slice a call sorts completely
func (l *mapLoop) sorts(c *ssa.Call) ssa.Value { return l.p.sorts(c) }

func (p *Program) sorts(c *ssa.Call) ssa.Value {
	f := c.Call.StaticCallee()
	if f == nil || len(c.Call.Args) == 0 {
		return nil
	}
	n := f.String()
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	arg := c.Call.Args[0]
	if mi, ok := arg.(*ssa.MakeInterface); ok {
		arg = mi.X
	}
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return arg
	case "sort.Sort", "sort.Stable":
		if ct, ok := arg.(*ssa.ChangeType); ok {
			if nm, ok := ct.Type().(*types.Named); ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == "sort" {
				return ct.X
			}
		}
	case "sort.Slice", "sort.SliceStable":
		if totalLess(c.Call.Args[1]) {
			return arg
		}
	}
	if p.inRepo(f) && f.Blocks != nil && len(f.Params) > 0 {
		// a helper that sorts its argument on every path
		for _, in := range f.Blocks[0].Instrs {
			if cc, ok := in.(*ssa.Call); ok {
				if v := p.sorts(cc); v != nil && v == ssa.Value(f.Params[0]) {
					return arg
				}
			}
		}
	}
	return nil
}

// totalLess: a less function that compares the two elements themselves, or a unique part of them
func totalLess(v ssa.Value) bool {
	var f *ssa.Function
	switch v := v.(type) {
	case *ssa.MakeClosure:
		f, _ = v.Fn.(*ssa.Function)
	case *ssa.Function:
		f = v
	}
	if f == nil || len(f.Blocks) != 1 {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	b, ok := ret.Results[0].(*ssa.BinOp)
	if !ok || (b.Op != token.LSS && b.Op != token.GTR) {
		return false
	}
	el := func(v ssa.Value) (ssa.Value, bool) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				return ia.Index, true
			}
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				n, _ := fa.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
				if n != nil && n.Obj().Name() == "RuleRecord" {
					fn := n.Underlying().(*types.Struct).Field(fa.Field).Name()
					if fn != "line" && fn != "name" {
						return nil, false
					}
					if u2, ok := fa.X.(*ssa.UnOp); ok {
						if ia, ok := u2.X.(*ssa.IndexAddr); ok {
							return ia.Index, true
						}
					}
				}
			}
		}
		return nil, false
	}
	i, ok1 := el(b.X)
	j, ok2 := el(b.Y)
	return ok1 && ok2 && i != j
}

// sortedUse: a slice in map order must be sorted before anything else looks at it
func (l *mapLoop) sortedUse(at ssa.Instruction, v ssa.Value, inside map[*ssa.BasicBlock]bool, depth int) {
	if depth > 5 {
		l.bad(at, "cannot follow the slice collected in map order")
		return
	}
	fn := at.Parent()
	// aliases of the value outside of the loop
	type use struct {
		in ssa.Instruction
		v  ssa.Value
	}
	var uses []use
	var sort []*ssa.Call
	seen := map[ssa.Value]bool{}
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if inside[u.Block()] || u.Parent() != fn {
				continue
			}
			switch u := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				collect(u)
				continue
			case *ssa.MakeInterface:
				collect(u)
				continue
			case *ssa.ChangeType:
				collect(u)
				continue
			case *ssa.Store:
				// a local variable the slice lives in
				if al, ok := u.Addr.(*ssa.Alloc); ok && u.Val == v {
					for _, w := range *al.Referrers() {
						if ld, ok := w.(*ssa.UnOp); ok {
							collect(ld)
						}
					}
					continue
				}
			case *ssa.Call:
				if b, ok := u.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if s := l.p.sorts(u); s != nil && (s == v || seen[s]) {
					sort = append(sort, u)
					continue
				}
			case *ssa.MakeClosure:
				continue // the less function
			}
			uses = append(uses, use{u, v})
		}
	}
	if al, ok := v.(*ssa.Alloc); ok {
		for _, u := range *al.Referrers() {
			if ld, ok := u.(*ssa.UnOp); ok && !inside[ld.Block()] {
				collect(ld)
				seen[v] = true
			}
		}
	} else {
		collect(v)
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() == b.Block() {
			for _, in := range a.Block().Instrs {
				if in == a {
					return true
				}
				if in == b {
					return false
				}
			}
		}
		return a.Block().Dominates(b.Block())
	}
	for _, u := range uses {
		ok := false
		for _, s := range sort {
			ok = ok || before(s, u.in)
		}
		if ok {
			continue
		}
		if ret, isRet := u.in.(*ssa.Return); isRet {
			// whoever calls this must sort
			idx := -1
			for i, r := range ret.Results {
				if r == u.v {
					idx = i
				}
			}
			if l.callersSort(ret, idx, depth) {
				continue
			}
		}
		l.bad(u.in, "a slice collected in map order is used before it is sorted")
	}
}

func (l *mapLoop) callersSort(ret *ssa.Return, idx, depth int) bool {
	f := ret.Parent()
	if f.Object() == nil || f.Object().Exported() {
		return false
	}
	n := len(l.why)
	for _, g := range l.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != f {
					continue
				}
				var v ssa.Value = c
				if len(ret.Results) > 1 {
					v = nil
					for _, u := range *c.Referrers() {
						if e, ok := u.(*ssa.Extract); ok && e.Index == idx {
							v = e
						}
					}
					if v == nil {
						continue
					}
				}
				l.sortedUse(c, v, map[*ssa.BasicBlock]bool{}, depth+1)
			}
		}
	}
	return len(l.why) == n
}

// collectGlobal: elements are appended to a package variable that nothing reads
func (l *mapLoop) collectGlobal(g *ssa.Global, st *ssa.Store) bool {
	for _, f := range l.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != ssa.Value(g) || in == ssa.Instruction(st) {
						continue
					}
					u, ok := in.(*ssa.UnOp)
					if !ok {
						if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) && !l.body[s.Block()] {
							continue
						}
						return false
					}
					for _, w := range *u.Referrers() {
						c, ok := w.(*ssa.Call)
						if !ok {
							return false
						}
						bi, ok := c.Call.Value.(*ssa.Builtin)
						if !ok || bi.Name() != "append" && bi.Name() != "len" {
							return false
						}
						if bi.Name() == "append" && st.Val != ssa.Value(c) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// sources of chance a parser has no business with
func chanceCall(f *ssa.Function) string {
	if f == nil || f.Pkg == nil {
		return ""
	}
	switch f.Pkg.Pkg.Path() {
	case "math/rand", "math/rand/v2", "crypto/rand", "time", "hash/maphash":
		return f.String()
	case "runtime":
		return f.String()
	case "os":
		switch f.Name() {
		case "Getpid", "Getenv", "LookupEnv", "Environ", "Hostname":
			return f.String()
		}
	case "reflect":
		if f.Name() == "MapKeys" || f.Name() == "MapRange" {
			return f.String()
		}
	case "maps":
		return f.String()
	}
	return ""
}

func c12(p *Program, r *Report) {
	guarded(r, "evaluation", func() { purity(p, r) }) // what an evaluation leaves behind would change later ones
	loops, calls := 0, 0
	for _, fn := range p.funcs {
		r.analysed[p.fname(fn)] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go, *ssa.Select:
					r.ob(false, "concurrency", p.fname(fn), p.where(in), func() string { return "what runs first is left to chance" })
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					loops++
					l := p.mapLoop(fn, in)
					if l == nil {
						r.ob(false, "map order", p.fname(fn), p.where(in), func() string { return "cannot follow the iteration" })
						continue
					}
					l.analyse()
					r.ob(len(l.why) == 0, "map order", p.fname(fn), p.where(in), func() string { return strings.Join(l.why, "; ") })
					if len(l.why) == 0 {
						r.sample("%s: iterating over %s gives the same in every order", p.where(in), in.X.Type())
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && !p.inRepo(f) {
						calls++
						s := chanceCall(f)
						if m := formattedAddress(c.Common()); m != "" {
							r.ob(false, "address", p.fname(fn), p.where(in), func() string { return m })
						}
						if s == "maps.Keys" || s == "maps.Values" || s == "maps.All" || s != "" {
							r.ob(false, "chance", p.fname(fn), p.where(in), func() string { return "calls " + s })
						} else {
							r.ob(true, "chance", p.fname(fn), "", nil)
						}
					}
				}
			}
		}
	}
	r.extra["map_iterations"] = loops
	r.extra["library_calls"] = calls
	if loops < 5 {
		r.fail("vacuous", "map order", "", fmt.Sprintf("only %d map iterations found", loops))
	}
}

func (p *Program) mapLoop(fn *ssa.Function, rng *ssa.Range) *mapLoop {
	l := &mapLoop{p: p, fn: fn, rng: rng, body: map[*ssa.BasicBlock]bool{}}
	for _, u := range *rng.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			if l.next != nil {
				return nil
			}
			l.next = n
		}
	}
	if l.next == nil {
		return nil
	}
	l.header = l.next.Block()
	l.body[l.header] = true
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if l.body[b] {
			return
		}
		l.body[b] = true
		for _, q := range b.Preds {
			back(q)
		}
	}
	for _, q := range l.header.Preds {
		if l.header.Dominates(q) {
			back(q)
		}
	}
	return l
}

func init() {
	register(&check{id: "C12", level: "proof", run: c12,
		rule:  "every iteration over a map has effects that are the same in every order (entries written under the iterated key, commutative accumulation, or a collected slice that is sorted by a total order before any other use), and nothing calls a source of chance, formats an address, starts a goroutine or selects",
		trust: []string{"go/packages, go/types and go/ssa give the meaning of the source", "fmt prints maps in key order", "no two rules of a grammar have the same line (each gets the one after the last)"}})
}

// printsAddress: fmt prints an address when given a value of this type
func printsAddress(t types.Type, depth int, methods bool) bool {
	if depth > 4 {
		return false
	}
	if methods {
		for _, n := range []string{"String", "Error", "Format"} {
			if o, _, _ := types.LookupFieldOrMethod(t, false, nil, n); o != nil {
				if _, ok := o.(*types.Func); ok {
					return false
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Map, *types.Array:
			return printsAddress(u.Elem(), depth+1, methods)
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if printsAddress(u.Field(i).Type(), depth+1, methods && u.Field(i).Exported()) {
				return true
			}
		}
	case *types.Slice:
		return printsAddress(u.Elem(), depth+1, methods)
	case *types.Array:
		return printsAddress(u.Elem(), depth+1, methods)
	case *types.Map:
		return printsAddress(u.Elem(), depth+1, methods) || printsAddress(u.Key(), depth+1, methods)
	}
	return false
}

// formattedAddress: a call of package fmt that puts an address into what it formats
func formattedAddress(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "fmt" {
		return ""
	}
	for _, a := range c.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(strings.ReplaceAll(k.Value.ExactString(), "%%", ""), "%p") {
			return "formats an address with %p"
		}
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, u := range *al.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok {
					if mi, ok := st.Val.(*ssa.MakeInterface); ok && printsAddress(mi.X.Type(), 0, true) {
						return "formats a value of type " + mi.X.Type().String() + ", which prints as an address"
					}
				}
			}
		}
	}
	return ""
}
