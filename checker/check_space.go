package main

// C18: the exact set of runes a one-rune predicate accepts, computed by propagating sets of runes through its SSA
// form, compared with the Unicode White_Space property.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// RSet is a set of runes: sorted disjoint closed intervals
type RSet []struct{ lo, hi int64 }

const minRune, maxRune = -1 << 31, 1<<31 - 1

func rset(lo, hi int64) RSet {
	if lo > hi {
		return nil
	}
	return RSet{{lo, hi}}
}

func (a RSet) and(b RSet) RSet {
	var r RSet
	for _, x := range a {
		for _, y := range b {
			lo, hi := x.lo, x.hi
			if y.lo > lo {
				lo = y.lo
			}
			if y.hi < hi {
				hi = y.hi
			}
			if lo <= hi {
				r = append(r, struct{ lo, hi int64 }{lo, hi})
			}
		}
	}
	return r.norm()
}

func (a RSet) or(b RSet) RSet { return append(append(RSet(nil), a...), b...).norm() }

func (a RSet) not() RSet {
	at := int64(minRune)
	var r RSet
	for _, x := range a.norm() {
		if at < x.lo {
			r = append(r, struct{ lo, hi int64 }{at, x.lo - 1})
		}
		at = x.hi + 1
	}
	if at <= maxRune {
		r = append(r, struct{ lo, hi int64 }{at, maxRune})
	}
	return r
}

func (a RSet) norm() RSet {
	b := append(RSet(nil), a...)
	sort.Slice(b, func(i, j int) bool { return b[i].lo < b[j].lo })
	var r RSet
	for _, x := range b {
		if n := len(r); n > 0 && x.lo <= r[n-1].hi+1 {
			if x.hi > r[n-1].hi {
				r[n-1].hi = x.hi
			}
			continue
		}
		r = append(r, x)
	}
	return r
}

func (a RSet) size() (n int64) {
	for _, x := range a {
		n += x.hi - x.lo + 1
	}
	return
}

func (a RSet) String() string {
	var b []string
	for _, x := range a {
		if x.lo == x.hi {
			b = append(b, fmt.Sprintf("U+%04X", x.lo))
		} else {
			b = append(b, fmt.Sprintf("U+%04X..U+%04X", x.lo, x.hi))
		}
	}
	return "{" + strings.Join(b, " ") + "}"
}

func tableSet(ts ...*unicode.RangeTable) RSet {
	var r RSet
	for _, t := range ts {
		for _, x := range t.R16 {
			for c := int64(x.Lo); c <= int64(x.Hi); c += int64(x.Stride) {
				r = append(r, struct{ lo, hi int64 }{c, c})
			}
		}
		for _, x := range t.R32 {
			for c := int64(x.Lo); c <= int64(x.Hi); c += int64(x.Stride) {
				r = append(r, struct{ lo, hi int64 }{c, c})
			}
		}
	}
	return r.norm()
}

// values of the set interpreter
type (
	sChar  struct{ off int64 }        // the rune plus an offset
	sBool  struct{ t RSet }           // true for exactly these runes
	sConst struct{ v constant.Value } // a known number or bool or string
	sTuple struct{ v []interface{} }  // results of a comma-ok lookup
	sTable struct{ g *ssa.Global }    // a package variable
	sSeq   struct{ v []int64 }        // a constant sequence of numbers
	sElem  struct {                   // address of an element of one
		seq []int64
		i   int64
	}
	sRange struct {
		v []int64
		i *int64
	}
	sZero struct{ isNil RSet } // a pointer or interface that is nil for exactly these runes
)

type runeInterp struct {
	p     *Program
	steps int
	tabs  map[*ssa.Global]*runeTable
	used  []string
}

type runeTable struct {
	keys  []int64
	isT   map[int64]bool // bool valued maps
	isNil map[int64]bool
	seq   []int64
}

// table reads a package-level map, slice or array that only its initializer writes
func (ri *runeInterp) table(g *ssa.Global) *runeTable {
	if t, ok := ri.tabs[g]; ok {
		return t
	}
	t := &runeTable{isT: map[int64]bool{}, isNil: map[int64]bool{}}
	ri.tabs[g] = t
	num := func(v ssa.Value) int64 {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil {
			unresolved("table %s has an entry that is not a constant", g.Name())
		}
		i, exact := constant.Int64Val(constant.ToInt(c.Value))
		if !exact {
			unresolved("table %s has an entry that is not a rune", g.Name())
		}
		return i
	}
	elems := map[int64]int64{}
	inits := 0
	for _, f := range ri.p.funcs {
		isInit := f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				uses := false
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						uses = true
					}
				}
				if !uses {
					continue
				}
				switch in := in.(type) {
				case *ssa.Store:
					if in.Addr != ssa.Value(g) || !isInit {
						unresolved("table %s is written in %s", g.Name(), f)
					}
					inits++
					switch v := in.Val.(type) {
					case *ssa.MakeMap:
						for _, u := range *v.Referrers() {
							switch u := u.(type) {
							case *ssa.MapUpdate:
								k := num(u.Key)
								t.keys = append(t.keys, k)
								if c, ok := u.Value.(*ssa.Const); ok {
									t.isNil[k] = c.IsNil()
									t.isT[k] = c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value)
								} else if _, ok := u.Value.Type().Underlying().(*types.Basic); ok {
									unresolved("table %s has a value that is not a constant", g.Name())
								}
							case *ssa.Store, *ssa.DebugRef:
							default:
								unresolved("table %s is built in a way that is not followed", g.Name())
							}
						}
					case *ssa.Slice:
						al, ok := v.X.(*ssa.Alloc)
						if !ok {
							unresolved("table %s is built in a way that is not followed", g.Name())
						}
						ri.arrayElems(g, al, elems, num)
					case *ssa.UnOp:
						al, ok := v.X.(*ssa.Alloc)
						if !ok || v.Op != token.MUL {
							unresolved("table %s is built in a way that is not followed", g.Name())
						}
						ri.arrayElems(g, al, elems, num)
					default:
						unresolved("table %s is not a literal", g.Name())
					}
				case *ssa.IndexAddr:
					// an array variable
					for _, u := range *in.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(in) {
							if !isInit {
								unresolved("table %s is written in %s", g.Name(), f)
							}
							if ic, ok := in.Index.(*ssa.Const); ok {
								elems[ic.Int64()] = num(st.Val)
							} else {
								unresolved("table %s is built in a way that is not followed", g.Name())
							}
						}
					}
				case *ssa.UnOp:
					ri.readOnly(g, in, f)
				case *ssa.DebugRef:
				default:
					unresolved("table %s is used in %s in a way that may change it", g.Name(), f)
				}
			}
		}
	}
	for i := int64(0); i < int64(len(elems)); i++ {
		t.seq = append(t.seq, elems[i])
	}
	return t
}

func (ri *runeInterp) arrayElems(g *ssa.Global, al *ssa.Alloc, elems map[int64]int64, num func(ssa.Value) int64) {
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.IndexAddr:
			ic, ok := u.Index.(*ssa.Const)
			if !ok {
				unresolved("table %s is built in a way that is not followed", g.Name())
			}
			for _, w := range *u.Referrers() {
				if st, ok := w.(*ssa.Store); ok {
					elems[ic.Int64()] = num(st.Val)
				}
			}
		case *ssa.Slice, *ssa.DebugRef, *ssa.UnOp:
		default:
			unresolved("table %s is built in a way that is not followed", g.Name())
		}
	}
}

// readOnly checks that a loaded table is only read
func (ri *runeInterp) readOnly(g *ssa.Global, v ssa.Value, f *ssa.Function) {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.Index, *ssa.BinOp:
		case *ssa.IndexAddr:
			for _, w := range *u.Referrers() {
				if _, ok := w.(*ssa.UnOp); !ok {
					unresolved("table %s may be changed in %s", g.Name(), f)
				}
			}
		case *ssa.Call:
			b, isB := u.Call.Value.(*ssa.Builtin)
			if isB && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			if isB && b.Name() == "append" && len(u.Call.Args) == 2 && u.Call.Args[0] == v {
				// a table built up by an initializer and never read matters to nobody; reading it is refused below
				unresolved("table %s is appended to in %s", g.Name(), f)
			}
			if c := u.Call.StaticCallee(); c != nil && c.Pkg != nil {
				switch c.Pkg.Pkg.Path() {
				case "sort":
					if strings.HasPrefix(c.Name(), "Search") {
						continue
					}
				case "slices":
					if c.Name() == "Contains" || c.Name() == "Index" || strings.HasPrefix(c.Name(), "BinarySearch") {
						continue
					}
				case "unicode":
					continue
				}
			}
			unresolved("table %s is handed to %s", g.Name(), u.Call.Value.Name())
		default:
			unresolved("table %s is used in %s in a way that may change it", g.Name(), f)
		}
	}
}

func (ri *runeInterp) fail(in ssa.Instruction, format string, a ...interface{}) {
	panic(undecided{fmt.Sprintf("%s: %s", ri.p.where(in), fmt.Sprintf(format, a...))})
}

// eval returns, for each result, the set of runes for which it is true (results that are not bool are nil)
func (ri *runeInterp) eval(fn *ssa.Function, args []interface{}, in RSet, depth int) RSet {
	if fn.Blocks == nil || depth > 8 {
		panic(undecided{fmt.Sprintf("%s cannot be followed", fn)})
	}
	type job struct {
		b, from *ssa.BasicBlock
		env     map[ssa.Value]interface{}
		set     RSet
	}
	var result RSet
	env0 := map[ssa.Value]interface{}{}
	for i, prm := range fn.Params {
		env0[prm] = args[i]
	}
	work := []job{{fn.Blocks[0], nil, env0, in}}
	for len(work) > 0 {
		j := work[len(work)-1]
		work = work[:len(work)-1]
		if len(j.set) == 0 {
			continue
		}
		env := make(map[ssa.Value]interface{}, len(j.env))
		for k, v := range j.env {
			env[k] = v
		}
		get := func(at ssa.Instruction, v ssa.Value) interface{} {
			if c, ok := v.(*ssa.Const); ok {
				if c.Value == nil {
					return sZero{rset(minRune, maxRune)}
				}
				return sConst{c.Value}
			}
			if g, ok := v.(*ssa.Global); ok {
				return sTable{g}
			}
			r, ok := env[v]
			if !ok {
				ri.fail(at, "%s is not followed", v.Name())
			}
			return r
		}
		var phis []interface{}
		for _, in := range j.b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range j.b.Preds {
				if pr == j.from {
					phis = append(phis, get(ph, ph.Edges[k]))
					break
				}
			}
		}
		for k, v := range phis {
			env[j.b.Instrs[k].(*ssa.Phi)] = v
		}
		for _, in := range j.b.Instrs[len(phis):] {
			ri.steps++
			if ri.steps > 200000 {
				panic(undecided{fmt.Sprintf("%s: too many steps", fn)})
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Jump:
				work = append(work, job{j.b.Succs[0], j.b, env, j.set})
			case *ssa.If:
				t := ri.truth(in, get(in, in.Cond))
				work = append(work, job{j.b.Succs[0], j.b, env, j.set.and(t)}, job{j.b.Succs[1], j.b, env, j.set.and(t.not())})
			case *ssa.Return:
				if len(in.Results) != 1 {
					ri.fail(in, "%d results", len(in.Results))
				}
				result = result.or(j.set.and(ri.truth(in, get(in, in.Results[0]))))
			case *ssa.Panic:
			case ssa.Value:
				env[in] = ri.value(in, func(v ssa.Value) interface{} { return get(in.(ssa.Instruction), v) }, j.set, depth)
			default:
				ri.fail(in, "%T is not followed", in)
			}
		}
	}
	return result
}

func (ri *runeInterp) truth(in ssa.Instruction, v interface{}) RSet {
	switch v := v.(type) {
	case sBool:
		return v.t
	case sConst:
		if v.v.Kind() == constant.Bool {
			if constant.BoolVal(v.v) {
				return rset(minRune, maxRune)
			}
			return nil
		}
	}
	ri.fail(in, "not a condition on the rune")
	return nil
}

func asInt(v interface{}) (int64, bool) {
	c, ok := v.(sConst)
	if !ok {
		return 0, false
	}
	k := constant.ToInt(c.v)
	if k.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k)
}

func mkInt(i int64) sConst { return sConst{constant.MakeInt64(i)} }

func (ri *runeInterp) value(v ssa.Value, get func(ssa.Value) interface{}, set RSet, depth int) interface{} {
	at := v.(ssa.Instruction)
	switch in := v.(type) {
	case *ssa.BinOp:
		return ri.binop(in, get(in.X), get(in.Y))
	case *ssa.UnOp:
		x := get(in.X)
		switch in.Op {
		case token.NOT:
			return sBool{ri.truth(in, x).not()}
		case token.SUB:
			if i, ok := asInt(x); ok {
				return mkInt(-i)
			}
		case token.MUL:
			switch x := x.(type) {
			case sTable:
				if x.g.Pkg != nil && !(x.g.Pkg == ri.p.lib) {
					return x
				}
				if _, ok := x.g.Type().(*types.Pointer).Elem().Underlying().(*types.Map); ok {
					return x
				}
				return sSeq{ri.table(x.g).seq}
			case sElem:
				if x.i >= 0 && x.i < int64(len(x.seq)) {
					return mkInt(x.seq[x.i])
				}
			}
		}
	case *ssa.ChangeType:
		return get(in.X)
	case *ssa.Convert:
		x := get(in.X)
		b, ok := in.Type().Underlying().(*types.Basic)
		if c, isC := x.(sChar); isC && ok && b.Info()&types.IsInteger != 0 {
			// the value must fit
			lo, hi := int64(minRune)*2, int64(maxRune)*2
			switch b.Kind() {
			case types.Int32, types.UntypedRune:
				lo, hi = minRune, maxRune
			case types.Uint8:
				lo, hi = 0, 255
			case types.Int8:
				lo, hi = -128, 127
			case types.Uint16:
				lo, hi = 0, 65535
			case types.Int16:
				lo, hi = -32768, 32767
			case types.Uint32:
				lo, hi = 0, 1<<32-1
			case types.Uint, types.Uint64, types.Uintptr:
				lo, hi = 0, 1<<40
			}
			for _, x := range set {
				if x.lo+c.off < lo || x.hi+c.off > hi {
					ri.fail(at, "the rune may not fit into %s", b)
				}
			}
			return c
		}
		if i, ok := asInt(x); ok {
			return mkInt(i)
		}
	case *ssa.Lookup:
		tb, ok := get(in.X).(sTable)
		k, okK := get(in.Index).(sChar)
		if !ok || !okK {
			break
		}
		t := ri.table(tb.g)
		var member, val, notNil RSet
		for _, key := range t.keys {
			e := rset(key-k.off, key-k.off)
			member = member.or(e)
			if t.isT[key] {
				val = val.or(e)
			}
			if !t.isNil[key] {
				notNil = notNil.or(e)
			}
		}
		var elem interface{} = sBool{val}
		if b, ok := in.X.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			elem = sZero{notNil.not()}
		}
		ri.used = append(ri.used, fmt.Sprintf("%s: membership in table %s (%d entries)", ri.p.where(at), tb.g.Name(), len(t.keys)))
		if in.CommaOk {
			return sTuple{[]interface{}{elem, sBool{member}}}
		}
		return elem
	case *ssa.Extract:
		if tp, ok := get(in.Tuple).(sTuple); ok && in.Index < len(tp.v) {
			return tp.v[in.Index]
		}
	case *ssa.Slice:
		if tb, ok := in.X.(*ssa.Global); ok && in.Low == nil && in.High == nil {
			return sSeq{ri.table(tb).seq}
		}
		if in.Low == nil && in.High == nil {
			return get(in.X)
		}
	case *ssa.Index:
		if i, ok := asInt(get(in.Index)); ok {
			if s, ok := get(in.X).(sSeq); ok && i >= 0 && i < int64(len(s.v)) {
				return mkInt(s.v[i])
			}
		}
	case *ssa.IndexAddr:
		i, ok := asInt(get(in.Index))
		switch s := get(in.X).(type) {
		case sSeq:
			if ok {
				return sElem{s.v, i}
			}
		case sTable:
			if ok {
				return sElem{ri.table(s.g).seq, i}
			}
		}
	case *ssa.Alloc:
		return sZero{}
	case *ssa.Call:
		return ri.call(in, get, set, depth)
	}
	ri.fail(at, "%s is not followed", v)
	return nil
}

func (ri *runeInterp) binop(in *ssa.BinOp, x, y interface{}) interface{} {
	if c, ok := y.(sChar); ok {
		if _, ok := x.(sChar); !ok {
			// constant on the left
			if i, ok := asInt(x); ok {
				switch in.Op {
				case token.EQL, token.NEQ:
					return ri.cmp(in, in.Op, c, i)
				case token.LSS:
					return ri.cmp(in, token.GTR, c, i)
				case token.LEQ:
					return ri.cmp(in, token.GEQ, c, i)
				case token.GTR:
					return ri.cmp(in, token.LSS, c, i)
				case token.GEQ:
					return ri.cmp(in, token.LEQ, c, i)
				case token.ADD:
					return sChar{c.off + i}
				}
			}
		}
	}
	if c, ok := x.(sChar); ok {
		if i, ok := asInt(y); ok {
			switch in.Op {
			case token.ADD:
				return sChar{c.off + i}
			case token.SUB:
				return sChar{c.off - i}
			}
			return ri.cmp(in, in.Op, c, i)
		}
	}
	if z, ok := x.(sZero); ok {
		if w, ok := y.(sZero); ok && (len(w.isNil.not()) == 0 || len(z.isNil.not()) == 0) {
			t := z.isNil.and(w.isNil)
			if in.Op == token.EQL {
				return sBool{t}
			}
			if in.Op == token.NEQ {
				return sBool{t.not()}
			}
		}
	}
	if a, ok := x.(sConst); ok {
		if b, ok := y.(sConst); ok {
			switch in.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return sConst{constant.MakeBool(constant.Compare(a.v, in.Op, b.v))}
			case token.ADD, token.SUB, token.MUL:
				return sConst{constant.BinaryOp(a.v, in.Op, b.v)}
			case token.QUO:
				i, _ := asInt(a)
				k, _ := asInt(b)
				if k != 0 {
					return mkInt(i / k)
				}
			case token.SHR:
				i, _ := asInt(a)
				k, _ := asInt(b)
				return mkInt(i >> uint(k))
			}
		}
	}
	xb, ok1 := x.(sBool)
	if !ok1 {
		if c, ok := x.(sConst); ok && c.v.Kind() == constant.Bool {
			xb, ok1 = sBool{ri.truth(in, c)}, true
		}
	}
	yb, ok2 := y.(sBool)
	if !ok2 {
		if c, ok := y.(sConst); ok && c.v.Kind() == constant.Bool {
			yb, ok2 = sBool{ri.truth(in, c)}, true
		}
	}
	if ok1 && ok2 {
		same := xb.t.and(yb.t).or(xb.t.not().and(yb.t.not()))
		switch in.Op {
		case token.EQL:
			return sBool{same}
		case token.NEQ:
			return sBool{same.not()}
		case token.AND:
			return sBool{xb.t.and(yb.t)}
		case token.OR:
			return sBool{xb.t.or(yb.t)}
		}
	}
	ri.fail(in, "%s is not followed", in)
	return nil
}

func (ri *runeInterp) cmp(in ssa.Instruction, op token.Token, c sChar, i int64) interface{} {
	k := i - c.off
	switch op {
	case token.EQL:
		return sBool{rset(k, k)}
	case token.NEQ:
		return sBool{rset(k, k).not()}
	case token.LSS:
		return sBool{rset(minRune, k-1)}
	case token.LEQ:
		return sBool{rset(minRune, k)}
	case token.GTR:
		return sBool{rset(k+1, maxRune)}
	case token.GEQ:
		return sBool{rset(k, maxRune)}
	}
	ri.fail(in, "operator %s is not followed", op)
	return nil
}

func (ri *runeInterp) call(in *ssa.Call, get func(ssa.Value) interface{}, set RSet, depth int) interface{} {
	if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		switch s := get(in.Call.Args[0]).(type) {
		case sSeq:
			return mkInt(int64(len(s.v)))
		case sConst:
			if s.v.Kind() == constant.String {
				return mkInt(int64(len(constant.StringVal(s.v))))
			}
		}
	}
	fn := in.Call.StaticCallee()
	if fn == nil {
		ri.fail(in, "call %s is not followed", in)
	}
	var args []interface{}
	for _, a := range in.Call.Args {
		args = append(args, get(a))
	}
	if ri.p.inRepo(fn) {
		return sBool{ri.eval(fn, args, set, depth+1)}
	}
	name := fn.String()
	str := func(i int) (RSet, bool) {
		c, ok := args[i].(sConst)
		ch, ok2 := args[1].(sChar)
		if !ok || !ok2 || c.v.Kind() != constant.String {
			return nil, false
		}
		var r RSet
		for _, k := range constant.StringVal(c.v) {
			r = r.or(rset(int64(k)-ch.off, int64(k)-ch.off))
		}
		return r, true
	}
	switch name {
	case "unicode.IsSpace":
		if c, ok := args[0].(sChar); ok && c.off == 0 {
			return sBool{tableSet(unicode.White_Space)}
		}
	case "unicode.Is":
		if c, ok := args[1].(sChar); ok && c.off == 0 {
			if tb, ok := args[0].(sTable); ok && tb.g.Pkg != nil && tb.g.Pkg.Pkg.Path() == "unicode" {
				switch tb.g.Name() {
				case "White_Space":
					return sBool{tableSet(unicode.White_Space)}
				case "Z", "Space":
					return sBool{tableSet(unicode.Z)}
				case "Zs":
					return sBool{tableSet(unicode.Zs)}
				}
			}
		}
	case "strings.ContainsRune":
		if r, ok := str(0); ok {
			return sBool{r}
		}
	case "slices.Contains":
	}
	if strings.HasPrefix(name, "slices.Contains[") {
		if s, ok := args[0].(sSeq); ok {
			if c, ok := args[1].(sChar); ok {
				var r RSet
				for _, k := range s.v {
					r = r.or(rset(k-c.off, k-c.off))
				}
				return sBool{r}
			}
		}
	}
	ri.fail(in, "call of %s is not followed", name)
	return nil
}

func c18(p *Program, r *Report) {
	fn := p.isWhite
	name := p.fname(fn)
	if len(fn.Params) != 1 {
		unresolved("%s does not take one rune", name)
	}
	ri := &runeInterp{p: p, tabs: map[*ssa.Global]*runeTable{}}
	got := ri.eval(fn, []interface{}{sChar{}}, rset(minRune, maxRune), 0)
	want := tableSet(unicode.White_Space)
	r.analysed[name] = true
	for _, u := range ri.used {
		r.sample("%s", u)
	}
	r.sample("%s is true for exactly %s", name, got)
	r.extra["white_space"] = got.String()
	r.extra["runes_classified"] = int64(maxRune) - minRune + 1
	for _, c := range want {
		for k := c.lo; k <= c.hi; k++ {
			r.ob(len(got.and(rset(k, k))) == 1, "white", name, p.pos(fn.Pos()), func() string {
				return fmt.Sprintf("U+%04X is Unicode white space but is not treated as such", k)
			})
		}
	}
	extra := got.and(want.not())
	r.ob(len(extra) == 0, "not white", name, p.pos(fn.Pos()), func() string {
		return fmt.Sprintf("%s are treated as white space but are not", extra)
	})
}

func init() {
	register(&check{id: "C18", level: "proof", run: c18,
		rule:  "the exact set of runes for which IsWhiteSpace is true, computed by propagating sets of runes through its SSA form and its tables (which nothing else may write), equals the Unicode White_Space property",
		trust: []string{"go/packages, go/types and go/ssa give the meaning of the source", "the White_Space table of Go's unicode package"}})
}
