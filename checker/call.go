package main

// Calls: builtins, interface methods under their contracts, static calls in context, models of the standard library.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evalOut describes one outcome of an evaluation of a child rule
type evalOut struct {
	res    int // the EvalResult object
	from   Lin // logical position of the stream before
	to     Lin // position up to which the child read
	used   Lin // position up to which the match uses chars (== from if there is none)
	match  bool
	node   Val
	recv   Val
	flag   Val
	stream Val
}

func (x *Exec) bad(in ssa.Instruction, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	if in != nil {
		m = x.p.where(in) + ": " + m
	}
	x.unsound[m] = true
}

func (x *Exec) inStack(fn *ssa.Function) bool {
	for _, f := range x.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (x *Exec) havocResult(s *State, sig *types.Signature) Val {
	t := resultType(sig)
	if t == nil {
		return nil
	}
	return x.sym(s, t, "")
}

// onlyStrings: nothing but text comes out of a function
func onlyStrings(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if !isString(sig.Results().At(i).Type()) {
			return false
		}
	}
	return sig.Results().Len() > 0
}

func (x *Exec) call(s *State, in ssa.CallInstruction, c *ssa.CallCommon) []Out {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.reg(s, a))
	}
	// values that only the call itself needed are dead during the call
	if c.IsInvoke() {
		recv := x.reg(s, c.Value)
		return x.invoke(s, in, c, recv, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(s, in, c, b, args)
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if f, ok := x.reg(s, mc).(VFunc); ok {
				bind = f.bind
			}
		}
		return x.static(s, in, fn, args, bind)
	}
	if f, ok := x.reg(s, c.Value).(VFunc); ok {
		return x.static(s, in, f.fn, args, f.bind)
	}
	x.bad(in, "call of an unknown function value")
	return []Out{{s, x.havocResult(s, c.Signature())}}
}

// pruneForCall forgets registers of the caller that are not needed after the call
func (x *Exec) pruneForCall(s *State, in ssa.CallInstruction) {
	fr := s.top()
	live := x.p.info(fr.fn).after[in]
	if live == nil {
		return
	}
	for v := range fr.regs {
		if !live[v] {
			delete(fr.regs, v)
		}
	}
}

func (x *Exec) static(s *State, in ssa.CallInstruction, fn *ssa.Function, args, bind []Val) []Out {
	if o, ok := x.shortcut(s, in, fn, args); ok {
		return o
	}
	x.pruneForCall(s, in)
	return x.run(fn, []entry{{s, args, bind}})
}

// shortcut handles the calls whose callee is not analysed in context
func (x *Exec) shortcut(s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) ([]Out, bool) {
	if x.h.call != nil {
		if o, ok := x.h.call(x, s, in, fn, args); ok {
			return o, true
		}
	}
	if fn == x.p.isWhite && len(args) == 1 {
		if i, ok := args[0].(VInt); ok {
			return []Out{{s, x.simp(s, &VBool{op: 'p', key: "white", l: i.l})}}, true
		}
	}
	if !x.p.inRepo(fn) {
		return x.external(s, in, fn, args), true
	}
	if x.p.pure(fn) && (onlyStrings(fn.Signature) && !justReads(fn) || x.p.recursive(fn)) {
		return []Out{{s, x.havocResult(s, fn.Signature)}}, true
	}
	if fn.Blocks == nil {
		x.bad(in, "no source for %s", fn)
		return []Out{{s, x.havocResult(s, fn.Signature)}}, true
	}
	if x.inStack(fn) {
		x.bad(in, "recursive call of %s", x.p.fname(fn))
		return []Out{{s, x.havocResult(s, fn.Signature)}}, true
	}
	return nil, false
}

// nonNil is a new non-nil value
func (x *Exec) nonNil(s *State, t types.Type, key string) Val {
	o := VOpq{id: freshID(), key: key, typ: t}
	s.nilf[o.id] = false
	return o
}

func (x *Exec) external(s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val) []Out {
	sig := fn.Signature
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	one := func(v Val) []Out { return []Out{{s, v}} }
	switch path {
	case "fmt", "errors", "strings", "strconv", "unicode", "unicode/utf8", "math":
		switch {
		case path == "fmt" && fn.Name() == "Errorf", path == "errors" && fn.Name() == "New":
			return one(x.nonNil(s, resultType(sig), "error"))
		}
		if o, ok := x.builder(s, in, fn, args); ok {
			return o
		}
		if x.defs && path == "strings" && len(args) > 0 {
			if t, ok := args[0].(VStr); ok && t.cst == nil && t.runes == nil {
				switch fn.Name() {
				case "TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimSuffix":
					if onPanic != nil {
						break // it is about how long the text is
					}
					return one(t) // white space around does not matter
				case "HasPrefix":
					if c, ok := args[1].(VStr); ok && c.cst != nil && *c.cst == "//" {
						return one(&VBool{op: 'a', id: internOrFresh(t.id, "//"), key: commentLine})
					}
				}
			}
		}
		if o, ok := x.mayFail(s, in, fn, args); ok {
			return o
		}
		v := x.havocResult(s, sig)
		if path == "strings" {
			x.textResult(s, fn.Name(), args, v)
		}
		return one(v)
	case "sync":
		return one(x.havocResult(s, sig))
	case "sort":
		switch fn.Name() {
		case "Strings", "Ints", "Float64s":
			if x.names {
				return x.permuteNames(s, in, args[0])
			}
			x.permute(s, args[0])
			return one(nil)
		case "Slice", "SliceStable":
			if f, ok := args[1].(VFunc); ok && f.fn != nil && x.p.pure(f.fn) {
				if x.names {
					return x.permuteNames(s, in, args[0])
				}
				x.permute(s, args[0])
				return one(nil)
			}
		}
	case "os", "io/ioutil", "flag", "io", "bufio":
		if o, ok := x.mayFail(s, in, fn, args); ok {
			return o
		}
		return one(x.havocResult(s, sig))
	}
	x.bad(in, "call of %s is not modelled", fn)
	return one(x.havocResult(s, sig))
}

// permute: the elements of a list are put into another order
func (x *Exec) permute(s *State, v Val) {
	l, ok := x.resolve(s, v).(VList)
	if !ok || len(l.p) == 0 || len(l.p) == 1 && l.p[0].kind != 'w' {
		return
	}
	var el types.Type
	for _, p := range l.p {
		x.mark(s, p.v)
	}
	n := VList{p: []part{{kind: 's', id: freshID(), v: VTop{el}, lo: K(0), hi: l.length()}}}
	same := func(o Val) bool {
		m, ok := o.(VList)
		if !ok || len(m.p) != len(l.p) {
			return false
		}
		for i, p := range m.p {
			q := l.p[i]
			if p.kind != q.kind || p.id != q.id || p.key != q.key {
				return false
			}
		}
		return true
	}
	for _, f := range s.frames {
		for k, o := range f.regs {
			if same(o) {
				f.regs[k] = n
			}
		}
	}
	for id, o := range s.heap {
		for i, w := range o.f {
			if same(w) {
				s.wobj(id).f[i] = n
			}
		}
	}
}

func (x *Exec) invoke(s *State, in ssa.CallInstruction, c *ssa.CallCommon, recv Val, args []Val) []Out {
	if _, ok := recv.(VNil); ok {
		x.may(s, in, "method call on a nil interface")
		s.d.bot = true
		return nil
	}
	if o, ok := recv.(VOpq); ok {
		if _, known := s.nilKnown(o); !known {
			x.mayNil(s, in, o, "possible method call on nil: ")
			s.nilf[o.id] = false
		}
	}
	if x.h.invoke != nil {
		if o, ok := x.h.invoke(x, s, in, recv, c.Method, args); ok {
			return o
		}
	}
	rt := c.Value.Type()
	switch {
	case x.p.isStream(rt):
		return x.streamCall(s, in, c.Method.Name(), recv, args)
	case x.p.isRuleT(rt):
		if c.Method.Name() == "Eval" {
			return x.childEval(s, in, recv, args)
		}
		pure := true
		for _, t := range x.p.ruleImpls() {
			if m := x.p.method(t, c.Method.Name()); m == nil || !x.p.pure(m) {
				pure = false
			}
		}
		if !pure {
			if p, ok := recv.(VPtr); ok && s.heap[p.obj] != nil {
				if m := x.p.method(types.NewPointer(s.heap[p.obj].typ), c.Method.Name()); m != nil {
					return x.static(s, in, m, append([]Val{recv}, args...), nil)
				}
			}
			x.note(in, "%s of an unknown rule", c.Method.Name())
		}
		return []Out{{s, x.ruleProp(s, recv, c)}}
	}
	if c.Method.Name() == "Error" || c.Method.Name() == "String" {
		return []Out{{s, x.havocResult(s, c.Signature())}}
	}
	x.bad(in, "call of %s on an unknown value", c.Method.Name())
	return []Out{{s, x.havocResult(s, c.Signature())}}
}

// ruleProp: a property of a rule is the same each time it is asked for
func (x *Exec) ruleProp(s *State, recv Val, c *ssa.CallCommon) Val {
	t := resultType(c.Signature())
	if t == nil {
		return nil
	}
	o, ok := recv.(VOpq)
	if !ok || len(c.Args) > 0 {
		return x.sym(s, t, "")
	}
	if internRev[o.id] != "" {
		return x.sym(s, t, o.key+"."+c.Method.Name()+"()")
	}
	switch {
	case isString(t):
		return VStr{id: internOrFresh(o.id, "."+c.Method.Name()), key: o.key + "." + c.Method.Name()}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return &VBool{op: 'a', id: internOrFresh(o.id, "."+c.Method.Name()), key: o.key + "." + c.Method.Name()}
	}
	return x.sym(s, t, "")
}

func (x *Exec) builtin(s *State, in ssa.CallInstruction, c *ssa.CallCommon, b *ssa.Builtin, args []Val) []Out {
	one := func(v Val) []Out { return []Out{{s, v}} }
	switch b.Name() {
	case "len":
		return one(VInt{x.lenOf(s, args[0])})
	case "cap":
		n := freshSym()
		s.assumeLe(x.lenOf(s, args[0]), S(n))
		return one(VInt{S(n)})
	case "min", "max":
		v := args[0]
		for _, w := range args[1:] {
			a, ok1 := v.(VInt)
			d, ok2 := w.(VInt)
			if !ok1 || !ok2 {
				return one(x.sym(s, resultType(c.Signature()), ""))
			}
			switch {
			case s.le(a.l, d.l):
				if b.Name() == "max" {
					v = d
				}
			case s.le(d.l, a.l):
				if b.Name() == "min" {
					v = d
				}
			default:
				n := S(freshSym())
				if b.Name() == "max" {
					s.assumeLe(a.l, n)
					s.assumeLe(d.l, n)
				} else {
					s.assumeLe(n, a.l)
					s.assumeLe(n, d.l)
				}
				v = VInt{n}
			}
		}
		return one(v)
	case "append":
		return x.append(s, in, c, args)
	case "copy":
		return x.copyTo(s, in, args)
	case "delete":
		if x.names && x.deleteName(s, args[0], args[1]) {
			return one(nil)
		}
		if !x.deletes {
			x.bad(in, "delete is not modelled")
		}
		return one(nil)
	case "print", "println":
		return one(nil)
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	x.bad(in, "builtin %s is not modelled", b.Name())
	return one(x.havocResult(s, c.Signature()))
}

func (x *Exec) lenOf(s *State, v Val) Lin {
	if x.lenFn != nil {
		if n, ok := x.lenFn(s, v); ok {
			return n
		}
	}
	switch v := v.(type) {
	case VRope:
		for _, p := range v.p {
			if p.tape == textKey || p.tape == gapTape { // counted by nodes, not by chars
				n := freshSym()
				s.d.addDiff(0, n, 0)
				return S(n)
			}
		}
		return v.length()
	case VList:
		for _, p := range v.p {
			if p.kind == 'w' && p.key == spanKey { // how many nodes that are is not known
				n := freshSym()
				s.d.addDiff(0, n, 0)
				if x.spanFn == nil && s.lt(K(0), v.length()) {
					s.assumeLt(K(0), S(n))
				}
				s.assumeLe(S(n), v.length())
				return S(n)
			}
		}
		return v.length()
	case VStr:
		return x.strLen(s, v)
	case VNil:
		return K(0)
	case VPtr:
		if o := s.heap[v.obj]; o != nil {
			if o.m != nil {
				return o.m.n
			}
			return K(int64(len(o.f)))
		}
	case VOpq:
		key := v.key
		if key != "" && v.idx == nil && internRev[v.id] != "" {
			n := globalSym(key + "#len")
			s.d.addDiff(0, n, 0)
			return S(n)
		}
	}
	n := freshSym()
	s.d.addDiff(0, n, 0)
	return S(n)
}

func (x *Exec) append(s *State, in ssa.CallInstruction, c *ssa.CallCommon, args []Val) []Out {
	st := c.Args[0].Type().Underlying().(*types.Slice)
	dst := args[0]
	var src Val
	if len(args) > 1 {
		src = args[1]
	}
	if x.h.appended != nil {
		x.h.appended(x, s, in, dst, src)
	}
	if isRuneSlice(c.Args[0].Type()) {
		a, ok1 := dst.(VRope)
		b, ok2 := src.(VRope)
		if src == nil {
			return []Out{{s, dst}}
		}
		if !ok2 {
			n := freshSym()
			s.d.addDiff(0, n, 0)
			b = s.unknownRope(S(n))
		}
		if !ok1 {
			n := freshSym()
			s.d.addDiff(0, n, 0)
			a = s.unknownRope(S(n))
		}
		if s.eq(b.length(), K(0)) {
			return []Out{{s, a}}
		}
		r := VRope{p: append(append([]piece(nil), a.p...), x.pieces(s, in, b).p...)}
		r = s.normRope(r)
		if x.gap {
			r = gapRope(s, r)
		}
		// single chars are kept in small numbers
		if len(r.p) > maxPieces {
			x.note(in, "text of too many pieces")
			r = s.unknownRope(r.length())
		}
		return []Out{{s, r}}
	}
	a, ok1 := dst.(VList)
	b, ok2 := src.(VList)
	if src == nil {
		return []Out{{s, dst}}
	}
	if _, ok := src.(VStr); ok { // append([]byte, string...)
		return []Out{{s, x.sym(s, c.Args[0].Type(), "")}}
	}
	if !ok1 || !ok2 {
		x.note(in, "append of %s to %s", s.show(src), s.show(dst))
		return []Out{{s, x.sym(s, c.Args[0].Type(), "")}}
	}
	if isString(st.Elem()) && !x.names {
		n := a.length().add(b.length())
		return []Out{{s, VList{p: []part{{kind: 's', v: VTop{st.Elem()}, lo: K(0), hi: n, id: freshID()}}}}}
	}
	return []Out{{s, x.appendList(s, in, a, b, st.Elem())}}
}

// copyTo models copy into text made in place, which is known under its own tape
func (x *Exec) copyTo(s *State, in ssa.CallInstruction, args []Val) []Out {
	dst, ok1 := args[0].(VRope)
	src, ok2 := args[1].(VRope)
	if !ok1 || !ok2 {
		x.bad(in, "copy is not modelled here")
		return []Out{{s, VInt{S(freshSym())}}}
	}
	dst, src = s.normRope(dst), s.normRope(src)
	n := src.length()
	switch {
	case s.le(n, dst.length()):
	case s.le(dst.length(), n):
		n = dst.length()
		src, _ = s.sliceRope(src, K(0), n)
	default:
		x.bad(in, "copy of %s to %s", s.show(src), s.show(dst))
		return []Out{{s, VInt{S(freshSym())}}}
	}
	if s.eq(n, K(0)) {
		return []Out{{s, VInt{K(0)}}}
	}
	d, _ := s.sliceRope(dst, K(0), n)
	if len(d.p) == 1 && isBuffer(d.p[0].tape) {
		x.splice(s, in, d.p[0].tape, d.p[0].lo, d.p[0].hi, src)
		return []Out{{s, VInt{n}}}
	}
	x.bad(in, "copy of %s to %s", s.show(src), s.show(dst))
	return []Out{{s, VInt{n}}}
}

func isBuffer(tape string) bool { return len(tape) > 1 && tape[0] == '?' }

// splice puts text into a buffer wherever the buffer is seen
func (x *Exec) splice(s *State, in ssa.Instruction, tape string, lo, hi Lin, src VRope) {
	fix := func(v Val) Val {
		r, ok := v.(VRope)
		if !ok {
			return v
		}
		hit := false
		for _, p := range r.p {
			hit = hit || p.tape == tape
		}
		if !hit {
			return v
		}
		out := VRope{}
		for _, p := range r.p {
			if p.tape != tape || s.le(p.hi, lo) || s.le(hi, p.lo) {
				out.p = append(out.p, p)
				continue
			}
			a, b := K(0), src.length()
			l, h := lo, hi
			if s.le(p.lo, lo) {
				out.p = append(out.p, piece{tape: tape, lo: p.lo, hi: lo})
			} else if s.le(lo, p.lo) {
				a = p.lo.sub(lo)
				l = p.lo
			} else {
				x.bad(in, "copy into an overlapping buffer")
				return s.unknownRope(r.length())
			}
			tail := piece{}
			if s.le(hi, p.hi) {
				tail = piece{tape: tape, lo: hi, hi: p.hi}
			} else if s.le(p.hi, hi) {
				b = b.sub(hi.sub(p.hi))
				h = p.hi
			} else {
				x.bad(in, "copy into an overlapping buffer")
				return s.unknownRope(r.length())
			}
			_, _ = l, h
			m, _ := s.sliceRope(src, a, b)
			out.p = append(out.p, m.p...)
			if tail.tape != "" {
				out.p = append(out.p, tail)
			}
		}
		return s.normRope(out)
	}
	x.everyVal(s, fix)
}

// everyVal applies f to every value held in the state (not inside lists and structs of lists)
func (x *Exec) everyVal(s *State, f func(Val) Val) {
	var deep func(v Val) Val
	deep = func(v Val) Val {
		switch v := v.(type) {
		case VStruct:
			r := VStruct{}
			for _, e := range v.f {
				r.f = append(r.f, deep(e))
			}
			return r
		case VTuple:
			r := VTuple{}
			for _, e := range v.v {
				r.v = append(r.v, deep(e))
			}
			return r
		case VElemPtr:
			return VElemPtr{deep(v.seq), v.idx}
		case VStr:
			return v // text made from chars keeps what they were
		}
		return f(v)
	}
	for _, fr := range s.frames {
		for k, v := range fr.regs {
			fr.regs[k] = deep(v)
		}
	}
	for id, o := range s.heap {
		for i, v := range o.f {
			if v == nil {
				continue
			}
			n := deep(v)
			if !sameVal(n, v) || isStructVal(v) {
				s.wobj(id).f[i] = n
			}
		}
	}
	for k, v := range s.ghost {
		s.ghost[k] = deep(v)
	}
}

func isStructVal(v Val) bool { _, ok := v.(VStruct); return ok }

// storeElem: a store through a slice is seen by every holder
func (x *Exec) storeElem(s *State, in ssa.Instruction, ep VElemPtr, v Val) {
	if r, ok := ep.seq.(VRope); ok {
		if i, ok := v.(VInt); ok {
			d, ok := s.sliceRope(r, ep.idx, ep.idx.addc(1))
			if ok && len(d.p) == 1 && isBuffer(d.p[0].tape) {
				x.splice(s, in, d.p[0].tape, d.p[0].lo, d.p[0].hi, x.ropeOfChar(s, i.l))
				return
			}
		}
	}
	if x.h.elemStore != nil && x.h.elemStore(x, s, in, ep, v) {
		return
	}
	if l, ok := ep.seq.(VList); ok && len(l.p) == 1 && l.p[0].kind == 's' {
		// a list made in place: every element is covered by the summary
		id := l.p[0].id
		var el types.Type
		if pt, ok := in.(*ssa.Store).Addr.Type().Underlying().(*types.Pointer); ok {
			el = pt.Elem()
		}
		nv := s.fold(l.p[0].v, v, el)
		x.mark(s, v)
		x.everyVal(s, func(w Val) Val {
			m, ok := w.(VList)
			if !ok {
				return w
			}
			r := VList{isNil: m.isNil}
			for _, p := range m.p {
				if p.kind == 's' && p.id == id {
					p.v = nv
				}
				r.p = append(r.p, p)
			}
			return r
		})
		return
	}
	x.bad(in, "store through a slice element of %s", s.show(ep.seq))
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// justReads: a function without branches and calls, but for one to another such function
func justReads(fn *ssa.Function) bool {
	if len(fn.Blocks) != 1 {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		if c, ok := in.(ssa.CallInstruction); ok {
			f := c.Common().StaticCallee()
			if f == nil || f == fn || f.Blocks == nil || fn.Synthetic == "" || !justReads(f) {
				return false
			}
		}
	}
	return true
}

// maxPieces: a text of more pieces than this is not known any more
var maxPieces = 4

// textResult is what is known about a position in a text, or the parts of it
func (x *Exec) textResult(s *State, name string, args []Val, v Val) {
	if len(args) == 0 {
		return
	}
	t, ok := args[0].(VStr)
	if !ok {
		return
	}
	sep := -1
	if len(args) > 1 {
		if c, ok := args[1].(VStr); ok && c.cst != nil {
			sep = len(*c.cst)
		}
	}
	switch v := v.(type) {
	case VInt:
		if !strings.HasPrefix(name, "Index") && !strings.HasPrefix(name, "LastIndex") {
			return
		}
		s.assumeLe(K(-1), v.l)
		off := 1
		if name == "Index" || name == "LastIndex" {
			off = 0
			if sep > 0 {
				off = sep
			}
		}
		if off == 1 { // not found, or a position in the text
			s.assumeLe(v.l.addc(1), x.strLen(s, t))
		} else {
			s.assumeLe(v.l, x.strLen(s, t))
		}
	case VList:
		if name == "Split" && sep > 0 {
			s.assumeLe(K(1), v.length())
		}
	}
}
