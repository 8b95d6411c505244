package main

// Abstract values and abstract states.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type (
	// VInt is an integer or rune
	VInt struct{ l Lin }

	// VNil is a nil pointer, interface, map, func
	VNil struct{}

	// VPtr points to a heap object, or into one along a path of field indices
	VPtr struct {
		obj  int
		path string // "" or ".3.1"
	}

	// VOpq is an opaque value: nothing is known but its identity, possibly whether it is nil
	VOpq struct {
		id  int
		key string // where it comes from; "" if nothing is known
		idx *Lin   // index, for an element of an indexed source
		typ types.Type
	}

	// VRope is a []rune: a sequence of pieces
	VRope struct {
		p     []piece
		isNil bool // known to be nil (then p is empty)
	}

	// VList is a slice of anything but runes
	VList struct {
		p     []part
		isNil bool
	}

	// VStr is a string
	VStr struct {
		cst   *string
		id    int // identity of an opaque string
		key   string
		idx   *Lin
		runes *VRope // string(runes), if known
	}

	VStruct struct {
		f []Val
	}

	VTuple struct{ v []Val }

	VFunc struct {
		fn   *ssa.Function
		bind []Val
	}

	// VTop is an unknown value of a type
	VTop struct{ typ types.Type }

	// VElemPtr is the address of an element of a slice value
	VElemPtr struct {
		seq Val // VRope, VList
		idx Lin
	}
	// VIter iterates a map (or string)
	VIter struct {
		src Val
		id  int
		str bool
	}
)

// piece of a rope
type piece struct {
	tape   string // "" for a single char, "?" for unknown content
	lo, hi Lin    // window on the tape; for "?" hi is the length
	ch     Lin    // single char value
}

// part of a list
type part struct {
	kind byte // 'e' one element, 'w' window on an indexed source, 's' summary
	v    Val  // e: element, s: what every element looks like
	key  string
	lo   Lin // w: window; s: hi is the length
	hi   Lin
	id   int // s: identity of the sequence
	cnt  Lin // groups of rules: how many groups there are; lo and hi are rules
}

func (p piece) length() Lin {
	switch p.tape {
	case "":
		return K(1)
	}
	return p.hi.sub(p.lo)
}

func (p part) length() Lin {
	if p.kind == 'e' {
		return K(1)
	}
	if p.key == groupKey {
		return p.cnt
	}
	return p.hi.sub(p.lo)
}

func (r VRope) length() Lin {
	n := K(0)
	for _, p := range r.p {
		n = n.add(p.length())
	}
	return n
}

func (r VList) length() Lin {
	n := K(0)
	for _, p := range r.p {
		n = n.add(p.length())
	}
	return n
}

// booleans
type VBool struct {
	op   byte // 'T','F', 'a' atom, 'p' predicate, '<' l<=0, '=' l==0, 'n' nil test, '!' not, '^' xor, '&','|'
	id   int
	key  string
	l    Lin
	v    Val
	x, y *VBool
}

var bT = &VBool{op: 'T'}
var bF = &VBool{op: 'F'}

func mkBool(b bool) *VBool {
	if b {
		return bT
	}
	return bF
}

func bNot(b *VBool) *VBool {
	switch b.op {
	case 'T':
		return bF
	case 'F':
		return bT
	case '!':
		return b.x
	}
	return &VBool{op: '!', x: b}
}

func bXor(a, b *VBool) *VBool {
	if a.op == 'T' {
		return bNot(b)
	}
	if a.op == 'F' {
		return b
	}
	if b.op == 'T' {
		return bNot(a)
	}
	if b.op == 'F' {
		return a
	}
	return &VBool{op: '^', x: a, y: b}
}

var nextID = 1

func freshID() int { nextID++; return nextID }

var internIDs = map[string]int{}

// internID gives the identity of a value that is determined by a key alone
func internID(key string) int {
	if id, ok := internIDs[key]; ok {
		return id
	}
	nextID++
	internIDs[key] = nextID
	internRev[nextID] = key
	return nextID
}

var internRev = map[int]string{}

// Obj is a heap object
type Obj struct {
	typ     types.Type
	f       []Val // one per field (or 1 for a cell); nil entry: initial symbolic content
	symKey  string
	symIdx  *Lin
	symb    bool // content not in f is symbolic (else it is the zero value, stored explicitly)
	summary bool // stands for any number of objects
	tag     string
	m       *mapInfo
}

type mapInfo struct {
	keys []Val
	vals []Val
	sum  Val // other entries, nil if there are none
	n    Lin // number of entries
	last *VStr
	from string // what kind of names the other entries have, if it is one kind
	symb bool
}

func (o *Obj) clone() *Obj {
	c := *o
	c.f = append([]Val(nil), o.f...)
	if o.m != nil {
		m := *o.m
		m.keys = append([]Val(nil), o.m.keys...)
		m.vals = append([]Val(nil), o.m.vals...)
		c.m = &m
	}
	return &c
}

type charMemo struct {
	tape string
	pos  Lin
	v    Sym
}

type predFact struct {
	key string
	arg Lin
	val bool
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []*ssa.Defer
	// after is the set of registers live after the pending call
	callSite ssa.Instruction
}

// State is an abstract state: a set of concrete states
type State struct {
	d      *DBM
	neq    []Lin // != 0
	heap   map[int]*Obj
	own    map[int]bool // objects this state may write in place
	mat    map[int]int  // opaque id -> object standing for what it points to
	truth  map[int]bool // atoms known
	nilf   map[int]bool // opaque values known nil (true) or not nil (false)
	chars  []charMemo
	preds  []predFact
	eqs    []eqFact
	whites []span // stretches of the text that are all white space
	frames []*Frame
	ghost  map[string]Val
	flags  map[string]bool
	trace  []string
}

// span is a stretch of the text
type span struct{ lo, hi Lin }

// eqFact: the n chars at tape a from i equal the n chars at tape b from j
type eqFact struct {
	ta, tb string
	i, j   Lin
	n      Lin
}

func newState() *State {
	return &State{d: newDBM(), heap: map[int]*Obj{}, own: map[int]bool{}, mat: map[int]int{}, truth: map[int]bool{}, nilf: map[int]bool{}, ghost: map[string]Val{}, flags: map[string]bool{}}
}

func (s *State) clone() *State {
	c := &State{d: s.d.clone()}
	c.neq = append([]Lin(nil), s.neq...)
	c.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		c.heap[k] = v
	}
	s.own = map[int]bool{}
	c.own = map[int]bool{}
	c.mat = make(map[int]int, len(s.mat))
	for k, v := range s.mat {
		c.mat[k] = v
	}
	c.truth = make(map[int]bool, len(s.truth))
	for k, v := range s.truth {
		c.truth[k] = v
	}
	c.nilf = make(map[int]bool, len(s.nilf))
	for k, v := range s.nilf {
		c.nilf[k] = v
	}
	c.chars = append([]charMemo(nil), s.chars...)
	c.preds = append([]predFact(nil), s.preds...)
	c.eqs = append([]eqFact(nil), s.eqs...)
	c.whites = append([]span(nil), s.whites...)
	c.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		nf := &Frame{fn: f.fn, regs: make(map[ssa.Value]Val, len(f.regs)), defers: append([]*ssa.Defer(nil), f.defers...), callSite: f.callSite}
		for k, v := range f.regs {
			nf.regs[k] = v
		}
		c.frames[i] = nf
	}
	c.ghost = make(map[string]Val, len(s.ghost))
	for k, v := range s.ghost {
		c.ghost[k] = v
	}
	c.flags = make(map[string]bool, len(s.flags))
	for k, v := range s.flags {
		c.flags[k] = v
	}
	c.trace = append([]string(nil), s.trace...)
	return c
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) bot() bool { return s.d.bot }

// wobj returns an object for writing
func (s *State) wobj(id int) *Obj {
	o := s.heap[id]
	if !s.own[id] {
		o = o.clone()
		s.heap[id] = o
		s.own[id] = true
	}
	return o
}

func (s *State) alloc(o *Obj) int {
	id := freshID()
	s.heap[id] = o
	s.own[id] = true
	return id
}

// numeric helpers

func (s *State) le(a, b Lin) bool { return s.d.upper(a.sub(b)) <= 0 } // provably a <= b
func (s *State) lt(a, b Lin) bool { return s.d.upper(a.sub(b)) <= -1 }
func (s *State) eq(a, b Lin) bool {
	if a.eq(b) {
		return true
	}
	d := a.sub(b)
	if d.isConst() {
		return d.c == 0
	}
	return s.d.upper(d) <= 0 && s.d.upper(d.neg()) <= 0
}
func (s *State) ne(a, b Lin) bool {
	d := a.sub(b)
	if d.isConst() {
		return d.c != 0
	}
	if s.d.upper(d) < 0 || s.d.upper(d.neg()) < 0 {
		return true
	}
	for _, n := range s.neq {
		if s.eq(n, d) || s.eq(n, d.neg()) {
			return true
		}
	}
	return false
}

func (s *State) assumeLe(a, b Lin) { s.d.assumeLe0(a.sub(b)); s.checkNeq() }
func (s *State) assumeLt(a, b Lin) { s.d.assumeLe0(a.sub(b).addc(1)); s.checkNeq() }
func (s *State) assumeEq(a, b Lin) {
	d := a.sub(b)
	s.d.assumeLe0(d)
	s.d.assumeLe0(d.neg())
	s.checkNeq()
}
func (s *State) assumeNe(a, b Lin) {
	d := a.sub(b)
	if d.isConst() {
		if d.c == 0 {
			s.d.bot = true
		}
		return
	}
	if s.eq(d, K(0)) {
		s.d.bot = true
		return
	}
	for _, n := range s.neq {
		if n.eq(d) || n.eq(d.neg()) {
			return
		}
	}
	s.neq = append(s.neq, d)
	s.checkNeq()
}

func (s *State) checkNeq() {
	for again := true; again && !s.d.bot; {
		again = false
		for _, n := range s.neq {
			u, l := s.d.upper(n), s.d.upper(n.neg())
			if u == 0 && l == 0 {
				s.d.bot = true
				return
			}
			if u == 0 {
				s.d.assumeLe0(n.addc(1))
				again = !s.d.bot && s.d.upper(n) < 0
			} else if l == 0 {
				s.d.assumeLe0(n.neg().addc(1))
				again = !s.d.bot && s.d.upper(n.neg()) < 0
			}
			if s.d.bot {
				return
			}
		}
	}
}

// constant value of a if it has only one
func (s *State) constOf(a Lin) (int64, bool) {
	if a.isConst() {
		return a.c, true
	}
	u, l := s.d.upper(a), s.d.upper(a.neg())
	if u != inf && l != inf && u == -l {
		return u, true
	}
	return 0, false
}

// rope helpers

func (s *State) normRope(r VRope) VRope {
	var out []piece
	for _, p := range r.p {
		if p.tape != "" && s.eq(p.length(), K(0)) {
			continue
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			if p.tape != "" && p.tape != "?" && q.tape == p.tape && s.eq(q.hi, p.lo) {
				out[n-1].hi = p.hi
				continue
			}
			if p.tape == "?" && q.tape == "?" {
				out[n-1].hi = q.hi.add(p.hi)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return VRope{isNil: r.isNil}
	}
	for i := range out {
		if out[i].tape == "?" && len(out[i].length().t) > 2 {
			out[i] = s.unknownRope(out[i].length()).p[0]
		}
	}
	return VRope{p: out}
}

// sliceRope returns r[i:j]; ok is false if the cut could not be located
func (s *State) sliceRope(r VRope, i, j Lin) (VRope, bool) {
	r = s.normRope(r)
	// drop i chars from the front
	cut := func(ps []piece, n Lin) (a, b []piece, ok bool) {
		off := K(0)
		for k := 0; k <= len(ps); k++ {
			if s.eq(n, off) {
				return ps[:k:k], ps[k:], true
			}
			if k == len(ps) {
				break
			}
			p := ps[k]
			end := off.add(p.length())
			if s.le(off, n) && s.le(n, end) && p.tape != "" {
				x, y := p, p
				if p.tape == "?" {
					x.hi = n.sub(off)
					y.hi = end.sub(n)
				} else {
					m := p.lo.add(n.sub(off))
					x.hi, y.lo = m, m
				}
				return append(ps[:k:k], x), append([]piece{y}, ps[k+1:]...), true
			}
			off = end
		}
		return nil, nil, false
	}
	a, _, ok := cut(r.p, j)
	if !ok {
		if s.eq(j, r.length()) {
			a = r.p
		} else {
			return s.unknownRope(j.sub(i)), false
		}
	}
	_, b, ok := cut(a, i)
	if !ok {
		return s.unknownRope(j.sub(i)), false
	}
	return s.normRope(VRope{p: b}), true
}

func (s *State) unknownRope(n Lin) VRope {
	if len(n.t) > 2 { // a length is not worth many terms
		m := S(freshSym())
		s.assumeLe(K(0), m)
		for _, y := range []Lin{K(0), S(symE)} {
			if u := s.d.upper(n.sub(y)); u != inf && len(y.t) > 0 {
				s.assumeLe(m, y.addc(u))
			}
			if u := s.d.upper(y.sub(n)); u != inf {
				s.assumeLe(y.addc(-u), m)
			}
		}
		n = m
	}
	return VRope{p: []piece{{tape: "?", lo: K(0), hi: n}}}
}

// charAt returns the char at a position of a tape
func (s *State) charAt(tape string, pos Lin) Lin {
	for _, c := range s.chars {
		if c.tape == tape && s.eq(c.pos, pos) {
			return S(c.v)
		}
	}
	// known equal to a char of another tape?
	for _, e := range s.eqs {
		if e.ta == tape && s.le(e.i, pos) && s.lt(pos, e.i.add(e.n)) {
			q := e.j.add(pos.sub(e.i))
			for _, c := range s.chars {
				if c.tape == e.tb && s.eq(c.pos, q) {
					return S(c.v)
				}
			}
		}
		if e.tb == tape && s.le(e.j, pos) && s.lt(pos, e.j.add(e.n)) {
			q := e.i.add(pos.sub(e.j))
			for _, c := range s.chars {
				if c.tape == e.ta && s.eq(c.pos, q) {
					return S(c.v)
				}
			}
		}
	}
	v := freshSym()
	s.d.addDiff(0, v, 0)
	s.chars = append(s.chars, charMemo{tape, pos, v})
	return S(v)
}

// charOrigin finds a window that holds exactly the char v
func (s *State) charOrigin(v Lin) (piece, bool) {
	x, c, ok := v.single()
	if !ok || c != 0 || x == 0 {
		return piece{}, false
	}
	var at piece
	found := false
	for i := len(s.chars) - 1; i >= 0; i-- {
		m := s.chars[i]
		if m.v == x {
			if at, found = (piece{tape: m.tape, lo: m.pos, hi: m.pos.addc(1)}), true; !witnessPos(m.pos) {
				break
			}
		}
	}
	return at, found
}

func (s *State) indexRope(r VRope, i Lin) (Lin, bool) {
	r = s.normRope(r)
	off := K(0)
	for k, p := range r.p {
		end := off.add(p.length())
		if s.le(off, i) && (s.lt(i, end) || k == len(r.p)-1) {
			switch p.tape {
			case "":
				return p.ch, true
			case "?":
				v := freshSym()
				return S(v), true
			}
			return s.charAt(p.tape, p.lo.add(i.sub(off))), true
		}
		off = end
	}
	return S(freshSym()), false
}

func (s *State) predTruth(key string, arg Lin) (bool, bool) {
	if key == "white" && len(s.whites) > 0 {
		if p, ok := s.charOrigin(arg); ok && p.tape == "T" {
			for _, w := range s.whites {
				if s.le(w.lo, p.lo) && s.lt(p.lo, w.hi) {
					return true, true
				}
			}
		}
	}
	if key == "white" && s.lt(arg, K(0)) {
		return false, true // not a char
	}
	for _, p := range s.preds {
		if p.key == key && s.eq(p.arg, arg) {
			return p.val, true
		}
	}
	return false, false
}

// describing values, for reports

func (s *State) show(v Val) string {
	switch v := v.(type) {
	case nil:
		return "-"
	case VInt:
		return v.l.String()
	case VNil:
		return "nil"
	case VPtr:
		o := s.heap[v.obj]
		if o == nil {
			return fmt.Sprintf("&%d?", v.obj)
		}
		return fmt.Sprintf("&%d%s(%s%s)", v.obj, v.path, types.TypeString(o.typ, qual), o.tag)
	case VOpq:
		return showOpq(v.key, v.idx, v.id)
	case VRope:
		var b []string
		for _, p := range v.p {
			switch p.tape {
			case "":
				b = append(b, "char:"+p.ch.String())
			case "?":
				b = append(b, "unknown*"+p.hi.String())
			default:
				b = append(b, fmt.Sprintf("%s[%s..%s)", p.tape, p.lo, p.hi))
			}
		}
		return "<" + strings.Join(b, " ") + ">"
	case VList:
		var b []string
		for _, p := range v.p {
			switch p.kind {
			case 'e':
				b = append(b, s.show(p.v))
			case 'w':
				b = append(b, fmt.Sprintf("%s[%s..%s)", p.key, p.lo, p.hi))
			default:
				b = append(b, fmt.Sprintf("%s*%s", s.show(p.v), p.length()))
			}
		}
		return "[" + strings.Join(b, ", ") + "]"
	case VStr:
		if v.cst != nil {
			return fmt.Sprintf("%q", *v.cst)
		}
		return showOpq(v.key, v.idx, v.id)
	case *VBool:
		switch v.op {
		case 'T':
			return "true"
		case 'F':
			return "false"
		case 'a':
			return showOpq(v.key, nil, v.id)
		case 'p':
			return v.key + "(" + v.l.String() + ")"
		case '<':
			return "(" + v.l.String() + "<=0)"
		case '=':
			return "(" + v.l.String() + "==0)"
		case 'n':
			return "(" + s.show(v.v) + "==nil)"
		case '!':
			return "!" + s.show(v.x)
		default:
			return "(" + s.show(v.x) + string(v.op) + s.show(v.y) + ")"
		}
	case VTuple:
		var b []string
		for _, x := range v.v {
			b = append(b, s.show(x))
		}
		return "(" + strings.Join(b, ", ") + ")"
	case VStruct:
		return "struct"
	}
	return fmt.Sprintf("%T", v)
}

func showOpq(key string, idx *Lin, id int) string {
	if key == "" {
		key = fmt.Sprintf("v%d", id)
	}
	if idx != nil {
		key += "[" + idx.String() + "]"
	}
	return key
}

func qual(p *types.Package) string { return "" }

func (s *State) dump() string {
	var b strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&b, "frame %s\n", f.fn.Name())
		var ks []ssa.Value
		for k := range f.regs {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
		for _, k := range ks {
			fmt.Fprintf(&b, "  %s = %s\n", k.Name(), s.show(f.regs[k]))
		}
	}
	var ids []int
	for k := range s.heap {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.heap[id]
		fmt.Fprintf(&b, "  obj %d %s %s:", id, types.TypeString(o.typ, qual), o.tag)
		if o.summary {
			b.WriteString(" summary")
		}
		st, _ := o.typ.Underlying().(*types.Struct)
		for i, v := range o.f {
			if v == nil {
				continue
			}
			n := fmt.Sprint(i)
			if st != nil && i < st.NumFields() {
				n = st.Field(i).Name()
			}
			fmt.Fprintf(&b, " %s=%s", n, s.show(v))
		}
		if o.m != nil {
			for i := range o.m.keys {
				fmt.Fprintf(&b, " {%s:%s}", s.show(o.m.keys[i]), s.show(o.m.vals[i]))
			}
			if o.m.sum != nil {
				fmt.Fprintf(&b, " {%s:%s}", o.m.from, s.show(o.m.sum))
			}
		}
		b.WriteString("\n")
	}
	var gs []string
	for k := range s.flags {
		if s.flags[k] {
			fmt.Fprintf(&b, "  flag %s\n", k)
		}
	}
	for k := range s.ghost {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	for _, k := range gs {
		fmt.Fprintf(&b, "  ghost %s = %s\n", k, s.show(s.ghost[k]))
	}
	fmt.Fprintf(&b, "  dbm %s\n", s.d)
	if len(s.neq) > 0 {
		fmt.Fprintf(&b, "  neq %v\n", s.neq)
	}
	for _, c := range s.chars {
		fmt.Fprintf(&b, "  char %s[%s] = %s\n", c.tape, c.pos, S(c.v))
	}
	for _, p := range s.preds {
		fmt.Fprintf(&b, "  %s(%s) = %v\n", p.key, p.arg, p.val)
	}
	for _, w := range s.whites {
		fmt.Fprintf(&b, "  white %s..%s\n", w.lo, w.hi)
	}
	return b.String()
}
