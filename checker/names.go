package main

// Names followed through maps and lists: an arbitrary name W ("name:...") stands for every name. What a map has under it,
// and where a list holds it, is kept exactly; all other names are other names.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const namePrefix = "name:"     // names that are followed
const kindPrefix = "names of " // other names, by the map they are a key of
const mixed = "followed or "   // the name that is followed, or a name of a kind

func isName(v Val) bool {
	s, ok := v.(VStr)
	return ok && s.cst == nil && strings.HasPrefix(s.key, namePrefix)
}

func isNameKind(key string) bool { return strings.HasPrefix(key, kindPrefix) }

// foldNames is the key of a name that is one of two
func foldNames(a, b VStr) string {
	if a.cst != nil || b.cst != nil {
		return ""
	}
	if a.key == b.key && !isName(a) {
		return a.key
	}
	m := ""
	strip := func(v VStr) string {
		if isName(v) {
			m = mixed
			return "?"
		}
		if strings.HasPrefix(v.key, mixed) {
			m = mixed
			return v.key[len(mixed):]
		}
		return v.key
	}
	k1, k2 := strip(a), strip(b)
	if k1 == "?" {
		k1 = k2
	}
	if k2 == "?" {
		k2 = k1
	}
	if k1 != k2 || k1 != "?" && !isNameKind(k1) {
		k1 = ""
	}
	return m + k1
}

func followed(n string) VStr { return VStr{id: internID(namePrefix + n), key: namePrefix + n} }

// sumKey notes what kind of name is stored under a key that is not followed
func (m *mapInfo) sumKey(k Val) {
	kind := ""
	if s, ok := k.(VStr); ok && isNameKind(s.key) {
		kind = s.key
	}
	if m.sum == nil {
		m.from = kind
	} else if m.from != kind {
		m.from = ""
	}
}

func seenFlag(in *ssa.Range, k Val) string {
	return "seen " + in.Parent().String() + "." + in.Name() + " " + k.(VStr).key
}

func (s *State) startNames(in *ssa.Range) {
	p := "seen " + in.Parent().String() + "." + in.Name() + " "
	for f := range s.flags {
		if strings.HasPrefix(f, p) {
			delete(s.flags, f)
		}
	}
}

// nextName: a range over a map comes to every name that is followed exactly once
func (x *Exec) nextName(s *State, in *ssa.Next, m *mapInfo) []*State {
	tt := in.Type().(*types.Tuple)
	rng, ok := in.Iter.(*ssa.Range)
	if !ok {
		x.bad(in, "iteration of unknown origin")
		return nil
	}
	var out []*State
	all := true
	for i := range m.keys {
		f := seenFlag(rng, m.keys[i])
		if s.flags[f] {
			continue
		}
		all = false
		u := s.clone()
		u.flags[f] = true
		u.top().regs[in] = VTuple{[]Val{bT, m.keys[i], m.vals[i]}}
		out = append(out, u)
	}
	if m.sum != nil {
		u := s.clone()
		k := Val(VStr{id: freshID(), key: m.from})
		if b, ok := tt.At(1).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			k = VNil{}
		}
		u.top().regs[in] = VTuple{[]Val{bT, k, u.another(m.sum)}}
		out = append(out, u)
	}
	if all {
		s.startNames(rng)
		s.top().regs[in] = VTuple{[]Val{bF, x.symOrNil(s, tt.At(1).Type()), x.symOrNil(s, tt.At(2).Type())}}
		out = append(out, s)
	}
	return out
}

func (x *Exec) lookupName(s *State, o *Obj, k Val, vt types.Type, put func(*State, Val, *VBool)) []*State {
	m := o.m
	for i := range m.keys {
		if eq, known := x.sameKey(s, m.keys[i], k); known && eq {
			put(s, m.vals[i], bT)
			return []*State{s}
		}
	}
	ks, _ := k.(VStr)
	own := m.from != "" && ks.key == m.from && m.from == kindPrefix+o.tag // taken from its own keys
	var out []*State
	if m.sum != nil && !isName(k) {
		h := s
		if !own {
			h = s.clone()
		}
		put(h, h.another(m.sum), bT)
		out = append(out, h)
		if own {
			return out
		}
	}
	if ks.key == kindPrefix+"users" { // which may be K
		if v, in, known := x.held(s, VPtr{obj: x.objID(s, o)}, followed("K")); known && in {
			h := s.clone()
			put(h, v, bT)
			out = append(out, h)
		}
	}
	if o.tag == "rules" && ks.key != "" {
		s.flags["no "+ks.key+" in "+o.tag] = true
	}
	put(s, x.zero(vt), bF)
	return append(out, s)
}

func (x *Exec) deleteName(s *State, m, k Val) bool {
	if _, ok := m.(VNil); ok {
		return true
	}
	p, ok := m.(VPtr)
	if !ok || s.heap[p.obj] == nil || s.heap[p.obj].m == nil {
		return false
	}
	w := s.wobj(p.obj).m
	for i := range w.keys {
		if eq, known := x.sameKey(s, w.keys[i], k); known && eq {
			w.keys = append(w.keys[:i], w.keys[i+1:]...)
			w.vals = append(w.vals[:i], w.vals[i+1:]...)
			break
		}
	}
	n := freshSym()
	s.assumeLe(K(int64(len(w.keys))), S(n))
	s.assumeLe(S(n), w.n)
	w.n = S(n)
	w.last = nil
	return true
}

// permuteNames: the names of a list are put into another order
func (x *Exec) permuteNames(s *State, in ssa.CallInstruction, v Val) []Out {
	l, ok := x.resolve(s, v).(VList)
	if !ok || len(l.p) == 0 {
		return []Out{{s, nil}}
	}
	var names []part
	var others part
	rest := K(0)
	for _, p := range l.p {
		if x.isWitness(s, p) {
			names = append(names, p)
			continue
		}
		rest = rest.add(p.length())
		v := p.v
		if p.kind == 'w' {
			v = VTop{types.Typ[types.String]}
		}
		if others.v == nil {
			others.v = v
		} else {
			others.v = s.fold(others.v, v, types.Typ[types.String])
		}
	}
	if len(names) == 0 {
		x.permute(s, v)
		return []Out{{s, nil}}
	}
	if len(names) > 1 {
		x.bad(in, "a list with more than one name that is followed")
		return []Out{{s, nil}}
	}
	if others.v == nil {
		others.v = VTop{types.Typ[types.String]}
	}
	if len(rest.t) > 1 {
		rest = S(freshSym())
		for _, p := range l.p {
			if !x.isWitness(s, p) {
				s.assumeLe(p.length(), rest)
			}
		}
	}
	c := freshSym()
	s.d.addDiff(0, c, 0)
	s.assumeLe(S(c), rest)
	replaceList(s, l, VList{p: []part{
		{kind: 's', id: freshID(), v: others.v, lo: K(0), hi: S(c)}, names[0],
		{kind: 's', id: freshID(), v: others.v, lo: K(0), hi: rest.sub(S(c))}}})
	return []Out{{s, nil}}
}

// replaceList puts another list wherever a list is held
func replaceList(s *State, l, n VList) {
	same := func(o Val) bool {
		m, ok := o.(VList)
		if !ok || len(m.p) != len(l.p) {
			return false
		}
		for i, p := range m.p {
			q := l.p[i]
			if p.kind != q.kind || p.id != q.id || p.key != q.key || !s.eq(p.length(), q.length()) {
				return false
			}
			if p.kind == 'e' && p.v.(VStr).key != q.v.(VStr).key {
				return false
			}
		}
		return true
	}
	for _, f := range s.frames {
		for k, o := range f.regs {
			if same(o) {
				f.regs[k] = n
			}
		}
	}
	for id, o := range s.heap {
		for i, w := range o.f {
			if same(w) {
				s.wobj(id).f[i] = n
			}
		}
		if o.m != nil {
			for i, w := range o.m.vals {
				if same(w) {
					s.wobj(id).m.vals[i] = n
				}
			}
		}
	}
}

// manyNames is a list of n names that are not followed
func manyNames(s *State, kind string) part {
	n := freshSym()
	s.d.addDiff(0, n, 0)
	return part{kind: 's', id: freshID(), v: VStr{id: freshID(), key: kind}, lo: K(0), hi: S(n)}
}

// nameElem: an element of a list with names of any kind is one that is followed, or another one
func nameElem(x *Exec, s *State, in ssa.Instruction, seq Val, idx Lin, v Val) []Out {
	n, ok := v.(VStr)
	if !ok || !strings.HasPrefix(n.key, mixed) {
		return nil
	}
	n.key = n.key[len(mixed):]
	if n.key == "?" {
		return []Out{{s, followed("W")}}
	}
	return []Out{{s.clone(), followed("W")}, {s, n}}
}

func (x *Exec) objID(s *State, o *Obj) int {
	for id, h := range s.heap {
		if h == o {
			return id
		}
	}
	return -1
}

// oneName: a list keeps the place of one name only, K rather than W
func (x *Exec) oneName(s *State, l VList) VList {
	keep := -1
	n := 0
	for i, p := range l.p {
		if p.kind == 'e' && isName(p.v) {
			n++
			if keep < 0 || p.v.(VStr).key == namePrefix+"K" && l.p[keep].v.(VStr).key != namePrefix+"K" {
				keep = i
			}
		}
	}
	if n < 2 {
		return l
	}
	out := VList{}
	for i, p := range l.p {
		if p.kind == 'e' && isName(p.v) && i != keep {
			kind := mixed + "?"
			if p.v.(VStr).key == namePrefix+"K" {
				kind = kindPrefix + "users"
			}
			p = part{kind: 's', id: freshID(), v: VStr{id: freshID(), key: kind}, lo: K(0), hi: K(1)}
		}
		out.p = append(out.p, p)
	}
	return out
}

// newMap makes a map object with the names that are followed and others
func (x *Exec) newMap(s *State, t types.Type, tag string, keys []VStr, vals []Val, others Val) VPtr {
	m := &mapInfo{}
	for i := range keys {
		m.keys = append(m.keys, keys[i])
		m.vals = append(m.vals, vals[i])
	}
	n := freshSym()
	s.assumeLe(K(int64(len(keys))), S(n))
	m.n = S(n)
	m.sum = others
	m.from = kindPrefix + tag
	return VPtr{obj: s.alloc(&Obj{typ: t, tag: tag, m: m})}
}

// held returns what a map has under a name
func (x *Exec) held(s *State, m Val, n Val) (v Val, in, known bool) {
	if _, ok := m.(VNil); ok {
		return nil, false, true
	}
	p, ok := x.resolve(s, m).(VPtr)
	if !ok || s.heap[p.obj] == nil || s.heap[p.obj].m == nil {
		return nil, false, false
	}
	o := s.heap[p.obj].m
	for i := range o.keys {
		eq, k := x.sameKey(s, o.keys[i], n)
		if k && eq {
			return o.vals[i], true, true
		}
		if !k {
			return nil, false, false
		}
	}
	return nil, false, true
}

func showParts(s *State, l VList) string { return fmt.Sprint(s.show(l)) }

// another is what a map has under one of the names that are not followed
func (s *State) another(v Val) Val {
	l, ok := v.(VList)
	if !ok {
		return s.expand(v)
	}
	r := VList{}
	for _, p := range l.p {
		if p.kind == 's' {
			n := freshSym()
			s.d.addDiff(0, n, 0)
			if s.le(K(1), p.length()) {
				s.assumeLe(K(1), S(n))
			}
			p.id, p.lo, p.hi = freshID(), K(0), S(n)
		}
		r.p = append(r.p, p)
	}
	return r
}
