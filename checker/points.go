package main

// Points-to analysis (inclusion-based, field-sensitive, one abstract object per allocation site) of the whole
// repository. A slice points to the object of its backing array; cut says that the slice may end before data somebody
// else still holds in the same array.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loc struct {
	obj  int
	path string
	cut  bool
}

type cell struct {
	obj  int
	path string
}

type locset map[Loc]bool

type ptObj struct {
	id   int
	fn   *ssa.Function // where it is allocated, nil for objects the caller brings
	in   ssa.Value
	typ  types.Type
	ext  bool
	what string
}

type Points struct {
	p       *Program
	objs    []*ptObj
	site    map[ssa.Value]int
	extT    map[string]int
	extC    map[cell]int
	globals map[*ssa.Global]int
	fobj    map[*ssa.Function]int
	ofObj   map[int]*ssa.Function
	val     map[ssa.Value]locset
	tup     map[ssa.Value][]locset
	cells   map[cell]locset
	ret     map[*ssa.Function][]locset
	allocs  map[string][]int // by type
	changed bool
	callees map[ssa.CallInstruction]map[*ssa.Function]bool
}

func (p *Program) points() *Points {
	if p.pts != nil {
		return p.pts
	}
	t := &Points{p: p, site: map[ssa.Value]int{}, extT: map[string]int{}, extC: map[cell]int{}, globals: map[*ssa.Global]int{}, fobj: map[*ssa.Function]int{}, ofObj: map[int]*ssa.Function{},
		val: map[ssa.Value]locset{}, tup: map[ssa.Value][]locset{}, cells: map[cell]locset{}, ret: map[*ssa.Function][]locset{}, allocs: map[string][]int{}, callees: map[ssa.CallInstruction]map[*ssa.Function]bool{}}
	p.pts = t
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					el := a.Type().Underlying().(*types.Pointer).Elem()
					id := t.newObj(a, f, el, "allocated at "+p.where(a))
					t.allocs[el.String()] = append(t.allocs[el.String()], id)
				}
			}
		}
	}
	for i := 0; ; i++ {
		t.changed = false
		for _, f := range p.funcs {
			t.function(f)
		}
		if !t.changed {
			break
		}
		if i > 200 {
			unresolved("the points-to analysis does not end")
		}
	}
	return t
}

func (t *Points) newObj(v ssa.Value, f *ssa.Function, typ types.Type, what string) int {
	if v != nil {
		if id, ok := t.site[v]; ok {
			return id
		}
	}
	o := &ptObj{id: len(t.objs), fn: f, in: v, typ: typ, what: what}
	t.objs = append(t.objs, o)
	if v != nil {
		t.site[v] = o.id
	}
	return o.id
}

func hasRefs(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(u.Elem(), d+1)
	case *types.Tuple:
		return true
	}
	return true
}

// extSet: what the caller of the library may pass for a value of this type
func (t *Points) extSet(owner cell, typ types.Type) locset {
	r := locset{}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		k := u.Elem().String()
		for _, id := range t.allocs[k] {
			r[Loc{id, "", false}] = true
		}
		id, ok := t.extT[k]
		if !ok {
			id = t.newObj(nil, nil, u.Elem(), "a "+types.TypeString(u.Elem(), types.RelativeTo(t.p.lib.Pkg))+" that exists already")
			t.objs[id].ext = true
			t.extT[k] = id
		}
		r[Loc{id, "", false}] = true
	case *types.Interface:
		for _, it := range t.p.impls(u) {
			if u.NumMethods() == 0 {
				break
			}
			for l := range t.extSet(owner, it) {
				r[l] = true
			}
		}
	case *types.Slice, *types.Map:
		id, ok := t.extC[owner]
		if !ok {
			id = t.newObj(nil, nil, typ, "")
			t.objs[id].ext = true
			t.objs[id].what = "storage of " + t.objs[owner.obj].what
			t.extC[owner] = id
		}
		r[Loc{id, "", false}] = true
	}
	return r
}

func (t *Points) get(v ssa.Value) locset {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		id, ok := t.globals[v]
		if !ok {
			id = t.newObj(nil, nil, v.Type(), "package variable "+v.Name())
			t.globals[v] = id
		}
		return locset{Loc{id, "", false}: true}
	case *ssa.Function:
		id, ok := t.fobj[v]
		if !ok {
			id = t.newObj(nil, nil, v.Type(), "function "+v.Name())
			t.fobj[v] = id
			t.ofObj[id] = v
		}
		return locset{Loc{id, "", false}: true}
	}
	return t.val[v]
}

func (t *Points) add(v ssa.Value, ls locset) {
	if len(ls) == 0 {
		return
	}
	s := t.val[v]
	if s == nil {
		s = locset{}
		t.val[v] = s
	}
	for l := range ls {
		if !s[l] {
			s[l] = true
			t.changed = true
		}
	}
}

func (t *Points) put(c cell, ls locset) {
	if len(ls) == 0 {
		return
	}
	s := t.cells[c]
	if s == nil {
		s = locset{}
		t.cells[c] = s
	}
	for l := range ls {
		if !s[l] {
			s[l] = true
			t.changed = true
		}
	}
}

// content reads a cell
func (t *Points) content(l Loc, typ types.Type) locset {
	switch typ.Underlying().(type) {
	case *types.Struct, *types.Array:
		return locset{Loc{l.obj, l.path, false}: true}
	}
	c := cell{l.obj, l.path}
	r := locset{}
	for x := range t.cells[c] {
		r[x] = true
	}
	if t.objs[l.obj].ext {
		for x := range t.extSet(c, typ) {
			r[x] = true
		}
	}
	return r
}

func (t *Points) store(l Loc, typ types.Type, v locset) {
	switch typ.Underlying().(type) {
	case *types.Struct, *types.Array:
		for x := range v {
			if x.obj == l.obj && x.path == l.path {
				continue
			}
			for c, s := range t.cells {
				if c.obj == x.obj && strings.HasPrefix(c.path, x.path) && len(c.path) > len(x.path) {
					t.put(cell{l.obj, l.path + c.path[len(x.path):]}, s)
				}
			}
		}
		return
	}
	t.put(cell{l.obj, l.path}, v)
}

func depthOK(path string) bool { return len(path) < 24 }

func (t *Points) function(f *ssa.Function) {
	if f.Object() != nil && f.Object().Exported() {
		for i, prm := range f.Params {
			if hasRefs(prm.Type(), 0) {
				ow := t.paramOwner(f, i)
				t.add(prm, t.extSet(ow, prm.Type()))
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			t.instr(f, in)
		}
	}
}

func (t *Points) paramOwner(f *ssa.Function, i int) cell {
	prm := f.Params[i]
	id, ok := t.site[prm]
	if !ok {
		id = t.newObj(prm, nil, prm.Type(), "argument "+prm.Name()+" of "+t.p.fname(f))
		t.objs[id].fn = nil
	}
	return cell{id, ""}
}

func (t *Points) isCut(s *ssa.Slice) bool {
	if s.High == nil || s.Max != nil {
		return false
	}
	if c, ok := s.High.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && pureSame(c.Call.Args[0], s.X, 0) {
			return false
		}
	}
	return true
}

func (t *Points) instr(f *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t.add(in, locset{Loc{t.site[in], "", false}: true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		t.add(v, locset{Loc{t.newObj(v, f, v.Type(), "made at "+t.p.where(in)), "", false}: true})
	case *ssa.FieldAddr:
		r := locset{}
		for l := range t.get(in.X) {
			if depthOK(l.path) {
				r[Loc{l.obj, fmt.Sprintf("%s.%d", l.path, in.Field), false}] = true
			}
		}
		t.add(in, r)
	case *ssa.IndexAddr:
		r := locset{}
		for l := range t.get(in.X) {
			if depthOK(l.path) {
				r[Loc{l.obj, l.path + "[]", false}] = true
			}
		}
		t.add(in, r)
	case *ssa.Field:
		if hasRefs(in.Type(), 0) {
			for l := range t.get(in.X) {
				t.add(in, t.content(Loc{l.obj, fmt.Sprintf("%s.%d", l.path, in.Field), false}, in.Type()))
			}
		}
	case *ssa.Index:
		if hasRefs(in.Type(), 0) {
			for l := range t.get(in.X) {
				t.add(in, t.content(Loc{l.obj, l.path + "[]", false}, in.Type()))
			}
		}
	case *ssa.UnOp:
		if in.Op == token.MUL && hasRefs(in.Type(), 0) {
			for l := range t.get(in.X) {
				t.add(in, t.content(l, in.Type()))
			}
		}
	case *ssa.Store:
		if hasRefs(in.Val.Type(), 0) {
			for l := range t.get(in.Addr) {
				t.store(l, in.Val.Type(), t.get(in.Val))
			}
		}
	case *ssa.Slice:
		if !hasRefs(in.Type(), 0) {
			return
		}
		r := locset{}
		for l := range t.get(in.X) {
			r[Loc{l.obj, l.path, (l.cut || t.isCut(in)) && in.Max == nil}] = true
		}
		t.add(in, r)
	case *ssa.Phi:
		for _, e := range in.Edges {
			t.add(in, t.get(e))
		}
	case *ssa.ChangeType:
		t.add(in, t.get(in.X))
	case *ssa.ChangeInterface:
		t.add(in, t.get(in.X))
	case *ssa.MakeInterface:
		t.add(in, t.get(in.X))
	case *ssa.SliceToArrayPointer:
		t.add(in, t.get(in.X))
	case *ssa.Convert:
		if _, ok := in.Type().Underlying().(*types.Slice); ok {
			if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
				t.add(in, t.get(in.X))
			} else {
				t.add(in, locset{Loc{t.newObj(in, f, in.Type(), "converted at "+t.p.where(in)), "", false}: true})
			}
		} else if hasRefs(in.Type(), 0) {
			t.add(in, t.get(in.X))
		}
	case *ssa.TypeAssert:
		if in.CommaOk {
			t.setTup(in, 0, t.get(in.X))
		} else {
			t.add(in, t.get(in.X))
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		et := in.X.Type().Underlying().(*types.Map).Elem()
		for l := range t.get(in.X) {
			c := t.content(Loc{l.obj, l.path + "[m]", false}, et)
			if in.CommaOk {
				t.setTup(in, 0, c)
			} else {
				t.add(in, c)
			}
		}
	case *ssa.MapUpdate:
		for l := range t.get(in.Map) {
			if hasRefs(in.Value.Type(), 0) {
				t.store(Loc{l.obj, l.path + "[m]", false}, in.Value.Type(), t.get(in.Value))
			}
			if hasRefs(in.Key.Type(), 0) {
				t.store(Loc{l.obj, l.path + "[k]", false}, in.Key.Type(), t.get(in.Key))
			}
		}
	case *ssa.Range:
		t.add(in, t.get(in.X))
	case *ssa.Next:
		if in.IsString {
			return
		}
		r, ok := in.Iter.(*ssa.Range)
		if !ok {
			return
		}
		mt, ok := r.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		for l := range t.get(r.X) {
			if hasRefs(mt.Elem(), 0) {
				t.setTup(in, 2, t.content(Loc{l.obj, l.path + "[m]", false}, mt.Elem()))
			}
			if hasRefs(mt.Key(), 0) {
				t.setTup(in, 1, t.content(Loc{l.obj, l.path + "[k]", false}, mt.Key()))
			}
		}
	case *ssa.Extract:
		if ts := t.tup[in.Tuple]; in.Index < len(ts) {
			t.add(in, ts[in.Index])
		}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			t.add(fn.FreeVars[i], t.get(b))
		}
		t.add(in, t.get(fn))
	case *ssa.Return:
		r := t.ret[f]
		for len(r) < len(in.Results) {
			r = append(r, locset{})
		}
		t.ret[f] = r
		for i, v := range in.Results {
			for l := range t.get(v) {
				if !r[i][l] {
					r[i][l] = true
					t.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		t.call(f, in)
	}
}

func (t *Points) setTup(v ssa.Value, i int, ls locset) {
	r := t.tup[v]
	for len(r) <= i {
		r = append(r, locset{})
	}
	t.tup[v] = r
	for l := range ls {
		if !r[i][l] {
			r[i][l] = true
			t.changed = true
		}
	}
}

func (t *Points) targets(in ssa.CallInstruction) []*ssa.Function {
	var r []*ssa.Function
	for f := range t.callees[in] {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (t *Points) call(f *ssa.Function, in ssa.CallInstruction) {
	c := in.Common()
	v, _ := in.(ssa.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if v == nil {
				return
			}
			id := t.newObj(v, f, v.Type(), "grown at "+t.p.where(in))
			r := locset{Loc{id, "", false}: true}
			for l := range t.get(c.Args[0]) {
				r[Loc{l.obj, l.path, false}] = true
			}
			t.add(v, r)
			et := v.Type().Underlying().(*types.Slice).Elem()
			if hasRefs(et, 0) && len(c.Args) > 1 {
				for _, a := range c.Args {
					for l := range t.get(a) {
						for d := range r {
							t.store(Loc{d.obj, d.path + "[]", false}, et, t.content(Loc{l.obj, l.path + "[]", false}, et))
						}
					}
				}
			}
		case "copy":
			if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && hasRefs(st.Elem(), 0) {
				for l := range t.get(c.Args[1]) {
					for d := range t.get(c.Args[0]) {
						t.store(Loc{d.obj, d.path + "[]", false}, st.Elem(), t.content(Loc{l.obj, l.path + "[]", false}, st.Elem()))
					}
				}
			}
		case "ssa:wrapnilchk":
			t.add(v, t.get(c.Args[0]))
		}
		return
	}
	var fns []*ssa.Function
	args := c.Args
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		if it != nil && it.NumMethods() > 0 {
			for _, impl := range t.p.impls(it) {
				if m := t.p.method(impl, c.Method.Name()); m != nil {
					fns = append(fns, m)
				}
			}
		}
		args = append([]ssa.Value{c.Value}, c.Args...)
	} else if s := c.StaticCallee(); s != nil {
		fns = append(fns, s)
	} else {
		for l := range t.get(c.Value) {
			if g := t.ofObj[l.obj]; g != nil {
				fns = append(fns, g)
			}
		}
	}
	cs := t.callees[in]
	if cs == nil {
		cs = map[*ssa.Function]bool{}
		t.callees[in] = cs
	}
	for _, g := range fns {
		// a wrapper stands for the declared method
		if g.Blocks == nil || !t.p.inRepo(g) {
			cs[g] = true
			t.external(f, in, g, args, v)
			continue
		}
		if g.Synthetic != "" {
			if o, ok := g.Object().(*types.Func); ok {
				if d := t.p.prog.FuncValue(o); d != nil && d.Blocks != nil && t.p.inRepo(d) {
					g = d
				}
			}
		}
		cs[g] = true
		off := 0
		if len(g.Params) > len(args) {
			off = len(g.Params) - len(args)
		}
		for i, a := range args {
			if i+off >= len(g.Params) {
				break
			}
			prm := g.Params[i+off]
			if !hasRefs(prm.Type(), 0) {
				continue
			}
			ls := t.get(a)
			if i == 0 && c.IsInvoke() {
				// the receiver: only objects of its type
				f := locset{}
				for l := range ls {
					if l.path != "" || t.fits(t.objs[l.obj], prm.Type()) {
						f[l] = true
					}
				}
				ls = f
			}
			t.add(prm, ls)
		}
		if v != nil {
			rs := t.ret[g]
			if g.Signature.Results().Len() == 1 && len(rs) > 0 {
				t.add(v, rs[0])
			} else {
				for i, r := range rs {
					t.setTup(v, i, r)
				}
			}
		}
	}
}

func (t *Points) fits(o *ptObj, pt types.Type) bool {
	if u, ok := pt.Underlying().(*types.Pointer); ok {
		if _, isArr := o.typ.Underlying().(*types.Slice); isArr {
			return true
		}
		// an embedded receiver also fits
		if types.Identical(o.typ, u.Elem()) {
			return true
		}
		if st, ok := o.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() && types.Identical(st.Field(i).Type(), u.Elem()) {
					return true
				}
			}
		}
		return false
	}
	return true
}

func (t *Points) external(f *ssa.Function, in ssa.CallInstruction, g *ssa.Function, args []ssa.Value, v ssa.Value) {
	if v == nil {
		return
	}
	n := g.Signature.Results().Len()
	for i := 0; i < n; i++ {
		rt := g.Signature.Results().At(i).Type()
		if !hasRefs(rt, 0) {
			continue
		}
		r := locset{}
		switch rt.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			id := t.newObj(v, f, rt, "result of "+g.String()+" at "+t.p.where(in))
			r[Loc{id, "", false}] = true
			nm := g.Name()
			if nm != "Clone" && nm != "Concat" {
				for _, a := range args {
					if types.Identical(a.Type(), rt) {
						for l := range t.get(a) {
							r[Loc{l.obj, l.path, true}] = true
						}
					}
				}
			}
		}
		if n == 1 {
			t.add(v, r)
		} else {
			t.setTup(v, i, r)
		}
	}
	// function literals handed to the library are called
	for _, a := range args {
		for l := range t.get(a) {
			if h := t.ofObj[l.obj]; h != nil {
				t.callees[in][h] = true
			}
		}
	}
}

// reach lists the functions reachable from the given ones
func (t *Points) reach(from []*ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if r[f] || !t.p.inRepo(f) {
			return
		}
		r[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for g := range t.callees[c] {
						walk(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	for _, f := range from {
		walk(f)
	}
	return r
}
