package main

// What a function may change, in terms of what it was given: a summary per function (context is kept by mapping
// summaries at call sites), used where one object per allocation site is too coarse.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// a root is a parameter (0..), a free variable (100..), package state (rootGlobal), or something made here (1000..)
const (
	rootFree   = 100
	rootGlobal = 999
	rootMade   = 1000
)

type rootSet map[int]bool

func (s rootSet) addAll(o rootSet) bool {
	ch := false
	for k := range o {
		if !s[k] {
			s[k] = true
			ch = true
		}
	}
	return ch
}

type modSummary struct {
	mods  rootSet         // outer roots whose memory may be written
	rets  []rootSet       // outer roots a result may reach
	links map[int]rootSet // outer root i may afterwards reach outer root j
}

type fnRoots struct {
	val  map[ssa.Value]rootSet
	tup  map[ssa.Value][]rootSet
	cont map[int]rootSet
	mods map[ssa.Instruction]rootSet // what an instruction writes
	next int
	made map[ssa.Value]int
	sum  *modSummary
}

type Roots struct {
	p       *Program
	fn      map[*ssa.Function]*fnRoots
	changed bool
}

func (p *Program) roots() *Roots {
	if p.rootsM != nil {
		return p.rootsM
	}
	t := &Roots{p: p, fn: map[*ssa.Function]*fnRoots{}}
	p.rootsM = t
	for _, f := range p.funcs {
		t.fn[f] = &fnRoots{val: map[ssa.Value]rootSet{}, tup: map[ssa.Value][]rootSet{}, cont: map[int]rootSet{}, mods: map[ssa.Instruction]rootSet{}, made: map[ssa.Value]int{}, next: rootMade,
			sum: &modSummary{mods: rootSet{}, links: map[int]rootSet{}, rets: make([]rootSet, f.Signature.Results().Len())}}
		for i := range t.fn[f].sum.rets {
			t.fn[f].sum.rets[i] = rootSet{}
		}
	}
	for n := 0; ; n++ {
		if n > 60 {
			panic(undecided{"what functions may change: no fixpoint"})
		}
		t.changed = false
		for _, f := range p.funcs {
			t.function(f)
		}
		if !t.changed {
			return t
		}
	}
}

func (r *fnRoots) of(v ssa.Value) rootSet {
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, q := range v.Parent().Params {
			if q == v {
				return rootSet{i: true}
			}
		}
	case *ssa.FreeVar:
		for i, q := range v.Parent().FreeVars {
			if q == v {
				return rootSet{rootFree + i: true}
			}
		}
	case *ssa.Global:
		return rootSet{rootGlobal: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return rootSet{}
	}
	return r.val[v]
}

// deep: everything reachable from a value
func (r *fnRoots) deep(s rootSet) rootSet {
	out := rootSet{}
	var walk func(k int)
	walk = func(k int) {
		if out[k] {
			return
		}
		out[k] = true
		for j := range r.cont[k] {
			walk(j)
		}
	}
	for k := range s {
		walk(k)
	}
	return out
}

func (t *Roots) set(r *fnRoots, v ssa.Value, s rootSet) {
	if !hasRefs(v.Type(), 0) {
		return
	}
	c := r.val[v]
	if c == nil {
		c = rootSet{}
		r.val[v] = c
	}
	if c.addAll(s) {
		t.changed = true
	}
}

func (t *Roots) link(r *fnRoots, from rootSet, to rootSet) {
	for k := range from {
		c := r.cont[k]
		if c == nil {
			c = rootSet{}
			r.cont[k] = c
		}
		for j := range to {
			if j != k && !c[j] {
				c[j] = true
				t.changed = true
			}
		}
	}
}

func (r *fnRoots) make(v ssa.Value) rootSet {
	id, ok := r.made[v]
	if !ok {
		id = r.next
		r.next++
		r.made[v] = id
	}
	return rootSet{id: true}
}

func (t *Roots) mod(r *fnRoots, in ssa.Instruction, s rootSet) {
	if len(s) == 0 {
		return
	}
	m := r.mods[in]
	if m == nil {
		m = rootSet{}
		r.mods[in] = m
	}
	if m.addAll(s) {
		t.changed = true
	}
	for k := range s {
		if k < rootMade && !r.sum.mods[k] {
			r.sum.mods[k] = true
			t.changed = true
		}
	}
}

func (t *Roots) function(f *ssa.Function) {
	r := t.fn[f]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
				t.set(r, in.(ssa.Value), r.make(in.(ssa.Value)))
			case *ssa.Store:
				t.mod(r, in, r.of(in.Addr))
				if hasRefs(in.Val.Type(), 0) {
					t.link(r, r.of(in.Addr), r.of(in.Val))
				}
			case *ssa.MapUpdate:
				t.mod(r, in, r.of(in.Map))
				t.link(r, r.of(in.Map), r.of(in.Value))
				t.link(r, r.of(in.Map), r.of(in.Key))
			case *ssa.Send:
				t.mod(r, in, r.of(in.Chan))
				t.link(r, r.of(in.Chan), r.of(in.X))
			case *ssa.UnOp:
				if in.Op == token.MUL || in.Op == token.ARROW {
					t.set(r, in, r.deep(r.of(in.X)))
				}
			case *ssa.Lookup:
				t.set(r, in, r.deep(r.of(in.X)))
				if in.CommaOk {
					t.tuple(r, in, 0, r.deep(r.of(in.X)))
				}
			case *ssa.Range:
				t.set(r, in, r.of(in.X))
				// iterators carry no references by type
				t.force(r, in, r.of(in.X))
			case *ssa.Next:
				s := r.deep(r.of(in.Iter))
				t.tuple(r, in, 1, s)
				t.tuple(r, in, 2, s)
			case *ssa.TypeAssert:
				if in.CommaOk {
					t.tuple(r, in, 0, r.of(in.X))
				} else {
					t.set(r, in, r.of(in.X))
				}
			case *ssa.Extract:
				if ts := r.tup[in.Tuple]; in.Index < len(ts) {
					t.set(r, in, ts[in.Index])
				}
			case *ssa.MakeClosure:
				id := r.make(in)
				t.force(r, in, id)
				for _, bnd := range in.Bindings {
					t.link(r, id, r.of(bnd))
				}
			case *ssa.Return:
				for i, v := range in.Results {
					if i < len(r.sum.rets) && hasRefs(v.Type(), 0) {
						for k := range r.deep(r.of(v)) {
							if k < rootMade && !r.sum.rets[i][k] {
								r.sum.rets[i][k] = true
								t.changed = true
							}
						}
					}
				}
			case ssa.CallInstruction:
				t.callAt(f, r, in)
			case ssa.Value:
				// moves: phis, addresses, conversions
				s := rootSet{}
				for _, o := range in.(ssa.Instruction).Operands(nil) {
					if *o != nil {
						s.addAll(r.of(*o))
					}
				}
				switch in.(type) {
				case *ssa.Field, *ssa.Index:
					s = r.deep(s)
				}
				t.set(r, in, s)
			}
		}
	}
	for i, c := range r.cont {
		if i >= rootMade {
			continue
		}
		_ = c
		for j := range r.deep(rootSet{i: true}) {
			if j < rootMade && j != i {
				l := r.sum.links[i]
				if l == nil {
					l = rootSet{}
					r.sum.links[i] = l
				}
				if !l[j] {
					l[j] = true
					t.changed = true
				}
			}
		}
	}
}

func (t *Roots) force(r *fnRoots, v ssa.Value, s rootSet) {
	c := r.val[v]
	if c == nil {
		c = rootSet{}
		r.val[v] = c
	}
	if c.addAll(s) {
		t.changed = true
	}
}

func (t *Roots) tuple(r *fnRoots, v ssa.Value, i int, s rootSet) {
	ts := r.tup[v]
	for len(ts) <= i {
		ts = append(ts, rootSet{})
	}
	r.tup[v] = ts
	if ts[i].addAll(s) {
		t.changed = true
	}
}

// callees resolves a call: static, literals, implementations of an interface of the repository
func (p *Program) callees(in ssa.CallInstruction) []*ssa.Function {
	c := in.Common()
	if s := c.StaticCallee(); s != nil {
		return []*ssa.Function{p.declared(s)}
	}
	var fns []*ssa.Function
	for _, f := range p.points().targets(in) {
		fns = append(fns, p.declared(f))
	}
	if c.IsInvoke() && len(fns) == 0 {
		if it, ok := c.Value.Type().Underlying().(*types.Interface); ok {
			for _, t := range p.impls(it) {
				if m := p.method(t, c.Method.Name()); m != nil {
					fns = append(fns, p.declared(m))
				}
			}
		}
	}
	return fns
}

// declared: a wrapper stands for the declared method
func (p *Program) declared(g *ssa.Function) *ssa.Function {
	if g.Synthetic != "" {
		if o, ok := g.Object().(*types.Func); ok {
			if d := p.prog.FuncValue(o); d != nil && d.Blocks != nil {
				return d
			}
		}
	}
	return g
}

// library functions that write what they are given
func libWrites(f *ssa.Function) []int {
	n := f.String()
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	switch {
	case strings.HasPrefix(n, "sort.Search"), n == "sort.SliceIsSorted", n == "sort.IsSorted":
		return nil
	case strings.HasPrefix(n, "sort."), strings.HasPrefix(n, "slices.Sort"), n == "slices.Reverse", strings.HasPrefix(n, "maps.Delete"), n == "maps.Copy",
		strings.HasPrefix(n, "slices.Delete"), strings.HasPrefix(n, "slices.Insert"), strings.HasPrefix(n, "slices.Compact"), strings.HasPrefix(n, "slices.Replace"):
		return []int{0}
	}
	if f.Signature.Recv() != nil {
		switch f.Name() {
		case "String", "Len", "Error", "Cap", "Load", "Pos", "Offset":
			return nil
		}
		if _, ok := f.Signature.Recv().Type().(*types.Pointer); ok {
			return []int{0}
		}
	}
	return nil
}

func (t *Roots) callAt(f *ssa.Function, r *fnRoots, in ssa.CallInstruction) {
	c := in.Common()
	v, _ := in.(ssa.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			s := r.make(v)
			t.set(r, v, s)
			t.set(r, v, r.of(c.Args[0]))
			if len(c.Args) > 1 {
				et := v.Type().Underlying().(*types.Slice).Elem()
				if hasRefs(et, 0) {
					t.link(r, r.of(v), r.deep(r.of(c.Args[1])))
				}
			}
			t.link(r, s, r.of(c.Args[0]))
		case "copy":
			t.mod(r, in, r.of(c.Args[0]))
			t.link(r, r.of(c.Args[0]), r.deep(r.of(c.Args[1])))
		case "delete", "clear":
			t.mod(r, in, r.of(c.Args[0]))
		}
		return
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	for _, g := range t.p.callees(in) {
		gs := t.fn[g]
		if gs == nil {
			for _, i := range libWrites(g) {
				if i < len(args) {
					t.mod(r, in, r.deep(r.of(args[i])))
				}
			}
			if v != nil {
				s := rootSet{}
				for _, a := range args {
					s.addAll(r.deep(r.of(a)))
				}
				if g.Signature.Results().Len() == 1 {
					t.set(r, v, s)
				} else {
					for i := 0; i < g.Signature.Results().Len(); i++ {
						if hasRefs(g.Signature.Results().At(i).Type(), 0) {
							t.tuple(r, v, i, s)
						}
					}
				}
			}
			continue
		}
		free := rootSet{}
		if c.StaticCallee() == nil && !c.IsInvoke() || len(g.FreeVars) > 0 {
			free = r.deep(r.of(c.Value))
		}
		at := func(k int) rootSet {
			switch {
			case k == rootGlobal:
				return rootSet{rootGlobal: true}
			case k >= rootFree:
				return free
			case k < len(args):
				return r.deep(r.of(args[k]))
			}
			return rootSet{}
		}
		for k := range gs.sum.mods {
			t.mod(r, in, at(k))
		}
		for k, l := range gs.sum.links {
			for j := range l {
				t.link(r, at(k), at(j))
			}
		}
		if v == nil {
			continue
		}
		for i, s := range gs.sum.rets {
			out := rootSet{}
			for k := range s {
				out.addAll(at(k))
			}
			if hasRefs(g.Signature.Results().At(i).Type(), 0) {
				out.addAll(r.make(v))
				// what it made may hold what it was given
				t.link(r, r.make(v), out)
			}
			if len(gs.sum.rets) == 1 {
				t.set(r, v, out)
			} else {
				t.tuple(r, v, i, out)
			}
		}
	}
}

// writes lists the instructions of a function that may change what the given parameter reaches
func (t *Roots) writes(f *ssa.Function, root int) []ssa.Instruction {
	var r []ssa.Instruction
	for in, s := range t.fn[f].mods {
		if s[root] {
			r = append(r, in)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}
