package main

// C11: evaluation changes nothing but its own results and the stream; no append overwrites text somebody else holds.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// definitionTypes: the types grammars are made of
func (p *Program) definitionTypes() map[string]bool {
	r := map[string]bool{}
	var add func(t types.Type, d int)
	add = func(t types.Type, d int) {
		if d > 12 {
			return
		}
		switch u := t.(type) {
		case *types.Named:
			if u.Obj().Pkg() != p.lib.Pkg || r[u.String()] {
				return
			}
			if st, ok := u.Underlying().(*types.Struct); ok {
				r[u.String()] = true
				for i := 0; i < st.NumFields(); i++ {
					add(st.Field(i).Type(), d+1)
				}
				return
			}
			add(u.Underlying(), d+1)
		case *types.Pointer:
			add(u.Elem(), d+1)
		case *types.Slice:
			add(u.Elem(), d+1)
		case *types.Array:
			add(u.Elem(), d+1)
		case *types.Map:
			add(u.Elem(), d+1)
			add(u.Key(), d+1)
		}
	}
	add(p.tGrammar, 0)
	for _, t := range p.ruleImpls() {
		add(t, 0)
	}
	return r
}

// evalRoots: the rules and every exported function that evaluates rules
func (p *Program) evalRoots() []*ssa.Function {
	t := p.points()
	fns, _ := evalImpls(p)
	isEval := map[*ssa.Function]bool{}
	for _, f := range fns {
		isEval[f] = true
	}
	for _, f := range p.funcs {
		if f.Object() == nil || !f.Object().Exported() || f.Pkg != p.lib || isEval[f] {
			continue
		}
		for g := range t.reach([]*ssa.Function{f}) {
			if isEval[g] {
				fns = append(fns, f)
				break
			}
		}
	}
	return fns
}

func (t *Points) def(o *ptObj, defs map[string]bool) bool {
	if strings.HasPrefix(o.what, "package variable") {
		return true
	}
	ty := o.typ
	if pt, ok := ty.(*types.Pointer); ok {
		ty = pt.Elem()
	}
	return defs[ty.String()]
}

// preexisting: the object belongs to a grammar, or was there before the evaluation started
func (t *Points) preexisting(l Loc, reach map[*ssa.Function]bool, defs map[string]bool) string {
	o := t.objs[l.obj]
	if t.def(o, defs) {
		return o.what
	}
	if o.ext {
		for n := range defs {
			i := strings.LastIndexByte(n, '.')
			if strings.HasPrefix(o.what, "storage of a "+n[i+1:]+" that") || strings.HasPrefix(o.what, "storage of storage of a "+n[i+1:]+" that") {
				return o.what
			}
		}
		return ""
	}
	if o.fn != nil && !reach[o.fn] {
		switch o.typ.Underlying().(type) {
		case *types.Map, *types.Slice:
			return o.what
		}
	}
	return ""
}

// purity: no function an evaluation may run writes what was there before it
func purity(p *Program, r *Report) {
	t := p.points()
	defs := p.definitionTypes()
	roots := p.evalRoots()
	reach := t.reach(roots)
	r.extra["evaluation_roots"] = len(roots)
	r.extra["functions_reached"] = len(reach)
	for _, f := range p.funcs {
		if !reach[f] {
			continue
		}
		r.analysed[p.fname(f)] = true
		writes := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				check := func(v ssa.Value, how string) {
					writes++
					for l := range t.get(v) {
						o := t.objs[l.obj]
						if o.fn == f && o.in != nil {
							if _, ok := o.in.(*ssa.Alloc); ok && t.def(o, defs) && localAlloc(v, o.in, 0) {
								continue // under construction
							}
						}
						if w := t.preexisting(l, reach, defs); w != "" {
							r.ob(false, "evaluation writes", p.fname(f), p.where(in), func() string {
								return fmt.Sprintf("%s changes %s while evaluating", how, w)
							})
							return
						}
					}
				}
				switch in := in.(type) {
				case *ssa.Store:
					check(in.Addr, "a store")
				case *ssa.MapUpdate:
					check(in.Map, "a map update")
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "copy", "clear":
							check(c.Args[0], bi.Name())
						}
						continue
					}
					for _, g := range t.targets(in) {
						if p.inRepo(g) || g.Pkg == nil {
							continue
						}
						switch g.Pkg.Pkg.Path() {
						case "fmt", "strings", "strconv", "errors", "unicode", "unicode/utf8", "os", "io", "io/ioutil":
							if g.Signature.Recv() == nil {
								continue
							}
						case "sync":
							switch g.Name() {
							case "Lock", "Unlock", "RLock", "RUnlock", "RLocker", "TryLock", "TryRLock":
								continue
							}
						}
						for _, a := range c.Args {
							if hasRefs(a.Type(), 0) {
								check(a, "a call of "+g.String())
							}
						}
					}
				}
			}
		}
		r.ob(true, "evaluation writes", p.fname(f), "", nil)
		if writes > 0 {
			r.sample("%s: %d writes, none to a grammar or a package variable", p.fname(f), writes)
		}
	}
	if len(reach) < 20 {
		r.fail("vacuous", "evaluation", "", fmt.Sprintf("only %d functions are reached by evaluation", len(reach)))
	}
}

// localAlloc: the address is within this very allocation
func localAlloc(v ssa.Value, a ssa.Value, d int) bool {
	if v == a {
		return true
	}
	if d > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return localAlloc(v.X, a, d+1)
	case *ssa.IndexAddr:
		return localAlloc(v.X, a, d+1)
	}
	return false
}

func isRunes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

type growth struct {
	p    *Program
	t    *Points
	r    *Report
	grow map[cell]map[string]bool // locations whose text is grown, by field name
	held map[int][]cell           // where the address of an array is kept
}

func fieldFamily(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	n := t.String()
	if nm, ok := t.(*types.Named); ok {
		n = nm.Obj().Name()
	}
	return n + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
}

// growthSite: text goes on where base ends
type growthSite struct {
	call *ssa.Call
	base ssa.Value
}

// growsText: the appends of a function to text, and its calls of functions that append to an argument
func (p *Program) growsText(f *ssa.Function) []growthSite {
	if p.growM == nil {
		p.growM = map[*ssa.Function][]growthSite{}
		params := map[*ssa.Function]map[int]bool{}
		for again := true; again; {
			again = false
			for _, g := range p.funcs {
				var r []growthSite
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						c, ok := in.(*ssa.Call)
						if !ok {
							continue
						}
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
							if bi.Name() == "append" && isRunes(c.Type()) && len(c.Call.Args) > 1 {
								r = append(r, growthSite{c, c.Call.Args[0]})
							}
							continue
						}
						if h := c.Call.StaticCallee(); h != nil {
							for i := range params[h] {
								if i < len(c.Call.Args) {
									r = append(r, growthSite{c, c.Call.Args[i]})
								}
							}
						}
					}
				}
				p.growM[g] = r
				for _, s := range r {
					for i, prm := range g.Params {
						if !params[g][i] && flowsFrom(s.base, prm, map[ssa.Value]bool{}) {
							if params[g] == nil {
								params[g] = map[int]bool{}
							}
							params[g][i] = true
							again = true
						}
					}
				}
			}
		}
	}
	return p.growM[f]
}

// flowsFrom: a text may be the parameter, or what was appended to it
func flowsFrom(v ssa.Value, prm *ssa.Parameter, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(prm) {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if flowsFrom(e, prm, seen) {
				return true
			}
		}
	case *ssa.Slice:
		return flowsFrom(v.X, prm, seen)
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return flowsFrom(v.Call.Args[0], prm, seen)
		}
	}
	return false
}

// outside: the parts of a growing text that come from elsewhere (not parameters, which are judged at the calls)
func outside(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		var r []ssa.Value
		for _, e := range v.Edges {
			r = append(r, outside(e, seen)...)
		}
		return r
	case *ssa.Slice:
		return outside(v.X, seen)
	case *ssa.ChangeType:
		return outside(v.X, seen)
	case *ssa.Parameter, *ssa.Const, *ssa.MakeSlice, *ssa.Convert, *ssa.Alloc:
		return nil
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return outside(v.Call.Args[0], seen)
		}
	case *ssa.UnOp:
		switch v.X.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.Global: // fields have their own rules
			return nil
		}
	}
	return []ssa.Value{v}
}

// origins of a text: the fields it may have been loaded from, looking through phis and slices that keep the end
func baseFields(v ssa.Value, seen map[ssa.Value]bool) []*ssa.FieldAddr {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			return []*ssa.FieldAddr{fa}
		}
	case *ssa.Phi:
		var r []*ssa.FieldAddr
		for _, e := range v.Edges {
			r = append(r, baseFields(e, seen)...)
		}
		return r
	case *ssa.Slice:
		return baseFields(v.X, seen)
	case *ssa.ChangeType:
		return baseFields(v.X, seen)
	}
	return nil
}

func aliasing(p *Program, r *Report) {
	t := p.points()
	g := &growth{p: p, t: t, r: r, grow: map[cell]map[string]bool{}, held: map[int][]cell{}}
	defs := p.definitionTypes()
	sites := 0
	for c, ls := range t.cells {
		for l := range ls {
			g.held[l.obj] = append(g.held[l.obj], c)
		}
	}
	for _, f := range p.funcs {
		for _, c := range p.growsText(f) {
			if st := stored(c.base); st != nil && len(baseFields(st, map[ssa.Value]bool{})) == 0 {
				continue // a text of this function, seen as such
			}
			for _, fa := range baseFields(c.base, map[ssa.Value]bool{}) {
				for l := range t.get(fa) {
					k := cell{l.obj, l.path}
					if g.grow[k] == nil {
						g.grow[k] = map[string]bool{}
					}
					g.grow[k][fieldFamily(fa)] = true
				}
			}
		}
	}
	// arrays kept in two places that both grow
	fam := map[int]map[string]string{}
	for k, fs := range g.grow {
		ls := locset{}
		for l := range t.cells[k] {
			ls[l] = true
		}
		for l := range ls {
			for n := range fs {
				if fam[l.obj] == nil {
					fam[l.obj] = map[string]string{}
				}
				fam[l.obj][n] = t.objs[k.obj].what
			}
		}
	}
	for id, fs := range fam {
		o := t.objs[id]
		var ns []string
		for n := range fs {
			ns = append(ns, n)
		}
		r.ob(len(ns) < 2, "two growing texts", o.what, "", func() string {
			return fmt.Sprintf("text %s is kept in %s, and both grow", o.what, strings.Join(ns, " and "))
		})
		for _, c := range g.held[id] {
			if t.def(t.objs[c.obj], defs) {
				r.ob(false, "text of a rule grows", o.what, "", func() string {
					return fmt.Sprintf("text %s belongs to %s and is grown through %s", o.what, t.objs[c.obj].what, strings.Join(ns, ", "))
				})
			}
		}
		if o.ext && t.preexisting(Loc{id, "", false}, map[*ssa.Function]bool{}, defs) != "" {
			r.ob(false, "text of a rule grows", o.what, "", func() string {
				return fmt.Sprintf("%s is grown through %s", o.what, strings.Join(ns, ", "))
			})
		}
	}
	for _, f := range p.funcs {
		for _, gs := range p.growsText(f) {
			sites++
			c, base := gs.call, gs.base
			if st := stored(base); st != nil {
				base = st
			}
			where := p.where(c)
			for l := range t.get(base) {
				o := t.objs[l.obj]
				if l.cut && len(g.held[l.obj]) > 0 {
					r.ob(false, "grows over text", p.fname(f), where, func() string {
						return fmt.Sprintf("appends to a piece cut from text %s, which others hold, and overwrites what follows the piece", o.what)
					})
				}
				if w := t.preexisting(Loc{l.obj, "", false}, map[*ssa.Function]bool{f: true, o.fn: true}, defs); w != "" {
					r.ob(false, "text of a rule grows", p.fname(f), where, func() string { return "appends to " + w })
				}
			}
			r.ob(true, "grows over text", p.fname(f), where, nil)
			if len(baseFields(base, map[ssa.Value]bool{})) == 0 {
				for _, v := range outside(base, map[ssa.Value]bool{}) {
					for l := range t.get(v) {
						o := t.objs[l.obj]
						if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil && grownBy(p, c) {
							continue
						}
						if len(g.held[l.obj]) > 0 {
							r.ob(false, "grown elsewhere", p.fname(f), where, func() string {
								return fmt.Sprintf("appends to text %s, which others still hold", o.what)
							})
						}
					}
				}
			}
			g.storedBack(f, c, gs.base)
		}
		g.linear(f)
		g.elements(f)
	}
	r.extra["text_appends"] = sites
	if sites < 10 {
		r.fail("vacuous", "aliasing", "", fmt.Sprintf("only %d appends to text found", sites))
	}
}

// storedBack: growing the text of a field leaves the grown text in that field
func (g *growth) storedBack(f *ssa.Function, c *ssa.Call, base ssa.Value) {
	ld, ok := base.(*ssa.UnOp)
	if !ok {
		return
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return
	}
	// the append may run twice on the same text
	back := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fb, ok := st.Addr.(*ssa.FieldAddr)
		return ok && fb.Field == fa.Field && (fb.X == fa.X || pureSame(fb.X, fa.X, 0))
	}
	bad := g.reaches(c, func(in ssa.Instruction) bool {
		// another growth of the same field
		for _, d := range g.p.growsText(f) {
			if in != ssa.Instruction(d.call) {
				continue
			}
			l2, ok := d.base.(*ssa.UnOp)
			if !ok {
				return false
			}
			f2, ok := l2.X.(*ssa.FieldAddr)
			return ok && f2.Field == fa.Field && (f2.X == fa.X || pureSame(f2.X, fa.X, 0))
		}
		return false
	}, back)
	g.r.ob(bad == nil, "grown twice", g.p.fname(f), g.p.where(c), func() string {
		return fmt.Sprintf("the text of %s is grown here without being replaced, and again at %s", fieldFamily(fa), g.p.where(bad))
	})
	// text loaded before another growth of the field
	if ld.Block() != c.Block() {
		return
	}
	in := false
	for _, i := range c.Block().Instrs {
		if i == ssa.Instruction(ld) {
			in = true
		}
		if i == ssa.Instruction(c) {
			break
		}
		if in && back(i) {
			g.r.ob(false, "grown twice", g.p.fname(f), g.p.where(c), func() string { return "appends to what the field held before it was replaced" })
		}
	}
	// nobody else may rely on the text when the grown one is kept elsewhere
	if !g.reachesAll(c, back) {
		for l := range g.t.get(fa) {
			o := g.t.objs[l.obj]
			if o.fn != f || o.ext {
				g.r.ob(false, "grown elsewhere", g.p.fname(f), g.p.where(c), func() string {
					return fmt.Sprintf("the text of %s of somebody else's object is grown without the object knowing", fieldFamily(fa))
				})
				return
			}
		}
	}
}

// grownBy: the call grows one of its arguments and gives back the grown text
func grownBy(p *Program, c *ssa.Call) bool {
	for _, s := range p.growsText(c.Parent()) {
		if s.call == c {
			return true
		}
	}
	return false
}

// reaches: a path from an instruction to another that passes no stop
func (g *growth) reaches(from ssa.Instruction, want, stop func(ssa.Instruction) bool) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
		for ; i < len(b.Instrs); i++ {
			if want(b.Instrs[i]) {
				return b.Instrs[i]
			}
			if stop(b.Instrs[i]) {
				return nil
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if x := walk(s, 0); x != nil {
				return x
			}
		}
		return nil
	}
	return walk(from.Block(), instrIndex(from)+1)
}

// reachesAll: the instruction follows in the same block
func (g *growth) reachesAll(from ssa.Instruction, want func(ssa.Instruction) bool) bool {
	b := from.Block()
	for n := 0; n < 4; n++ {
		i := 0
		if n == 0 {
			i = instrIndex(from) + 1
		}
		for ; i < len(b.Instrs); i++ {
			if want(b.Instrs[i]) {
				return true
			}
		}
		if len(b.Succs) != 1 {
			return false
		}
		b = b.Succs[0]
	}
	return false
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// linear: a text that is grown is not used again as the start of another text, nor kept in two places that grow
func (g *growth) linear(f *ssa.Function) {
	type use struct {
		in   ssa.Instruction // of a flow: the last instruction before the edge
		to   *ssa.BasicBlock // of a flow: where the edge leads
		kind string
		at   string
	}
	grown := map[ssa.Value]bool{}
	bases := map[ssa.Instruction]ssa.Value{}
	for _, c := range g.p.growsText(f) {
		grown[c.base] = true
		bases[c.call] = c.base
	}
	// phis that are grown later
	for again := true; again; {
		again = false
		for v := range grown {
			var es []ssa.Value
			switch v := v.(type) {
			case *ssa.Phi:
				es = v.Edges
			case *ssa.Slice:
				if !g.t.isCut(v) && v.Max == nil {
					es = []ssa.Value{v.X}
				}
			}
			for _, e := range es {
				if !grown[e] {
					if _, ok := e.(*ssa.Const); !ok {
						grown[e] = true
						again = true
					}
				}
			}
		}
	}
	check := func(v ssa.Value) {
		if !isRunes(v.Type()) || v.Referrers() == nil {
			return
		}
		var uses []use
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Call:
				if bases[u] == v {
					uses = append(uses, use{u, nil, "append", ""})
				}
			case *ssa.Store:
				if u.Val != v {
					continue
				}
				if fa, ok := u.Addr.(*ssa.FieldAddr); ok {
					for l := range g.t.get(fa) {
						if g.grow[cell{l.obj, l.path}] != nil {
							uses = append(uses, use{u, nil, "keep", fmt.Sprintf("%p %d", fa.X, fa.Field)})
							break
						}
					}
				}
			case *ssa.Phi:
				if grown[u] {
					for i, e := range u.Edges {
						if e == v {
							pb := u.Block().Preds[i]
							uses = append(uses, use{pb.Instrs[len(pb.Instrs)-1], u.Block(), "flow", fmt.Sprintf("%p", u)})
						}
					}
				}
			}
		}
		def, _ := v.(ssa.Instruction)
		for i, a := range uses {
			for j, b := range uses {
				if a.kind == b.kind && a.kind != "append" && a.at == b.at {
					continue
				}
				if i == j && a.kind != "append" {
					continue
				}
				if a.kind == "keep" && b.kind == "keep" && a.at == b.at {
					continue
				}
				if ld, ok := v.(*ssa.UnOp); ok && (a.kind == "keep" || b.kind == "keep") {
					// moving a text from one node to another (the former owner is dropped)
					if _, ok := ld.X.(*ssa.FieldAddr); ok && a.kind == "keep" && b.kind == "keep" {
						continue
					}
				}
				sameEdge := a.in == b.in && a.to == b.to && i < j
				if !sameEdge && !useReaches(a.in, a.to, b.in, b.to, def) {
					continue
				}
				g.r.ob(false, "grown twice", g.p.fname(f), g.p.where(a.in), func() string {
					return fmt.Sprintf("the same text goes on here and at %s: what one appends overwrites what the other appended", g.p.where(b.in))
				})
				return
			}
		}
		if len(uses) > 0 {
			g.r.ob(true, "grown twice", g.p.fname(f), "", nil)
		}
	}
	for _, prm := range f.Params {
		check(prm)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				check(v)
			}
		}
	}
}

// useReaches: a path from one use of a value to another that does not compute the value anew
func useReaches(a ssa.Instruction, aTo *ssa.BasicBlock, b ssa.Instruction, bTo *ssa.BasicBlock, def ssa.Instruction) bool {
	type at struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	var work []at
	if aTo != nil {
		work = append(work, at{aTo, 0})
		seen[aTo] = true
	} else {
		work = append(work, at{a.Block(), instrIndex(a) + 1})
	}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		stopped := false
		for i := w.i; i < len(w.b.Instrs); i++ {
			in := w.b.Instrs[i]
			if in == def {
				stopped = true
				break
			}
			if bTo == nil && in == b {
				return true
			}
		}
		if stopped {
			continue
		}
		for _, s := range w.b.Succs {
			if bTo == s && b.Block() == w.b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				work = append(work, at{s, 0})
			}
		}
	}
	return false
}

// stored: what was stored just before into the field a value is loaded from
func stored(v ssa.Value) ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	b, i := ld.Block(), instrIndex(ld)-1
	for n := 0; n < 6; n++ {
		for ; i >= 0; i-- {
			switch in := b.Instrs[i].(type) {
			case *ssa.Store:
				fb, ok := in.Addr.(*ssa.FieldAddr)
				if !ok {
					if _, ok := in.Addr.(*ssa.IndexAddr); ok {
						continue
					}
					return nil
				}
				if fb.Field == fa.Field && (fb.X == fa.X || pureSame(fb.X, fa.X, 0)) {
					return in.Val
				}
				if fb.Field == fa.Field {
					return nil
				}
			case *ssa.Call:
				for _, a := range in.Call.Args {
					if a == fa.X {
						return nil
					}
				}
			}
		}
		if len(b.Preds) != 1 {
			return nil
		}
		b = b.Preds[0]
		i = len(b.Instrs) - 1
	}
	return nil
}

// elements: chars are only written into text that this function made
func (g *growth) elements(f *ssa.Function) {
	own := func(v ssa.Value) (string, bool) {
		for l := range g.t.get(v) {
			o := g.t.objs[l.obj]
			if o.fn != f || o.ext {
				return o.what, false
			}
		}
		return "", true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var dst ssa.Value
			switch in := in.(type) {
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && isRunes(ia.X.Type()) {
					dst = ia.X
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && isRunes(in.Call.Args[0].Type()) {
					dst = in.Call.Args[0]
				} else if s := in.Call.StaticCallee(); s != nil && s.Pkg != nil && !g.p.inRepo(s) {
					switch s.Pkg.Pkg.Path() {
					case "sort", "slices":
						if len(in.Call.Args) > 0 && isRunes(in.Call.Args[0].Type()) && !strings.HasPrefix(s.Name(), "Contains") && !strings.HasPrefix(s.Name(), "Index") && !strings.HasPrefix(s.Name(), "Equal") && !strings.HasPrefix(s.Name(), "Clone") {
							dst = in.Call.Args[0]
						}
					}
				}
			}
			if dst == nil {
				continue
			}
			w, ok := own(dst)
			g.r.ob(ok, "overwrites text", g.p.fname(f), g.p.where(in), func() string { return "writes into text " + w })
		}
	}
}

func c11(p *Program, r *Report) {
	guarded(r, "evaluation", func() { purity(p, r) })
	guarded(r, "text", func() { aliasing(p, r) })
}

func init() {
	register(&check{id: "C11", level: "proof", run: c11,
		rule: "no function reachable from an evaluation writes a grammar, a rule, a package variable or storage made before the evaluation (points-to analysis of every store, map update and library call); text is only grown by appending to a text that is its own: never to a piece cut from text somebody holds, never twice from the same start, never through two holders, never into the text of a rule",
		trust: []string{"go/packages, go/types and go/ssa give the meaning of the source", "inclusion-based points-to analysis with one object per allocation site: a node whose text is moved to its parent is dropped by the parent",
			"callers do not write into what they are given"}})
}
