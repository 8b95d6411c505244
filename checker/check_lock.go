package main

// C10: what a stream operation changes is only touched under the stream's lock.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// av: how a value relates to the object whose lock is checked
type av struct {
	kind  int // 0 unrelated, 1 the object (pointer), 2 address inside a field, 3 content of a field, 4 address of the lock, 5 a function literal, 6 the object's value
	field int
	fn    *ssa.Function
	bind  []av
}

type lockFrame struct {
	fn   *ssa.Function
	env  map[ssa.Value]av
	call ssa.Instruction
}

type lockState struct {
	mode     int // 0 free, 1 read, 2 write
	sections int // critical sections entered, up to 2
	touched  bool
}

type lockRun struct {
	p        *Program
	r        *Report
	t        *types.Named
	st       *types.Struct
	lockF    int
	guarded  map[int]bool // fields written after construction
	visited  map[*ssa.Function]bool
	collect  bool // first pass: find the written fields
	root     string
	steps    int
	accesses int
	stack    []*ssa.Function
}

func lockField(st *types.Struct) int {
	for i := 0; i < st.NumFields(); i++ {
		if lockType(st.Field(i).Type()) {
			return i
		}
	}
	return -1
}

func lockType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func (l *lockRun) get(fr *lockFrame, v ssa.Value) av {
	if a, ok := fr.env[v]; ok {
		return a
	}
	fr.env[v] = av{} // while looking
	a := l.get1(fr, v)
	fr.env[v] = a
	return a
}

func (l *lockRun) get1(fr *lockFrame, v ssa.Value) av {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		b := l.get(fr, x.X)
		switch b.kind {
		case 1:
			if x.Field == l.lockF {
				return av{kind: 4}
			}
			return av{kind: 2, field: x.Field}
		case 2, 3:
			return av{kind: 2, field: b.field}
		}
	case *ssa.IndexAddr:
		b := l.get(fr, x.X)
		if b.kind == 2 || b.kind == 3 {
			return av{kind: 2, field: b.field}
		}
	case *ssa.Field:
		b := l.get(fr, x.X)
		if b.kind == 6 {
			if x.Field == l.lockF {
				return av{kind: 4}
			}
			return av{kind: 3, field: x.Field}
		}
		return b
	case *ssa.Index:
		return l.get(fr, x.X)
	case *ssa.Slice:
		b := l.get(fr, x.X)
		if b.kind == 2 {
			return av{kind: 3, field: b.field}
		}
		return b
	case *ssa.UnOp:
		if x.Op == token.MUL {
			b := l.get(fr, x.X)
			switch b.kind {
			case 1:
				return av{kind: 6}
			case 2:
				if lockType(x.Type()) {
					return av{kind: 4}
				}
				if hasRefs(x.Type(), 0) {
					return av{kind: 3, field: b.field}
				}
			case 4:
				return b
			case 7:
				return b.bind[0]
			}
		}
	case *ssa.Alloc: // a variable that function literals share
		var a av
		for _, u := range *x.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
				if b := l.get(fr, s.Val); b.kind != 0 {
					a = b
				}
			}
		}
		if a.kind == 1 || a.kind == 3 {
			return av{kind: 7, bind: []av{a}}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if b := l.get(fr, e); b.kind != 0 {
				// what was looked up on the way may depend on this value
				for k, o := range fr.env {
					if o.kind == 0 {
						delete(fr.env, k)
					}
				}
				return b
			}
		}
	case *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert:
		return l.get(fr, *x.(ssa.Instruction).Operands(nil)[0])
	case *ssa.Function:
		return av{kind: 5, fn: x}
	case *ssa.MakeClosure:
		a := av{kind: 5, fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			a.bind = append(a.bind, l.get(fr, b))
		}
		return a
	case *ssa.Extract:
		return l.get(fr, x.Tuple)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			a := l.get(fr, x.Call.Args[0])
			if a.kind == 3 {
				return a
			}
		}
	}
	return av{}
}

func (l *lockRun) access(fr *lockFrame, s *lockState, in ssa.Instruction, field int, write bool) {
	if l.collect {
		if write {
			l.guarded[field] = true
		}
		return
	}
	if !l.guarded[field] {
		return
	}
	l.accesses++
	need := 1
	if write {
		need = 2
	}
	s.touched = true
	name := l.t.Obj().Name() + "." + l.st.Field(field).Name()
	l.r.ob(s.mode >= need, "guarded", l.root, l.p.where(in), func() string {
		what := "read"
		if write {
			what = "written"
		}
		return fmt.Sprintf("%s is %s %s", name, what, [...]string{"without holding the lock", "holding the lock for reading only", ""}[s.mode])
	})
	l.r.ob(s.sections <= 1, "one section", l.root, l.p.where(in), func() string {
		return name + " is used in a second critical section: another goroutine may have moved the stream in between"
	})
}

// lockOp recognises a call on the object's lock: "Lock", "RLock", ...
func (l *lockRun) lockOp(fr *lockFrame, c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || len(c.Args) == 0 {
		return ""
	}
	a := l.get(fr, c.Args[0])
	if a.kind == 4 {
		return f.Name()
	}
	return ""
}

func (l *lockRun) doLock(op string, s *lockState, in ssa.Instruction) {
	if l.collect {
		return
	}
	where := l.p.where(in)
	switch op {
	case "Lock", "RLock":
		l.r.ob(s.mode == 0, "deadlock", l.root, where, func() string { return "the lock is acquired while it is held" })
		s.mode = 2
		if op == "RLock" {
			s.mode = 1
		}
		s.sections++
		if s.sections > 2 {
			s.sections = 2
		}
	case "Unlock":
		l.r.ob(s.mode == 2, "release", l.root, where, func() string { return "the lock is released for writing but not held so" })
		s.mode = 0
	case "RUnlock":
		l.r.ob(s.mode == 1, "release", l.root, where, func() string { return "the lock is released for reading but not held so" })
		s.mode = 0
	default:
		l.r.ob(false, "lock", l.root, where, func() string { return "the use of " + op + " cannot be followed" })
	}
}

type deferred struct {
	in ssa.Instruction
	op string
	fn av
	c  *ssa.CallCommon
}

// run follows every path through f from state s; the states at its returns
func (l *lockRun) run(fr *lockFrame, s lockState) []lockState {
	f := fr.fn
	for _, g := range l.stack {
		if g == f {
			if l.collect {
				return []lockState{s}
			}
			panic(undecided{"recursion through " + l.p.fname(f)})
		}
	}
	if len(l.stack) > 12 {
		panic(undecided{"calls nested too deeply in " + l.p.fname(f)})
	}
	l.stack = append(l.stack, f)
	defer func() { l.stack = l.stack[:len(l.stack)-1] }()
	l.visited[f] = true
	type item struct {
		b *ssa.BasicBlock
		s lockState
		d []deferred
	}
	seen := map[string]bool{}
	outs := map[lockState]bool{}
	work := []item{{f.Blocks[0], s, nil}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		var ds []string
		for _, d := range it.d {
			ds = append(ds, fmt.Sprint(d.in.Pos(), d.op))
		}
		k := fmt.Sprint(it.b.Index, it.s, strings.Join(ds, ","))
		if seen[k] {
			continue
		}
		seen[k] = true
		if l.steps++; l.steps > 200000 {
			panic(undecided{"too many paths"})
		}
		states := []lockState{it.s}
		d := it.d
		done := false
		for _, in := range it.b.Instrs {
			var next []lockState
			for _, s := range states {
				switch x := in.(type) {
				case *ssa.Store:
					if a := l.get(fr, x.Addr); a.kind == 2 {
						l.access(fr, &s, in, a.field, true)
					} else if a.kind == 1 && !l.collect {
						l.r.ob(false, "guarded", l.root, l.p.where(in), func() string { return "the whole stream is overwritten, its lock included" })
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						a := l.get(fr, x.X)
						switch a.kind {
						case 2:
							l.access(fr, &s, in, a.field, false)
						case 1:
							for i := 0; i < l.st.NumFields(); i++ {
								if i != l.lockF {
									l.access(fr, &s, in, i, false)
								}
							}
						}
					}
				case *ssa.Lookup:
					if a := l.get(fr, x.X); a.kind == 3 {
						l.access(fr, &s, in, a.field, false)
					}
				case *ssa.Index:
					if a := l.get(fr, x.X); a.kind == 3 {
						l.access(fr, &s, in, a.field, false)
					}
				case *ssa.MapUpdate:
					if a := l.get(fr, x.Map); a.kind == 3 {
						l.access(fr, &s, in, a.field, true)
					}
				case *ssa.Defer:
					op := l.lockOp(fr, &x.Call)
					a := l.get(fr, x.Call.Value)
					if len(d) > 8 {
						panic(undecided{"defer in a loop"})
					}
					d = append(append([]deferred(nil), d...), deferred{in, op, a, &x.Call})
				case *ssa.RunDefers:
					cur := []lockState{s}
					for i := len(d) - 1; i >= 0; i-- {
						var nx []lockState
						for _, c := range cur {
							nx = append(nx, l.callee(fr, c, d[i].in, d[i].c, d[i].op)...)
						}
						cur = nx
					}
					next = append(next, cur...)
					continue
				case *ssa.Go:
					if !l.collect {
						l.r.ob(false, "lock", l.root, l.p.where(in), func() string { return "a goroutine is started inside a stream operation" })
					}
				case *ssa.Call:
					next = append(next, l.callee(fr, s, in, &x.Call, l.lockOp(fr, &x.Call))...)
					continue
				case *ssa.Return:
					outs[s] = true
					if len(l.stack) == 1 && !l.collect {
						for _, v := range x.Results {
							if a := l.get(fr, v); (a.kind == 2 || a.kind == 3) && l.guarded[a.field] && hasRefs(v.Type(), 0) {
								l.r.ob(false, "handed out", l.root, l.p.where(in), func() string {
									return l.t.Obj().Name() + "." + l.st.Field(a.field).Name() + " is handed out, it can be used without the lock"
								})
							}
						}
					}
					done = true
				case *ssa.Panic:
					done = true
				}
				next = append(next, s)
			}
			states = dedup(next)
			if done {
				break
			}
		}
		if done {
			continue
		}
		for _, b := range it.b.Succs {
			for _, s := range states {
				work = append(work, item{b, s, d})
			}
		}
	}
	var r []lockState
	for s := range outs {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return fmt.Sprint(r[i]) < fmt.Sprint(r[j]) })
	return r
}

func dedup(l []lockState) []lockState {
	m := map[lockState]bool{}
	var r []lockState
	for _, s := range l {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	return r
}

func (l *lockRun) callee(fr *lockFrame, s lockState, in ssa.Instruction, c *ssa.CallCommon, op string) []lockState {
	if op != "" {
		l.doLock(op, &s, in)
		return []lockState{s}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "append", "delete", "clear":
			a := l.get(fr, c.Args[0])
			if a.kind == 3 && (b.Name() == "copy" || b.Name() == "delete" || b.Name() == "clear") {
				l.access(fr, &s, in, a.field, true)
			}
			if a.kind == 3 && b.Name() == "append" {
				l.access(fr, &s, in, a.field, true) // may write spare room
			}
			if len(c.Args) > 1 {
				if a := l.get(fr, c.Args[1]); a.kind == 3 {
					l.access(fr, &s, in, a.field, false)
				}
			}
		}
		return []lockState{s}
	}
	g := c.StaticCallee()
	var bind []av
	if g == nil {
		if a := l.get(fr, c.Value); a.kind == 5 {
			g, bind = a.fn, a.bind
		}
	} else if a := l.get(fr, c.Value); a.kind == 5 {
		bind = a.bind
	}
	if g == nil || g.Blocks == nil || !l.p.inRepo(g) {
		// library code: reads what it is given; sorting writes it
		if g != nil {
			w := map[int]bool{}
			for _, i := range libWrites(g) {
				w[i] = true
			}
			for i, x := range c.Args {
				a := l.get(fr, x)
				if a.kind == 2 || a.kind == 3 {
					l.access(fr, &s, in, a.field, w[i])
				}
				if a.kind == 4 && !l.collect {
					l.r.ob(false, "lock", l.root, l.p.where(in), func() string { return "the lock is handed to " + g.String() })
				}
				if a.kind == 5 && !l.collect {
					l.r.ob(false, "lock", l.root, l.p.where(in), func() string { return "a function literal is handed to " + g.String() })
				}
			}
		}
		if g == nil && c.IsInvoke() {
			// another stream has another lock; the object itself handed out would not
			for _, x := range c.Args {
				if a := l.get(fr, x); a.kind == 1 && !l.collect {
					l.r.ob(s.mode == 0, "deadlock", l.root, l.p.where(in), func() string { return "the stream is handed to a call while it is locked" })
				}
			}
			if a := l.get(fr, c.Value); a.kind == 1 && !l.collect {
				l.r.ob(s.mode == 0, "deadlock", l.root, l.p.where(in), func() string { return "the stream calls itself while it is locked" })
			}
		}
		return []lockState{s}
	}
	// follow the call if it is given anything of the object
	related := false
	env := map[ssa.Value]av{}
	for i, x := range c.Args {
		a := l.get(fr, x)
		if a.kind != 0 && i < len(g.Params) {
			env[g.Params[i]] = a
			if a.kind != 5 || len(a.bind) > 0 {
				related = true
			}
		}
	}
	for i, a := range bind {
		if i < len(g.FreeVars) {
			env[g.FreeVars[i]] = a
			related = related || a.kind != 0
		}
	}
	if !related {
		return []lockState{s}
	}
	return l.run(&lockFrame{fn: g, env: env, call: in}, s)
}

func c10(p *Program, r *Report) {
	n := 0
	for _, t := range p.impls(p.tStream) {
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		nt, ok := t.(*types.Named)
		if !ok {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		n++
		name := nt.Obj().Name()
		guarded(r, name, func() { c10type(p, r, nt, st) })
	}
	r.ob(n >= 2, "streams", "ICharstream", "", func() string { return "streams are no structs any more" })
}

func c10type(p *Program, r *Report, nt *types.Named, st *types.Struct) {
	name := nt.Obj().Name()
	l := &lockRun{p: p, r: r, t: nt, st: st, lockF: lockField(st), guarded: map[int]bool{}, visited: map[*ssa.Function]bool{}}
	if i := l.lockF; i >= 0 {
		if _, ok := st.Field(i).Type().(*types.Pointer); ok {
			// the pointer must not change: it would be another lock
			for _, f := range p.funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok {
							if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isPtrTo(fa.X.Type(), nt) && fa.Field == i {
								_, fresh := fa.X.(*ssa.Alloc)
								r.ob(fresh, "lock", name, p.where(in), func() string { return "the lock is replaced" })
							}
						}
					}
				}
			}
		}
	}
	// the operations: methods, and functions that are given a stream of this type
	roots := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, f := range p.funcs {
		if f.Pkg != p.lib || f.Synthetic != "" || len(f.FreeVars) > 0 {
			continue
		}
		for i, prm := range f.Params {
			pt, isPtr := prm.Type().Underlying().(*types.Pointer)
			if isPtr && types.Identical(pt.Elem(), nt) {
				fns = append(fns, f)
				break
			}
			if types.Identical(prm.Type(), nt) {
				r.ob(l.lockF < 0, "lock", p.fname(f), p.pos(f.Pos()), func() string {
					return fmt.Sprintf("parameter %d is a copy of a stream, its lock included", i)
				})
			}
		}
	}
	start := func(f *ssa.Function) *lockFrame {
		env := map[ssa.Value]av{}
		for _, prm := range f.Params {
			if pt, ok := prm.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), nt) {
				env[prm] = av{kind: 1}
			}
		}
		return &lockFrame{fn: f, env: env}
	}
	l.collect = true
	for _, f := range fns {
		l.run(start(f), lockState{})
	}
	var fields []string
	for i := range l.guarded {
		fields = append(fields, name+"."+st.Field(i).Name())
	}
	sort.Strings(fields)
	r.sample("%s: changed by operations: %s", name, strings.Join(fields, ", "))
	if len(l.guarded) > 0 && !r.ob(l.lockF >= 0, "lock", name, p.pos(nt.Obj().Pos()), func() string { return "operations change the stream, which has no lock" }) {
		return
	}
	l.collect = false
	l.visited = map[*ssa.Function]bool{}
	op := func(f *ssa.Function) {
		if roots[f] {
			return
		}
		roots[f] = true
		l.root = p.fname(f)
		r.ob(!p.roots().fn[f].sum.mods[rootGlobal], "package state", l.root, p.pos(f.Pos()), func() string {
			return "the operation changes package variables, which the lock of one stream does not guard"
		})
		r.analysed[l.root] = true
		for _, s := range l.run(start(f), lockState{}) {
			r.ob(s.mode == 0, "release", l.root, p.pos(f.Pos()), func() string { return "a path returns without releasing the lock" })
		}
	}
	for _, f := range fns {
		if f.Object() != nil && f.Object().Exported() {
			op(f)
		}
	}
	// what no operation calls is an operation itself
	for _, f := range fns {
		if !l.visited[f] {
			op(f)
		}
	}
	r.extra["accesses "+name] = l.accesses
	// direct accesses from functions that get the stream from elsewhere
	for _, f := range p.funcs {
		if f.Pkg != p.lib || l.visited[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isPtrTo(fa.X.Type(), nt) || fa.Field == l.lockF || !l.guarded[fa.Field] {
					continue
				}
				_, fresh := fa.X.(*ssa.Alloc)
				r.ob(fresh, "guarded", p.fname(f), p.where(in), func() string {
					return fmt.Sprintf("%s.%s is used outside the operations of the stream", name, st.Field(fa.Field).Name())
				})
			}
		}
	}
}

func init() {
	register(&check{id: "C10", level: "proof", run: c10,
		rule:  "for every stream type: each field that an operation changes is read under its lock and written under its lock for writing, on every path, in one critical section per operation; the lock is released on every path, not acquired while held, not copied",
		trust: []string{"go/packages, go/types and go/ssa give the meaning of the source", "sync.RWMutex does what it says", "a stream is handed to other goroutines only after its constructor returned", "a wrapping stream locks itself before the stream it wraps, never the other way round (the wrapped one exists first)"}})
}
