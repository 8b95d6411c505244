package main

// Loading /repo: parsed, type checked, in SSA form.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	dir    string
	prog   *ssa.Program
	lib    *ssa.Package // the library
	libPkg *packages.Package
	cmds   []*ssa.Package // commands in the repository
	pkgs   []*packages.Package
	infos  map[*ssa.Function]*fnInfo
	funcs  []*ssa.Function // every function with source in the repository
	recM   map[*ssa.Function]bool
	pureM  map[*ssa.Function]bool
	pts    *Points
	rootsM *Roots
	growM  map[*ssa.Function][]growthSite

	tStream, tRule                                *types.Interface
	nStream, nRule                                types.Type
	tResult, tNode, tGrammar, tAST, tPosition     *types.Named
	fNode, fErr, fErrIdx, fRead, fUnused, fSticky int // fields of EvalResult
	nType, nName, nChars, nKids, nPos             int // fields of Node
	nSticky, nVirtual, nNonData, nTokenized       int
	fNodes                                        int // AST.Nodes
	isWhite                                       *ssa.Function
	eofChar                                       int64
}

type anchorError struct{ msg string }

func unresolved(format string, a ...interface{}) {
	panic(anchorError{fmt.Sprintf(format, a...)})
}

func load(dir string) *Program {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		unresolved("cannot load %s: %v", dir, err)
	}
	p := &Program{dir: dir, infos: map[*ssa.Function]*fnInfo{}, recM: map[*ssa.Function]bool{}, pureM: map[*ssa.Function]bool{}}
	for _, k := range pkgs {
		for _, e := range k.Errors {
			unresolved("%s does not type check: %v", k.PkgPath, e)
		}
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.BuilderMode(0))
	p.prog = prog
	p.pkgs = pkgs
	for i, k := range pkgs {
		if sp[i] == nil {
			unresolved("no SSA for %s", k.PkgPath)
		}
		sp[i].Build()
		switch {
		case k.Types.Scope().Lookup("ICharstream") != nil:
			if p.lib != nil {
				unresolved("two packages define ICharstream")
			}
			p.lib, p.libPkg = sp[i], k
		default:
			p.cmds = append(p.cmds, sp[i])
		}
	}
	if p.lib == nil {
		unresolved("no package defines ICharstream")
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil || f.Pkg == nil {
			continue
		}
		if f.Pkg == p.lib || p.isCmd(f.Pkg) {
			p.funcs = append(p.funcs, f)
		}
	}
	// methods that nothing calls are functions too
	seen := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		seen[f] = true
	}
	var addF func(f *ssa.Function)
	addF = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil || seen[f] {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			addF(a)
		}
	}
	for _, pk := range append([]*ssa.Package{p.lib}, p.cmds...) {
		for _, m := range pk.Members {
			switch m := m.(type) {
			case *ssa.Function:
				addF(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if _, ok := m.Type().Underlying().(*types.Interface); ok {
						continue
					}
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Pkg == pk {
							addF(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	p.anchors()
	return p
}

func (p *Program) isCmd(k *ssa.Package) bool {
	for _, c := range p.cmds {
		if c == k {
			return true
		}
	}
	return false
}

func (p *Program) named(n string) *types.Named {
	o := p.lib.Pkg.Scope().Lookup(n)
	if o == nil {
		unresolved("type %s is gone", n)
	}
	t, ok := o.Type().(*types.Named)
	if !ok {
		unresolved("%s is not a named type", n)
	}
	return t
}

func (p *Program) field(t *types.Named, n string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		unresolved("%s is not a struct", t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return i
		}
	}
	unresolved("field %s of %s is gone", n, t)
	return 0
}

func (p *Program) anchors() {
	iface := func(n string) *types.Interface {
		i, ok := p.named(n).Underlying().(*types.Interface)
		if !ok {
			unresolved("%s is not an interface", n)
		}
		return i
	}
	p.tStream, p.tRule = iface("ICharstream"), iface("IRule")
	p.nStream, p.nRule = p.named("ICharstream"), p.named("IRule")
	p.tResult, p.tNode, p.tGrammar, p.tAST, p.tPosition = p.named("EvalResult"), p.named("Node"), p.named("Grammar"), p.named("AST"), p.named("Position")
	r := p.tResult
	p.fNode, p.fErr, p.fErrIdx, p.fRead, p.fUnused, p.fSticky = p.field(r, "Node"), p.field(r, "Error"), p.field(r, "ErrIdx"), p.field(r, "CharsRead"), p.field(r, "CharsUnused"), p.field(r, "Sticky")
	n := p.tNode
	p.nType, p.nName, p.nChars, p.nKids, p.nPos = p.field(n, "RuleType"), p.field(n, "RuleName"), p.field(n, "Chars"), p.field(n, "ChildNodes"), p.field(n, "Position")
	p.nSticky, p.nVirtual, p.nNonData, p.nTokenized = p.field(n, "Sticky"), p.field(n, "Virtual"), p.field(n, "NonData"), p.field(n, "Tokenized")
	p.fNodes = p.field(p.tAST, "Nodes")
	p.isWhite = p.lib.Func("IsWhiteSpace")
	if p.isWhite == nil {
		unresolved("IsWhiteSpace is gone")
	}
	p.eofChar = p.constInt("EOFChar")
	for _, m := range []string{"Next", "Peek", "Match", "SkipSpaces", "Position", "PositionLookup", "Cursor"} {
		if o, _, _ := types.LookupFieldOrMethod(p.nStream, false, p.lib.Pkg, m); o == nil {
			unresolved("ICharstream.%s is gone", m)
		}
	}
	if len(p.ruleImpls()) < 5 {
		unresolved("only %d implementations of IRule found", len(p.ruleImpls()))
	}
}

func (p *Program) constInt(n string) int64 {
	c, ok := p.lib.Members[n].(*ssa.NamedConst)
	if !ok {
		unresolved("constant %s is gone", n)
	}
	return c.Value.Int64()
}

// ruleImpls lists the concrete types (as pointers where needed) that implement IRule
func (p *Program) ruleImpls() []types.Type { return p.impls(p.tRule) }

func (p *Program) impls(it *types.Interface) []types.Type {
	var r []types.Type
	sc := p.lib.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t := tn.Type()
		if _, ok := t.Underlying().(*types.Interface); ok {
			continue
		}
		if types.Implements(t, it) {
			r = append(r, t)
		} else if types.Implements(types.NewPointer(t), it) {
			r = append(r, types.NewPointer(t))
		}
	}
	return r
}

// method finds a method of a concrete type
func (p *Program) method(t types.Type, name string) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(p.lib.Pkg, name)
	if sel == nil {
		if _, ok := t.(*types.Pointer); !ok {
			return p.method(types.NewPointer(t), name)
		}
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.prog.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) where(in ssa.Instruction) string {
	pos := in.Pos()
	if !pos.IsValid() {
		// nearest position in the block, else the function
		for _, i := range in.Block().Instrs {
			if i.Pos().IsValid() {
				pos = i.Pos()
				break
			}
		}
	}
	if !pos.IsValid() {
		pos = in.Parent().Pos()
	}
	return p.pos(pos) + " (" + p.fname(in.Parent()) + ")"
}

func (p *Program) fname(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, p.lib.Pkg.Path()+".", "")
	return s
}

// inRepo tells whether the source of a function is part of the repository
func (p *Program) inRepo(f *ssa.Function) bool {
	if f.Pkg == nil {
		// wrappers and instantiations
		if o := f.Origin(); o != nil && o != f {
			return p.inRepo(o)
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg() == p.lib.Pkg
		}
		return false
	}
	return f.Pkg == p.lib || p.isCmd(f.Pkg)
}

func (p *Program) isStream(t types.Type) bool {
	return types.Identical(t, p.nStream)
}

func (p *Program) isRuleT(t types.Type) bool {
	return types.Identical(t, p.nRule)
}

func isPtrTo(t types.Type, n *types.Named) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(pt.Elem(), n)
}

func (p *Program) files() []*ast.File { return p.libPkg.Syntax }

// pure tells that a function changes nothing but objects it allocates itself and reads no stream
func (p *Program) pure(f *ssa.Function) bool {
	if v, ok := p.pureM[f]; ok {
		return v
	}
	if len(p.pureM) == 0 { // greatest fixpoint over the functions of the repository
		for _, g := range p.funcs {
			p.pureM[g] = true
		}
		for again := true; again; {
			again = false
			for _, g := range p.funcs {
				if p.pureM[g] && !p.pure1(g) {
					p.pureM[g] = false
					again = true
				}
			}
		}
		return p.pure(f)
	}
	p.pureM[f] = true
	v := p.pure1(f)
	p.pureM[f] = v
	return v
}

var pureExternal = map[string]bool{
	"fmt": true, "errors": true, "strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "bytes": true,
}

func (p *Program) pure1(f *ssa.Function) bool {
	if f.Blocks == nil {
		if f.Pkg != nil {
			path := f.Pkg.Pkg.Path()
			if path == "fmt" && !strings.HasPrefix(f.Name(), "Sprint") && f.Name() != "Errorf" {
				return false
			}
			return pureExternal[path]
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !localAddr(in.Addr, 0) {
					return false
				}
			case *ssa.MapUpdate:
				if _, ok := in.Map.(*ssa.MakeMap); !ok {
					return false
				}
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Panic:
				return false
			case ssa.CallInstruction:
				c := in.Common()
				if c.IsInvoke() {
					rt := c.Value.Type()
					if p.isStream(rt) {
						return false
					}
					if p.isRuleT(rt) {
						if c.Method.Name() == "Eval" {
							return false
						}
						for _, t := range p.ruleImpls() {
							m := p.method(t, c.Method.Name())
							if m == nil || !p.pure(m) {
								return false
							}
						}
						continue
					}
					if c.Method.Name() == "Error" || c.Method.Name() == "String" {
						continue
					}
					return false
				}
				if b, ok := c.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap", "append", "min", "max", "print", "println", "ssa:wrapnilchk":
						continue
					case "copy":
						if localSlice(c.Args[0], 0) {
							continue
						}
					}
					return false
				}
				callee := c.StaticCallee()
				if callee == nil {
					return false
				}
				if callee.Pkg != nil && !p.inRepo(callee) {
					if !pureExternal[callee.Pkg.Pkg.Path()] {
						return false
					}
					if callee.Pkg.Pkg.Path() == "fmt" && !strings.HasPrefix(callee.Name(), "Sprint") && callee.Name() != "Errorf" {
						return false
					}
					// a builder that was passed in is changed
					if callee.Signature.Recv() != nil {
						if !localAddr(c.Args[0], 0) {
							return false
						}
					}
					continue
				}
				if !p.pure(callee) {
					return false
				}
			}
		}
	}
	return true
}

// localAddr: the address is inside something this function allocated
func localAddr(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(v.X, d+1)
	case *ssa.IndexAddr:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			return localAddr(v.X, d+1)
		}
		return localSlice(v.X, d+1)
	}
	return false
}

func localSlice(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			return localAddr(v.X, d+1)
		}
		return localSlice(v.X, d+1)
	}
	return false
}

// recursive: the function may call itself
func (p *Program) recursive(f *ssa.Function) bool {
	if v, ok := p.recM[f]; ok {
		return v
	}
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := c.Common().StaticCallee()
				if h == nil || !p.inRepo(h) {
					continue
				}
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if walk(h) {
						return true
					}
				}
			}
		}
		return false
	}
	v := walk(f)
	p.recM[f] = v
	return v
}
