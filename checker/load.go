package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/exascience/pargo"

// Program is the type-checked program in SSA form.
type Program struct {
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package // by path relative to the module
	Infos map[string]*packages.Package
	Funcs []*ssa.Function // every source function of the module, closures included
	loops map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool

	Sizes   types.Sizes
	mutable map[*types.Var]bool // fields written after construction
	root    string
	std     map[string]*ssa.Function // functions of the standard library, by name
}

var wantPkgs = []string{"internal", "parallel", "pipeline", "sequential", "sort", "speculative", "sync"}

// load loads the code at root; extra are further settings of the environment
// and, with the prefix "tags=", build tags.
func load(root string, extra ...string) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0")
	var flags []string
	for _, s := range extra {
		if strings.HasPrefix(s, "tags=") {
			flags = append(flags, "-"+s)
		} else {
			env = append(env, s)
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedModule,
		Dir: root, BuildFlags: flags,
		Env: env,
	}
	cfg.Mode &^= packages.NeedDeps
	var pats []string
	for _, p := range wantPkgs {
		pats = append(pats, "./"+p)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	// packages of the repository beyond those known when this was written
	all, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedFiles, Dir: root, BuildFlags: flags, Env: env}, "./...")
	if err != nil {
		return nil, err
	}
	have := map[string]bool{}
	for _, p := range pkgs {
		have[p.PkgPath] = true
	}
	var more []string
	for _, p := range all {
		if !have[p.PkgPath] && len(p.GoFiles) > 0 {
			more = append(more, p.PkgPath)
		}
	}
	if len(more) > 0 {
		sort.Strings(more)
		pats = append(pats, more...)
		if pkgs, err = packages.Load(cfg, pats...); err != nil {
			return nil, err
		}
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{
		SSA: prog, Fset: prog.Fset,
		Pkgs:  map[string]*ssa.Package{},
		Infos: map[string]*packages.Package{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		root:  root,
	}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, modPath), "/")
		P.Pkgs[rel] = sp
		P.Infos[rel] = pkgs[i]
		P.Sizes = pkgs[i].TypesSizes
	}
	for _, w := range wantPkgs {
		if P.Pkgs[w] == nil {
			return nil, fmt.Errorf("package %s/%s not found", modPath, w)
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && P.inModule(f.Pkg.Pkg) && f.Blocks != nil {
			P.Funcs = append(P.Funcs, f)
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		if P.Funcs[i].Pos() != P.Funcs[j].Pos() {
			return P.Funcs[i].Pos() < P.Funcs[j].Pos()
		}
		return P.Funcs[i].String() < P.Funcs[j].String()
	})
	P.findMutable()
	if err := P.addStd(pkgs); err != nil {
		return nil, err
	}
	return P, nil
}

func (P *Program) inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (P *Program) rel(p *types.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
}

// findMutable computes which struct fields are stored to other than in a fresh
// object of the storing function (that is, after construction).
func (P *Program) findMutable() {
	P.mutable = map[*types.Var]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				fv := st.Field(fa.Field)
				fresh := isFreshObj(fa.X)
				for _, r := range *fa.Referrers() {
					switch u := r.(type) {
					case *ssa.Store:
						if u.Addr == fa && !fresh {
							P.mutable[fv] = true
						} else if u.Val == fa {
							P.mutable[fv] = true
						}
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// part of the field may be written: only matters for struct fields
						P.mutable[fv] = true
					default:
						P.mutable[fv] = true
					}
				}
			}
		}
	}
	// whole-object stores
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if st, ok := s.Val.Type().Underlying().(*types.Struct); ok && !isFreshObj(s.Addr) {
						for i := 0; i < st.NumFields(); i++ {
							P.mutable[st.Field(i)] = true
						}
					}
				}
			}
		}
	}
}

func isFreshObj(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.IndexAddr:
		return isFreshObj(x.X)
	case *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr:
		return isFreshObj(x.X)
	case *ssa.Slice:
		return isFreshObj(x.X)
	}
	return false
}

// immutableField reports whether an (unexported) field of a repository struct
// never changes once the object is built.
func (P *Program) immutableField(v *types.Var) bool {
	return v.Pkg() != nil && P.inModule(v.Pkg()) && !v.Exported() && !P.mutable[v]
}

// loopsOf gives the natural loops of f: header -> blocks.
func (P *Program) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := P.loops[f]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, u := range f.Blocks {
		for _, h := range u.Succs {
			if h.Dominates(u) {
				set := l[h]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{h: true}
					l[h] = set
				}
				work := []*ssa.BasicBlock{u}
				for len(work) > 0 {
					b := work[len(work)-1]
					work = work[:len(work)-1]
					if set[b] {
						continue
					}
					set[b] = true
					work = append(work, b.Preds...)
				}
			}
		}
	}
	P.loops[f] = l
	return l
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	if r, err := filepath.Rel(P.root, q.Filename); err == nil {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// fn finds an exported package-level function.
func (P *Program) fn(pkg, name string) *ssa.Function {
	if p := P.Pkgs[pkg]; p != nil {
		return p.Func(name)
	}
	return nil
}

// method finds a method of a named type (pointer receiver included).
func (P *Program) method(pkg, typ, name string) *ssa.Function {
	p := P.Pkgs[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	return P.methodOf(t.Type(), name)
}

func (P *Program) methodOf(t types.Type, name string) *ssa.Function {
	for _, u := range []types.Type{types.NewPointer(t), t} {
		ms := P.SSA.MethodSets.MethodSet(u)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				if f := P.SSA.MethodValue(s); f != nil {
					// prefer the declared method over a wrapper
					if d := P.SSA.FuncValue(s.Obj().(*types.Func)); d != nil && d.Blocks != nil {
						return d
					}
					return f
				}
			}
		}
	}
	return nil
}

// exportedFuncs lists the exported functions and methods of exported types.
func (P *Program) exportedFuncs(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if f.Pkg == nil || P.rel(f.Pkg.Pkg) != pkg || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if !ast.IsExported(f.Name()) {
			continue
		}
		out = append(out, f)
	}
	return out
}

// tpkg is the type information of a package.
func (P *Program) tpkg(pkg string) *types.Package {
	if p := P.Pkgs[pkg]; p != nil {
		return p.Pkg
	}
	return nil
}

// sizes gives the sizes of types on the target platform.
func (P *Program) sizes() types.Sizes {
	if P.Sizes != nil {
		return P.Sizes
	}
	return types.SizesFor("gc", "amd64")
}

// exportedMethods lists the exported methods of a type.
func (P *Program) exportedMethods(pkg, typ string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.exportedFuncs(pkg) {
		if n := recvNamed(f); n != nil && n.Obj().Name() == typ {
			out = append(out, f)
		}
	}
	return out
}

// accessors lists the functions that take the address of a field.
func (P *Program) accessors(v *types.Var) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		found := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.FieldAddr:
					found = found || i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(i.Field) == v
				case *ssa.Field:
					found = found || i.X.Type().Underlying().(*types.Struct).Field(i.Field) == v
				}
			}
		}
		if found {
			out = append(out, f)
		}
	}
	return out
}
