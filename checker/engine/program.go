package engine

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func bigInt(i int64) *big.Int { return big.NewInt(i) }

const RepoMod = "github.com/iotaledger/iota.go/v4"

// RepoDir is the analysed tree.
var RepoDir = "/repo"

const hivePrefix = "github.com/iotaledger/hive.go/"

// Program is the loaded code base.
type Program struct {
	Pkgs        []*packages.Package
	SSA         *ssa.Program
	RepoFns     []*ssa.Function
	byName      map[string]*ssa.Function
	globals     map[string]*ssa.Global
	gconst      map[string]*Term
	fnTerms     map[*ssa.Function]*Term
	termFns     map[*Term]*ssa.Function
	OpaqueNames map[string]bool
	stores      map[*ssa.Global][]*ssa.Store
	addrTaken   map[*ssa.Global]bool
	inits       map[*ssa.Package]*initState
}

// Load type-checks dir and builds SSA.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages loaded")
	}
	for _, p := range ps {
		if p.IllTyped {
			return nil, fmt.Errorf("package %s (or a dependency) does not type-check", p.PkgPath)
		}
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type-check: %v", p.PkgPath, p.Errors[0])
		}
	}
	countLoops(ps)
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Pkgs: ps, SSA: prog, byName: map[string]*ssa.Function{}, globals: map[string]*ssa.Global{}, gconst: map[string]*Term{}, fnTerms: map[*ssa.Function]*Term{}, termFns: map[*Term]*ssa.Function{}, OpaqueNames: map[string]bool{}}
	all := ssautil.AllFunctions(prog)
	stores := map[*ssa.Global][]*ssa.Store{}
	addrTaken := map[*ssa.Global]bool{}
	p.stores, p.addrTaken = stores, addrTaken
	for fn := range all {
		p.byName[fn.String()] = fn
		if pk := fnPkg(fn); pk != nil && strings.HasPrefix(pk.Path(), RepoMod) {
			p.RepoFns = append(p.RepoFns, fn)
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch s := ins.(type) {
						case *ssa.Store:
							if s.Addr == ssa.Value(g) {
								stores[g] = append(stores[g], s)
								continue
							}
							addrTaken[g] = true
						case *ssa.UnOp:
						default:
							addrTaken[g] = true
						}
					}
				}
			}
		}
	}
	for _, pk := range prog.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), RepoMod) {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				n := globalName(g)
				p.globals[n] = g
				if g.Name() == "init$guard" { // package initialisation runs once
					p.gconst[n] = MkBool(False)
					continue
				}
				if addrTaken[g] {
					continue
				}
				et := elemType(g.Type())
				switch len(stores[g]) {
				case 0:
					switch et.Underlying().(type) {
					case *types.Struct, *types.Array, *types.Basic:
						p.gconst[n] = zeroOf(et)
					}
				case 1:
					s := stores[g][0]
					if s.Parent().Name() == "init" {
						if c, ok := s.Val.(*ssa.Const); ok {
							p.gconst[n] = mkConst(c.Value, c.Type())
						}
						v := s.Val
						if ct, ok := v.(*ssa.ChangeType); ok {
							v = ct.X
						}
						if f, ok := v.(*ssa.Function); ok {
							p.gconst[n] = p.fnTerm(f)
						}
					}
				}
			}
		}
	}
	return p, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkg(o)
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

func (p *Program) fnTerm(fn *ssa.Function) *Term {
	if t, ok := p.fnTerms[fn]; ok {
		return t
	}
	t := mkTyped(fn.Type(), "fn", fn.String())
	p.fnTerms[fn] = t
	p.termFns[t] = fn
	return t
}

func (p *Program) closureTerm(fn *ssa.Function, args []*Term) *Term {
	t := mkTyped(fn.Type(), "closure", fn.String(), args...)
	p.termFns[t] = fn
	return t
}

// FnOf resolves a function value term.
func (p *Program) FnOf(t *Term) *ssa.Function { return p.fnOf(t) }

func (p *Program) fnOf(t *Term) *ssa.Function {
	if fn, ok := p.termFns[t]; ok {
		return fn
	}
	return p.byName[t.Sym]
}

// InitValue is what package initialisation stores in a global variable that nothing assigns later.
func (p *Program) InitValue(name string) *Term {
	g := p.globals[name]
	if g == nil {
		return nil
	}
	if s := p.stores[g]; len(s) != 1 || s[0].Parent().Name() != "init" || p.addrTaken[g] {
		return nil
	}
	pk := g.Pkg
	if p.inits == nil {
		p.inits = map[*ssa.Package]*initState{}
	}
	st := p.inits[pk]
	if st == nil {
		st = &initState{e: NewEval(p)}
		st.e.Init = true
		st.e.Opaque = func(fn *ssa.Function) bool {
			return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || fnPkg(fn) == nil || !strings.HasPrefix(fnPkg(fn).Path(), RepoMod)
		}
		o := st.e.Run(pk.Func("init"), nil, nil, True)
		for _, ex := range o.Exits {
			if !ex.Panic && (st.mem == nil || len(ex.Mem.m) > len(st.mem.m)) {
				st.mem = ex.Mem // not the exit of a package already initialised
			}
		}
		p.inits[pk] = st
	}
	et := elemType(g.Type())
	return st.e.Freeze(st.mem, boxGV(st.e.load(st.mem, mkTyped(g.Type(), "&global", name), et)), 0)
}

type initState struct {
	e   *Eval
	mem *Mem
}

func (p *Program) globalValue(name string, typ types.Type) *Term {
	if t, ok := p.gconst[name]; ok {
		return t
	}
	if g := p.globals[name]; g != nil && (isString(elemType(g.Type())) || isErrorTable(elemType(g.Type()))) && len(p.stores[g]) == 1 && !p.addrTaken[g] {
		return p.stringGlobal(name, g)
	}
	return mkTyped(typ, "global", name)
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

// Method finds a method of a named type (pointer receiver allowed).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	tn := p.Type(pkg, typ)
	if tn == nil {
		return nil
	}
	if n, ok := tn.(*types.Named); ok && n.TypeParams().Len() > 0 { // any instance of the generic method
		var best *ssa.Function
		for _, fn := range p.RepoFns {
			if o := fn.Origin(); o != nil && fn.Name() == name && o.Signature.Recv() != nil {
				rt := o.Signature.Recv().Type()
				if q, ok := rt.(*types.Pointer); ok {
					rt = q.Elem()
				}
				if rn, ok := rt.(*types.Named); ok && rn.Obj() == n.Obj() && (best == nil || fn.String() < best.String()) {
					best = fn
				}
			}
		}
		return best
	}
	for _, t := range []types.Type{tn, types.NewPointer(tn)} {
		ms := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// PkgPath expands a short package name: "" is the root package.
func PkgPath(short string) string {
	if short == "" || short == "iotago" {
		return RepoMod
	}
	if strings.Contains(short, ".") {
		return short
	}
	return RepoMod + "/" + short
}

// Type looks up a named type.
func (p *Program) Type(pkg, name string) types.Type {
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == PkgPath(pkg) {
			if o, ok := pk.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

// Func looks up a package-level function.
func (p *Program) Func(pkg, name string) *ssa.Function {
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == PkgPath(pkg) {
			return pk.Func(name)
		}
	}
	return nil
}

func (p *Program) inlinable(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == nil {
		return fn.Synthetic != "" && fn.Blocks != nil
	}
	path := pk.Path()
	if strings.HasPrefix(path, RepoMod) {
		return !strings.HasPrefix(path, RepoMod+"/tpkg")
	}
	for _, s := range []string{"lo", "core/safemath", "constraints", "runtime/options"} {
		if strings.HasPrefix(path, hivePrefix+s) {
			return true
		}
	}
	switch path {
	case "slices", "maps", "cmp", "sort":
		return fn.Name() != "Sort" && fn.Name() != "SortFunc" && fn.Name() != "Slice" && fn.Name() != "SortStableFunc" && path != "sort"
	}
	return false
}

// methods treated as primitive observers of an object
var primitive = map[string]bool{
	"FeatureSet": true, "ImmutableFeatureSet": true, "UnlockConditionSet": true,
	"ChainOutputSet": true, "ChainInputSet": true, "String": true, "ToHex": true,
	"StorageScoreStructure": true, "Alias": true, "Key": true,
}

func (p *Program) defaultOpaque(fn *ssa.Function) bool {
	return primitive[fn.Name()] || fn.Name() == "CommonSerixAPI" || p.OpaqueNames[FuncName(fn)]
}

func (p *Program) pure(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == nil {
		return false
	}
	path := pk.Path()
	if strings.HasPrefix(path, RepoMod) {
		return true
	}
	switch path {
	case "fmt", "strings", "errors", "bytes", "time", "strconv", "sync", "unicode", "context", "math", "math/bits":
		return true
	}
	return strings.HasPrefix(path, hivePrefix+"ierrors")
}
