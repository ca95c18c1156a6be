package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func goEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GO") && !strings.HasPrefix(kv, "GOCACHE=") {
			continue
		}
		if strings.HasPrefix(kv, "PATH=") {
			continue
		}
		env = append(env, kv)
	}
	goroot := "/opt/veriftools/go1.23.12/bin"
	env = append(env, "PATH="+goroot+":"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=readonly", "GO111MODULE=on", "CGO_ENABLED=1")
	if os.Getenv("GOMODCACHE") == "" {
		env = append(env, "GOMODCACHE=/root/go/pkg/mod", "GOPATH=/root/go")
	}
	return env
}

// parseFile parses repository files completely; function bodies of
// dependencies are dropped (only their declarations are needed).
func parseFile(dir string) func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
	return func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
		if strings.HasPrefix(filename, dir+"/") {
			return parser.ParseFile(fset, filename, src, parser.AllErrors|parser.ParseComments)
		}
		f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
		if f != nil {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					fd.Body = nil
				}
			}
		}
		return f, err
	}
}

// Load type-checks every package of the repository from its current source.
func Load(dir string) (*Engine, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.LoadAllSyntax | packages.NeedModule, BuildFlags: []string{"-tags=norace"}, Env: goEnv(), ParseFile: parseFile(dir)}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check errors: %s", strings.Join(errs, "; "))
	}
	prog := ssa.NewProgram(pkgs[0].Fset, ssa.InstantiateGenerics)
	initial := map[*packages.Package]bool{}
	for _, p := range pkgs {
		initial[p] = true
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types == nil {
			return
		}
		if initial[p] {
			prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		} else {
			prog.CreatePackage(p.Types, nil, nil, true)
		}
	})
	prog.Build()
	e := &Engine{prog: prog, pkgs: pkgs, fset: prog.Fset, byName: map[string]*ssa.Function{}, vocab: map[string]bool{},
		resolved: map[string]*ssa.Function{}, memo: map[string]*Inst{}, maxDepth: 16, mutMemo: map[string]bool{},
		keepers: map[string]*types.Named{}, transp: map[*ssa.Function]int{}, noInline: map[string]bool{},
		forceOpaque: map[string]bool{}, forceTransparent: map[string]bool{
			"services/types.Service.Update": true, "operators/types.Operator.Update": true,
			"services/types.Service.RemoveDelShares": true, "operators/types.Operator.RemoveDelShares": true, "pools/types.Pool.RemoveDelShares": true,
			"services/types.Service.AddTokensFromDelegation": true, "operators/types.Operator.AddTokensFromDelegation": true, "pools/types.Pool.AddTokensFromDelegation": true,
			"restaking/types.GetDelegationTypeFromTarget": true,
		}}
	for _, t := range []string{"DecPools", "Pools", "ServicePools", "DecPool", "Pool", "ServicePool"} {
		for _, m := range []string{"Sum", "Add", "safeAdd", "Sub", "SafeSub", "IsAnyNegative", "negative", "CoinsOf", "IsEmpty", "TruncateDecimal", "CoinsAmount", "Intersect", "Sort"} {
			e.forceOpaque["rewards/types."+t+"."+m] = true
		}
	}
	e.forceOpaque["rewards/types.NewDecPoolsFromPools"] = true
	e.forceOpaque["rewards/types.removeZeroDecPools"] = true
	e.forceOpaque["rewards/types.removeZeroPools"] = true
	e.forceOpaque["rewards/types.removeZeroServicePools"] = true
	for _, p := range pkgs {
		if p.Types == nil {
			continue
		}
		if strings.HasSuffix(p.PkgPath, "/keeper") {
			if o, ok := p.Types.Scope().Lookup("Keeper").(*types.TypeName); ok {
				if n, ok := o.Type().(*types.Named); ok {
					e.keepers[strings.TrimSuffix(shortPkg(p.PkgPath), "/keeper")] = n
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !inRepo(fn.Pkg.Pkg) || len(fn.Blocks) == 0 {
			continue
		}
		e.repoFns = append(e.repoFns, fn)
		if fn.Parent() == nil && fn.Synthetic == "" {
			e.byName[e.fnName(fn)] = fn
		}
	}
	sort.Slice(e.repoFns, func(a, b int) bool {
		x, y := e.repoFns[a], e.repoFns[b]
		if x.Pos() != y.Pos() {
			return x.Pos() < y.Pos()
		}
		return x.String() < y.String()
	})
	theEngine = e
	return e, nil
}

func (e *Engine) where(ins ssa.Instruction) string {
	p := e.fset.Position(ins.Pos())
	if !p.IsValid() {
		p = e.fset.Position(ins.Parent().Pos())
	}
	return strings.TrimPrefix(p.Filename, repoDir+"/") + ":" + fmt.Sprint(p.Line)
}

func (e *Engine) whereFn(fn *ssa.Function) string {
	p := e.fset.Position(fn.Pos())
	return strings.TrimPrefix(p.Filename, repoDir+"/") + ":" + fmt.Sprint(p.Line)
}
