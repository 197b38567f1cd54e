package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog    *ssa.Program
	funcs   map[string]*ssa.Function // by short name
	pkgs    map[string]*ssa.Package  // by package name
	named   map[string]types.Type    // "cache.Cache"
	local   map[*ssa.Package]bool
	gstores map[*ssa.Global][]*ssa.Store
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	if strings.HasPrefix(p.Path(), modPath) {
		return p.Name()
	}
	return p.Path()
}

const modPath = "github.com/liujiangwei/xxcache"

func qual(p *types.Package) string { return shortPkg(p) }

// short name: cache.(*Cache).Get, cache.tryInt64, redis.(ArrayMessage).Serialize
func shortName(f *ssa.Function) string {
	var pk string
	if f.Pkg != nil {
		pk = shortPkg(f.Pkg.Pkg)
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = shortPkg(f.Object().Pkg())
	}
	if f.Parent() != nil {
		return shortName(f.Parent()) + "$" + f.Name()[strings.LastIndex(f.Name(), "$")+1:]
	}
	if r := f.Signature.Recv(); r != nil {
		t := types.TypeString(r.Type(), func(*types.Package) string { return "" })
		if n := namedOf(r.Type()); n != nil && n.Obj().Pkg() != nil {
			pk = shortPkg(n.Obj().Pkg())
		}
		return pk + ".(" + t + ")." + f.Name()
	}
	return pk + "." + f.Name()
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile}
	pats := []string{"./..."}
	if *cDir != "" { // C functions as Go, made by c2go.py
		cfg.Overlay = map[string][]byte{}
		fs, _ := filepath.Glob(filepath.Join(*cDir, "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			n := strings.TrimSuffix(filepath.Base(f), ".go")
			cfg.Overlay[filepath.Join(dir, "zz_"+n, n+".go")] = b
			pats = append(pats, "./zz_"+n)
		}
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, funcs: map[string]*ssa.Function{}, pkgs: map[string]*ssa.Package{}, named: map[string]types.Type{}, local: map[*ssa.Package]bool{}}
	for _, p := range sp {
		if p == nil {
			continue
		}
		if p.Pkg.Name() == "main" {
			continue
		}
		P.pkgs[p.Pkg.Name()] = p
		P.local[p] = true
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				P.named[p.Pkg.Name()+"."+t.Name()] = t.Type()
			}
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && P.local[f.Pkg] && f.Synthetic == "" {
			P.funcs[shortName(f)] = f
		}
	}
	// methods of types that never become interface values
	for _, n := range P.named {
		nt, ok := n.(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		for i := 0; i < nt.NumMethods(); i++ {
			if f := prog.FuncValue(nt.Method(i)); f != nil && P.funcs[shortName(f)] == nil {
				P.funcs[shortName(f)] = f
			}
		}
	}
	return P, nil
}

func typeName(t types.Type) string {
	if s, ok := t.(*types.Signature); ok { // without the names of parameters
		anon := func(p *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < p.Len(); i++ {
				vs = append(vs, types.NewParam(0, nil, "", p.At(i).Type()))
			}
			return types.NewTuple(vs...)
		}
		t = types.NewSignatureType(nil, nil, nil, anon(s.Params()), anon(s.Results()), s.Variadic())
	}
	return types.TypeString(t, qual)
}
