package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// load type-checks the harness module with /repo's current source and builds SSA for everything reachable.
func load(dir string) (*Engine, *ssa.Package, error) {
	t0 := time.Now()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./props", "./stubs")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("the tree does not compile: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, redirects: map[string]*ssa.Function{}, maxSteps: 3000000, fullPerm: 4}
	e.sizes = types.SizesFor("gc", "amd64")
	find := func(path string) *ssa.Package {
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == path {
				return p
			}
		}
		return nil
	}
	if p := find("runtime"); p != nil {
		if t := p.Type("errorString"); t != nil {
			e.rtErr = t.Type()
		}
	}
	if p := find("reflect"); p != nil {
		e.rtypePtr = types.NewPointer(p.Type("rtype").Type())
		e.reflectValue = p.Type("Value").Type()
	}
	e.decodeRune = find("unicode/utf8").Func("DecodeRuneInString")
	stubs := spkgs[1]
	for k, v := range map[string]string{
		"encoding/json.Marshal":             "JSONMarshal",
		"html/template.New":                 "New",
		"(*html/template.Template).Funcs":   "Funcs",
		"(*html/template.Template).Parse":   "Parse",
		"(*html/template.Template).Execute": "Execute",
		"(*html/template.Template).Option":  "Option",
		"(*html/template.Template).Name":    "Name",
	} {
		f := stubs.Func(v)
		if f == nil {
			return nil, nil, fmt.Errorf("no stub %s", v)
		}
		e.redirects[k] = f
	}
	e.dict = collectDictionary(prog)
	e.loadTime = time.Since(t0)
	return e, spkgs[0], nil
}

// harnesses lists the harness functions of a property.
func harnesses(p *ssa.Package, id string) []*ssa.Function {
	var r []*ssa.Function
	for n, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, id+"_") && f.Signature.Params().Len() == 0 {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}
