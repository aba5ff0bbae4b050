package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/oov/psd"

// Config is one build configuration of the repository.
type Config struct {
	Name   string
	GOOS   string
	GOARCH string
}

// Program is the resolved program of one build configuration.
type Program struct {
	repoFns []*ssa.Function
	Cfg     Config
	Root    string
	Fset    *token.FileSet
	Pkgs    map[string]*RepoPkg // by import path relative to the module ("" = root)
	SSA     *ssa.Program
	all     map[string]*types.Package
	errs    []string
	bctx    build.Context
	files   int
	funcs   []*ssa.Function
}

// RepoPkg is one package of the repository.
type RepoPkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
	SSA   *ssa.Package
}

func (p *Program) rel(pos token.Pos) string {
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

var modCache = func() string {
	if m := os.Getenv("GOMODCACHE"); m != "" {
		return m
	}
	return "/root/go/pkg/mod"
}()

func goroot() string {
	if g := os.Getenv("GOROOT"); g != "" {
		return g
	}
	for _, g := range []string{"/opt/veriftools/go1.27.3", build.Default.GOROOT} {
		if _, err := os.Stat(filepath.Join(g, "src", "io")); err == nil {
			return g
		}
	}
	return build.Default.GOROOT
}

// latestMod finds the newest cached version of a module.
func latestMod(mod string) string {
	dir := filepath.Join(modCache, filepath.Dir(mod))
	ents, err := os.ReadDir(dir)
	if err != nil {
		return ""
	}
	base := filepath.Base(mod) + "@"
	var c []string
	for _, e := range ents {
		if strings.HasPrefix(e.Name(), base) {
			c = append(c, e.Name())
		}
	}
	sort.Slice(c, func(i, j int) bool { return verLess(c[i][len(base):], c[j][len(base):]) })
	if len(c) == 0 {
		return ""
	}
	return filepath.Join(dir, c[len(c)-1])
}

func verLess(a, b string) bool {
	pa, pb := verParts(a), verParts(b)
	for i := range pa {
		if pa[i] != pb[i] {
			return pa[i] < pb[i]
		}
	}
	return a < b
}

func verParts(v string) [3]int {
	var r [3]int
	v = strings.TrimPrefix(v, "v")
	if i := strings.IndexAny(v, "-+"); i >= 0 {
		v = v[:i]
	}
	fmt.Sscanf(v, "%d.%d.%d", &r[0], &r[1], &r[2])
	return r
}

var stubSources = map[string]string{
	"github.com/oov/downscale": `package downscale
import ("context";"image")
func NRGBAFast(ctx context.Context, dest *image.NRGBA, src *image.NRGBA) error { return nil }
func NRGBA(ctx context.Context, dest *image.NRGBA, src *image.NRGBA) error { return nil }
func NRGBAGamma(ctx context.Context, dest *image.NRGBA, src *image.NRGBA, gamma float64) error { return nil }
func NRGBAFastGamma(ctx context.Context, dest *image.NRGBA, src *image.NRGBA, gamma float64) error { return nil }
`,
	"github.com/gopherjs/gopherjs/js": `package js
type Object struct{ object *Object }
func (o *Object) Get(key string) *Object { return nil }
func (o *Object) Set(key string, value interface{}) {}
func (o *Object) Call(name string, args ...interface{}) *Object { return nil }
func (o *Object) Bool() bool { return false }
func (o *Object) Int() int { return 0 }
func (o *Object) Interface() interface{} { return nil }
var Global *Object
`,
}

var depMods = []string{"golang.org/x/image", "golang.org/x/text", "github.com/pkg/errors", "golang.org/x/sync", "golang.org/x/exp"}

// Load parses and type-checks the whole repository under cfg, without running the go command.
func Load(root string, cfg Config) (*Program, error) {
	p := &Program{Cfg: cfg, Root: root, Fset: token.NewFileSet(), Pkgs: map[string]*RepoPkg{}, all: map[string]*types.Package{}}
	p.bctx = build.Default
	p.bctx.GOROOT = goroot()
	p.bctx.GOOS, p.bctx.GOARCH = cfg.GOOS, cfg.GOARCH
	p.bctx.CgoEnabled = false
	p.bctx.Compiler = "gc"
	// repository packages
	var dirs []string
	err := filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if path != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || n == "output") {
				return filepath.SkipDir
			}
			dirs = append(dirs, path)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	p.SSA = ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	for _, d := range dirs {
		rel, _ := filepath.Rel(root, d)
		if rel == "." {
			rel = ""
		}
		if _, err := p.loadRepo(rel); err != nil {
			return nil, err
		}
	}
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", root)
	}
	if len(p.errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(p.errs[:min(len(p.errs), 5)], "; "))
	}
	// dependencies as opaque packages
	created := map[string]bool{}
	for _, rp := range p.Pkgs {
		created[rp.Path] = true
	}
	var paths []string
	for k := range p.all {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		if !created[k] {
			p.SSA.CreatePackage(p.all[k], nil, nil, true)
		}
	}
	var rk []string
	for k := range p.Pkgs {
		rk = append(rk, k)
	}
	sort.Strings(rk)
	for _, k := range rk {
		rp := p.Pkgs[k]
		rp.SSA = p.SSA.CreatePackage(rp.Types, rp.Files, rp.Info, true)
	}
	p.SSA.Build()
	for f := range ssautil.AllFunctions(p.SSA) {
		if f.Blocks != nil {
			p.funcs = append(p.funcs, f)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		if p.funcs[i].Pos() != p.funcs[j].Pos() {
			return p.funcs[i].Pos() < p.funcs[j].Pos()
		}
		return p.funcs[i].String() < p.funcs[j].String()
	})
	return p, nil
}

func (p *Program) goFiles(dir string) []string {
	ents, _ := os.ReadDir(dir)
	var out []string
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasPrefix(n, "_") || strings.HasPrefix(n, ".") {
			continue
		}
		if ok, err := p.bctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		out = append(out, filepath.Join(dir, n))
	}
	return out
}

func (p *Program) loadRepo(rel string) (*RepoPkg, error) {
	path := repoModule
	if rel != "" {
		path += "/" + rel
	}
	if rp, ok := p.Pkgs[rel]; ok {
		return rp, nil
	}
	if p.Cfg.GOARCH != "amd64" && rel == "psdexporter" {
		// command line tool: not part of the js/wasm builds
	}
	dir := filepath.Join(p.Root, rel)
	names := p.goFiles(dir)
	if len(names) == 0 {
		return nil, nil
	}
	rp := &RepoPkg{Path: path, Dir: dir}
	for _, n := range names {
		f, err := parser.ParseFile(p.Fset, n, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		rp.Files = append(rp.Files, f)
		p.files++
	}
	rp.Info = &types.Info{
		Types:        map[ast.Expr]types.TypeAndValue{},
		Defs:         map[*ast.Ident]types.Object{},
		Uses:         map[*ast.Ident]types.Object{},
		Implicits:    map[ast.Node]types.Object{},
		Selections:   map[*ast.SelectorExpr]*types.Selection{},
		Scopes:       map[ast.Node]*types.Scope{},
		Instances:    map[*ast.Ident]types.Instance{},
		FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{
		Importer:  importerFunc(func(ip string) (*types.Package, error) { return p.importPkg(ip, dir) }),
		GoVersion: "go1.27",
		Sizes:     types.SizesFor("gc", "amd64"),
		Error: func(err error) {
			p.errs = append(p.errs, err.Error())
		},
	}
	tp, _ := conf.Check(path, p.Fset, rp.Files, rp.Info)
	rp.Types = tp
	p.Pkgs[rel] = rp
	p.all[path] = tp
	return rp, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

func (p *Program) importPkg(path, fromDir string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if tp, ok := p.all[path]; ok {
		if tp == nil {
			return nil, fmt.Errorf("import cycle through %s", path)
		}
		return tp, nil
	}
	if path == repoModule || strings.HasPrefix(path, repoModule+"/") {
		rp, err := p.loadRepo(strings.TrimPrefix(strings.TrimPrefix(path, repoModule), "/"))
		if err != nil {
			return nil, err
		}
		if rp == nil {
			return nil, fmt.Errorf("no package %s", path)
		}
		return rp.Types, nil
	}
	p.all[path] = nil
	var files []*ast.File
	if src, ok := stubSources[path]; ok {
		f, err := parser.ParseFile(p.Fset, path+"/stub.go", src, 0)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	} else {
		dir := p.findDep(path)
		if dir == "" {
			delete(p.all, path)
			return nil, fmt.Errorf("package %s not found", path)
		}
		for _, n := range p.goFiles(dir) {
			f, err := parser.ParseFile(p.Fset, n, nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			files = append(files, f)
		}
	}
	conf := types.Config{
		Importer:         importerFunc(func(ip string) (*types.Package, error) { return p.importPkg(ip, "") }),
		IgnoreFuncBodies: true,
		FakeImportC:      true,
		Sizes:            types.SizesFor("gc", "amd64"),
		Error:            func(error) {},
	}
	tp, _ := conf.Check(path, p.Fset, files, nil)
	p.all[path] = tp
	return tp, nil
}

func (p *Program) findDep(path string) string {
	for _, d := range []string{filepath.Join(p.bctx.GOROOT, "src", path), filepath.Join(p.bctx.GOROOT, "src", "vendor", path)} {
		if len(p.goFiles(d)) > 0 {
			return d
		}
	}
	for _, m := range depMods {
		if path == m || strings.HasPrefix(path, m+"/") {
			root := latestMod(m)
			if root == "" {
				continue
			}
			d := filepath.Join(root, strings.TrimPrefix(strings.TrimPrefix(path, m), "/"))
			if len(p.goFiles(d)) > 0 {
				return d
			}
		}
	}
	return ""
}
