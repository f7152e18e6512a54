package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const verifDir = "/verif"

// development only: GOSYM_REPO names a scratch copy, GOSYM_EVID where its results go. Checks use neither.
var (
	repoDir = envOr("GOSYM_REPO", "/repo")
	evidDir = envOr("GOSYM_EVID", verifDir+"/evidence")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// overlayMap: virtual file in /repo -> real file in /verif
func overlayMap() map[string]string {
	out := map[string]string{}
	add := func(src, dst string) {
		es, _ := os.ReadDir(src)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				out[filepath.Join(dst, e.Name())] = filepath.Join(src, e.Name())
			}
		}
	}
	add(verifDir+"/rt/zverif", repoDir+"/internal/zverif")
	add(verifDir+"/rt/zmodel", repoDir+"/internal/zmodel")
	add(verifDir+"/harness", repoDir+"/internal/zharness")
	return out
}

// programCopies: the programs as importable packages (package main renamed, main exported), from their current source
func programCopies() (map[string][]byte, error) {
	out := map[string][]byte{}
	for _, name := range []string{"bcwallet", "bcnode"} {
		if err := programCopy(name, out); err != nil {
			return nil, err
		}
	}
	return out, nil
}

func programCopy(name string, out map[string][]byte) error {
	es, err := os.ReadDir(repoDir + "/cmd/" + name)
	if err != nil {
		return err
	}
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(repoDir + "/cmd/" + name + "/" + n)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(token.NewFileSet(), n, b, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		type edit struct {
			at, n int
			s     string
		}
		eds := []edit{{int(f.Name.Pos()) - 1, len(f.Name.Name), "z" + name}}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				eds = append(eds, edit{int(fd.Name.Pos()) - 1, 4, "ZMain"})
			}
		}
		for i := len(eds) - 1; i >= 0; i-- {
			d := eds[i]
			b = append(append(append([]byte{}, b[:d.at]...), d.s...), b[d.at+d.n:]...)
		}
		out[repoDir+"/internal/z"+name+"/"+n] = b
	}
	return nil
}

func goEnv() []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		k := e[:strings.Index(e, "=")]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOCACHE", "CGO_ENABLED", "GOWORK", "GOENV", "GOSUMDB", "GOTOOLCHAIN", "PATH", "GOROOT":
			continue
		}
		out = append(out, e)
	}
	root := "/opt/veriftools/go1.27.3"
	path := "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
	if _, err := os.Stat(root + "/bin/go"); err == nil {
		out = append(out, "GOROOT="+root)
		path = root + "/bin:" + path
	} else {
		path = path + ":" + os.Getenv("PATH")
	}
	out = append(out, "PATH="+path, "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off",
		"GOENV=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOCACHE="+goCache())
	return out
}

func goCache() string {
	if d := os.Getenv("VERIF_GOCACHE"); d != "" {
		return d
	}
	return verifDir + "/.cache/gocache"
}

func loadProgram() (*Program, error) {
	ov := map[string][]byte{}
	for dst, src := range overlayMap() {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cp, err := programCopies()
	if err != nil {
		return nil, err
	}
	for dst, b := range cp {
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: ov,
		Env:     goEnv(),
	}
	pkgs, err := packages.Load(cfg, "./internal/zharness", "./internal/zmodel")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs[:min(len(errs), 10)], "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, sizes: types.SizesFor("gc", "amd64"), subst: map[string]*ssa.Function{},
		watch: map[string]bool{}, pkgByPath: map[string]*ssa.Package{}}
	for _, sp := range prog.AllPackages() {
		p.pkgByPath[sp.Pkg.Path()] = sp
	}
	ptrTo := func(pkg, name string) types.Type {
		sp := p.pkgByPath[pkg]
		if sp == nil {
			return nil
		}
		t := sp.Type(name)
		if t == nil {
			return nil
		}
		return types.NewPointer(t.Type())
	}
	p.errStr = ptrTo("errors", "errorString")
	p.wrapErr = ptrTo("fmt", "wrapError")
	p.pathErr = ptrTo("io/fs", "PathError")
	for _, w := range []string{"pkg/topic", "pkg/syncqueue", "pkg/queue", "pkg/syncmap", "pkg/disksyncmap"} {
		p.watch[repoMod+"/"+w] = true
	}
	// Go models of library functions: func in zmodel with a "//model: full.name" comment
	for _, pk := range pkgs {
		if pk.PkgPath != repoMod+"/internal/zmodel" {
			continue
		}
		sp := p.pkgByPath[pk.PkgPath]
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if s, ok := strings.CutPrefix(strings.Replace(c.Text, "// ", "//", 1), "//model:"); ok {
						p.subst[strings.TrimSpace(s)] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	}
	for _, pk := range pkgs {
		if pk.PkgPath == repoMod+"/internal/zharness" {
			p.harnPkg = pk
		}
	}
	return p, nil
}

// substitute: Go model replacing a library function
func (m *Machine) substitute(fn *ssa.Function) *ssa.Function {
	if len(m.p.subst) == 0 {
		return nil
	}
	if s, ok := m.substCache[fn]; ok {
		return s
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	s := m.p.subst[f.String()]
	m.substCache[fn] = s
	return s
}

// externs prints library functions called directly from repository code (development aid)
func (p *Program) externs() {
	set := map[string]int{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if !isRepoPkg(fnPkgPath(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if cal := ci.Common().StaticCallee(); cal != nil {
					if !isRepoPkg(fnPkgPath(cal)) {
						o := cal
						if cal.Origin() != nil {
							o = cal.Origin()
						}
						set[o.String()]++
					}
				} else if ci.Common().IsInvoke() {
					set["iface "+ci.Common().Value.Type().String()+"."+ci.Common().Method.Name()]++
				}
			}
		}
	}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(set[k], k)
	}
}
