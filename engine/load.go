package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine is the loaded program and the settings of a run.
type Engine struct {
	prog    *ssa.Program
	modPath string
	workers []*Interp
	inits   []*ssa.Package
	pkgs    map[string]*ssa.Package

	rtErrorT     types.Type
	errorStringT types.Type
	wrapErrorP   types.Type
	wrapErrorsP  types.Type
	errorT       types.Type
	utf8Append   *ssa.Function
	utf8Decode   *ssa.Function
	sizes        types.Sizes

	solver      string
	queryMS     int
	maxDepth    int
	stepLimit   int
	deadline    time.Time
	noMem       atomic.Bool
	maxWorkers  int
	maxConc     int
	maxLeaves   int
	maxViol     int
	maxSamples  int
	certTime    time.Duration
	sampleEvery int
	merge       bool
	mapOrder    bool
	keepLogic   bool
	verbose     bool

	owned    []*ssa.Global       // package-level variables of the code under test
	symPkg   *ssa.Package        // the interface of harnesses to the engine
	warm     []map[string]uint64 // the history paths start after
	thorough bool

	pure   map[*ssa.Function]bool
	pureMu sync.Mutex
	methMu sync.Mutex

	ws *workspace
}

// workspace is the generated build context: overlay, modfile, rewritten copies. It lives in a scratch directory.
type workspace struct {
	dir     string
	repo    string
	verif   string
	overlay map[string]string // path in the repo -> file
	modfile string
	ovFile  string
}

const (
	gomod      = "github.com/amarin/gomorphy"
	envMod     = "verif.test/v"
	harnessDir = "internal/verif"
)

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1")
}

// environment packages replaced by in-memory stand-ins
var standIns = map[string]string{
	"os":             envMod + "/vos",
	"io/ioutil":      envMod + "/vioutil",
	"path/filepath":  envMod + "/vfilepath",
	"net/http":       envMod + "/vhttp",
	"compress/bzip2": envMod + "/vbzip2",
	"time":           envMod + "/vtime",
}

// rewriteImports returns src with the imports in repl replaced (keeping the local name) and, if pkgName is set, another
// package clause. changed reports whether anything was.
func rewriteImports(file string, repl map[string]string, pkgName string) (out []byte, changed bool, err error) {
	fset := token.NewFileSet()
	src, err := os.ReadFile(file)
	if err != nil {
		return nil, false, err
	}
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if to, ok := repl[p]; ok {
			base := p[strings.LastIndexByte(p, '/')+1:]
			if im.Name == nil {
				im.Name = ast.NewIdent(base)
			}
			im.Path.Value = strconv.Quote(to)
			im.EndPos = token.NoPos
			changed = true
		}
	}
	if pkgName != "" && f.Name.Name != pkgName {
		f.Name.Name = pkgName
		changed = true
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "//line %s:1\n", file)
	if err := format.Node(&sb, fset, f); err != nil {
		return nil, false, err
	}
	return []byte(sb.String()), changed, nil
}

func goFiles(dir string) []string {
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var r []string
	for _, m := range ms {
		if !strings.HasSuffix(m, "_test.go") {
			r = append(r, m)
		}
	}
	sort.Strings(r)
	return r
}

// newWorkspace prepares the build of the harness packages against the current tree of repo.
func newWorkspace(repo, verif string) (*workspace, error) {
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	w := &workspace{dir: dir, repo: repo, verif: verif, overlay: map[string]string{}}
	put := func(target string, data []byte) error {
		f := filepath.Join(dir, "ov", strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "__"))
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			return err
		}
		w.overlay[target] = f
		return os.WriteFile(f, data, 0o644)
	}
	// harness packages
	hs, _ := filepath.Glob(filepath.Join(verif, "harness", "h*"))
	for _, h := range hs {
		for _, f := range goFiles(h) {
			w.overlay[filepath.Join(repo, harnessDir, filepath.Base(h), filepath.Base(f))] = f
		}
	}
	// the commands as importable packages, everything else in place, with the
	// environment packages replaced by stand-ins
	commands := []string{"opencorpora_test", "opencorpora_update"}
	mains := map[string]bool{}
	for _, c := range commands {
		mains[filepath.Join(repo, "cmd", c)] = true
	}
	repl := map[string]string{"github.com/chzyer/readline": envMod + "/vreadline", "flag": envMod + "/vflag"}
	for k, v := range standIns {
		repl[k] = v
	}
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || mains[filepath.Dir(p)] {
			return nil
		}
		out, ch, err := rewriteImports(p, repl, "")
		if err != nil {
			return err
		}
		if ch {
			return put(p, out)
		}
		return nil
	})
	if err != nil {
		return w, err
	}
	for _, c := range commands {
		hname := "h" + strings.ReplaceAll(c, "opencorpora_", "cmd")
		for _, f := range goFiles(filepath.Join(repo, "cmd", c)) {
			out, _, err := rewriteImports(f, repl, hname)
			if err != nil {
				return w, err
			}
			if err := put(filepath.Join(repo, harnessDir, hname, "orig_"+filepath.Base(f)), out); err != nil {
				return w, err
			}
		}
	}
	// binutils with the stand-in for os
	bdir, err := modDir(repo, "github.com/amarin/binutils")
	if err != nil {
		return w, err
	}
	bcopy := filepath.Join(dir, "binutils")
	if err := os.MkdirAll(bcopy, 0o755); err != nil {
		return w, err
	}
	for _, f := range goFiles(bdir) {
		out, _, err := rewriteImports(f, standIns, "")
		if err != nil {
			return w, err
		}
		if err := os.WriteFile(filepath.Join(bcopy, filepath.Base(f)), out, 0o644); err != nil {
			return w, err
		}
	}
	bm, err := os.ReadFile(filepath.Join(bdir, "go.mod"))
	if err != nil {
		return w, err
	}
	if err := os.WriteFile(filepath.Join(bcopy, "go.mod"), append(bm, []byte("\nrequire "+envMod+" v0.0.0\n")...), 0o644); err != nil {
		return w, err
	}
	// the XML reader stand-in, reading through the stand-in for os
	xcopy := filepath.Join(dir, "libxml")
	if err := os.MkdirAll(xcopy, 0o755); err != nil {
		return w, err
	}
	xs, err := os.ReadFile(filepath.Join(verif, "harness", "v", "vxml", "libxml.go.txt"))
	if err != nil {
		return w, err
	}
	if err := os.WriteFile(filepath.Join(xcopy, "libxml.go"), xs, 0o644); err != nil {
		return w, err
	}
	xm := "module github.com/amarin/libxml\n\ngo 1.18\n\nrequire " + envMod + " v0.0.0\n"
	if err := os.WriteFile(filepath.Join(xcopy, "go.mod"), []byte(xm), 0o644); err != nil {
		return w, err
	}
	// module file
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return w, err
	}
	txt := string(gm) + fmt.Sprintf(`
require %[1]s v0.0.0
replace %[1]s => %[2]s/harness/v
replace github.com/amarin/logging => %[2]s/shim/logging
replace github.com/amarin/libxml => %[4]s
replace github.com/amarin/binutils => %[3]s
`, envMod, verif, bcopy, xcopy)
	w.modfile = filepath.Join(dir, "go.mod")
	if err := os.WriteFile(w.modfile, []byte(txt), 0o644); err != nil {
		return w, err
	}
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), gs, 0o644); err != nil {
		return w, err
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": w.overlay})
	w.ovFile = filepath.Join(dir, "overlay.json")
	return w, os.WriteFile(w.ovFile, js, 0o644)
}

func (w *workspace) close() { os.RemoveAll(w.dir) }

// modDir finds the directory of a dependency of the repository.
func modDir(repo, mod string) (string, error) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", mod)
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil || strings.TrimSpace(string(out)) == "" {
		return "", fmt.Errorf("locating %s: %v", mod, err)
	}
	return strings.TrimSpace(string(out)), nil
}

// load type-checks the named harness packages and everything below them from source and builds SSA.
func load(w *workspace, names []string) (*Engine, error) {
	ov := map[string][]byte{}
	for target, f := range w.overlay {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[target] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:        w.repo,
		Env:        append(goEnv(), "CGO_ENABLED=0"),
		BuildFlags: []string{"-modfile=" + w.modfile},
		Overlay:    ov,
		Fset:       token.NewFileSet(),
	}
	var pats []string
	for _, n := range names {
		pats = append(pats, gomod+"/"+harnessDir+"/"+n)
	}
	pats = append(pats, "unicode/utf8", "errors", "fmt", "os", "io/fs")
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not build with the harness:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{
		prog: prog, modPath: gomod, pkgs: map[string]*ssa.Package{}, ws: w,
		solver: "z3-new", queryMS: 60000, maxDepth: 4000, stepLimit: 40_000_000, maxConc: 300, maxLeaves: 4096,
		maxViol: 12, maxSamples: 400, sampleEvery: 37, merge: true, pure: map[*ssa.Function]bool{},
	}
	for _, p := range prog.AllPackages() {
		if _, ok := e.pkgs[p.Pkg.Path()]; !ok {
			e.pkgs[p.Pkg.Path()] = p
		}
	}
	for i, p := range ps {
		if p.TypesSizes != nil {
			e.sizes = p.TypesSizes
		}
		if strings.HasPrefix(p.PkgPath, gomod+"/"+harnessDir+"/") {
			e.inits = append(e.inits, spkgs[i])
		}
	}
	if e.sizes == nil {
		e.sizes = types.SizesFor("gc", runtime.GOARCH)
	}
	typ := func(pkg, name string) types.Type {
		p := e.pkgs[pkg]
		if p == nil || p.Type(name) == nil {
			return nil
		}
		return p.Type(name).Type()
	}
	e.owned = e.ownGlobals()
	e.symPkg = e.pkgs[envMod+"/sym"]
	e.rtErrorT = typ("runtime", "errorString")
	e.errorStringT = typ("errors", "errorString")
	if t := typ("fmt", "wrapError"); t != nil {
		e.wrapErrorP = types.NewPointer(t)
	}
	if t := typ("fmt", "wrapErrors"); t != nil {
		e.wrapErrorsP = types.NewPointer(t)
	}
	e.errorT = types.Universe.Lookup("error").Type()
	if p := e.pkgs["unicode/utf8"]; p != nil {
		e.utf8Append, e.utf8Decode = p.Func("AppendRune"), p.Func("DecodeRuneInString")
	}
	if e.errorStringT == nil || e.wrapErrorP == nil || e.wrapErrorsP == nil || e.utf8Append == nil {
		return nil, fmt.Errorf("standard library types not found")
	}
	return e, nil
}

var initOK = map[string]bool{"io": true, "io/fs": true, "internal/oserror": true, "strconv": true, "internal/strconv": true, "time": true, "strings": true, "bytes": true,
	"sort": true, "slices": true, "maps": true, "cmp": true, "bufio": true, "path": true, "path/filepath": true, "encoding": true,
	"encoding/binary": true, "hash/crc32": true, "fmt": true, "context": true, "math": true, "math/bits": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true}

func (e *Engine) initPkg(path string) bool {
	if path == envMod+"/sym" {
		return false
	}
	return initOK[path] || strings.HasPrefix(path, "github.com/amarin/") || strings.HasPrefix(path, envMod) ||
		strings.HasPrefix(path, "container/") || path == "golang.org/x/exp/slices"
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	e.methMu.Lock()
	defer e.methMu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	var sel *types.Selection
	if pkg != nil {
		sel = ms.Lookup(pkg, name)
	} else {
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i); s.Obj().Name() == name && s.Obj().Exported() {
				sel = s
				break
			}
		}
	}
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// postInit sets globals whose packages are not initialised by interpretation.
func (in *Interp) postInit() {
	src := in.eng.pkgs["io/fs"]
	dst := in.eng.pkgs["os"]
	if src == nil || dst == nil {
		return
	}
	for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
		if g, ok := dst.Members[n].(*ssa.Global); ok {
			if s, ok := src.Members[n].(*ssa.Global); ok {
				*in.global(g) = *in.global(s)
			}
		}
	}
}

// harness finds a harness function.
func (e *Engine) harness(pkg, name string) *ssa.Function {
	p := e.pkgs[gomod+"/"+harnessDir+"/"+pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// witnesses are the constant arguments of the calls of sym.Cover in a harness.
func (e *Engine) witnesses(fn *ssa.Function) []string {
	var l []string
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "Cover" || len(c.Call.Args) != 1 {
				continue
			}
			if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
				l = append(l, constant.StringVal(k.Value))
			}
		}
	}
	return l
}
