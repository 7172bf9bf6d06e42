package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/zijiren233/gencontainer"
const ndPath = modPath + "/zzverif/nd"

// Harness is one harness function and its directives.
type Harness struct {
	Name   string // function name
	Pkg    string // harness package (directory below harness/)
	Prop   string
	Mode   string                    // F or M
	Doc    string                    // first sentence of its doc comment: the assertion it encodes
	Split  int                       // job-splitting depth
	Params map[string]map[string]int // tier -> name -> value
	Opts   map[string]string
	fn     *ssa.Function
	covers []string
}

func (h *Harness) coverNames() []string { return h.covers }

func (h *Harness) param(tier, name string, def int) int {
	if v, ok := h.Params[tier][name]; ok {
		return v
	}
	if v, ok := h.Params["quick"][name]; ok {
		return v
	}
	return def
}

type Program struct {
	prog     *ssa.Program
	fset     *token.FileSet
	sizes    types.Sizes
	harness  []*Harness
	initPkgs []*ssa.Package
	mu       sync.Mutex
	infos    map[*ssa.Function]*FnInfo
	intr     map[*ssa.Function]Intrinsic
	vis      map[*ssa.Function]string
	ensured  map[*ssa.Function]bool
	repo     string
	loadSecs float64
	pkgs     map[string]*ssa.Package
}

type Intrinsic func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value

func harnessOverlay(repo, hdir string) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	files := map[string]string{}
	err := filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, p)
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(repo, "zzverif", rel)
		ov[dst] = data
		files[dst] = p
		return nil
	})
	return ov, files, err
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off")
}

func loadProgram(repo, hdir string, pkgs []string) (*Program, error) {
	ov, _, err := harnessOverlay(repo, hdir)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: fset, Overlay: ov, Env: goEnv()}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, "./zzverif/"+p)
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	P := &Program{prog: prog, fset: fset, sizes: types.SizesFor("gc", "amd64"), infos: map[*ssa.Function]*FnInfo{},
		intr: map[*ssa.Function]Intrinsic{}, ensured: map[*ssa.Function]bool{}, repo: repo, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	for i, p := range initial {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		spkgs[i].Build()
		P.initPkgs = append(P.initPkgs, spkgs[i])
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				h := parseDirectives(fd)
				if h == nil {
					continue
				}
				h.Pkg = strings.TrimPrefix(p.PkgPath, modPath+"/zzverif/")
				h.fn = spkgs[i].Func(fd.Name.Name)
				P.harness = append(P.harness, h)
			}
		}
	}
	sort.Slice(P.harness, func(i, j int) bool { return P.harness[i].Name < P.harness[j].Name })
	return P, nil
}

// parseDirectives reads //gosym:check PROP k=v ..., //gosym:quick N=3 ..., //gosym:thorough N=4 ...
func parseDirectives(fd *ast.FuncDecl) *Harness {
	var h *Harness
	for _, c := range fd.Doc.List {
		t := c.Text
		if !strings.HasPrefix(t, "//gosym:") {
			continue
		}
		f := strings.Fields(strings.TrimPrefix(t, "//gosym:"))
		if h == nil {
			h = &Harness{Name: fd.Name.Name, Mode: "F", Split: 1, Params: map[string]map[string]int{"quick": {}, "thorough": {}}, Opts: map[string]string{}}
		}
		switch f[0] {
		case "check":
			h.Prop = f[1]
			for _, kv := range f[2:] {
				k, v, _ := strings.Cut(kv, "=")
				switch k {
				case "mode":
					h.Mode = v
				case "split":
					h.Split, _ = strconv.Atoi(v)
				default:
					h.Opts[k] = v
				}
			}
		case "quick", "thorough":
			for _, kv := range f[1:] {
				k, v, _ := strings.Cut(kv, "=")
				n, err := strconv.Atoi(v)
				if err != nil {
					fatal("directive %s", t)
				}
				h.Params[f[0]][k] = n
			}
		}
	}
	if h == nil || h.Prop == "" {
		return nil
	}
	var doc []string
	for _, l := range strings.Split(fd.Doc.Text(), "\n") {
		if strings.TrimSpace(l) == "" {
			break
		}
		doc = append(doc, strings.TrimSpace(l))
	}
	h.Doc = strings.Join(doc, " ")
	ast.Inspect(fd, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 1 {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Cover" {
				if l, ok := c.Args[0].(*ast.BasicLit); ok {
					v, _ := strconv.Unquote(l.Value)
					h.covers = append(h.covers, v)
				}
			}
		}
		return true
	})
	return h
}

func (P *Program) info(fn *ssa.Function) *FnInfo {
	P.mu.Lock()
	defer P.mu.Unlock()
	fi, ok := P.infos[fn]
	if !ok {
		fi = buildInfo(fn)
		P.infos[fn] = fi
	}
	return fi
}

// ensure builds the package a function belongs to.
func (P *Program) ensure(fn *ssa.Function) {
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.ensured[fn] {
		return
	}
	if len(fn.Blocks) == 0 {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	P.ensured[fn] = true
}

// initAllowed lists the packages whose package initialisers are executed.
func initAllowed(path string) bool {
	if strings.HasPrefix(path, modPath) {
		return path != ndPath
	}
	switch path {
	case "context", "errors", "sort", "slices", "maps", "cmp", "strings", "strconv", "container/list", "container/heap", "container/ring",
		"math", "math/bits", "unicode/utf8", "iter", "golang.org/x/exp/slices", "golang.org/x/exp/maps", "golang.org/x/exp/constraints", "github.com/maruel/natural", "bytes":
		return true
	}
	return false
}

func (P *Program) intrinsic(fn *ssa.Function) Intrinsic {
	P.mu.Lock()
	defer P.mu.Unlock()
	if in, ok := P.intr[fn]; ok {
		return in
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	name := o.String()
	in := intrinsics[name]
	if in == nil && o.Pkg != nil && o.Name() == "init" && o.Synthetic == "package initializer" && !initAllowed(o.Pkg.Pkg.Path()) {
		in = func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return &TupleV{} }
	}
	if in == nil && strings.HasPrefix(name, ndPath+".") {
		if f := ndIntrinsics[strings.TrimPrefix(name, ndPath+".")]; f != nil {
			in = f
		}
	}
	P.intr[fn] = in
	return in
}

// where a function comes from, for evidence
func (P *Program) origin(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.String()
}
