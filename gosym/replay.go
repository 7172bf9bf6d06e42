package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ReplayFile is what a native run of a harness needs (nd reads it).
type ReplayFile struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Pkg      string         `json:"pkg"`
	Shim     bool           `json:"shim"`
	Kind     string         `json:"kind,omitempty"`
	Message  string         `json:"message,omitempty"`
	Params   map[string]int `json:"params"`
	Inputs   []ReplayInput  `json:"inputs"`
	Sched    [][2]int       `json:"sched,omitempty"`
	Points   []string       `json:"points,omitempty"` // file:line of plain accesses that are scheduling points
}

type ReplayInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    string `json:"v"`
}

func (m *Machine) materialize(inputs []Input, md Model) []ReplayInput {
	var out []ReplayInput
	for _, in := range inputs {
		if in.g != nil && m.c.Eval(in.g, md) == 0 {
			continue
		}
		r := ReplayInput{Name: in.name, Kind: in.kind}
		switch in.kind {
		case "case":
			r.V = strconv.Itoa(in.conc)
		case "str":
			b := make([]byte, len(in.bs))
			for i, t := range in.bs {
				b[i] = byte(m.c.Eval(t, md))
			}
			r.V = hex.EncodeToString(b)
		default:
			r.V = strconv.FormatUint(m.c.Eval(in.t, md), 10)
		}
		out = append(out, r)
	}
	return out
}

func (m *Machine) replayFile(inputs []Input, md Model, kind, msg string) *ReplayFile {
	h := m.job.H
	rf := &ReplayFile{Property: h.Prop, Harness: h.Name, Pkg: h.Pkg, Kind: kind, Message: msg, Params: m.job.params, Inputs: m.materialize(inputs, md)}
	rf.Shim = h.Mode == "M" || h.Opts["shim"] != ""
	return rf
}

// Replayer builds and runs native replays.
type Replayer struct {
	P     *Program
	hdir  string
	tmp   string
	mu    sync.Mutex
	built map[string]*builtReplay
	nrun  int
}

type builtReplay struct {
	once sync.Once
	bin  string
	err  error
}

func (rf *ReplayFile) race() bool { return rf.Kind == "race" }

func NewReplayer(P *Program, hdir string) *Replayer {
	tmp, err := os.MkdirTemp("", "gosym-replay-")
	if err != nil {
		fatal("%v", err)
	}
	return &Replayer{P: P, hdir: hdir, tmp: tmp, built: map[string]*builtReplay{}}
}

func (r *Replayer) Close() {
	if os.Getenv("GOSYM_KEEP") != "" {
		println(r.tmp)
		return
	}
	os.RemoveAll(r.tmp)
}

func (r *Replayer) binary(rf *ReplayFile) (string, error) {
	key := fmt.Sprintf("%s|%v|%s|%v", rf.Pkg, rf.Shim, strings.Join(rf.Points, ","), rf.race())
	r.mu.Lock()
	b := r.built[key]
	if b == nil {
		b = &builtReplay{}
		r.built[key] = b
	}
	n := len(r.built)
	r.mu.Unlock()
	b.once.Do(func() { b.bin, b.err = r.build(rf, n) })
	return b.bin, b.err
}

func (r *Replayer) build(rf *ReplayFile, n int) (string, error) {
	dir := filepath.Join(r.tmp, fmt.Sprintf("b%d", n))
	os.MkdirAll(dir, 0o755)
	_, files, err := harnessOverlay(r.P.repo, r.hdir)
	if err != nil {
		return "", err
	}
	ov := map[string]string{}
	for dst, src := range files {
		ov[dst] = src
	}
	write := func(dst, text string) error {
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", len(ov)))
		ov[dst] = f
		return os.WriteFile(f, []byte(text), 0o644)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"os\"\n\th %q\n)\n\nfunc main() {\n\tswitch os.Getenv(\"ND_HARNESS\") {\n", modPath+"/zzverif/"+rf.Pkg)
	for _, h := range r.P.harness {
		if h.Pkg == rf.Pkg {
			fmt.Fprintf(&sb, "\tcase %q:\n\t\th.%s()\n", h.Name, h.Name)
		}
	}
	sb.WriteString("\t}\n}\n")
	if rf.race() { // real goroutines and locks, many times over, under the race detector
		t := strings.Replace(sb.String(), "func main() {", "func main() { for nd.Again() { run() } }\n\nfunc run() {", 1)
		t = strings.Replace(t, "import (", fmt.Sprintf("import (\n\t%q", ndPath), 1)
		sb.Reset()
		sb.WriteString(t)
	}
	if err := write(filepath.Join(r.P.repo, "zzverif", "zzmain", "main.go"), sb.String()); err != nil {
		return "", err
	}
	if rf.Shim {
		for path, text := range r.P.shims() {
			if rf.race() && strings.HasPrefix(path, "sync") {
				continue
			}
			if err := write(filepath.Join(r.P.repo, "zzverif", "shim", path, "shim.go"), text); err != nil {
				return "", err
			}
		}
		if err := r.rewriteRepo(rf, write); err != nil {
			return "", err
		}
	}
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, oj, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", of, "-o", bin}
	if rf.race() {
		args = append(args, "-race", "-gcflags="+modPath+"/...=-l")
	}
	cmd := exec.Command("go", append(args, "./zzverif/zzmain")...)
	cmd.Dir = r.P.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("replay build: %v\n%s", err, out)
	}
	return bin, nil
}

var shimPkgs = []string{"time", "sync", "sync/atomic", "hash/crc32"}

// rewriteRepo redirects the shimmed imports of every non-test source file of the repository and inserts scheduling points.
func (r *Replayer) rewriteRepo(rf *ReplayFile, write func(dst, text string) error) error {
	pts := map[string]map[int]string{}
	for _, p := range rf.Points {
		i := strings.LastIndex(p, ":")
		rw := p[i+1:]
		p = p[:i]
		i = strings.LastIndex(p, ":")
		l, _ := strconv.Atoi(p[i+1:])
		f := p[:i]
		if pts[f] == nil {
			pts[f] = map[int]string{}
		}
		pts[f][l] += rw
	}
	return filepath.Walk(r.P.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != r.P.repo || fi.Name() == "zzverif" || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		type edit struct {
			off, end int
			text     string
		}
		var edits []edit
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			for _, s := range shimPkgs {
				if path == s && !(rf.race() && strings.HasPrefix(s, "sync")) {
					name := filepath.Base(s)
					if im.Name != nil {
						name = im.Name.Name
					}
					off := fset.Position(im.Pos()).Offset
					end := fset.Position(im.End()).Offset
					edits = append(edits, edit{off, end, fmt.Sprintf("%s %q", name, modPath+"/zzverif/shim/"+s)})
				}
			}
		}
		lines := pts[p]
		if rf.race() {
			lines = nil
		}
		if len(lines) > 0 {
			done := map[int]bool{}
			imp := false
			var visit func(list []ast.Stmt)
			visit = func(list []ast.Stmt) {
				for _, s := range list {
					a, b := fset.Position(s.Pos()).Line, fset.Position(s.End()).Line
					for l, rw := range lines {
						if a <= l && l <= b && !done[l] {
							inner := false
							ast.Inspect(s, func(n ast.Node) bool {
								if n == s || inner {
									return !inner
								}
								if bl, ok := n.(*ast.BlockStmt); ok {
									if fset.Position(bl.Pos()).Line < l && l < fset.Position(bl.End()).Line {
										inner = true
									}
								}
								return true
							})
							if !inner {
								done[l] = true
								imp = true
								so, eo := fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset
								at := func(x ast.Node) string {
									return string(src[fset.Position(x.Pos()).Offset:fset.Position(x.End()).Offset])
								}
								if len(rw) > 1 { // the statement reads and then writes: another thread may come between
									switch s := s.(type) {
									case *ast.IncDecStmt:
										edits = append(edits, edit{so, eo, fmt.Sprintf("zznd.Point(); zzt%d := %s; zznd.Point(); %s = zzt%d %s 1", l, at(s.X), at(s.X), l, s.Tok.String()[:1])})
										continue
									case *ast.AssignStmt:
										if len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok != token.DEFINE {
											rhs := at(s.Rhs[0])
											if s.Tok != token.ASSIGN {
												op := s.Tok.String()
												rhs = at(s.Lhs[0]) + op[:len(op)-1] + "(" + rhs + ")"
											}
											edits = append(edits, edit{so, eo, fmt.Sprintf("zznd.Point(); zzt%d := %s; zznd.Point(); %s = zzt%d", l, rhs, at(s.Lhs[0]), l)})
											continue
										}
									}
								}
								edits = append(edits, edit{so, so, "zznd.Point(); "})
							}
						}
					}
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					visit(b.List)
				case *ast.CaseClause:
					visit(b.Body)
				}
				return true
			})
			if imp {
				off := fset.Position(f.Name.End()).Offset
				edits = append(edits, edit{off, off, fmt.Sprintf("\nimport zznd %q\n", ndPath)})
			}
		}
		if len(edits) == 0 {
			return nil
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].off > edits[j].off })
		text := string(src)
		for _, e := range edits {
			text = text[:e.off] + e.text + text[e.end:]
		}
		return write(p, text)
	})
}

// Run executes a replay natively; reproduced is true when the harness failed as predicted.
func (r *Replayer) Run(rf *ReplayFile, tries int) (outcome string, detail string, err error) {
	bin, err := r.binary(rf)
	if err != nil {
		return "", "", err
	}
	r.mu.Lock()
	r.nrun++
	id := r.nrun
	r.mu.Unlock()
	f := filepath.Join(r.tmp, fmt.Sprintf("r%d.json", id))
	b, _ := json.Marshal(rf)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return "", "", err
	}
	defer os.Remove(f)
	if rf.race() {
		return r.runRace(rf, bin, f)
	}
	for k := 0; k < tries; k++ {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 8000000; exec "+bin)
		cmd.Env = append(os.Environ(), "ND_REPLAY="+f, "ND_HARNESS="+rf.Harness, "GOMEMLIMIT=2GiB")
		cmd.Dir = r.tmp
		out, e := cmd.CombinedOutput()
		to := ctx.Err() != nil
		cancel()
		text := string(out)
		if len(text) > 2000 {
			text = text[:2000]
		}
		switch {
		case to:
			return "hang", "timeout after 20s", nil
		case e == nil:
			outcome, detail = "pass", text
		default:
			code := -1
			if ee, ok := e.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
			switch code {
			case 3:
				return "assert", text, nil
			case 4:
				outcome, detail = "assume", text
			case 5:
				return "deadlock", text, nil
			case 8, 9:
				outcome, detail = "diverged", text
			case 2:
				if strings.Contains(text, "out of memory") || strings.Contains(text, "stack overflow") || strings.Contains(text, "exceeds") {
					return "hang", text, nil
				}
				return "panic", text, nil
			default:
				outcome, detail = fmt.Sprintf("exit %d", code), text
			}
		}
	}
	return outcome, detail, nil
}

// runRace runs the harness freely under the race detector; a report whose two accesses are both in the repository's code counts.
func (r *Replayer) runRace(rf *ReplayFile, bin, f string) (string, string, error) {
	for k := 0; k < 3; k++ {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(ctx, bin)
		cmd.Env = append(os.Environ(), "ND_REPLAY="+f, "ND_HARNESS="+rf.Harness, "ND_AGAIN=3000", "GORACE=halt_on_error=0 exitcode=0")
		cmd.Dir = r.tmp
		out, _ := cmd.CombinedOutput()
		cancel()
		for _, rep := range strings.Split(string(out), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			var tops []string
			ls := strings.Split(rep, "\n")
			for i, l := range ls {
				if (strings.Contains(l, "ead at 0x") || strings.Contains(l, "rite at 0x")) && strings.Contains(l, " by ") {
					atom := i+1 < len(ls) && strings.HasPrefix(strings.TrimSpace(ls[i+1]), "sync/atomic.") // the detector skips the caller's frame then
					for j := i + 1; j+1 < len(ls) && strings.TrimSpace(ls[j]) != ""; j += 2 {
						loc := strings.TrimSpace(ls[j+1])
						if strings.Contains(loc, "/zzverif/") || strings.Contains(loc, r.tmp) || strings.HasPrefix(loc, r.P.repo+"/") || strings.Contains(loc, "/harness/") {
							if atom && !strings.Contains(loc, "/zzverif/nd/") {
								loc = "atomic operation"
							}
							tops = append(tops, loc)
							break
						}
					}
				}
			}
			ok := len(tops) == 2
			for _, t := range tops {
				if strings.Contains(t, "/zzverif/") || strings.Contains(t, "/harness/") {
					ok = false
				}
			}
			if ok {
				return "race", "race detector: " + strings.Join(tops, " and "), nil
			}
		}
	}
	return "pass", "no data race reported in 9000 runs", nil
}

func reproduced(outcome string) bool {
	switch outcome {
	case "race", "assert", "panic", "hang", "deadlock":
		return true
	}
	return false
}

// ---------------------------------------------------------------- shims

func (P *Program) shims() map[string]string {
	out := map[string]string{}
	for _, path := range shimPkgs {
		sp := P.pkgs[path]
		if sp == nil {
			continue
		}
		hand := shimHand[path]
		var sb strings.Builder
		name := filepath.Base(path)
		fmt.Fprintf(&sb, "package %s\n\nimport (\n\treal %q\n\tnd %q\n", name, path, ndPath)
		if path == "sync" {
			fmt.Fprintf(&sb, "\tatomic %q\n", modPath+"/zzverif/shim/sync/atomic")
		}
		if path == "sync/atomic" {
			sb.WriteString("\t\"unsafe\"\n")
		}
		sb.WriteString(")\n\nvar _ = nd.Point\n")
		if path == "sync" {
			sb.WriteString("var _ atomic.Int32\n")
		}
		defined := map[string]bool{}
		for _, l := range strings.Split(hand, "\n") {
			f := strings.FieldsFunc(l, func(r rune) bool { return r == ' ' || r == '(' || r == '[' })
			if len(f) >= 2 && (f[0] == "func" || f[0] == "type") && !strings.HasPrefix(l, "func (") {
				defined[f[1]] = true
			}
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			if !o.Exported() || defined[n] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				fmt.Fprintf(&sb, "const %s = real.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&sb, "var %s = real.%s\n", n, n)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&sb, "var %s = real.%s\n", n, n)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&sb, "type %s = real.%s\n", n, n)
			}
		}
		sb.WriteString(hand)
		out[path] = sb.String()
	}
	if _, ok := out["sync"]; ok {
		if _, ok := out["sync/atomic"]; !ok {
			delete(out, "sync")
		}
	}
	return out
}

var shimHand = map[string]string{
	"time": `
func Now() real.Time { nd.Point(); return real.Unix(0, nd.Now()) }
func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }
func Sleep(d real.Duration) {}
func NewTicker(d real.Duration) *real.Ticker { return &real.Ticker{C: nd.AddTicker()} }
func Tick(d real.Duration) <-chan real.Time { return nd.AddTicker() }
`,
	"hash/crc32": `
func ChecksumIEEE(b []byte) uint32 { return nd.Hash(b) }
func Checksum(b []byte, _ *real.Table) uint32 { return nd.Hash(b) }
type digest struct{ b []byte }
func (d *digest) Write(p []byte) (int, error) { d.b = append(d.b, p...); return len(p), nil }
func (d *digest) Sum32() uint32 { if len(d.b) == 0 { return 0 }; return nd.Hash(d.b) }
func (d *digest) Reset() { d.b = nil }
func (d *digest) Size() int { return 4 }
func (d *digest) BlockSize() int { return 1 }
func (d *digest) Sum(in []byte) []byte { s := d.Sum32(); return append(in, byte(s>>24), byte(s>>16), byte(s>>8), byte(s)) }
func NewIEEE() *digest { return &digest{} }
func New(_ *real.Table) *digest { return &digest{} }
var contents = map[uint32]string{}
var last uint32
var lastS string
func Update(crc uint32, _ *real.Table, p []byte) uint32 {
	if len(p) == 0 { return crc }
	s := string(p)
	if crc == last && lastS != "" { s = lastS + s } else if crc != 0 { s = contents[crc] + s }
	h := nd.Hash([]byte(s))
	contents[h] = s
	last, lastS = h, s
	return h
}
`,
	"sync": `
type Mutex struct{ l bool }
func (m *Mutex) try() bool { if m.l { return false }; m.l = true; return true }
func (m *Mutex) Lock() { nd.Acquire(m.try) }
func (m *Mutex) TryLock() bool { nd.Point(); return m.try() }
func (m *Mutex) Unlock() { nd.Point(); if !m.l { panic("sync: unlock of unlocked mutex") }; m.l = false }
type RWMutex struct{ w bool; r int }
func (m *RWMutex) try() bool { if m.w || m.r > 0 { return false }; m.w = true; return true }
func (m *RWMutex) rtry() bool { if m.w { return false }; m.r++; return true }
func (m *RWMutex) Lock() { nd.Acquire(m.try) }
func (m *RWMutex) TryLock() bool { nd.Point(); return m.try() }
func (m *RWMutex) Unlock() { nd.Point(); if !m.w { panic("sync: Unlock of unlocked RWMutex") }; m.w = false }
func (m *RWMutex) RLock() { nd.Acquire(m.rtry) }
func (m *RWMutex) TryRLock() bool { nd.Point(); return m.rtry() }
func (m *RWMutex) RUnlock() { nd.Point(); if m.r <= 0 { panic("sync: RUnlock of unlocked RWMutex") }; m.r-- }
type Once struct { done atomic.Uint32; m Mutex }
func (o *Once) Do(f func()) { if o.done.Load() == 0 { o.doSlow(f) } }
func (o *Once) doSlow(f func()) { o.m.Lock(); defer o.m.Unlock(); if o.done.Load() == 0 { defer o.done.Store(1); f() } }
`,
}

func init() {
	var sb strings.Builder
	for _, w := range []struct{ n, t string }{{"Int32", "int32"}, {"Int64", "int64"}, {"Uint32", "uint32"}, {"Uint64", "uint64"}, {"Uintptr", "uintptr"}, {"Pointer", "unsafe.Pointer"}} {
		fmt.Fprintf(&sb, "func Load%[1]s(p *%[2]s) %[2]s { nd.Point(); return real.Load%[1]s(p) }\n", w.n, w.t)
		fmt.Fprintf(&sb, "func Store%[1]s(p *%[2]s, v %[2]s) { nd.Point(); real.Store%[1]s(p, v) }\n", w.n, w.t)
		fmt.Fprintf(&sb, "func Swap%[1]s(p *%[2]s, v %[2]s) %[2]s { nd.Point(); return real.Swap%[1]s(p, v) }\n", w.n, w.t)
		fmt.Fprintf(&sb, "func CompareAndSwap%[1]s(p *%[2]s, o, v %[2]s) bool { nd.Point(); return real.CompareAndSwap%[1]s(p, o, v) }\n", w.n, w.t)
		if w.n == "Pointer" {
			continue
		}
		fmt.Fprintf(&sb, "func Add%[1]s(p *%[2]s, v %[2]s) %[2]s { nd.Point(); return real.Add%[1]s(p, v) }\n", w.n, w.t)
		fmt.Fprintf(&sb, "type %[1]s struct{ v real.%[1]s }\n", w.n)
		fmt.Fprintf(&sb, "func (x *%[1]s) Load() %[2]s { nd.Point(); return x.v.Load() }\n", w.n, w.t)
		fmt.Fprintf(&sb, "func (x *%[1]s) Store(v %[2]s) { nd.Point(); x.v.Store(v) }\n", w.n, w.t)
		fmt.Fprintf(&sb, "func (x *%[1]s) Swap(v %[2]s) %[2]s { nd.Point(); return x.v.Swap(v) }\n", w.n, w.t)
		fmt.Fprintf(&sb, "func (x *%[1]s) Add(v %[2]s) %[2]s { nd.Point(); return x.v.Add(v) }\n", w.n, w.t)
		fmt.Fprintf(&sb, "func (x *%[1]s) CompareAndSwap(o, v %[2]s) bool { nd.Point(); return x.v.CompareAndSwap(o, v) }\n", w.n, w.t)
	}
	sb.WriteString(`
type Bool struct{ v real.Bool }
func (x *Bool) Load() bool { nd.Point(); return x.v.Load() }
func (x *Bool) Store(v bool) { nd.Point(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { nd.Point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { nd.Point(); return x.v.CompareAndSwap(o, v) }
type Value struct{ v real.Value }
func (x *Value) Load() any { nd.Point(); return x.v.Load() }
func (x *Value) Store(v any) { nd.Point(); x.v.Store(v) }
type Pointer[T any] struct{ v real.Pointer[T] }
func (x *Pointer[T]) Load() *T { nd.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T) { nd.Point(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { nd.Point(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool { nd.Point(); return x.v.CompareAndSwap(o, v) }
var _ unsafe.Pointer
`)
	shimHand["sync/atomic"] = sb.String()
}
