package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one incremental SMT process. Terms are defined globally; assertions follow a push/pop stack
// that mirrors the path condition of the state being explored.
type Solver struct {
	c       *TermCtx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	def     *Definer
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	MaxQ    time.Duration
	timeout int // ms per query
	log     *os.File
	bin     string
	nDef    int
	oneShot int
	assume  bool // decide under assumptions instead of push/pop
}

func solverBin() string {
	if b := os.Getenv("GOSYM_SOLVER"); b != "" {
		return b
	}
	return "z3-new"
}

func NewSolver(c *TermCtx, timeoutMs int, assume bool) *Solver {
	s := &Solver{c: c, timeout: timeoutMs, bin: solverBin(), assume: assume}
	if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
		s.log, _ = os.Create(f)
	}
	s.start()
	return s
}

// Restart forgets everything.
func (s *Solver) Restart() {
	s.Close()
	s.start()
}

func (s *Solver) start() {
	s.def = &Definer{eq: s.assume}
	s.stack = nil
	var args []string
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	} else {
		args = []string{"-in", "-smt2"}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatal("solver: %v", err)
	}
	procs.Store(s.cmd, true)
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if !strings.Contains(s.bin, "cvc5") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
		if s.assume {
			s.send("(set-logic QF_BV)\n")
		} else {
			s.send("(set-logic ALL)\n")
		}
	} else {
		s.send("(set-logic ALL)\n")
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	s.in.WriteString(x)
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		procs.Delete(s.cmd)
		s.cmd = nil
	}
}

func (s *Solver) assertTerm(t *Term) {
	var sb strings.Builder
	n := t.define(&sb, s.def)
	s.send(sb.String())
	s.send("(assert " + n + ")\n")
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		s.send("(push 1)\n")
		s.assertTerm(pc[k])
		s.stack = append(s.stack, pc[k])
	}
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if err != nil {
			return "(error \"solver died\")"
		}
		if l != "" {
			return l
		}
	}
}

// Check decides pc /\ extra; with model set, a satisfying assignment is returned for Sat.
func (s *Solver) Check(pc []*Term, extra *Term, model bool) (Res, Model) {
	if extra != nil {
		if extra == s.c.False {
			return Unsat, nil
		}
	}
	t0 := time.Now()
	if s.assume {
		var sb, names strings.Builder
		for _, t := range append(pc[:len(pc):len(pc)], extra) {
			if t == nil || t == s.c.True {
				continue
			}
			if t == s.c.False {
				return Unsat, nil
			}
			names.WriteString(" " + t.define(&sb, s.def))
		}
		s.send(sb.String())
		s.send("(check-sat-assuming (" + names.String() + "))\n")
	} else {
		s.sync(pc)
		if extra != nil {
			s.send("(push 1)\n")
			s.assertTerm(extra)
		}
		s.send("(check-sat)\n")
	}
	s.in.Flush()
	l := s.readLine()
	r := Unknown
	switch l {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
	default:
		fatal("solver said: %s", l)
	}
	var m Model
	if r == Sat && model {
		m = s.getModel()
	}
	if extra != nil && !s.assume {
		s.send("(pop 1)\n")
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxQ {
		s.MaxQ = d
	}
	s.Queries++
	switch r {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnk++
	}
	return r, m
}

func (s *Solver) getModel() Model {
	m := Model{}
	var vs []*Term
	for _, v := range s.c.vars {
		if s.def.has(v) {
			vs = append(vs, v)
		}
	}
	for len(vs) > 0 {
		n := min(len(vs), 200)
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vs[:n] {
			sb.WriteString(v.smtName())
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		s.send(sb.String())
		s.in.Flush()
		vals := s.readValues(n)
		for i, v := range vs[:n] {
			m[v] = vals[i]
		}
		vs = vs[n:]
	}
	return m
}

// readValues parses ((name value) (name value) ...), names being |quoted|.
func (s *Solver) readValues(n int) []uint64 {
	depth := 0
	var out []uint64
	var tok strings.Builder
	inName := false
	start := false
	var toks []string
	flush := func() {
		if tok.Len() > 0 {
			toks = append(toks, tok.String())
			tok.Reset()
		}
	}
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			fatal("solver died in get-value")
		}
		if inName {
			if b == '|' {
				inName = false
			}
			continue
		}
		switch b {
		case '|':
			inName = true
		case '(':
			depth++
			start = true
			flush()
		case ')':
			flush()
			depth--
			if depth == 1 || depth == 0 && len(toks) > 0 {
				if len(toks) > 0 {
					out = append(out, parseVal(toks))
					toks = nil
				}
			}
			if start && depth == 0 {
				if len(out) != n {
					fatal("get-value: got %d of %d", len(out), n)
				}
				return out
			}
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			tok.WriteByte(b)
		}
	}
}

func parseVal(toks []string) uint64 {
	// unquoted simple names come out as a first token
	if len(toks) > 1 && toks[0] != "_" {
		toks = toks[1:]
	}
	t := toks[0]
	switch {
	case t == "true":
		return 1
	case t == "false":
		return 0
	case strings.HasPrefix(t, "#x"):
		v, _ := strconv.ParseUint(t[2:], 16, 64)
		return v
	case strings.HasPrefix(t, "#b"):
		v, _ := strconv.ParseUint(t[2:], 2, 64)
		return v
	case t == "_" && len(toks) > 1 && strings.HasPrefix(toks[1], "bv"):
		v, _ := strconv.ParseUint(toks[1][2:], 10, 64)
		return v
	}
	fatal("cannot parse solver value %v", toks)
	return 0
}

// OneShot decides the conjunction in a fresh, non-incremental process (full preprocessing) with a time limit.
func OneShot(c *TermCtx, ts []*Term, timeout time.Duration, bin string, wantModel bool) (Res, Model, time.Duration) {
	var sb strings.Builder
	def := &Definer{}
	logic := "QF_BV"
	var names []string
	for _, t := range ts {
		names = append(names, t.define(&sb, def))
	}
	body := sb.String()
	if strings.Contains(body, "fp") || strings.Contains(body, "to_fp") {
		logic = "QF_FPBV"
	}
	f, err := os.CreateTemp(queryDir(), "q-*.smt2")
	if err != nil {
		fatal("%v", err)
	}
	defer os.Remove(f.Name())
	w := bufio.NewWriter(f)
	fmt.Fprintf(w, "(set-option :produce-models true)\n(set-logic %s)\n", logic)
	w.WriteString(body)
	for _, n := range names {
		fmt.Fprintf(w, "(assert %s)\n", n)
	}
	w.WriteString("(check-sat)\n")
	var vs []*Term
	for _, v := range c.vars {
		if def.has(v) {
			vs = append(vs, v)
		}
	}
	if wantModel && len(vs) > 0 {
		w.WriteString("(get-value (")
		for _, v := range vs {
			w.WriteString(v.smtName() + " ")
		}
		w.WriteString("))\n")
	}
	w.Flush()
	f.Close()
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		data, _ := os.ReadFile(f.Name())
		os.WriteFile(fmt.Sprintf("%s-%d.smt2", d, time.Now().UnixNano()), data, 0o644)
	}
	t0 := time.Now()
	sec := int(timeout.Seconds())
	if sec < 1 {
		sec = 1
	}
	var cmd *exec.Cmd
	if strings.Contains(bin, "cvc5") {
		cmd = exec.Command(bin, fmt.Sprintf("--tlimit=%d", sec*1000), f.Name())
	} else {
		cmd = exec.Command(bin, fmt.Sprintf("-T:%d", sec), f.Name())
	}
	procs.Store(cmd, true)
	out, _ := cmd.Output()
	procs.Delete(cmd)
	d := time.Since(t0)
	text := string(out)
	first := text
	if i := strings.IndexByte(text, '\n'); i >= 0 {
		first = text[:i]
	}
	switch strings.TrimSpace(first) {
	case "unsat":
		return Unsat, nil, d
	case "sat":
		if !wantModel {
			return Sat, nil, d
		}
		m := Model{}
		if len(vs) > 0 {
			s := &Solver{out: bufio.NewReader(strings.NewReader(text[len(first):]))}
			vals := s.readValues(len(vs))
			for i, v := range vs {
				m[v] = vals[i]
			}
		}
		return Sat, m, d
	}
	return Unknown, nil, d
}

func fatal(f string, a ...any) {
	panic(fatalErr(fmt.Sprintf(f, a...)))
}

// procs holds the solver processes that may be running.
var procs sync.Map

// queryDir is the scratch directory of the query files.
var queryDir = sync.OnceValue(func() string {
	d, err := os.MkdirTemp("", "gosym-q")
	if err != nil {
		fatal("%v", err)
	}
	return d
})

// killSolvers ends them and removes the query files; for the end of the process.
func killSolvers() {
	defer os.RemoveAll(queryDir())
	procs.Range(func(k, _ any) bool {
		if p := k.(*exec.Cmd).Process; p != nil {
			p.Kill()
		}
		return true
	})
}

type fatalErr string

func solverVersion() string {
	out, err := exec.Command(solverBin(), "--version").Output()
	if err != nil {
		return solverBin()
	}
	return strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0])
}
