package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- memory

type MapEntry struct {
	k       Value
	present *Term
	v       Value
}
type MapData struct {
	entries []MapEntry
}
type ChanData struct {
	buf    []Value
	cap    int
	closed bool
	ticker bool
}
type IterData struct {
	mp      Value // MapV or Union of them, or string
	visited []bool
	n0      int
	rev     bool
	idx     Value // M mode: position (Term const or Union of Term consts) per map
	str     Value
	pos     int
}

type Object struct {
	cells []Value
	m     *MapData
	ch    *ChanData
	it    *IterData
	owner *State
	typ   types.Type
	tid   int // creating thread
}

func (o *Object) clone(st *State) *Object {
	n := &Object{owner: st, typ: o.typ, tid: o.tid}
	n.cells = append([]Value(nil), o.cells...)
	if o.m != nil {
		n.m = &MapData{entries: append([]MapEntry(nil), o.m.entries...)}
	}
	if o.ch != nil {
		c := *o.ch
		c.buf = append([]Value(nil), o.ch.buf...)
		n.ch = &c
	}
	if o.it != nil {
		c := *o.it
		c.visited = append([]bool(nil), o.it.visited...)
		n.it = &c
	}
	return n
}

// ---------------------------------------------------------------- control state

type DeferRec struct {
	instr *ssa.Defer
	fn    Value // callee for dynamic calls; nil for builtin
	args  []Value
}

type Frame struct {
	fn        *ssa.Function
	info      *FnInfo
	regs      []Value
	block     *ssa.BasicBlock
	idx       int
	defers    []DeferRec
	isDefer   bool // called by RunDefers / panic unwinding: result discarded, caller idx not advanced
	panics    bool // this frame is unwinding
	recov     bool // recover() was called for the current panic
	panicVal  Value
	opaqueRet func(m *Machine, cfg *Config, v Value) // engine continuation after return
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.defers = append([]DeferRec(nil), f.defers...)
	return &n
}

type Config struct {
	frames  []*Frame
	guard   *Term
	th      *Thread
	dead    bool
	locks   []Ptr
	visOK   bool // M mode: the scheduling decision for the pending visible op has been taken
	steps   int
	ticks   int   // M mode: how often a ticker has fired for this thread
	resumed *Term // M mode: condition under which the pending operation was pending since an earlier turn
}

func (c *Config) clone() *Config {
	n := *c
	n.frames = make([]*Frame, len(c.frames))
	for i, f := range c.frames {
		n.frames[i] = f.clone()
	}
	n.locks = append([]Ptr(nil), c.locks...)
	return &n
}

func (c *Config) top() *Frame { return c.frames[len(c.frames)-1] }

type Thread struct {
	id      int
	configs []*Config
	done    *Term
	blocked bool
}

// Input records one nondeterministic value handed to the harness, in call order.
type Input struct {
	name string
	kind string
	t    *Term
	bs   []*Term
	conc int
	g    *Term // merge mode: the guard under which it was drawn
}

type State struct {
	objs     []*Object
	globals  map[*ssa.Global]int32
	cfg      *Config   // F mode: the main configuration
	bg       []*Config // F mode: background goroutines
	pc       []*Term
	model    Model
	inputs   []Input
	nvar     int
	clock    *Term
	caseIdx  int
	forced   []int
	decIdx   int
	pcAt     int
	steps    int
	order    int
	tickers  []int32
	hashes   map[string]*Term
	trace    []string
	symHash  bool
	hashBits int
	divs     map[divKey]*Term
	spawned  []*Closure // M mode: the background goroutines started so far
	runBg    bool       // run background goroutines before the next step of the main one
	cur      int        // 0: main, k: bg[k-1]
	bgMoved  bool
}

func (st *State) clone() *State {
	n := *st
	n.objs = append([]*Object(nil), st.objs...)
	n.globals = make(map[*ssa.Global]int32, len(st.globals))
	for k, v := range st.globals {
		n.globals[k] = v
	}
	n.divs = make(map[divKey]*Term, len(st.divs))
	for k, v := range st.divs {
		n.divs[k] = v
	}
	n.hashes = make(map[string]*Term, len(st.hashes))
	for k, v := range st.hashes {
		n.hashes[k] = v
	}
	if st.cfg != nil {
		n.cfg = st.cfg.clone()
	}
	n.bg = make([]*Config, len(st.bg))
	for i, b := range st.bg {
		n.bg[i] = b.clone()
	}
	n.pc = append([]*Term(nil), st.pc...)
	n.inputs = append([]Input(nil), st.inputs...)
	n.forced = append([]int(nil), st.forced...)
	n.tickers = append([]int32(nil), st.tickers...)
	n.trace = append([]string(nil), st.trace...)
	// both sides lose exclusive ownership of the shared objects
	return &n
}

// ---------------------------------------------------------------- per-function info

type FnInfo struct {
	mu     sync.Mutex
	slot   map[ssa.Value]int
	n      int
	pos    []int // WTO position by block index
	liveIn []map[int]bool
	liveAt map[[2]int]map[int]bool
	instrs int
}

func buildInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{slot: map[ssa.Value]int{}, liveAt: map[[2]int]map[int]bool{}}
	add := func(v ssa.Value) {
		fi.slot[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			fi.instrs++
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.pos = wto(fn)
	return fi
}

// wto computes a weak topological order of the blocks: loop bodies are contiguous and precede their exits.
func wto(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	pos := make([]int, n)
	next := 0
	var visit func(nodes map[int]bool, head int)
	// order emits the strongly connected components of nodes in topological order
	visit = func(nodes map[int]bool, _ int) {
		// Tarjan
		index := map[int]int{}
		low := map[int]int{}
		on := map[int]bool{}
		var stack []int
		var comps [][]int
		k := 0
		var dfs func(v int)
		dfs = func(v int) {
			k++
			index[v], low[v] = k, k
			stack = append(stack, v)
			on[v] = true
			for _, s := range fn.Blocks[v].Succs {
				w := s.Index
				if !nodes[w] {
					continue
				}
				if index[w] == 0 {
					dfs(w)
					low[v] = min(low[v], low[w])
				} else if on[w] {
					low[v] = min(low[v], index[w])
				}
			}
			if low[v] == index[v] {
				var comp []int
				for {
					w := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[w] = false
					comp = append(comp, w)
					if w == v {
						break
					}
				}
				comps = append(comps, comp)
			}
		}
		var keys []int
		for v := range nodes {
			keys = append(keys, v)
		}
		sort.Ints(keys)
		for _, v := range keys {
			if index[v] == 0 {
				dfs(v)
			}
		}
		for i := len(comps) - 1; i >= 0; i-- {
			comp := comps[i]
			if len(comp) == 1 {
				pos[comp[0]] = next
				next++
				continue
			}
			// loop: pick the entry (smallest index with a predecessor outside, else the smallest)
			sort.Ints(comp)
			in := map[int]bool{}
			for _, v := range comp {
				in[v] = true
			}
			head := comp[0]
			for _, v := range comp {
				ent := false
				for _, p := range fn.Blocks[v].Preds {
					if !in[p.Index] {
						ent = true
					}
				}
				if ent {
					head = v
					break
				}
			}
			pos[head] = next
			next++
			delete(in, head)
			visit(in, head)
		}
	}
	all := map[int]bool{}
	for i := 0; i < n; i++ {
		all[i] = true
	}
	visit(all, -1)
	return pos
}

func (fi *FnInfo) uses(i ssa.Instruction, f func(slot int)) {
	var ops [16]*ssa.Value
	for _, o := range i.Operands(ops[:0]) {
		if *o == nil {
			continue
		}
		if s, ok := fi.slot[*o]; ok {
			f(s)
		}
	}
}

func (fi *FnInfo) computeLive(fn *ssa.Function) {
	n := len(fn.Blocks)
	fi.liveIn = make([]map[int]bool, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := fi.liveOut(b)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				if v, ok := i.(ssa.Value); ok {
					delete(live, fi.slot[v])
				}
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				fi.uses(i, func(s int) { live[s] = true })
			}
			// phi results are set on the edge, hence live at block start
			for _, i := range b.Instrs {
				if p, ok := i.(*ssa.Phi); ok {
					live[fi.slot[p]] = true
				}
			}
			if len(live) != len(fi.liveIn[bi]) {
				fi.liveIn[bi] = live
				changed = true
			}
		}
	}
}

func (fi *FnInfo) liveOut(b *ssa.BasicBlock) map[int]bool {
	live := map[int]bool{}
	for _, s := range b.Succs {
		phis := map[int]bool{}
		for _, i := range s.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			phis[fi.slot[p]] = true
			for k, pr := range s.Preds {
				if pr == b {
					if sl, ok := fi.slot[p.Edges[k]]; ok {
						live[sl] = true
					}
				}
			}
		}
		for v := range fi.liveIn[s.Index] {
			if !phis[v] {
				live[v] = true
			}
		}
	}
	return live
}

// liveBefore returns the slots live before instruction idx of block b.
func (fi *FnInfo) liveBefore(fn *ssa.Function, b *ssa.BasicBlock, idx int) map[int]bool {
	fi.mu.Lock()
	defer fi.mu.Unlock()
	if fi.liveIn == nil {
		fi.computeLive(fn)
	}
	key := [2]int{b.Index, idx}
	if l, ok := fi.liveAt[key]; ok {
		return l
	}
	live := fi.liveOut(b)
	for k := len(b.Instrs) - 1; k >= idx; k-- {
		i := b.Instrs[k]
		if v, ok := i.(ssa.Value); ok {
			delete(live, fi.slot[v])
		}
		if _, ok := i.(*ssa.Phi); ok {
			continue
		}
		fi.uses(i, func(s int) { live[s] = true })
	}
	if fn.Recover != nil {
		for v := range fi.liveIn[fn.Recover.Index] {
			live[v] = true
		}
	}
	fi.liveAt[key] = live
	return live
}

// ---------------------------------------------------------------- machine

type Stats struct {
	Paths      int
	Steps      int
	Forks      int
	Asserts    int
	MaxUnion   int
	Configs    int
	Merges     int
	VisOps     int
	Obligs     int
	Unwound    int
	PathsInfea int
	Funcs      map[string]int
	Cover      map[string]int
	Lines      map[string]map[int]bool
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, hang, deadlock
	Cases   []int
	Inputs  []Input
	Model   Model
	Sched   []SchedStep
	Trace   []string
	Points  []string
}

type Machine struct {
	P       *Program
	c       *TermCtx
	sol     *Solver
	lay     *Layout
	mergeM  bool // M mode
	st      *State
	work    []*State
	job     *Job
	stats   Stats
	viol    []*Violation
	incompl []string

	// M mode
	oblig     []Oblig
	deadline  time.Time
	feasCache map[*Term]Res
	threads   []*Thread
	allocs    map[string][]allocRec
	curCfg    *Config
	round     int
	rounds    int
	visPlain  map[ssa.Instruction]bool
	access    map[[2]int32][]accessRec
	sched     []schedVar
	emitted   []*Config
	maxSteps  int
	nonterm   bool
	tickN     int
	curThread int
	inPar     bool
	lastMutex map[Ptr]bool
	nextTid   int
	racy      bool
	syncAcc   bool
	covers    []coverRec
	rng       *rand.Rand
	witness   []*ReplayFile
	finished  int

	pass        int
	conf        map[visKey]bool
	leads       map[ssa.Instruction]bool
	plainW      map[ssa.Instruction]bool
	perf        []perfRec
	escG        map[int32]*Term
	pendingMain *cfgSet
	nthreads    int
	thrs        []*cfgSet
	races       bool
	events      []accEvent
	raceG       map[string]*Term
	turn        int
	lastTurn    map[int]int
	curPend     pending
	oneT        time.Duration
}

type allocRec struct {
	id int32
	g  *Term
}

type accessRec struct {
	tid    int
	instr  ssa.Instruction
	write  bool
	locks  []Ptr
	kind   int // 0 plain, else a visible operation kind
	caller ssa.Instruction
}

// accEvent is a shared access that was performed, kept while looking for data races.
type accEvent struct {
	tid, turn int
	p         Ptr
	write     bool
	kind      int
	instr     ssa.Instruction
	g         *Term
}

type Oblig struct {
	bad  *Term
	msg  string
	kind string
}

type schedVar struct {
	v     *Term
	tid   int
	round int
	cfgG  *Term
	where string
}

type SchedStep struct {
	Tid   int
	Count int
}

func (m *Machine) info(fn *ssa.Function) *FnInfo { return m.P.info(fn) }

func (m *Machine) newObj(o *Object) int32 {
	o.owner = m.st
	o.tid = m.curThread
	if len(m.st.objs) == 0 {
		m.st.objs = append(m.st.objs, nil)
	}
	m.st.objs = append(m.st.objs, o)
	return int32(len(m.st.objs) - 1)
}

func (m *Machine) obj(id int32) *Object { return m.st.objs[id] }

func (m *Machine) mut(id int32) *Object {
	o := m.st.objs[id]
	if o.owner != m.st {
		o = o.clone(m.st)
		m.st.objs[id] = o
	}
	return o
}

func (m *Machine) alloc(t types.Type) Ptr {
	return Ptr{m.newObj(&Object{cells: m.zeroCells(t, nil), typ: t}), 0}
}

func (m *Machine) globalPtr(g *ssa.Global) Ptr {
	if id, ok := m.st.globals[g]; ok {
		return Ptr{id, 0}
	}
	t := g.Type().(*types.Pointer).Elem()
	save := m.curThread
	m.curThread = 0
	p := m.alloc(t)
	m.curThread = save
	m.st.globals[g] = p.obj
	return p
}

// ---------------------------------------------------------------- decisions (F mode)

func (m *Machine) addPC(t *Term) {
	if t == m.c.True {
		return
	}
	m.st.pc = append(m.st.pc, t)
}

type pathDead struct{}

// decide picks a side of a symbolic condition, forking the state when both are feasible.
func (m *Machine) decide(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if m.mergeM {
		fatal("decide in merge mode: %v at %s", c, m.where())
	}
	st := m.st
	nc := m.c.Not(c)
	if st.decIdx < len(st.forced) {
		d := st.forced[st.decIdx]
		st.decIdx++
		if d == 1 {
			m.addPC(c)
			return true
		}
		m.addPC(nc)
		return false
	}
	var mt, mf Model
	rt, rf := Unknown, Unknown
	if st.model != nil {
		if m.c.Eval(c, st.model) == 1 {
			rt, mt = Sat, st.model
		} else {
			rf, mf = Sat, st.model
		}
	}
	if rt == Unknown {
		rt, mt = m.sol.Check(st.pc, c, true)
	}
	if rf == Unknown {
		rf, mf = m.sol.Check(st.pc, nc, true)
	}
	if rt == Unknown || rf == Unknown {
		m.incomplete("solver unknown at branch " + m.where())
	}
	if rt == Unsat && rf == Unsat {
		panic(pathDead{})
	}
	if rt == Unsat {
		st.forced = append(st.forced, 0)
		st.decIdx++
		st.model = mf
		return false // nc is implied by pc
	}
	if rf == Unsat {
		st.forced = append(st.forced, 1)
		st.decIdx++
		st.model = mt
		return true
	}
	// fork
	m.stats.Forks++
	o := st.clone()
	o.pc = o.pc[:st.pcAt]
	o.forced = append(append([]int(nil), st.forced[:st.decIdx]...), 0)
	o.decIdx = 0
	o.model = mf
	m.pushFork(st, o)
	st.forced = append(st.forced, 1)
	st.decIdx++
	m.addPC(c)
	st.model = mt
	return true
}

// pushFork gives both states fresh ownership stamps (copy on write) and queues the clone.
func (m *Machine) pushFork(st, o *State) {
	m.work = append(m.work, o)
	// objects owned by st must be copied before either writes: retag by giving them no owner
	for i, ob := range st.objs {
		if ob != nil && ob.owner == st {
			cp := *ob
			cp.owner = nil
			st.objs[i] = &cp
			o.objs[i] = &cp
		}
	}
}

// choose is an unconstrained n-way choice.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.mergeM {
		fatal("choose in merge mode at %s", m.where())
	}
	st := m.st
	if st.decIdx < len(st.forced) {
		d := st.forced[st.decIdx]
		st.decIdx++
		return d
	}
	for i := n - 1; i >= 1; i-- {
		o := st.clone()
		o.pc = o.pc[:st.pcAt]
		o.forced = append(append([]int(nil), st.forced[:st.decIdx]...), i)
		o.decIdx = 0
		m.pushFork(st, o)
		m.stats.Forks++
	}
	st.forced = append(st.forced, 0)
	st.decIdx++
	return 0
}

// cases runs f for the (exclusive, exhaustive under g) conditions: one of them in F mode, all feasible ones in M mode.
func (m *Machine) cases(g *Term, conds []*Term, f func(i int, g *Term)) {
	if m.mergeM {
		for i, c := range conds {
			ng := m.c.And(g, c)
			if ng != m.c.False {
				f(i, ng)
			}
		}
		return
	}
	for i, c := range conds {
		if m.decide(c) {
			f(i, g)
			return
		}
	}
	panic(pathDead{})
}

func (m *Machine) incomplete(s string) {
	for _, x := range m.incompl {
		if x == s {
			return
		}
	}
	m.incompl = append(m.incompl, s)
}

func (m *Machine) where() string {
	if m.curCfg == nil || len(m.curCfg.frames) == 0 {
		return "?"
	}
	s := ""
	for i := len(m.curCfg.frames) - 1; i >= 0 && i >= len(m.curCfg.frames)-6; i-- {
		f := m.curCfg.frames[i]
		line := ""
		if f.block != nil && f.idx < len(f.block.Instrs) {
			line = m.P.fset.Position(f.block.Instrs[f.idx].Pos()).String()
		}
		s += f.fn.String() + " " + line + " < "
	}
	return s
}

// feasible asks whether g can hold (M mode; conservative true on unknown).
func (m *Machine) feasible(g *Term) bool {
	if g.isConst() {
		return g.val == 1
	}
	if r, ok := m.feasCache[g]; ok {
		return r != Unsat
	}
	r, _ := m.sol.Check(m.st.pc, g, false)
	m.feasCache[g] = r
	return r != Unsat
}

// assume constrains the rest of the run.
func (m *Machine) assume(g, c *Term) {
	if m.mergeM {
		t := m.c.Implies(g, c)
		if t != m.c.True {
			m.st.pc = append(m.st.pc, t)
			m.feasCache = map[*Term]Res{}
		}
		return
	}
	if c.isConst() {
		if c.val == 0 {
			panic(pathDead{})
		}
		return
	}
	st := m.st
	if st.model != nil && m.c.Eval(c, st.model) == 1 {
		m.addPC(c)
		return
	}
	r, md := m.sol.Check(st.pc, c, true)
	if r == Unsat {
		panic(pathDead{})
	}
	if r == Unknown {
		m.incomplete("solver unknown at assume " + m.where())
	}
	m.addPC(c)
	st.model = md
}

// assert checks c under guard g.
func (m *Machine) assert(g, c *Term, msg, kind string) {
	m.stats.Asserts++
	if m.mergeM {
		bad := m.c.And(g, m.c.Not(c))
		if bad != m.c.False {
			m.oblig = append(m.oblig, Oblig{bad, msg, kind})
		}
		return
	}
	if c == m.c.True {
		return
	}
	st := m.st
	nc := m.c.Not(c)
	r := Unknown
	var md Model
	if st.model != nil && m.c.Eval(nc, st.model) == 1 {
		r, md = Sat, st.model
	} else {
		r, md = m.sol.Check(st.pc, nc, true)
	}
	switch r {
	case Sat:
		m.report(kind, msg, md)
	case Unknown:
		m.incomplete("solver unknown at assertion " + msg)
	}
	if c == m.c.False {
		panic(pathDead{})
	}
	if r != Unsat {
		r2, md2 := m.sol.Check(st.pc, c, true)
		if r2 == Unsat {
			panic(pathDead{})
		}
		m.addPC(c)
		st.model = md2
	}
}

func (m *Machine) report(kind, msg string, md Model) {
	v := &Violation{Harness: m.job.H.Name, Msg: msg, Kind: kind, Cases: append([]int(nil), m.job.cases[:min(len(m.job.cases), m.st.caseIdx)]...),
		Inputs: append([]Input(nil), m.st.inputs...), Model: md, Trace: append([]string(nil), m.st.trace...)}
	m.viol = append(m.viol, v)
	if d := time.Now().Add(violGrace); violGrace > 0 && d.Before(m.deadline) {
		m.deadline = d // the counterexample is replayed when the job ends: do not let the rest of it take long
	}
	if os.Getenv("GOSYM_V") != "" {
		fmt.Fprintf(os.Stderr, "[viol] %s %s: %s %s\n", m.job.H.Name, kind, msg, m.where())
	}
	if len(m.viol) >= 8 {
		panic(stopJob{})
	}
}

type stopJob struct{}

// fresh makes a new variable.
func (m *Machine) fresh(name string, s Sort) *Term {
	m.st.nvar++
	return m.c.Var(fmt.Sprintf("%s#%d:%d%d", name, m.st.nvar, s.K, s.W), s)
}

// ---------------------------------------------------------------- constants

func (m *Machine) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return m.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		// type parameter instantiated constant
		fatal("const of type %v", t)
	}
	if b.Info()&types.IsString != 0 {
		return constant.StringVal(k.Value)
	}
	s, _, ok := basicSort(b)
	if !ok {
		fatal("const %v of %v", k, t)
	}
	switch s.K {
	case KBool:
		return m.c.Bool(constant.BoolVal(k.Value))
	case KFP:
		f, _ := constant.Float64Val(k.Value)
		return m.c.FConst(int(s.W), f)
	}
	v := constant.ToInt(k.Value)
	if i, ok := constant.Int64Val(v); ok {
		return m.c.Const(s, uint64(i))
	}
	u, _ := constant.Uint64Val(v)
	return m.c.Const(s, u)
}
