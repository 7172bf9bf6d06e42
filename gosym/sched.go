package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Merge mode: one predicated memory, per thread a set of control configurations with mutually exclusive guards, and a
// round-robin schedule in which every point where a thread may be left is a fresh Boolean of the solver.

const (
	visNone = iota
	visSync
	visLock
	visRLock
	visUnlock
	visTry
	visYield
	visPlainAcc
)

type visKey struct{ top, caller ssa.Instruction }

type pending struct {
	kind int
	args []Value
	key  visKey
}

type perfRec struct {
	tid, round int
	g          *Term
}

// visName gives the visible operation fn stands for ("" if none).
func (P *Program) visName(fn *ssa.Function) string {
	P.mu.Lock()
	defer P.mu.Unlock()
	if n, ok := P.vis[fn]; ok {
		return n
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	n := o.String()
	if !visibleOps[n] {
		n = ""
	}
	if P.vis == nil {
		P.vis = map[*ssa.Function]string{}
	}
	P.vis[fn] = n
	return n
}

func init() {
	for _, n := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "time.Until", ndPath + ".Yield", ndPath + ".Advance"} {
		visibleOps[n] = true
	}
}

func visKind(n string) int {
	switch n {
	case "":
		return visNone
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return visLock
	case "(*sync.RWMutex).RLock":
		return visRLock
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return visUnlock
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		return visTry
	case ndPath + ".Yield":
		return visYield
	}
	return visSync
}

// peek tells which visible operation cfg is about to perform.
func (m *Machine) peek(cfg *Config) (p pending) {
	fr := cfg.top()
	var common *ssa.CallCommon
	var dargs []Value
	var callee Value
	var top ssa.Instruction
	deferred := func() bool {
		if len(fr.defers) == 0 {
			return false
		}
		d := fr.defers[len(fr.defers)-1]
		common, dargs, callee, top = &d.instr.Call, d.args, d.fn, d.instr
		return true
	}
	if fr.panics {
		if !deferred() {
			return
		}
	} else {
		switch in := fr.block.Instrs[fr.idx].(type) {
		case *ssa.Call:
			common, top = &in.Call, in
		case *ssa.RunDefers:
			if !deferred() {
				return
			}
		default:
			if m.leads[in] {
				return pending{kind: visPlainAcc, key: visKey{in, nil}}
			}
			return
		}
	}
	if _, ok := common.Value.(*ssa.Builtin); ok && !common.IsInvoke() {
		if c, ok := top.(*ssa.Call); ok && m.leads[c] {
			return pending{kind: visPlainAcc, key: visKey{c, nil}}
		}
		return
	}
	var fn *ssa.Function
	var recv Value
	if common.IsInvoke() {
		if callee == nil {
			callee = m.get(fr, common.Value)
		}
		if i, ok := callee.(Iface); ok && i.t != nil {
			if _, isT := i.v.(RTyp); !isT {
				fn = m.P.prog.LookupMethod(i.t, common.Method.Pkg(), common.Method.Name())
				recv = i.v
			}
		}
	} else if f, ok := common.Value.(*ssa.Function); ok {
		fn = f
	}
	if fn == nil {
		return
	}
	p.kind = visKind(m.P.visName(fn))
	if p.kind == visNone {
		return
	}
	p.key.top = top
	if len(cfg.frames) > 1 {
		c := cfg.frames[len(cfg.frames)-2]
		if !c.panics {
			p.key.caller = c.block.Instrs[c.idx]
		}
	}
	if p.kind == visLock || p.kind == visRLock {
		if dargs == nil && recv == nil {
			p.args = append(p.args, m.get(fr, common.Args[0]))
		} else if recv != nil {
			p.args = append(p.args, recv)
		} else {
			p.args = dargs
		}
	}
	return
}

// busy is the condition under which the pending acquisition cannot proceed.
func (m *Machine) busy(cfg *Config, p pending) *Term {
	if p.kind != visLock && p.kind != visRLock {
		return m.c.False
	}
	b := m.c.False
	m.each(p.args[0], cfg.guard, func(v Value, g *Term) {
		pt, ok := v.(Ptr)
		if !ok || pt.obj == 0 {
			return
		}
		t := m.obj(pt.obj).cells[pt.off].(*Term)
		var x *Term
		if p.kind == visLock {
			x = m.c.Not(m.c.Eq(t, m.c.Int(0)))
		} else {
			x = m.c.Eq(t, m.c.Int(1))
		}
		b = m.c.Or(b, m.c.And(g, x))
	})
	return b
}

// ---------------------------------------------------------------- configurations

func cfgKey(cfg *Config) string {
	var sb strings.Builder
	for _, f := range cfg.frames {
		fmt.Fprintf(&sb, "|%p.%d.%d", f.fn, f.block.Index, f.idx)
		if f.isDefer {
			sb.WriteByte('d')
		}
		if f.panics {
			sb.WriteByte('p')
			if f.recov {
				sb.WriteByte('r')
			}
		}
		for _, d := range f.defers {
			fmt.Fprintf(&sb, ",%p", d.instr)
		}
	}
	if cfg.visOK {
		sb.WriteByte('v')
	}
	if cfg.ticks > 0 {
		sb.WriteByte('t')
	}
	return sb.String()
}

// cfgLess orders configurations so that the ones further behind in the program run first.
func cfgLess(a, b *Config) bool {
	for i := 0; ; i++ {
		if i >= len(a.frames) || i >= len(b.frames) {
			return len(a.frames) < len(b.frames)
		}
		fa, fb := a.frames[i], b.frames[i]
		if fa.fn != fb.fn {
			return fa.fn.String() < fb.fn.String()
		}
		if fa.panics != fb.panics {
			return fb.panics
		}
		pa, pb := fa.info.pos[fa.block.Index], fb.info.pos[fb.block.Index]
		if pa != pb {
			return pa < pb
		}
		if fa.idx != fb.idx {
			return fa.idx < fb.idx
		}
	}
}

// selector is a condition that tells a from b, knowing one of them holds.
func (m *Machine) selector(a, b *Term) *Term {
	cb := map[*Term]bool{}
	for _, x := range conj(b) {
		cb[x] = true
	}
	var ra []*Term
	for _, x := range conj(a) {
		if !cb[x] {
			ra = append(ra, x)
		}
	}
	ca := map[*Term]bool{}
	for _, x := range conj(a) {
		ca[x] = true
	}
	var rb []*Term
	for _, x := range conj(b) {
		if !ca[x] {
			rb = append(rb, x)
		}
	}
	// one complementary literal is enough
	for _, x := range ra {
		for _, y := range rb {
			if isNeg(x, y) {
				return x
			}
		}
	}
	if len(rb) < len(ra) {
		return m.c.Not(m.c.And(rb...))
	}
	return m.c.And(ra...)
}

func (m *Machine) mergeCfg(a, b *Config) *Config {
	m.stats.Merges++
	sel := m.selector(a.guard, b.guard)
	for i, f := range a.frames {
		h := b.frames[i]
		live := f.info.liveBefore(f.fn, f.block, f.idx)
		for s := range f.regs {
			if !live[s] {
				f.regs[s] = nil
				continue
			}
			x, y := f.regs[s], h.regs[s]
			if x == nil || y == nil {
				if x == nil {
					f.regs[s] = y
				}
				continue
			}
			f.regs[s] = m.merge(sel, x, y)
		}
		for k := range f.defers {
			d, e := &f.defers[k], h.defers[k]
			if d.fn != nil && e.fn != nil {
				d.fn = m.merge(sel, d.fn, e.fn)
			}
			args := make([]Value, len(d.args))
			for j := range d.args {
				args[j] = m.merge(sel, d.args[j], e.args[j])
			}
			d.args = args
		}
		if f.panics && f.panicVal != nil && h.panicVal != nil {
			f.panicVal = m.merge(sel, f.panicVal, h.panicVal)
		}
	}
	var locks []Ptr
	for _, l := range a.locks {
		for _, k := range b.locks {
			if l == k {
				locks = append(locks, l)
				break
			}
		}
	}
	a.locks = locks
	a.guard = m.c.Or(a.guard, b.guard)
	if a.resumed == nil {
		a.resumed = b.resumed
	} else if b.resumed != nil {
		a.resumed = m.c.Or(a.resumed, b.resumed)
	}
	a.steps = max(a.steps, b.steps)
	return a
}

type cfgSet struct {
	m    *Machine
	list []*Config
	keys []string
}

func (s *cfgSet) add(cfg *Config) {
	if cfg.dead || cfg.guard == s.m.c.False {
		return
	}
	k := cfgKey(cfg)
	for i := range s.list {
		if s.keys[i] == k {
			s.list[i] = s.m.mergeCfg(s.list[i], cfg)
			return
		}
	}
	s.list = append(s.list, cfg)
	s.keys = append(s.keys, k)
}

func (s *cfgSet) pop() *Config {
	b := 0
	for i := range s.list {
		if cfgLess(s.list[i], s.list[b]) {
			b = i
		}
	}
	c := s.list[b]
	s.list = append(s.list[:b:b], s.list[b+1:]...)
	s.keys = append(s.keys[:b:b], s.keys[b+1:]...)
	return c
}

// runTurn runs the configurations of one thread until each has ended or is left at a scheduling point.
func (m *Machine) runTurn(cfgs []*Config, susp *cfgSet, last bool) (done *Term) {
	c := m.c
	done = c.False
	wl := &cfgSet{m: m}
	for _, x := range cfgs {
		if m.inPar {
			x.resumed = x.guard
		}
		wl.add(x)
	}
	m.pendingMain = wl
	for len(wl.list) > 0 {
		cfg := wl.pop()
		m.stats.Configs++
		fresh := true
		for {
			if time.Now().After(m.deadline) {
				m.incomplete("time budget: " + m.job.String() + " cut while encoding")
				panic(stopJob{})
			}
			m.curPend = pending{}
			if m.inPar && !cfg.visOK {
				m.curCfg = cfg
				p := m.peek(cfg)
				m.curPend = p
				if p.kind != visNone {
					if !fresh && len(wl.list) > 0 {
						wl.add(cfg)
						break
					}
					if !m.schedule(cfg, p, susp, last) {
						break
					}
				}
			}
			fresh = false
			depth := len(cfg.frames)
			fr := cfg.top()
			blk := fr.block
			m.emitted = m.emitted[:0]
			m.stepM(cfg)
			cfg.visOK = false
			cfg.resumed = nil
			em := append([]*Config(nil), m.emitted...)
			m.emitted = m.emitted[:0]
			for _, e := range em {
				e.visOK = false
				e.resumed = nil
				if len(e.frames) == 0 {
					done = c.Or(done, e.guard)
					continue
				}
				if et := e.top(); len(e.frames) == depth && !et.panics && et.block != blk && et.info.pos[et.block.Index] <= et.info.pos[blk.Index] && !m.feasible(e.guard) {
					continue
				}
				wl.add(e)
			}
			if cfg.dead {
				break
			}
			if len(cfg.frames) == 0 {
				done = c.Or(done, cfg.guard)
				break
			}
			if cfg.steps > m.maxSteps {
				m.curCfg = cfg
				m.guarded(cfg, func() { m.hang(cfg, fmt.Sprintf("more than %d steps", m.maxSteps)) })
				break
			}
			if len(cfg.frames) != depth || cfg.top().block != blk || len(em) > 0 {
				t := cfg.top()
				if len(cfg.frames) == depth && t == fr && t.block != blk && t.info.pos[t.block.Index] <= t.info.pos[blk.Index] {
					if !m.feasible(cfg.guard) {
						break
					}
				}
				if len(wl.list) > 0 {
					wl.add(cfg)
					break
				}
			}
		}
	}
	return done
}

// stepM runs one instruction, absorbing configuration death.
func (m *Machine) stepM(cfg *Config) {
	m.guarded(cfg, func() { m.step(cfg) })
}

// schedule takes the scheduling decision before a visible operation; false when nothing of cfg goes on in this turn.
func (m *Machine) schedule(cfg *Config, p pending, susp *cfgSet, last bool) bool {
	c := m.c
	stop := c.False
	conf := p.kind == visYield || p.kind == visPlainAcc || m.conf[p.key]
	if conf && !last && m.pass > 0 {
		stop = m.fresh("stop", BoolS)
		m.sched = append(m.sched, schedVar{v: stop, tid: m.curThread, round: m.round, cfgG: cfg.guard})
	}
	busy := m.busy(cfg, p)
	leave := c.And(cfg.guard, c.Or(stop, busy))
	if leave != c.False {
		n := cfg.clone()
		n.resumed = nil
		n.guard = leave
		susp.add(n)
		cfg.guard = c.And(cfg.guard, c.Not(leave))
		cfg.guard = c.And(cfg.guard, c.Not(stop))
		if cfg.guard == c.False || busy != c.False && !m.feasible(cfg.guard) {
			return false
		}
	}
	m.perf = append(m.perf, perfRec{m.curThread, m.round, cfg.guard})
	m.stats.VisOps++
	cfg.visOK = true
	return true
}

// raceCheck looks for data races. A thread left just before an access holds that access pending until its next turn, so an
// access of another thread to the same memory in between is unordered with it: a race, if one of them writes and one is plain.
func (m *Machine) raceCheck(p Ptr, write bool, kind int, in ssa.Instruction, g *Term) {
	if !m.races || m.pass == 0 || p.obj <= 0 {
		return
	}
	if r := m.curCfg.resumed; r != nil {
		for i := range m.events {
			e := &m.events[i]
			if e.tid == m.curThread || e.turn <= m.lastTurn[m.curThread] || e.p != p || !e.write && !write || e.kind != 0 && kind != 0 {
				continue
			}
			bad := m.c.And(g, r, e.g)
			if bad == m.c.False {
				continue
			}
			a, b := m.site(e.instr, e.write), m.site(in, write)
			if b < a {
				a, b = b, a
			}
			msg := "data race: " + a + " and " + b
			if o := m.raceG[msg]; o != nil {
				bad = m.c.Or(o, bad)
			}
			if os.Getenv("GOSYM_V") == "3" {
				fmt.Fprintf(os.Stderr, "[race] %s obj %v turn %d->%d g=%v r=%v eg=%v\n", msg, p, e.turn, m.turn, g, r, e.g)
			}
			m.raceG[msg] = bad
		}
	}
	m.events = append(m.events, accEvent{m.curThread, m.turn, p, write, kind, in, g})
}

func (m *Machine) site(in ssa.Instruction, w bool) string {
	p := m.P.fset.Position(in.Pos())
	f := strings.TrimPrefix(p.Filename, m.P.repo+"/")
	if w {
		return fmt.Sprintf("write at %s:%d", f, p.Line)
	}
	return fmt.Sprintf("read at %s:%d", f, p.Line)
}

// par runs the argument closures as threads.
func (m *Machine) par(cfg *Config, args []Value) Value {
	c := m.c
	if m.inPar {
		fatal("nested Par")
	}
	if !m.mergeM {
		fatal("Par outside merge mode")
	}
	if len(m.pendingMain.list) > 0 {
		fatal("Par reached by one of several configurations")
	}
	save := m.pendingMain
	s := args[0].(SliceV)
	type thr struct{ susp *cfgSet }
	n := int(s.len)
	thrs := make([]*cfgSet, n)
	dones := make([]*Term, n)
	for i := 0; i < n; i++ {
		cl, ok := m.obj(s.obj).cells[int(s.off)+i].(*Closure)
		if !ok {
			fatal("Par argument")
		}
		tc := &Config{guard: cfg.guard, th: &Thread{id: i + 1}}
		m.pushFrame(tc, cl.fn, cl.free, nil, true)
		thrs[i] = &cfgSet{m: m}
		thrs[i].add(tc)
		dones[i] = c.False
	}
	m.rounds = m.job.params["ROUNDS"]
	if m.rounds == 0 {
		m.rounds = 2
	}
	m.nthreads = n
	m.inPar = true
	m.thrs = thrs
	for r := 0; r < m.rounds; r++ {
		for t := 0; t < n; t++ {
			m.round, m.curThread = r, t+1
			m.turn++
			run := thrs[t].list
			next := &cfgSet{m: m}
			thrs[t] = next
			dones[t] = c.Or(dones[t], m.runTurn(run, next, r == m.rounds-1))
			m.lastTurn[t+1] = m.turn
			if os.Getenv("GOSYM_V") == "2" {
				fmt.Fprintf(os.Stderr, "[turn] pass %d round %d thread %d: suspended %d, visops %d, steps %d, queries %d\n", m.pass, r, t, len(next.list), len(m.perf), m.stats.Steps, m.sol.Queries)
			}
		}
	}
	m.inPar = false
	m.curThread = 0
	m.curCfg = cfg
	m.pendingMain = save
	m.emitted = m.emitted[:0]
	// deadlock: some thread is left and every one that is left waits for a lock that is held
	left := c.False
	stuck := []*Term{cfg.guard}
	for t := range thrs {
		b := dones[t]
		for _, x := range thrs[t].list {
			left = c.Or(left, x.guard)
			m.curCfg = x
			if p := m.peek(x); p.kind == visLock || p.kind == visRLock {
				b = c.Or(b, c.And(x.guard, m.busy(x, p)))
			}
		}
		stuck = append(stuck, b)
	}
	m.curCfg = cfg
	m.assert(c.And(append(stuck, left)...), c.False, "deadlock: every unfinished thread waits for a lock", "deadlock")
	cfg.guard = c.And(append([]*Term{cfg.guard}, dones...)...)
	if cfg.guard == c.False {
		cfg.dead = true
		panic(cfgDead{})
	}
	return &TupleV{}
}

// ---------------------------------------------------------------- conflicts

func (m *Machine) harnessFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		return false
	}
	return strings.Contains(fn.Pkg.Pkg.Path(), "/zzverif/")
}

func protects(a, b []Ptr) bool {
	const rd = 1 << 30
	for _, x := range a {
		for _, y := range b {
			if x.obj == y.obj && x.off&^rd == y.off&^rd && (x.off&rd == 0 || y.off&rd == 0) {
				return true
			}
		}
	}
	return false
}

// newConflicts extends the set of operations at which threads may be left; false when nothing was added.
func (m *Machine) newConflicts() bool {
	added := false
	mark := func(r *accessRec) {
		if r.kind == 0 {
			if !m.visPlain[r.instr] {
				m.visPlain[r.instr] = r.write
				m.visPlain[r.instr] = true
				m.plainW[r.instr] = m.plainW[r.instr] || r.write
				added = true
			} else if r.write && !m.plainW[r.instr] {
				m.plainW[r.instr] = true
			}
			return
		}
		k := visKey{r.instr, r.caller}
		if !m.conf[k] {
			m.conf[k] = true
			added = true
		}
	}
	for _, recs := range m.access {
		for i := range recs {
			for j := i + 1; j < len(recs); j++ {
				a, b := &recs[i], &recs[j]
				if a.tid == b.tid || !a.write && !b.write {
					continue
				}
				if a.kind == visUnlock && b.kind != visTry || b.kind == visUnlock && a.kind != visTry {
					continue
				}
				if (a.kind == 0 || b.kind == 0) && protects(a.locks, b.locks) {
					continue
				}
				mark(a)
				mark(b)
			}
		}
	}
	m.leads = map[ssa.Instruction]bool{}
	type lk struct {
		b  *ssa.BasicBlock
		l  int
		wr bool
	}
	first := map[lk]ssa.Instruction{}
	idx := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	for in := range m.visPlain {
		if m.races {
			m.leads[in] = true
			continue
		}
		k := lk{in.Block(), m.P.fset.Position(in.Pos()).Line, m.plainW[in]}
		if f, ok := first[k]; !ok || idx(in) < idx(f) {
			first[k] = in
		}
	}
	for _, in := range first {
		m.leads[in] = true
	}
	return added
}

func (m *Machine) points() []string {
	set := map[string]bool{}
	for in := range m.leads {
		p := m.P.fset.Position(in.Pos())
		w := "r"
		if m.plainW[in] {
			w = "w"
		}
		set[fmt.Sprintf("%s:%d:%s", p.Filename, p.Line, w)] = true
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- escape of thread-local objects

// private reports an object of the running thread no other thread can reach yet.
func (m *Machine) private(id int32, g *Term) bool {
	o := m.obj(id)
	if o == nil || o.tid == 0 || o.tid != m.curThread {
		return false
	}
	e := m.escG[id]
	if e == nil {
		return true
	}
	x := m.c.And(e, g)
	return x == m.c.False || !m.feasible(x)
}

// escape marks everything reachable from v as visible to other threads under g.
func (m *Machine) escape(v Value, g *Term, seen map[int32]bool) {
	visit := func(id int32) {
		if id <= 0 || seen[id] {
			return
		}
		seen[id] = true
		o := m.obj(id)
		if o.tid == 0 || o.tid != m.curThread {
			return
		}
		e := m.escG[id]
		if e == nil {
			m.escG[id] = g
		} else {
			m.escG[id] = m.c.Or(e, g)
		}
		for _, x := range o.cells {
			m.escape(x, g, seen)
		}
		if o.m != nil {
			for _, x := range o.m.entries {
				m.escape(x.k, g, seen)
				m.escape(x.v, g, seen)
			}
		}
	}
	switch x := v.(type) {
	case Ptr:
		visit(x.obj)
	case SliceV:
		visit(x.obj)
	case MapV:
		visit(x.id)
	case ChanV:
		visit(x.id)
	case Iface:
		m.escape(x.v, g, seen)
	case *Closure:
		if x != nil {
			for _, f := range x.free {
				m.escape(f, g, seen)
			}
		}
	case *Agg:
		for _, f := range x.v {
			m.escape(f, g, seen)
		}
	case *TupleV:
		for _, f := range x.v {
			m.escape(f, g, seen)
		}
	case *Union:
		for _, a := range x.alts {
			m.escape(a.v, m.c.And(g, a.g), seen)
		}
	}
}

func (m *Machine) escapeInto(dst int32, v Value, g *Term) {
	if _, ok := v.(*Term); ok {
		return
	}
	if !m.inPar || m.private(dst, g) {
		return
	}
	m.escape(v, g, map[int32]bool{})
}

// ---------------------------------------------------------------- run

func (m *Machine) runMerge(res *JobResult) {
	m.conf = map[visKey]bool{}
	m.races = m.job.H.Opts["race"] != ""
	m.plainW = map[ssa.Instruction]bool{}
	m.leads = map[ssa.Instruction]bool{}
	c := m.c
	var end *Term
	for m.pass = 0; ; m.pass++ {
		if m.pass > 0 {
			m.sol.Restart()
			m.initState()
			m.runInits()
		}
		m.oblig, m.covers, m.perf, m.sched = nil, nil, nil, nil
		m.allocs = map[string][]allocRec{}
		m.access = map[[2]int32][]accessRec{}
		m.escG = map[int32]*Term{}
		m.events, m.raceG, m.turn, m.lastTurn = nil, map[string]*Term{}, 0, map[int]int{}
		m.feasCache = map[*Term]Res{}
		m.stats.VisOps, m.stats.Asserts = 0, 0
		cfg := &Config{guard: c.True, th: &Thread{}}
		m.pushFrame(cfg, m.job.H.fn, nil, nil, true)
		end = m.runTurn([]*Config{cfg}, &cfgSet{m: m}, true)
		if !m.newConflicts() && m.pass > 0 {
			break
		}
		if m.pass > 12 {
			m.incomplete("conflict set did not settle in " + m.job.String())
			break
		}
	}
	var rm []string
	for msg := range m.raceG {
		rm = append(rm, msg)
	}
	sort.Strings(rm)
	for _, msg := range rm {
		m.oblig = append(m.oblig, Oblig{m.raceG[msg], msg, "race"})
		m.stats.Asserts++
	}
	pc := m.st.pc
	m.stats.Obligs = len(m.oblig)
	res.obligs = len(m.oblig)
	ask := func(model bool, ts ...*Term) (Res, Model) {
		left := time.Until(m.deadline)
		if left < time.Second {
			return Unknown, nil
		}
		t := append(append([]*Term(nil), pc...), ts...)
		r, md, d := OneShot(c, t, left, solverBin(), model)
		m.sol.Queries++
		m.sol.Time += d
		m.oneT += d
		m.sol.MaxQ = max(m.sol.MaxQ, d)
		switch r {
		case Sat:
			m.sol.NSat++
		case Unsat:
			m.sol.NUnsat++
		default:
			m.sol.NUnk++
		}
		return r, md
	}
	left := m.oblig
	for k := 0; k < 4 && len(left) > 0; k++ {
		var bads []*Term
		for _, o := range left {
			bads = append(bads, o.bad)
		}
		r, md := ask(true, c.Or(bads...))
		if r == Unknown {
			m.incomplete("solver unknown on the obligations of " + m.job.String())
			break
		}
		if r == Unsat {
			res.proved += len(left)
			break
		}
		var hit *Oblig
		for i := range left {
			if c.Eval(left[i].bad, md) == 1 {
				hit = &left[i]
				break
			}
		}
		if hit == nil {
			m.incomplete("model satisfies no obligation in " + m.job.String())
			break
		}
		v := &Violation{Harness: m.job.H.Name, Msg: hit.msg, Kind: hit.kind, Cases: m.job.cases, Inputs: m.st.inputs, Model: md, Sched: m.schedule0(md), Points: m.points()}
		m.viol = append(m.viol, v)
		var rest []Oblig
		for _, o := range left {
			if o.msg != hit.msg {
				rest = append(rest, o)
			}
		}
		left = rest
	}
	seen := map[string]bool{}
	for _, cv := range m.covers {
		if seen[cv.name] {
			continue
		}
		if r, _ := ask(false, cv.g); r == Sat {
			seen[cv.name] = true
			m.stats.Cover[m.job.H.Name+":"+cv.name]++
		}
	}
	// a witness execution for native validation
	for try := 0; try < 3; try++ {
		ts := []*Term{end}
		if try < 2 && len(m.sched) > 0 {
			for k := 0; k < 2-try; k++ {
				ts = append(ts, c.And(m.sched[m.rng.Intn(len(m.sched))].v))
			}
		}
		r, md := ask(true, ts...)
		if r == Sat {
			m.stats.Paths = 1
			rf := m.replayFile(m.st.inputs, md, "witness", "")
			for _, s := range m.schedule0(md) {
				rf.Sched = append(rf.Sched, [2]int{s.Tid, s.Count})
			}
			rf.Points = m.points()
			m.witness = append(m.witness, rf)
			break
		}
	}
	if os.Getenv("GOSYM_V") == "2" {
		fmt.Fprintf(os.Stderr, "[M] %v oneshot=%v sat=%d unsat=%d passes=%d conf=%d plain=%v obligs=%d stops=%d visops=%d\n", m.job, m.oneT, m.sol.NSat, m.sol.NUnsat, m.pass+1, len(m.conf), m.points(), len(m.oblig), len(m.sched), m.stats.VisOps)
	}
}

// schedule0 reads the schedule out of a model: per turn, how many visible operations were performed.
func (m *Machine) schedule0(md Model) []SchedStep {
	n := map[[2]int]int{}
	for _, p := range m.perf {
		if m.c.Eval(p.g, md) == 1 {
			n[[2]int{p.round, p.tid}]++
		}
	}
	var out []SchedStep
	for r := 0; r < m.rounds; r++ {
		for t := 1; t <= m.nthreads; t++ {
			out = append(out, SchedStep{t - 1, n[[2]int{r, t}]})
		}
	}
	return out
}

var _ types.Type
