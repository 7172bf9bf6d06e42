package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type raiseSig struct{ v Value }
type cfgDead struct{}

func (m *Machine) get(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return m.globalPtr(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		fatal("builtin as value %v", x)
	}
	s, ok := fr.info.slot[v]
	if !ok {
		fatal("no slot for %v in %v", v, fr.fn)
	}
	r := fr.regs[s]
	if r == nil {
		fatal("unset register %v = %v in %v", v.Name(), v, fr.fn)
	}
	return r
}

func (m *Machine) set(fr *Frame, v ssa.Value, x Value) {
	if x == nil {
		fatal("nil value for %v in %v", v, fr.fn)
	}
	fr.regs[fr.info.slot[v]] = x
}

// raise starts a Go panic under guard g in cfg.
func (m *Machine) raise(cfg *Config, g *Term, v Value) {
	if s, ok := v.(string); ok {
		v = Iface{types.Typ[types.String], "runtime error: " + s}
	}
	if !m.mergeM {
		panic(raiseSig{v})
	}
	if !m.feasible(g) {
		return
	}
	n := cfg.clone()
	n.guard = g
	n.top().panics = true
	n.top().recov = false
	n.top().panicVal = v
	n.visOK = false
	m.emitted = append(m.emitted, n)
	cfg.guard = m.c.And(cfg.guard, m.c.Not(g))
	if cfg.guard == m.c.False || !m.feasible(cfg.guard) {
		cfg.dead = true
		panic(cfgDead{})
	}
}

// ---------------------------------------------------------------- memory access

func (m *Machine) note(p Ptr, write bool, g *Term) {
	if !m.inPar {
		return
	}
	fr := m.curCfg.top()
	var in ssa.Instruction
	if m.syncAcc {
		m.noteSync(p, write, g)
		return
	}
	in = fr.block.Instrs[fr.idx]
	if m.harnessFn(fr.fn) || m.private(p.obj, g) {
		return
	}
	m.noteAccess([2]int32{p.obj, p.off}, accessRec{tid: m.curThread, instr: in, write: write, locks: m.curCfg.locks})
	m.raceCheck(p, write, 0, in, g)
}

// noteSync records the visible operation being performed as an access to p.
func (m *Machine) noteSync(p Ptr, write bool, g *Term) {
	if !m.inPar || p.obj > 0 && m.private(p.obj, g) {
		return
	}
	pd := m.curPend
	if pd.kind == visNone {
		return
	}
	m.noteAccess([2]int32{p.obj, p.off}, accessRec{tid: m.curThread, instr: pd.key.top, caller: pd.key.caller, write: write, kind: pd.kind, locks: m.curCfg.locks})
	m.raceCheck(p, write, pd.kind, pd.key.top, g)
}

func (m *Machine) noteAccess(key [2]int32, n accessRec) {
	recs := m.access[key]
	for _, r := range recs {
		if r.tid == n.tid && r.instr == n.instr && r.caller == n.caller && r.write == n.write && r.kind == n.kind && sameLocks(r.locks, n.locks) {
			return
		}
	}
	n.locks = append([]Ptr(nil), n.locks...)
	m.access[key] = append(recs, n)
}

func sameLocks(a, b []Ptr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// prune drops the alternatives of a pointer that no execution can have here.
func (m *Machine) prune(v Value, g *Term) Value {
	u, ok := v.(*Union)
	if !ok || !m.mergeM {
		return v
	}
	var as []Alt
	for _, a := range u.alts {
		if x := m.c.And(g, a.g); x != m.c.False && m.feasible(x) {
			as = append(as, a)
		}
	}
	if len(as) == 1 {
		return as[0].v
	}
	return &Union{as}
}

func (m *Machine) load(cfg *Config, pv Value, t types.Type) Value {
	pv = m.prune(pv, cfg.guard)
	var acc Value
	n := m.lay.Size(t)
	agg := isAgg(t)
	g0 := cfg.guard
	m.each(pv, g0, func(v Value, g *Term) {
		p, ok := v.(Ptr)
		if !ok {
			fatal("load through %T at %s", v, m.where())
		}
		if p.obj == 0 {
			m.raise(cfg, g, "invalid memory address or nil pointer dereference")
			return
		}
		o := m.obj(p.obj)
		if int(p.off)+n > len(o.cells) {
			fatal("load of %v out of object at %s", t, m.where())
		}
		var x Value
		if agg {
			x = &Agg{append([]Value(nil), o.cells[p.off:int(p.off)+n]...)}
			if m.inPar {
				for i := 0; i < n; i++ {
					m.note(Ptr{p.obj, p.off + int32(i)}, false, g)
				}
			}
		} else {
			x = o.cells[p.off]
			m.note(p, false, g)
			if i, ok := x.(Iface); ok && i.t == nil && !types.IsInterface(t) {
				x = m.zero(t) // a nil interface read as another type: zero words
			}
		}
		if acc == nil {
			acc = x
		} else {
			acc = m.merge(g, x, acc)
		}
	})
	if acc == nil {
		panic(cfgDead{})
	}
	if m.mergeM {
		acc = m.restrict(acc, cfg.guard)
	}
	return acc
}

// restrict drops alternatives that contradict guard g syntactically.
func (m *Machine) restrict(v Value, g *Term) Value {
	switch x := v.(type) {
	case *Union:
		var as []Alt
		for _, a := range x.alts {
			if m.c.And(g, a.g) != m.c.False {
				as = append(as, a)
			}
		}
		if len(as) == 1 {
			return as[0].v
		}
		if len(as) == len(x.alts) || len(as) == 0 {
			return v
		}
		return &Union{as}
	case *Term:
		for x.op == OIte {
			if m.c.And(g, x.args[0]) == m.c.False {
				x = x.args[2]
			} else if m.c.And(g, m.c.Not(x.args[0])) == m.c.False {
				x = x.args[1]
			} else {
				break
			}
		}
		return x
	}
	return v
}

func (m *Machine) store(cfg *Config, pv Value, val Value, t types.Type) {
	pv = m.prune(pv, cfg.guard)
	m.each(pv, cfg.guard, func(v Value, g *Term) {
		p, ok := v.(Ptr)
		if !ok {
			fatal("store through %T at %s", v, m.where())
		}
		if p.obj == 0 {
			m.raise(cfg, g, "invalid memory address or nil pointer dereference")
			return
		}
		o := m.mut(p.obj)
		fl := flat(val)
		if _, isU := val.(*Union); isU && isAgg(t) {
			fatal("union of aggregates stored at %s", m.where())
		}
		for i, x := range fl {
			off := p.off + int32(i)
			if m.inPar {
				m.note(Ptr{p.obj, off}, true, g)
				m.escapeInto(p.obj, x, g)
			}
			if g == m.c.True {
				o.cells[off] = x
			} else {
				o.cells[off] = m.merge(g, x, o.cells[off])
			}
		}
	})
}

// ---------------------------------------------------------------- step

func (m *Machine) jump(fr *Frame, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
			break
		}
	}
	var vals []Value
	n := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, m.get(fr, p.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		m.set(fr, to.Instrs[i].(*ssa.Phi), vals[i])
	}
	fr.block = to
	fr.idx = n
}

// jumpIf handles a branch whose two targets may be the same block (phi edges by position).
func (m *Machine) jumpSucc(fr *Frame, i int) {
	from := fr.block
	to := from.Succs[i]
	if len(from.Succs) == 2 && from.Succs[0] == from.Succs[1] {
		// second edge is the second matching predecessor
		k := 0
		for j, p := range to.Preds {
			if p == from {
				if k == i {
					m.jumpPred(fr, to, j)
					return
				}
				k++
			}
		}
	}
	m.jump(fr, from, to)
}

func (m *Machine) jumpPred(fr *Frame, to *ssa.BasicBlock, k int) {
	var vals []Value
	n := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, m.get(fr, p.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		m.set(fr, to.Instrs[i].(*ssa.Phi), vals[i])
	}
	fr.block = to
	fr.idx = n
}

// step executes one instruction of cfg.
func (m *Machine) step(cfg *Config) {
	m.curCfg = cfg
	fr := cfg.top()
	m.stats.Steps++
	cfg.steps++
	if fr.panics {
		m.unwind(cfg)
		return
	}
	instr := fr.block.Instrs[fr.idx]
	c := m.c
	switch in := instr.(type) {
	case *ssa.DebugRef:
		fr.idx++
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if in.Heap && m.lay.Size(t) == 0 {
			// pointers to zero-size variables are all the same, as in the runtime
			m.set(fr, in, m.zeroBase(t))
		} else {
			m.set(fr, in, m.allocAt(cfg, t, in))
		}
		fr.idx++
	case *ssa.BinOp:
		m.set(fr, in, m.binop(cfg, in.Op, m.get(fr, in.X), m.get(fr, in.Y), in.X.Type(), in.Y.Type()))
		fr.idx++
	case *ssa.UnOp:
		m.unop(cfg, fr, in)
	case *ssa.Call:
		m.call(cfg, fr, &in.Call)
	case *ssa.ChangeInterface:
		m.set(fr, in, m.get(fr, in.X))
		fr.idx++
	case *ssa.ChangeType:
		m.set(fr, in, m.get(fr, in.X))
		fr.idx++
	case *ssa.Convert:
		m.set(fr, in, m.convert(cfg, m.get(fr, in.X), in.X.Type(), in.Type()))
		fr.idx++
	case *ssa.MultiConvert:
		m.set(fr, in, m.convert(cfg, m.get(fr, in.X), in.X.Type(), in.Type()))
		fr.idx++
	case *ssa.Extract:
		t := m.get(fr, in.Tuple)
		tv, ok := t.(*TupleV)
		if !ok {
			fatal("extract from %T", t)
		}
		m.set(fr, in, tv.v[in.Index])
		fr.idx++
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		ft := st.Field(in.Field).Type()
		off := m.lay.FieldOff(st, in.Field)
		a, ok := m.get(fr, in.X).(*Agg)
		if !ok {
			fatal("field of %T (%v) at %s", m.get(fr, in.X), in.X.Type(), m.where())
		}
		m.set(fr, in, subAgg(a.v, off, m.lay.Size(ft), ft))
		fr.idx++
	case *ssa.FieldAddr:
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		st := pt.Underlying().(*types.Struct)
		if opaque(pt) {
			fatal("field address inside opaque %v at %s", pt, m.where())
		}
		off := int32(m.lay.FieldOff(st, in.Field))
		m.set(fr, in, m.mapPtr(cfg, m.get(fr, in.X), func(p Ptr) Value { return Ptr{p.obj, p.off + off} }))
		fr.idx++
	case *ssa.Index:
		m.index(cfg, fr, in)
		fr.idx++
	case *ssa.IndexAddr:
		m.indexAddr(cfg, fr, in)
		fr.idx++
	case *ssa.Lookup:
		m.lookup(cfg, fr, in)
		fr.idx++
	case *ssa.MakeChan:
		n := m.concInt(cfg, m.get(fr, in.Size), 1024)
		id := m.newObj(&Object{ch: &ChanData{cap: n}})
		m.set(fr, in, ChanV{id})
		fr.idx++
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.free = append(cl.free, m.get(fr, b))
		}
		m.set(fr, in, cl)
		fr.idx++
	case *ssa.MakeInterface:
		m.set(fr, in, m.mkIface(in.X.Type(), m.get(fr, in.X)))
		fr.idx++
	case *ssa.MakeMap:
		m.set(fr, in, MapV{m.allocObjAt(cfg, in, func() *Object { return &Object{m: &MapData{}, typ: in.Type()} })})
		fr.idx++
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n := m.concInt(cfg, m.get(fr, in.Len), 64)
		cp := m.concInt(cfg, m.get(fr, in.Cap), 1<<16)
		if n < 0 || cp < n {
			m.raise(cfg, cfg.guard, "makeslice: len out of range")
		}
		m.set(fr, in, m.makeSlice(et, n, cp))
		fr.idx++
	case *ssa.MapUpdate:
		m.mapUpdate(cfg, m.get(fr, in.Map), m.get(fr, in.Key), m.get(fr, in.Value))
		fr.idx++
	case *ssa.Range:
		m.set(fr, in, m.mkRange(cfg, m.get(fr, in.X), in.X.Type(), in))
		fr.idx++
	case *ssa.Next:
		m.next(cfg, fr, in)
		fr.idx++
	case *ssa.Phi:
		fatal("phi reached")
	case *ssa.Slice:
		m.slice(cfg, fr, in)
		fr.idx++
	case *ssa.SliceToArrayPointer:
		at := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		s := m.get(fr, in.X).(SliceV)
		if int64(s.len) < at.Len() {
			m.raise(cfg, cfg.guard, "slice to array pointer: length out of range")
		}
		m.set(fr, in, Ptr{s.obj, s.off})
		fr.idx++
	case *ssa.Store:
		m.store(cfg, m.get(fr, in.Addr), m.get(fr, in.Val), in.Val.Type())
		fr.idx++
	case *ssa.TypeAssert:
		m.typeAssert(cfg, fr, in)
		fr.idx++
	case *ssa.Defer:
		d := DeferRec{instr: in}
		if in.Call.IsInvoke() {
			d.fn = m.get(fr, in.Call.Value)
		} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			d.fn = m.get(fr, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, m.get(fr, a))
		}
		fr.defers = append(fr.defers, d)
		fr.idx++
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			fr.idx++
			return
		}
		m.runDefer(cfg, fr)
	case *ssa.Go:
		m.goStmt(cfg, fr, in)
		fr.idx++
	case *ssa.Send:
		m.send(cfg, m.get(fr, in.Chan), m.get(fr, in.X))
		fr.idx++
	case *ssa.Select:
		m.selectStmt(cfg, fr, in)
	case *ssa.Panic:
		v := m.get(fr, in.X)
		fr.panics = true
		fr.recov = false
		fr.panicVal = v
	case *ssa.Return:
		var res Value
		switch len(in.Results) {
		case 0:
			res = &TupleV{}
		case 1:
			res = m.get(fr, in.Results[0])
		default:
			t := &TupleV{}
			for _, r := range in.Results {
				t.v = append(t.v, m.get(fr, r))
			}
			res = t
		}
		m.ret(cfg, res)
	case *ssa.Jump:
		m.jump(fr, fr.block, fr.block.Succs[0])
	case *ssa.If:
		cond := m.get(fr, in.Cond).(*Term)
		if m.mergeM {
			cond = m.restrict(cond, cfg.guard).(*Term)
			if !cond.isConst() {
				gt := c.And(cfg.guard, cond)
				gf := c.And(cfg.guard, c.Not(cond))
				if gt == c.False {
					cond = c.False
				} else if gf == c.False {
					cond = c.True
				} else {
					if cfg.steps > 20000 { // long-running: prune with the solver
						if !m.feasible(gt) {
							m.jumpSucc(fr, 1)
							cfg.guard = gf
							return
						}
						if !m.feasible(gf) {
							m.jumpSucc(fr, 0)
							cfg.guard = gt
							return
						}
					}
					n := cfg.clone()
					n.guard = gf
					m.jumpSucc(n.top(), 1)
					m.emitted = append(m.emitted, n)
					cfg.guard = gt
					m.jumpSucc(fr, 0)
					return
				}
			}
		}
		if m.decide(cond) {
			m.jumpSucc(fr, 0)
		} else {
			m.jumpSucc(fr, 1)
		}
	default:
		fatal("unsupported instruction %T %v in %v", instr, instr, fr.fn)
	}
}

func subAgg(v []Value, off, n int, t types.Type) Value {
	if isAgg(t) {
		return &Agg{v[off : off+n : off+n]}
	}
	return v[off]
}

// allocKey identifies the control location of an allocation (thread + call stack), for reuse across scheduling rounds.
func (m *Machine) allocObjAt(cfg *Config, in ssa.Instruction, mk func() *Object) int32 {
	if !m.inPar {
		return m.newObj(mk())
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", m.curThread)
	for _, f := range cfg.frames {
		fmt.Fprintf(&sb, "|%p.%d.%d", f.fn, f.block.Index, f.idx)
	}
	key := sb.String()
	recs := m.allocs[key]
	for i := range recs {
		both := m.c.And(recs[i].g, cfg.guard)
		if both == m.c.False || !m.feasible(both) {
			recs[i].g = m.c.Or(recs[i].g, cfg.guard)
			o := m.mut(recs[i].id)
			n := mk()
			for k := range n.cells {
				o.cells[k] = m.merge(cfg.guard, n.cells[k], o.cells[k])
			}
			if o.m != nil {
				for k := range o.m.entries {
					o.m.entries[k].present = m.c.And(o.m.entries[k].present, m.c.Not(cfg.guard))
				}
			}
			return recs[i].id
		}
	}
	id := m.newObj(mk())
	m.allocs[key] = append(recs, allocRec{id, cfg.guard})
	return id
}

func (m *Machine) allocAt(cfg *Config, t types.Type, in ssa.Instruction) Ptr {
	return Ptr{m.allocObjAt(cfg, in, func() *Object { return &Object{cells: m.zeroCells(t, nil), typ: t} }), 0}
}

func (m *Machine) zeroBase(t types.Type) Ptr {
	id, ok := m.st.globals[nil]
	if !ok {
		save := m.curThread
		m.curThread = 0
		id = m.newObj(&Object{typ: t})
		m.curThread = save
		m.st.globals[nil] = id
	}
	return Ptr{id, 0}
}

func (m *Machine) makeSlice(et types.Type, n, cp int) SliceV {
	es := m.lay.Size(et)
	cells := make([]Value, 0, es*cp)
	if es > 0 {
		z := m.zeroCells(et, nil)
		for i := 0; i < cp; i++ {
			cells = append(cells, z...)
		}
	}
	id := m.newObj(&Object{cells: cells, typ: et})
	return SliceV{id, 0, int32(n), int32(cp)}
}

func (m *Machine) mapPtr(cfg *Config, v Value, f func(p Ptr) Value) Value {
	var acc Value
	m.each(v, cfg.guard, func(v Value, g *Term) {
		p, ok := v.(Ptr)
		if !ok {
			fatal("pointer expected, got %T at %s", v, m.where())
		}
		if p.obj == 0 {
			m.raise(cfg, g, "invalid memory address or nil pointer dereference")
			return
		}
		if acc == nil {
			acc = f(p)
		} else {
			acc = m.merge(g, f(p), acc)
		}
	})
	if acc == nil {
		panic(cfgDead{})
	}
	return acc
}

func (m *Machine) mkIface(t types.Type, v Value) Value {
	if u, ok := v.(*Union); ok {
		// keep the union inside
		return Iface{t, u}
	}
	return Iface{t, v}
}

// ---------------------------------------------------------------- calls

type target struct {
	g    *Term
	fn   *ssa.Function
	free []Value
	recv Value // for invoke: receiver value; nil otherwise
	nat  func(m *Machine, cfg *Config, args []Value) Value
}

func (m *Machine) targets(cfg *Config, common *ssa.CallCommon, callee Value) []target {
	var ts []target
	g0 := cfg.guard
	if common.IsInvoke() {
		m.each(callee, g0, func(v Value, g *Term) {
			i, ok := v.(Iface)
			if !ok {
				fatal("invoke on %T", v)
			}
			if i.t == nil {
				m.raise(cfg, g, "invalid memory address or nil pointer dereference (nil interface)")
				return
			}
			if rt, ok := i.v.(RTyp); ok {
				ts = append(ts, target{g: g, nat: rtypeMethod(common.Method.Name(), rt)})
				return
			}
			fn := m.P.prog.LookupMethod(i.t, common.Method.Pkg(), common.Method.Name())
			if fn == nil {
				fatal("no method %s on %v", common.Method.Name(), i.t)
			}
			ts = append(ts, target{g: g, fn: fn, recv: i.v})
		})
		return ts
	}
	m.each(callee, g0, func(v Value, g *Term) {
		cl, ok := v.(*Closure)
		if !ok {
			fatal("call of %T at %s", v, m.where())
		}
		if cl == nil {
			m.raise(cfg, g, "invalid memory address or nil pointer dereference (nil function)")
			return
		}
		ts = append(ts, target{g: g, fn: cl.fn, free: cl.free, nat: cl.nat})
	})
	return ts
}

func (m *Machine) call(cfg *Config, fr *Frame, common *ssa.CallCommon) {
	if b, ok := common.Value.(*ssa.Builtin); ok {
		var args []Value
		for _, a := range common.Args {
			args = append(args, m.get(fr, a))
		}
		res := m.builtin(cfg, fr, b, common, args)
		if v := fr.block.Instrs[fr.idx].(ssa.Value); res != nil {
			m.set(fr, v, res)
		}
		fr.idx++
		return
	}
	var args []Value
	for _, a := range common.Args {
		args = append(args, m.get(fr, a))
	}
	if sc := common.StaticCallee(); sc != nil && !common.IsInvoke() {
		if _, ok := common.Value.(*ssa.Function); ok {
			m.enter(cfg, sc, nil, args, false, nil)
			return
		}
	}
	ts := m.targets(cfg, common, m.get(fr, common.Value))
	m.dispatch(cfg, ts, args, false)
}

// dispatch enters each target under its guard.
func (m *Machine) dispatch(cfg *Config, ts []target, args []Value, isDefer bool) {
	if len(ts) == 0 {
		cfg.dead = true
		panic(cfgDead{})
	}
	enter := func(cfg *Config, t target) {
		as := args
		if t.recv != nil {
			as = append([]Value{t.recv}, args...)
		}
		m.enter(cfg, t.fn, t.free, as, isDefer, t.nat)
	}
	if !m.mergeM {
		if len(ts) > 1 {
			for i, t := range ts {
				if i == len(ts)-1 || m.decide(t.g) {
					enter(cfg, t)
					return
				}
			}
		}
		enter(cfg, ts[0])
		return
	}
	if len(ts) == 1 {
		enter(cfg, ts[0])
		return
	}
	for _, t := range ts[1:] {
		if !m.feasible(t.g) {
			continue
		}
		n := cfg.clone()
		n.guard = t.g
		save := m.curCfg
		m.curCfg = n
		m.guarded(n, func() { enter(n, t) })
		m.curCfg = save
		if !n.dead {
			m.emitted = append(m.emitted, n)
		}
	}
	if !m.feasible(ts[0].g) {
		cfg.dead = true
		panic(cfgDead{})
	}
	cfg.guard = ts[0].g
	enter(cfg, ts[0])
}

// guarded runs f, absorbing a configuration-dead signal of n.
func (m *Machine) guarded(n *Config, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(cfgDead); ok {
				n.dead = true
				return
			}
			panic(r)
		}
	}()
	f()
}

// finish delivers a result to the pending call of cfg's top frame (or discards it for deferred calls).
func (m *Machine) finish(cfg *Config, res Value, isDefer bool) {
	if isDefer {
		return
	}
	if len(cfg.frames) == 0 {
		return
	}
	fr := cfg.top()
	if v, ok := fr.block.Instrs[fr.idx].(ssa.Value); ok {
		if res == nil {
			res = &TupleV{}
		}
		m.set(fr, v, res)
	}
	fr.idx++
}

func (m *Machine) enter(cfg *Config, fn *ssa.Function, free, args []Value, isDefer bool, nat func(m *Machine, cfg *Config, args []Value) Value) {
	if nat != nil {
		res := nat(m, cfg, args)
		m.finish(cfg, res, isDefer)
		return
	}
	if in := m.P.intrinsic(fn); in != nil {
		res := in(m, cfg, fn, args)
		if res == contCall {
			return // the intrinsic pushed a frame or otherwise took over
		}
		m.finish(cfg, res, isDefer)
		return
	}
	m.pushFrame(cfg, fn, free, args, isDefer)
}

var contCall Value = &TupleV{v: []Value{nil}}

func (m *Machine) pushFrame(cfg *Config, fn *ssa.Function, free, args []Value, isDefer bool) *Frame {
	m.P.ensure(fn)
	if len(fn.Blocks) == 0 {
		fatal("no body for %v (called at %s)", fn, m.where())
	}
	fi := m.info(fn)
	nf := &Frame{fn: fn, info: fi, regs: make([]Value, fi.n), block: fn.Blocks[0], isDefer: isDefer}
	if len(args) != len(fn.Params) {
		fatal("call of %v with %d args for %d params", fn, len(args), len(fn.Params))
	}
	copy(nf.regs, args)
	for i, f := range free {
		nf.regs[len(fn.Params)+i] = f
	}
	cfg.frames = append(cfg.frames, nf)
	if len(cfg.frames) > 3000 {
		m.hang(cfg, "recursion deeper than 3000 frames")
	}
	m.stats.Funcs[fn.String()]++
	return nf
}

func (m *Machine) ret(cfg *Config, res Value) {
	fr := cfg.top()
	cfg.frames = cfg.frames[:len(cfg.frames)-1]
	if fr.opaqueRet != nil {
		fr.opaqueRet(m, cfg, res)
		return
	}
	m.finish(cfg, res, fr.isDefer)
}

func (m *Machine) runDefer(cfg *Config, fr *Frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	if b, ok := d.instr.Call.Value.(*ssa.Builtin); ok && !d.instr.Call.IsInvoke() {
		m.builtin(cfg, fr, b, &d.instr.Call, d.args)
		return
	}
	ts := m.targets(cfg, &d.instr.Call, d.fn)
	m.dispatch(cfg, ts, d.args, true)
}

// unwind advances a panicking frame.
func (m *Machine) unwind(cfg *Config) {
	fr := cfg.top()
	if fr.recov {
		fr.panics = false
		fr.recov = false
		// remaining defers still run, then the function returns through its recover block
		if len(fr.defers) > 0 {
			fr.recov = true
			fr.panics = true
			m.runDefer(cfg, fr)
			return
		}
		if fr.fn.Recover != nil {
			fr.block = fr.fn.Recover
			fr.idx = 0
			return
		}
		m.ret(cfg, m.zeroResults(fr.fn))
		return
	}
	if len(fr.defers) > 0 {
		m.runDefer(cfg, fr)
		return
	}
	v := fr.panicVal
	cfg.frames = cfg.frames[:len(cfg.frames)-1]
	if len(cfg.frames) == 0 {
		m.uncaught(cfg, v)
		return
	}
	p := cfg.top()
	p.panics = true
	p.recov = false
	p.panicVal = v
}

func (m *Machine) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return &TupleV{}
	case 1:
		return m.zero(r.At(0).Type())
	}
	return m.zero(r)
}

func (m *Machine) describe(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return m.describe(x.v)
	case string:
		return x
	case *Term:
		return x.String()
	}
	return fmt.Sprintf("%T", v)
}

func (m *Machine) uncaught(cfg *Config, v Value) {
	msg := "panic: " + m.describe(v)
	m.assert(cfg.guard, m.c.False, msg, "panic")
	cfg.dead = true
	panic(cfgDead{})
}

func (m *Machine) hang(cfg *Config, what string) {
	m.stats.Unwound++
	if m.mergeM {
		m.assert(cfg.guard, m.c.False, "does not terminate: "+what, "hang")
		cfg.dead = true
		panic(cfgDead{})
	}
	m.assert(m.c.True, m.c.False, "does not terminate: "+what, "hang")
}

// ---------------------------------------------------------------- operators

func (m *Machine) binop(cfg *Config, op token.Token, x, y Value, xt, yt types.Type) Value {
	c := m.c
	switch op {
	case token.EQL:
		return m.eqTyped(cfg, x, y)
	case token.NEQ:
		return c.Not(m.eqTyped(cfg, x, y))
	}
	ux, uy := x, y
	if _, ok := ux.(*Union); ok {
		return m.lift2(cfg, ux, uy, func(a, b Value) Value { return m.binop(cfg, op, a, b, xt, yt) })
	}
	if _, ok := uy.(*Union); ok {
		return m.lift2(cfg, ux, uy, func(a, b Value) Value { return m.binop(cfg, op, a, b, xt, yt) })
	}
	if isStr(x) {
		switch op {
		case token.ADD:
			if a, ok := x.(string); ok {
				if b, ok := y.(string); ok {
					return a + b
				}
			}
			return mkStr(append(append([]*Term(nil), m.strBytes(x)...), m.strBytes(y)...))
		case token.LSS:
			return m.ltStr(x, y)
		case token.GTR:
			return m.ltStr(y, x)
		case token.LEQ:
			return c.Not(m.ltStr(y, x))
		case token.GEQ:
			return c.Not(m.ltStr(x, y))
		}
		fatal("string op %v", op)
	}
	if p, ok := x.(AddrInt); ok {
		if q, ok := y.(AddrInt); ok {
			cmp := 0
			switch {
			case p.p.obj != q.p.obj:
				cmp = int(p.p.obj) - int(q.p.obj)
			case p.p.off != q.p.off:
				cmp = int(p.p.off) - int(q.p.off)
			default:
				cmp = int(p.d - q.d)
			}
			switch op {
			case token.LSS:
				return c.Bool(cmp < 0)
			case token.LEQ:
				return c.Bool(cmp <= 0)
			case token.GTR:
				return c.Bool(cmp > 0)
			case token.GEQ:
				return c.Bool(cmp >= 0)
			}
		}
		if t, ok := y.(*Term); ok && t.isConst() {
			switch op {
			case token.ADD:
				return AddrInt{p.p, p.d + int64(t.val)}
			case token.SUB:
				return AddrInt{p.p, p.d - int64(t.val)}
			}
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		fatal("binop %v on %T,%T at %s", op, x, y, m.where())
	}
	bt, ok := xt.Underlying().(*types.Basic)
	if !ok {
		fatal("binop %v on %v", op, xt)
	}
	s, signed, _ := basicSort(bt)
	if s.K == KFP {
		switch op {
		case token.ADD:
			return c.FBin(OFAdd, a, b)
		case token.SUB:
			return c.FBin(OFSub, a, b)
		case token.MUL:
			return c.FBin(OFMul, a, b)
		case token.QUO:
			return c.FBin(OFDiv, a, b)
		case token.LSS:
			return c.FBin(OFLt, a, b)
		case token.LEQ:
			return c.FBin(OFLe, a, b)
		case token.GTR:
			return c.FBin(OFLt, b, a)
		case token.GEQ:
			return c.FBin(OFLe, b, a)
		}
		fatal("float op %v", op)
	}
	if s.K == KBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		case token.XOR:
			return c.Not(c.Eq(a, b))
		}
		fatal("bool op %v", op)
	}
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.ADD:
		return c.Bin(OAdd, a, b)
	case token.SUB:
		return c.Bin(OSub, a, b)
	case token.MUL:
		return c.Bin(OMul, a, b)
	case token.QUO, token.REM:
		z := c.Eq(b, c.Const(b.sort, 0))
		m.check(cfg, z, "integer divide by zero")
		if op == token.QUO {
			return m.divide(a, b, signed)
		}
		if signed {
			return c.Bin(OSRem, a, b)
		}
		return c.Bin(OURem, a, b)
	case token.AND:
		return c.Bin(OBAnd, a, b)
	case token.OR:
		return c.Bin(OBOr, a, b)
	case token.XOR:
		return c.Bin(OBXor, a, b)
	case token.AND_NOT:
		return c.Bin(OBAnd, a, c.BNot(b))
	case token.SHL, token.SHR:
		sb, ssigned, _ := basicSort(yt.Underlying().(*types.Basic))
		if ssigned {
			m.check(cfg, c.Bin(OSlt, b, c.Const(sb, 0)), "negative shift amount")
		}
		// bring the amount to the width of x, saturating
		var amt *Term
		switch {
		case sb.W == s.W:
			amt = b
		case sb.W < s.W:
			amt = c.ZExt(b, int(s.W))
		default:
			big := c.Bin(OUle, c.Const(sb, uint64(s.W)), b)
			amt = c.Ite(big, c.Const(s, uint64(s.W)), c.Extract(int(s.W)-1, 0, b))
		}
		if op == token.SHL {
			return c.Bin(OShl, a, amt)
		}
		if signed {
			return c.Bin(OAShr, a, amt)
		}
		return c.Bin(OLShr, a, amt)
	case token.LSS:
		return c.Bin(lt, a, b)
	case token.LEQ:
		return c.Bin(le, a, b)
	case token.GTR:
		return c.Bin(lt, b, a)
	case token.GEQ:
		return c.Bin(le, b, a)
	}
	fatal("binop %v", op)
	return nil
}

func (m *Machine) divide(a, b *Term, signed bool) *Term {
	if signed {
		return m.c.Bin(OSDiv, a, b)
	}
	return m.c.Bin(OUDiv, a, b)
}

func (m *Machine) lift2(cfg *Config, x, y Value, f func(a, b Value) Value) Value {
	var acc Value
	m.each(x, cfg.guard, func(a Value, g *Term) {
		m.each(y, g, func(b Value, g *Term) {
			r := f(a, b)
			if acc == nil {
				acc = r
			} else {
				acc = m.merge(g, r, acc)
			}
		})
	})
	if acc == nil {
		panic(cfgDead{})
	}
	return acc
}

// check raises a run-time panic when bad can hold.
func (m *Machine) check(cfg *Config, bad *Term, msg string) {
	if bad == m.c.False {
		return
	}
	if m.mergeM {
		g := m.c.And(cfg.guard, bad)
		if g != m.c.False {
			m.raise(cfg, g, msg)
		}
		return
	}
	if m.decide(bad) {
		m.raise(cfg, cfg.guard, msg)
	}
}

func isStr(v Value) bool {
	switch v.(type) {
	case string, *SymStr:
		return true
	}
	return false
}

func (m *Machine) eqTyped(cfg *Config, x, y Value) *Term {
	// comparing interface values of one uncomparable dynamic type panics
	if a, ok := x.(Iface); ok && a.t != nil {
		if b, ok := y.(Iface); ok && b.t != nil && types.Identical(a.t, b.t) && !types.Comparable(a.t) {
			m.raise(cfg, cfg.guard, "comparing uncomparable type "+a.t.String())
		}
	}
	return m.eq(x, y)
}

func (m *Machine) unop(cfg *Config, fr *Frame, in *ssa.UnOp) {
	x := m.get(fr, in.X)
	c := m.c
	switch in.Op {
	case token.MUL:
		m.set(fr, in, m.load(cfg, x, in.Type()))
	case token.NOT:
		m.set(fr, in, c.Not(x.(*Term)))
	case token.SUB:
		t := x.(*Term)
		if t.sort.K == KFP {
			m.set(fr, in, c.FNeg(t))
		} else {
			m.set(fr, in, c.Neg(t))
		}
	case token.XOR:
		m.set(fr, in, c.BNot(x.(*Term)))
	case token.ARROW:
		v, ok := m.recv(cfg, x, in.Type(), in.CommaOk)
		if !ok {
			return // blocked; instruction will be retried
		}
		m.set(fr, in, v)
	default:
		fatal("unop %v", in.Op)
	}
	fr.idx++
}

func (m *Machine) convert(cfg *Config, v Value, from, to types.Type) Value {
	c := m.c
	if _, ok := v.(*Union); ok {
		return m.lift2(cfg, v, c.True, func(a, _ Value) Value { return m.convert(cfg, a, from, to) })
	}
	fu, tu := from.Underlying(), to.Underlying()
	if isStr(v) {
		if s, ok := tu.(*types.Slice); ok {
			b, _ := s.Elem().Underlying().(*types.Basic)
			if b != nil && b.Kind() == types.Uint8 {
				bs := m.strBytes(v)
				sl := m.makeSlice(s.Elem(), len(bs), len(bs))
				o := m.mut(sl.obj)
				for i, t := range bs {
					o.cells[i] = t
				}
				return sl
			}
			if b != nil && b.Kind() == types.Int32 {
				str, ok := v.(string)
				if !ok {
					fatal("[]rune of symbolic string")
				}
				rs := []rune(str)
				sl := m.makeSlice(s.Elem(), len(rs), len(rs))
				o := m.mut(sl.obj)
				for i, r := range rs {
					o.cells[i] = c.Const(BV(32), uint64(r))
				}
				return sl
			}
		}
		return v
	}
	switch x := v.(type) {
	case SliceV: // []byte / []rune -> string
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if x.obj == 0 {
				return ""
			}
			o := m.obj(x.obj)
			eb := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				bs := make([]*Term, x.len)
				for i := range bs {
					bs[i] = o.cells[int(x.off)+i].(*Term)
				}
				return mkStr(bs)
			}
			var rs []rune
			for i := 0; i < int(x.len); i++ {
				t := o.cells[int(x.off)+i].(*Term)
				if !t.isConst() {
					fatal("string of symbolic runes")
				}
				rs = append(rs, rune(t.val))
			}
			return string(rs)
		}
		return v
	case Ptr:
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.Uintptr {
			if x.obj == 0 {
				return c.Const(BV(64), 0)
			}
			return AddrInt{p: x}
		}
		return v
	case AddrInt:
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return x.p
		}
		return v
	case *Term:
		fb, ok1 := fu.(*types.Basic)
		tb, ok2 := tu.(*types.Basic)
		if !ok1 || !ok2 {
			fatal("convert %v -> %v", from, to)
		}
		if tb.Info()&types.IsString != 0 { // string(rune)
			if !x.isConst() {
				fatal("string(symbolic rune)")
			}
			return string(rune(sx(x.val, x.sort.W)))
		}
		if tb.Kind() == types.UnsafePointer {
			if x.isConst() && x.val == 0 {
				return Ptr{}
			}
			fatal("unsafe.Pointer of integer")
		}
		fs, fsig, _ := basicSort(fb)
		ts, tsig, ok := basicSort(tb)
		if !ok {
			fatal("convert %v -> %v", from, to)
		}
		switch {
		case fs.K == KBV && ts.K == KBV:
			if ts.W <= fs.W {
				return c.Extract(int(ts.W)-1, 0, x)
			}
			if fsig {
				return c.SExt(x, int(ts.W))
			}
			return c.ZExt(x, int(ts.W))
		case fs.K == KFP && ts.K == KFP:
			return c.FCvt(x, int(ts.W))
		case fs.K == KBV && ts.K == KFP:
			return c.ItoF(x, fsig, int(ts.W))
		case fs.K == KFP && ts.K == KBV:
			if x.isConst() {
				f := fval(x.sort.W, x.val)
				if tsig {
					return c.Const(ts, uint64(int64(f)))
				}
				return c.Const(ts, uint64(f))
			}
			fatal("symbolic float to int")
		case fs.K == KBool && ts.K == KBool:
			return x
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	fatal("convert %T: %v -> %v", v, from, to)
	return nil
}

// concInt turns an integer term into a concrete int, forking over its feasible values (F mode).
func (m *Machine) concInt(cfg *Config, v Value, limit int) int {
	t, ok := v.(*Term)
	if !ok {
		fatal("concInt of %T at %s", v, m.where())
	}
	if m.mergeM {
		t = m.restrict(t, cfg.guard).(*Term)
	}
	if t.isConst() {
		return int(sx(t.val, t.sort.W))
	}
	if m.mergeM {
		fatal("symbolic size in merge mode at %s: %v", m.where(), t)
	}
	for i := 0; i <= limit; i++ {
		if m.decide(m.c.Eq(t, m.c.Const(t.sort, uint64(i)))) {
			return i
		}
	}
	// negative or above the limit: take one concrete witness at a time
	if m.decide(m.c.Bin(OSlt, t, m.c.Const(t.sort, 0))) {
		return -1
	}
	m.incomplete("size above " + fmt.Sprint(limit) + " at " + m.where())
	panic(pathDead{})
}

// fixInt enumerates every value of v between -limit and limit.
func (m *Machine) fixInt(cfg *Config, v Value, limit int) int {
	t, ok := v.(*Term)
	if !ok {
		fatal("fixInt of %T at %s", v, m.where())
	}
	if m.mergeM || t.isConst() {
		return m.concInt(cfg, v, limit)
	}
	if !m.decide(m.c.Bin(OSlt, t, m.c.Const(t.sort, 0))) {
		return m.concInt(cfg, v, limit)
	}
	for i := 1; i <= limit; i++ {
		if m.decide(m.c.Eq(t, m.c.Const(t.sort, uint64(-int64(i))))) {
			return -i
		}
	}
	m.incomplete("value below -" + fmt.Sprint(limit) + " at " + m.where())
	panic(pathDead{})
}

func (m *Machine) idxTerm(fr *Frame, v ssa.Value) *Term {
	t := m.get(fr, v).(*Term)
	b := v.Type().Underlying().(*types.Basic)
	s, signed, _ := basicSort(b)
	if s.W < 64 {
		if signed {
			return m.c.SExt(t, 64)
		}
		return m.c.ZExt(t, 64)
	}
	return t
}

// withIndex resolves index idx against length n (bounds check included) and calls f for each possible position.
func (m *Machine) withIndex(cfg *Config, g *Term, idx *Term, n int, f func(i int, g *Term)) {
	c := m.c
	if idx.isConst() {
		i := int64(idx.val)
		if i < 0 || i >= int64(n) {
			m.raise(cfg, g, fmt.Sprintf("index out of range [%d] with length %d", i, n))
			return
		}
		f(int(i), g)
		return
	}
	oob := c.Not(c.Bin(OUlt, idx, c.Int(n)))
	if m.mergeM {
		if og := c.And(g, oob); og != c.False {
			m.raise(cfg, og, "index out of range")
		}
	} else if m.decide(oob) {
		m.raise(cfg, g, "index out of range")
	}
	var conds []*Term
	for i := 0; i < n; i++ {
		conds = append(conds, c.Eq(idx, c.Int(i)))
	}
	m.cases(g, conds, f)
}

func (m *Machine) indexAddr(cfg *Config, fr *Frame, in *ssa.IndexAddr) {
	m.set(fr, in, m.elemAddr(cfg, m.get(fr, in.X), in.X.Type(), m.idxTerm(fr, in.Index)))
}

// elemAddr is the address of element idx of the slice or array pointer x.
func (m *Machine) elemAddr(cfg *Config, x Value, xt types.Type, idx *Term) Value {
	if m.mergeM {
		idx = m.restrict(idx, cfg.guard).(*Term)
	}
	var acc Value
	put := func(v Value, g *Term) {
		if acc == nil {
			acc = v
		} else {
			acc = m.merge(g, v, acc)
		}
	}
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		es := int32(m.lay.Size(u.Elem()))
		m.each(x, cfg.guard, func(v Value, g *Term) {
			s := v.(SliceV)
			m.withIndex(cfg, g, idx, int(s.len), func(i int, g *Term) { put(Ptr{s.obj, s.off + int32(i)*es}, g) })
		})
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		es := int32(m.lay.Size(at.Elem()))
		m.each(x, cfg.guard, func(v Value, g *Term) {
			p := v.(Ptr)
			if p.obj == 0 {
				m.raise(cfg, g, "nil pointer dereference")
				return
			}
			m.withIndex(cfg, g, idx, int(at.Len()), func(i int, g *Term) { put(Ptr{p.obj, p.off + int32(i)*es}, g) })
		})
	default:
		fatal("IndexAddr on %v", xt)
	}
	if acc == nil {
		panic(cfgDead{})
	}
	return acc
}

func (m *Machine) index(cfg *Config, fr *Frame, in *ssa.Index) {
	x := m.get(fr, in.X)
	idx := m.idxTerm(fr, in.Index)
	var acc Value
	put := func(v Value, g *Term) {
		if acc == nil {
			acc = v
		} else {
			acc = m.merge(g, v, acc)
		}
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Array:
		es := m.lay.Size(u.Elem())
		a := x.(*Agg)
		m.withIndex(cfg, cfg.guard, idx, int(u.Len()), func(i int, g *Term) {
			put(subAgg(a.v, i*es, es, u.Elem()), g)
		})
	case *types.Basic:
		m.each(x, cfg.guard, func(v Value, g *Term) {
			b := m.strBytes(v)
			m.withIndex(cfg, g, idx, len(b), func(i int, g *Term) { put(b[i], g) })
		})
	default:
		fatal("Index on %v", in.X.Type())
	}
	if acc == nil {
		panic(cfgDead{})
	}
	m.set(fr, in, acc)
}

func (m *Machine) slice(cfg *Config, fr *Frame, in *ssa.Slice) {
	x := m.get(fr, in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return m.idxTerm(fr, v)
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	var acc Value
	put := func(v Value, g *Term) {
		if acc == nil {
			acc = v
		} else {
			acc = m.merge(g, v, acc)
		}
	}
	conc := func(t *Term, def int, capn int) int {
		if t == nil {
			return def
		}
		if !t.isConst() && !m.mergeM {
			// bounds first, so that a bad symbolic bound is a panic rather than an unbounded fork
			if m.decide(m.c.Not(m.c.Bin(OUle, t, m.c.Int(capn)))) {
				return -1
			}
		}
		return m.concInt(cfg, t, capn)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice, *types.Pointer:
		m.each(x, cfg.guard, func(v Value, g *Term) {
			var s SliceV
			var et types.Type
			if p, ok := v.(Ptr); ok {
				at := u.(*types.Pointer).Elem().Underlying().(*types.Array)
				if p.obj == 0 {
					m.raise(cfg, g, "nil pointer dereference")
					return
				}
				s = SliceV{p.obj, p.off, int32(at.Len()), int32(at.Len())}
				et = at.Elem()
			} else {
				s = v.(SliceV)
				et = u.(*types.Slice).Elem()
			}
			es := int32(m.lay.Size(et))
			l := conc(lo, 0, int(s.cap))
			h := conc(hi, int(s.len), int(s.cap))
			mm := conc(mx, int(s.cap), int(s.cap))
			if l < 0 || h < l || mm < h || mm > int(s.cap) {
				m.raise(cfg, g, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, mm, s.cap))
				return
			}
			if s.obj == 0 {
				put(SliceV{}, g)
				return
			}
			put(SliceV{s.obj, s.off + int32(l)*es, int32(h - l), int32(mm - l)}, g)
		})
	case *types.Basic:
		m.each(x, cfg.guard, func(v Value, g *Term) {
			b := m.strBytes(v)
			l := conc(lo, 0, len(b))
			h := conc(hi, len(b), len(b))
			if l < 0 || h < l || h > len(b) {
				m.raise(cfg, g, "slice bounds out of range")
				return
			}
			put(mkStr(b[l:h]), g)
		})
	default:
		fatal("Slice of %v", in.X.Type())
	}
	if acc == nil {
		panic(cfgDead{})
	}
	m.set(fr, in, acc)
}

func (m *Machine) typeAssert(cfg *Config, fr *Frame, in *ssa.TypeAssert) {
	x := m.get(fr, in.X)
	c := m.c
	var acc Value
	it, isI := in.AssertedType.Underlying().(*types.Interface)
	m.each(x, cfg.guard, func(v Value, g *Term) {
		i := v.(Iface)
		ok := false
		if i.t != nil {
			if isI {
				if _, rt := i.v.(RTyp); rt {
					ok = true
				} else {
					ok = types.Implements(i.t, it)
				}
			} else {
				ok = types.Identical(i.t, in.AssertedType)
			}
		}
		var r Value
		if ok {
			if isI {
				r = i
			} else {
				r = i.v
			}
		} else {
			if !in.CommaOk {
				m.raise(cfg, g, fmt.Sprintf("interface conversion: %v is not %v", i.t, in.AssertedType))
				return
			}
			r = m.zero(in.AssertedType)
		}
		if in.CommaOk {
			r = &TupleV{[]Value{r, c.Bool(ok)}}
		}
		if acc == nil {
			acc = r
		} else {
			acc = m.merge(g, r, acc)
		}
	})
	if acc == nil {
		panic(cfgDead{})
	}
	m.set(fr, in, acc)
}

// ---------------------------------------------------------------- maps

// mapFind calls f with the entry index holding key (or -1) for each possibility.
func (m *Machine) mapFind(g *Term, o *Object, key Value, f func(i int, g *Term)) {
	c := m.c
	if !m.mergeM {
		for i := range o.m.entries {
			e := &o.m.entries[i]
			if e.present == c.False {
				continue
			}
			if m.decide(m.eq(e.k, key)) {
				f(i, g)
				return
			}
		}
		f(-1, g)
		return
	}
	none := g
	for i := range o.m.entries {
		e := &o.m.entries[i]
		hit := c.And(e.present, m.eq(e.k, key))
		hg := c.And(none, hit)
		if hg != c.False {
			f(i, hg)
		}
		none = c.And(none, c.Not(hit))
		if none == c.False {
			return
		}
	}
	f(-1, none)
}

func (m *Machine) hashable(cfg *Config, key Value) {
	if i, ok := key.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.raise(cfg, cfg.guard, "hash of unhashable type "+i.t.String())
	}
}

func (m *Machine) lookup(cfg *Config, fr *Frame, in *ssa.Lookup) {
	x := m.get(fr, in.X)
	key := m.get(fr, in.Index)
	mt := in.X.Type().Underlying().(*types.Map)
	m.hashable(cfg, key)
	zero := m.zero(mt.Elem())
	var acc Value
	put := func(v Value, ok bool, g *Term) {
		r := v
		if in.CommaOk {
			r = &TupleV{[]Value{v, m.c.Bool(ok)}}
		}
		if acc == nil {
			acc = r
		} else {
			acc = m.merge(g, r, acc)
		}
	}
	m.each(x, cfg.guard, func(v Value, g *Term) {
		mv := v.(MapV)
		if mv.id == 0 {
			put(zero, false, g)
			return
		}
		m.note(Ptr{mv.id, -1}, false, g)
		o := m.obj(mv.id)
		m.mapFind(g, o, key, func(i int, g *Term) {
			if i < 0 {
				put(zero, false, g)
			} else {
				put(o.m.entries[i].v, true, g)
			}
		})
	})
	if acc == nil {
		panic(cfgDead{})
	}
	if m.mergeM {
		if t, ok := acc.(*TupleV); ok {
			for i := range t.v {
				t.v[i] = m.restrict(t.v[i], cfg.guard)
			}
		} else {
			acc = m.restrict(acc, cfg.guard)
		}
	}
	m.set(fr, in, acc)
}

func (m *Machine) mapUpdate(cfg *Config, mv, key, val Value) {
	m.hashable(cfg, key)
	m.each(mv, cfg.guard, func(v Value, g *Term) {
		mp := v.(MapV)
		if mp.id == 0 {
			m.raise(cfg, g, "assignment to entry in nil map")
			return
		}
		m.note(Ptr{mp.id, -1}, true, g)
		m.escapeInto(mp.id, val, g)
		if !m.mergeM {
			idx := -1
			m.mapFind(g, m.obj(mp.id), key, func(i int, _ *Term) { idx = i })
			o := m.mut(mp.id)
			if idx >= 0 {
				o.m.entries[idx].v = val
			} else {
				o.m.entries = append(o.m.entries, MapEntry{key, m.c.True, val})
			}
			return
		}
		o := m.mut(mp.id)
		type up struct {
			i int
			g *Term
		}
		var ups []up
		m.mapFind(g, o, key, func(i int, g *Term) { ups = append(ups, up{i, g}) })
		for _, u := range ups {
			if u.i >= 0 {
				e := &o.m.entries[u.i]
				e.v = m.merge(u.g, val, e.v)
				continue
			}
			// absent: revive an entry with a syntactically identical key, else append
			done := false
			for k := range o.m.entries {
				e := &o.m.entries[k]
				if valueSame(e.k, key) {
					e.v = m.merge(u.g, val, e.v)
					e.present = m.c.Or(e.present, u.g)
					done = true
					break
				}
			}
			if !done {
				o.m.entries = append(o.m.entries, MapEntry{key, u.g, val})
			}
		}
	})
}

func (m *Machine) mapDelete(cfg *Config, mv, key Value) {
	m.hashable(cfg, key)
	m.each(mv, cfg.guard, func(v Value, g *Term) {
		mp := v.(MapV)
		if mp.id == 0 {
			return
		}
		m.note(Ptr{mp.id, -1}, true, g)
		if !m.mergeM {
			idx := -1
			m.mapFind(g, m.obj(mp.id), key, func(i int, _ *Term) { idx = i })
			if idx >= 0 {
				o := m.mut(mp.id)
				o.m.entries[idx].present = m.c.False
			}
			return
		}
		o := m.mut(mp.id)
		m.mapFind(g, o, key, func(i int, g *Term) {
			if i >= 0 {
				o.m.entries[i].present = m.c.And(o.m.entries[i].present, m.c.Not(g))
			}
		})
	})
}

func (m *Machine) mapLen(cfg *Config, v Value) Value {
	var acc *Term
	m.each(v, cfg.guard, func(v Value, g *Term) {
		mp := v.(MapV)
		n := m.c.Int(0)
		if mp.id != 0 {
			m.note(Ptr{mp.id, -1}, false, g)
			for _, e := range m.obj(mp.id).m.entries {
				n = m.c.Bin(OAdd, n, m.c.Ite(e.present, m.c.Int(1), m.c.Int(0)))
			}
		}
		if acc == nil {
			acc = n
		} else {
			acc = m.c.Ite(g, n, acc)
		}
	})
	return acc
}

func (m *Machine) mkRange(cfg *Config, x Value, t types.Type, in ssa.Instruction) Value {
	it := &IterData{}
	if _, ok := t.Underlying().(*types.Map); ok {
		it.mp = x
		if m.mergeM {
			it.idx = m.c.Int(0)
		} else {
			mv := x.(MapV)
			if mv.id != 0 {
				it.n0 = len(m.obj(mv.id).m.entries)
				it.rev = m.st.order == 3
				if m.st.order == 2 {
					live := 0
					for _, e := range m.obj(mv.id).m.entries {
						if e.present != m.c.False {
							live++
						}
					}
					if live > 1 {
						it.rev = m.choose(2) == 1
					}
				}
			}
		}
	} else {
		it.str = x
	}
	return IterV{m.newObj(&Object{it: it})}
}

func (m *Machine) next(cfg *Config, fr *Frame, in *ssa.Next) {
	c := m.c
	iv := m.get(fr, in.Iter)
	tt := in.Type().(*types.Tuple)
	zk, zv := m.zeroOrNil(tt.At(1).Type()), m.zeroOrNil(tt.At(2).Type())
	if u, ok := iv.(*Union); ok {
		// merged iterators: advance each under its guard
		var acc Value
		for _, a := range u.alts {
			g := c.And(cfg.guard, a.g)
			if g == c.False {
				continue
			}
			r := m.nextOne(cfg, a.v.(IterV), g, in, zk, zv)
			if acc == nil {
				acc = r
			} else {
				acc = m.merge(g, r, acc)
			}
		}
		m.set(fr, in, acc)
		return
	}
	m.set(fr, in, m.nextOne(cfg, iv.(IterV), cfg.guard, in, zk, zv))
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (m *Machine) zeroOrNil(t types.Type) Value {
	if isInvalid(t) {
		return m.c.False
	}
	return m.zero(t)
}

func (m *Machine) nextOne(cfg *Config, iv IterV, g0 *Term, in *ssa.Next, zk, zv Value) Value {
	c := m.c
	it := m.obj(iv.id).it
	done := &TupleV{[]Value{c.False, zk, zv}}
	if in.IsString {
		s, ok := it.str.(string)
		if !ok {
			// symbolic bytes: ASCII-only iteration
			sy := it.str.(*SymStr)
			if it.pos >= len(sy.b) {
				return done
			}
			b := sy.b[it.pos]
			if m.mergeM || m.decide(c.Not(c.Bin(OUlt, b, c.Const(BV(8), 0x80)))) {
				fatal("range over non-ASCII symbolic string")
			}
			pos := it.pos
			m.mut(iv.id).it.pos++
			return &TupleV{[]Value{c.True, c.Int(pos), c.ZExt(b, 32)}}
		}
		if it.pos >= len(s) {
			return done
		}
		r, n := utf8.DecodeRuneInString(s[it.pos:])
		pos := it.pos
		m.mut(iv.id).it.pos += n
		return &TupleV{[]Value{c.True, c.Int(pos), c.Const(BV(32), uint64(r))}}
	}
	if !m.mergeM {
		mv := it.mp.(MapV)
		if mv.id == 0 {
			return done
		}
		ents := m.obj(mv.id).m.entries
		var cand []int
		for i := range ents {
			if ents[i].present == c.False || i < len(it.visited) && it.visited[i] {
				continue
			}
			cand = append(cand, i)
		}
		if len(cand) == 0 {
			return done
		}
		pick := cand[0]
		switch m.st.order {
		case 1:
			pick = cand[m.choose(len(cand))]
		case 2, 3:
			if it.rev {
				pick = cand[len(cand)-1]
			}
		}
		o := m.mut(iv.id)
		for len(o.it.visited) <= pick {
			o.it.visited = append(o.it.visited, false)
		}
		o.it.visited[pick] = true
		return &TupleV{[]Value{c.True, ents[pick].k, ents[pick].v}}
	}
	var acc Value
	o := m.mut(iv.id)
	var nidx Value
	put := func(r Value, ni int, g *Term) {
		if acc == nil {
			acc, nidx = r, c.Int(ni)
		} else {
			acc = m.merge(g, r, acc)
			nidx = m.merge(g, c.Int(ni), nidx)
		}
	}
	curIdx := o.it.idx.(*Term)
	m.each(o.it.mp, g0, func(v Value, g *Term) {
		mv := v.(MapV)
		if mv.id == 0 {
			put(done, 0, g)
			return
		}
		m.note(Ptr{mv.id, -1}, false, g)
		ents := m.obj(mv.id).m.entries
		none := g
		for i := range ents {
			notYet := c.Bin(OSle, curIdx, c.Int(i))
			hg := c.And(none, notYet, ents[i].present)
			if hg == c.False {
				continue
			}
			kk, vv := ents[i].k, ents[i].v
			tt := in.Type().(*types.Tuple)
			if isInvalid(tt.At(1).Type()) {
				kk = zk
			}
			if isInvalid(tt.At(2).Type()) {
				vv = zv
			}
			put(&TupleV{[]Value{c.True, kk, vv}}, i+1, hg)
			none = c.And(none, c.Not(c.And(notYet, ents[i].present)))
			if none == c.False {
				break
			}
		}
		if none != c.False {
			put(done, len(ents), none)
		}
	})
	o.it.idx = m.merge(g0, nidx, o.it.idx)
	return acc
}

// ---------------------------------------------------------------- builtins

func (m *Machine) builtin(cfg *Config, fr *Frame, b *ssa.Builtin, common *ssa.CallCommon, args []Value) Value {
	c := m.c
	switch b.Name() {
	case "len", "cap":
		if _, ok := common.Args[0].Type().Underlying().(*types.Map); ok {
			return m.mapLen(cfg, args[0])
		}
		return m.lift2(cfg, args[0], c.True, func(x, _ Value) Value {
			switch v := x.(type) {
			case SliceV:
				if b.Name() == "len" {
					return c.Int(int(v.len))
				}
				return c.Int(int(v.cap))
			case string:
				return c.Int(len(v))
			case *SymStr:
				return c.Int(len(v.b))
			case *Agg:
				at := common.Args[0].Type().Underlying().(*types.Array)
				return c.Int(int(at.Len()))
			case Ptr:
				at := common.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				return c.Int(int(at.Len()))
			case ChanV:
				if v.id == 0 {
					return c.Int(0)
				}
				if b.Name() == "len" {
					return c.Int(len(m.obj(v.id).ch.buf))
				}
				return c.Int(m.obj(v.id).ch.cap)
			}
			fatal("len of %T", x)
			return nil
		})
	case "append":
		return m.appendB(cfg, common, args)
	case "copy":
		return m.copyB(cfg, common, args)
	case "delete":
		m.mapDelete(cfg, args[0], args[1])
		return &TupleV{}
	case "clear":
		switch t := common.Args[0].Type().Underlying().(type) {
		case *types.Map:
			m.each(args[0], cfg.guard, func(v Value, g *Term) {
				mp := v.(MapV)
				if mp.id == 0 {
					return
				}
				m.note(Ptr{mp.id, -1}, true, g)
				o := m.mut(mp.id)
				for i := range o.m.entries {
					o.m.entries[i].present = c.And(o.m.entries[i].present, c.Not(g))
				}
			})
		case *types.Slice:
			m.each(args[0], cfg.guard, func(v Value, g *Term) {
				s := v.(SliceV)
				if s.obj == 0 {
					return
				}
				es := m.lay.Size(t.Elem())
				z := m.zeroCells(t.Elem(), nil)
				o := m.mut(s.obj)
				for i := 0; i < int(s.len); i++ {
					for k := 0; k < es; k++ {
						off := int(s.off) + i*es + k
						o.cells[off] = m.merge(g, z[k], o.cells[off])
					}
				}
			})
		}
		return &TupleV{}
	case "panic":
		fr.panics = true
		fr.recov = false
		fr.panicVal = args[0]
		return nil
	case "recover":
		// legal only in a function called directly by a deferring, panicking frame
		n := len(cfg.frames)
		if fr.isDefer && n >= 2 {
			p := cfg.frames[n-2]
			if p.panics && !p.recov {
				p.recov = true
				return p.panicVal
			}
		}
		return Iface{}
	case "min", "max":
		acc := args[0]
		for _, a := range args[1:] {
			if isStr(acc) {
				fatal("min/max of strings")
			}
			x, y := acc.(*Term), a.(*Term)
			t := common.Args[0].Type()
			lt := m.binop(cfg, token.LSS, y, x, t, t).(*Term)
			if b.Name() == "max" {
				lt = m.binop(cfg, token.LSS, x, y, t, t).(*Term)
			}
			if x.sort.K == KFP {
				fatal("min/max of floats")
			}
			acc = c.Ite(lt, y, x)
		}
		return acc
	case "print", "println":
		return &TupleV{}
	case "close":
		ch := args[0].(ChanV)
		m.mut(ch.id).ch.closed = true
		return &TupleV{}
	case "ssa:wrapnilchk":
		m.each(args[0], cfg.guard, func(v Value, g *Term) {
			if p := v.(Ptr); p.obj == 0 {
				m.raise(cfg, g, "value method called using nil pointer")
			}
		})
		return args[0]
	case "SliceData":
		s := args[0].(SliceV)
		return Ptr{s.obj, s.off}
	case "Slice":
		p := args[0].(Ptr)
		n := m.concInt(cfg, args[1], 1024)
		if p.obj == 0 {
			return SliceV{}
		}
		return SliceV{p.obj, p.off, int32(n), int32(n)}
	case "String":
		p := args[0].(Ptr)
		n := m.concInt(cfg, args[1], 1024)
		if n == 0 {
			return ""
		}
		o := m.obj(p.obj)
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = o.cells[int(p.off)+i].(*Term)
		}
		return mkStr(bs)
	case "StringData":
		bs := m.strBytes(args[0])
		sl := m.makeSlice(types.Typ[types.Uint8], len(bs), len(bs))
		o := m.mut(sl.obj)
		for i, t := range bs {
			o.cells[i] = t
		}
		return Ptr{sl.obj, 0}
	}
	switch b.Name() {
	case "Sizeof":
		return m.c.Const(BV(64), uint64(m.P.sizes.Sizeof(common.Args[0].Type())))
	case "Alignof":
		return m.c.Const(BV(64), uint64(m.P.sizes.Alignof(common.Args[0].Type())))
	}
	fatal("builtin %s at %s", b.Name(), m.where())
	return nil
}

func (m *Machine) appendB(cfg *Config, common *ssa.CallCommon, args []Value) Value {
	st := common.Args[0].Type().Underlying().(*types.Slice)
	if len(args) == 1 {
		return args[0]
	}
	es := m.lay.Size(st.Elem())
	var acc Value
	m.each(args[0], cfg.guard, func(v Value, g *Term) {
		s := v.(SliceV)
		m.each(args[1], g, func(w Value, g *Term) {
			var src []Value
			n := 0
			switch y := w.(type) {
			case SliceV:
				n = int(y.len)
				if y.obj != 0 {
					src = append(src, m.obj(y.obj).cells[int(y.off):int(y.off)+n*es]...)
				}
			default:
				for _, t := range m.strBytes(w) {
					src = append(src, t)
				}
				n = len(src)
			}
			r := m.appendTo(s, src, n, st.Elem(), g)
			if acc == nil {
				acc = r
			} else {
				acc = m.merge(g, r, acc)
			}
		})
	})
	return acc
}

func (m *Machine) appendTo(s SliceV, src []Value, n int, et types.Type, g *Term) SliceV {
	es := m.lay.Size(et)
	if n == 0 {
		return s
	}
	if s.len+int32(n) <= s.cap {
		o := m.mut(s.obj)
		base := int(s.off) + int(s.len)*es
		for i, x := range src {
			o.cells[base+i] = m.merge(g, x, o.cells[base+i])
		}
		return SliceV{s.obj, s.off, s.len + int32(n), s.cap}
	}
	nc := growCap(int(s.cap), int(s.len)+n, int(m.P.sizes.Sizeof(et)), !hasPointers(et))
	ns := m.makeSlice(et, int(s.len)+n, nc)
	o := m.mut(ns.obj)
	if s.obj != 0 {
		copy(o.cells, m.obj(s.obj).cells[s.off:int(s.off)+int(s.len)*es])
	}
	copy(o.cells[int(s.len)*es:], src)
	return ns
}

func (m *Machine) copyB(cfg *Config, common *ssa.CallCommon, args []Value) Value {
	st := common.Args[0].Type().Underlying().(*types.Slice)
	es := m.lay.Size(st.Elem())
	var acc Value
	m.each(args[0], cfg.guard, func(v Value, g *Term) {
		d := v.(SliceV)
		m.each(args[1], g, func(w Value, g *Term) {
			var src []Value
			n := int(d.len)
			switch y := w.(type) {
			case SliceV:
				n = min(n, int(y.len))
				if y.obj != 0 {
					src = append(src, m.obj(y.obj).cells[int(y.off):int(y.off)+n*es]...)
				}
			default:
				bs := m.strBytes(w)
				n = min(n, len(bs))
				for _, t := range bs[:n] {
					src = append(src, t)
				}
			}
			if n > 0 && len(src) > 0 {
				o := m.mut(d.obj)
				for i, x := range src {
					o.cells[int(d.off)+i] = m.merge(g, x, o.cells[int(d.off)+i])
				}
			}
			r := m.c.Int(n)
			if acc == nil {
				acc = r
			} else {
				acc = m.merge(g, r, acc)
			}
		})
	})
	return acc
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096}

// growCap mirrors runtime.growslice's capacity choice for small slices.
func growCap(oldCap, newLen, esz int, noscan bool) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 768) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	bytes := nc * esz
	if bytes > 512 && !noscan {
		bytes += 8 // malloc header
		for _, s := range sizeClasses {
			if bytes <= s {
				return (s - 8) / esz
			}
		}
		return nc
	}
	for _, s := range sizeClasses {
		if bytes <= s {
			return s / esz
		}
	}
	return nc
}

// ---------------------------------------------------------------- goroutines and channels (F mode, cooperative)

func (m *Machine) goStmt(cfg *Config, fr *Frame, in *ssa.Go) {
	if m.mergeM {
		// the goroutine does not get to run (a legal schedule) unless a thread takes it on with nd.Tick
		if !m.inPar && cfg.guard == m.c.True {
			if cl, ok := m.get(fr, in.Call.Value).(*Closure); ok && len(in.Call.Args) == 0 && !in.Call.IsInvoke() {
				m.st.spawned = append(m.st.spawned, cl)
				return
			}
			m.st.spawned = append(m.st.spawned, nil)
		}
		return
	}
	ncfg := &Config{guard: m.c.True, th: &Thread{id: len(m.st.bg) + 1}}
	var args []Value
	for _, a := range in.Call.Args {
		args = append(args, m.get(fr, a))
	}
	var callee Value
	callee = m.get(fr, in.Call.Value)
	ts := m.targets(cfg, &in.Call, callee)
	t := ts[0]
	if t.recv != nil {
		args = append([]Value{t.recv}, args...)
	}
	if t.nat != nil || m.P.intrinsic(t.fn) != nil {
		fatal("go of intrinsic %v", t.fn)
	}
	m.pushFrame(ncfg, t.fn, t.free, args, true)
	m.st.bg = append(m.st.bg, ncfg)
}

func (m *Machine) send(cfg *Config, ch, v Value) {
	cv := ch.(ChanV)
	if cv.id == 0 {
		fatal("send on nil channel at %s", m.where())
	}
	o := m.mut(cv.id)
	if len(o.ch.buf) >= o.ch.cap {
		fatal("blocking send at %s", m.where())
	}
	o.ch.buf = append(o.ch.buf, v)
}

type blockedSig struct{}

func (m *Machine) recv(cfg *Config, ch Value, t types.Type, commaOk bool) (Value, bool) {
	cv := ch.(ChanV)
	if cv.id == 0 {
		panic(blockedSig{})
	}
	o := m.obj(cv.id)
	if m.mergeM {
		if !o.ch.ticker {
			fatal("receive in merge mode at %s", m.where())
		}
		if cfg.ticks > 0 { // the background goroutine is back at its receive: its thread ends here
			cfg.frames = nil
			return nil, false
		}
		cfg.ticks++
		if commaOk {
			return &TupleV{[]Value{m.clockTerm(), m.c.True}}, true
		}
		return m.clockTerm(), true
	}
	et := t
	if commaOk {
		et = t.(*types.Tuple).At(0).Type()
	}
	var v Value
	ok := true
	if len(o.ch.buf) > 0 {
		o = m.mut(cv.id)
		v = o.ch.buf[0]
		o.ch.buf = o.ch.buf[1:]
	} else if o.ch.closed {
		v = m.zero(et)
		ok = false
	} else {
		panic(blockedSig{})
	}
	if commaOk {
		return &TupleV{[]Value{v, m.c.Bool(ok)}}, true
	}
	return v, true
}

func (m *Machine) selectStmt(cfg *Config, fr *Frame, in *ssa.Select) {
	// only: poll receive cases in order; default when non-blocking
	tup := &TupleV{}
	rt := in.Type().(*types.Tuple)
	for i, s := range in.States {
		if s.Dir != types.RecvOnly {
			fatal("select send at %s", m.where())
		}
		cv := m.get(fr, s.Chan).(ChanV)
		if cv.id == 0 {
			continue
		}
		o := m.obj(cv.id)
		if m.mergeM {
			if !o.ch.ticker {
				continue
			}
			if cfg.ticks > 0 {
				cfg.frames = nil
				return
			}
		} else if len(o.ch.buf) == 0 && !o.ch.closed {
			continue
		}
		v, _ := m.recv(cfg, cv, types.NewTuple(types.NewVar(0, nil, "", s.Chan.Type().Underlying().(*types.Chan).Elem()), types.NewVar(0, nil, "", types.Typ[types.Bool])), true)
		tv := v.(*TupleV)
		tup.v = append(tup.v, m.c.Int(i), tv.v[1])
		k := 0
		for j, s2 := range in.States {
			if s2.Dir == types.RecvOnly {
				if j == i {
					tup.v = append(tup.v, tv.v[0])
				} else {
					tup.v = append(tup.v, m.zero(rt.At(2+k).Type()))
				}
				k++
			}
		}
		m.set(fr, in, tup)
		fr.idx++
		return
	}
	if in.Blocking {
		panic(blockedSig{})
	}
	tup.v = append(tup.v, m.c.Int(-1), m.c.False)
	for j := 2; j < rt.Len(); j++ {
		tup.v = append(tup.v, m.zero(rt.At(j).Type()))
	}
	m.set(fr, in, tup)
	fr.idx++
}
