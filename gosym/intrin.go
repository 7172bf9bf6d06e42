package main

import (
	"fmt"
	"go/types"
	"hash/crc32"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsics maps function names (of the generic origin) to engine implementations of the standard-library boundary.
var intrinsics map[string]Intrinsic

// visibleOps are the intrinsics at which another thread can be scheduled (merge mode).
var visibleOps = map[string]bool{}

func init() {
	intrinsics = map[string]Intrinsic{}
	reg := func(name string, f Intrinsic) { intrinsics[name] = f }

	// ---- sync/atomic base functions
	type aw struct {
		suf string
		t   types.Type
	}
	for _, a := range []aw{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]},
		{"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", types.Typ[types.UnsafePointer]}} {
		t := a.t
		reg("sync/atomic.Load"+a.suf, func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
			return m.atomically(func() Value { return m.load(cfg, args[0], t) })
		})
		reg("sync/atomic.Store"+a.suf, func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
			return m.atomically(func() Value { m.store(cfg, args[0], args[1], t); return &TupleV{} })
		})
		reg("sync/atomic.Swap"+a.suf, func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
			return m.atomically(func() Value {
				old := m.load(cfg, args[0], t)
				m.store(cfg, args[0], args[1], t)
				return old
			})
		})
		reg("sync/atomic.CompareAndSwap"+a.suf, func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
			return m.atomically(func() Value {
				old := m.load(cfg, args[0], t)
				hit := m.eq(old, args[1])
				m.store(cfg, args[0], m.merge(hit, args[2], old), t)
				return hit
			})
		})
		if a.suf != "Pointer" {
			for _, op := range []struct {
				n string
				o Op
			}{{"Add", OAdd}, {"And", OBAnd}, {"Or", OBOr}} {
				op := op
				reg("sync/atomic."+op.n+a.suf, func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
					return m.atomically(func() Value {
						old := m.load(cfg, args[0], t).(*Term)
						nv := m.c.Bin(op.o, old, args[1].(*Term))
						m.store(cfg, args[0], nv, t)
						if op.n != "Add" {
							return old
						}
						return nv
					})
				})
			}
		}
	}
	for n := range intrinsics {
		visibleOps[n] = true
	}

	// ---- sync.Mutex / RWMutex: one cell; 0 free, 1 write-locked, 2k k readers
	lock := func(busy func(m *Machine, v *Term) *Term, upd func(m *Machine, v *Term) *Term, try bool) Intrinsic {
		return func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
			return m.atomically(func() Value {
				v := m.load(cfg, args[0], mutexType).(*Term)
				b := busy(m, v)
				if try {
					m.store(cfg, args[0], m.c.Ite(b, v, upd(m, v)), mutexType)
					return m.c.Not(b)
				}
				if !m.mergeM {
					if m.decide(b) {
						panic(lockedSig{})
					}
				}
				m.store(cfg, args[0], upd(m, v), mutexType)
				m.lockEvent(cfg, args[0], true, fn.Name() == "RLock")
				return &TupleV{}
			})
		}
	}
	unlock := func(bad func(m *Machine, v *Term) *Term, upd func(m *Machine, v *Term) *Term, msg string) Intrinsic {
		return func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
			return m.atomically(func() Value {
				v := m.load(cfg, args[0], mutexType).(*Term)
				m.check(cfg, bad(m, v), msg)
				m.store(cfg, args[0], upd(m, v), mutexType)
				m.lockEvent(cfg, args[0], false, fn.Name() == "RUnlock")
				return &TupleV{}
			})
		}
	}
	wbusy := func(m *Machine, v *Term) *Term { return m.c.Not(m.c.Eq(v, m.c.Int(0))) }
	rbusy := func(m *Machine, v *Term) *Term { return m.c.Eq(v, m.c.Int(1)) }
	set1 := func(m *Machine, v *Term) *Term { return m.c.Int(1) }
	set0 := func(m *Machine, v *Term) *Term { return m.c.Int(0) }
	plus := func(m *Machine, v *Term) *Term { return m.c.Bin(OAdd, v, m.c.Int(2)) }
	minus := func(m *Machine, v *Term) *Term { return m.c.Bin(OSub, v, m.c.Int(2)) }
	not1 := func(m *Machine, v *Term) *Term { return m.c.Not(m.c.Eq(v, m.c.Int(1))) }
	noReader := func(m *Machine, v *Term) *Term { return m.c.Bin(OULtHelper, v, m.c.Int(2)) }
	reg("(*sync.Mutex).Lock", lock(wbusy, set1, false))
	reg("(*sync.Mutex).TryLock", lock(wbusy, set1, true))
	reg("(*sync.Mutex).Unlock", unlock(not1, set0, "sync: unlock of unlocked mutex"))
	reg("(*sync.RWMutex).Lock", lock(wbusy, set1, false))
	reg("(*sync.RWMutex).TryLock", lock(wbusy, set1, true))
	reg("(*sync.RWMutex).Unlock", unlock(not1, set0, "sync: Unlock of unlocked RWMutex"))
	reg("(*sync.RWMutex).RLock", lock(rbusy, plus, false))
	reg("(*sync.RWMutex).TryRLock", lock(rbusy, plus, true))
	reg("(*sync.RWMutex).RUnlock", unlock(noReader, minus, "sync: RUnlock of unlocked RWMutex"))
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).TryRLock"} {
		visibleOps[n] = true
	}
	reg("(*sync/atomic.Value).Load", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.atomically(func() Value { return m.load(cfg, args[0], types.NewInterfaceType(nil, nil)) })
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.atomically(func() Value {
			m.store(cfg, args[0], args[1], types.NewInterfaceType(nil, nil))
			return &TupleV{}
		})
	})
	visibleOps["(*sync/atomic.Value).Load"] = true
	visibleOps["(*sync/atomic.Value).Store"] = true

	// ---- time
	reg("time.Now", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return m.now(cfg) })
	visibleOps["time.Now"] = true
	visibleOps["time.Since"] = true
	bin := func(f func(m *Machine, a, b *Term) Value) Intrinsic {
		return func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
			return f(m, args[0].(*Term), args[1].(*Term))
		}
	}
	reg("time.Since", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.c.timeSub(m.now(cfg).(*Term), args[0].(*Term))
	})
	reg("time.Until", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.c.timeSub(args[0].(*Term), m.now(cfg).(*Term))
	})
	reg("(time.Time).UnixNano", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		if t := args[0].(*Term); t.op == OSatAdd {
			return m.c.Bin(OAdd, t.args[0], t.args[1]) // wraps around
		}
		return args[0]
	})
	div := func(k int) Intrinsic {
		return func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
			return m.floorDiv(cfg, args[0].(*Term), k)
		}
	}
	reg("(time.Time).UnixMilli", div(1000000))
	reg("(time.Time).UnixMicro", div(1000))
	reg("(time.Time).Unix", div(1000000000))
	mulC := func(k int) Intrinsic {
		return func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
			return m.c.Bin(OMul, args[0].(*Term), m.c.Int(k))
		}
	}
	reg("time.UnixMilli", mulC(1000000))
	reg("time.UnixMicro", mulC(1000))
	reg("time.Unix", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.timeAdd(m.c.Bin(OMul, args[0].(*Term), m.c.Int(1000000000)), args[1].(*Term))
	})
	reg("(time.Time).Add", bin(func(m *Machine, a, b *Term) Value { return m.timeAdd(a, b) }))
	reg("(time.Time).Sub", bin(func(m *Machine, a, b *Term) Value { return m.c.timeSub(a, b) }))
	reg("(time.Time).Before", bin(func(m *Machine, a, b *Term) Value { return m.c.timeLess(a, b) }))
	reg("(time.Time).After", bin(func(m *Machine, a, b *Term) Value { return m.c.timeLess(b, a) }))
	reg("(time.Time).Equal", bin(func(m *Machine, a, b *Term) Value { return m.c.timeEq(a, b) }))
	reg("(time.Time).Compare", bin(func(m *Machine, a, b *Term) Value {
		c := m.c
		return c.Ite(c.timeLess(a, b), c.Int(-1), c.Ite(c.timeEq(a, b), c.Int(0), c.Int(1)))
	}))
	reg("(time.Time).IsZero", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.c.Eq(args[0].(*Term), m.c.Const(BV(64), zeroTime))
	})
	ident := func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return args[0] }
	reg("(time.Time).UTC", ident)
	reg("(time.Time).Local", ident)
	reg("(time.Time).Round", ident)
	reg("(time.Duration).Milliseconds", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.truncDiv(cfg, args[0].(*Term), 1000000)
	})
	reg("(time.Duration).Microseconds", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.truncDiv(cfg, args[0].(*Term), 1000)
	})
	reg("(time.Duration).Nanoseconds", ident)
	reg("time.Sleep", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return &TupleV{} })
	reg("time.NewTicker", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		p := m.alloc(t)
		ch := m.newObj(&Object{ch: &ChanData{cap: 1, ticker: true}})
		m.mut(p.obj).cells[0] = ChanV{ch}
		m.st.tickers = append(m.st.tickers, ch)
		return p
	})
	reg("time.Tick", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		ch := m.newObj(&Object{ch: &ChanData{cap: 1, ticker: true}})
		m.st.tickers = append(m.st.tickers, ch)
		return ChanV{ch}
	})
	reg("(*time.Ticker).Stop", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return &TupleV{} })

	// ---- reflect
	reg("reflect.TypeOf", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.lift1(cfg, args[0], func(v Value) Value {
			i := v.(Iface)
			if i.t == nil {
				return Iface{}
			}
			return m.rtype(i.t)
		})
	})
	reg("internal/reflectlite.TypeOf", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.lift1(cfg, args[0], func(v Value) Value {
			i := v.(Iface)
			if i.t == nil {
				return Iface{}
			}
			return m.rtype(i.t)
		})
	})
	reg("reflect.TypeFor", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.rtype(fn.TypeArgs()[0])
	})
	reg("reflect.ValueOf", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.lift1(cfg, args[0], func(v Value) Value {
			i := v.(Iface)
			if i.t == nil {
				return &RVal{}
			}
			return &RVal{t: i.t, v: i.v}
		})
	})
	rv := func(name string, f func(m *Machine, cfg *Config, r *RVal, args []Value) Value) {
		reg("(reflect.Value)."+name, func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
			return m.lift1(cfg, args[0], func(v Value) Value { return f(m, cfg, v.(*RVal), args) })
		})
	}
	rv("Kind", func(m *Machine, cfg *Config, r *RVal, args []Value) Value {
		if r.t == nil {
			return m.c.Int(0)
		}
		return m.c.Int(int(kindOf(r.t)))
	})
	rv("IsValid", func(m *Machine, cfg *Config, r *RVal, args []Value) Value { return m.c.Bool(r.t != nil) })
	rv("Type", func(m *Machine, cfg *Config, r *RVal, args []Value) Value { return m.rtype(r.t) })
	need := func(m *Machine, cfg *Config, r *RVal, meth string, ok func(k reflect.Kind) bool) {
		if r.t == nil || !ok(kindOf(r.t)) {
			m.raise(cfg, cfg.guard, "reflect: call of reflect.Value."+meth+" on wrong kind of Value")
		}
	}
	rv("Int", func(m *Machine, cfg *Config, r *RVal, args []Value) Value {
		need(m, cfg, r, "Int", func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 })
		return m.c.SExt(r.v.(*Term), 64)
	})
	rv("Uint", func(m *Machine, cfg *Config, r *RVal, args []Value) Value {
		need(m, cfg, r, "Uint", func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr })
		return m.c.ZExt(r.v.(*Term), 64)
	})
	rv("Float", func(m *Machine, cfg *Config, r *RVal, args []Value) Value {
		need(m, cfg, r, "Float", func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 })
		return m.c.FCvt(r.v.(*Term), 64)
	})
	rv("Bool", func(m *Machine, cfg *Config, r *RVal, args []Value) Value {
		need(m, cfg, r, "Bool", func(k reflect.Kind) bool { return k == reflect.Bool })
		return r.v
	})
	rv("String", func(m *Machine, cfg *Config, r *RVal, args []Value) Value {
		if r.t == nil {
			return "<invalid Value>"
		}
		if kindOf(r.t) != reflect.String {
			return "<" + r.t.String() + " Value>"
		}
		return r.v
	})
	rv("IsNil", func(m *Machine, cfg *Config, r *RVal, args []Value) Value {
		need(m, cfg, r, "IsNil", func(k reflect.Kind) bool {
			return k == reflect.Pointer || k == reflect.Map || k == reflect.Chan || k == reflect.Func || k == reflect.Slice || k == reflect.Interface || k == reflect.UnsafePointer
		})
		return m.eq(r.v, m.zero(r.t))
	})
	rv("Interface", func(m *Machine, cfg *Config, r *RVal, args []Value) Value {
		need(m, cfg, r, "Interface", func(k reflect.Kind) bool { return true })
		if kindOf(r.t) == reflect.Interface {
			return r.v
		}
		return Iface{r.t, r.v}
	})
	rv("Elem", func(m *Machine, cfg *Config, r *RVal, args []Value) Value {
		need(m, cfg, r, "Elem", func(k reflect.Kind) bool { return k == reflect.Pointer || k == reflect.Interface })
		if kindOf(r.t) == reflect.Interface {
			i := r.v.(Iface)
			if i.t == nil {
				return &RVal{}
			}
			return &RVal{t: i.t, v: i.v}
		}
		return m.lift1(cfg, r.v, func(v Value) Value {
			p := v.(Ptr)
			if p.obj == 0 {
				return &RVal{}
			}
			et := r.t.Underlying().(*types.Pointer).Elem()
			return &RVal{t: et, v: m.load(cfg, p, et)}
		})
	})
	rv("Comparable", func(m *Machine, cfg *Config, r *RVal, args []Value) Value {
		return m.c.Bool(r.t == nil || types.Comparable(r.t))
	})
	rv("Equal", func(m *Machine, cfg *Config, r *RVal, args []Value) Value {
		return m.lift1(cfg, args[1], func(w Value) Value {
			a, b := r, w.(*RVal)
			strip := func(x *RVal) *RVal {
				if x.t != nil && kindOf(x.t) == reflect.Interface {
					i := x.v.(Iface)
					if i.t == nil {
						return &RVal{}
					}
					return &RVal{t: i.t, v: i.v}
				}
				return x
			}
			a, b = strip(a), strip(b)
			if a.t == nil || b.t == nil {
				return m.c.Bool(a.t == nil && b.t == nil)
			}
			if !types.Identical(a.t, b.t) {
				return m.c.False
			}
			if !types.Comparable(a.t) {
				m.raise(cfg, cfg.guard, "reflect.Value.Equal: values of type "+a.t.String()+" are not comparable")
			}
			return m.eq(a.v, b.v)
		})
	})
	reg("internal/reflectlite.ValueOf", intrinsics["reflect.ValueOf"])
	length := func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.lift1(cfg, args[0], func(v Value) Value {
			r := v.(*RVal)
			if r.t == nil || kindOf(r.t) != reflect.Slice {
				fatal("reflect Len of %v", r.t)
			}
			return m.lift1(cfg, r.v, func(v Value) Value { return m.c.Int(int(v.(SliceV).len)) })
		})
	}
	reg("(internal/reflectlite.Value).Len", length)
	reg("(reflect.Value).Len", length)
	swapper := func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		i, ok := args[0].(Iface)
		if !ok || i.t == nil || kindOf(i.t) != reflect.Slice {
			fatal("Swapper of %T at %s", args[0], m.where())
		}
		et := i.t.Underlying().(*types.Slice).Elem()
		return &Closure{nat: func(m *Machine, cfg *Config, args []Value) Value {
			p := m.elemAddr(cfg, i.v, i.t, args[0].(*Term))
			q := m.elemAddr(cfg, i.v, i.t, args[1].(*Term))
			a, b := m.load(cfg, p, et), m.load(cfg, q, et)
			m.store(cfg, p, b, et)
			m.store(cfg, q, a, et)
			return &TupleV{}
		}}
	}
	reg("internal/reflectlite.Swapper", swapper)
	reg("reflect.Swapper", swapper)
	reg("reflect.DeepEqual", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		a, ok1 := args[0].(Iface)
		b, ok2 := args[1].(Iface)
		if !ok1 || !ok2 {
			fatal("DeepEqual of unions")
		}
		if a.t == nil || b.t == nil || !types.Identical(a.t, b.t) {
			return m.c.Bool(a.t == nil && b.t == nil)
		}
		return m.deepEq(cfg, a.t, a.v, b.v)
	})

	// ---- fmt
	reg("fmt.Sprintf", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return fmt.Sprintf(m.concStr(cfg, args[0]), m.anyArgs(cfg, args[1])...)
	})
	reg("fmt.Sprint", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return fmt.Sprint(m.anyArgs(cfg, args[0])...)
	})
	reg("fmt.Sprintln", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return fmt.Sprintln(m.anyArgs(cfg, args[0])...)
	})
	reg("fmt.Append", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.appendBytes(cfg, args[0], fmt.Sprint(m.anyArgs(cfg, args[1])...))
	})
	reg("fmt.Appendf", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.appendBytes(cfg, args[0], fmt.Sprintf(m.concStr(cfg, args[1]), m.anyArgs(cfg, args[2])...))
	})
	fprint := func(format func(m *Machine, cfg *Config, args []Value) string) Intrinsic {
		return func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
			w, ok := args[0].(Iface)
			if !ok || w.t == nil {
				fatal("print to %T at %s", args[0], m.where())
			}
			write := m.P.prog.LookupMethod(w.t, nil, "Write")
			b := m.appendBytes(cfg, SliceV{}, format(m, cfg, args[1:]))
			m.enter(cfg, write, nil, []Value{w.v, b}, false, nil)
			return contCall
		}
	}
	reg("fmt.Fprintf", fprint(func(m *Machine, cfg *Config, args []Value) string {
		return fmt.Sprintf(m.concStr(cfg, args[0]), m.anyArgs(cfg, args[1])...)
	}))
	reg("fmt.Fprint", fprint(func(m *Machine, cfg *Config, args []Value) string { return fmt.Sprint(m.anyArgs(cfg, args[0])...) }))
	reg("fmt.Fprintln", fprint(func(m *Machine, cfg *Config, args []Value) string { return fmt.Sprintln(m.anyArgs(cfg, args[0])...) }))
	nop := func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.zeroResults(fn)
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "runtime.KeepAlive", "runtime.Gosched", "runtime.GC", "(*time.Timer).Stop"} {
		reg(n, nop)
	}

	// ---- hash/crc32
	sum := func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return m.hash(cfg, args[0]) }
	reg("hash/crc32.ChecksumIEEE", sum)
	reg("hash/crc32.Checksum", sum)
	reg("hash/crc32.ieeeInit", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return &TupleV{} })
	reg("hash/crc32.update", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.hashUpdate(cfg, args[0].(*Term), args[2])
	})
	newDigest := func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		t := fn.Pkg.Type("digest").Type()
		return Iface{types.NewPointer(t), m.alloc(t)}
	}
	reg("hash/crc32.New", newDigest)
	reg("hash/crc32.NewIEEE", newDigest)
	reg("hash/crc32.MakeTable", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return Ptr{} })

	// ---- math, unsafe helpers, runtime links
	reg("math.Float64bits", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return m.fpBits(args[0].(*Term)) })
	reg("math.Float32bits", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return m.fpBits(args[0].(*Term)) })
	reg("math.Float64frombits", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return m.c.FBits(args[0].(*Term)) })
	reg("math.Float32frombits", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return m.c.FBits(args[0].(*Term)) })
	reg("math.IsNaN", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		return m.c.FIsNaN(args[0].(*Term))
	})
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape", ident)
	reg("maps.clone", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		i := args[0].(Iface)
		mv := i.v.(MapV)
		if mv.id == 0 {
			return i
		}
		o := m.obj(mv.id)
		n := &Object{m: &MapData{entries: append([]MapEntry(nil), o.m.entries...)}, typ: o.typ}
		return Iface{i.t, MapV{m.newObj(n)}}
	})
	reg("internal/bytealg.CompareString", func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		c := m.c
		return c.Ite(m.ltStr(args[0], args[1]), c.Int(-1), c.Ite(m.eqStr(args[0], args[1]), c.Int(0), c.Int(1)))
	})
	intrinsics["runtime.cmpstring"] = intrinsics["internal/bytealg.CompareString"]
	bytesOf := func(m *Machine, v Value) []*Term {
		s, ok := v.(SliceV)
		if !ok {
			return m.strBytes(v)
		}
		bs := make([]*Term, s.len)
		for i := range bs {
			bs[i] = m.obj(s.obj).cells[int(s.off)+i].(*Term)
		}
		return bs
	}
	count := func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		c := m.c
		n := c.Int(0)
		for _, b := range bytesOf(m, args[0]) {
			n = c.Bin(OAdd, n, c.Ite(c.Eq(b, args[1].(*Term)), c.Int(1), c.Int(0)))
		}
		return n
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	index := func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		c := m.c
		r := c.Int(-1)
		bs := bytesOf(m, args[0])
		for i := len(bs) - 1; i >= 0; i-- {
			r = c.Ite(c.Eq(bs[i], args[1].(*Term)), c.Int(i), r)
		}
		return r
	}
	reg("internal/bytealg.IndexByte", index)
	reg("internal/bytealg.IndexByteString", index)
	find := func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value {
		c := m.c
		a, b := bytesOf(m, args[0]), bytesOf(m, args[1])
		r := c.Int(-1)
		for i := len(a) - len(b); i >= 0; i-- {
			eq := c.Bool(true)
			for j := range b {
				eq = c.And(eq, c.Eq(a[i+j], b[j]))
			}
			r = c.Ite(eq, c.Int(i), r)
		}
		return r
	}
	reg("internal/bytealg.Index", find)
	reg("internal/bytealg.IndexString", find)
}

const OULtHelper = OUlt

var mutexType types.Type

func init() {
	mutexType = types.Typ[types.Int64]
}

type lockedSig struct{}

// atomically suppresses race bookkeeping for synchronising accesses.
func (m *Machine) atomically(f func() Value) Value {
	if !m.inPar {
		return f()
	}
	save := m.syncAcc
	m.syncAcc = true
	defer func() { m.syncAcc = save }()
	return f()
}

func (m *Machine) lockEvent(cfg *Config, pv Value, acquire, shared bool) {
	if !m.mergeM {
		return
	}
	p, ok := pv.(Ptr)
	if !ok {
		return
	}
	if shared {
		p.off |= 1 << 30
	}
	if acquire {
		cfg.locks = append(cfg.locks, p)
		return
	}
	for i := len(cfg.locks) - 1; i >= 0; i-- {
		if cfg.locks[i] == p {
			cfg.locks = append(cfg.locks[:i:i], cfg.locks[i+1:]...)
			return
		}
	}
}

func (m *Machine) lift1(cfg *Config, x Value, f func(v Value) Value) Value {
	if _, ok := x.(*Union); !ok {
		return f(x)
	}
	var acc Value
	m.each(x, cfg.guard, func(v Value, g *Term) {
		r := f(v)
		if acc == nil {
			acc = r
		} else {
			acc = m.merge(g, r, acc)
		}
	})
	if acc == nil {
		panic(cfgDead{})
	}
	return acc
}

// ---------------------------------------------------------------- time

const defaultNow = uint64(1700000000000000000)

func (m *Machine) clockTerm() *Term {
	if m.st.clock == nil {
		m.st.clock = m.c.Const(BV(64), defaultNow)
	}
	return m.st.clock
}

func (m *Machine) now(cfg *Config) Value {
	m.noteSync(Ptr{-7, 0}, false, cfg.guard)
	return m.clockTerm()
}

// timeAdd adds keeping multiples of a common constant factored, so that later divisions are exact.
func (m *Machine) timeAdd(a, b *Term) *Term {
	c := m.c
	for _, k := range []int{1000000, 1000} {
		x, ok1 := factor(c, a, uint64(k))
		y, ok2 := factor(c, b, uint64(k))
		if ok1 && ok2 && !(a.isConst() && b.isConst()) {
			return c.Bin(OMul, c.Bin(OAdd, x, y), c.Int(k))
		}
	}
	return c.timeShift(a, b)
}

func factor(c *TermCtx, t *Term, k uint64) (*Term, bool) {
	if t.isConst() {
		v := sx(t.val, 64)
		if v%int64(k) == 0 {
			return c.Const(BV(64), uint64(v/int64(k))), true
		}
		return nil, false
	}
	if t.op == OMul && t.args[1].isConst() && t.args[1].val == k {
		return t.args[0], true
	}
	if t.op == OIte {
		x, ok1 := factor(c, t.args[1], k)
		y, ok2 := factor(c, t.args[2], k)
		if ok1 && ok2 {
			return c.Ite(t.args[0], x, y), true
		}
	}
	return nil, false
}

func (m *Machine) exactDiv(cfg *Config, t *Term, k int) *Term {
	x, ok := factor(m.c, t, uint64(k))
	if !ok || t.isConst() {
		return nil
	}
	// exact only when x*k does not overflow
	lim := int64(math.MaxInt64) / int64(k)
	in := m.c.And(m.c.Bin(OSle, m.c.Int(int(-lim)), x), m.c.Bin(OSle, x, m.c.Int(int(lim))))
	if in == m.c.True {
		return x
	}
	out := m.c.Not(in)
	if m.mergeM {
		if m.feasible(m.c.And(cfg.guard, out)) {
			return nil
		}
		return x
	}
	if r, _ := m.sol.Check(m.st.pc, out, false); r == Unsat {
		return x
	}
	return nil
}

func (m *Machine) truncDiv(cfg *Config, t *Term, k int) *Term {
	if x := m.exactDiv(cfg, t, k); x != nil {
		return x
	}
	return m.c.Bin(OSDiv, t, m.c.Int(k))
}

type divKey struct {
	t *Term
	k int
}

func (m *Machine) floorDiv(cfg *Config, t *Term, k int) *Term {
	if x := m.exactDiv(cfg, t, k); x != nil {
		return x
	}
	c := m.c
	if t.isConst() {
		q := c.Bin(OSDiv, t, c.Int(k))
		r := c.Bin(OSRem, t, c.Int(k))
		return c.Ite(c.Bin(OSlt, r, c.Int(0)), c.Bin(OSub, q, c.Int(1)), q)
	}
	// a quotient variable defined by k*q <= t < k*(q+1) is far cheaper for the solver than a division
	key := divKey{t, k}
	if q, ok := m.st.divs[key]; ok {
		return q
	}
	q := m.fresh("quot", BV(64))
	lim := int(int64(math.MaxInt64)/int64(k)) - 1
	r := c.Bin(OSub, t, c.Bin(OMul, q, c.Int(k)))
	def := c.And(c.Bin(OSle, c.Int(-lim), q), c.Bin(OSle, q, c.Int(lim)), c.Bin(OSle, c.Int(0), r), c.Bin(OSlt, r, c.Int(k)))
	if m.st.divs == nil {
		m.st.divs = map[divKey]*Term{}
	}
	m.st.divs[key] = q
	m.addPC(def)
	if md := m.st.model; md != nil {
		n := Model{}
		for k, v := range md {
			n[k] = v
		}
		v := sx(c.Eval(t, md), 64)
		d := v / int64(k)
		if v%int64(k) < 0 {
			d--
		}
		n[q] = uint64(d)
		m.st.model = n
		if c.Eval(def, n) != 1 {
			m.st.model = nil
		}
	}
	return q
}

// ---------------------------------------------------------------- reflect

func (m *Machine) rtype(t types.Type) Value {
	return Iface{t: types.Typ[types.UnsafePointer], v: RTyp{t}}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Struct:
		return reflect.Struct
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func rtypeMethod(name string, rt RTyp) func(m *Machine, cfg *Config, args []Value) Value {
	return func(m *Machine, cfg *Config, args []Value) Value {
		switch name {
		case "Kind":
			// reflect.Kind is uint, reflectlite.Kind (abi.Kind) is uint8
			return m.c.Int(int(kindOf(rt.t)))
		case "Elem":
			switch u := rt.t.Underlying().(type) {
			case *types.Pointer:
				return m.rtype(u.Elem())
			case *types.Slice:
				return m.rtype(u.Elem())
			case *types.Array:
				return m.rtype(u.Elem())
			case *types.Map:
				return m.rtype(u.Elem())
			case *types.Chan:
				return m.rtype(u.Elem())
			}
			m.raise(cfg, cfg.guard, "reflect: Elem of invalid type "+rt.t.String())
		case "Comparable":
			return m.c.Bool(types.Comparable(rt.t))
		case "String", "Name":
			return rt.t.String()
		}
		fatal("reflect.Type.%s", name)
		return nil
	}
}

// ---------------------------------------------------------------- concrete conversions for fmt

func (m *Machine) concStr(cfg *Config, v Value) string {
	s, ok := v.(string)
	if !ok {
		fatal("symbolic format/string at %s", m.where())
	}
	return s
}

func (m *Machine) anyArgs(cfg *Config, v Value) []any {
	s, ok := v.(SliceV)
	if !ok {
		fatal("union of argument slices")
	}
	var out []any
	if s.obj == 0 {
		return nil
	}
	o := m.obj(s.obj)
	for i := 0; i < int(s.len); i++ {
		out = append(out, m.toGo(o.cells[int(s.off)+i]))
	}
	return out
}

func (m *Machine) toGo(v Value) any {
	i, ok := v.(Iface)
	if !ok {
		fatal("fmt argument %T at %s", v, m.where())
	}
	if i.t == nil {
		return nil
	}
	ms := m.P.prog.MethodSets.MethodSet(i.t)
	for k := 0; k < ms.Len(); k++ {
		if n := ms.At(k).Obj().Name(); n == "String" || n == "Error" || n == "Format" {
			return "<" + i.t.String() + ">"
		}
	}
	switch x := i.v.(type) {
	case string:
		return x
	case *Term:
		if !x.isConst() {
			fatal("fmt of symbolic value at %s", m.where())
		}
		switch kindOf(i.t) {
		case reflect.Bool:
			return x.val == 1
		case reflect.Int, reflect.Int64:
			return int64(x.val)
		case reflect.Int8:
			return int8(x.val)
		case reflect.Int16:
			return int16(x.val)
		case reflect.Int32:
			return int32(x.val)
		case reflect.Uint, reflect.Uint64, reflect.Uintptr:
			return x.val
		case reflect.Uint8:
			return uint8(x.val)
		case reflect.Uint16:
			return uint16(x.val)
		case reflect.Uint32:
			return uint32(x.val)
		case reflect.Float64:
			return math.Float64frombits(x.val)
		case reflect.Float32:
			return math.Float32frombits(uint32(x.val))
		}
	}
	return "<" + strings.TrimPrefix(i.t.String(), "*") + ">"
}

func (m *Machine) appendBytes(cfg *Config, dst Value, s string) Value {
	sl, ok := dst.(SliceV)
	if !ok {
		fatal("append to union")
	}
	var src []Value
	for _, t := range m.strBytes(s) {
		src = append(src, t)
	}
	return m.appendTo(sl, src, len(src), types.Typ[types.Uint8], cfg.guard)
}

func (m *Machine) hashInput(v Value) []byte {
	s, ok := v.(SliceV)
	if !ok {
		fatal("hash of %T", v)
	}
	bs := make([]byte, s.len)
	for i := range bs {
		t := m.obj(s.obj).cells[int(s.off)+i].(*Term)
		if !t.isConst() {
			fatal("hash of symbolic bytes at %s", m.where())
		}
		bs[i] = byte(t.val)
	}
	return bs
}

// hash models crc32: concrete, or (when the harness asked for it) an arbitrary function of the hashed content.
func (m *Machine) hash(cfg *Config, v Value) Value {
	return m.hashBytes(m.hashInput(v))
}

func (m *Machine) hashBytes(bs []byte) *Term {
	if !m.st.symHash {
		return m.c.Const(BV(32), uint64(crc32.ChecksumIEEE(bs)))
	}
	key := string(bs)
	if t, ok := m.st.hashes[key]; ok {
		return t
	}
	r := m.c.ZExt(m.c.Var(fmt.Sprintf("hash[%s]", key), BV(m.st.hashBits)), 32)
	m.st.hashes[key] = r
	m.st.inputs = append(m.st.inputs, Input{name: "hash:" + key, kind: "hash", t: r})
	return r
}

// hashUpdate is the incremental form: the checksum so far stands for the content that produced it.
func (m *Machine) hashUpdate(cfg *Config, crc *Term, v Value) Value {
	bs := m.hashInput(v)
	if len(bs) == 0 {
		return crc
	}
	if !m.st.symHash {
		if !crc.isConst() {
			fatal("update of a symbolic checksum at %s", m.where())
		}
		return m.c.Const(BV(32), uint64(crc32.Update(uint32(crc.val), crc32.IEEETable, bs)))
	}
	if crc.isConst() && crc.val == 0 {
		return m.hashBytes(bs)
	}
	for k, t := range m.st.hashes {
		if t == crc && !t.isConst() {
			return m.hashBytes([]byte(k + string(bs)))
		}
	}
	fatal("update of a checksum of unknown content at %s", m.where())
	return nil
}

func (m *Machine) fpBits(t *Term) Value {
	if t.isConst() {
		return m.c.Const(BV(int(t.sort.W)), t.val)
	}
	if t.op == OFBits {
		return t.args[0]
	}
	fatal("bits of symbolic float expression")
	return nil
}

// ---------------------------------------------------------------- nd

var ndIntrinsics map[string]Intrinsic

func (m *Machine) input(cfg *Config, name, kind string, t *Term) {
	m.st.inputs = append(m.st.inputs, Input{name: name, kind: kind, t: t, g: cfg.guard})
}

func init() {
	ndIntrinsics = map[string]Intrinsic{}
	reg := func(name string, f func(m *Machine, cfg *Config, args []Value) Value) {
		ndIntrinsics[name] = func(m *Machine, cfg *Config, fn *ssa.Function, args []Value) Value { return f(m, cfg, args) }
	}
	scalar := func(fname string, s Sort, kind string) {
		reg(fname, func(m *Machine, cfg *Config, args []Value) Value {
			n := args[0].(string)
			t := m.fresh(n, s)
			m.input(cfg, n, kind, t)
			return t
		})
	}
	scalar("Bool", BoolS, "bool")
	scalar("Int", BV(64), "int")
	scalar("I64", BV(64), "int")
	scalar("I8", BV(8), "i8")
	scalar("I16", BV(16), "i16")
	scalar("I32", BV(32), "i32")
	scalar("U8", BV(8), "u8")
	scalar("U16", BV(16), "u16")
	scalar("U32", BV(32), "u32")
	scalar("U64", BV(64), "u64")
	reg("F64", func(m *Machine, cfg *Config, args []Value) Value {
		t := m.fresh(args[0].(string), BV(64))
		m.input(cfg, args[0].(string), "f64", t)
		return m.c.FBits(t)
	})
	reg("F32", func(m *Machine, cfg *Config, args []Value) Value {
		t := m.fresh(args[0].(string), BV(32))
		m.input(cfg, args[0].(string), "f32", t)
		return m.c.FBits(t)
	})
	reg("Range", func(m *Machine, cfg *Config, args []Value) Value {
		lo, hi := m.concInt(cfg, args[1], 0), m.concInt(cfg, args[2], 0)
		n := args[0].(string)
		if hi < lo {
			fatal("empty range %s", n)
		}
		c := m.c
		t := m.fresh(n, BV(64))
		m.input(cfg, n, "int", t)
		m.assume(cfg.guard, c.And(c.Bin(OSle, c.Int(lo), t), c.Bin(OSle, t, c.Int(hi))))
		return t
	})
	reg("Nat", func(m *Machine, cfg *Config, args []Value) Value {
		n := args[0].(string)
		w := m.concInt(cfg, args[1], 0)
		t := m.c.ZExt(m.fresh(n, BV(w)), 64)
		m.input(cfg, n, "int", t)
		return t
	})
	reg("Fix", func(m *Machine, cfg *Config, args []Value) Value {
		return m.c.Int(m.fixInt(cfg, args[0], 64))
	})
	reg("Str", func(m *Machine, cfg *Config, args []Value) Value {
		n := m.concInt(cfg, args[1], 16)
		in := Input{name: args[0].(string), kind: "str", g: cfg.guard}
		for i := 0; i < n; i++ {
			t := m.fresh(fmt.Sprintf("%s.%d", in.name, i), BV(8))
			in.bs = append(in.bs, t)
		}
		m.st.inputs = append(m.st.inputs, in)
		return mkStr(in.bs)
	})
	reg("Case", func(m *Machine, cfg *Config, args []Value) Value {
		n := m.concInt(cfg, args[1], 0)
		v := m.caseChoice(args[0].(string), n)
		m.st.caseIdx++
		m.st.inputs = append(m.st.inputs, Input{name: args[0].(string), kind: "case", conc: v, g: cfg.guard})
		return m.c.Int(v)
	})
	reg("Param", func(m *Machine, cfg *Config, args []Value) Value {
		v, ok := m.job.params[args[0].(string)]
		if !ok {
			fatal("no parameter %v for %s", args[0], m.job.H.Name)
		}
		return m.c.Int(v)
	})
	reg("Assume", func(m *Machine, cfg *Config, args []Value) Value {
		m.assume(cfg.guard, args[0].(*Term))
		if m.mergeM {
			cfg.guard = m.c.And(cfg.guard, args[0].(*Term))
			if cfg.guard == m.c.False {
				cfg.dead = true
				panic(cfgDead{})
			}
		}
		return &TupleV{}
	})
	reg("Assert", func(m *Machine, cfg *Config, args []Value) Value {
		msg, ok := args[1].(string)
		if !ok {
			msg = "assertion"
		}
		m.assert(cfg.guard, args[0].(*Term), msg, "assert")
		return &TupleV{}
	})
	reg("Cover", func(m *Machine, cfg *Config, args []Value) Value {
		n := args[0].(string)
		if m.mergeM {
			m.covers = append(m.covers, coverRec{n, cfg.guard})
		} else {
			m.stats.Cover[m.job.H.Name+":"+n]++
		}
		return &TupleV{}
	})
	reg("MapOrder", func(m *Machine, cfg *Config, args []Value) Value {
		m.st.order = m.concInt(cfg, args[0], 3)
		return &TupleV{}
	})
	reg("SymHash", func(m *Machine, cfg *Config, args []Value) Value {
		m.st.symHash = true
		m.st.hashBits = m.concInt(cfg, args[0], 32)
		return &TupleV{}
	})
	reg("HashPin", func(m *Machine, cfg *Config, args []Value) Value {
		sl := m.convert(cfg, args[0], types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]))
		m.st.hashes[string(m.hashInput(sl))] = args[1].(*Term)
		return &TupleV{}
	})
	reg("HashOf", func(m *Machine, cfg *Config, args []Value) Value {
		sl := m.convert(cfg, args[0], types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]))
		return m.hash(cfg, sl)
	})
	reg("SetNow", func(m *Machine, cfg *Config, args []Value) Value {
		t := args[0].(*Term)
		if m.mergeM {
			t = m.c.Ite(cfg.guard, t, m.clockTerm())
		}
		m.st.clock = t
		return &TupleV{}
	})
	reg("Advance", func(m *Machine, cfg *Config, args []Value) Value {
		m.noteSync(Ptr{-7, 0}, true, cfg.guard)
		t := m.timeAdd(m.clockTerm(), args[0].(*Term))
		if m.mergeM {
			t = m.c.Ite(cfg.guard, t, m.clockTerm())
		}
		m.st.clock = t
		return &TupleV{}
	})
	reg("Now", func(m *Machine, cfg *Config, args []Value) Value { return m.clockTerm() })
	reg("NowMs", func(m *Machine, cfg *Config, args []Value) Value { return m.floorDiv(cfg, m.clockTerm(), 1000000) })
	reg("Background", func(m *Machine, cfg *Config, args []Value) Value {
		if !m.mergeM {
			m.st.runBg = true
		}
		return &TupleV{}
	})
	reg("FireTickers", func(m *Machine, cfg *Config, args []Value) Value {
		if m.mergeM {
			fatal("FireTickers in merge mode")
		}
		for _, id := range m.st.tickers {
			o := m.mut(id)
			if len(o.ch.buf) < o.ch.cap {
				o.ch.buf = append(o.ch.buf, m.clockTerm())
			}
		}
		m.st.runBg = true
		return &TupleV{}
	})
	reg("symbolic", func(m *Machine, cfg *Config, args []Value) Value { return m.c.True })
	reg("spawned", func(m *Machine, cfg *Config, args []Value) Value {
		if !m.mergeM || len(m.st.spawned) != 1 || m.st.spawned[0] == nil {
			fatal("Tick with %d background goroutines", len(m.st.spawned))
		}
		return m.st.spawned[0]
	})
	reg("Tickers", func(m *Machine, cfg *Config, args []Value) Value { return m.c.Int(len(m.st.tickers)) })
	reg("Note", func(m *Machine, cfg *Config, args []Value) Value { return &TupleV{} })
	reg("Yield", func(m *Machine, cfg *Config, args []Value) Value { return &TupleV{} })
	reg("Par", func(m *Machine, cfg *Config, args []Value) Value { return m.par(cfg, args) })
	boolArgs := func(m *Machine, v Value) []*Term {
		s, ok := v.(SliceV)
		if !ok {
			fatal("nd.And/Or arguments")
		}
		var out []*Term
		for i := 0; i < int(s.len); i++ {
			out = append(out, m.obj(s.obj).cells[int(s.off)+i].(*Term))
		}
		return out
	}
	reg("And", func(m *Machine, cfg *Config, args []Value) Value { return m.c.And(boolArgs(m, args[0])...) })
	reg("Or", func(m *Machine, cfg *Config, args []Value) Value { return m.c.Or(boolArgs(m, args[0])...) })
	reg("Implies", func(m *Machine, cfg *Config, args []Value) Value {
		return m.c.Implies(args[0].(*Term), args[1].(*Term))
	})
	sel := func(m *Machine, cfg *Config, args []Value) Value {
		return m.c.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))
	}
	reg("Sel", sel)
	reg("SelB", sel)
	reg("Concurrent", func(m *Machine, cfg *Config, args []Value) Value { return m.c.Bool(m.mergeM) })
}

type coverRec struct {
	name string
	g    *Term
}

type splitSig struct{ n int }

func (m *Machine) caseChoice(name string, n int) int {
	st := m.st
	if st.caseIdx < len(m.job.cases) {
		v := m.job.cases[st.caseIdx]
		if v >= n {
			fatal("case %s: %d of %d", name, v, n)
		}
		return v
	}
	if m.mergeM || len(m.job.cases) < m.job.H.Split && st.caseIdx == len(m.job.cases) && m.stats.Forks == 0 {
		panic(splitSig{n})
	}
	return m.choose(n)
}

// deepEq is reflect.DeepEqual of two values of type t.
func (m *Machine) deepEq(cfg *Config, t types.Type, a, b Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return m.eq(a, b)
	case *types.Pointer:
		p, ok1 := a.(Ptr)
		q, ok2 := b.(Ptr)
		if !ok1 || !ok2 {
			fatal("DeepEqual of unions")
		}
		if p == q || p.obj == 0 || q.obj == 0 {
			return m.c.Bool(p == q)
		}
		return m.deepEq(cfg, u.Elem(), m.load(cfg, p, u.Elem()), m.load(cfg, q, u.Elem()))
	case *types.Struct:
		flat := true
		for i := 0; i < u.NumFields(); i++ {
			_, basic := u.Field(i).Type().Underlying().(*types.Basic)
			flat = flat && basic
		}
		if flat {
			return m.eq(a, b)
		}
	}
	fatal("DeepEqual of %v", t)
	return nil
}
