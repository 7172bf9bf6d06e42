package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Ptr, SliceV, string, *SymStr, *Closure, Iface, MapV, ChanV, IterV, *Agg, *TupleV, *Union,
// AddrInt, *RVal (reflect.Value), RTyp (dynamic value of a reflect.Type).
type Value any

type Ptr struct{ obj, off int32 }
type SliceV struct{ obj, off, len, cap int32 } // off in cells, len/cap in elements
type MapV struct{ id int32 }
type ChanV struct{ id int32 }
type IterV struct{ id int32 }
type AddrInt struct {
	p Ptr
	d int64 // bytes beyond p, less than one element
}
type SymStr struct{ b []*Term }
type Closure struct {
	fn   *ssa.Function
	free []Value
	nat  func(m *Machine, cfg *Config, args []Value) Value // engine-made closures (cancel functions and the like)
}
type Iface struct {
	t types.Type
	v Value
}
type Agg struct{ v []Value }
type TupleV struct{ v []Value }
type RVal struct {
	t  types.Type // nil: invalid
	v  Value
	at *Ptr // addressable
}
type RTyp struct{ t types.Type }

type Alt struct {
	g *Term
	v Value
}

// Union is a guarded choice; guards are mutually exclusive.
type Union struct{ alts []Alt }

func (u *Union) String() string {
	var s []string
	for _, a := range u.alts {
		s = append(s, fmt.Sprintf("%v when %v", a.v, a.g))
	}
	return "union{" + strings.Join(s, "; ") + "}"
}

func valueSame(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case ChanV:
		y, ok := b.(ChanV)
		return ok && x == y
	case IterV:
		y, ok := b.(IterV)
		return ok && x == y
	case AddrInt:
		y, ok := b.(AddrInt)
		return ok && x == y
	case RTyp:
		y, ok := b.(RTyp)
		return ok && types.Identical(x.t, y.t)
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *SymStr:
		y, ok := b.(*SymStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil || x.fn != y.fn || x.nat != nil || y.nat != nil || len(x.free) != len(y.free) {
			return false
		}
		for i := range x.free {
			if !valueSame(x.free[i], y.free[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && valueSame(x.v, y.v)
	case *Agg:
		y, ok := b.(*Agg)
		return ok && sameList(x.v, y.v)
	case *TupleV:
		y, ok := b.(*TupleV)
		return ok && sameList(x.v, y.v)
	case *RVal:
		y, ok := b.(*RVal)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && valueSame(x.v, y.v)
	case *Union:
		y, ok := b.(*Union)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !valueSame(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	panic(fmt.Sprintf("valueSame %T", a))
}

func sameList(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !valueSame(a[i], b[i]) {
			return false
		}
	}
	return true
}

// merge returns "a if g else b".
func (m *Machine) merge(g *Term, a, b Value) Value {
	c := m.c
	if g == c.True {
		return a
	}
	if g == c.False {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return c.Ite(g, x, y)
		}
	case *Agg:
		if y, ok := b.(*Agg); ok && len(x.v) == len(y.v) {
			r := &Agg{make([]Value, len(x.v))}
			for i := range x.v {
				r.v[i] = m.merge(g, x.v[i], y.v[i])
			}
			return r
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.v) == len(y.v) {
			r := &TupleV{make([]Value, len(x.v))}
			for i := range x.v {
				r.v[i] = m.merge(g, x.v[i], y.v[i])
			}
			return r
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			return Iface{x.t, m.merge(g, x.v, y.v)}
		}
	}
	if valueSame(a, b) {
		return a
	}
	var alts []Alt
	add := func(g *Term, v Value) {
		if g == c.False {
			return
		}
		for i := range alts {
			if valueSame(alts[i].v, v) {
				alts[i].g = c.Or(alts[i].g, g)
				return
			}
			// interface values of one dynamic type merge inside
			if x, ok := alts[i].v.(Iface); ok && x.t != nil {
				if y, ok := v.(Iface); ok && y.t != nil && types.Identical(x.t, y.t) {
					alts[i] = Alt{c.Or(alts[i].g, g), Iface{x.t, m.merge(g, y.v, x.v)}}
					return
				}
			}
		}
		alts = append(alts, Alt{g, v})
	}
	ng := c.Not(g)
	if u, ok := a.(*Union); ok {
		for _, x := range u.alts {
			add(c.And(g, x.g), x.v)
		}
	} else {
		add(g, a)
	}
	if u, ok := b.(*Union); ok {
		for _, x := range u.alts {
			add(c.And(ng, x.g), x.v)
		}
	} else {
		add(ng, b)
	}
	if len(alts) == 1 {
		return alts[0].v
	}
	if len(alts) > m.stats.MaxUnion {
		m.stats.MaxUnion = len(alts)
	}
	return &Union{alts}
}

// each visits the alternatives of v under guard g.
func (m *Machine) each(v Value, g *Term, f func(v Value, g *Term)) {
	if u, ok := v.(*Union); ok {
		for _, a := range u.alts {
			ng := m.c.And(g, a.g)
			if ng == m.c.False {
				continue
			}
			f(a.v, ng)
		}
		return
	}
	f(v, g)
}

// ---------------------------------------------------------------- layout

type Layout struct {
	size map[typesType]int
}

func namedPath(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	return o.Pkg().Path() + "." + o.Name()
}

// opaque reports types the engine stores as one cell.
func opaque(t types.Type) bool {
	switch namedPath(t) {
	case "reflect.Value", "internal/reflectlite.Value", "time.Time", "sync.Mutex", "sync.RWMutex", "sync/atomic.Value":
		return true
	}
	return false
}

func (l *Layout) Size(t types.Type) int {
	if n, ok := l.size[t]; ok {
		return n
	}
	n := 1
	if !opaque(t) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			n = 0
			for i := 0; i < u.NumFields(); i++ {
				n += l.Size(u.Field(i).Type())
			}
		case *types.Array:
			n = int(u.Len()) * l.Size(u.Elem())
		}
	}
	l.size[t] = n
	return n
}

func (l *Layout) FieldOff(s *types.Struct, f int) int {
	n := 0
	for i := 0; i < f; i++ {
		n += l.Size(s.Field(i).Type())
	}
	return n
}

func isAgg(t types.Type) bool {
	if opaque(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func basicSort(b *types.Basic) (Sort, bool, bool) { // sort, signed, ok
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return BoolS, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return BV(64), true, true
	case types.Int8:
		return BV(8), true, true
	case types.Int16:
		return BV(16), true, true
	case types.Int32, types.UntypedRune:
		return BV(32), true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return BV(64), false, true
	case types.Uint8:
		return BV(8), false, true
	case types.Uint16:
		return BV(16), false, true
	case types.Uint32:
		return BV(32), false, true
	case types.Float32:
		return FP(32), true, true
	case types.Float64, types.UntypedFloat:
		return FP(64), true, true
	}
	return Sort{}, false, false
}

const zeroTime = uint64(1) << 63 // the engine's stand-in for time.Time{}

func (m *Machine) zeroLeaf(t types.Type) Value {
	switch namedPath(t) {
	case "time.Time":
		return m.c.Const(BV(64), zeroTime)
	case "sync.Mutex", "sync.RWMutex":
		return m.c.Const(BV(64), 0)
	case "reflect.Value", "internal/reflectlite.Value":
		return &RVal{}
	case "sync/atomic.Value":
		return Iface{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String || u.Kind() == types.UntypedString {
			return ""
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		s, _, ok := basicSort(u)
		if !ok {
			fatal("zero of %v", t)
		}
		if s.K == KFP {
			return m.c.FConst(int(s.W), 0)
		}
		return m.c.Const(s, 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	}
	fatal("zero of %v (%T)", t, t.Underlying())
	return nil
}

func (m *Machine) zeroCells(t types.Type, out []Value) []Value {
	if isAgg(t) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				out = m.zeroCells(u.Field(i).Type(), out)
			}
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				out = m.zeroCells(u.Elem(), out)
			}
		}
		return out
	}
	return append(out, m.zeroLeaf(t))
}

func (m *Machine) zero(t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		r := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			r.v = append(r.v, m.zero(tt.At(i).Type()))
		}
		return r
	}
	if isAgg(t) {
		return &Agg{m.zeroCells(t, nil)}
	}
	return m.zeroLeaf(t)
}

func flat(v Value) []Value {
	if a, ok := v.(*Agg); ok {
		return a.v
	}
	return []Value{v}
}

// ---------------------------------------------------------------- equality

func (m *Machine) eq(a, b Value) *Term {
	c := m.c
	if u, ok := a.(*Union); ok {
		var os []*Term
		for _, x := range u.alts {
			os = append(os, c.And(x.g, m.eq(x.v, b)))
		}
		return c.Or(os...)
	}
	if _, ok := b.(*Union); ok {
		return m.eq(b, a)
	}
	switch x := a.(type) {
	case *Term:
		if _, ok := b.(AddrInt); ok {
			return m.eq(b, a)
		}
		y := b.(*Term)
		if x.sort.K == KFP {
			return c.FBin(OFEq, x, y)
		}
		return c.Eq(x, y)
	case AddrInt:
		if t, ok := b.(*Term); ok {
			if !t.isConst() || t.val != 0 {
				fatal("comparison of an address with a number at %s", m.where())
			}
			return c.False
		}
		y := b.(AddrInt)
		if x.p != y.p && x.d != y.d {
			fatal("comparison of computed addresses at %s", m.where())
		}
		return c.Bool(x.p == y.p && x.d == y.d)
	case string:
		if y, ok := b.(string); ok {
			return c.Bool(x == y)
		}
		return m.eqStr(a, b)
	case *SymStr:
		return m.eqStr(a, b)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			fatal("eq iface with %T", b)
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return m.eq(x.v, y.v)
	case *Agg:
		y := b.(*Agg)
		var as []*Term
		for i := range x.v {
			as = append(as, m.eq(x.v[i], y.v[i]))
		}
		return c.And(as...)
	case *Closure:
		y, _ := b.(*Closure)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		fatal("comparing two functions")
	case SliceV:
		y := b.(SliceV)
		return c.Bool(x.obj == 0 && y.obj == 0)
	}
	return c.Bool(valueSame(a, b))
}

func (m *Machine) strBytes(v Value) []*Term {
	switch x := v.(type) {
	case string:
		r := make([]*Term, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = m.c.Const(BV(8), uint64(x[i]))
		}
		return r
	case *SymStr:
		return x.b
	}
	fatal("strBytes of %T", v)
	return nil
}

func mkStr(b []*Term) Value {
	bs := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			return &SymStr{b}
		}
		bs[i] = byte(t.val)
	}
	return string(bs)
}

func (m *Machine) eqStr(a, b Value) *Term {
	x, y := m.strBytes(a), m.strBytes(b)
	if len(x) != len(y) {
		return m.c.False
	}
	var as []*Term
	for i := range x {
		as = append(as, m.c.Eq(x[i], y[i]))
	}
	return m.c.And(as...)
}

// ltStr is the byte-wise lexicographic a < b.
func (m *Machine) ltStr(a, b Value) *Term {
	x, y := m.strBytes(a), m.strBytes(b)
	n := min(len(x), len(y))
	r := m.c.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.c.Or(m.c.Bin(OUlt, x[i], y[i]), m.c.And(m.c.Eq(x[i], y[i]), r))
	}
	return r
}

type typesType = types.Type
