// Package rwmap drives github.com/zijiren233/gencontainer/rwmap.
package rwmap

import (
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

type rmap = rwmap.RWMap[int, int]

// model is the map the code must behave like: keys are 0..nk-1.
type model struct {
	in []bool
	v  []int
}

func (m *model) len() int {
	n := 0
	for _, b := range m.in {
		if b {
			n++
		}
	}
	return n
}

func newModel(nk int) *model { return &model{make([]bool, nk), make([]int, nk)} }

// prepare brings a map into one of its internal situations through public operations only (key 0 is the one of interest).
func prepare(m *rmap, o *model, how int) {
	put := func(k, v int) {
		m.Store(k, v)
		o.in[k], o.v[k] = true, v
	}
	del := func(k int) {
		m.Delete(k)
		o.in[k] = false
	}
	all := func() { m.Range(func(int, int) bool { return true }) }
	switch how {
	case 0: // the zero value
	case 1: // key 0 only just stored
		put(0, 50)
	case 2: // key 0 settled by iteration
		put(0, 50)
		all()
	case 3: // key 0 deleted after having settled
		put(0, 50)
		all()
		del(0)
	case 4: // key 0 settled, another key newer
		put(0, 50)
		all()
		put(1, 51)
	case 5: // key 0 deleted after having settled, another key newer
		put(0, 50)
		all()
		del(0)
		put(1, 51)
	case 6: // key 0 stored again after that
		put(0, 50)
		all()
		del(0)
		put(1, 51)
		put(0, 52)
	case 7: // settled again after that
		put(0, 50)
		all()
		del(0)
		put(1, 51)
		all()
	case 8: // cleared with a newer key
		put(0, 50)
		all()
		put(1, 51)
		m.Clear()
		o.in[0], o.in[1] = false, false
	case 9: // misses have accumulated
		put(0, 50)
		put(1, 51)
		m.Load(0)
	case 10: // deleted while new
		put(0, 50)
		put(1, 51)
		del(0)
	case 11: // cleared when settled, then a new key
		put(0, 50)
		all()
		m.Clear()
		o.in[0] = false
		put(1, 51)
	case 12: // key 0 settled, another key newer and looked up
		put(0, 50)
		all()
		put(1, 51)
		m.Load(1)
	}
}

const preparations = 13

// step applies one operation with symbolic values to both the map and the model.
func step(m *rmap, o *model, op, k int) {
	switch op {
	case 0:
		v, ok := m.Load(k)
		nd.Assert(ok == o.in[k], "Load finds exactly the present keys")
		nd.Assert(!ok || v == o.v[k], "Load returns the stored value")
		nd.Assert(ok || v == 0, "Load of an absent key returns the zero value")
	case 1:
		v := nd.Int("v")
		m.Store(k, v)
		o.in[k], o.v[k] = true, v
	case 2:
		v := nd.Int("v")
		p, ok := m.Swap(k, v)
		nd.Assert(ok == o.in[k], "Swap reports whether the key was present")
		nd.Assert(nd.SelB(ok, p == o.v[k], p == 0), "Swap returns the previous value")
		o.in[k], o.v[k] = true, v
	case 3:
		v := nd.Int("v")
		a, loaded := m.LoadOrStore(k, v)
		nd.Assert(loaded == o.in[k], "LoadOrStore reports whether the key was present")
		if loaded {
			nd.Assert(a == o.v[k], "LoadOrStore returns the present value")
		} else {
			nd.Assert(a == v, "LoadOrStore returns the value it stored")
			o.in[k], o.v[k] = true, v
		}
	case 4:
		v, ok := m.LoadAndDelete(k)
		nd.Assert(ok == o.in[k], "LoadAndDelete reports whether the key was present")
		nd.Assert(!ok || v == o.v[k], "LoadAndDelete returns the value it removed")
		nd.Assert(ok || v == 0, "LoadAndDelete of an absent key returns the zero value")
		o.in[k] = false
	case 5:
		m.Delete(k)
		o.in[k] = false
	case 6:
		old, v := nd.Int("old"), nd.Int("v")
		ok := m.CompareAndSwap(k, old, v)
		nd.Assert(ok == (o.in[k] && o.v[k] == old), "CompareAndSwap succeeds exactly on a present equal value")
		if ok {
			o.v[k] = v
		}
	case 7:
		old := nd.Int("old")
		ok := m.CompareAndDelete(k, old)
		nd.Assert(ok == (o.in[k] && o.v[k] == old), "CompareAndDelete succeeds exactly on a present equal value")
		if ok {
			o.in[k] = false
		}
	case 8:
		whole(m, o)
	case 9:
		m.Clear()
		for i := range o.in {
			o.in[i] = false
		}
	case 10: // stop an iteration at once
		n := 0
		m.Range(func(int, int) bool { n++; return false })
		nd.Assert(n == min(1, o.len()), "Range stops when told to")
	}
	nd.Assert(m.Len() == int64(o.len()), "Len is the number of keys")
}

const ops = 11

// whole compares an iteration with the model.
func whole(m *rmap, o *model) {
	seen := make([]bool, len(o.in))
	n := 0
	m.Range(func(k, v int) bool {
		nd.Assert(k >= 0 && k < len(o.in) && o.in[k] && !seen[k], "Range visits present keys, each once")
		nd.Assert(v == o.v[k], "Range passes the stored value")
		seen[k] = true
		n++
		return true
	})
	nd.Assert(n == o.len(), "Range visits every key")
}

func final(m *rmap, o *model) {
	for k := range o.in {
		v, ok := m.Load(k)
		nd.Assert(ok == o.in[k], "final Load finds exactly the present keys")
		nd.Assert(!ok || v == o.v[k], "final Load returns the stored value")
	}
	nd.Assert(m.Len() == int64(o.len()), "final Len is the number of keys")
	nd.Assert(m.SlowLen() == int64(o.len()), "SlowLen counts the keys")
	whole(m, o)
}

// HRWMapSeq: from every internal situation, any further operations behave like a plain map.
//
//gosym:check C19 split=3
//gosym:quick OPS=3 KEYS=2
//gosym:thorough OPS=3 KEYS=3
func HRWMapSeq() {
	var m rmap
	nk := nd.Param("KEYS")
	o := newModel(nk)
	how := nd.Case("prepare", preparations)
	n := nd.Param("OPS")
	for i := 0; i < n; i++ {
		op := nd.Case("op", ops)
		k := 0
		if op < 8 {
			k = nd.Case("key", nk)
		}
		if i == 0 {
			prepare(&m, o, how)
		}
		step(&m, o, op, k)
	}
	final(&m, o)
}

// HRWMapNew: any operations from the zero value behave like a plain map.
//
//gosym:check C19 split=3
//gosym:quick OPS=4
//gosym:thorough OPS=5
func HRWMapNew() {
	var m rmap
	o := newModel(2)
	n := nd.Param("OPS")
	for i := 0; i < n; i++ {
		op := nd.Case("op", ops)
		k := 0
		if i > 0 && op < 8 {
			k = nd.Case("key", 2)
		}
		step(&m, o, op, k)
	}
	final(&m, o)
}

// HRWMapReentrant: an iteration whose callback stores and deletes sees every untouched key exactly once and no key twice; the map stays consistent.
//
//gosym:check C22 split=3
//gosym:quick KEYS=3 OPS=1
//gosym:thorough KEYS=4 OPS=2
func HRWMapReentrant() {
	var m rmap
	nk := nd.Param("KEYS")
	o := newModel(nk)
	how := nd.Case("prepare", preparations)
	op := nd.Case("op", 9)
	k := nd.Case("key", nk)
	prepare(&m, o, how)
	was := append([]bool(nil), o.in...)
	val := append([]int(nil), o.v...)
	touched := make([]bool, nk)
	seen := make([]bool, nk)
	left := nd.Param("OPS")
	nd.MapOrder(2)
	m.Range(func(key, v int) bool {
		nd.Assert(key >= 0 && key < nk && !seen[key], "Range visits no key twice")
		seen[key] = true
		if !touched[key] {
			nd.Assert(was[key] && v == val[key], "Range passes a key not modified meanwhile with its value")
		}
		if left > 0 && nd.Bool("act") {
			left--
			if op == 8 {
				for i := range touched {
					touched[i] = true
				}
				step(&m, o, 9, k)
			} else {
				touched[k] = true
				step(&m, o, op, k)
			}
			nd.Cover("modified during Range")
		}
		return true
	})
	for i := range was {
		nd.Assert(touched[i] || seen[i] == was[i], "Range visits every key present throughout")
	}
	final(&m, o)
}

// HRWMapMany: the same with many keys, so that promotions by misses and by iteration happen with full maps.
//
//gosym:check C19 split=3
//gosym:quick N=12
//gosym:thorough N=40
func HRWMapMany() {
	var m rmap
	n := nd.Param("N")
	o := newModel(n)
	how := nd.Case("prepare", 6)
	op := nd.Case("op", ops)
	k := []int{0, 1, n / 2, n - 1}[nd.Case("key", 4)]
	put := func(a, b int) {
		for i := a; i < b; i++ {
			m.Store(i, 1000+i)
			o.in[i], o.v[i] = true, 1000+i
		}
	}
	del := func(d int) {
		for i := 0; i < n; i += d {
			m.Delete(i)
			o.in[i] = false
		}
	}
	all := func() { m.Range(func(int, int) bool { return true }) }
	miss := func() {
		for i := 0; i < n; i++ {
			m.Load(n - 1)
		}
	}
	switch how {
	case 0:
		put(0, n)
	case 1:
		put(0, n)
		all()
		del(2)
	case 2:
		put(0, n/2)
		all()
		del(2)
		put(n/2, n)
		miss()
	case 3:
		put(0, n/2)
		miss()
		put(0, n)
		miss()
		del(1)
		put(n/2, n)
	case 4:
		put(0, n)
		all()
		m.Clear()
		for i := range o.in {
			o.in[i] = false
		}
		put(1, n)
		miss()
		put(0, 1)
	case 5:
		put(0, n-1)
		all()
		del(3)
		put(n-1, n)
		all()
		del(2)
		put(0, 3)
	}
	step(&m, o, op, k)
	step(&m, o, nd.Case("op2", 4), 0)
	final(&m, o)
}

// typed runs the comparing operations on values of any type: x and y are two values, equal or not.
func typed[V any](how int, x, y, z V, same bool, is func(V, V) bool) {
	var m rwmap.RWMap[int, V]
	put := func(v V) {
		m.Store(0, v)
		if how == 1 {
			m.Range(func(int, V) bool { return true })
		}
		if how == 2 {
			m.Range(func(int, V) bool { return true })
			m.Delete(0)
			m.Store(1, z)
			m.Store(0, v)
		}
	}
	put(x)
	v, ok := m.Load(0)
	nd.Assert(ok && is(v, x), "Load returns the stored value")
	nd.Assert(m.CompareAndSwap(0, y, z) == same, "CompareAndSwap compares with ==")
	v, ok = m.Load(0)
	nd.Assert(ok && is(v, z) == same && is(v, x) != same, "CompareAndSwap stores the new value exactly when it succeeds")
	m.Store(0, x)
	nd.Assert(m.CompareAndDelete(0, y) == same, "CompareAndDelete compares with ==")
	_, ok = m.Load(0)
	nd.Assert(ok != same, "CompareAndDelete deletes exactly when it succeeds")
	nd.Assert(!m.CompareAndDelete(7, y) && !m.CompareAndSwap(7, y, x), "an absent key equals nothing")
}

type pair struct {
	a int
	s string
}

// HRWMapTypes: the comparing operations compare values of every comparable type as == does, pointers by identity and interfaces by type and value.
//
//gosym:check C19 split=3
//gosym:quick LEN=2
//gosym:thorough LEN=3
func HRWMapTypes() {
	how := nd.Case("how", 3)
	switch nd.Case("type", 7) {
	case 6:
		// sets: values without contents
		var m rwmap.RWMap[int, struct{}]
		o := newModel(2)
		if how > 0 {
			m.Store(0, struct{}{})
			m.Range(func(int, struct{}) bool { return true })
			o.in[0] = true
		}
		if how > 1 {
			m.Delete(0)
			m.Store(1, struct{}{})
			o.in[0], o.in[1] = false, true
		}
		for i := 0; i < 3; i++ {
			k := nd.Pick("key", 2)
			switch nd.Pick("op", 5) {
			case 0:
				m.Store(k, struct{}{})
				o.in[k] = true
			case 1:
				_, loaded := m.LoadOrStore(k, struct{}{})
				nd.Assert(loaded == o.in[k], "LoadOrStore tells whether the key was present")
				o.in[k] = true
			case 2:
				_, loaded := m.LoadAndDelete(k)
				nd.Assert(loaded == o.in[k], "LoadAndDelete tells whether the key was present")
				o.in[k] = false
			case 3:
				m.Range(func(int, struct{}) bool { return true })
			case 4:
				nd.Assert(m.CompareAndDelete(k, struct{}{}) == o.in[k], "CompareAndDelete deletes a present key")
				o.in[k] = false
			}
		}
		n := int64(0)
		for k := 0; k < 2; k++ {
			_, ok := m.Load(k)
			nd.Assert(ok == o.in[k], "Load finds exactly the stored keys")
			if ok {
				n++
			}
		}
		nd.Assert(m.Len() == n && m.SlowLen() == n, "Len counts the keys")
	case 0:
		n := nd.Int("n")
		p, q, r := &n, new(int), new(int)
		*q, *r = n, n
		if nd.Case("same", 2) == 1 {
			q = p
		}
		typed(how, p, q, r, p == q, func(a, b *int) bool { return a == b })
	case 1:
		x, y := str("x"), str("y")
		typed(how, x, y, "longer", x == y, func(a, b string) bool { return a == b })
	case 2:
		x, y := pair{nd.Int("a"), str("x")}, pair{nd.Int("b"), str("y")}
		typed(how, x, y, pair{3, "longer"}, x == y, func(a, b pair) bool { return a == b })
	case 3:
		n := nd.Int("n")
		vals := []any{nil, n, int64(n), str("x"), &n, pair{n, ""}}
		x, y := vals[nd.Case("x", len(vals))], vals[nd.Case("y", len(vals))]
		typed(how, x, y, any(3.5), x == y, func(a, b any) bool { return a == b })
	case 4:
		x, y := nd.F64("x"), nd.F64("y")
		nd.Assume(x == x && x != 4.5)
		typed(how, x, y, 4.5, x == y, func(a, b float64) bool { return a == b })
	case 5:
		x, y := [2]bool{nd.Bool("a"), nd.Bool("b")}, [2]bool{nd.Bool("c"), nd.Bool("d")}
		nd.Assume(x != [2]bool{true, true})
		typed(how, x, y, [2]bool{true, true}, x == y, func(a, b [2]bool) bool { return a == b })
	}
}

func str(name string) string { return nd.Str(name, nd.Pick(name+" length", nd.Param("LEN")+1)) }
