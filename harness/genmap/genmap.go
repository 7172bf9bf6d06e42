// Package genmap drives github.com/zijiren233/gencontainer/genmap.
package genmap

import (
	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

// start builds an arbitrary map of at most MAXN entries and returns it with the model of one arbitrary probe key.
func start(tag string, q int) (m genmap.GenMap[int, int], has bool, val int) {
	n := nd.Case(tag+"n", nd.Param("MAXN")+1)
	raw := map[int]int{}
	for i := 0; i < n; i++ {
		k, v := nd.Int(tag+"k"), nd.Int(tag+"v")
		raw[k] = v
		val = nd.Sel(k == q, v, val)
		has = nd.Or(has, k == q)
	}
	nd.Assume(len(raw) == n)
	return genmap.From(raw), has, val
}

// probe checks what the map says about key q and that the observers agree with each other.
func probe(m genmap.GenMap[int, int], q int, has bool, val int) {
	v, ok := m.Load(q)
	nd.Assert(ok == has, "Load presence")
	nd.Assert(nd.Implies(has, v == val), "Load value")
	nd.Assert(nd.Implies(!has, v == 0), "Load zero value")
	nd.Assert(m.Len() == len(m.Map()), "Len")
	cnt, seen, sum := 0, 0, 0
	all := m.Range(func(k, x int) bool {
		cnt++
		seen += nd.B2I(k == q)
		nd.Assert(nd.Implies(k == q, nd.And(has, x == val)), "Range pair")
		sum += x
		return true
	})
	nd.Assert(all, "Range complete")
	nd.Assert(cnt == m.Len(), "Range count")
	nd.Assert(seen == nd.B2I(has), "Range visits each key once")
	ks, vs := m.Keys(), m.Values()
	nd.Assert(len(ks) == cnt && len(vs) == cnt, "Keys/Values length")
	seen = 0
	for _, k := range ks {
		seen += nd.B2I(k == q)
	}
	nd.Assert(seen == nd.B2I(has), "Keys")
	s2 := 0
	for _, x := range vs {
		s2 += x
	}
	nd.Assert(s2 == sum, "Values")
	s2 = 0
	for _, x := range vs {
		s2 += nd.B2I(x == val)
	}
	nd.Assert(nd.Implies(has, s2 >= 1), "Values holds every value")
}

// HGenmapOps: from any map, every sequence of operations behaves as an abstract map for every key.
//
//gosym:check C13 split=3
//gosym:quick MAXN=2 OPS=2
//gosym:thorough MAXN=3 OPS=3
func HGenmapOps() {
	q := nd.Int("q")
	m, has, val := start("", q)
	for i := 0; i < nd.Param("OPS"); i++ {
		op := nd.Case("op", 11)
		k, v := nd.Int("k"), nd.Int("v")
		hit := k == q
		switch op {
		case 0:
			same(m.Store(k, v), m, "Store")
			has, val = nd.Or(has, hit), nd.Sel(hit, v, val)
		case 1:
			same(m.Delete(k), m, "Delete")
			has = nd.And(has, !hit)
		case 2:
			a, l := m.LoadOrStore(k, v)
			nd.Assert(nd.Implies(hit, l == has), "LoadOrStore loaded")
			nd.Assert(nd.Implies(nd.And(hit, has), a == val), "LoadOrStore returns the present value")
			nd.Assert(nd.Implies(nd.And(hit, !has), a == v), "LoadOrStore returns the stored value")
			val = nd.Sel(nd.And(hit, !has), v, val)
			has = nd.Or(has, hit)
		case 3:
			calls := 0
			a, l := m.LoadOrStoreFunc(k, func() int { calls++; return v })
			nd.Assert(nd.Implies(hit, l == has), "LoadOrStoreFunc loaded")
			nd.Assert(nd.Implies(hit, calls == nd.Sel(has, 0, 1)), "LoadOrStoreFunc calls newFunc only when absent")
			nd.Assert(nd.Implies(nd.And(hit, has), a == val), "LoadOrStoreFunc returns the present value")
			nd.Assert(nd.Implies(nd.And(hit, !has), a == v), "LoadOrStoreFunc returns the stored value")
			val = nd.Sel(nd.And(hit, !has), v, val)
			has = nd.Or(has, hit)
		case 4:
			a, l := m.LoadAndDelete(k)
			nd.Assert(nd.Implies(hit, l == has), "LoadAndDelete loaded")
			nd.Assert(nd.Implies(hit, a == nd.Sel(has, val, 0)), "LoadAndDelete value")
			has = nd.And(has, !hit)
		case 5:
			a, l := m.LoadAndStore(k, v)
			nd.Assert(nd.Implies(hit, l == has), "LoadAndStore loaded")
			nd.Assert(nd.Implies(hit, a == nd.Sel(has, val, 0)), "LoadAndStore returns the previous value")
			has, val = nd.Or(has, hit), nd.Sel(hit, v, val)
		case 6:
			r := m.Clear()
			nd.Assert(m.Len() == 0, "Clear")
			r.Store(k, v)
			has, val = hit, v
			same(r, m, "Clear")
		case 7:
			m.DeleteFunc(func(x, y int) bool { return x == k || y == v })
			has = nd.And(has, !hit, val != v)
		case 8:
			cut := nd.Fix(nd.Range("cut", 0, 2))
			calls := 0
			all := m.Range(func(int, int) bool { calls++; return calls <= cut })
			nd.Assert(all == (m.Len() <= cut), "Range result tells whether every call continued")
			nd.Assert(calls <= cut+1, "Range stops when the callback says so")
		case 9:
			c := m.Clone()
			probe(c, q, has, val)
			if nd.Case("del", 2) == 1 {
				c.Delete(k)
			} else {
				c.Store(k, v+1)
			}
		case 10:
			c := m.Clone()
			m.Store(k, v)
			probe(c, q, has, val)
			has, val = nd.Or(has, hit), nd.Sel(hit, v, val)
		}
		if has {
			nd.Cover("present")
		}
	}
	probe(m, q, has, val)
}

// same: r is the map m itself.
func same(r, m genmap.GenMap[int, int], what string) {
	nd.Assert(r.Len() == m.Len(), what+" returns the map")
	if m.Len() > 0 {
		k := r.Keys()[0]
		n := r.Len()
		v, ok := r.LoadAndDelete(k)
		nd.Assert(ok && m.Len() == n-1, what+" returns the map itself")
		m.Store(k, v)
		nd.Assert(r.Len() == n, what+" returns the map itself")
	}
}

// HGenmapLong: a map of many entries.
//
//gosym:check C13 split=2
//gosym:quick N=12
//gosym:thorough N=70
func HGenmapLong() {
	n := nd.Param("N")
	q := nd.Range("q", -1, n+1)
	v := nd.Int("v")
	k := nd.Range("k", -1, n+1)
	m := genmap.New[int, int]()
	for i := 0; i < n; i++ {
		m.Store(i, 100+i)
	}
	has, val := nd.And(q >= 0, q < n), 100+q
	kh := nd.And(k >= 0, k < n)
	switch nd.Case("op", 7) {
	case 0:
		m.Store(k, v)
		has, val = nd.Or(has, k == q), nd.Sel(k == q, v, val)
	case 1:
		m.Delete(k)
		has = nd.And(has, k != q)
	case 2:
		a, ok := m.LoadOrStore(k, v)
		nd.Assert(ok == kh && a == nd.Sel(kh, 100+k, v), "LoadOrStore")
		has, val = nd.Or(has, k == q), nd.Sel(nd.And(k == q, !kh), v, val)
	case 3:
		a, ok := m.LoadAndDelete(k)
		nd.Assert(ok == kh && nd.Implies(kh, a == 100+k), "LoadAndDelete")
		has = nd.And(has, k != q)
	case 4:
		m.DeleteFunc(func(x, y int) bool { return x > k })
		has = nd.And(has, q <= k)
	case 5:
		c := m.Clone()
		c.Store(k, v)
		probe(c, q, nd.Or(has, k == q), nd.Sel(k == q, v, val))
	case 6:
		c := m.Clone()
		eq := func(a, b int) bool { return a == b }
		nd.Assert(m.EqualFunc(c, eq) && c.EqualFunc(m, eq), "a clone is equal")
		c.Store(n-1, v)
		nd.Assert(m.EqualFunc(c, eq) == (v == 100+n-1), "EqualFunc sees every entry")
		nd.Assert(m.EqualFunc(c, func(a, b int) bool { return a <= b }) == (100+n-1 <= v), "EqualFunc compares its own value with the other's")
		c.Clear()
		nd.Assert(c.Len() == 0 && !m.EqualFunc(c, eq), "Clear")
	}
	probe(m, q, has, val)
}

// HGenmapCopy: the copy operations overwrite the destination with the source, and EqualFunc decides equality of maps.
//
//gosym:check C13 split=3
//gosym:quick MAXN=2
//gosym:thorough MAXN=3
func HGenmapCopy() {
	q := nd.Int("q")
	a, ah, av := start("a", q)
	b, bh, bv := start("b", q)
	uh, uv := nd.Or(ah, bh), nd.Sel(bh, bv, av)
	switch nd.Case("how", 5) {
	case 0:
		same(b.CopyTo(a), b, "CopyTo")
		probe(a, q, uh, uv)
		probe(b, q, bh, bv)
	case 1:
		same(a.CopyFrom(b), a, "CopyFrom")
		probe(a, q, uh, uv)
		probe(b, q, bh, bv)
	case 2:
		same(b.CopyToRaw(a), b, "CopyToRaw")
		probe(a, q, uh, uv)
		probe(b, q, bh, bv)
	case 3:
		same(a.CopyFromRaw(b), a, "CopyFromRaw")
		probe(a, q, uh, uv)
		probe(b, q, bh, bv)
	case 4:
		eq := a.EqualFunc(b, func(x, y int) bool { return x == y })
		nd.Assert(nd.Implies(eq, nd.And(ah == bh, nd.Implies(ah, av == bv))), "EqualFunc implies agreement on every key")
		if !eq && a.Len() == b.Len() {
			diff := false
			a.Range(func(k, v int) bool {
				w, ok := b.Load(k)
				diff = nd.Or(diff, !ok, w != v)
				return true
			})
			nd.Assert(diff, "EqualFunc false only when some key differs")
		}
		if eq {
			nd.Cover("equal")
		} else {
			nd.Cover("different")
		}
	}
}
