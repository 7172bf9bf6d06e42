// Package lhashmap drives github.com/zijiren233/gencontainer/lhashmap.
package lhashmap

import (
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

type pair struct{ k, v int }

type world struct {
	m *lhashmap.Lhashmap[int, int]
	w []pair // most recently used first
}

func (x *world) find(k int) int {
	for i, p := range x.w {
		if p.k == k {
			return i
		}
	}
	return -1
}

func (x *world) drop(i int) {
	var r []pair
	r = append(r, x.w[:i]...)
	x.w = append(r, x.w[i+1:]...)
}

func (x *world) front(p pair) { x.w = append([]pair{p}, x.w...) }

func (x *world) check() {
	nd.Assert(x.m.Len() == len(x.w), "Len is the number of keys")
	i := 0
	x.m.Range(func(k, v int) bool {
		nd.Assert(i < len(x.w), "Range visits each key once")
		nd.Assert(k == x.w[i].k, "Range goes from the most to the least recently used key")
		nd.Assert(v == x.w[i].v, "Range shows the latest value")
		i++
		return true
	})
	nd.Assert(i == len(x.w), "Range visits every key")
}

// HLhashmap: every history of Store, Load, Remove, Clear and Range behaves as a map whose iteration order is most recently used first.
//
//gosym:check C14 split=3
//gosym:quick OPS=4
//gosym:thorough OPS=5
func HLhashmap() {
	x := &world{}
	if nd.Case("cap", 2) == 1 {
		x.m = lhashmap.New(lhashmap.WithCap[int, int](4))
	} else {
		x.m = lhashmap.New[int, int]()
	}
	for i := 0; i < nd.Param("OPS"); i++ {
		op := nd.Case("op", 5)
		if op == 3 {
			x.m.Clear()
			x.w = nil
			continue
		}
		if op == 4 {
			calls := 0
			x.m.Range(func(int, int) bool { calls++; return false })
			nd.Assert(calls == min(1, len(x.w)), "Range stops when told to")
			continue
		}
		k := nd.Int("k")
		j := x.find(k)
		switch op {
		case 0:
			v := nd.Int("v")
			x.m.Store(k, v)
			if j >= 0 {
				x.drop(j)
			}
			x.front(pair{k, v})
		case 1:
			v, ok := x.m.Load(k)
			nd.Assert(ok == (j >= 0), "Load finds exactly the stored keys")
			if j >= 0 {
				p := x.w[j]
				nd.Assert(v == p.v, "Load returns the latest value")
				x.drop(j)
				x.front(p)
				nd.Cover("hit")
			} else {
				nd.Assert(v == 0, "Load of a missing key")
			}
		case 2:
			x.m.Remove(k)
			if j >= 0 {
				x.drop(j)
				nd.Cover("removed")
			}
		}
	}
	x.check()
	// every remaining key is found, and the others are not
	q := nd.Int("q")
	j := x.find(q)
	v, ok := x.m.Load(q)
	nd.Assert(ok == (j >= 0), "Load finds exactly the stored keys")
	if ok {
		nd.Assert(v == x.w[j].v, "Load returns the latest value")
	}
}

// HLhashmapStr: keys are compared by content.
//
//gosym:check C14
//gosym:quick LEN=2
//gosym:thorough LEN=3
func HLhashmapStr() {
	m := lhashmap.New[string, int]()
	a := nd.Str("a", nd.Case("la", nd.Param("LEN")+1))
	b := nd.Str("b", nd.Case("lb", nd.Param("LEN")+1))
	m.Store(a, 1)
	m.Store(b, 2)
	v, ok := m.Load(a)
	nd.Assert(ok, "present")
	if a == b {
		nd.Assert(v == 2 && m.Len() == 1, "same key")
	} else {
		nd.Assert(v == 1 && m.Len() == 2, "different keys")
	}
	m.Remove(b)
	_, ok = m.Load(a)
	nd.Assert(ok == (a != b), "Remove removes that key only")
}

// HLhashmapLong: the same for a map of many keys, with two operations on symbolic keys.
//
//gosym:check C14 split=3
//gosym:quick N=16
//gosym:thorough N=40
func HLhashmapLong() {
	n := nd.Param("N")
	x := &world{m: lhashmap.New[int, int]()}
	for i := 0; i < n; i++ {
		x.m.Store(i, 100+i)
		x.front(pair{i, 100 + i})
	}
	for i := 0; i < 2; i++ {
		op := nd.Case("op", 4)
		k := nd.Range("k", -1, n)
		if i == 1 {
			k = []int{0, n / 2, n - 1}[nd.Case("k2", 3)]
		}
		j := x.find(k)
		switch op {
		case 0:
			v := nd.Int("v")
			x.m.Store(k, v)
			if j >= 0 {
				x.drop(j)
			}
			x.front(pair{k, v})
		case 1:
			v, ok := x.m.Load(k)
			nd.Assert(ok == (j >= 0), "Load finds exactly the stored keys")
			if j >= 0 {
				p := x.w[j]
				nd.Assert(v == p.v, "Load returns the latest value")
				x.drop(j)
				x.front(p)
			}
		case 2:
			x.m.Remove(k)
			if j >= 0 {
				x.drop(j)
			}
		case 3:
			x.m.Clear()
			x.w = nil
		}
	}
	x.check()
}
