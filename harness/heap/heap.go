// Package heap drives github.com/zijiren233/gencontainer/heap.
package heap

import (
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

// h is a user-defined heap over keys with payloads.
type it struct {
	K  int8
	ID int
}
type h struct{ s []it }

func (x *h) Len() int           { return len(x.s) }
func (x *h) Less(i, j int) bool { return x.s[i].K < x.s[j].K }
func (x *h) Swap(i, j int)      { x.s[i], x.s[j] = x.s[j], x.s[i] }
func (x *h) Push(v it)          { x.s = append(x.s, v) }
func (x *h) Pop() it {
	n := len(x.s) - 1
	v := x.s[n]
	x.s = x.s[:n]
	return v
}

// valid: every element is no smaller than its parent.
func valid(s []it) bool {
	ok := true
	for i := 1; i < len(s); i++ {
		ok = nd.And(ok, s[(i-1)/2].K <= s[i].K)
	}
	return ok
}

func count(s []it, q it) int {
	c := 0
	for _, x := range s {
		c += nd.B2I(nd.And(x.K == q.K, x.ID == q.ID))
	}
	return c
}

func arb(max int, heaped bool) *h {
	n := nd.Case("n", max+1)
	x := &h{}
	for i := 0; i < n; i++ {
		x.s = append(x.s, it{nd.I8("k"), i})
	}
	if heaped {
		nd.Assume(valid(x.s))
	}
	return x
}

// HHeapStep: on any heap, Push, Pop, Remove and Fix keep the heap order and exactly the other elements, Pop returns a minimum and Remove the element at its index.
//
//gosym:check C10 split=2
//gosym:quick MAXN=8
//gosym:thorough MAXN=12
func HHeapStep() {
	x := arb(nd.Param("MAXN"), true)
	n := len(x.s)
	old := append([]it(nil), x.s...)
	q := it{nd.I8("qk"), nd.Int("qid")}
	c := count(old, q)
	switch nd.Case("op", 4) {
	case 0:
		v := it{nd.I8("v"), n}
		heap.Push[it](x, v)
		nd.Assert(x.Len() == n+1, "Push adds one element")
		c += nd.B2I(nd.And(v.K == q.K, v.ID == q.ID))
	case 1:
		if n == 0 {
			return
		}
		v := heap.Pop[it](x)
		nd.Assert(x.Len() == n-1, "Pop removes one element")
		for _, o := range old {
			nd.Assert(v.K <= o.K, "Pop returns a minimum")
		}
		c -= nd.B2I(nd.And(v.K == q.K, v.ID == q.ID))
	case 2:
		if n == 0 {
			return
		}
		i := nd.Pick("i", n)
		v := heap.Remove[it](x, i)
		nd.Assert(v == old[i], "Remove returns the element at its index")
		nd.Assert(x.Len() == n-1, "Remove removes one element")
		c -= nd.B2I(nd.And(v.K == q.K, v.ID == q.ID))
	case 3:
		if n == 0 {
			return
		}
		i := nd.Pick("i", n)
		c -= nd.B2I(nd.And(x.s[i].K == q.K, x.s[i].ID == q.ID))
		x.s[i].K = nd.I8("new")
		c += nd.B2I(nd.And(x.s[i].K == q.K, x.s[i].ID == q.ID))
		heap.Fix[it](x, i)
		nd.Assert(x.Len() == n, "Fix keeps the length")
	}
	nd.Assert(valid(x.s), "heap order is kept")
	nd.Assert(count(x.s, q) == c, "the other elements are kept")
}

// HHeapInit: Init turns any contents into a heap with the same elements.
//
//gosym:check C10 split=1
//gosym:quick MAXN=6
//gosym:thorough MAXN=7
func HHeapInit() {
	x := arb(nd.Param("MAXN"), false)
	n := len(x.s)
	q := it{nd.I8("qk"), nd.Int("qid")}
	c := count(x.s, q)
	heap.Init[it](x)
	nd.Assert(x.Len() == n, "Init keeps the length")
	nd.Assert(valid(x.s), "Init establishes the heap order")
	nd.Assert(count(x.s, q) == c, "Init keeps the elements")
}

// HHeapSorts: MinHeap yields its elements ascending and MaxHeap descending, whatever the order of Push, Init and Pop.
//
//gosym:check C10 split=3
//gosym:quick N=5
//gosym:thorough N=6
func HHeapSorts() {
	mx := nd.Case("max", 2) == 1
	init := nd.Case("init", 2) == 1
	n := 3 + nd.Case("n", nd.Param("N")-2) // three full-range keys, or more of eight bits (enough for every relative order)
	var mi heap.MinHeap[int]
	var ma heap.MaxHeap[int]
	q := nd.Int("q")
	c := 0
	for i := 0; i < n; i++ {
		v := int(nd.I8("v"))
		if n <= 3 {
			v = nd.Int("v64")
		}
		c += nd.B2I(v == q)
		switch {
		case init && mx:
			ma = append(ma, v)
		case init:
			mi = append(mi, v)
		case mx:
			heap.Push[int](&ma, v)
		default:
			heap.Push[int](&mi, v)
		}
	}
	if init {
		heap.Init[int](&ma)
		heap.Init[int](&mi)
	}
	prev := 0
	for i := 0; i < n; i++ {
		var v int
		if mx {
			nd.Assert(ma.Len() == n-i, "MaxHeap length")
			v = heap.Pop[int](&ma)
			nd.Assert(i == 0 || v <= prev, "MaxHeap pops descending")
		} else {
			nd.Assert(mi.Len() == n-i, "MinHeap length")
			v = heap.Pop[int](&mi)
			nd.Assert(i == 0 || prev <= v, "MinHeap pops ascending")
		}
		c -= nd.B2I(v == q)
		prev = v
	}
	nd.Assert(c == 0, "every element is popped exactly once")
}

// HHeapLong: the same on heaps of many elements, with a symbolic key at a symbolic place.
//
//gosym:check C10 split=3
//gosym:quick
//gosym:thorough
func HHeapLong() {
	n := []int{15, 33, 64}[nd.Case("len", 3)]
	pat := nd.Case("pattern", 2)
	op := nd.Case("op", 5)
	x := &h{}
	for i := 0; i < n; i++ {
		k := i
		if pat == 1 { // the right subtree of the root far below the left one
			k = 40
			for j := i; j > 0; j = (j - 1) / 2 {
				if j == 2 {
					k = 1
				}
			}
			if i == 0 {
				k = 0
			}
			k += i / 8
		}
		x.s = append(x.s, it{int8(k), i})
	}
	old := append([]it(nil), x.s...)
	q := it{nd.I8("qk"), nd.Range("qid", 0, n)}
	c := count(old, q)
	i := 0
	if op == 2 || op == 3 {
		i = nd.Pick("i", n)
	}
	switch op {
	case 0:
		v := it{nd.I8("v"), n}
		heap.Push[it](x, v)
		c += nd.B2I(nd.And(v.K == q.K, v.ID == q.ID))
	case 1:
		v := heap.Pop[it](x)
		nd.Assert(v.K == old[0].K, "Pop returns a minimum")
		c -= nd.B2I(nd.And(v.K == q.K, v.ID == q.ID))
	case 2:
		v := heap.Remove[it](x, i)
		nd.Assert(v == old[i], "Remove returns the element at its index")
		c -= nd.B2I(nd.And(v.K == q.K, v.ID == q.ID))
	case 3:
		c -= nd.B2I(nd.And(x.s[i].K == q.K, x.s[i].ID == q.ID))
		x.s[i].K = nd.I8("new")
		c += nd.B2I(nd.And(x.s[i].K == q.K, x.s[i].ID == q.ID))
		heap.Fix[it](x, i)
	case 4: // Init of any rotation, with one symbolic key
		r := []int{1, n / 2, n - 1}[nd.Pick("rot", 3)]
		x.s = append(append([]it(nil), old[r:]...), old[:r]...)
		i := []int{0, n / 2, n - 1}[nd.Pick("at", 3)]
		x.s[i].K = nd.I8("new")
		c = count(x.s, q)
		heap.Init[it](x)
	}
	nd.Assert(x.Len() == n+nd.B2I(op == 0)-nd.B2I(op == 1 || op == 2), "the length")
	nd.Assert(valid(x.s), "heap order is kept")
	nd.Assert(count(x.s, q) == c, "the other elements are kept")
}
