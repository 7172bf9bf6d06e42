// Package dllist drives github.com/zijiren233/gencontainer/dllist.
package dllist

import (
	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

type elem = *dllist.Element[int]

// world is a list under test, its model, a second list, and handles of removed elements.
type world struct {
	l     *dllist.Dllist[int]
	order []elem // the model: handles in list order
	val   map[elem]int
	o     *dllist.Dllist[int]
	oh    []elem
	dead  []elem
}

func at(w *world, i int) int {
	return w.val[w.order[i]]
}

func start(max int) *world {
	w := &world{val: map[elem]int{}}
	if nd.Case("zero", 2) == 1 {
		w.l = &dllist.Dllist[int]{} // the zero value is an empty list
	} else {
		w.l = dllist.New[int]()
	}
	n := nd.Case("n", max+1)
	for i := 0; i < n; i++ {
		v := nd.Int("v")
		e := w.l.PushBack(v)
		w.order = append(w.order, e)
		w.val[e] = v
	}
	w.o = dllist.New[int]()
	x := nd.Int("ov")
	f := w.o.PushBack(x)
	w.val[f] = x
	w.oh = []elem{f}
	y := nd.Int("dv")
	d := w.o.PushBack(y)
	w.o.Remove(d)
	w.val[d] = y
	w.dead = []elem{d}
	return w
}

// listIs checks a list against the expected handles in both directions.
func listIs(l *dllist.Dllist[int], want []elem, val map[elem]int, what string) {
	n := len(want)
	nd.Assert(l.Len() == n, what+": Len")
	e := l.Front()
	for i := 0; i < n; i++ {
		nd.Assert(e == want[i], what+": forward order")
		nd.Assert(e.Value == val[want[i]], what+": value")
		nd.Assert(l.Get(i) == want[i], what+": Get")
		e = e.Next()
	}
	nd.Assert(e == nil, what+": forward end")
	e = l.Back()
	for i := n - 1; i >= 0; i-- {
		nd.Assert(e == want[i], what+": backward order")
		e = e.Prev()
	}
	nd.Assert(e == nil, what+": backward end")
	nd.Assert(l.Get(-1) == nil && l.Get(n) == nil, what+": Get out of range")
	s := l.Slice()
	nd.Assert(len(s) == n, what+": Slice length")
	k := 0
	all := l.Range(func(e elem) bool {
		nd.Assert(k < n && e == want[k], what+": Range")
		nd.Assert(s[k] == e.Value, what+": Slice")
		k++
		return true
	})
	nd.Assert(all && k == n, what+": Range visits everything")
}

func (w *world) check(what string) {
	listIs(w.l, w.order, w.val, what)
	listIs(w.o, w.oh, w.val, what+": other list")
	for _, d := range w.dead {
		nd.Assert(d.Next() == nil && d.Prev() == nil, what+": a removed element has no neighbours")
		nd.Assert(d.Value == w.val[d], what+": a removed element keeps its value")
	}
}

func (w *world) ins(i int, e elem, v int) {
	var r []elem
	r = append(r, w.order[:i]...)
	r = append(r, e)
	w.order = append(r, w.order[i:]...)
	w.val[e] = v
}

func (w *world) del(i int) elem {
	var r []elem
	e := w.order[i]
	r = append(r, w.order[:i]...)
	w.order = append(r, w.order[i+1:]...)
	return e
}

// pick chooses an element: one of the list (its position is returned), a foreign one or a removed one (-1).
func (w *world) pick(name string) (elem, int) {
	n := len(w.order)
	i := 0
	if n > 12 { // long lists: the ends and the middle
		i = []int{0, 1, n / 2, n/2 + 1, n - 2, n - 1, n, n + 1}[nd.Pick(name, 8)]
	} else {
		i = nd.Pick(name, n+2)
	}
	switch {
	case i < n:
		return w.order[i], i
	case i == n:
		return w.oh[0], -1
	}
	return w.dead[len(w.dead)-1], -1
}

func (w *world) step() {
	l := w.l
	n := len(w.order)
	switch nd.Case("op", 16) {
	case 0:
		v := nd.Int("x")
		e := l.PushFront(v)
		nd.Assert(e != nil && e.Value == v, "PushFront returns the new element")
		w.ins(0, e, v)
	case 1:
		v := nd.Int("x")
		e := l.PushBack(v)
		nd.Assert(e != nil && e.Value == v, "PushBack returns the new element")
		w.ins(n, e, v)
	case 2:
		e, i := w.pick("e")
		nd.Assert(l.Remove(e) == w.val[e], "Remove returns the value")
		if i >= 0 {
			w.dead = append(w.dead, w.del(i))
		}
	case 3:
		e, i := w.pick("e")
		foreign := i < 0 && e == w.oh[0]
		if foreign { // Element.Remove acts on the element's own list
			return
		}
		nd.Assert(e.Remove() == w.val[e], "Element.Remove returns the value")
		if i >= 0 {
			w.dead = append(w.dead, w.del(i))
		}
	case 4:
		m, i := w.pick("m")
		v := nd.Int("x")
		e := l.InsertBefore(v, m)
		nd.Assert((e != nil) == (i >= 0), "InsertBefore accepts marks of the list only")
		if i >= 0 {
			w.ins(i, e, v)
		}
	case 5:
		m, i := w.pick("m")
		v := nd.Int("x")
		e := l.InsertAfter(v, m)
		nd.Assert((e != nil) == (i >= 0), "InsertAfter accepts marks of the list only")
		if i >= 0 {
			w.ins(i+1, e, v)
		}
	case 6:
		m, i := w.pick("m")
		if i < 0 && m == w.oh[0] {
			return
		}
		v := nd.Int("x")
		if nd.Case("dir", 2) == 0 {
			e := m.InsertBefore(v)
			nd.Assert((e != nil) == (i >= 0), "Element.InsertBefore of a removed element does nothing")
			if i >= 0 {
				w.ins(i, e, v)
			}
		} else {
			e := m.InsertAfter(v)
			nd.Assert((e != nil) == (i >= 0), "Element.InsertAfter of a removed element does nothing")
			if i >= 0 {
				w.ins(i+1, e, v)
			}
		}
	case 7:
		e, i := w.pick("e")
		l.MoveToFront(e)
		if i >= 0 {
			w.ins(0, w.del(i), w.val[e])
		}
	case 8:
		e, i := w.pick("e")
		l.MoveToBack(e)
		if i >= 0 {
			w.del(i)
			w.ins(n-1, e, w.val[e])
		}
	case 9, 10:
		before := nd.Case("before", 2) == 0
		e, i := w.pick("e")
		m, j := w.pick("m")
		if before {
			l.MoveBefore(e, m)
		} else {
			l.MoveAfter(e, m)
		}
		if i >= 0 && j >= 0 && i != j {
			w.del(i)
			for k, x := range w.order {
				if x == m {
					j = k
				}
			}
			if !before {
				j++
			}
			w.ins(j, e, w.val[e])
		}
	case 11:
		a, i := w.pick("a")
		b, j := w.pick("b")
		l.Swap(a, b)
		if i >= 0 && j >= 0 {
			w.order[i], w.order[j] = b, a
		}
	case 12:
		nd.Assert(l.Clear() == l, "Clear returns the list")
		w.dead = append(w.dead, w.order...)
		w.order = nil
	case 13:
		cut, calls := nd.Case("cut", 2), 0
		all := l.Range(func(elem) bool { calls++; return calls <= cut })
		nd.Assert(all == (n <= cut), "Range reports whether it visited everything")
		nd.Assert(calls == min(n, cut+1), "Range stops exactly when told to")
	case 14: // from an element to the end
		e, i := w.pick("e")
		if i < 0 {
			i = n - 1 // a removed element, or the only one of its list, is followed by nothing
		}
		cut, k := nd.Case("cut", 3), 0
		e.Range(func(x elem) bool {
			nd.Assert(k == 0 && x == e || k > 0 && i+k < n && x == w.order[i+k], "Element.Range visits the element and those after it")
			k++
			return k <= cut
		})
		nd.Assert(k == min(n-i, cut+1), "Element.Range stops at the end or when told to")
	case 15: // Sort keeps the values; handles that are not in the list any more are inert
		if n > 4 {
			return
		}
		l.Sort(func(a, b int) bool { return a < b })
		old := w.order
		w.order = nil
		for e := l.Front(); e != nil && len(w.order) <= n; e = e.Next() {
			w.order = append(w.order, e)
			w.val[e] = e.Value
			nd.Assert(len(w.order) == 1 || w.val[w.order[len(w.order)-2]] <= e.Value, "Sort orders the values")
		}
		nd.Assert(len(w.order) == n, "Sort keeps the length")
		for _, o := range old {
			in := false
			for _, e := range w.order {
				in = in || e == o
			}
			if !in {
				w.dead = append(w.dead, o)
			}
		}
	}
}

// HDllistSeq: every sequence of operations acts as on an abstract sequence of elements, in both directions, and foreign or removed elements are never touched.
//
//gosym:check C06 split=4
//gosym:quick MAXN=2 OPS=2
//gosym:thorough MAXN=3 OPS=3
func HDllistSeq() {
	w := start(nd.Param("MAXN"))
	for i := 0; i < nd.Param("OPS"); i++ {
		w.step()
	}
	w.check("after")
}

// HDllistStep: one operation on longer lists.
//
//gosym:check C06 split=3
//gosym:quick MAXN=4
//gosym:thorough MAXN=6
func HDllistStep() {
	w := start(nd.Param("MAXN"))
	w.check("before")
	w.step()
	w.check("after")
}

// HDllistLong: the same on lists of many elements.
//
//gosym:check C06 split=4
//gosym:quick OPS=1
//gosym:thorough OPS=2
func HDllistLong() {
	n := []int{13, 34, 70}[nd.Case("len", 3)]
	w := start(0)
	for i := 0; i < n; i++ {
		v := nd.Int("v")
		e := w.l.PushBack(v)
		w.order = append(w.order, e)
		w.val[e] = v
	}
	for i := 0; i < nd.Param("OPS"); i++ {
		w.step()
	}
	w.check("after")
}

type kv struct{ K, ID int }

// HDllistSort: Sort leaves a stable ascending permutation of the values under any strict weak order.
//
//gosym:check C07 split=2
//gosym:quick MAXN=4
//gosym:thorough MAXN=6
func HDllistSort() {
	l := dllist.New[kv]()
	n := nd.Case("n", nd.Param("MAXN")+1)
	var keys []int
	for i := 0; i < n; i++ {
		k := nd.Int("k")
		keys = append(keys, k)
		l.PushBack(kv{k, i})
	}
	desc := nd.Case("desc", 2) == 1
	l.Sort(func(a, b kv) bool {
		if desc {
			return a.K > b.K
		}
		return a.K < b.K
	})
	nd.Assert(l.Len() == n, "Sort keeps the length")
	s := l.Slice()
	seen := make([]bool, n)
	nd.Assert(len(s) == n, "Slice length")
	for i, e := range s {
		nd.Assert(e.ID >= 0 && e.ID < n && !seen[e.ID], "Sort keeps each element once")
		seen[e.ID] = true
		nd.Assert(e.K == keys[e.ID], "Sort keeps the values")
		if i > 0 {
			p := s[i-1]
			if desc {
				nd.Assert(p.K >= e.K, "descending order")
			} else {
				nd.Assert(p.K <= e.K, "ascending order")
			}
			nd.Assert(nd.Implies(p.K == e.K, p.ID < e.ID), "Sort is stable")
		}
	}
	// the list is intact backwards too
	e := l.Back()
	for i := n - 1; i >= 0; i-- {
		nd.Assert(e != nil && e.Value == s[i], "backward traversal after Sort")
		e = e.Prev()
	}
	nd.Assert(e == nil, "backward end after Sort")
	e2 := l.PushBack(kv{0, n})
	nd.Assert(l.Back() == e2 && l.Len() == n+1, "the list is usable after Sort")
}

// HDllistSortLong: the same on longer lists with some keys symbolic.
//
//gosym:check C07 split=2
//gosym:quick N=12 SYM=3
//gosym:thorough N=20 SYM=4
func HDllistSortLong() {
	l := dllist.New[kv]()
	pat := nd.Case("pattern", 3)
	n := nd.Param("N")
	var keys []int
	for i := 0; i < n; i++ {
		k := (i * 5) % 7
		if pat == 1 {
			k = n - i
		} else if pat == 2 {
			k = 1
		}
		if i%(n/nd.Param("SYM")) == 1 {
			k = nd.Range("k", 0, 8)
		}
		keys = append(keys, k)
		l.PushBack(kv{k, i})
	}
	l.Sort(func(a, b kv) bool { return a.K < b.K })
	s := l.Slice()
	nd.Assert(len(s) == n && l.Len() == n, "Sort keeps the length")
	seen := make([]bool, n)
	for i, e := range s {
		nd.Assert(!seen[e.ID] && e.K == keys[e.ID], "Sort keeps each element once")
		seen[e.ID] = true
		if i > 0 {
			nd.Assert(s[i-1].K <= e.K, "ascending order")
			nd.Assert(nd.Implies(s[i-1].K == e.K, s[i-1].ID < e.ID), "Sort is stable")
		}
	}
}

// HDllistBulk: PushBackList and PushFrontList insert copies of every value in order at the end or front, also when pushing a list onto itself; the ListTo variants insert right after the mark (PushFrontListTo in order) and ignore foreign marks.
//
//gosym:check C08 split=4
//gosym:quick MAXN=3
//gosym:thorough MAXN=5
func HDllistBulk() {
	var l *dllist.Dllist[int]
	if nd.Case("zero", 2) == 1 {
		l = &dllist.Dllist[int]{}
	} else {
		l = dllist.New[int]()
	}
	n := nd.Case("n", nd.Param("MAXN")+1)
	var w, z []int
	var hs []elem
	for i := 0; i < n; i++ {
		x := nd.Int("x")
		w = append(w, x)
		hs = append(hs, l.PushBack(x))
	}
	o := l
	z = w
	if nd.Case("self", 2) == 0 {
		o = dllist.New[int]()
		z = nil
		for i, k := 0, nd.Case("k", nd.Param("MAXN")+1); i < k; i++ {
			y := nd.Int("y")
			z = append(z, y)
			o.PushBack(y)
		}
	}
	pos, rev := 0, false
	src := z
	switch nd.Case("op", 5) {
	case 0:
		l.PushBackList(o)
		pos = n
	case 1:
		l.PushFrontList(o)
	case 2, 3:
		if n == 0 {
			return
		}
		i := nd.Pick("mark", n)
		pos = i + 1
		if nd.Case("front", 2) == 0 {
			l.PushFrontListTo(o, hs[i])
		} else {
			l.PushBackListTo(o, hs[i])
			rev = true
		}
	case 4:
		f := dllist.New[int]().PushBack(7)
		if nd.Case("front", 2) == 0 {
			l.PushFrontListTo(o, f)
		} else {
			l.PushBackListTo(o, f)
		}
		z = nil
		nd.Assert(f.Next() == nil && f.Prev() == nil, "a foreign mark is left alone")
	}
	var want []int
	want = append(want, w[:pos]...)
	want = append(want, z...)
	want = append(want, w[pos:]...)
	s := l.Slice()
	nd.Assert(l.Len() == len(want) && len(s) == len(want), "every value is inserted once")
	for i := range want {
		if rev && i >= pos && i < pos+len(z) {
			continue
		}
		nd.Assert(s[i] == want[i], "values in order at the right place")
	}
	if rev { // PushBackListTo puts one value after the other directly behind the mark
		for i := range z {
			nd.Assert(s[pos+i] == z[len(z)-1-i], "every value of the list is inserted directly behind the mark in turn")
		}
	}
	k := len(want)
	for e := l.Back(); e != nil; e = e.Prev() {
		k--
		nd.Assert(k >= 0 && e.Value == s[k], "backward order")
	}
	nd.Assert(k == 0, "backward count")
	if o != l {
		zs := o.Slice()
		nd.Assert(o.Len() == len(src) && len(zs) == len(src), "the source list keeps its length")
		for i := range src {
			nd.Assert(zs[i] == src[i], "the source list keeps its values")
		}
	}
	for i, h := range hs {
		nd.Assert(h.Value == w[i], "existing elements keep their values")
	}
}
