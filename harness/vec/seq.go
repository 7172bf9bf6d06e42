// Package vec drives github.com/zijiren233/gencontainer/vec.
package vec

import (
	"github.com/zijiren233/gencontainer/vec"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

func less(a, b int) bool  { return a < b }
func equal(a, b int) bool { return a == b }

// mk builds a Vec of at most max symbolic elements, with or without spare capacity, and its model.
func mk(tag string, max int) (*vec.Vec[int], []int) {
	v := vec.New(vec.WithCmpLess(less), vec.WithCmpEqual(equal))
	n := nd.Case(tag+"n", max+1)
	var w []int
	for i := 0; i < n; i++ {
		x := nd.Int(tag + "x")
		w = append(w, x)
	}
	if nd.Case(tag+"slack", 2) == 1 {
		v.Grow(n + 3)
	}
	v.Push(w...)
	return v, append([]int(nil), w...)
}

// same checks every observer of v against the model.
func same(v *vec.Vec[int], w []int, what string) {
	n := len(w)
	nd.Assert(v.Len() == n, what+": Len")
	nd.Assert(v.IsEmpty() == (n == 0), what+": IsEmpty")
	for i, x := range w {
		e, ok := v.Get(i)
		nd.Assert(ok && e == x, what+": Get")
	}
	s := v.Slice()
	nd.Assert(len(s) == n, what+": Slice length")
	k := 0
	v.Range(func(i int, e int) bool {
		nd.Assert(i == k && e == w[k], what+": Range")
		nd.Assert(s[k] == e, what+": Slice")
		k++
		return true
	})
	nd.Assert(k == n, what+": Range count")
	f, fok := v.First()
	l, lok := v.Last()
	nd.Assert(fok == (n > 0) && lok == (n > 0), what+": First/Last presence")
	if n > 0 {
		nd.Assert(f == w[0] && l == w[n-1], what+": First/Last")
	} else {
		nd.Assert(f == 0 && l == 0, what+": First/Last zero")
	}
	nd.Assert(v.Cap() >= n, what+": Cap")
}

func insertAt(w []int, i int, xs ...int) []int {
	var r []int
	r = append(r, w[:i]...)
	r = append(r, xs...)
	return append(r, w[i:]...)
}

func cutAt(w []int, i, j int) []int {
	var r []int
	r = append(r, w[:i]...)
	return append(r, w[j:]...)
}

// step performs one arbitrary operation on v and on the model.
func step(v *vec.Vec[int], w []int) []int {
	n := len(w)
	switch nd.Case("op", 15) {
	case 0: // Push of 0..2 elements
		k := nd.Case("k", 3)
		var xs []int
		for i := 0; i < k; i++ {
			xs = append(xs, nd.Int("x"))
		}
		nd.Assert(v.Push(xs...) == v, "Push returns the vector")
		return insertAt(w, n, xs...)
	case 1:
		e, ok := v.Pop()
		nd.Assert(ok == (n > 0), "Pop ok")
		if n == 0 {
			nd.Assert(e == 0, "Pop of an empty vector")
			return w
		}
		nd.Assert(e == w[n-1], "Pop returns the last element")
		return cutAt(w, n-1, n)
	case 2:
		i := nd.Int("i")
		e, ok := v.Remove(i)
		in := i >= 0 && i < n
		nd.Assert(ok == in, "Remove ok")
		if !in {
			nd.Assert(e == 0, "Remove out of range")
			return w
		}
		nd.Assert(e == w[i], "Remove returns the element")
		return cutAt(w, i, i+1)
	case 3:
		i, x := nd.Int("i"), nd.Int("x")
		ok := v.Set(i, x)
		in := i >= 0 && i < n
		nd.Assert(ok == in, "Set ok")
		if in {
			w[nd.Fix(i)] = x
		}
		return w
	case 4:
		i := nd.Int("i")
		e, ok := v.Get(i)
		in := i >= 0 && i < n
		nd.Assert(ok == in, "Get ok")
		if in {
			nd.Assert(e == w[i], "Get value")
		} else {
			nd.Assert(e == 0, "Get out of range")
		}
		return w
	case 5:
		i, j := nd.Int("i"), nd.Int("j")
		v.Swap(i, j)
		if i >= 0 && i < n && j >= 0 && j < n {
			w[i], w[j] = w[j], w[i]
		}
		return w
	case 6:
		i, x := nd.Int("i"), nd.Int("x")
		e, ok := v.ConpareAndRemove(i, x)
		if i >= 0 && i < n && w[i] == x {
			nd.Assert(ok && e == x, "ConpareAndRemove of a match")
			return cutAt(w, nd.Fix(i), nd.Fix(i)+1)
		}
		nd.Assert(!ok && e == 0, "ConpareAndRemove without match")
		return w
	case 7:
		i, j := nd.Int("i"), nd.Int("j")
		got := v.Cut(i, j)
		if i < 0 || j > n || i > j {
			nd.Assert(len(got) == 0, "Cut out of range")
			return w
		}
		i, j = nd.Fix(i), nd.Fix(j)
		nd.Assert(len(got) == j-i, "Cut returns the removed elements: length")
		for k := i; k < j; k++ {
			nd.Assert(got[k-i] == w[k], "Cut returns the removed elements")
		}
		return cutAt(w, i, j)
	case 8:
		i := nd.Int("i")
		o := v.SplitOff(i)
		if i < 0 || i > n {
			nd.Assert(o.Len() == 0, "SplitOff out of range")
			return w
		}
		i = nd.Fix(i)
		same(o, append([]int(nil), w[i:]...), "SplitOff tail")
		return cutAt(w, i, n)
	case 9:
		i, k := nd.Int("i"), nd.Case("k", 3)
		var xs []int
		for q := 0; q < k; q++ {
			xs = append(xs, nd.Int("x"))
		}
		p := nd.Panics(func() { v.Insert(i, xs...) })
		bad := i < 0 || i > n
		// inserting nothing may be accepted at any index: there is nothing to place
		nd.Assert(p == bad || bad && k == 0, "Insert panics exactly when out of range")
		if bad {
			return w
		}
		return insertAt(w, nd.Fix(i), xs...)
	case 10:
		i, j := nd.Int("i"), nd.Int("j")
		p := nd.Panics(func() { v.Delete(i, j) })
		bad := i < 0 || j > n || i > j
		nd.Assert(p == bad, "Delete panics exactly when out of range")
		if bad {
			return w
		}
		return cutAt(w, nd.Fix(i), nd.Fix(j))
	case 11:
		i, j, k := nd.Int("i"), nd.Int("j"), nd.Case("k", 3)
		var xs []int
		for q := 0; q < k; q++ {
			xs = append(xs, nd.Int("x"))
		}
		p := nd.Panics(func() { v.Replace(i, j, xs...) })
		bad := i < 0 || j > n || i > j
		nd.Assert(p == bad || bad && k == 0 && i == j, "Replace panics exactly when out of range")
		if bad {
			return w
		}
		i, j = nd.Fix(i), nd.Fix(j)
		return insertAt(cutAt(w, i, j), i, xs...)
	case 12:
		v.Reverse()
		var r []int
		for i := n - 1; i >= 0; i-- {
			r = append(r, w[i])
		}
		return r
	case 13:
		v.Clear()
		return nil
	case 14:
		switch nd.Case("cap", 2) {
		case 0:
			k := nd.Case("k", 4)
			v.Grow(k)
			nd.Assert(v.Cap()-v.Len() >= k, "Grow makes room for n more elements")
		case 1:
			v.Clip()
			nd.Assert(v.Cap() == v.Len(), "Clip leaves no unused capacity")
		}
		return w
	}
	return w
}

// HVecSeq: every sequence of operations, from any contents, acts as on an abstract sequence, and out-of-range arguments change nothing.
//
//gosym:check C01 split=3
//gosym:quick MAXN=1 OPS=2
//gosym:thorough MAXN=2 OPS=2
func HVecSeq() {
	v, w := mk("", nd.Param("MAXN"))
	for i := 0; i < nd.Param("OPS"); i++ {
		w = step(v, w)
	}
	same(v, w, "after")
}

// HVecStep: one operation on larger contents.
//
//gosym:check C01 split=3
//gosym:quick MAXN=4
//gosym:thorough MAXN=6
func HVecStep() {
	v, w := mk("", nd.Param("MAXN"))
	w = step(v, w)
	same(v, w, "after")
}

// HVecSelf: arguments taken from the vector's own storage are read as they were before the call.
//
//gosym:check C01 split=4
//gosym:quick MAXN=3
//gosym:thorough MAXN=4
func HVecSelf() {
	v, w := mk("", nd.Param("MAXN"))
	n := len(w)
	a := nd.Case("a", n+1)
	b := a + nd.Case("b", n-a+1)
	arg := v.SliceCut(a, b)
	nd.Assert(len(arg) == b-a, "SliceCut length")
	for i := range arg {
		nd.Assert(arg[i] == w[a+i], "SliceCut element")
	}
	xs := append([]int(nil), w[a:b]...)
	i := nd.Case("i", n+1)
	switch nd.Case("op", 3) {
	case 0:
		v.Push(arg...)
		w = insertAt(w, n, xs...)
	case 1:
		v.Insert(i, arg...)
		w = insertAt(w, i, xs...)
	case 2:
		j := i + nd.Case("j", n-i+1)
		v.Replace(i, j, arg...)
		w = insertAt(cutAt(w, i, j), i, xs...)
	}
	same(v, w, "after")
}

// HVecView: SliceCut is nil exactly when the interval is not inside the vector, and Range stops when told to.
//
//gosym:check C01 split=2
//gosym:quick MAXN=3
//gosym:thorough MAXN=5
func HVecView() {
	v, w := mk("", nd.Param("MAXN"))
	i, j := nd.Int("i"), nd.Int("j")
	s := v.SliceCut(i, j)
	if i < 0 || j > len(w) || i > j {
		nd.Assert(s == nil, "SliceCut out of range")
	} else {
		i, j = nd.Fix(i), nd.Fix(j)
		nd.Assert(len(s) == j-i, "SliceCut length")
		for k := range s {
			nd.Assert(s[k] == w[i+k], "SliceCut element")
		}
	}
	cut, calls := nd.Case("cut", 3), 0
	v.Range(func(int, int) bool { calls++; return calls <= cut })
	nd.Assert(calls == cut+1 || calls == len(w) && calls <= cut, "Range stops exactly when told to")
	same(v, w, "unchanged")
}

// HVecOwn: what Clone, CloneToSlice, Cut and SplitOff return shares no storage with the vector, now or after later operations on either.
//
//gosym:check C04 split=4
//gosym:quick MAXN=3
//gosym:thorough MAXN=4
func HVecOwn() {
	v, w := mk("", nd.Param("MAXN"))
	n := len(w)
	x, y := nd.Int("y"), nd.Int("z")
	var o *vec.Vec[int]
	var s []int
	var ow []int
	how := nd.Case("how", 4)
	switch how {
	case 0:
		o, ow = v.Clone(), append(ow, w...)
	case 1:
		s, ow = v.CloneToSlice(), append(ow, w...)
	case 2:
		i := nd.Case("i", n+1)
		j := i + nd.Case("j", n-i+1)
		s, ow = v.Cut(i, j), append(ow, w[i:j]...)
		w = cutAt(w, i, j)
	case 3:
		i := nd.Case("i", n+1)
		o, ow = v.SplitOff(i), append(ow, w[i:]...)
		w = cutAt(w, i, n)
	}
	chk := func(what string) {
		same(v, w, what+": vector")
		if o != nil {
			same(o, ow, what+": result")
			return
		}
		nd.Assert(len(s) == len(ow), what+": result length")
		for i := range ow {
			nd.Assert(s[i] == ow[i], what+": result element")
		}
	}
	chk("at once")
	switch nd.Case("mut", 6) {
	case 0: // grow the vector into whatever capacity it has
		v.Push(x, y)
		w = insertAt(w, len(w), x, y)
	case 1:
		if v.Set(0, x) {
			w[0] = x
		}
	case 2:
		v.Insert(0, x)
		w = insertAt(w, 0, x)
	case 3:
		if o != nil {
			o.Push(x, y)
			ow = insertAt(ow, len(ow), x, y)
		} else {
			s = append(s, x, y)
			ow = insertAt(ow, len(ow), x, y)
		}
	case 4:
		if o != nil {
			if o.Set(0, x) {
				ow[0] = x
			}
		} else if len(s) > 0 {
			s[0] = x
			ow[0] = x
		}
	case 5:
		v.Reverse()
		for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
			w[i], w[j] = w[j], w[i]
		}
		if o != nil {
			o.Pop()
			if len(ow) > 0 {
				ow = ow[:len(ow)-1]
			}
		}
	}
	chk("after a mutation")
}
