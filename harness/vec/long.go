package vec

import (
	"github.com/zijiren233/gencontainer/vec"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

// bounds picks an index out of [-1, n+1]: any of the first or last few, or one symbolic index of the middle.
func bounds(name string, n int) int {
	switch c := nd.Pick(name, 7); c {
	case 0, 1, 2:
		return c - 1
	case 3, 4, 5:
		return n - 4 + c
	default:
		return n/2 - 1 + nd.Pick(name, 3)
	}
}

// HVecLong: one operation on a long vector with symbolic contents, exactly full or with spare capacity.
//
//gosym:check C01 split=3
//gosym:quick
//gosym:thorough
func HVecLong() {
	n := []int{12, 17, 33, 65, 130}[nd.Case("len", 5)]
	v := vec.New(vec.WithCmpLess(less), vec.WithCmpEqual(equal))
	var w []int
	for i := 0; i < n; i++ {
		w = append(w, nd.Int("x"))
	}
	v.Push(w...)
	if nd.Case("full", 2) == 1 {
		v.Clip()
	} else {
		v.Grow(n)
	}
	w = append([]int(nil), w...)
	op := nd.Case("op", 12)
	var i, j int
	var xs []int
	switch op {
	case 1, 2, 3, 4:
		i = bounds("i", n)
	case 5, 6, 8, 9, 10:
		i, j = bounds("i", n), bounds("j", n)
	case 7:
		i = bounds("i", n)
	}
	bad := i < 0 || j > n || i > j
	switch op {
	case 0, 7, 10:
		for k := []int{0, 1, 3, n}[nd.Case("k", 4)]; k > 0; k-- {
			xs = append(xs, nd.Int("y"))
		}
	}
	x := nd.Int("z")
	switch op {
	case 0:
		v.Push(xs...)
		w = insertAt(w, n, xs...)
	case 1:
		e, ok := v.Remove(i)
		nd.Assert(ok == (i >= 0 && i < n), "Remove ok")
		if ok {
			nd.Assert(e == w[i], "Remove returns the element")
			w = cutAt(w, i, i+1)
		}
	case 2:
		ok := v.Set(i, x)
		nd.Assert(ok == (i >= 0 && i < n), "Set ok")
		if ok {
			w[i] = x
		}
	case 3:
		e, ok := v.ConpareAndRemove(i, x)
		if i >= 0 && i < n && w[i] == x {
			nd.Assert(ok && e == x, "ConpareAndRemove of a match")
			w = cutAt(w, i, i+1)
		} else {
			nd.Assert(!ok, "ConpareAndRemove without match")
		}
	case 4:
		o := v.SplitOff(i)
		if i >= 0 && i <= n {
			same(o, append([]int(nil), w[i:]...), "SplitOff tail")
			w = cutAt(w, i, n)
		} else {
			nd.Assert(o.Len() == 0, "SplitOff out of range")
		}
	case 5:
		v.Swap(i, j)
		if i >= 0 && i < n && j >= 0 && j < n {
			w[i], w[j] = w[j], w[i]
		}
	case 6:
		got := v.Cut(i, j)
		if bad {
			nd.Assert(len(got) == 0, "Cut out of range")
		} else {
			nd.Assert(len(got) == j-i, "Cut returns the removed elements: length")
			for k := i; k < j; k++ {
				nd.Assert(got[k-i] == w[k], "Cut returns the removed elements")
			}
			w = cutAt(w, i, j)
		}
	case 7:
		bad = i < 0 || i > n
		p := nd.Panics(func() { v.Insert(i, xs...) })
		nd.Assert(p == bad || bad && len(xs) == 0, "Insert panics exactly when out of range")
		if !bad {
			w = insertAt(w, i, xs...)
		}
	case 8:
		p := nd.Panics(func() { v.Delete(i, j) })
		nd.Assert(p == bad, "Delete panics exactly when out of range")
		if !bad {
			w = cutAt(w, i, j)
		}
	case 9:
		s := v.SliceCut(i, j)
		if bad {
			nd.Assert(s == nil, "SliceCut out of range")
		} else {
			nd.Assert(len(s) == j-i, "SliceCut length")
			for k := range s {
				nd.Assert(s[k] == w[i+k], "SliceCut element")
			}
		}
	case 10:
		p := nd.Panics(func() { v.Replace(i, j, xs...) })
		nd.Assert(p == bad || bad && len(xs) == 0 && i == j, "Replace panics exactly when out of range")
		if !bad {
			w = insertAt(cutAt(w, i, j), i, xs...)
		}
	case 11:
		v.Reverse()
		for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
			w[a], w[b] = w[b], w[a]
		}
	}
	same(v, w, "after")
	// and the vector still grows and shrinks at its end
	v.Push(x)
	e, ok := v.Pop()
	nd.Assert(ok && e == x, "Pop returns what was pushed")
	same(v, w, "after Push and Pop")
}

// HVecLongOrder: searching, comparing and the extremes of a long vector with a few symbolic elements.
//
//gosym:check C03 split=3
//gosym:quick
//gosym:thorough
func HVecLongOrder() {
	n := []int{13, 40}[nd.Case("len", 2)]
	op := nd.Case("op", 5)
	at := []int{0, n / 2, n - 1}[nd.Case("at", 3)]
	v := vec.New(vec.WithCmpLess(less), vec.WithCmpEqual(equal))
	var w []int
	for i := 0; i < n; i++ {
		w = append(w, 3*(i/2))
	}
	w[at] = nd.Int("x")
	t := nd.Int("t")
	if op == 1 || op == 2 {
		nd.Assume((at == 0 || w[at-1] <= w[at]) && (at == n-1 || w[at] <= w[at+1]))
	}
	v.Push(w...)
	w = append([]int(nil), w...)
	first, cnt, below := -1, 0, 0
	for i := n - 1; i >= 0; i-- {
		first = nd.Sel(w[i] == t, i, first)
		cnt += nd.B2I(w[i] == t)
		below += nd.B2I(w[i] < t)
	}
	switch op {
	case 0:
		nd.Assert(v.Search(t) == first, "Search returns the first match or -1")
		nd.Assert(v.Contains(t) == (cnt > 0), "Contains")
		a := v.SearchAll(t)
		nd.Assert(len(a) == cnt, "SearchAll finds every match")
		for i := range a {
			nd.Assert(w[a[i]] == t && (i == 0 || a[i-1] < a[i]), "SearchAll returns the matches in order")
		}
	case 1:
		i, ok := v.BinarySearch(t)
		nd.Assert(i == below && ok == (cnt > 0), "BinarySearch")
	case 2:
		var r []int
		for i, x := range w {
			if i == 0 || w[i-1] != x {
				r = append(r, x)
			}
		}
		v.Compact()
		w = r
	case 3:
		u := v.Clone()
		nd.Assert(u.EqualVec(*v) && v.EqualSlice(w) && v.Compare(*u) == 0, "a clone is equal")
		u.Set(n-1, t)
		nd.Assert(v.EqualVec(*u) == (w[n-1] == t), "EqualVec sees the last element")
		nd.Assert(v.Compare(*u) == nd.Sel(w[n-1] < t, -1, nd.Sel(w[n-1] > t, 1, 0)), "Compare sees the last element")
		u.Pop()
		nd.Assert(v.Compare(*u) == 1 && u.Compare(*v) == -1, "a proper prefix is smaller")
	case 4:
		ord := true
		mn, mx := w[0], w[0]
		for i := 1; i < n; i++ {
			ord = nd.And(ord, w[i-1] <= w[i])
			mn = nd.Sel(w[i] < mn, w[i], mn)
			mx = nd.Sel(w[i] > mx, w[i], mx)
		}
		nd.Assert(v.IsSorted() == ord, "IsSorted")
		nd.Assert(v.Min() == mn && v.Max() == mx, "Min and Max")
	}
	same(v, w, "contents")
}

// HVecCmpOwn: a clone or the part split off compares with the functions of the vector it came from, and changing them on either side later does not affect the other.
//
//gosym:check C04 split=1
//gosym:quick
//gosym:thorough
func HVecCmpOwn() {
	x, y := nd.Int("x"), nd.Int("y")
	lt, gt := func(a, b int) bool { return a < b }, func(a, b int) bool { return a > b }
	never := func(a, b int) bool { return false }
	how := nd.Case("how", 2)
	set := nd.Case("set", 2) == 1
	v := vec.New[int]()
	if set {
		v.SetCmpLess(gt).SetCmpEqual(never)
	}
	v.Push(x, y, x, y)
	var o *vec.Vec[int]
	if how == 0 {
		o = v.Clone()
	} else {
		o = v.SplitOff(2)
	}
	is := func(u *vec.Vec[int], custom bool, what string) {
		nd.Assert(u.Less(0, 1) == nd.SelB(custom, x > y, x < y), what+": order")
		nd.Assert(u.Equal(0, 1) == nd.SelB(custom, false, x == y), what+": equality")
	}
	switch nd.Case("then", 4) {
	case 0:
		is(o, set, "copy")
		is(v, set, "vector")
	case 1:
		v.SetCmpLess(gt).SetCmpEqual(never)
		is(o, set, "copy after the vector's functions changed")
		is(v, true, "vector with new functions")
	case 2:
		o.SetCmpLess(gt).SetCmpEqual(never)
		is(v, set, "vector after the copy's functions changed")
		is(o, true, "copy with new functions")
	case 3:
		v.SetCmpLess(lt).SetCmpEqual(equal)
		is(o, set, "copy after the vector's functions changed")
		is(v, false, "vector with new functions")
	}
}
