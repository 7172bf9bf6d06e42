package vec

import (
	"github.com/zijiren233/gencontainer/vec"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

type item struct{ K, ID int }

func iless(a, b item) bool  { return a.K < b.K }
func iequal(a, b item) bool { return a.K == b.K }

func items(v *vec.Vec[item], keys []int) {
	for i, k := range keys {
		v.Push(item{k, i})
	}
}

// sorted checks that v is an ordered permutation of keys (and, if stable, that equal keys kept their order).
func sorted(v *vec.Vec[item], keys []int, stable bool) {
	n := len(keys)
	nd.Assert(v.Len() == n, "Sort keeps the length")
	seen := make([]bool, n)
	s := v.Slice()
	for i, e := range s {
		nd.Assert(e.ID >= 0 && e.ID < n, "Sort keeps the elements")
		nd.Assert(!seen[e.ID], "Sort keeps each element once")
		seen[e.ID] = true
		nd.Assert(e.K == keys[e.ID], "Sort keeps the elements")
		if i > 0 {
			nd.Assert(s[i-1].K <= e.K, "Sort orders ascending")
			if stable {
				nd.Assert(nd.Implies(s[i-1].K == e.K, s[i-1].ID < e.ID), "SortStable keeps the order of equal elements")
			}
		}
	}
	nd.Assert(v.IsSorted(), "IsSorted after Sort")
}

// HVecSort: Sort, SortFunc, SortStable and SortStableFunc leave an ascending permutation, the stable ones keeping equal elements in order.
//
//gosym:check C02 split=2
//gosym:quick MAXN=4
//gosym:thorough MAXN=6
func HVecSort() {
	how := nd.Case("how", 4)
	n := nd.Case("n", nd.Param("MAXN")+1)
	v := vec.New(vec.WithCmpLess(iless), vec.WithCmpEqual(iequal))
	var keys []int
	for i := 0; i < n; i++ {
		keys = append(keys, nd.Int("k"))
	}
	items(v, keys)
	switch how {
	case 0:
		v.Sort()
	case 1:
		v.SortStable()
	case 2:
		v = vec.New[item]()
		items(v, keys)
		v.SortFunc(iless, iequal)
		v.SetCmpLess(iless).SetCmpEqual(iequal)
	case 3:
		v = vec.New[item]()
		items(v, keys)
		v.SortStableFunc(iless, iequal)
		v.SetCmpLess(iless).SetCmpEqual(iequal)
	}
	sorted(v, keys, how == 1 || how == 3)
}

// HVecSortLong: the same for vectors long enough for the library's block and quicksort phases, with some keys symbolic.
//
//gosym:check C02 split=3
//gosym:quick SYM=3
//gosym:thorough SYM=5
func HVecSortLong() {
	how := nd.Case("how", 4)
	n := []int{13, 16, 24, 41}[nd.Case("len", 4)]
	pat := nd.Case("pattern", 3)
	v := vec.New(vec.WithCmpLess(iless), vec.WithCmpEqual(iequal))
	var keys []int
	for i := 0; i < n; i++ {
		k := 0
		switch pat {
		case 0:
			k = (i * 7) % 4
		case 1:
			k = n - i
		case 2:
			k = i / 2 % 3
		}
		if i%(n/nd.Param("SYM")) == 1 && i/(n/nd.Param("SYM")) < nd.Param("SYM") {
			k = nd.Range("k", 0, 2)
		}
		keys = append(keys, k)
	}
	items(v, keys)
	switch how {
	case 0:
		v.Sort()
	case 1:
		v.SortStable()
	case 2:
		v.SortFunc(iless, iequal)
	case 3:
		v.SortStableFunc(iless, iequal)
	}
	sorted(v, keys, how == 1 || how == 3)
}

// HVecExtremes: IsSorted tells whether every neighbour pair is in order; Min and Max return an element no other is below / above, and panic on an empty vector; none of them changes the vector.
//
//gosym:check C02 split=1
//gosym:quick MAXN=4
//gosym:thorough MAXN=6
func HVecExtremes() {
	v, w := mk("", nd.Param("MAXN"))
	ord := true
	for i := 1; i < len(w); i++ {
		ord = nd.And(ord, w[i-1] <= w[i])
	}
	nd.Assert(v.IsSorted() == ord, "IsSorted")
	nd.Assert(v.IsSortedFunc(less, equal) == ord, "IsSortedFunc")
	if len(w) == 0 {
		nd.Assert(nd.Panics(func() { v.Min() }), "Min of an empty vector panics")
		nd.Assert(nd.Panics(func() { v.Max() }), "Max of an empty vector panics")
		return
	}
	mn, mx := v.Min(), v.Max()
	in, ix := false, false
	for _, x := range w {
		nd.Assert(mn <= x, "Min is a lower bound")
		nd.Assert(x <= mx, "Max is an upper bound")
		in, ix = nd.Or(in, x == mn), nd.Or(ix, x == mx)
	}
	nd.Assert(in, "Min is an element")
	nd.Assert(ix, "Max is an element")
	gt := func(a, b int) bool { return a > b }
	nd.Assert(v.MinFunc(gt, equal) == mx, "MinFunc uses the given order")
	nd.Assert(v.MaxFunc(gt, equal) == mn, "MaxFunc uses the given order")
	same(v, w, "unchanged")
	if ord && len(w) > 1 {
		nd.Cover("sorted")
	}
}

// HVecSearch: Search, SearchAll, Contains and their Func variants report exactly the matching positions.
//
//gosym:check C03 split=2
//gosym:quick MAXN=4
//gosym:thorough MAXN=6
func HVecSearch() {
	v, w := mk("", nd.Param("MAXN"))
	t := nd.Int("t")
	first := -1
	cnt := 0
	for i := len(w) - 1; i >= 0; i-- {
		first = nd.Sel(w[i] == t, i, first)
		cnt += nd.B2I(w[i] == t)
	}
	match := func(x int) bool { return x == t }
	switch nd.Case("op", 3) {
	case 0:
		nd.Assert(v.Search(t) == first, "Search returns the first match or -1")
		nd.Assert(v.SearchFunc(match) == first, "SearchFunc returns the first match or -1")
	case 1:
		a, b := v.SearchAll(t), v.SearchAllFunc(match)
		nd.Assert(len(a) == cnt && len(b) == cnt, "SearchAll finds every match")
		for i := range a {
			nd.Assert(a[i] == b[i], "SearchAll and SearchAllFunc agree")
			nd.Assert(a[i] >= 0 && a[i] < len(w) && w[a[i]] == t, "SearchAll returns matches only")
			nd.Assert(i == 0 || a[i-1] < a[i], "SearchAll is ascending")
		}
	case 2:
		nd.Assert(v.Contains(t) == (cnt > 0), "Contains")
		nd.Assert(v.ContainsFunc(match) == (cnt > 0), "ContainsFunc")
	}
	same(v, w, "unchanged")
	if cnt > 1 {
		nd.Cover("several matches")
	}
}

// HVecBinary: on ascending contents BinarySearch returns the lower bound of the target and whether the target is there.
//
//gosym:check C03 split=1
//gosym:quick MAXN=5
//gosym:thorough MAXN=8
func HVecBinary() {
	v, w := mk("", nd.Param("MAXN"))
	t := nd.Int("t")
	below, cnt := 0, 0
	for i, x := range w {
		if i > 0 {
			nd.Assume(w[i-1] <= x)
		}
		below += nd.B2I(x < t)
		cnt += nd.B2I(x == t)
	}
	i, ok := v.BinarySearch(t)
	nd.Assert(i == below, "BinarySearch position")
	nd.Assert(ok == (cnt > 0), "BinarySearch found")
	j, ok2 := v.BinarySearchFunc(t, func(x, y int) int {
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	})
	nd.Assert(j == below && ok2 == (cnt > 0), "BinarySearchFunc")
	if ok {
		nd.Cover("found")
	} else {
		nd.Cover("missing")
	}
}

// HVecCompact: Compact keeps exactly the first element of every run of equal neighbours.
//
//gosym:check C03 split=1
//gosym:quick MAXN=4
//gosym:thorough MAXN=7
func HVecCompact() {
	v, w := mk("", nd.Param("MAXN"))
	fn := nd.Case("func", 2)
	var r []int
	for i, x := range w {
		if i == 0 || w[i-1] != x {
			r = append(r, x)
		}
	}
	if fn == 1 {
		v.CompactFunc(equal)
	} else {
		v.Compact()
	}
	same(v, r, "Compact")
	if len(r) < len(w) {
		nd.Cover("compacted")
	}
}

// HVecEqual: EqualVec, EqualSlice and Compare (and the Func variants) are element-wise equality and lexicographic order.
//
//gosym:check C03 split=2
//gosym:quick MAXN=3
//gosym:thorough MAXN=4
func HVecEqual() {
	v, w := mk("a", nd.Param("MAXN"))
	u, z := mk("b", nd.Param("MAXN"))
	eq := len(w) == len(z)
	cmp := nd.Sel(len(w) < len(z), -1, nd.Sel(len(w) > len(z), 1, 0))
	for i := min(len(w), len(z)) - 1; i >= 0; i-- {
		eq = nd.And(eq, w[i] == z[i])
		cmp = nd.Sel(w[i] < z[i], -1, nd.Sel(w[i] > z[i], 1, cmp))
	}
	if nd.Case("what", 2) == 0 {
		nd.Assert(v.EqualVec(*u) == eq, "EqualVec")
		nd.Assert(v.EqualSlice(z) == eq, "EqualSlice")
		nd.Assert(v.EqualVecFunc(*u, equal) == eq, "EqualVecFunc")
		nd.Assert(v.EqualSliceFunc(z, equal) == eq, "EqualSliceFunc")
	} else {
		nd.Assert(v.Compare(*u) == cmp, "Compare")
		nd.Assert(v.CompareFunc(*u, less, equal) == cmp, "CompareFunc")
		for i := range w {
			for j := range w {
				nd.Assert(v.Less(i, j) == (w[i] < w[j]), "Less")
				nd.Assert(v.Equal(i, j) == (w[i] == w[j]), "Equal")
			}
		}
	}
	if eq && len(w) > 1 {
		nd.Cover("equal")
	}
}
