package vec

import (
	"github.com/zijiren233/gencontainer/vec"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

type celsius float64
type level uint8
type label string

func cmp2[T any](a, b T, lt, gt bool) {
	v := vec.New[T]()
	nd.Assert(v.CmpLess(a, b) == lt, "default less")
	nd.Assert(v.CmpLess(b, a) == gt, "default less, swapped")
	nd.Assert(v.CmpEqual(a, b) == (!lt && !gt), "default equal")
	v.Push(b, a)
	v.Sort()
	x, _ := v.First()
	y, _ := v.Last()
	nd.Assert(nd.Implies(lt, nd.And(v.CmpEqual(x, a), v.CmpEqual(y, b))), "Sort with the default order")
	nd.Assert(v.IsSorted(), "IsSorted with the default order")
	i := v.Search(a)
	nd.Assert(i >= 0, "Search with the default equality")
}

// HVecAutoNum: without configured comparators, elements of every integer and float type (and named types over them) are ordered and compared numerically.
//
//gosym:check C05 split=1
//gosym:quick
func HVecAutoNum() {
	switch nd.Case("type", 15) {
	case 0:
		a, b := nd.Int("a"), nd.Int("b")
		cmp2(a, b, a < b, a > b)
	case 1:
		a, b := nd.I8("a"), nd.I8("b")
		cmp2(a, b, a < b, a > b)
	case 2:
		a, b := nd.I16("a"), nd.I16("b")
		cmp2(a, b, a < b, a > b)
	case 3:
		a, b := nd.I32("a"), nd.I32("b")
		cmp2(a, b, a < b, a > b)
	case 4:
		a, b := nd.I64("a"), nd.I64("b")
		cmp2(a, b, a < b, a > b)
	case 5:
		a, b := uint(nd.U64("a")), uint(nd.U64("b"))
		cmp2(a, b, a < b, a > b)
	case 6:
		a, b := nd.U8("a"), nd.U8("b")
		cmp2(a, b, a < b, a > b)
	case 7:
		a, b := nd.U16("a"), nd.U16("b")
		cmp2(a, b, a < b, a > b)
	case 8:
		a, b := nd.U32("a"), nd.U32("b")
		cmp2(a, b, a < b, a > b)
	case 9:
		a, b := nd.U64("a"), nd.U64("b")
		cmp2(a, b, a < b, a > b)
	case 10:
		a, b := nd.F64("a"), nd.F64("b")
		nd.Assume(a == a && b == b)
		cmp2(a, b, a < b, a > b)
	case 11:
		a, b := nd.F32("a"), nd.F32("b")
		nd.Assume(a == a && b == b)
		cmp2(a, b, a < b, a > b)
	case 12:
		a, b := celsius(nd.F64("a")), celsius(nd.F64("b"))
		nd.Assume(a == a && b == b)
		cmp2(a, b, a < b, a > b)
	case 13:
		a, b := level(nd.U8("a")), level(nd.U8("b"))
		cmp2(a, b, a < b, a > b)
	case 14:
		a, b := nd.Int("a"), nd.Int("b")
		cmp2(&a, &b, a < b, a > b)
	}
}

// HVecAutoNaN: when sorting floats with the default order, NaNs come before every other value and the others ascend.
//
//gosym:check C05 split=1
//gosym:quick N=3
//gosym:thorough N=4
func HVecAutoNaN() {
	v := vec.New[float64]()
	nan := 0
	for i := 0; i < nd.Param("N"); i++ {
		x := nd.F64("x")
		nan += nd.B2I(x != x)
		v.Push(x)
	}
	if nd.Case("stable", 2) == 1 {
		v.SortStable()
	} else {
		v.Sort()
	}
	s := v.Slice()
	for i, x := range s {
		nd.Assert((x != x) == (i < nan), "NaNs are ordered before other values")
		if i > 0 {
			nd.Assert(nd.Implies(nan < i, s[i-1] <= x), "other values ascend")
		}
	}
	if nan > 0 && nan < len(s) {
		nd.Cover("mixed")
	}
}

func digits(s string) (all bool, n int) {
	all = len(s) > 0
	for i := 0; i < len(s); i++ {
		all = nd.And(all, s[i] >= '0', s[i] <= '9')
		n = n*10 + int(s[i]-'0')
	}
	return
}

// HVecAutoStr: strings are compared by content for equality and in natural order (embedded decimal numbers by value): irreflexive, asymmetric, numeric on digit strings with a common prefix.
//
//gosym:check C05 split=2
//gosym:quick LEN=2
//gosym:thorough LEN=3
func HVecAutoStr() {
	v := vec.New[label]()
	la, lb := nd.Case("la", nd.Param("LEN")+1), nd.Case("lb", nd.Param("LEN")+1)
	a, b := nd.Str("a", la), nd.Str("b", lb)
	for i := 0; i < la; i++ {
		nd.Assume(a[i] < 128)
	}
	for i := 0; i < lb; i++ {
		nd.Assume(b[i] < 128)
	}
	lt, gt := v.CmpLess(label(a), label(b)), v.CmpLess(label(b), label(a))
	nd.Assert(!(lt && gt), "asymmetric")
	nd.Assert(!v.CmpLess(label(a), label(a)), "irreflexive")
	nd.Assert(v.CmpEqual(label(a), label(b)) == (a == b), "equality by content")
	da, na := digits(a)
	db, nb := digits(b)
	if da && db && na != nb {
		nd.Assert(lt == (na < nb), "digit strings order by value")
		w := vec.New[string]()
		nd.Assert(w.CmpLess("v"+a, "v"+b) == (na < nb), "embedded numbers order by value")
		nd.Assert(w.CmpLess("v"+a+".x", "v"+b+".a") == (na < nb), "embedded numbers order by value")
		nd.Cover("numbers")
	}
}

// HVecAutoPanic: element types without a default order make the first comparison panic rather than order arbitrarily.
//
//gosym:check C05
//gosym:quick
func HVecAutoPanic() {
	v := vec.New[item]()
	a, b := item{nd.Int("a"), 1}, item{nd.Int("b"), 2}
	nd.Assert(nd.Panics(func() { v.CmpLess(a, b) }), "no default order for structs")
	nd.Assert(nd.Panics(func() { v.CmpEqual(a, b) }), "no default equality for structs")
	v.SetCmpLess(iless)
	nd.Assert(v.CmpLess(a, b) == (a.K < b.K), "SetCmpLess")
	v.SetCmpEqual(iequal)
	nd.Assert(v.CmpEqual(a, b) == (a.K == b.K), "SetCmpEqual")
	w := vec.New(vec.WithCmpLess(func(x, y int) bool { return x > y }))
	x, y := nd.Int("x"), nd.Int("y")
	nd.Assert(w.CmpLess(x, y) == (x > y), "a configured order wins over the default")
	w.Push(x, y).Sort()
	f, _ := w.First()
	nd.Assert(f == max(x, y), "Sort uses the configured order")
}
