// Package set drives github.com/zijiren233/gencontainer/set.
package set

import (
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

func mk(tag string, q int) (s set.Set[int], has bool, n int) {
	s = set.New[int]()
	n = nd.Case(tag+"n", nd.Param("MAXN")+1)
	for i := 0; i < n; i++ {
		v := nd.Int(tag + "v")
		nd.Assert(s.Insert(v) == true || i > 0, "Insert into an empty set reports true")
		has = nd.Or(has, v == q)
	}
	nd.Assume(s.Len() == n) // distinct elements
	return
}

func probe(s set.Set[int], q int, has bool) {
	nd.Assert(s.Contain(q) == has, "membership")
	cnt, seen := 0, 0
	s.Range(func(v int) bool {
		cnt++
		seen += nd.B2I(v == q)
		return true
	})
	nd.Assert(cnt == s.Len(), "Range visits Len elements")
	nd.Assert(seen == nd.B2I(has), "Range visits each element exactly once")
	sl := s.Slice()
	nd.Assert(len(sl) == cnt, "Slice length")
	seen = 0
	for _, v := range sl {
		seen += nd.B2I(v == q)
	}
	nd.Assert(seen == nd.B2I(has), "Slice holds each element exactly once")
	nd.Assert(s.IsEmpty() == (cnt == 0), "IsEmpty")
}

// HSetAlgebra: the binary operations compute the set-theoretic result for every element and leave the operands alone.
//
//gosym:check C12 split=3
//gosym:quick MAXN=2
//gosym:thorough MAXN=3
func HSetAlgebra() {
	q := nd.Int("q")
	a, ah, _ := mk("a", q)
	b, bh, _ := mk("b", q)
	var r set.Set[int]
	var want bool
	switch nd.Case("op", 4) {
	case 0:
		r, want = a.Difference(b), nd.And(ah, !bh)
	case 1:
		r, want = a.SymmetricDifference(b), ah != bh
	case 2:
		r, want = a.Intersection(b), nd.And(ah, bh)
	case 3:
		r, want = a.Union(b), nd.Or(ah, bh)
	}
	probe(r, q, want)
	probe(a, q, ah)
	probe(b, q, bh)
	if want {
		nd.Cover("in")
	}
	// the result is a set of its own
	x := nd.Int("x")
	nd.Assume(x != q)
	r.Push(q)
	r.Remove(x)
	nd.Assert(a.Contain(q) == ah, "result is independent of the operands")
	nd.Assert(b.Contain(q) == bh, "result is independent of the operands")
}

// HSetRelations: IsSubSet, IsSupperSet and Equal are inclusion, reverse inclusion and extensional equality.
//
//gosym:check C12 split=2
//gosym:quick MAXN=3
//gosym:thorough MAXN=4
func HSetRelations() {
	q := nd.Int("q")
	a, _, n := mk("a", q)
	b, _, k := mk("b", q)
	in := 0
	for _, v := range a.Slice() {
		in += nd.B2I(b.Contain(v))
	}
	sub, sup := in == n, in == k
	nd.Assert(a.IsSubSet(b) == sub, "IsSubSet")
	nd.Assert(a.IsSupperSet(b) == sup, "IsSupperSet")
	nd.Assert(b.IsSubSet(a) == sup, "IsSubSet converse")
	nd.Assert(a.Equal(b) == nd.And(sub, sup), "Equal")
	nd.Assert(a.IsSubSet(a) && a.IsSupperSet(a) && a.Equal(a), "reflexive")
	if sub {
		nd.Cover("subset")
	}
	if sup && n > k {
		nd.Cover("proper superset")
	}
}

// HSetUnionN: Union of any number of sets holds exactly the elements of them all.
//
//gosym:check C12 split=3
//gosym:quick MAXN=1
//gosym:thorough MAXN=2
func HSetUnionN() {
	q := nd.Int("q")
	a, ah, _ := mk("a", q)
	b, bh, _ := mk("b", q)
	c, ch, _ := mk("c", q)
	u := a.Union()
	probe(u, q, ah)
	u.Push(q)
	probe(a.Union(b, c), q, nd.Or(ah, bh, ch))
	probe(a.Union(c, a, b), q, nd.Or(ah, bh, ch))
	probe(a, q, ah)
	probe(b, q, bh)
	probe(c, q, ch)
}

// HSetOps: every sequence of updates behaves as a mathematical set, and the reported results tell what changed.
//
//gosym:check C12 split=3
//gosym:quick MAXN=2 OPS=2
//gosym:thorough MAXN=2 OPS=4
func HSetOps() {
	q := nd.Int("q")
	s, has, _ := mk("s", q)
	for i := 0; i < nd.Param("OPS"); i++ {
		op := nd.Case("op", 9)
		v := nd.Int("v")
		hit := v == q
		switch op {
		case 0:
			nd.Assert(nd.Implies(hit, s.Insert(v) == !has), "Insert reports whether the element was new")
			has = nd.Or(has, hit)
		case 1:
			nd.Assert(nd.Implies(hit, s.Remove(v) == has), "Remove reports whether the element was there")
			has = nd.And(has, !hit)
		case 2:
			nd.Assert(nd.Implies(hit, s.ContainAndRemove(v) == has), "ContainAndRemove")
			has = nd.And(has, !hit)
		case 3:
			w := nd.Int("w")
			same(s.Push(v, w, v), s, "Push")
			has = nd.Or(has, hit, w == q)
		case 4:
			r := s.Clear()
			nd.Assert(s.Len() == 0, "Clear")
			nd.Assert(r.Insert(v), "Clear returns the set, which stays usable")
			has = hit
			same(r, s, "Clear")
		case 5:
			c := s.Clone()
			probe(c, q, has)
			if nd.Case("del", 2) == 1 {
				c.Remove(v)
			} else {
				c.Insert(v)
			}
		case 8:
			c := s.Clone()
			s.Insert(v)
			probe(c, q, has)
			has = nd.Or(has, hit)
		case 6:
			o, oh, _ := mk("o", q)
			same(s.CopyFrom(o), s, "CopyFrom")
			has = nd.Or(has, oh)
			probe(o, q, oh)
		case 7:
			cut := nd.Fix(nd.Range("cut", 0, 2))
			calls := 0
			s.Range(func(int) bool { calls++; return calls <= cut })
			nd.Assert(calls <= cut+1, "Range stops when told to")
			nd.Assert(calls > cut || calls == s.Len(), "Range stops only when told to")
		}
	}
	probe(s, q, has)
}

// same: r is the set s itself.
func same(r, s set.Set[int], what string) {
	n := s.Len()
	nd.Assert(r.Len() == n && r.Equal(s), what+" returns the set")
	if n > 0 {
		x := r.Slice()[0]
		nd.Assert(r.Remove(x) && s.Len() == n-1 && s.Insert(x) && r.Len() == n, what+" returns the set itself")
	}
}

// HSetSelf: the operations also hold for a set and itself, for empty and nil operands, and several operands that share elements.
//
//gosym:check C12 split=2
//gosym:quick MAXN=2
//gosym:thorough MAXN=3
func HSetSelf() {
	q := nd.Int("q")
	a, ah, n := mk("a", q)
	switch nd.Case("op", 6) {
	case 0:
		probe(a.Union(a, a), q, ah)
		probe(a.Intersection(a), q, ah)
	case 1:
		probe(a.Difference(a), q, false)
		probe(a.SymmetricDifference(a), q, false)
	case 2:
		same(a.CopyFrom(a), a, "CopyFrom")
		nd.Assert(a.Equal(a.Clone()) && a.IsSubSet(a.Clone()) && a.IsSupperSet(a.Clone()), "a clone is equal")
	case 3, 4:
		e := set.New[int]()
		if nd.Case("nil", 2) == 1 {
			e = nil
		}
		probe(a.Difference(e), q, ah)
		probe(e.Difference(a), q, false)
		probe(a.Union(e), q, ah)
		probe(e.Union(a), q, ah)
		probe(a.Intersection(e), q, false)
		probe(e.Intersection(a), q, false)
		probe(a.SymmetricDifference(e), q, ah)
		probe(e.SymmetricDifference(a), q, ah)
		nd.Assert(e.IsSubSet(a) && a.IsSupperSet(e), "the empty set is a subset")
		nd.Assert(a.IsSubSet(e) == (n == 0) && e.IsSupperSet(a) == (n == 0) && a.Equal(e) == (n == 0), "only the empty set is a subset of the empty set")
		a.CopyFrom(e)
	case 5: // a mutating callback sees a consistent set
		k := 0
		a.Range(func(v int) bool {
			k++
			nd.Assert(a.Contain(v), "Range passes elements of the set")
			a.Remove(v)
			return true
		})
		nd.Assert(k == n && a.IsEmpty(), "Range with a callback that removes what it is given")
		ah = false
	}
	probe(a, q, ah)
}

// HSetLong: the operations on sets of many elements.
//
//gosym:check C12 split=3
//gosym:quick N=20
//gosym:thorough N=70
func HSetLong() {
	n := nd.Param("N")
	q := nd.Range("q", -1, 2*n)
	k := []int{0, 1, n / 2, n - 1, n}[nd.Case("overlap", 5)]
	m := []int{1, n / 2, n, n + 3}[nd.Case("m", 4)]
	a, b := set.New[int](), set.New[int]()
	for i := 0; i < n; i++ {
		a.Push(i)
	}
	for i := 0; i < m; i++ {
		b.Insert(n - k + i)
	}
	ah, bh := nd.And(q >= 0, q < n), nd.And(q >= n-k, q < n-k+m)
	switch nd.Case("op", 5) {
	case 0:
		probe(a.Difference(b), q, nd.And(ah, !bh))
	case 1:
		probe(a.SymmetricDifference(b), q, ah != bh)
	case 2:
		probe(a.Intersection(b), q, nd.And(ah, bh))
	case 3:
		probe(a.Union(b), q, nd.Or(ah, bh))
	case 4:
		nd.Assert(b.IsSubSet(a) == (m <= k) && a.IsSupperSet(b) == (m <= k), "IsSubSet and IsSupperSet")
		nd.Assert(a.IsSubSet(b) == (k == n && m >= n), "IsSubSet converse")
		nd.Assert(a.Equal(b) == (k == n && m == n), "Equal")
		nd.Assert(a.Remove(q) == ah, "Remove")
		ah = false
	}
	probe(a, q, ah)
	probe(b, q, bh)
}

// HSetStrings: membership and algebra hold for string elements, by content.
//
//gosym:check C12 split=2
//gosym:quick LEN=2
//gosym:thorough LEN=3
func HSetStrings() {
	a, b := set.New[string](), set.New[string]()
	q := nd.Str("q", nd.Case("lq", nd.Param("LEN")))
	x := nd.Str("x", nd.Case("lx", nd.Param("LEN")))
	y := nd.Str("y", nd.Case("ly", nd.Param("LEN")))
	a.Push(x, y)
	b.Push(y)
	ah, bh := q == x || q == y, q == y
	nd.Assert(a.Contain(q) == ah, "Contain")
	nd.Assert(a.Difference(b).Contain(q) == (ah && !bh), "Difference")
	nd.Assert(a.Intersection(b).Contain(q) == (ah && bh), "Intersection")
	nd.Assert(a.SymmetricDifference(b).Contain(q) == (ah != bh), "SymmetricDifference")
	nd.Assert(b.IsSubSet(a) && a.IsSupperSet(b), "inclusion")
	nd.Assert(a.Remove(q) == ah, "Remove")
	nd.Assert(!a.Contain(q), "removed")
}
