// Package ring drives github.com/zijiren233/gencontainer/ring.
package ring

import (
	"github.com/zijiren233/gencontainer/ring"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

type node = *ring.Ring[int]

// mk makes a ring of n elements with distinct symbolic-free ids and returns its elements in order.
func mk(n int, base int) []node {
	var r node
	if n == 1 && nd.Case("zero", 2) == 1 {
		r = &ring.Ring[int]{} // the zero value is a one-element ring
	} else {
		r = ring.New[int](n)
	}
	var out []node
	p := r
	for i := 0; i < n; i++ {
		p.Value = base + i
		out = append(out, p)
		p = p.Next()
	}
	nd.Assert(p == r, "New(n) closes after n elements")
	for i, x := range out {
		for _, y := range out[:i] {
			nd.Assert(x != y, "New(n) has n distinct elements")
		}
	}
	return out
}

// is checks that the elements form one ring in this order, from every element and in both directions.
func is(w []node, what string) {
	n := len(w)
	for i, x := range w {
		nd.Assert(x.Next() == w[(i+1)%n], what+": Next")
		nd.Assert(x.Prev() == w[(i+n-1)%n], what+": Prev")
		nd.Assert(x.Len() == n, what+": Len")
		k := 0
		x.Do(func(v int) {
			nd.Assert(k < n && v == w[(i+k)%n].Value, what+": Do order")
			k++
		})
		nd.Assert(k == n, what+": Do visits every element once")
	}
}

// HRingBasic: New builds a ring of n elements; Move walks n steps in either direction, modulo the length; nil rings are empty.
//
//gosym:check C09 split=2
//gosym:quick MAXN=4 STEPSMAX=9
//gosym:thorough MAXN=6 STEPSMAX=20
func HRingBasic() {
	k := nd.Range("k", -2, 0)
	nd.Assert(ring.New[int](k) == nil, "New of a non-positive size is nil")
	var z node
	nd.Assert(z.Len() == 0, "nil ring length")
	z.Do(func(int) { nd.Fail("nil ring has no elements") })
	n := 1 + nd.Case("n", nd.Param("MAXN"))
	w := mk(n, 100)
	is(w, "New")
	i := nd.Pick("i", n)
	s := nd.Range("s", -nd.Param("STEPSMAX"), nd.Param("STEPSMAX"))
	t := w[i].Move(s)
	s = nd.Fix(s)
	nd.Assert(t == w[((i+s)%n+n)%n], "Move")
	is(w, "after Move")
	if s < -n {
		nd.Cover("negative beyond a turn")
	}
}

// HRingMoveZero: on a zero-value ring every operation finds the single element.
//
//gosym:check C09
//gosym:quick K=3
//gosym:thorough K=6
func HRingMoveZero() {
	r := &ring.Ring[int]{}
	s := nd.Range("s", -nd.Param("K"), nd.Param("K"))
	switch nd.Case("op", 5) {
	case 0:
		nd.Assert(r.Move(s) == r, "Move on a zero ring")
	case 1:
		nd.Assert(r.Prev() == r, "Prev on a zero ring")
	case 2:
		nd.Assert(r.Next() == r, "Next on a zero ring")
	case 3:
		nd.Assert(r.Len() == 1, "Len of a zero ring")
	case 4:
		q := &ring.Ring[int]{}
		nd.Assert(r.Link(q) == r, "Link of zero rings returns the old next")
		is([]node{r, q}, "linked zero rings")
		return
	}
	is([]node{r}, "zero ring")
}

// HRingLink: Link of two rings splices s after r; within one ring it cuts out the elements between, which form a ring of their own; Unlink(n) removes n%Len elements after r.
//
//gosym:check C09 split=3
//gosym:quick MAXN=4
//gosym:thorough MAXN=6
func HRingLink() {
	n := 1 + nd.Case("n", nd.Param("MAXN"))
	w := mk(n, 100)
	i := nd.Pick("i", n)
	r := w[i]
	var rot []node // ring order starting after r
	for k := 1; k <= n; k++ {
		rot = append(rot, w[(i+k)%n])
	}
	switch nd.Case("op", 4) {
	case 0: // two rings
		m := 1 + nd.Case("m", nd.Param("MAXN"))
		z := mk(m, 200)
		j := nd.Pick("j", m)
		nd.Assert(r.Link(z[j]) == rot[0], "Link returns the element that followed r")
		want := []node{r}
		for k := 0; k < m; k++ {
			want = append(want, z[(j+k)%m])
		}
		want = append(want, rot[:n-1]...)
		is(want, "spliced")
	case 1: // same ring
		j := nd.Pick("j", n)
		s := rot[j] // s is j+1 steps after r
		nd.Assert(r.Link(s) == rot[0], "Link returns the element that followed r")
		if j == n-1 { // s == r
			if n > 1 {
				is(rot[:n-1], "removed part")
			}
			is([]node{r}, "kept part")
			break
		}
		if j > 0 {
			is(rot[:j], "removed part")
		}
		is(append([]node{r}, rot[j:n-1]...), "kept part")
	case 2:
		k := nd.Range("k", -1, 2*n+1)
		u := r.Unlink(k)
		k = nd.Fix(k)
		if k <= 0 {
			nd.Assert(u == nil, "Unlink of nothing returns nil")
			is(w, "unchanged")
			break
		}
		k %= n
		if k == 0 {
			is(w, "Unlink of a multiple of the length removes nothing")
			break
		}
		nd.Assert(u == rot[0], "Unlink returns the first removed element")
		is(rot[:k], "removed part")
		is(append([]node{r}, rot[k:n-1]...), "kept part")
	case 3:
		nd.Assert(r.Link(nil) == rot[0], "Link(nil) returns the next element")
		is(w, "Link(nil) changes nothing")
	}
}

// HRingLong: Move, Link and Unlink on larger rings.
//
//gosym:check C09 split=2
//gosym:quick
//gosym:thorough
func HRingLong() {
	n := []int{9, 17, 24}[nd.Case("n", 3)]
	w := mk(n, 100)
	r := w[0]
	k := []int{1, 2, n / 2, n - 2, n - 1, n, n + 1, 2*n + 3}[nd.Pick("k", 8)]
	switch nd.Case("op", 3) {
	case 0:
		nd.Assert(r.Move(k) == w[k%n], "Move forward")
		nd.Assert(r.Move(-k) == w[((-k)%n+n)%n], "Move backward")
		is(w, "unchanged")
	case 1:
		u := r.Unlink(k)
		if k %= n; k == 0 {
			is(w, "Unlink of a multiple of the length removes nothing")
			break
		}
		nd.Assert(u == w[1], "Unlink returns the first removed element")
		is(w[1:k+1], "removed part")
		is(append([]node{r}, w[k+1:]...), "kept part")
	case 2:
		z := mk(k, 1000)
		nd.Assert(r.Link(z[0]) == w[1], "Link returns the element that followed r")
		want := append([]node{r}, z...)
		is(append(want, w[1:]...), "spliced")
	}
}
