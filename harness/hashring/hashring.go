// Package hashring drives github.com/zijiren233/gencontainer/hashring with CRC-32 as an arbitrary function, so that every placement of replicas and keys on the circle is explored, collisions included.
package hashring

import (
	"fmt"

	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

var names = []string{"a", "b", "c", "d"}

type ring = *hashring.HashRing[string]

func point(s string, i int) uint32 { return nd.HashOf(fmt.Sprintf("%v-%d", s, i)) }

// member says whether the owner is one of the members (the empty string when there is none).
func member(owner string, in []bool) {
	any, ok := false, false
	for i, b := range in {
		if b {
			any = true
			ok = ok || owner == names[i]
		}
	}
	if any {
		nd.Assert(ok, "the owner of a key is a current member")
	} else {
		nd.Assert(owner == "", "an empty ring owns nothing")
	}
}

// successor asserts that the owner has a point at or after the key's (wrapping round) that no member's point precedes.
func successor(owner string, in []bool, replicas int, key string) {
	hk := point(key, 0)
	var ps []uint32
	var mine []bool
	for i, b := range in {
		for r := 0; b && r < replicas; r++ {
			ps = append(ps, point(names[i], r))
			mine = append(mine, owner == names[i])
		}
	}
	if len(ps) == 0 {
		return
	}
	ok := false
	for i, p := range ps {
		if mine[i] {
			first := true
			for _, q := range ps {
				first = nd.And(first, !before(hk, q, p))
			}
			ok = nd.Or(ok, first)
		}
	}
	nd.Assert(ok, "a key belongs to the first replica point at or after its own")
}

// before: going clockwise from hk, q is met strictly before p.
func before(hk, q, p uint32) bool {
	qw, pw := q < hk, p < hk // met after wrapping round
	return nd.Or(nd.And(!qw, pw), nd.And(qw == pw, q < p))
}

// HRingOwner: after any history of AddNodes, RemoveNodes and ResetNodes, GetNode returns a current member, the one owning the first point clockwise of the key.
//
//gosym:check C15 shim=1 maporder=1 split=4
//gosym:quick NODES=2 OPS=2 REPLICAS=2 BITS=8
//gosym:thorough NODES=3 OPS=3 REPLICAS=2 BITS=32
func HRingOwner() {
	nd.SymHash(nd.Param("BITS"))
	nn := nd.Param("NODES")
	rep := nd.Param("REPLICAS")
	hr := hashring.New[string](rep)
	in := make([]bool, nn)
	nd.Assert(hr.GetNode("k") == "", "an empty ring owns nothing")
	key := []string{"k", names[0]}[nd.Case("key", 2)] // a foreign name, or the name of a node
	ops := nd.Param("OPS")
	masks, kinds := make([]int, ops), make([]int, ops)
	for op := range masks {
		if op == 0 {
			masks[op] = 1 + nd.Case("mask", 1<<nn-1)
		} else {
			masks[op] = nd.Case("mask", 1<<nn)
			kinds[op] = nd.Case("op", 3)
		}
	}
	for op, mask := range masks {
		var l []string
		for i := 0; i < nn; i++ {
			if mask>>i&1 == 1 {
				l = append(l, names[i])
			}
		}
		switch kinds[op] {
		case 0:
			nd.Assert(hr.AddNodes(l...) == hr, "AddNodes returns the ring")
			for i := range in {
				in[i] = in[i] || mask>>i&1 == 1
			}
		case 1:
			hr.RemoveNodes(l...)
			for i := range in {
				in[i] = in[i] && mask>>i&1 == 0
			}
		case 2:
			hr.ResetNodes(l...)
			for i := range in {
				in[i] = mask>>i&1 == 1
			}
		}
	}
	o := hr.GetNode(key)
	member(o, in)
	successor(o, in, rep, key)
	nd.Assert(hr.GetNode(key) == o, "GetNode is repeatable")
}

// HRingSameSet: two rings with the same members agree on every key, whatever the order, the batches and the internal iteration orders that built them.
//
//gosym:check C15 shim=1 maporder=1 split=2
//gosym:quick REPLICAS=1 MO=2
//gosym:thorough REPLICAS=1 MO=1
func HRingSameSet() {
	nd.SymHash(32)
	rep := nd.Param("REPLICAS")
	how := nd.Case("how", 6)
	key := []string{"k", "a"}[nd.Case("key", 2)]
	a := hashring.New[string](rep)
	b := hashring.New[string](rep)
	a.AddNodes("a", "b")
	if nd.Param("MO") == 2 {
		nd.MapOrder(3 * nd.Case("order", 2))
	} else {
		nd.MapOrder(1)
	}
	switch how {
	case 0:
		b.AddNodes("b", "a")
	case 1:
		b.AddNodes("b").AddNodes("a")
	case 2:
		b.AddNodes("b", "b").AddNodes("a", "b")
	case 3:
		b.AddNodes("c", "b", "a")
		b.RemoveNodes("c", "x")
	case 4:
		b.AddNodes("b", "c")
		b.ResetNodes("b", "a")
	case 5:
		b.AddNodes("a", "b")
		b.RemoveNodes("a")
		b.AddNodes("a")
	}
	x, y := a.GetNode(key), b.GetNode(key)
	nd.Assert(x == y, "rings with the same members agree on every key")
}

// HRingInts: the same for a ring of integers.
//
//gosym:check C15 shim=1 maporder=1 split=2
//gosym:quick REPLICAS=1
//gosym:thorough REPLICAS=2
func HRingInts() {
	nd.SymHash(32)
	rep := nd.Param("REPLICAS")
	a := hashring.New[int](rep)
	ns := []int{3, -7, 12}[:1+nd.Case("n", 3)]
	key := []int{5, 3}[nd.Case("key", 2)]
	a.AddNodes(ns...)
	o := a.GetNode(key)
	hk := nd.HashOf(fmt.Sprintf("%v-%d", key, 0))
	found := false
	for _, n := range ns {
		found = found || n == o
	}
	nd.Assert(found, "the owner of a key is a current member")
	ok := false
	for r := 0; r < rep; r++ {
		p := nd.HashOf(fmt.Sprintf("%v-%d", o, r))
		first := true
		for _, n := range ns {
			for q := 0; q < rep; q++ {
				first = nd.And(first, !before(hk, nd.HashOf(fmt.Sprintf("%v-%d", n, q)), p))
			}
		}
		ok = nd.Or(ok, first)
	}
	nd.Assert(ok, "a key belongs to the first replica point at or after its own")
}

// HRingDisruption: adding members moves a key only to an added member; removing members moves a key only if its owner was removed; re-adding or removing a non-member moves nothing.
//
//gosym:check C16 shim=1 maporder=1 split=4
//gosym:quick BASE=2 REPLICAS=1 MO=2
//gosym:thorough BASE=2 REPLICAS=2 MO=1
func HRingDisruption() {
	nd.SymHash(32)
	if nd.Param("MO") == 2 {
		nd.MapOrder(3 * nd.Case("order", 2))
	} else {
		nd.MapOrder(1)
	}
	base := names[:nd.Param("BASE")]
	hr := hashring.New[string](nd.Param("REPLICAS"))
	key := []string{"k", "a"}[nd.Case("key", 2)]
	ch := []string{"c", "0", "a", "b"}[nd.Case("changed", 4)]
	rm := nd.Case("remove", 2) == 1
	hr.AddNodes(base...)
	before := hr.GetNode(key)
	if rm {
		hr.RemoveNodes(ch)
		after := hr.GetNode(key)
		nd.Assert(before == ch || after == before, "removing a member moves only its own keys")
		hr.AddNodes(ch)
		back := hr.GetNode(key)
		nd.Assert(back == before || back == ch, "adding a member back moves keys only to it")
	} else {
		hr.AddNodes(ch)
		after := hr.GetNode(key)
		nd.Assert(after == before || after == ch, "adding a member moves keys only to it")
		if after == ch {
			nd.Cover("moved to the new member")
		}
		if ch != "a" && ch != "b" {
			hr.RemoveNodes(ch)
			nd.Assert(hr.GetNode(key) == before, "removing a member gives its keys back")
		}
	}
}

// HRingDisruption2: the same for two members added or removed at once.
//
//gosym:check C16 shim=1 maporder=1 split=2
//gosym:quick REPLICAS=1
//gosym:thorough REPLICAS=2
func HRingDisruption2() {
	nd.SymHash(32)
	hr := hashring.New[string](nd.Param("REPLICAS"))
	key := []string{"k", "c"}[nd.Case("key", 2)]
	if nd.Case("remove", 2) == 1 {
		hr.AddNodes("a", "b", "c")
		before := hr.GetNode(key)
		hr.RemoveNodes("c", "a")
		after := hr.GetNode(key)
		nd.Assert(after == "b", "the last member owns every key")
		_ = before
	} else {
		hr.AddNodes("b")
		before := hr.GetNode(key)
		hr.AddNodes("c", "a")
		after := hr.GetNode(key)
		nd.Assert(after == before || after == "c" || after == "a", "adding members moves keys only to them")
		hr.RemoveNodes("a")
		l := hr.GetNode(key)
		nd.Assert(after == "a" || l == after, "removing a member moves only its own keys")
	}
}

// HRingWide: the same with more members and longer member lists; the replica points are placed by one of a few fixed patterns (spread, reversed, colliding, at the ends of the circle) and the key's point is arbitrary.
//
//gosym:check C15 shim=1 maporder=1 split=3
//gosym:quick NODES=4 REPLICAS=2 PAT=2
//gosym:thorough NODES=4 REPLICAS=2 PAT=5
func HRingWide() {
	nd.SymHash(32)
	nd.MapOrder(0)
	nn := nd.Param("NODES")
	rep := nd.Param("REPLICAS")
	pat := nd.Case("pattern", nd.Param("PAT"))
	for i := 0; i < nn; i++ {
		for r := 0; r < rep; r++ {
			j := uint32(i*rep + r)
			var p uint32
			switch pat {
			case 0:
				p = (j*5%8 + 1) * 1000
			case 1: // one point at each end of the circle, neighbouring points in between
				p = [...]uint32{0xffffffff, 500, 0, 501, 502, 0x80000000, 0x7fffffff, 503}[j]
			case 2:
				p = 1000 - j
			case 3: // pairs collide
				p = 100 * (j % 4)
			case 4:
				p = 1 << (j * 4)
			}
			nd.HashPin(fmt.Sprintf("%v-%d", names[i], r), p)
		}
	}
	m1 := 1 + nd.Case("first", 1<<nn-1)
	kind := nd.Case("op", 3)
	m2 := nd.Case("second", 1<<nn)
	rev := nd.Case("order", 2) == 1
	pick := func(mask int) (l []string) {
		for i := 0; i < nn; i++ {
			j := i
			if rev {
				j = nn - 1 - i
			}
			if mask>>j&1 == 1 {
				l = append(l, names[j])
			}
		}
		return l
	}
	hr := hashring.New[string](rep)
	hr.AddNodes(pick(m1)...)
	mask := 0
	switch kind {
	case 0:
		hr.AddNodes(pick(m2)...)
		mask = m1 | m2
	case 1:
		hr.RemoveNodes(pick(m2)...)
		mask = m1 &^ m2
	case 2:
		hr.ResetNodes(pick(m2)...)
		mask = m2
	}
	in := make([]bool, nn)
	for i := range in {
		in[i] = mask>>i&1 == 1
	}
	o := hr.GetNode("k")
	member(o, in)
	successor(o, in, rep, "k")
	nd.Cover("asked")
}

// HRingMany: many members with many replicas each, at pseudo-random points; the key's point is arbitrary.
//
//gosym:check C15 shim=1 maporder=1 split=2
//gosym:quick NODES=5 REPLICAS=12
//gosym:thorough NODES=6 REPLICAS=20
func HRingMany() {
	nd.SymHash(32)
	nd.MapOrder(0)
	nn, rep := nd.Param("NODES"), nd.Param("REPLICAS")
	names := []string{"n3", "n1", "n4", "n0", "n5", "n2"}[:nn]
	points := make([][]uint32, nn)
	for i := range points {
		for r := 0; r < rep; r++ {
			p := uint32(i*rep+r+1) * 2654435761
			points[i] = append(points[i], p)
			nd.HashPin(fmt.Sprintf("%v-%d", names[i], r), p)
		}
	}
	hr := hashring.New[string](rep)
	in := make([]bool, nn)
	switch nd.Case("how", 4) {
	case 0:
		hr.AddNodes(names...)
		for i := range in {
			in[i] = true
		}
	case 1:
		for i, n := range names {
			hr.AddNodes(n)
			in[i] = true
		}
		hr.RemoveNodes(names[1], names[3])
		in[1], in[3] = false, false
	case 2:
		hr.AddNodes(names[:nn-1]...)
		hr.RemoveNodes(names[:nn-2]...)
		hr.AddNodes(names[nn-1])
		in[nn-2], in[nn-1] = true, true
	case 3:
		hr.AddNodes(names[:3]...)
		hr.ResetNodes(names[2:]...)
		for i := 2; i < nn; i++ {
			in[i] = true
		}
	}
	o := hr.GetNode("k")
	hk := point("k", 0)
	own := false
	for i, b := range in {
		if !b || names[i] != o {
			continue
		}
		for _, p := range points[i] {
			first := true
			for j, c := range in {
				for _, q := range points[j] {
					if c {
						first = nd.And(first, !before(hk, q, p))
					}
				}
			}
			own = nd.Or(own, first)
		}
	}
	nd.Assert(own, "a key belongs to a member, the one with the first replica point at or after its own")
}

// HRingDisruptMany: with many replicas, joining, leaving and coming back move only the keys they must; the key's point is arbitrary.
//
//gosym:check C16 shim=1 maporder=1 split=2
//gosym:quick NODES=4 REPLICAS=12
//gosym:thorough NODES=6 REPLICAS=24
func HRingDisruptMany() {
	nd.SymHash(32)
	nd.MapOrder(0)
	nn, rep := nd.Param("NODES"), nd.Param("REPLICAS")
	names := []string{"n3", "n1", "n4", "n0", "n5", "n2"}[:nn]
	for i := range names {
		for r := 0; r < rep; r++ {
			p := uint32(i*rep+r+1) * 2654435761
			if i == nn-1 && r%4 == 0 { // at the same point as one of another member
				p = uint32(r+1) * 2654435761
			}
			nd.HashPin(fmt.Sprintf("%v-%d", names[i], r), p)
		}
	}
	x, batch := names[nn-1-nd.Case("who", 2)], nd.Case("batch", 2)
	var rest []string
	for _, n := range names {
		if n != x {
			rest = append(rest, n)
		}
	}
	hr := hashring.New[string](rep).AddNodes(rest...)
	o1 := hr.GetNode("k")
	if batch == 0 {
		hr.AddNodes(x)
	} else {
		hr.AddNodes(rest[0], x, x)
	}
	o2 := hr.GetNode("k")
	nd.Assert(o2 == x || o2 == o1, "a joining member takes keys only for itself")
	hr.AddNodes(names...)
	nd.Assert(hr.GetNode("k") == o2, "adding present members moves nothing")
	hr.RemoveNodes("n9")
	nd.Assert(hr.GetNode("k") == o2, "removing an absent member moves nothing")
	hr.RemoveNodes(x, "n9")
	nd.Assert(hr.GetNode("k") == o1, "a leaving member gives back exactly its keys")
	if o2 == x {
		nd.Cover("taken")
	}
	hr.AddNodes(x)
	nd.Assert(hr.GetNode("k") == o2, "coming back gives the keys back")
	hr.RemoveNodes(rest[0])
	o3 := hr.GetNode("k")
	nd.Assert(nd.Or(o2 == rest[0], o3 == o2), "removing a member moves only its keys")
}
