package rwmap

import (
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

// call is one operation of a thread with its arguments, its observed results and the operations that had ended before it started.
type call struct {
	op, k    int
	v, old   int
	r        int
	ok       bool
	done     bool
	after    []bool // after[j]: call j had ended when this one started
	finished bool
}

const concOps = 9

func (c *call) run(m *rmap) {
	switch c.op {
	case 0:
		c.r, c.ok = m.Load(c.k)
	case 1:
		m.Store(c.k, c.v)
	case 2:
		c.r, c.ok = m.Swap(c.k, c.v)
	case 3:
		c.r, c.ok = m.LoadOrStore(c.k, c.v)
	case 4:
		c.r, c.ok = m.LoadAndDelete(c.k)
	case 5:
		c.ok = m.CompareAndSwap(c.k, c.old, c.v)
	case 6:
		c.ok = m.CompareAndDelete(c.k, c.old)
	case 7:
		m.Delete(c.k)
	case 8:
		m.Clear()
	}
}

// state is one key of the abstract map, as branch-free conditions.
type state struct {
	in []bool
	v  []int
}

func (s state) clone() state {
	return state{append([]bool(nil), s.in...), append([]int(nil), s.v...)}
}

// apply is the effect of c on the abstract map; it returns whether c's observed results are the ones the map would give.
func (c *call) apply(s *state) bool {
	in, v := s.in[c.k], s.v[c.k]
	switch c.op {
	case 0:
		return nd.And(c.ok == in, nd.Implies(in, c.r == v))
	case 1:
		s.in[c.k], s.v[c.k] = true, c.v
		return true
	case 2:
		s.in[c.k], s.v[c.k] = true, c.v
		return nd.And(c.ok == in, nd.Implies(in, c.r == v))
	case 3:
		s.v[c.k] = nd.Sel(in, v, c.v)
		s.in[c.k] = true
		return nd.And(c.ok == in, c.r == s.v[c.k])
	case 4:
		s.in[c.k] = false
		return nd.And(c.ok == in, nd.Implies(in, c.r == v))
	case 5:
		hit := nd.And(in, v == c.old)
		s.v[c.k] = nd.Sel(hit, c.v, v)
		return c.ok == hit
	case 6:
		hit := nd.And(in, v == c.old)
		s.in[c.k] = nd.And(in, !hit)
		return c.ok == hit
	case 7:
		s.in[c.k] = false
		return true
	case 8:
		for i := range s.in {
			s.in[i] = false
		}
		return true
	}
	return false
}

// explained says whether the observed results and the final state are those of some order of the calls that respects the order in which they really ran.
func explained(calls [][]*call, s state, fin state) bool {
	pos := make([]int, len(calls))
	return explore(calls, pos, s, fin)
}

func explore(calls [][]*call, pos []int, s state, fin state) bool {
	end := true
	res := false
	for t := range calls {
		if pos[t] >= len(calls[t]) {
			continue
		}
		end = false
		c := calls[t][pos[t]]
		// c may come next only if no pending call ended before c started
		ok := true
		for u := range calls {
			if u != t && pos[u] < len(calls[u]) {
				for j := pos[u]; j < len(calls[u]); j++ {
					ok = nd.And(ok, !c.after[u*8+j])
				}
			}
		}
		n := s.clone()
		ok = nd.And(ok, c.apply(&n))
		pos[t]++
		ok = nd.And(ok, explore(calls, pos, n, fin))
		pos[t]--
		res = nd.Or(res, ok)
	}
	if end {
		r := true
		for k := range s.in {
			r = nd.And(r, s.in[k] == fin.in[k], nd.Implies(s.in[k], s.v[k] == fin.v[k]))
		}
		return r
	}
	return res
}

// worker runs the calls of thread t, noting which calls of others had ended at each start.
func worker(m *rmap, all [][]*call, t int) func() {
	return func() {
		for i, c := range all[t] {
			if i > 0 {
				nd.Yield()
			}
			for u := range all {
				if u != t {
					for j, o := range all[u] {
						c.after[u*8+j] = o.done
					}
				}
			}
			c.run(m)
			c.done = true
		}
	}
}

func newCall(op, k int) *call {
	return &call{op: op, k: k, v: nd.Int("v"), old: nd.Int("old"), after: make([]bool, 32)}
}

// HRWMapLin: two threads with one operation each, from every internal situation: results and final contents are those of some sequential order.
//
//gosym:check C20 mode=M
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=4
func HRWMapLin() {
	var m rmap
	o := newModel(2)
	how := nd.Case("prepare", preparations)
	a := nd.Case("a", concOps)
	b := nd.Case("b", concOps)
	kb := nd.Case("kb", 2)
	prepare(&m, o, how)
	calls := [][]*call{{newCall(a, 0)}, {newCall(b, kb)}}
	nd.Par(worker(&m, calls, 0), worker(&m, calls, 1))
	fin := state{make([]bool, 2), make([]int, 2)}
	for k := range fin.in {
		fin.v[k], fin.in[k] = m.Load(k)
	}
	nd.Assert(explained(calls, state{o.in, o.v}, fin), "results and final contents are those of some order of the operations")
}

// HRWMapLen: after two concurrent operations, Len is the number of keys.
//
//gosym:check C21 mode=M
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=4
func HRWMapLen() {
	var m rmap
	o := newModel(2)
	how := nd.Case("prepare", preparations)
	a := nd.Case("a", concOps)
	b := nd.Case("b", concOps)
	kb := nd.Case("kb", 2)
	prepare(&m, o, how)
	calls := [][]*call{{newCall(a, 0)}, {newCall(b, kb)}}
	nd.Par(worker(&m, calls, 0), worker(&m, calls, 1))
	quiet(&m, 2)
}

// quiet checks Len against the contents, with no operation in progress.
func quiet(m *rmap, nk int) {
	n := 0
	for k := 0; k < nk; k++ {
		_, in := m.Load(k)
		n += nd.B2I(in)
	}
	nd.Assert(m.Len() == int64(n), "Len at rest is the number of keys")
}

// HRWMapRangeConc: Range beside another operation visits no key twice, every key that stays exactly once, and only values the keys had.
//
//gosym:check C22 mode=M
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=4
func HRWMapRangeConc() {
	var m rmap
	o := newModel(2)
	how := nd.Case("prepare", preparations)
	a := nd.Case("a", concOps)
	k := nd.Case("k", 2)
	first := nd.Case("first", 2)
	prepare(&m, o, how)
	c := newCall(a, k)
	n := make([]int, 2)
	v := make([]int, 2)
	rng := func() {
		m.Range(func(k, x int) bool {
			nd.Assert(k == 0 || k == 1, "Range visits keys of the map")
			n[k]++
			v[k] = x
			return true
		})
	}
	op := func() { c.run(&m) }
	if first == 0 {
		nd.Par(rng, op)
	} else {
		nd.Par(op, rng)
	}
	before := state{o.in, o.v}
	after := before.clone()
	c.apply(&after)
	for k := range n {
		nd.Assert(n[k] <= 1, "Range visits no key twice")
		nd.Assert(nd.Implies(nd.And(before.in[k], after.in[k]), n[k] == 1), "Range visits every key that stays")
		nd.Assert(nd.Implies(nd.And(!before.in[k], !after.in[k]), n[k] == 0), "Range visits no key that was never there")
		nd.Assert(nd.Implies(n[k] == 1, nd.Or(nd.And(before.in[k], v[k] == before.v[k]), nd.And(after.in[k], v[k] == after.v[k]))), "Range passes values the keys had")
	}
}

// HRWMapLin2: a thread with two operations against one with a single operation, results and final contents in some order that respects the order in which the operations ran.
//
//gosym:check C20 mode=M
//gosym:quick ROUNDS=2 SOME=1
//gosym:thorough ROUNDS=3 SOME=0
func HRWMapLin2() {
	var m rmap
	o := newModel(2)
	how := nd.Case("prepare", preparations)
	var a, b, c int
	if nd.Param("SOME") == 1 { // the pairs that move a key in and out, with a reader
		pair := [][2]int{{1, 0}, {7, 0}, {3, 4}, {4, 3}, {8, 0}, {2, 6}}[nd.Case("pair", 6)]
		a, b = pair[0], pair[1]
		c = []int{1, 3, 4, 5, 8}[nd.Case("c", 5)]
	} else {
		a, b, c = nd.Case("a", concOps), nd.Case("b", concOps), nd.Case("c", concOps)
	}
	kb := nd.Case("kb", 2)
	prepare(&m, o, how)
	calls := [][]*call{{newCall(a, 0), newCall(b, kb)}, {newCall(c, 0)}}
	nd.Par(worker(&m, calls, 0), worker(&m, calls, 1))
	fin := state{make([]bool, 2), make([]int, 2)}
	for k := range fin.in {
		fin.v[k], fin.in[k] = m.Load(k)
	}
	nd.Assert(explained(calls, state{o.in, o.v}, fin), "results and final contents are those of some order of the operations")
}

// HRWMapLin3: three threads with one operation each.
//
//gosym:check C20 mode=M
//gosym:quick ROUNDS=2 SOME=1
//gosym:thorough ROUNDS=2 SOME=0
func HRWMapLin3() {
	var m rmap
	o := newModel(2)
	how := nd.Case("prepare", preparations)
	var a, b, c, kc int
	if nd.Param("SOME") == 1 { // one puts in, one takes out, one looks or does it again
		t := [][3]int{{1, 4, 0}, {3, 4, 0}, {4, 3, 3}}[nd.Case("triple", 3)]
		a, b, c = t[0], t[1], t[2]
	} else {
		some := []int{0, 1, 3, 4}
		a, b, c = some[nd.Case("a", 4)], some[nd.Case("b", 4)], some[nd.Case("c", 4)]
		kc = nd.Case("kc", 2)
	}
	prepare(&m, o, how)
	calls := [][]*call{{newCall(a, 0)}, {newCall(b, 0)}, {newCall(c, kc)}}
	nd.Par(worker(&m, calls, 0), worker(&m, calls, 1), worker(&m, calls, 2))
	fin := state{make([]bool, 2), make([]int, 2)}
	for k := range fin.in {
		fin.v[k], fin.in[k] = m.Load(k)
	}
	nd.Assert(explained(calls, state{o.in, o.v}, fin), "results and final contents are those of some order of the operations")
}

// HRWMapLen2: two operations beside one, then Len.
//
//gosym:check C21 mode=M
//gosym:quick ROUNDS=2 SOME=1
//gosym:thorough ROUNDS=3 SOME=0
func HRWMapLen2() {
	var m rmap
	o := newModel(2)
	how := nd.Case("prepare", preparations)
	var a, b, c, kb int
	if nd.Param("SOME") == 1 {
		t := [][4]int{{1, 4, 4, 0}, {4, 1, 3, 0}, {3, 4, 8, 0}, {1, 1, 4, 1}, {4, 4, 1, 1}, {7, 8, 3, 0}}[nd.Case("ops", 6)]
		a, b, c, kb = t[0], t[1], t[2], t[3]
	} else {
		a, b, c = nd.Case("a", concOps), nd.Case("b", concOps), nd.Case("c", concOps)
		kb = nd.Case("kb", 2)
	}
	prepare(&m, o, how)
	calls := [][]*call{{newCall(a, 0), newCall(b, kb)}, {newCall(c, 0)}}
	nd.Par(worker(&m, calls, 0), worker(&m, calls, 1))
	quiet(&m, 2)
}

// HRWMapRangeConc2: Range beside two operations.
//
//gosym:check C22 mode=M
//gosym:quick ROUNDS=2 SOME=1
//gosym:thorough ROUNDS=3 SOME=0
func HRWMapRangeConc2() {
	var m rmap
	o := newModel(2)
	how := nd.Case("prepare", preparations)
	var a, b, ka int
	if nd.Param("SOME") == 1 {
		t := [][3]int{{1, 4, 0}, {4, 1, 0}, {4, 1, 1}, {1, 0, 1}, {7, 1, 0}}[nd.Case("ops", 5)]
		a, b, ka = t[0], t[1], t[2]
	} else {
		a, b, ka = nd.Case("a", concOps), nd.Case("b", concOps), nd.Case("ka", 2)
	}
	prepare(&m, o, how)
	c1, c2 := newCall(a, ka), newCall(b, 0)
	n := make([]int, 2)
	v := make([]int, 2)
	nd.Par(func() {
		m.Range(func(k, x int) bool {
			nd.Assert(k == 0 || k == 1, "Range visits keys of the map")
			n[k]++
			v[k] = x
			return true
		})
	}, func() {
		c1.run(&m)
		c2.run(&m)
	})
	s0 := state{o.in, o.v}
	s1 := s0.clone()
	c1.apply(&s1)
	s2 := s1.clone()
	c2.apply(&s2)
	for k := range n {
		nd.Assert(n[k] <= 1, "Range visits no key twice")
		nd.Assert(nd.Implies(nd.And(s0.in[k], s1.in[k], s2.in[k], s0.v[k] == s1.v[k], s1.v[k] == s2.v[k]), n[k] == 1), "Range visits every key that stays")
		nd.Assert(nd.Implies(nd.And(!s0.in[k], !s1.in[k], !s2.in[k]), n[k] == 0), "Range visits no key that was never there")
		nd.Assert(nd.Implies(n[k] == 1, nd.Or(nd.And(s0.in[k], v[k] == s0.v[k]), nd.And(s1.in[k], v[k] == s1.v[k]), nd.And(s2.in[k], v[k] == s2.v[k]))), "Range passes values the keys had")
		fv, fin := m.Load(k)
		nd.Assert(nd.And(fin == s2.in[k], nd.Implies(fin, fv == s2.v[k])), "the map holds what the operations left")
	}
	quiet(&m, 2)
}
