package synccache

import (
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

// call is one operation on the cache, on the one key used, with what it observed.
type call struct {
	op   int
	id   int // what it stores
	dead bool
	r    int
	ok   bool
	vis  int
	lax  bool // deadlines may move meanwhile
}

const (
	concOps = 9
	trimOp  = 9 // a pass of the background cleaning
)

func (c *call) run(sc cache, first entry) {
	life := time.Duration(nd.Sel(c.dead, -5, 5)) * time.Second
	switch c.op {
	case 0:
		e, ok := sc.Load(0)
		c.ok = ok
		if ok {
			nd.Assert(c.lax || !e.IsExpired(), "Load returns no expired entry")
			c.r = e.Value()
		}
	case 1:
		sc.Store(0, c.id, life)
	case 2:
		e, loaded := sc.LoadOrStore(0, c.id, life)
		c.ok = loaded
		nd.Assert(c.lax || nd.Implies(loaded, !e.IsExpired()), "LoadOrStore loads no expired entry")
		c.r = e.Value()
	case 3:
		sc.Delete(0)
	case 4:
		e, ok := sc.LoadAndDelete(0)
		c.ok = ok
		if ok {
			nd.Assert(c.lax || !e.IsExpired(), "LoadAndDelete returns no expired entry")
			c.r = e.Value()
		}
	case 5:
		c.ok = sc.CompareValueAndDelete(0, 0)
	case 6:
		sc.Clear()
	case 7:
		sc.Range(func(k int, e entry) bool {
			c.vis++
			c.ok = true
			nd.Assert(c.lax || !e.IsExpired(), "Range passes no expired entry")
			c.r = e.Value()
			return true
		})
	case 8:
		if first != nil {
			c.ok = sc.CompareAndDelete(0, first)
		}
	case trimOp:
		nd.Tick()
	}
}

// state is the abstract cache: the live entry under the key, if any, and whether the first entry is there, live or not.
type state struct {
	in bool
	id int
}

// apply is the effect of c; it says whether the observed results are right.
func (c *call) apply(s *state, live bool) bool {
	in, id := s.in, s.id
	same := nd.And(c.ok == in, nd.Implies(in, c.r == id))
	switch c.op {
	case 0:
		return same
	case 1:
		s.in, s.id = !c.dead, c.id
		return true
	case 2:
		s.id = nd.Sel(in, id, c.id)
		s.in = nd.Or(in, !c.dead)
		return nd.And(c.ok == in, c.r == s.id)
	case 3, 6:
		s.in = false
		return true
	case 4:
		s.in = false
		return same
	case 5:
		hit := nd.And(in, id == 0)
		s.in = nd.And(in, !hit)
		return c.ok == hit
	case 7:
		return nd.And(same, c.vis <= 1)
	case 8:
		// an expired first entry may or may not still be there
		hit := nd.And(in, id == 0)
		s.in = nd.And(in, !hit)
		return nd.Implies(live, c.ok == hit)
	case trimOp:
		return true
	}
	return false
}

// HCacheLin: two concurrent operations on a key that is absent, alive or expired: their results are those of some order on a map of live entries, and the callback accounts for every entry exactly once.
//
//gosym:check C25 mode=M
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=4
func HCacheLin() {
	how := nd.Case("prepare", 3)
	a, b := nd.Case("a", concOps), nd.Case("b", concOps)
	lin(how, a, b, &synccache.SyncCache[int, int]{})
}

// HCacheSweep: an operation beside a pass of the background cleaning, which must not be noticed.
//
//gosym:check C25 mode=M
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=4
func HCacheSweep() {
	how := nd.Case("prepare", 3)
	a := nd.Case("a", concOps)
	nd.SetNow(1000 * year * 1000)
	sc := synccache.NewSyncCache[int, int](time.Second)
	if nd.Case("first", 2) == 0 {
		lin(how, a, trimOp, sc)
	} else {
		lin(how, trimOp, a, sc)
	}
	sc.Close()
}

// lin runs the operations a and b on the cache and checks what they observed.
func lin(how, a, b int, sc cache) {
	cb := nd.Case("callback", 2) == 1
	nd.SetNow(1000 * year * 1000)
	calls := make([]int, 3)
	if cb {
		synccache.WithDeletedCallback[int, int](func(v int) {
			nd.Assert(v >= 0 && v < 3, "the callback gets a stored value")
			calls[v]++
		})(sc)
	}
	var first entry
	live := false
	if how > 0 {
		sc.Store(0, 0, time.Hour)
		first, _ = sc.Load(0)
		if how == 2 {
			sc.Range(func(int, entry) bool { return true })
		}
		live = nd.Bool("live")
		first.SetExpiration(time.UnixMilli(nd.NowMs() + int64(nd.Sel(live, 1000, -1000))))
	}
	x, y := &call{op: a, id: 1, dead: nd.Bool("dead")}, &call{op: b, id: 2, dead: nd.Bool("dead")}
	nd.Par(func() { x.run(sc, first) }, func() { y.run(sc, first) })
	var fin state
	e, ok := sc.Load(0)
	fin.in = ok
	if ok {
		fin.id = e.Value()
	}
	order := func(p, q *call) bool {
		s := state{live, 0}
		r := p.apply(&s, live)
		r = nd.And(r, q.apply(&s, live))
		return nd.And(r, s.in == fin.in, nd.Implies(fin.in, s.id == fin.id))
	}
	nd.Assert(nd.Or(order(x, y), order(y, x)), "the results are those of some order of the operations")
	if !cb {
		return
	}
	// what was put in: the first entry, every Store, every LoadOrStore that stored
	put := []bool{how > 0, nd.Or(x.op == 1, nd.And(x.op == 2, !x.ok)), nd.Or(y.op == 1, nd.And(y.op == 2, !y.ok))}
	over := []bool{x.op == 1 || y.op == 1, y.op == 1, x.op == 1} // may have been overwritten by a Store
	for i := range calls {
		nd.Assert(calls[i] <= 1, "the callback is called at most once per entry")
		nd.Assert(nd.Implies(!put[i], calls[i] == 0), "no callback for an entry never in the cache")
		here := nd.And(fin.in, fin.id == i)
		nd.Assert(nd.Implies(here, calls[i] == 0), "no callback for an entry still in the cache")
		if !over[i] {
			nd.Assert(nd.Implies(nd.And(put[i], !here), calls[i] == 1), "a removed entry is called back")
		}
	}
	for _, c := range []*call{x, y} {
		if c.op == 4 {
			for i := range calls {
				nd.Assert(nd.Implies(nd.And(c.ok, c.r == i), calls[i] == 1), "a deleted entry is called back")
			}
		}
		if c.op == 5 || c.op == 8 {
			nd.Assert(nd.Implies(c.ok, calls[0] == 1), "a deleted entry is called back")
		}
	}
	if x.op == 8 && y.op == 8 {
		nd.Assert(!(x.ok && y.ok), "one entry is deleted once")
	}
}

// HCacheDeadline: deadlines moved concurrently: every AddExpiration counts, SetExpiration replaces, and an access beside a move sees the deadline before or after it.
//
//gosym:check C25 mode=M
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=4
func HCacheDeadline() {
	a, b := nd.Case("a", 2), nd.Case("b", 6)
	nd.SetNow(1000 * year * 1000)
	sc := synccache.NewSyncCache[int, int](time.Second)
	start := nd.NowMs() + int64(nd.Range("start", -1000000, 1000000))
	sc.Store(0, 0, time.Hour)
	e, _ := sc.Load(0)
	e.SetExpiration(time.UnixMilli(start))
	d := []int64{int64(nd.Range("d", -1000000, 1000000)), int64(nd.Range("d", -1000000, 1000000))}
	move := func(op, i int) func() {
		return func() {
			if op == 0 {
				e.AddExpiration(time.Duration(d[i]) * time.Millisecond)
			} else {
				e.SetExpiration(time.UnixMilli(nd.NowMs() + d[i]))
			}
		}
	}
	moved := func(op, i int, x int64) int64 {
		if op == 0 {
			return x + d[i]
		}
		return nd.NowMs() + d[i]
	}
	now := nd.NowMs()
	x := moved(a, 0, start)
	ok, r := false, false
	second := move(b, 1)
	switch b {
	case 2:
		second = func() { _, r = sc.Load(0) }
	case 3:
		second = func() { r = !e.IsExpired() }
	case 4:
		second = func() { sc.Range(func(int, entry) bool { r = true; return true }) }
	case 5:
		second = func() { _, r = sc.LoadAndDelete(0) }
	}
	nd.Par(move(a, 0), second)
	if b >= 2 {
		was, is := now <= start, now <= x
		nd.Assert(nd.Or(r == was, r == is), "an access sees the deadline before or after it moved")
		_, ok = sc.Load(0)
		if b == 5 {
			nd.Assert(!ok, "a deleted entry is gone")
		} else {
			nd.Assert(nd.Implies(ok, is), "an expired entry is not found")
			nd.Assert(nd.Implies(nd.And(is, was), ok), "a live entry is found")
			nd.Assert(nd.Implies(nd.And(is, r), ok), "an entry found alive is not removed")
		}
		return
	}
	xy := moved(b, 1, x)
	yx := moved(a, 0, moved(b, 1, start))
	nd.Advance(int64(nd.Range("later", 0, 3000000)) * 1000000)
	now = nd.NowMs()
	exp := e.IsExpired()
	nd.Assert(nd.Or(exp == (now > xy), exp == (now > yx)), "the deadline is that of some order of the moves")
	_, ok = sc.Load(0)
	nd.Assert(ok == !exp, "the cache goes by the deadline")
}

// HCacheLin2: two operations in one goroutine against one in another, or against a cleaning pass: the results are those of some order that respects the order in which the operations ran.
//
//gosym:check C25 mode=M
//gosym:quick ROUNDS=2 SOME=1
//gosym:thorough ROUNDS=3 SOME=0
func HCacheLin2() {
	how := nd.Case("prepare", 3)
	var a, b, o int
	if nd.Param("SOME") == 1 { // the pairs that put an entry in or take it out and look again
		p := [][2]int{{1, 0}, {2, 0}, {0, 2}, {3, 2}, {1, 4}, {4, 1}, {2, 7}, {1, 5}}[nd.Case("pair", 8)]
		a, b = p[0], p[1]
		o = []int{0, 1, 2, 4, 5, 6, trimOp}[nd.Case("o", 7)]
	} else {
		a, b, o = nd.Case("a", concOps), nd.Case("b", concOps), nd.Case("o", concOps+1)
	}
	first := nd.Case("first", 2)
	nd.SetNow(1000 * year * 1000)
	n := make([]int, 4)
	sc := synccache.NewSyncCache(time.Second, synccache.WithDeletedCallback[int, int](func(v int) {
		nd.Assert(v >= 0 && v < 4, "the callback gets a stored value")
		n[v]++
	}))
	var e entry
	live := false
	if how > 0 {
		sc.Store(0, 0, time.Hour)
		e, _ = sc.Load(0)
		if how == 2 {
			sc.Range(func(int, entry) bool { return true })
		}
		live = nd.Bool("live")
		e.SetExpiration(time.UnixMilli(nd.NowMs() + int64(nd.Sel(live, 1000, -1000))))
	}
	x1, x2, y := &call{op: a, id: 1, dead: nd.Bool("dead")}, &call{op: b, id: 2, dead: nd.Bool("dead")}, &call{op: o, id: 3, dead: nd.Bool("dead")}
	var x1Done, x2Done, yDone bool        // has ended
	var x1Before, x2Before, yBefore1 bool // x1, x2 ended before y began; y ended before x1 began
	yBefore2 := false
	tx := func() {
		yBefore1 = yDone
		x1.run(sc, e)
		x1Done = true
		nd.Yield()
		yBefore2 = yDone
		x2.run(sc, e)
		x2Done = true
	}
	ty := func() {
		x1Before, x2Before = x1Done, x2Done
		y.run(sc, e)
		yDone = true
	}
	if first == 0 {
		nd.Par(tx, ty)
	} else {
		nd.Par(ty, tx)
	}
	var fin state
	f, ok := sc.Load(0)
	fin.in = ok
	if ok {
		fin.id = f.Value()
	}
	order := func(cs ...*call) bool {
		s := state{live, 0}
		r := true
		for _, c := range cs {
			r = nd.And(r, c.apply(&s, live))
		}
		return nd.And(r, s.in == fin.in, nd.Implies(fin.in, s.id == fin.id))
	}
	nd.Assert(nd.Or(
		nd.And(!x1Before, order(y, x1, x2)),
		nd.And(!yBefore1, !x2Before, order(x1, y, x2)),
		nd.And(!yBefore2, order(x1, x2, y)),
	), "the results are those of some order of the operations")
	put := []bool{how > 0, nd.Or(a == 1, nd.And(a == 2, !x1.ok)), nd.Or(b == 1, nd.And(b == 2, !x2.ok)), nd.Or(o == 1, nd.And(o == 2, !y.ok))}
	stores := nd.B2I(a == 1) + nd.B2I(b == 1) + nd.B2I(o == 1)
	gone, back := 0, 0
	for i := range n {
		nd.Assert(n[i] <= nd.B2I(put[i]), "the callback is called at most once per entry")
		here := nd.And(fin.in, fin.id == i)
		nd.Assert(nd.Implies(here, n[i] == 0), "no callback for an entry still in the cache")
		gone += nd.B2I(nd.And(put[i], !here))
		back += n[i]
	}
	nd.Assert(back <= gone && gone <= back+stores, "every entry that is gone was called back, or overwritten by a Store")
	sc.Close()
}
