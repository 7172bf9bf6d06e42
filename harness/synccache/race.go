package synccache

import (
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

// HCacheRace: two concurrent operations on a cache or on one of its entries have no data race.
//
//gosym:check C30 mode=M race=1
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=3
func HCacheRace() {
	how := nd.Case("prepare", 3)
	a := nd.Case("a", concOps+3)
	b := a + nd.Case("b", concOps+3-a)
	nd.SetNow(1000 * year * 1000)
	sc := &synccache.SyncCache[int, int]{}
	synccache.WithDeletedCallback[int, int](func(v int) {})(sc)
	var first entry
	if how > 0 {
		sc.Store(0, 0, time.Hour)
		first, _ = sc.Load(0)
		if how == 2 {
			sc.Range(func(int, entry) bool { return true })
		}
		first.SetExpiration(time.UnixMilli(nd.NowMs() + int64(nd.Sel(nd.Bool("live"), 1000, -1000))))
	}
	op := func(op, id int) func() {
		c := &call{op: op, id: id, lax: true}
		return func() {
			switch {
			case op < concOps:
				c.run(sc, first)
			case first == nil:
			case op == concOps:
				first.SetExpiration(time.UnixMilli(5000))
			case op == concOps+1:
				first.AddExpiration(time.Second)
			default:
				first.IsExpired()
			}
		}
	}
	nd.Par(op(a, 1), op(b, 2))
}

// HCacheSweepRace: an operation on a cache or an entry, or the making, starting or closing of a cache, beside a pass of the background cleaning has no data race.
//
//gosym:check C30 mode=M race=1
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=3
func HCacheSweepRace() {
	how := nd.Case("prepare", 3)
	a := nd.Case("a", concOps+5)
	nd.SetNow(1000 * year * 1000)
	sc := synccache.NewSyncCache(time.Second, synccache.WithDeletedCallback[int, int](func(v int) {}))
	var first entry
	if how > 0 {
		sc.Store(0, 0, time.Hour)
		first, _ = sc.Load(0)
		if how == 2 {
			sc.Range(func(int, entry) bool { return true })
		}
		first.SetExpiration(time.UnixMilli(nd.NowMs() + int64(nd.Sel(nd.Bool("live"), 1000, -1000))))
	}
	c := &call{op: a, id: 1, lax: true}
	var made cache
	op := func() {
		switch {
		case a < concOps:
			c.run(sc, first)
		case a == concOps:
			made = synccache.NewSyncCache(time.Second, synccache.WithDeletedCallback[int, int](func(v int) {}))
		case a == concOps+1:
			sc.Close()
		case a == concOps+2:
			sc.Start()
		case first == nil:
		case a == concOps+3:
			first.SetExpiration(time.UnixMilli(5000))
		case a == concOps+4:
			first.AddExpiration(time.Second)
		}
	}
	if nd.Case("first", 2) == 0 {
		nd.Par(op, nd.Tick)
	} else {
		nd.Par(nd.Tick, op)
	}
	sc.Close()
	if made != nil {
		made.Close()
	}
}
