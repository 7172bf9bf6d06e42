// Package synccache drives github.com/zijiren233/gencontainer/synccache with a symbolic clock.
package synccache

import (
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

type cache = *synccache.SyncCache[int, int]
type entry = *synccache.Entry[int]

// slot is what the model knows of the entry now under a key; ids are the stored values.
type slot struct {
	in  bool
	id  int
	end int64 // the last millisecond at which it is alive
	e   entry // a handle obtained from the cache, if any
}

type world struct {
	c     cache
	s     []slot
	ids   int
	calls []int // per id: deletion callbacks so far
	due   []int // per id: deletion callbacks expected so far
	cb    bool
}

const year = 1000 * 3600 * 24 * 365

func start(keys int, cb bool) *world {
	nd.SetNow((1 + nd.Nat("ms", 40)) * 1000000)
	w := &world{s: make([]slot, keys), cb: cb}
	if cb {
		w.c = synccache.NewSyncCache[int, int](time.Second, synccache.WithDeletedCallback[int, int](func(v int) {
			nd.Assert(v >= 0 && v < w.ids, "the callback gets a stored value")
			w.calls[v]++
			nd.Assert(w.calls[v] <= 1, "the callback is called at most once per entry")
		}))
	} else {
		w.c = synccache.NewSyncCache[int, int](time.Second)
	}
	return w
}

func (w *world) newID() int {
	w.ids++
	w.calls = append(w.calls, 0)
	w.due = append(w.due, 0)
	return w.ids - 1
}

// life is how long an entry lives: any number of milliseconds, also none or negative.
func life() int64 {
	return nd.Nat("life", 38) - 1<<35
}

func (w *world) tick() {
	nd.Advance(nd.Nat("d", 38) * 1000000)
}

func (w *world) alive(k int) bool { return w.s[k].in && nd.NowMs() <= w.s[k].end }

// gone takes the entry out of the model, its callback being due.
func (w *world) gone(k int) {
	w.s[k].in = false
	w.due[w.s[k].id]++
}

func (w *world) callbacks(what string) {
	if !w.cb {
		return
	}
	for i := range w.calls {
		nd.Assert(w.calls[i] == w.due[i], what+": the callback is called once for every entry deleted or found expired, and for no other")
	}
}

// expire drops the entry under k if it has expired, as every access to it does.
func (w *world) expire(k int) {
	if w.s[k].in && !w.alive(k) {
		w.gone(k)
		nd.Cover("found expired")
	}
}

func (w *world) store(k int) {
	d, id := life(), w.newID()
	w.c.Store(k, id, time.Duration(d)*time.Millisecond)
	w.s[k] = slot{in: true, id: id, end: nd.NowMs() + d}
}

func (w *world) load(k int) {
	e, ok := w.c.Load(k)
	w.expire(k)
	nd.Assert(ok == w.s[k].in, "Load finds exactly the keys that are alive")
	if ok {
		nd.Assert(e.Value() == w.s[k].id, "Load returns the stored value")
		nd.Assert(!e.IsExpired(), "Load returns no expired entry")
		w.s[k].e = e
	} else {
		nd.Assert(e == nil, "Load of an absent key returns nil")
	}
}

const ops = 10

func (w *world) step(op, k int) {
	switch op {
	case 0:
		w.store(k)
	case 1:
		w.load(k)
	case 2:
		d, id := life(), w.newID()
		e, loaded := w.c.LoadOrStore(k, id, time.Duration(d)*time.Millisecond)
		w.expire(k)
		nd.Assert(loaded == w.s[k].in, "LoadOrStore loads exactly the keys that are alive")
		if !loaded {
			w.s[k] = slot{in: true, id: id, end: nd.NowMs() + d}
		}
		nd.Assert(e != nil && e.Value() == w.s[k].id, "LoadOrStore returns the present or the stored value")
		w.s[k].e = e
	case 3:
		w.c.Delete(k)
		if w.s[k].in {
			w.gone(k)
		}
	case 4:
		was := w.alive(k)
		e, ok := w.c.LoadAndDelete(k)
		nd.Assert(ok == was, "LoadAndDelete finds exactly the keys that are alive")
		nd.Assert(!ok || e.Value() == w.s[k].id, "LoadAndDelete returns the stored value")
		if w.s[k].in {
			w.gone(k)
		}
	case 5:
		// the entry itself, when known, deletes; an entry that was replaced or removed does not
		e := w.s[k].e
		if e == nil {
			e = synccache.NewEntry[int](w.s[k].id, time.Hour)
			nd.Assert(!w.c.CompareAndDelete(k, e), "CompareAndDelete of an entry that is not in the cache")
			return
		}
		ok := w.c.CompareAndDelete(k, e)
		nd.Assert(ok == w.s[k].in, "CompareAndDelete deletes exactly the entry given")
		if ok {
			w.gone(k)
		}
	case 6:
		v := nd.Range("v", -1, 6)
		was := w.alive(k)
		ok := w.c.CompareValueAndDelete(k, v)
		w.expire(k)
		nd.Assert(ok == (was && v == w.s[k].id), "CompareValueAndDelete deletes exactly a live equal value")
		if ok {
			w.gone(k)
		}
	case 7:
		w.c.Clear()
		for i := range w.s {
			if w.s[i].in {
				w.gone(i)
			}
		}
	case 8:
		seen := make([]bool, len(w.s))
		w.c.Range(func(k int, e entry) bool {
			nd.Assert(k >= 0 && k < len(w.s) && !seen[k] && w.alive(k), "Range visits live keys, each once")
			nd.Assert(e.Value() == w.s[k].id, "Range passes the stored value")
			seen[k] = true
			return true
		})
		for i := range w.s {
			w.expire(i)
			nd.Assert(seen[i] == w.s[i].in, "Range visits every live key")
		}
	case 9: // move the deadline of an entry obtained earlier
		if w.s[k].e == nil {
			w.load(k)
		}
		if e := w.s[k].e; e != nil {
			d := life()
			if nd.Bool("set") {
				e.SetExpiration(time.UnixMilli(nd.NowMs() + d))
				w.s[k].end = nd.NowMs() + d
			} else {
				e.AddExpiration(time.Duration(d) * time.Millisecond)
				w.s[k].end += d
			}
			nd.Assert(e.IsExpired() == (nd.NowMs() > w.s[k].end), "IsExpired follows the moved deadline")
		}
	}
}

func (w *world) run(n int, opsOf []int, keyOf []int) {
	for i := 0; i < n; i++ {
		w.step(opsOf[i], keyOf[i])
		w.callbacks("after the operation")
		w.tick()
	}
	for k := range w.s {
		w.load(k)
	}
	w.callbacks("at the end")
}

func history(n, keys int) (o, k []int) {
	for i := 0; i < n; i++ {
		op := nd.Case("op", ops)
		o = append(o, op)
		kk := 0
		if i > 0 && op != 7 && op != 8 {
			kk = nd.Case("key", keys)
		}
		k = append(k, kk)
	}
	return
}

// HCacheExpiry: over any clock, lifetimes and histories, an entry is returned exactly until its deadline, and the operations otherwise act as on a map.
//
//gosym:check C23 shim=1 split=6
//gosym:quick OPS=3 KEYS=2
//gosym:thorough OPS=4 KEYS=2
func HCacheExpiry() {
	o, k := history(nd.Param("OPS"), nd.Param("KEYS"))
	w := start(nd.Param("KEYS"), false)
	w.run(nd.Param("OPS"), o, k)
}

// HCacheExpiryFull: the same from a cache that already holds two entries.
//
//gosym:check C23 shim=1 split=4
//gosym:quick OPS=2
//gosym:thorough OPS=3
func HCacheExpiryFull() {
	o, k := history(nd.Param("OPS"), 2)
	w := start(2, false)
	w.store(0)
	w.store(1)
	w.tick()
	w.run(nd.Param("OPS"), o, k)
}

// HCacheNanos: an entry is alive until its lifetime has passed, to the nanosecond, and dead a millisecond later.
//
//gosym:check C23 shim=1
//gosym:quick SPAN=4000000
//gosym:thorough SPAN=16000000
func HCacheNanos() {
	t, d, s := nd.I64("t"), nd.I64("life"), nd.I64("later")
	lim := int64(nd.Param("SPAN"))
	nd.Assume(t >= 0 && t < lim && d >= 0 && d < lim && s >= 0 && s < lim)
	nd.SetNow(t)
	e := synccache.NewEntry[int](7, time.Duration(d))
	nd.Advance(s)
	x := e.IsExpired()
	nd.Assert(nd.Implies(s <= d, !x), "an entry is alive until its lifetime has passed")
	nd.Assert(nd.Implies(s >= d+1000000, x), "an entry is dead a millisecond after its lifetime")
}

// HCacheCallback: the deletion callback is called exactly once, with the value, for every entry that is deleted, cleared or found expired, and for no other.
//
//gosym:check C24 shim=1 split=6
//gosym:quick OPS=3 KEYS=2
//gosym:thorough OPS=4 KEYS=2
func HCacheCallback() {
	o, k := history(nd.Param("OPS"), nd.Param("KEYS"))
	w := start(nd.Param("KEYS"), true)
	w.run(nd.Param("OPS"), o, k)
}

// HCacheCallbackFull: the same from a cache that already holds two entries.
//
//gosym:check C24 shim=1 split=4
//gosym:quick OPS=2
//gosym:thorough OPS=3
func HCacheCallbackFull() {
	o, k := history(nd.Param("OPS"), 2)
	w := start(2, true)
	w.store(0)
	w.store(1)
	w.tick()
	w.run(nd.Param("OPS"), o, k)
}

// HCacheTrim: the background cleaning removes exactly the expired entries of every started cache, calling back once for each; closed caches are left alone until started again.
//
//gosym:check C24 shim=1 split=3
//gosym:quick KEYS=2
//gosym:thorough KEYS=3
func HCacheTrim() {
	second := nd.Case("second", 2) == 1
	closed := nd.Case("closed", 3)
	w := start(nd.Param("KEYS"), true)
	var other cache
	if second { // another cache of another type is cleaned, too
		synccache.NewSyncCache[string, string](time.Second).Store("x", "y", 0)
		other = synccache.NewSyncCache[int, int](time.Second)
		other.Store(5, 6, time.Duration(year)*time.Millisecond*90)
	}
	for k := range w.s {
		w.store(k)
	}
	switch closed {
	case 1:
		w.c.Close()
	case 2:
		w.c.Close()
		w.c.Start()
	}
	nd.Background()
	w.tick()
	nd.FireTickers()
	if closed != 1 {
		for k := range w.s {
			w.expire(k)
		}
	}
	w.callbacks("after a tick")
	nd.FireTickers()
	w.callbacks("after another tick")
	for k := range w.s {
		w.load(k)
	}
	w.callbacks("at the end")
	nd.Assert(nd.Tickers() == 1, "one background cleaner serves every cache")
	if second {
		e, ok := other.Load(5)
		nd.Assert(ok && e.Value() == 6, "the other cache keeps its live entry")
	}
}

// HCacheMany: many entries, some of which have expired: an iteration (also one that is stopped), a cleaning pass or accesses keep exactly the live ones.
//
//gosym:check C24 shim=1 split=3
//gosym:quick N=8
//gosym:thorough N=24
func HCacheMany() {
	n := nd.Param("N")
	pat := nd.Case("expired", 4)
	act := nd.Case("act", 4)
	w := start(n, true)
	for k := range w.s {
		d := int64(10)
		switch pat {
		case 1:
			d = 1000
		case 2:
			d = int64(10 + 990*(k%2))
		case 3:
			d = int64(10 + 990*(k/(n/2)))
		}
		id := w.newID()
		w.c.Store(k, id, time.Duration(d)*time.Millisecond)
		w.s[k] = slot{in: true, id: id, end: nd.NowMs() + d}
	}
	w.callbacks("stored")
	nd.Background()
	nd.Advance(500 * 1000000)
	switch act {
	case 0:
		w.step(8, 0)
	case 1:
		nd.FireTickers()
		for k := range w.s {
			w.expire(k)
		}
	case 2: // a stopped iteration passes live entries up to the stop only
		cut, calls := nd.Pick("cut", 3), 0
		live := 0
		for k := range w.s {
			if w.alive(k) {
				live++
			}
		}
		w.c.Range(func(k int, e entry) bool {
			calls++
			nd.Assert(w.alive(k) && e.Value() == w.s[k].id, "Range visits live keys")
			return calls <= cut
		})
		nd.Assert(calls == min(live, cut+1), "Range stops exactly when told to")
		w.step(8, 0)
	case 3:
		w.step(7, 0)
	}
	w.callbacks("afterwards")
	for k := range w.s {
		w.load(k)
	}
	w.callbacks("at the end")
}

func typed[V any](x, y V, same bool, is func(V, V) bool) {
	n := 0
	sc := synccache.NewSyncCache[string, V](time.Second, synccache.WithDeletedCallback[string, V](func(v V) {
		nd.Assert(is(v, x), "the callback gets the stored value")
		n++
	}))
	defer sc.Close()
	sc.Store("k", x, time.Hour)
	e, ok := sc.Load("k")
	nd.Assert(ok && is(e.Value(), x), "Load returns the stored value")
	nd.Assert(!sc.CompareValueAndDelete("other", y), "an absent key equals nothing")
	nd.Assert(!sc.CompareAndDelete("k", synccache.NewEntry(x, time.Hour)), "CompareAndDelete removes exactly the entry it is given")
	nd.Assert(sc.CompareValueAndDelete("k", y) == same, "CompareValueAndDelete compares with ==")
	_, ok = sc.Load("k")
	nd.Assert(ok != same && (n == 1) == same, "CompareValueAndDelete deletes exactly when it succeeds")
}

type pair struct {
	a int
	s string
}

// HCacheTypes: values of every comparable type are kept and compared as == does, pointers by identity and interfaces by type and value.
//
//gosym:check C23 shim=1 split=3
//gosym:quick
//gosym:thorough
func HCacheTypes() {
	nd.SetNow(1000 * year * 1000)
	n := nd.Int("n")
	switch nd.Case("type", 5) {
	case 0:
		p, q := &n, new(int)
		*q = n
		if nd.Case("same", 2) == 1 {
			q = p
		}
		typed(p, q, p == q, func(a, b *int) bool { return a == b })
	case 1:
		x, y := nd.Str("x", nd.Pick("lx", 3)), nd.Str("y", nd.Pick("ly", 3))
		typed(x, y, x == y, func(a, b string) bool { return a == b })
	case 2:
		x, y := pair{n, nd.Str("x", 1)}, pair{nd.Int("b"), nd.Str("y", 1)}
		typed(x, y, x == y, func(a, b pair) bool { return a == b })
	case 3:
		vals := []any{nil, n, int64(n), "s", &n, pair{n, ""}}
		x, y := vals[nd.Case("x", len(vals))], vals[nd.Case("y", len(vals))]
		typed(x, y, x == y, func(a, b any) bool { return a == b })
	case 4:
		x, y := nd.F64("x"), nd.F64("y")
		nd.Assume(x == x)
		typed(x, y, x == y, func(a, b float64) bool { return a == b })
	}
}
