// Package refreshcache drives github.com/zijiren233/gencontainer/refreshcache, refreshcache0 and refreshcache1 with a symbolic clock, symbolic ages and symbolic refresh results.
package refreshcache

import (
	"context"
	"errors"
	"time"

	rc "github.com/zijiren233/gencontainer/refreshcache"
	rc0 "github.com/zijiren233/gencontainer/refreshcache0"
	rc1 "github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

// cache is what the three variants have in common.
type cache struct {
	get, refresh func(arg int) (int, error)
	raw          func() (int, error)
	clear        func(arg int) error
	setClear     func(f func(ctx context.Context, arg int) error)
	setRefresh   func(f func(ctx context.Context, arg int) (int, error))
	last         func() int64
	lastErr      func() int64
	times        func() (time.Time, time.Time)
	funcs        func() // looks at the configured functions
	ages         func() (int64, int64)
	old          any // the context key of the previous value
	hasArg       bool
}

func mk(variant int, maxAge, errAge int64, hasErrAge bool, f func(ctx context.Context, arg int) (int, error)) *cache {
	ctx := context.Background()
	switch variant {
	case 0:
		var opts []rc.RefreshDataOption[int, int]
		if hasErrAge {
			opts = append(opts, rc.WithErrAge[int, int](time.Duration(errAge)))
		}
		wrap := func(f func(ctx context.Context, arg int) (int, error)) rc.RefreshFunc[int, int] {
			return func(ctx context.Context, args ...int) (int, error) {
				nd.Assert(len(args) == 2 && args[1] == 77, "the refresh function gets the caller's arguments")
				return f(ctx, args[0])
			}
		}
		c := rc.NewRefreshCache(wrap(f), time.Duration(maxAge), opts...)
		return &cache{
			get:     func(a int) (int, error) { return c.Get(ctx, a, 77) },
			refresh: func(a int) (int, error) { return c.Refresh(ctx, a, 77) },
			raw:     c.Raw, clear: func(a int) error { return c.Clear(ctx, a, 77) },
			setClear: func(f func(ctx context.Context, arg int) error) {
				c.SetClearFunc(func(ctx context.Context, args ...int) error {
					nd.Assert(len(args) == 2 && args[1] == 77, "the clear function gets the caller's arguments")
					return f(ctx, args[0])
				})
			},
			setRefresh: func(f func(ctx context.Context, arg int) (int, error)) { c.SetRefreshFunc(wrap(f)) },
			last:       c.Last, lastErr: c.LastErr, old: rc.OldValKey, hasArg: true,
			times: func() (time.Time, time.Time) { return c.LastTime(), c.LastErrTime() },
			funcs: func() { c.GetRefreshFunc(); c.GetClearFunc() },
			ages:  func() (int64, int64) { return c.MaxAge(), c.MaxErrAge() },
		}
	case 1:
		var opts []rc0.RefreshDataOption[int]
		if hasErrAge {
			opts = append(opts, rc0.WithErrAge[int](time.Duration(errAge)))
		}
		wrap := func(f func(ctx context.Context, arg int) (int, error)) rc0.RefreshFunc[int] {
			return func(ctx context.Context) (int, error) { return f(ctx, 0) }
		}
		c := rc0.NewRefreshCache(wrap(f), time.Duration(maxAge), opts...)
		return &cache{
			get:     func(a int) (int, error) { return c.Get(ctx) },
			refresh: func(a int) (int, error) { return c.Refresh(ctx) },
			raw:     c.Raw, clear: func(a int) error { return c.Clear(ctx) },
			setClear: func(f func(ctx context.Context, arg int) error) {
				c.SetClearFunc(func(ctx context.Context) error { return f(ctx, 0) })
			},
			setRefresh: func(f func(ctx context.Context, arg int) (int, error)) { c.SetRefreshFunc(wrap(f)) },
			last:       c.Last, lastErr: c.LastErr, old: rc0.OldValKey,
			times: func() (time.Time, time.Time) { return c.LastTime(), c.LastErrTime() },
			funcs: func() { c.GetRefreshFunc(); c.GetClearFunc() },
			ages:  func() (int64, int64) { return c.MaxAge(), c.MaxErrAge() },
		}
	default:
		var opts []rc1.RefreshDataOption[int, int]
		if hasErrAge {
			opts = append(opts, rc1.WithErrAge[int, int](time.Duration(errAge)))
		}
		c := rc1.NewRefreshCache(rc1.RefreshFunc[int, int](f), time.Duration(maxAge), opts...)
		return &cache{
			get:     func(a int) (int, error) { return c.Get(ctx, a) },
			refresh: func(a int) (int, error) { return c.Refresh(ctx, a) },
			raw:     c.Raw, clear: func(a int) error { return c.Clear(ctx, a) },
			setClear:   func(f func(ctx context.Context, arg int) error) { c.SetClearFunc(f) },
			setRefresh: func(f func(ctx context.Context, arg int) (int, error)) { c.SetRefreshFunc(f) },
			last:       c.Last, lastErr: c.LastErr, old: rc1.OldValKey, hasArg: true,
			times: func() (time.Time, time.Time) { return c.LastTime(), c.LastErrTime() },
			funcs: func() { c.GetRefreshFunc(); c.GetClearFunc() },
			ages:  func() (int64, int64) { return c.MaxAge(), c.MaxErrAge() },
		}
	}
}

var errs = []error{errors.New("first"), errors.New("second"), errors.New("third"), errors.New("fourth"), errors.New("fifth")}

// world is the model: what the last refresh left behind, and when.
type world struct {
	maxAge, errAge int64
	valid          bool // the last refresh succeeded and was not cleared since
	at             int64
	val            int // the most recent successful result (0: none)
	failed         bool
	errAt          int64
	err            error
	calls          int
	nextVal        int
	nextErr        error
	mode           int // 0 return a value, 1 return an error (with a value), 2 panic
	took           int64
	arg            int
	old            any
	hasArg         bool
	gotOld         bool
}

// fn is the refresh function: it takes time, then returns or panics as the world says.
func (w *world) fn(ctx context.Context, arg int) (int, error) {
	w.calls++
	nd.Assert(!w.hasArg || arg == w.arg, "the refresh function gets the caller's argument")
	o, ok := ctx.Value(w.old).(int)
	nd.Assert(ok && o == w.val, "the refresh function sees the previous value")
	nd.Advance(w.took)
	if w.mode == 2 {
		panic("refresh failed")
	}
	if w.mode == 1 {
		return w.nextVal, w.nextErr
	}
	return w.nextVal, nil
}

func (w *world) fresh() bool {
	return w.valid && (w.maxAge < 0 || nd.Now()-w.at < w.maxAge)
}

func (w *world) errFresh() bool {
	return w.failed && w.errAge > 0 && nd.Now()-w.errAt < w.errAge
}

// refreshed updates the model after a call of the refresh function that returned.
func (w *world) refreshed() {
	if w.mode == 0 {
		w.valid, w.at, w.val, w.failed = true, nd.Now(), w.nextVal, false
	} else {
		w.valid, w.failed, w.errAt, w.err = false, true, nd.Now(), w.nextErr
	}
}

// plan picks what the next refresh will do.
func (w *world) plan(i, modes int) {
	w.nextVal, w.arg = nd.Int("val"), nd.Int("arg")
	w.nextErr = errs[i]
	w.mode = nd.Pick("mode", modes)
	w.took = nd.Nat("took", span)
}

const span = 58 // bits: steps of the clock of up to nine years

func start(variant int) (*world, *cache) {
	nd.SetNow(1 + nd.Nat("now", 61))
	w := &world{maxAge: nd.I64("maxAge"), errAge: nd.I64("errAge")}
	has := true
	if variant >= 3 { // without the option there is no error caching
		has = false
		w.errAge = 0
		variant -= 3
	}
	c := mk(variant, w.maxAge, w.errAge, has, w.fn)
	w.old, w.hasArg = c.old, c.hasArg
	ma, ea := c.ages()
	nd.Assert(ma == w.maxAge && ea == w.errAge, "the configured ages are reported")
	return w, c
}

// choices makes the structural choices of a history up front, so that the exploration splits over them.
func choices(name string, n, of int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, nd.Case(name, of))
	}
	return out
}

func tick() {
	nd.Advance(nd.Nat("d", span))
}

// get performs a Get and checks it against the model.
func (w *world) get(c *cache) {
	n := w.calls
	fresh, errFresh := w.fresh(), w.errFresh()
	v, err := c.get(w.arg)
	switch {
	case fresh:
		nd.Assert(w.calls == n, "Get does not refresh while the value is fresh")
		nd.Assert(err == nil && v == w.val, "Get returns the cached value while it is fresh")
	case errFresh:
		nd.Assert(w.calls == n, "Get does not refresh while the error is cached")
		nd.Assert(err == w.err, "Get returns the cached error")
		nd.Assert(v == 0, "Get returns no value with a cached error")
	default:
		nd.Assert(w.calls == n+1, "Get refreshes exactly once when nothing is fresh")
		w.returned(v, err)
	}
}

func (w *world) returned(v int, err error) {
	if w.mode == 0 {
		nd.Assert(err == nil && v == w.nextVal, "the refreshed value is returned")
	} else {
		nd.Assert(err == w.nextErr, "the refresh error is returned")
	}
	w.refreshed()
}

func (w *world) rawCheck(c *cache) {
	n := w.calls
	fresh, errFresh := w.fresh(), w.errFresh()
	v, err := c.raw()
	nd.Assert(w.calls == n, "Raw never refreshes")
	if fresh {
		nd.Assert(err == nil && v == w.val, "Raw returns the fresh value")
	} else if errFresh {
		nd.Assert(err == w.err, "Raw returns the cached error")
	} else {
		nd.Assert(v == w.val, "Raw returns the most recent value")
		if w.failed {
			nd.Assert(err == w.err, "Raw returns the error of the last refresh")
		} else {
			nd.Assert(err == nil, "Raw returns no error unless the last refresh failed")
		}
	}
	l := c.last()
	nd.Assert(nd.SelB(w.valid, l == w.at, l == 0), "Last is the time of the last successful refresh, 0 when there is no valid value")
	if w.failed {
		nd.Assert(c.lastErr() == w.errAt, "LastErr is the time of the last failed refresh")
	} else {
		nd.Assert(c.lastErr() == 0, "LastErr is 0 unless the last refresh failed")
	}
	t, te := c.times()
	nd.Assert(nd.And(t.UnixNano() == l, te.UnixNano() == c.lastErr()), "LastTime and LastErrTime are Last and LastErr as times")
}

// HRefreshGet: in any history of successful refreshes over any clock, Get returns the cached value exactly while its age is below the maximum and otherwise refreshes once.
//
//gosym:check C26 shim=1 split=4
//gosym:quick OPS=4
//gosym:thorough OPS=5
func HRefreshGet() {
	variant := nd.Case("variant", 6)
	via := choices("refresh", nd.Param("OPS")-1, 2)
	w, c := start(variant)
	for i := 0; i < nd.Param("OPS"); i++ {
		w.plan(i, 1)
		if i > 0 {
			tick()
		}
		if i > 0 && via[i-1] == 1 {
			n := w.calls
			v, err := c.refresh(w.arg)
			nd.Assert(w.calls == n+1, "Refresh always refreshes")
			w.returned(v, err)
		} else {
			if i > 0 && w.fresh() {
				nd.Cover("fresh")
			}
			w.get(c)
		}
	}
	tick()
	w.rawCheck(c)
}

// HRefreshErr: errors are returned, cached for the error age only, and never leave a stale or zero value marked fresh.
//
//gosym:check C27 shim=1 split=4
//gosym:quick OPS=3
//gosym:thorough OPS=4
func HRefreshErr() {
	variant := nd.Case("variant", 6)
	via := choices("refresh", nd.Param("OPS")-1, 2)
	w, c := start(variant)
	for i := 0; i < nd.Param("OPS"); i++ {
		w.plan(i, 2)
		if i > 0 {
			tick()
		}
		if i > 0 && via[i-1] == 1 {
			n := w.calls
			v, err := c.refresh(w.arg)
			nd.Assert(w.calls == n+1, "Refresh always refreshes")
			w.returned(v, err)
		} else {
			w.get(c)
		}
		if w.failed {
			nd.Cover("failed")
		}
	}
	tick()
	w.rawCheck(c)
}

// HRefreshClear: Clear makes the next Get refresh, passes the previous value and the arguments to the clear function and returns its error; replaced functions take effect at once.
//
//gosym:check C29 shim=1 split=5
//gosym:quick OPS=3
//gosym:thorough OPS=4
func HRefreshClear() {
	variant := nd.Case("variant", 6)
	ops := choices("op", nd.Param("OPS"), 3)
	w, c := start(variant)
	how := nd.Case("clearfunc", 4) // none, returning, looking at the cache, panicking
	hasClear := how > 0
	cleared := 0
	var cerr error
	if hasClear {
		c.setClear(func(ctx context.Context, arg int) error {
			cleared++
			nd.Assert(!w.hasArg || arg == w.arg, "the clear function gets the caller's argument")
			o, ok := ctx.Value(w.old).(int)
			nd.Assert(ok && o == w.val, "the clear function sees the previous value")
			switch how {
			case 2:
				nd.Assert(c.last() == 0, "no value is valid any more when the clear function runs")
				w.valid = false
				w.get(c)
			case 3:
				panic("clear failed")
			}
			return cerr
		})
	}
	for i := 0; i < nd.Param("OPS"); i++ {
		w.plan(i, 2)
		tick()
		switch ops[i] {
		case 0:
			w.get(c)
		case 1:
			n, k := w.calls, cleared
			cerr = nil
			if i%2 == 0 {
				cerr = errs[4]
			}
			var e error
			p := nd.Panics(func() { e = c.clear(w.arg) })
			nd.Assert(p == (how == 3), "a panic of the clear function reaches the caller")
			if how != 2 {
				nd.Assert(w.calls == n, "Clear does not refresh")
				w.valid = false
			}
			switch how {
			case 0:
				nd.Assert(e == nil, "Clear without a clear function succeeds")
			case 3:
				nd.Assert(cleared == k+1, "Clear calls the clear function once")
			default:
				nd.Assert(cleared == k+1 && e == cerr, "Clear calls the clear function once and returns its error")
			}
		case 2: // another refresh function
			old := w.fn
			called := false
			c.setRefresh(func(ctx context.Context, arg int) (int, error) {
				called = true
				return old(ctx, arg)
			})
			n := w.calls
			w.get(c)
			nd.Assert(called == (w.calls > n), "a replaced refresh function is the one called")
		}
	}
	w.rawCheck(c)
}

// HRefreshInside: what is fresh is served without waiting for a refresh in progress, so also to the refresh function itself; Raw, Last and LastErr answer too, and Clear takes effect.
//
//gosym:check C26 shim=1 split=3
//gosym:quick
//gosym:thorough
func HRefreshInside() {
	variant := nd.Case("variant", 3)
	what := nd.Case("what", 4)
	w, c := start(variant)
	w.plan(0, 2)
	w.get(c) // a value or an error
	tick()
	fresh, errFresh := w.fresh(), w.errFresh()
	nd.Assume(what != 0 || fresh || errFresh)
	val, err, at, errAt := w.val, w.err, w.at, w.errAt
	valid, failed := w.valid, w.failed
	inner := 0
	c.setRefresh(func(ctx context.Context, arg int) (int, error) {
		inner++
		switch what {
		case 0:
			v, e := c.get(w.arg)
			if fresh {
				nd.Cover("fresh inside")
				nd.Assert(e == nil && v == val, "Get during a refresh returns the value that is still fresh")
			} else {
				nd.Assert(e == err && v == 0, "Get during a refresh returns the error that is still cached")
			}
		case 1:
			v, e := c.raw()
			if fresh {
				nd.Assert(e == nil && v == val, "Raw during a refresh returns the fresh value")
			} else if errFresh {
				nd.Assert(e == err, "Raw during a refresh returns the cached error")
			} else {
				nd.Assert(v == val, "Raw during a refresh returns the most recent value")
			}
		case 2:
			nd.Assert(c.last() == int64(nd.Sel(valid, int(at), 0)) && c.lastErr() == int64(nd.Sel(failed, int(errAt), 0)), "Last and LastErr do not change before a refresh is done")
		case 3:
			nd.Assert(c.clear(w.arg) == nil && c.last() == 0, "Clear during a refresh takes effect at once")
		}
		return w.fn(ctx, arg)
	})
	w.plan(1, 1)
	n := w.calls
	v, e := c.refresh(w.arg)
	nd.Assert(inner == 1 && w.calls == n+1, "Refresh refreshes once")
	w.returned(v, e)
	c.setRefresh(w.fn)
	tick()
	w.rawCheck(c)
	w.get(c)
}

// HRefreshPanic: a refresh function that panics leaves the cache usable and never marks a value fresh.
//
//gosym:check C29 shim=1 split=4
//gosym:quick OPS=2
//gosym:thorough OPS=3
func HRefreshPanic() {
	variant := nd.Case("variant", 6)
	via := choices("refresh", nd.Param("OPS"), 2)
	w, c := start(variant)
	for i := 0; i < nd.Param("OPS"); i++ {
		w.plan(i, 3)
		tick()
		n := w.calls
		if w.mode == 2 {
			viaRefresh := via[i] == 1
			will := viaRefresh || !w.fresh() && !w.errFresh()
			p := nd.Panics(func() {
				if viaRefresh {
					c.refresh(w.arg)
				} else {
					c.get(w.arg)
				}
			})
			nd.Assert(p == will, "a panic of the refresh function reaches the caller")
			if p {
				nd.Cover("panicked")
			}
			nd.Assert(w.calls == n+nd.B2I(will), "a panicking refresh is called once")
			continue
		}
		w.get(c)
	}
	w.mode = 0
	w.get(c)
}
