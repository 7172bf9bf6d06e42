package refreshcache

import (
	"context"

	"github.com/zijiren233/gencontainer/zzverif/nd"
)

type ferr int

func (ferr) Error() string { return "refresh failed" }

// flight is the refresh function of the concurrent harnesses: call n yields the value 10+n or the error ferr(10+n).
type flight struct {
	calls, in, cleared int
	fail               [4]bool
	took               int64
	started, ended     [4]bool
}

func (f *flight) fn(ctx context.Context, arg int) (int, error) {
	n := f.calls
	f.calls++
	f.in++
	nd.Assert(f.in == 1, "at most one refresh is in flight")
	nd.Yield()
	if f.took != 0 {
		nd.Advance(f.took)
	}
	f.in--
	fail := false
	for i := range f.fail {
		fail = nd.SelB(n == i, f.fail[i], fail)
	}
	if fail {
		return 0, ferr(10 + n)
	}
	return 10 + n, nil
}

// result is what an operation returned, -1 in e for no error.
type result struct{ v, e int }

func (r *result) set(v int, err error) {
	r.v, r.e = v, -1
	if err != nil {
		r.e = 0
		if x, ok := err.(ferr); ok {
			r.e = int(x)
		}
	}
}

func doOp(c *cache, op int, r *result) {
	switch op {
	case 0:
		r.set(c.get(5))
	case 1:
		r.set(c.refresh(5))
	case 2:
		c.clear(5)
	case 3:
		r.set(c.raw())
	}
}

// HRefreshFlight: two concurrent operations: refreshes never overlap, concurrent Gets share one refresh, and nobody is given a value or an error that is neither fresh nor just obtained.
//
//gosym:check C28 mode=M
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=4
func HRefreshFlight() {
	variant := nd.Case("variant", 3)
	a, b := nd.Case("a", 4), nd.Case("b", 4)
	how := nd.Case("how", 4)
	f := &flight{}
	errAge := int64(nd.Sel(nd.Bool("errors cached"), 1000, 0))
	nd.SetNow(1000000)
	maxAge := int64(nd.Sel(nd.And(nd.Bool("forever"), how != 2), -1, 1000))
	c := mk(variant, maxAge, errAge, true, f.fn)
	// what is there at the start: nothing, a fresh value, an expired value, a failed refresh
	if how > 0 {
		f.fail[0] = how == 3
		c.get(5)
	}
	if how == 2 {
		nd.Advance(2000)
	}
	hasV := how == 1
	hasE := nd.And(how == 3, errAge > 0)
	fresh := nd.Or(hasV, hasE)
	f.calls = 1
	f.fail = [4]bool{false, nd.Bool("fail"), nd.Bool("fail"), nd.Bool("fail")}
	f.took = int64(nd.Sel(nd.Bool("slow"), 2000, 1))
	var x, y result
	nd.Par(func() { doOp(c, a, &x) }, func() { doOp(c, b, &y) })
	n := f.calls - 1
	nd.Assert(f.in == 0, "no refresh is left running")
	ops := []int{a, b}
	gets, refs, clears := 0, 0, 0
	for _, o := range ops {
		switch o {
		case 0:
			gets++
		case 1:
			refs++
		case 2:
			clears++
		}
	}
	// how often it was refreshed
	nd.Assert(n <= gets+refs, "no operation refreshes twice")
	nd.Assert(n >= refs, "Refresh always refreshes")
	if refs == 0 && clears == 0 {
		nd.Assert(nd.Implies(fresh, n == 0), "Get does not refresh while the value or the error is fresh")
		if gets > 0 {
			nd.Assert(nd.Implies(!fresh, n >= 1), "Get refreshes when nothing is fresh")
			nd.Assert(nd.Implies(nd.And(!fresh, !f.fail[1]), n == 1), "concurrent Gets share a successful refresh")
			nd.Assert(nd.Implies(nd.And(!fresh, f.fail[1], errAge > 0), n == 1), "concurrent Gets share a cached error")
			nd.Assert(nd.Implies(nd.And(!fresh, f.fail[1], errAge == 0), n == gets), "an error that is not cached is retried")
		}
	}
	// what was returned
	for i, r := range []result{x, y} {
		if ops[i] == 2 {
			continue
		}
		ofRun := nd.And(r.e < 0, nd.Or(nd.And(r.v == 11, n >= 1, !f.fail[1]), nd.And(r.v == 12, n >= 2, !f.fail[2])))
		errRun := nd.Or(nd.And(r.e == 11, n >= 1, f.fail[1]), nd.And(r.e == 12, n >= 2, f.fail[2]))
		was := nd.Or(nd.And(hasV, r.e < 0, r.v == 10), nd.And(hasE, r.e == 10))
		switch ops[i] {
		case 0:
			nd.Assert(nd.Or(ofRun, errRun, was), "Get returns what was fresh or the result of a refresh")
		case 1:
			nd.Assert(nd.Or(ofRun, errRun), "Refresh returns the result of a refresh")
		case 3:
			old := nd.Sel(how == 1 || how == 2, 10, 0)
			nd.Assert(nd.Or(r.v == old, nd.And(r.v == 11, n >= 1), nd.And(r.v == 12, n >= 2), nd.And(r.v == 0, r.e >= 0)), "Raw returns a value that was there")
		}
	}
	if a == 1 && b == 1 {
		nd.Assert(!nd.And(x.v == y.v, x.e == y.e), "every Refresh returns its own result")
	}
	if a == 0 && b == 0 {
		nd.Assert(nd.Implies(n <= 1, nd.And(x.v == y.v, x.e == y.e)), "concurrent Gets return the same shared result")
	}
	// what is left behind: the result of the last refresh
	var z result
	m := f.calls
	z.set(c.get(5))
	if clears == 0 {
		for k := 1; k <= 2; k++ {
			nd.Assert(nd.Implies(nd.And(n == k, !f.fail[k]), nd.And(f.calls == m, z.e < 0, z.v == 10+k)), "the last refreshed value is kept")
			nd.Assert(nd.Implies(nd.And(n == k, f.fail[k], errAge > 0), nd.And(f.calls == m, z.e == 10+k)), "the last error is kept for the error age")
			nd.Assert(nd.Implies(nd.And(n == k, f.fail[k], errAge == 0), f.calls == m+1), "a failed refresh leaves nothing fresh")
		}
		nd.Assert(nd.Implies(nd.And(n == 0, hasV), nd.And(f.calls == m, z.v == 10)), "a fresh value stays")
	} else if gets+refs == 0 || how == 1 {
		nd.Assert(nd.Implies(nd.And(n == 0, !hasE), f.calls == m+1), "after Clear, Get refreshes")
	}
}

// HRefreshThree: three concurrent operations: still one refresh at a time, shared by the Gets, and nothing returned that was neither fresh nor obtained by a refresh.
//
//gosym:check C28 mode=M
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=3
func HRefreshThree() {
	variant := nd.Case("variant", 3)
	ops := [][]int{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {0, 0, 2}, {2, 0, 0}, {0, 1, 2}, {1, 1, 0}, {0, 2, 3}}[nd.Case("ops", 8)]
	how := nd.Case("how", 3) // nothing, a fresh value, a failed refresh
	f := &flight{}
	errAge := int64(nd.Sel(nd.Bool("errors cached"), 1000, 0))
	nd.SetNow(1000000)
	c := mk(variant, 1000, errAge, true, f.fn)
	if how > 0 {
		f.fail[0] = how == 2
		c.get(5)
	}
	hasV := how == 1
	hasE := nd.And(how == 2, errAge > 0)
	fresh := nd.Or(hasV, hasE)
	f.calls = 1
	f.fail = [4]bool{false, nd.Bool("fail"), nd.Bool("fail"), nd.Bool("fail")}
	f.took = 1
	rs := make([]result, 3)
	nd.Par(func() { doOp(c, ops[0], &rs[0]) }, func() { doOp(c, ops[1], &rs[1]) }, func() { doOp(c, ops[2], &rs[2]) })
	n := f.calls - 1
	nd.Assert(f.in == 0, "no refresh is left running")
	gets, refs, clears := 0, 0, 0
	for _, o := range ops {
		switch o {
		case 0:
			gets++
		case 1:
			refs++
		case 2:
			clears++
		}
	}
	nd.Assert(n <= gets+refs, "no operation refreshes twice")
	nd.Assert(n >= refs, "Refresh always refreshes")
	if clears == 0 {
		nd.Assert(nd.Implies(nd.And(fresh, refs == 0), n == 0), "Get does not refresh while the value or the error is fresh")
		nd.Assert(nd.Implies(nd.And(!fresh, refs == 0, !f.fail[1]), n == 1), "concurrent Gets share a successful refresh")
		nd.Assert(nd.Implies(nd.And(!fresh, refs == 0, f.fail[1], errAge > 0), n == 1), "concurrent Gets share a cached error")
		if refs > 0 {
			nd.Assert(nd.Implies(nd.And(hasV, !f.fail[1], !f.fail[2]), n == refs), "Get uses what a Refresh obtained")
			nd.Assert(nd.Implies(nd.And(!f.fail[1], !f.fail[2], !f.fail[3]), n <= refs+1), "concurrent Gets share one refresh")
		}
	} else if refs == 0 {
		nd.Assert(nd.Implies(nd.And(!f.fail[1], !f.fail[2]), n <= clears+nd.B2I(!fresh)), "after a Clear, one refresh serves the concurrent Gets")
	}
	for i, r := range rs {
		if ops[i] == 2 || ops[i] == 3 {
			continue
		}
		ok := false
		for k := 1; k <= 3; k++ {
			ok = nd.Or(ok, nd.And(n >= k, nd.SelB(f.fail[k], r.e == 10+k, nd.And(r.e < 0, r.v == 10+k))))
		}
		was := nd.And(ops[i] == 0, nd.Or(nd.And(hasV, r.e < 0, r.v == 10), nd.And(hasE, r.e == 10)))
		nd.Assert(nd.Or(ok, was), "Get and Refresh return what was fresh or the result of a refresh")
	}
	m := f.calls
	var z result
	z.set(c.get(5))
	if clears == 0 {
		for k := 1; k <= 3; k++ {
			nd.Assert(nd.Implies(nd.And(n == k, !f.fail[k]), nd.And(f.calls == m, z.e < 0, z.v == 10+k)), "the last refreshed value is kept")
			nd.Assert(nd.Implies(nd.And(n == k, f.fail[k], errAge > 0), nd.And(f.calls == m, z.e == 10+k)), "the last error is kept for the error age")
		}
	}
}

// HRefreshPanicConc: a refresh that panics beside another operation: the other one is not stuck, gets a result of its own, and nothing of the panicked refresh is kept.
//
//gosym:check C28 mode=M
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=4
func HRefreshPanicConc() {
	variant := nd.Case("variant", 3)
	a, b := nd.Case("a", 2), nd.Case("b", 3)
	bad := nd.Range("bad", 0, 1) // which call of the refresh function panics
	calls, in := 0, 0
	nd.SetNow(1000000)
	c := mk(variant, 1000, 0, true, func(ctx context.Context, arg int) (int, error) {
		n := calls
		calls++
		in++
		nd.Assert(in == 1, "at most one refresh is in flight")
		nd.Yield()
		in--
		if n == bad {
			panic("refresh failed")
		}
		return 10 + n, nil
	})
	var x, y result
	var px, py bool
	nd.Par(func() { px = nd.Panics(func() { doOp(c, a, &x) }) }, func() { py = nd.Panics(func() { doOp(c, b, &y) }) })
	n := calls
	nd.Assert(in == 0, "no refresh is left running")
	nd.Assert(nd.B2I(px)+nd.B2I(py) == nd.B2I(n > bad), "a panic reaches the one caller whose refresh it was")
	good := func(r result) bool { // the result of a refresh that returned
		return nd.And(r.e < 0, nd.Or(nd.And(r.v == 10, bad != 0, n >= 1), nd.And(r.v == 11, bad != 1, n >= 2)))
	}
	nd.Assert(nd.Or(px, good(x)), "the other operation returns the result of a refresh")
	if b < 2 {
		nd.Assert(nd.Or(py, good(y)), "the other operation returns the result of a refresh")
	}
	if b == 2 {
		return
	}
	var z result
	p := nd.Panics(func() { z.set(c.get(5)) })
	last := nd.Sel(n == 2, nd.Sel(bad == 1, 10, 11), nd.Sel(bad == 0, 0, 10))
	nd.Assert(nd.Implies(last != 0, nd.And(!p, calls == n, z.v == last)), "the last result that was returned is kept")
	nd.Assert(nd.Implies(last == 0, calls == n+1), "a panicked refresh leaves nothing fresh")
}
