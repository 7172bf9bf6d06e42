package refreshcache

import (
	"context"

	"github.com/zijiren233/gencontainer/zzverif/nd"
)

// HRefreshRace: two concurrent operations on a cache have no data race.
//
//gosym:check C30 mode=M race=1
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=3
func HRefreshRace() {
	variant := nd.Case("variant", 3)
	a := nd.Case("a", 10)
	b := a + nd.Case("b", 10-a)
	how := nd.Case("how", 4)
	fail := how == 3
	fn := func(ctx context.Context, arg int) (int, error) {
		if fail {
			return 0, ferr(1)
		}
		return 1, nil
	}
	nd.SetNow(1000000)
	c := mk(variant, 1000, int64(nd.Sel(nd.Bool("errors cached"), 1000, 0)), true, fn)
	if how > 0 {
		c.get(5)
	}
	if how == 2 {
		c.setClear(func(ctx context.Context, arg int) error { return nil })
		nd.Advance(2000)
	}
	fail = nd.Bool("fail")
	op := func(op int) func() {
		return func() {
			switch op {
			case 0:
				c.get(5)
			case 1:
				c.refresh(5)
			case 2:
				c.clear(5)
			case 3:
				c.raw()
			case 4:
				c.last()
			case 5:
				c.lastErr()
			case 6:
				c.setRefresh(fn)
			case 7:
				c.setClear(func(ctx context.Context, arg int) error { return nil })
			case 8:
				c.times()
			case 9:
				c.funcs()
			}
		}
	}
	nd.Par(op(a), op(b))
}
