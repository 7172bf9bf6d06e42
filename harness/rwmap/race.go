package rwmap

import (
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

// HRWMapRace: two concurrent operations on any keys have no data race.
//
//gosym:check C30 mode=M race=1
//gosym:quick ROUNDS=2
//gosym:thorough ROUNDS=3
func HRWMapRace() {
	var m rmap
	o := newModel(2)
	how := nd.Case("prepare", preparations)
	a := nd.Case("a", concOps+2)
	b := a + nd.Case("b", concOps+2-a)
	kb := 0
	if b < 8 {
		kb = nd.Case("kb", 2)
	}
	prepare(&m, o, how)
	op := func(op, k int) func() {
		c := newCall(0, k)
		return func() {
			switch op {
			case concOps:
				m.Range(func(k, v int) bool { return true })
			case concOps + 1:
				m.Len()
			default:
				c.op = op
				c.run(&m)
			}
		}
	}
	nd.Par(op(a, 0), op(b, kb))
}
