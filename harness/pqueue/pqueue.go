// Package pqueue drives github.com/zijiren233/gencontainer/pqueue.
package pqueue

import (
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/zzverif/nd"
)

// HPQueue: after any history of pushes and pops, Pop returns an item of extreme priority among those still queued, with its own value, each item exactly once.
//
//gosym:check C11 split=5
//gosym:quick OPS=6
//gosym:thorough OPS=8
func HPQueue() {
	mx := nd.Case("max", 2) == 1
	var pq *pqueue.PQueue[int]
	if mx {
		pq = pqueue.NewMaxPriorityQueue[int]()
	} else {
		pq = pqueue.NewMinPriorityQueue[int]()
	}
	var prio []int
	var left []bool
	n := 0
	pop := func() {
		p, v := pq.Pop()
		nd.Assert(v >= 0 && v < len(prio) && left[v], "Pop returns an item still queued")
		nd.Assert(p == prio[v], "Pop returns the value with its own priority")
		for i, x := range prio {
			if left[i] {
				if mx {
					nd.Assert(x <= p, "Pop returns a maximum")
				} else {
					nd.Assert(p <= x, "Pop returns a minimum")
				}
			}
		}
		left[v] = false
		n--
	}
	wide := nd.Case("wide", 2) == 1 // few full-range priorities, or more of eight bits (enough for every relative order)
	ops := nd.Param("OPS")
	if wide {
		ops = 3
	}
	for i := 0; i < ops; i++ {
		if n == 0 || nd.Case("push", 2) == 1 {
			p := int(nd.I8("p"))
			if wide {
				p = nd.Int("p64")
			}
			pq.Push(p, len(prio))
			prio = append(prio, p)
			left = append(left, true)
			n++
		} else {
			pop()
			if len(prio) > 2 {
				nd.Cover("popped")
			}
		}
		nd.Assert(pq.Len() == n, "Len")
	}
	for n > 0 {
		pop()
		nd.Assert(pq.Len() == n, "Len")
	}
}

// HPQueueBig: the same for a queue filled at once, then drained.
//
//gosym:check C11 split=2
//gosym:quick N=8 SYM=3
//gosym:thorough N=12 SYM=4
func HPQueueBig() {
	mx := nd.Case("max", 2) == 1
	pat := nd.Case("pattern", 3)
	var pq *pqueue.PQueue[int]
	if mx {
		pq = pqueue.NewMaxPriorityQueue[int]()
	} else {
		pq = pqueue.NewMinPriorityQueue[int]()
	}
	n := nd.Param("N")
	var prio []int
	left := make([]bool, n)
	for i := 0; i < n; i++ {
		p := []int{i, n - i, i * 5 % n}[pat]
		if i%(n/nd.Param("SYM")) == 1 {
			p = nd.Range("p", -1, n+1)
		}
		prio = append(prio, p)
		left[i] = true
		pq.Push(p, i)
	}
	prev := 0
	for k := n; k > 0; k-- {
		nd.Assert(pq.Len() == k, "Len")
		p, v := pq.Pop()
		nd.Assert(v >= 0 && v < n && left[v] && p == prio[v], "Pop returns an item still queued with its priority")
		left[v] = false
		nd.Assert(k == n || (mx && p <= prev) || (!mx && prev <= p), "priorities come out in order")
		prev = p
	}
	nd.Assert(pq.Len() == 0, "drained")
}

// HPQueueLong: a long queue with one arbitrary priority, pushed first, in the middle or last, with pops in between.
//
//gosym:check C11 split=3
//gosym:quick N=40
//gosym:thorough N=140
func HPQueueLong() {
	mx := nd.Case("max", 2) == 1
	pat := nd.Case("pattern", 3)
	n := nd.Param("N")
	sym := []int{0, n / 2, n - 1}[nd.Case("where", 3)]
	var pq *pqueue.PQueue[int]
	if mx {
		pq = pqueue.NewMaxPriorityQueue[int]()
	} else {
		pq = pqueue.NewMinPriorityQueue[int]()
	}
	var prio []int
	var left []bool
	pop := func(k int) {
		nd.Assert(pq.Len() == k, "Len")
		p, v := pq.Pop()
		nd.Assert(v >= 0 && v < len(left) && left[v] && p == prio[v], "Pop returns an item still queued with its priority")
		left[v] = false
		best := true
		for i, l := range left {
			if l {
				best = nd.And(best, nd.SelB(mx, prio[i] <= p, p <= prio[i]))
			}
		}
		nd.Assert(best, "no queued item comes before the popped one")
	}
	k := 0
	for i := 0; i < n; i++ {
		p := []int{i, n - i, i * 7 % n}[pat]
		if i == sym {
			p = nd.Range("p", -1, n+1)
		}
		prio = append(prio, p)
		left = append(left, true)
		pq.Push(p, i)
		k++
		if i%5 == 4 {
			pop(k)
			k--
		}
	}
	for ; k > 0; k-- {
		pop(k)
	}
	nd.Assert(pq.Len() == 0, "drained")
}
