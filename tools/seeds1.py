SEEDS = [
dict(id="vec-clone", prop="C04", pkg="vec", edits=[("vec/vec.go", "	return slices.Clone(v.d)", "	return v.d[:v.Len():v.Len()]")],
 needs="an in-place change (Set, Swap, Sort) of the vector or of the returned slice after CloneToSlice", breaks="the slice returned by CloneToSlice shares storage with the vector",
 demo='''
package vec_test

import (
	"testing"

	"github.com/zijiren233/gencontainer/vec"
)

func TestSeededDemo(t *testing.T) {
	v := vec.New[int]().Push(1, 2, 3, 4)
	c := v.CloneToSlice()
	v.Push(9)
	v2 := vec.New[int]().Push(1, 2)
	c2 := v2.CloneToSlice()
	v2.Set(0, 5)
	if c[0] != 1 || c2[0] != 1 {
		t.Fatal(c, c2)
	}
}
'''),
dict(id="vec-stable", prop="C02", pkg="vec", edits=[("vec/vec.go", "	slices.SortStableFunc(v.d, func(a, v T) int {", "	slices.SortFunc(v.d, func(a, v T) int {")],
 needs="more than 12 elements with equal ones (shorter slices go through insertion sort, which is stable)", breaks="SortStable does not keep equal elements in order",
 demo='''
package vec_test

import (
	"testing"

	"github.com/zijiren233/gencontainer/vec"
)

func TestSeededDemo(t *testing.T) {
	type e struct{ k, i int }
	v := vec.New[e](vec.WithCmpLess(func(a, b e) bool { return a.k < b.k }), vec.WithCmpEqual(func(a, b e) bool { return a.k == b.k }))
	for i := 0; i < 60; i++ {
		v.Push(e{(i * 7) % 3, i})
	}
	v.SortStable()
	s := v.Slice()
	for i := 1; i < len(s); i++ {
		if s[i-1].k == s[i].k && s[i-1].i > s[i].i {
			t.Fatal(s)
		}
	}
}
'''),
dict(id="dllist-swap-rev", prop="C06", pkg="dllist", edits=[("dllist/dllist.go", "		b.next = a.next\n		a.prev = b.prev\n		b.prev = a\n		a.next = b", "		b.next = a.next\n		b.prev = a\n		a.prev = b.prev\n		a.next = b")],
 needs="Swap(a, b) of two neighbours with b directly before a, then a walk backwards", breaks="the backward link of a points at a itself",
 demo='''
package dllist_test

import (
	"testing"

	"github.com/zijiren233/gencontainer/dllist"
)

func TestSeededDemo(t *testing.T) {
	l := dllist.New[int]()
	z := l.PushBack(1)
	b := l.PushBack(2)
	a := l.PushBack(3)
	l.Swap(a, b)
	if a.Prev() != z || b.Prev() != a {
		t.Fatal(l.Slice())
	}
}
'''),
dict(id="heap-remove-up", prop="C10", pkg="heap", edits=[("heap/heap.go", "		h.Swap(i, n)\n		if !down(h, i, n) {\n			up(h, i)\n		}", "		h.Swap(i, n)\n		down(h, i, n)")],
 needs="Remove of an index whose replacement from the last position belongs above it (different subtree)", breaks="the heap order is broken after Remove",
 demo='''
package heap_test

import (
	"sort"
	"testing"

	"github.com/zijiren233/gencontainer/heap"
)

type hp struct{ sort.IntSlice }

func (h *hp) Push(x int) { h.IntSlice = append(h.IntSlice, x) }
func (h *hp) Pop() int {
	n := len(h.IntSlice) - 1
	x := h.IntSlice[n]
	h.IntSlice = h.IntSlice[:n]
	return x
}

func TestSeededDemo(t *testing.T) {
	h := &hp{sort.IntSlice{0, 10, 1, 11, 12, 2, 3}}
	heap.Remove[int](h, 3)
	for i := 1; i < h.Len(); i++ {
		if h.Less(i, (i-1)/2) {
			t.Fatal(h.IntSlice)
		}
	}
}
'''),
dict(id="lhash-load-order", prop="C14", pkg="lhashmap", edits=[("lhashmap/lhashmap.go", "		element.Value.v = value\n		l.l.MoveToFront(element)\n		return", "		element.Value.v = value\n		if l.Len() > 2 {\n			l.l.MoveToFront(element)\n		}\n		return")],
 needs="Store of an existing, not most recent key while exactly two keys are held", breaks="iteration order is no longer most recently used first",
 demo='''
package lhashmap_test

import (
	"testing"

	"github.com/zijiren233/gencontainer/lhashmap"
)

func TestSeededDemo(t *testing.T) {
	m := lhashmap.New[int, int]()
	m.Store(1, 1)
	m.Store(2, 2)
	m.Store(1, 3)
	var ks []int
	m.Range(func(k, v int) bool { ks = append(ks, k); return true })
	if len(ks) != 2 || ks[0] != 1 {
		t.Fatal(ks)
	}
}
'''),
dict(id="rwmap-unexpunge", prop="C19", pkg="rwmap", edits=[("rwmap/rwmap.go", "	if e, ok := read.m[key]; ok {\n		if e.unexpungeLocked() {\n			m.dirty[key] = e\n		}\n		actual, loaded, _ = e.tryLoadOrStore(value)", "	if e, ok := read.m[key]; ok {\n		e.unexpungeLocked()\n		actual, loaded, _ = e.tryLoadOrStore(value)")],
 needs="a key deleted from the read map, a new key stored (which expunges it), LoadOrStore of the deleted key and then promotion of the dirty map", breaks="a stored key disappears from the map",
 demo='''
package rwmap_test

import (
	"testing"

	"github.com/zijiren233/gencontainer/rwmap"
)

func TestSeededDemo(t *testing.T) {
	var m rwmap.RWMap[int, int]
	m.Store(1, 1)
	m.Store(2, 2)
	m.Range(func(int, int) bool { return true })
	m.Delete(1)
	m.Store(3, 3)
	m.LoadOrStore(1, 10)
	m.Range(func(int, int) bool { return true })
	if v, ok := m.Load(1); !ok || v != 10 {
		t.Fatal(v, ok)
	}
}
'''),
dict(id="cache-loadanddelete", prop="C24", pkg="synccache", edits=[("synccache/synccache.go", "	if value.IsExpired() {\n		if sc.deletedCallback != nil {\n			sc.deletedCallback(value.value)\n		}\n		return nil, false\n	}", "	if value.IsExpired() {\n		return nil, false\n	}")],
 needs="LoadAndDelete of an entry that has expired but was not trimmed yet, with a deletion callback", breaks="the callback is not called for the removed entry",
 demo='''
package synccache_test

import (
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
)

func TestSeededDemo(t *testing.T) {
	n := 0
	s := synccache.NewSyncCache[int, string](time.Second, synccache.WithDeletedCallback[int](func(string) { n++ }))
	s.Store(1, "a", time.Millisecond)
	time.Sleep(20 * time.Millisecond)
	s.LoadAndDelete(1)
	if n != 1 {
		t.Fatal(n)
	}
}
'''),
dict(id="refresh-errage", prop="C27", pkg="refreshcache1", edits=[("refreshcache1/refreshcache1.go", 'func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {\n\tr.lock.Lock()\n\tdefer r.lock.Unlock()\n\treturned := false\n\tdefer func() {\n\t\tif !returned {\n\t\t\treturn // refreshFunc panicked: there is no result to keep\n\t\t}\n\t\tif err == nil {\n\t\t\tr.data.Store(&data)\n\t\t\tatomic.StoreInt64(&r.last, time.Now().UnixNano())\n\t\t\tatomic.StoreInt64(&r.lastErr, 0)\n', 'func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {\n\tr.lock.Lock()\n\tdefer r.lock.Unlock()\n\treturned := false\n\tdefer func() {\n\t\tif !returned {\n\t\t\treturn // refreshFunc panicked: there is no result to keep\n\t\t}\n\t\tif err == nil {\n\t\t\tr.data.Store(&data)\n\t\t\tatomic.StoreInt64(&r.last, time.Now().UnixNano())\n')],
 needs="a failed Get, then a successful Refresh, then a Get after the value's age but still within the error age", breaks="an error from before a successful refresh is served again",
 demo='''
package refreshcache1_test

import (
	"context"
	"errors"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache1"
)

func TestSeededDemo(t *testing.T) {
	d := refreshcache1.NewRefreshData[int, int](time.Millisecond, refreshcache1.WithErrAge[int, int](time.Hour))
	calls := 0
	f := func(context.Context, int) (int, error) {
		calls++
		if calls == 1 {
			return 0, errors.New("x")
		}
		return calls, nil
	}
	ctx := context.Background()
	d.Get(ctx, f, 1)
	d.Refresh(ctx, f, 1)
	time.Sleep(20 * time.Millisecond)
	if v, err := d.Get(ctx, f, 1); err != nil || v != 3 {
		t.Fatal(v, err)
	}
}
'''),
dict(id="hashring-remove", prop="C15", pkg="hashring", edits=[("hashring/hashring.go", "	s := set.New[Node]().Push(nodes...).Difference(hr.rawNodes)\n	s.Range(func(val Node) (Continue bool) {\n		for v := 0; v < hr.replicas; v++ {", "	s := set.New[Node]().Push(nodes...)\n	s.Range(func(val Node) (Continue bool) {\n		if hr.rawNodes.Contain(val) && hr.nodes.Len() > len(nodes)*hr.replicas {\n			return false\n		}\n		for v := 0; v < hr.replicas; v++ {")],
 needs="AddNodes with a mix of present and new nodes", breaks="new nodes are left off the ring although they are members",
 demo='''
package hashring_test

import (
	"testing"

	"github.com/zijiren233/gencontainer/hashring"
)

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		hr := hashring.New[string](5)
		hr.AddNodes("a", "b", "c", "d", "e", "f")
		hr.AddNodes("a", "b", "c", "g")
		h2 := hashring.New[string](5)
		h2.AddNodes("a", "b", "c", "d", "e", "f", "g")
		for k := 0; k < 500; k++ {
			key := string(rune('A'+k%26)) + string(rune('A'+k/26))
			if hr.GetNode(key) != h2.GetNode(key) {
				t.Fatal(key)
			}
		}
	}
}
'''),
dict(id="tree-setleft", prop="C18", pkg="tree", edits=[("tree/tree.go", "	old = n.Right\n	if n.Right != nil {\n		n.Right.Parent = nil\n	}", "	old = n.Right\n	if right != nil && n.Right != nil {\n		n.Right.Parent = nil\n	}")],
 needs="SetRight(nil) on a node that has a right child, then a question to the detached child", breaks="the detached child still claims its parent",
 demo='''
package tree_test

import (
	"testing"

	"github.com/zijiren233/gencontainer/tree"
)

func TestSeededDemo(t *testing.T) {
	r := tree.NewNode(1)
	c := tree.NewNode(2)
	r.SetRight(c)
	r.SetRight(nil)
	if !c.IsRoot() {
		t.Fatal()
	}
}
'''),
dict(id="set-subset", prop="C12", pkg="set", edits=[("set/set.go", "	if s.Len() > set.Len() {\n		return false\n	}\n	b = true", "	if s.Len() == set.Len() {\n		return s.Equal(set)\n	}\n	if s.Len() >= set.Len() {\n		return set.IsEmpty()\n	}\n	b = true")],
 needs="IsSubSet of a non-empty set in the empty set", breaks="a non-empty set counts as a subset of the empty set",
 demo='''
package set_test

import (
	"testing"

	"github.com/zijiren233/gencontainer/set"
)

func TestSeededDemo(t *testing.T) {
	if set.New[int]().Push(1).IsSubSet(set.New[int]()) {
		t.Fatal()
	}
}
'''),
]
