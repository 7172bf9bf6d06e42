W = "rwmap/rwmap.go"
V = "vec/vec.go"
def t(pkg, body, imports=()):
    imps = "".join('\t"%s"\n' % i for i in ["testing", *imports])
    return '\npackage %s_test\n\nimport (\n%s\n\t"github.com/zijiren233/gencontainer/%s"\n)\n\n%s' % (pkg, imps, pkg, body)
SEEDS = [
dict(id="vec-insert-self", prop="C01", pkg="vec", edits=[(V, """	v.d = slices.Insert(v.d, i, val...)
	return v""", """	n := len(v.d)
	if i < 0 || i > n || n+len(val) > cap(v.d) {
		v.d = slices.Insert(v.d, i, val...)
		return v
	}
	// there is room: shift the tail in place
	v.d = v.d[:n+len(val)]
	copy(v.d[i+len(val):], v.d[i:n])
	copy(v.d[i:], val)
	return v""")],
 needs="spare capacity, and inserted values that are a view of the vector itself, behind the insertion point", breaks="the shifted tail overwrites the values before they are copied",
 demo=t("vec", '''
func TestSeededDemo(t *testing.T) {
	v := vec.New[int]().Grow(16).Push(1, 2, 3, 4)
	v.Insert(1, v.SliceCut(2, 4)...)
	if !v.EqualSlice([]int{1, 3, 4, 2, 3, 4}) {
		t.Fatal(v.Slice())
	}
}
''')),
dict(id="vec-binsearch-any", prop="C03", pkg="vec", edits=[(V, """	return slices.BinarySearchFunc(v.d, target, func(val, target T) int {
		if v.CmpLess(val, target) {
			return -1
		} else if v.CmpEqual(val, target) {
			return 0
		} else {
			return 1
		}
	})
}

func (v *Vec[T]) BinarySearchFunc""", """	lo, hi := 0, len(v.d)
	for lo < hi {
		mid := (lo + hi) / 2
		if v.CmpLess(v.d[mid], target) {
			lo = mid + 1
		} else if v.CmpEqual(v.d[mid], target) {
			for mid > lo && v.CmpEqual(v.d[mid-1], target) {
				mid -= 2
			}
			return max(mid, lo), true
		} else {
			hi = mid
		}
	}
	return lo, false
}

func (v *Vec[T]) BinarySearchFunc""")],
 needs="a run of equal elements of the right length and place in the vector", breaks="the position is not the lowest one: the walk back over equal elements takes two steps at a time",
 demo=t("vec", '''
func TestSeededDemo(t *testing.T) {
	for a := 0; a < 5; a++ {
		for b := 0; b < 5; b++ {
			for c := 0; c < 5; c++ {
				v := vec.New[int]()
				for i := 0; i < a; i++ {
					v.Push(1)
				}
				for i := 0; i < b; i++ {
					v.Push(2)
				}
				for i := 0; i < c; i++ {
					v.Push(3)
				}
				if i, ok := v.BinarySearch(2); i != a || ok != (b > 0) {
					t.Fatal(v.Slice(), i, ok)
				}
			}
		}
	}
}
''')),
dict(id="vec-uint-order", prop="C05", pkg="vec", edits=[(V, "			return valueOf(a).Uint() < valueOf(b).Uint()", "			return int64(valueOf(a).Uint()-valueOf(b).Uint()) < 0")],
 needs="unsigned values more than 2^63 apart", breaks="the default order of unsigned elements wraps around",
 demo=t("vec", '''
func TestSeededDemo(t *testing.T) {
	v := vec.New[uint64]().Push(1<<63+5, 1)
	v.Sort()
	if a, _ := v.First(); a != 1 {
		t.Fatal(v.Slice())
	}
}
''')),
dict(id="dllist-get-back", prop="C06", pkg="dllist", edits=[("dllist/dllist.go", """	if e.list != l || l.root.prev == e {
		return
	}
	l.lazyInit()
	l.move(e, l.root.prev)""", """	if e.list != l || e.next == &e.list.root {
		return
	}
	l.lazyInit()
	l.remove(e)
	l.insert(&Element[T]{Value: e.Value}, l.root.prev)""")],
 needs="a handle to the moved element that is used again afterwards", breaks="MoveToBack puts a copy at the end: the handle is stale although its element was only moved",
 demo=t("dllist", '''
func TestSeededDemo(t *testing.T) {
	l := dllist.New[int]()
	e := l.PushBack(1)
	l.PushBack(2)
	l.MoveToBack(e)
	l.MoveToFront(e)
	if l.Front().Value != 1 {
		t.Fatal(l.Slice())
	}
}
''')),
dict(id="dllist-sort-unstable", prop="C07", pkg="dllist", edits=[("dllist/dllist.go", """	l.Front().Next().Range(func(e *Element[T]) bool {
		if cmpLess(e.Value, pivot) {""", """	l.Front().Next().Range(func(e *Element[T]) bool {
		if cmpLess(e.Value, pivot) || larger.Len() > smaller.Len()+2 && !cmpLess(pivot, e.Value) {""")],
 needs="elements equal to the first one after a run of larger ones", breaks="equal elements change places",
 demo=t("dllist", '''
func TestSeededDemo(t *testing.T) {
	l := dllist.New[int]()
	for _, v := range []int{10, 20, 21, 22, 11, 30} {
		l.PushBack(v)
	}
	l.Sort(func(a, b int) bool { return a/10 < b/10 })
	s := l.Slice()
	if s[0] != 10 || s[1] != 11 {
		t.Fatal(s)
	}
}
''')),
dict(id="ring-unlink-wrap", prop="C09", pkg="ring", edits=[("ring/ring.go", """	return r.Link(r.Move(n + 1))""", """	if l := r.Len(); n > l {
		n = (n-1)%(l-1+1/l) + 1
	}
	return r.Link(r.Move(n + 1))""")],
 needs="Unlink of more elements than the ring has", breaks="the count wraps at one less than the length: the wrong number of elements is removed",
 demo=t("ring", '''
func TestSeededDemo(t *testing.T) {
	r := ring.New[int](5)
	r.Unlink(7)
	if r.Len() != 3 {
		t.Fatal(r.Len())
	}
}
''')),
dict(id="pqueue-overflow", prop="C11", pkg="pqueue", edits=[("pqueue/maxqueue.go", "	return pq[i].priority > pq[j].priority", "	return pq[j].priority-pq[i].priority < 0")],
 needs="priorities further apart than the integer range", breaks="the difference of the priorities wraps around",
 demo=t("pqueue", '''
func TestSeededDemo(t *testing.T) {
	q := pqueue.NewMaxPriorityQueue[string]()
	q.Push(math.MinInt, "low")
	q.Push(1, "high")
	if _, v := q.Pop(); v != "high" {
		t.Fatal(v)
	}
}
''', ["math"])),
dict(id="genmap-equal-missing", prop="C13", pkg="genmap", edits=[("genmap/genmap.go", "	return maps.EqualFunc(m, m2, eq)", """	if len(m) != len(m2) {
		return false
	}
	for k, v := range m {
		if !eq(v, m2[k]) {
			return false
		}
	}
	return true""")],
 needs="maps of the same size where a key missing in the second one has a value equal to the zero value in the first", breaks="a missing key counts as one with the zero value",
 demo=t("genmap", '''
func TestSeededDemo(t *testing.T) {
	a := genmap.From(map[int]int{1: 0})
	b := genmap.From(map[int]int{2: 5})
	if a.EqualFunc(b, func(x, y int) bool { return x == y }) {
		t.Fatal()
	}
}
''')),
dict(id="genmap-clone-alias", prop="C13", pkg="genmap", edits=[("genmap/genmap.go", "	return New[K, V]().CopyFrom(m)", """	if len(m) == 0 {
		return m
	}
	return New[K, V]().CopyFrom(m)""")],
 needs="cloning an empty map and changing one of the two afterwards", breaks="the clone of an empty map is the map itself",
 demo=t("genmap", '''
func TestSeededDemo(t *testing.T) {
	a := genmap.New[int, int]()
	b := a.Clone()
	b.Store(1, 1)
	if a.Len() != 0 {
		t.Fatal()
	}
}
''')),
dict(id="hashring-remove-points", prop="C16", pkg="hashring", edits=[("hashring/hashring.go", """	hr.ResetNodes(hr.rawNodes.Difference(s).Slice()...)""", """	var rest []Node
	hr.rawNodes.Range(func(n Node) bool {
		if !s.Contain(n) {
			rest = append(rest, n)
		}
		return true
	})
	if s.Len() < hr.rawNodes.Len() && s.Len() == 1 {
		// a single member: take its points out
		for _, gone := range s.Slice() {
			for v := 0; v < hr.replicas; v++ {
				if i, ok := hr.nodes.BinarySearch(node[Node]{hash: hr.hashKey(gone, v)}); ok {
					hr.nodes.Remove(i)
				}
			}
		}
		hr.rawNodes.Clear().Push(rest...)
		return
	}
	hr.ResetNodes(rest...)""")],
 needs="two members with a replica point at the same hash, the larger one removed", breaks="removing a member takes out another member's point at the same hash: keys of the other member move, and keys stay with the removed one",
 demo=t("hashring", '''
// two strings with replica points at the same hash, found by search
func TestSeededDemo(t *testing.T) {
	seen := map[uint32]string{}
	for i := 0; ; i++ {
		n := fmt.Sprintf("n%d", i)
		h := crc32.ChecksumIEEE([]byte(n + "-0"))
		o, ok := seen[h]
		if !ok {
			seen[h] = n
			continue
		}
		small, large := min(n, o), max(n, o)
		hr := hashring.New[string](1).AddNodes(small, large)
		hr.RemoveNodes(large)
		if got := hr.GetNode("some key"); got != small {
			t.Fatal(small, large, got)
		}
		return
	}
}
''', ["fmt", "hash/crc32"])),
dict(id="tree-depth-right", prop="C17", pkg="tree", edits=[("tree/tree.go", """	return utils.Max(n.Left.MaxDepth(), n.Right.MaxDepth()) + 1""", """	if !n.HasLeft() {
		return n.Right.Layer() - n.Layer()
	}
	return utils.Max(n.Left.MaxDepth(), n.Right.MaxDepth()) + 1""")],
 needs="a node with only a right child that itself has children", breaks="MaxDepth stops below a node without left child",
 demo=t("tree", '''
func TestSeededDemo(t *testing.T) {
	r := tree.NewNode(1)
	a, b := tree.NewNode(2), tree.NewNode(3)
	r.SetRight(a)
	a.SetRight(b)
	if r.MaxDepth() != 2 {
		t.Fatal(r.MaxDepth())
	}
}
''')),
dict(id="tree-dfs-cap", prop="C17", pkg="tree", edits=[("tree/tree.go", """		res = append(res, node)
		if node.HasRight() {
			queue = append(queue, node.Right)
		}
		if node.HasLeft() {
			queue = append(queue, node.Left)
		}""", """		res = append(res, node)
		if node.HasRight() && (node.HasLeft() || len(queue) == 0 || queue[len(queue)-1] != node.Sibling()) {
			queue = append(queue, node.Right)
		}
		if node.HasLeft() {
			queue = append(queue, node.Left)
		}""")],
 needs="a left child that has a right child only and a sibling", breaks="TraversalDFS leaves out the right subtree of such a node",
 demo=t("tree", '''
func TestSeededDemo(t *testing.T) {
	r := tree.BuildTree([]int{1, 2, 3})
	r.Left.SetRight(tree.NewNode(4))
	if n := len(r.TraversalDFS()); n != 4 {
		t.Fatal(n)
	}
}
''')),
dict(id="cache-submilli", prop="C23", pkg="synccache", edits=[("synccache/item.go", "		expiration: time.Now().Add(expire).UnixMilli(),", "		expiration: time.Now().UnixMilli() + expire.Milliseconds(),")],
 needs="a lifetime and a time of day whose fractions of a millisecond add up to more than one", breaks="the entry expires before its lifetime has passed",
 demo=t("synccache", '''
func TestSeededDemo(t *testing.T) {
	const life = 1900 * time.Microsecond
	for i := 0; i < 20000; i++ {
		s := time.Now()
		e := synccache.NewEntry(1, life)
		for !e.IsExpired() {
		}
		if d := time.Since(s); d < life {
			t.Fatal("expired after", d)
		}
		if i > 1500 {
			return
		}
	}
}
''', ["time"])),
dict(id="refresh-double-check", prop="C28", pkg="refreshcache", edits=[("refreshcache/refreshcache.go", """	r.lock.Lock()
	defer r.lock.Unlock()
	last = atomic.LoadInt64(&r.last)
""", """	if !r.lock.TryLock() { // another goroutine is refreshing: wait for it
		r.lock.Lock()
		if atomic.LoadInt64(&r.last) == 0 {
			r.lock.Unlock()
			return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
		}
	}
	defer r.lock.Unlock()
	last = atomic.LoadInt64(&r.last)
""")],
 needs="two goroutines waiting for a refresh that fails (or is cleared meanwhile)", breaks="the waiting goroutines refresh at the same time, without the lock",
 demo=t("refreshcache", '''
func TestSeededDemo(t *testing.T) {
	var running, most atomic.Int32
	c := refreshcache.NewRefreshCache[int, int](func(ctx context.Context, _ ...int) (int, error) {
		n := running.Add(1)
		if n > most.Load() {
			most.Store(n)
		}
		time.Sleep(50 * time.Millisecond)
		running.Add(-1)
		return 0, errors.New("no")
	}, time.Minute)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Get(context.Background())
		}()
	}
	wg.Wait()
	if most.Load() != 1 {
		t.Fatal("refreshes at once:", most.Load())
	}
}
''', ["context", "errors", "sync", "sync/atomic", "time"])),
dict(id="refresh-clear-order", prop="C29", pkg="refreshcache1", edits=[("refreshcache1/refreshcache1.go", """		data := r.data.Load()
		atomic.StoreInt64(&r.last, 0)
		return clearFunc(""", """		data := r.data.Load()
		defer func(last int64) {
			atomic.CompareAndSwapInt64(&r.last, last, 0)
		}(r.Last())
		return clearFunc(""")],
 needs="a clear function that refreshes or reads through the cache, or an access while the clear function runs", breaks="the value is still served while it is being cleared",
 demo=t("refreshcache1", '''
func TestSeededDemo(t *testing.T) {
	n := 0
	c := refreshcache1.NewRefreshCache[int, int](func(ctx context.Context, _ int) (int, error) { n++; return n, nil }, time.Minute)
	c.Get(context.Background(), 0)
	c.SetClearFunc(func(ctx context.Context, _ int) error {
		if v, _ := c.Get(context.Background(), 0); v != 2 {
			t.Error("served while cleared", v)
		}
		return nil
	})
	c.Clear(context.Background(), 0)
}
''', ["context", "time"])),
dict(id="rwmap-miss-stale", prop="C20", pkg="rwmap", edits=[(W, """		m.mu.Lock()
		// Avoid reporting a spurious miss if m.dirty got promoted while we were
		// blocked on m.mu. (If further loads of the same key will not miss, it's
		// not worth copying the dirty map for this key.)
		read = m.loadReadOnly()
		e, ok = read.m[key]
		if !ok && read.amended {""", """		m.mu.Lock()
		if m.dirty != nil {""")],
 needs="a Load of a new key blocked on the lock while another goroutine promotes the dirty map", breaks="the load does not look at the promoted map and misses the key",
 demo=t("rwmap", '''
func TestSeededDemo(t *testing.T) {
	for i := 0; i < 200000; i++ {
		var m rwmap.RWMap[int, int]
		m.Store(1, 1)
		var wg sync.WaitGroup
		start := make(chan struct{})
		var miss atomic.Int32
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if _, ok := m.Load(1); !ok {
					miss.Add(1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if miss.Load() != 0 {
			t.Fatal("round", i, "a stored key was not found")
		}
	}
}
''', ["sync", "sync/atomic"])),
dict(id="rwmap-dirty-nil", prop="C20", pkg="rwmap", edits=[(W, """	p := e.p.Load()
	for p == nil {
		if e.p.CompareAndSwap(nil, (*V)(expunged)) {
			return true
		}
		p = e.p.Load()
	}
	return uintptr""", """	p := e.p.Load()
	if p == nil {
		e.p.Store((*V)(expunged))
		return true
	}
	return uintptr""")],
 needs="a key deleted and stored again by one goroutine exactly while another adds the first new key", breaks="the stored value is overwritten by the expunged mark: the store is lost",
 demo=t("rwmap", '''
func TestSeededDemo(t *testing.T) {
	for i := 0; i < 300000; i++ {
		var m rwmap.RWMap[int, int]
		m.Store(1, 1)
		m.Range(func(int, int) bool { return true })
		m.Delete(1)
		var wg sync.WaitGroup
		start := make(chan struct{})
		wg.Add(2)
		go func() { defer wg.Done(); <-start; m.Store(1, 2) }()
		go func() { defer wg.Done(); <-start; m.Store(2, 2) }()
		close(start)
		wg.Wait()
		if _, ok := m.Load(1); !ok {
			t.Fatal("round", i, "the store is lost")
		}
	}
}
''', ["sync"])),
]
