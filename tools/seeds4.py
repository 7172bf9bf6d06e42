SC = "synccache/synccache.go"
def t(pkg, body, imports=(), inside=False):
    imps = "".join('\t"%s"\n' % i for i in ["testing", *imports])
    if inside:
        return '\npackage %s\n\nimport (\n%s)\n\n%s' % (pkg, imps, body)
    return '\npackage %s_test\n\nimport (\n%s\n\t"github.com/zijiren233/gencontainer/%s"\n)\n\n%s' % (pkg, imps, pkg, body)
SEEDS = [
dict(id="cache-addexp-lost", prop="C25", pkg="synccache", edits=[("synccache/item.go", """	atomic.AddInt64(&e.expiration, int64(d.Milliseconds()))""", """	at := time.UnixMilli(atomic.LoadInt64(&e.expiration))
	e.SetExpiration(at.Add(d))""")],
 needs="two goroutines that prolong the same entry at the same time", breaks="one of two concurrent AddExpiration calls is lost",
 demo=t("synccache", '''
func TestSeededDemo(t *testing.T) {
	const n = 400000
	e := synccache.NewEntry(1, time.Hour)
	e.SetExpiration(time.Now().Add(-2*n*time.Millisecond + 60*time.Second))
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				e.AddExpiration(time.Millisecond)
			}
		}()
	}
	wg.Wait()
	e.AddExpiration(-30 * time.Second)
	if e.IsExpired() {
		t.Fatal("lost prolongations")
	}
	if e.AddExpiration(-60 * time.Second); !e.IsExpired() {
		t.Fatal("prolonged too much")
	}
}
''', ("sync", "time"))),
dict(id="cache-clear-blind", prop="C25", pkg="synccache", edits=[(SC, """	sc.cache.Range(func(key K, value *Entry[V]) bool {
		sc.CompareAndDelete(key, value)
		return true
	})
}

func (sc *SyncCache[K, V]) Range(""", """	sc.cache.Range(func(key K, value *Entry[V]) bool {
		sc.deletedCallback(value.value)
		return true
	})
	sc.cache.Clear()
}

func (sc *SyncCache[K, V]) Range(""")],
 needs="an entry deleted or stored while Clear is between the callbacks and the clearing", breaks="an entry is called back twice, or removed without being called back",
 demo=t("synccache", '''
func TestSeededDemo(t *testing.T) {
	var back atomic.Int64
	c := synccache.NewSyncCache(time.Second, synccache.WithDeletedCallback[int, int](func(int) { back.Add(1) }))
	defer c.Close()
	const n = 300000
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
				c.Clear()
			}
		}
	}()
	for i := 0; i < n; i++ {
		c.Store(i, i, time.Hour)
		if i%3 == 0 {
			c.Delete(i)
		}
	}
	close(stop)
	<-done
	c.Clear()
	if back.Load() != n {
		t.Fatalf("%d entries, %d callbacks", n, back.Load())
	}
}
''', ("sync/atomic", "time"))),
dict(id="cache-trim-bykey", prop="C25", pkg="synccache", edits=[(SC, """		if now > atomic.LoadInt64(&value.expiration) {
			sc.CompareAndDelete(key, value)
		}""", """		if now > atomic.LoadInt64(&value.expiration) {
			sc.Delete(key)
		}""")],
 needs="an expired entry replaced by a fresh one between the look and the removal of a cleaning pass", breaks="the cleaning pass removes the fresh entry",
 demo=t("synccache", '''
func TestSeededDemo(t *testing.T) {
	c := &SyncCache[int, int]{}
	stop, done := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
				c.trim()
			}
		}
	}()
	lost := 0
	for end := time.Now().Add(20 * time.Second); lost == 0 && time.Now().Before(end); {
		for i := 0; i < 1000; i++ {
			c.Store(i%7, i, -time.Second)
			c.Store(i%7, i, time.Hour)
			if _, ok := c.Load(i % 7); !ok {
				lost++
			}
		}
	}
	close(stop)
	<-done
	if lost > 0 {
		t.Fatal("a fresh entry was removed")
	}
}
''', ("time",), inside=True)),
dict(id="tree-same-child", prop="C18", pkg="tree", edits=[("tree/tree.go", """	old = n.Right
	if n.Right != nil {
		n.Right.Parent = nil
	}
	n.Right = right
	if right != nil {
		right.Parent = n
	}
	return old""", """	old, n.Right = n.Right, right
	if right != nil {
		right.Parent = n
	}
	if old != nil {
		old.Parent = nil
	}
	return old""")],
 needs="SetRight with the child that is there already", breaks="the child is left without parent although it is still the right child",
 demo=t("tree", '''
func TestSeededDemo(t *testing.T) {
	r, c := tree.NewNode(1), tree.NewNode(2)
	r.SetRight(c)
	if old := r.SetRight(c); old != c || c.Parent != r || r.Right != c {
		t.Fatal("links disagree")
	}
}
''')),
dict(id="dllist-foreign-mark", prop="C08", pkg="dllist", edits=[("dllist/dllist.go", """func (l *Dllist[T]) PushBackListTo(other *Dllist[T], mark *Element[T]) {
	if mark.list != l {
		return
	}""", """func (l *Dllist[T]) PushBackListTo(other *Dllist[T], mark *Element[T]) {
	if mark.list == nil || mark.list == other && other != l {
		return
	}""")],
 needs="PushBackListTo with a mark that belongs to a third list", breaks="the values end up in the third list and the receiver's length counts them",
 demo=t("dllist", """
func TestSeededDemo(t *testing.T) {
	a, b, c := dllist.New[int](), dllist.New[int](), dllist.New[int]()
	a.PushBack(1)
	b.PushBack(2)
	m := c.PushBack(3)
	a.PushBackListTo(b, m)
	if a.Len() != 1 || len(c.Slice()) != 1 || len(a.Slice()) != 1 {
		t.Fatal(a.Len(), a.Slice(), c.Slice())
	}
}
""")),
dict(id="refresh-age-start", prop="C26", pkg="refreshcache", edits=[("refreshcache/refreshcache.go", """func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
	r.lock.Lock()
	defer r.lock.Unlock()
	returned := false
	defer func() {
		if !returned {
			return // refreshFunc panicked: there is no result to keep
		}
		if err == nil {
			r.data.Store(&data)
			atomic.StoreInt64(&r.last, time.Now().UnixNano())""", """func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
	r.lock.Lock()
	defer r.lock.Unlock()
	now := time.Now().UnixNano()
	returned := false
	defer func() {
		if !returned {
			return // refreshFunc panicked: there is no result to keep
		}
		if err == nil {
			r.data.Store(&data)
			atomic.StoreInt64(&r.last, now)""")],
 needs="an explicit Refresh whose refresh function takes longer than the maximum age", breaks="the new value is stale at once: the age counts from the start of the refresh",
 demo=t("refreshcache", """
func TestSeededDemo(t *testing.T) {
	n := 0
	c := refreshcache.NewRefreshCache(func(context.Context, ...int) (int, error) {
		n++
		time.Sleep(1500 * time.Millisecond)
		return n, nil
	}, time.Second)
	c.Refresh(context.Background())
	if v, err := c.Get(context.Background()); v != 1 || err != nil || n != 1 {
		t.Fatal("fresh value refreshed again", v, err, n)
	}
}
""", ("context", "time"))),
]
