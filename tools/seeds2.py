W = "rwmap/rwmap.go"
SEEDS = [
dict(id="rwmap-cas-retry", prop="C20", pkg="rwmap", edits=[(W, """		p = e.p.Load()
		if p == nil || uintptr(unsafe.Pointer(p)) == expungedUintptr || !reflect.ValueOf(*p).Equal(reflect.ValueOf(old)) {
			return false
		}
	}""", """		p = e.p.Load()
		if p == nil || uintptr(unsafe.Pointer(p)) == expungedUintptr {
			return false
		}
	}""")],
 needs="two concurrent CompareAndSwap of the same old value, the second one between the comparison and the swap of the first", breaks="a retried CompareAndSwap no longer compares: both succeed",
 demo='''
package rwmap_test

import (
	"sync"
	"sync/atomic"
	"testing"

	"github.com/zijiren233/gencontainer/rwmap"
)

type big [4096]int

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		var m rwmap.RWMap[int, big]
		m.Store(1, big{})
		m.Range(func(int, big) bool { return true })
		var wg sync.WaitGroup
		var n atomic.Int32
		start := make(chan struct{})
		for g := 1; g <= 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				v := big{g}
				<-start
				if m.CompareAndSwap(1, big{}, v) {
					n.Add(1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if n.Load() != 1 {
			t.Fatal("round", i, "successful swaps:", n.Load())
		}
	}
}
'''),
dict(id="rwmap-cad-blind", prop="C21", pkg="rwmap", edits=[(W, """		if e.p.CompareAndSwap(p, nil) {
			return true
		}""", """		e.p.Store(nil)
		return true""")],
 needs="two goroutines in CompareAndDelete for the same key and value at the same instant", breaks="both deletions succeed and both are counted: Len is one too low",
 demo='''
package rwmap_test

import (
	"sync"
	"testing"

	"github.com/zijiren233/gencontainer/rwmap"
)

type big [4096]int

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		var m rwmap.RWMap[int, big]
		m.Store(1, big{})
		m.Store(2, big{1})
		m.Range(func(int, big) bool { return true })
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 1; g <= 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				m.CompareAndDelete(1, big{})
			}()
		}
		close(start)
		wg.Wait()
		if m.Len() != 1 {
			t.Fatal("round", i, "Len:", m.Len())
		}
	}
}
'''),
dict(id="rwmap-range-promote", prop="C22", pkg="rwmap", edits=[(W, """		read = m.loadReadOnly()
		if read.amended {
			read = readOnly[K, V]{m: m.dirty}""", """		if read.amended {
			read = readOnly[K, V]{m: m.dirty}""")],
 needs="two goroutines iterating over a map that has just got a new key", breaks="the second Range promotes the dirty map again, which is gone: it sees nothing and the map loses every key",
 demo='''
package rwmap_test

import (
	"sync"
	"testing"

	"github.com/zijiren233/gencontainer/rwmap"
)

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 200000; i++ {
		var m rwmap.RWMap[int, int]
		m.Store(1, 1)
		var wg sync.WaitGroup
		start := make(chan struct{})
		var seen [4]int
		for g := range seen {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				m.Range(func(int, int) bool { seen[g]++; return true })
			}()
		}
		close(start)
		wg.Wait()
		if seen != [4]int{1, 1, 1, 1} {
			t.Fatal("round", i, seen)
		}
	}
}
'''),
dict(id="cache-expired-delete", prop="C25", pkg="synccache", edits=[("synccache/synccache.go", """	sc.CompareAndDelete(key, e)
	return nil, false
""", """	sc.Delete(key)
	return nil, false
""")],
 needs="a Store of a fresh entry between the moment Load finds the old one expired and its removal", breaks="Load removes the fresh entry in place of the expired one",
 demo='''
package synccache_test

import (
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
)

func TestSeededDemo(t *testing.T) {
	key := strings.Repeat("k", 1<<18)
	s := synccache.NewSyncCache[string, int](time.Second)
	defer s.Close()
	for i := 0; i < 10000; i++ {
		s.Store(key, 1, -time.Hour)
		var wg sync.WaitGroup
		start := make(chan struct{})
		wg.Add(2)
		go func() {
			defer wg.Done()
			<-start
			s.Load(key)
		}()
		go func() {
			defer wg.Done()
			<-start
			for j := 0; j < (i%20)*50; j++ {
			}
			s.Store(key, 2, time.Hour)
		}()
		close(start)
		wg.Wait()
		if e, ok := s.Load(key); !ok || e.Value() != 2 {
			t.Fatal("round", i, "the fresh entry is gone")
		}
	}
}
'''),
dict(id="refresh-recheck", prop="C28", pkg="refreshcache", edits=[("refreshcache/refreshcache.go", """	defer r.lock.Unlock()
	last = atomic.LoadInt64(&r.last)
	if last > 0""", """	defer r.lock.Unlock()
	if last > 0""")],
 needs="a Get that waits for the refresh of another Get", breaks="the waiting Get decides with the time it read before waiting and refreshes again",
 demo='''
package refreshcache_test

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
)

func TestSeededDemo(t *testing.T) {
	var calls atomic.Int32
	in, out := make(chan struct{}, 9), make(chan struct{})
	c := refreshcache.NewRefreshCache(func(ctx context.Context, args ...int) (int, error) {
		in <- struct{}{}
		<-out
		return int(calls.Add(1)), nil
	}, time.Hour)
	res := make(chan int, 2)
	get := func() {
		v, _ := c.Get(context.Background())
		res <- v
	}
	go get()
	<-in
	go get()
	time.Sleep(200 * time.Millisecond)
	close(out)
	if a, b := <-res, <-res; a != 1 || b != 1 || calls.Load() != 1 {
		t.Fatal(a, b, calls.Load())
	}
}
'''),
dict(id="refresh-plain-lasterr", prop="C30", pkg="refreshcache0", flags="-race", edits=[("refreshcache0/refreshcache0.go", """func (r *RefreshData[T]) Raw() (data T, err error) {
	last := atomic.LoadInt64(&r.last)""", """func (r *RefreshData[T]) Raw() (data T, err error) {
	last := r.last""")],
 needs="Raw in one goroutine while another one refreshes", breaks="Raw reads the refresh time without synchronisation: a data race",
 demo='''
package refreshcache0_test

import (
	"context"
	"sync"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache0"
)

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		c := refreshcache0.NewRefreshCache(func(ctx context.Context) (int, error) { return 1, nil }, time.Hour)
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			c.Refresh(context.Background())
		}()
		go func() {
			defer wg.Done()
			c.Raw()
		}()
		wg.Wait()
	}
}
'''),
dict(id="cache-value-delete", prop="C25", pkg="synccache", edits=[("synccache/synccache.go", """reflect.ValueOf(oldValue).Equal(reflect.ValueOf(e.value)) {
		return sc.CompareAndDelete(key, e)
	}
	return false""", """reflect.ValueOf(oldValue).Equal(reflect.ValueOf(e.value)) {
		_, success = sc.LoadAndDelete(key)
	}
	return success""")],
 needs="a Store of another value between the comparison and the deletion of CompareValueAndDelete", breaks="CompareValueAndDelete deletes a value it did not compare",
 demo='''
package synccache_test

import (
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
)

func TestSeededDemo(t *testing.T) {
	key := strings.Repeat("k", 1<<18)
	s := synccache.NewSyncCache[string, int](time.Second)
	defer s.Close()
	for i := 0; i < 10000; i++ {
		s.Store(key, 1, time.Hour)
		var wg sync.WaitGroup
		start := make(chan struct{})
		wg.Add(2)
		go func() {
			defer wg.Done()
			<-start
			s.CompareValueAndDelete(key, 1)
		}()
		go func() {
			defer wg.Done()
			<-start
			for j := 0; j < (i%20)*50; j++ {
			}
			s.Store(key, 2, time.Hour)
		}()
		close(start)
		wg.Wait()
		if e, ok := s.Load(key); !ok || e.Value() != 2 {
			t.Fatal("round", i, "a value that was not compared is gone")
		}
	}
}
'''),
]
