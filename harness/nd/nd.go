// Package nd is the interface between a harness and its two executions: the symbolic executor replaces every function
// below by its own implementation, and natively (replay of a counterexample or of a path witness) the values come from
// the file named by ND_REPLAY, in call order.
package nd

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type rec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    string `json:"v"` // decimal uint64, or hex bytes for strings
}

type replay struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []rec          `json:"inputs"`
	Sched   [][2]int       `json:"sched"`
}

var (
	data   *replay
	pos    int
	hashes = map[string]uint32{}
	now    = int64(1700000000000000000)
)

func load() {
	if data != nil {
		return
	}
	data = &replay{}
	b, err := os.ReadFile(os.Getenv("ND_REPLAY"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "nd: no replay file:", err)
		os.Exit(9)
	}
	if err := json.Unmarshal(b, data); err != nil {
		fmt.Fprintln(os.Stderr, "nd:", err)
		os.Exit(9)
	}
	var seq []rec
	for _, r := range data.Inputs {
		if r.Kind == "hash" {
			v, _ := strconv.ParseUint(r.V, 10, 64)
			hashes[r.Name[len("hash:"):]] = uint32(v)
			continue
		}
		seq = append(seq, r)
	}
	data.Inputs = seq
}

func next(name string) rec {
	load()
	if pos >= len(data.Inputs) {
		// past the recorded prefix (the counterexample ended earlier): any value will do
		return rec{Name: name, V: "0"}
	}
	r := data.Inputs[pos]
	pos++
	if r.Name != name {
		fmt.Fprintf(os.Stderr, "nd: replay diverged: wanted %q, recorded %q\n", name, r.Name)
		os.Exit(8)
	}
	return r
}

func num(name string) uint64 {
	v, _ := strconv.ParseUint(next(name).V, 10, 64)
	return v
}

func Bool(name string) bool   { return num(name) == 1 }
func Int(name string) int     { return int(num(name)) }
func I64(name string) int64   { return int64(num(name)) }
func I32(name string) int32   { return int32(num(name)) }
func I16(name string) int16   { return int16(num(name)) }
func I8(name string) int8     { return int8(num(name)) }
func U64(name string) uint64  { return num(name) }
func U32(name string) uint32  { return uint32(num(name)) }
func U16(name string) uint16  { return uint16(num(name)) }
func U8(name string) uint8    { return uint8(num(name)) }
func F64(name string) float64 { return math.Float64frombits(num(name)) }
func F32(name string) float32 { return math.Float32frombits(uint32(num(name))) }

// Nat is a symbolic integer in [0, 2^bits).
func Nat(name string, bits int) int64 { return int64(num(name)) }

// Range is a symbolic integer in [lo, hi].
func Range(name string, lo, hi int) int { return int(num(name)) }

// Fix makes a symbolic integer concrete (one path per value).
func Fix(x int) int { return x }

// Pick is a concrete choice out of 0..n-1 (one path per value).
func Pick(name string, n int) int { return Fix(Range(name, 0, n-1)) }

// Str is a string of n symbolic bytes.
func Str(name string, n int) string {
	b, _ := hex.DecodeString(next(name).V)
	for len(b) < n {
		b = append(b, 0)
	}
	return string(b)
}

// And, Or, Not, Implies, Sel and SelB build conditions and selections without a branch (oracles use them to avoid forking).
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func Sel(b bool, x, y int) int {
	if b {
		return x
	}
	return y
}

func SelB(b bool, x, y bool) bool {
	if b {
		return x
	}
	return y
}

// B2I is 1 for true.
func B2I(b bool) int { return Sel(b, 1, 0) }

// Case is a structural choice out of 0..n-1 over which the exploration is split.
func Case(name string, n int) int { return int(num(name)) }

// Param is a bound set per tier.
func Param(name string) int {
	load()
	return data.Params[name]
}

// Assume restricts the rest of the run to executions satisfying b.
func Assume(b bool) {
	if !b && !free {
		fmt.Fprintln(os.Stderr, "nd: assumption does not hold")
		os.Exit(4)
	}
}

// Assert is the property.
func Assert(b bool, msg string) {
	if !b && !free {
		fmt.Fprintln(os.Stderr, "ASSERTION FAILED:", msg)
		os.Exit(3)
	}
}

// Fail marks code the property says is never reached.
func Fail(msg string) { Assert(false, msg) }

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// Cover marks a situation the harness must be able to reach (vacuity check).
func Cover(name string) {}

// MapOrder sets how iteration order over built-in maps is explored: 0 insertion order, 1 every order, 2 insertion order or its reverse at every iteration, 3 reverse insertion order.
func MapOrder(mode int) {}

// SymHash makes crc32 an arbitrary function of its input with values of the given number of bits.
func SymHash(bits int) { load() }

// HashPin fixes the hash of content s.
func HashPin(s string, h uint32) { load(); hashes[s] = h }

// HashOf is the hash the code under test sees for content s.
func HashOf(s string) uint32 { return Hash([]byte(s)) }

// Hash is what the crc32 shim calls.
func Hash(b []byte) uint32 {
	load()
	if h, ok := hashes[string(b)]; ok {
		return h
	}
	return crc32.ChecksumIEEE(b)
}

// SetNow, Advance and Now control the clock seen by the code under test (nanoseconds).
func SetNow(ns int64) { atomic.StoreInt64(&now, ns) }
func Advance(d int64) { Point(); atomic.AddInt64(&now, d) }
func Now() int64      { return atomic.LoadInt64(&now) }

// NowMs is the clock in milliseconds.
func NowMs() int64 { return time.Unix(0, Now()).UnixMilli() }

var (
	tickers    []chan time.Time
	lastTicker chan time.Time
	tickMu     sync.Mutex
)

// AddTicker is called by the time shim.
func AddTicker() chan time.Time {
	c := make(chan time.Time)
	tickMu.Lock()
	tickers = append(tickers, c)
	lastTicker = c
	tickMu.Unlock()
	return c
}

func symbolic() bool  { return false }
func spawned() func() { return nil }

// Tick makes the ticker of the background goroutine fire once and has the calling thread do that goroutine's work until it waits for the next tick. It is the last thing a thread does.
func Tick() {
	if symbolic() {
		spawned()()
		return
	}
	me := cur
	idle()
	tickMu.Lock()
	c := lastTicker
	tickMu.Unlock()
	if c == nil {
		return
	}
	c <- time.Unix(0, Now())
	idle()
	if me != nil && cur != me {
		panic("nd: background goroutine ended out of turn")
	}
}

// idle waits until every goroutine started by the code under test waits for something.
func idle() {
	for n := 0; ; n++ {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		busy, any := false, false
		for _, g := range strings.Split(string(buf), "\n\n") {
			i := strings.Index(g, "created by ")
			if i < 0 || !strings.Contains(g[i:], "gencontainer/") || strings.Contains(g[i:], "/zzverif/") {
				continue
			}
			any = true
			h, _, _ := strings.Cut(g, "\n")
			waits := strings.Contains(h, "[chan receive") || strings.Contains(h, "[select")
			if !waits || strings.Contains(g[:i], "/zzverif/nd.") {
				busy = true
			}
		}
		if !busy && any || n > 20000 {
			return
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// Background lets background goroutines run until they block.
func Background() { time.Sleep(30 * time.Millisecond) }

// FireTickers makes every ticker of the code under test fire once and lets background goroutines finish their work.
func FireTickers() {
	time.Sleep(10 * time.Millisecond)
	for _, c := range tickers {
		select {
		case c <- time.Unix(0, now):
		case <-time.After(200 * time.Millisecond):
		}
	}
	time.Sleep(50 * time.Millisecond)
}

// Tickers is the number of tickers the code under test has created.
func Tickers() int { return len(tickers) }

// Yield is an explicit scheduling point.
func Yield() {
	if free {
		runtime.Gosched()
	}
	Point()
}

// ---------------------------------------------------------------- threads

type thread struct {
	id     int
	wake   chan struct{}
	budget int
	done   bool
	block  bool
}

var (
	threads []*thread
	cur     *thread
	ctl     chan struct{}
)

// free: run without a schedule, again and again, for the race detector.
var (
	free bool
	runs int
)

// Again says whether the harness is to be run once more.
func Again() bool {
	free = true
	if runs == 0 {
		runs, _ = strconv.Atoi(os.Getenv("ND_AGAIN"))
	}
	runs--
	pos, tickers, now = 0, nil, 1700000000000000000
	return runs > 0
}

func parFree(fs []func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { recover() }()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
}

// Par runs the functions as concurrent threads under the recorded schedule.
func Par(fs ...func()) {
	load()
	if free {
		parFree(fs)
		return
	}
	ctl = make(chan struct{})
	threads = nil
	for i, f := range fs {
		t := &thread{id: i, wake: make(chan struct{})}
		threads = append(threads, t)
		go func(f func()) {
			<-t.wake
			f()
			t.done = true
			ctl <- struct{}{}
		}(f)
	}
	runT := func(t *thread, n int) {
		if t.done {
			return
		}
		t.budget = n
		t.block = false
		cur = t
		t.wake <- struct{}{}
		<-ctl
		cur = nil
	}
	for _, s := range data.Sched {
		if s[0] < len(threads) {
			runT(threads[s[0]], s[1])
		}
	}
	for round := 0; ; round++ {
		left, blocked := 0, 0
		for _, t := range threads {
			if !t.done {
				runT(t, 1<<30)
			}
			if !t.done {
				left++
				if t.block {
					blocked++
				}
			}
		}
		if left == 0 {
			break
		}
		if left == blocked && round > 2 {
			fmt.Fprintln(os.Stderr, "DEADLOCK: every unfinished thread is blocked")
			os.Exit(5)
		}
	}
	threads = nil
}

func park() {
	t := cur
	ctl <- struct{}{}
	<-t.wake
}

// Point is called by the shims before every visible operation.
func Point() {
	if cur == nil {
		return
	}
	for cur.budget <= 0 {
		park()
	}
	cur.budget--
}

// Acquire performs a blocking acquisition as one visible operation.
func Acquire(try func() bool) {
	for {
		if cur == nil {
			if try() {
				return
			}
			fmt.Fprintln(os.Stderr, "DEADLOCK: lock already held")
			os.Exit(5)
		}
		for cur.budget <= 0 {
			park()
		}
		if try() {
			cur.budget--
			return
		}
		cur.block = true
		park()
	}
}

// Concurrent reports whether schedules are explored.
func Concurrent() bool { return data != nil && len(data.Sched) > 0 }
