package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one unit of exploration: a harness under a prefix of case choices.
type Job struct {
	H      *Harness
	cases  []int
	params map[string]int
	tier   string
}

func (j *Job) String() string { return fmt.Sprintf("%s%v", j.H.Name, j.cases) }

type JobResult struct {
	job     *Job
	split   int
	viol    []*Violation
	stats   Stats
	incompl []string
	queries int
	nsat    int
	nunsat  int
	nunk    int
	solTime time.Duration
	maxQ    time.Duration
	err     string
	wall    time.Duration
	obligs  int
	proved  int
	witness []*ReplayFile
	m       *Machine
}

func newMachine(P *Program, job *Job, deadline time.Time) *Machine {
	c := NewTermCtx()
	m := &Machine{P: P, c: c, lay: &Layout{size: map[typesType]int{}}, job: job, deadline: deadline, feasCache: map[*Term]Res{},
		allocs: map[string][]allocRec{}, access: map[[2]int32][]accessRec{}, visPlain: map[ssa.Instruction]bool{}}
	m.stats.Funcs = map[string]int{}
	m.stats.Cover = map[string]int{}
	m.mergeM = job.H.Mode == "M"
	m.maxSteps = 400000
	if v, ok := job.params["STEPS"]; ok {
		m.maxSteps = v
	}
	return m
}

func (m *Machine) initState() *State {
	st := &State{globals: map[*ssa.Global]int32{}, hashes: map[string]*Term{}, objs: []*Object{nil}}
	m.st = st
	return st
}

// runInits executes the package initialisers the harness needs (concretely).
func (m *Machine) runInits() {
	for _, p := range m.P.initPkgs {
		if p != m.job.H.fn.Pkg {
			continue
		}
		p.Build()
		cfg := &Config{guard: m.c.True, th: &Thread{}}
		m.pushFrame(cfg, p.Func("init"), nil, nil, true)
		save := m.mergeM
		m.mergeM = false
		m.st.cfg = cfg
		for len(cfg.frames) > 0 {
			m.st.decIdx, m.st.forced, m.st.pcAt = 0, nil, len(m.st.pc)
			m.stepF(cfg)
		}
		m.mergeM = save
	}
	m.st.steps = 0
}

// stepF runs one instruction in fork mode, turning Go panics of the engine into state changes.
func (m *Machine) stepF(cfg *Config) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case raiseSig:
				fr := cfg.top()
				fr.panics = true
				fr.recov = false
				fr.panicVal = x.v
			default:
				panic(r)
			}
		}
	}()
	m.step(cfg)
}

func runJob(P *Program, job *Job, deadline time.Time, seed int64) (res *JobResult) {
	t0 := time.Now()
	m := newMachine(P, job, deadline)
	res = &JobResult{job: job, m: m}
	m.rng = rand.New(rand.NewSource(seed))
	if m.mergeM {
		m.sol = NewSolver(m.c, 20000, true)
	} else {
		m.sol = NewSolver(m.c, 30000, false)
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case splitSig:
				res.split = x.n
			case fatalErr:
				res.err = string(x)
			case stopJob:
			default:
				res.err = fmt.Sprintf("engine: %v at %s", r, m.where())
				if os.Getenv("GOSYM_V") != "" {
					debug.PrintStack()
				}
			}
		}
		m.sol.Close()
		res.viol = m.viol
		res.witness = m.witness
		res.stats = m.stats
		res.incompl = m.incompl
		res.queries += m.sol.Queries
		res.nsat += m.sol.NSat
		res.nunsat += m.sol.NUnsat
		res.nunk += m.sol.NUnk
		res.solTime += m.sol.Time
		res.maxQ = max(res.maxQ, m.sol.MaxQ)
		res.wall = time.Since(t0)
	}()
	m.initState()
	m.runInits()
	if m.mergeM {
		m.runMerge(res)
		return
	}
	cfg := &Config{guard: m.c.True, th: &Thread{}}
	m.st.cfg = cfg
	m.pushFrame(cfg, job.H.fn, nil, nil, true)
	m.st.model = Model{}
	m.work = []*State{m.st}
	for len(m.work) > 0 {
		st := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		m.runPath(st)
		if time.Now().After(m.deadline) && len(m.work) > 0 {
			m.incomplete(fmt.Sprintf("time budget: %s left %d states unexplored", job, len(m.work)))
			return
		}
	}
	return
}

// runPath runs st until it ends; forks are queued in m.work.
func (m *Machine) runPath(st *State) {
	m.st = st
	for {
		ended := m.pathStep(st)
		if ended {
			m.stats.Paths++
			if len(st.cfg.frames) == 0 {
				m.sampleWitness(st)
			}
			return
		}
		st.steps++
		if st.steps > m.maxSteps {
			m.pathEnd(func() { m.curCfg = m.active(st); m.hang(m.curCfg, fmt.Sprintf("more than %d steps", m.maxSteps)) })
			m.stats.Paths++
			return
		}
		if st.steps%4096 == 0 && time.Now().After(m.deadline) {
			m.incomplete("time budget: path cut in " + m.job.String())
			return
		}
	}
}

// sampleWitness keeps the model of a finished path for native validation (reservoir of 3 per job).
func (m *Machine) sampleWitness(st *State) {
	m.finished++
	if st.model == nil {
		return
	}
	k := m.finished - 1
	if k >= 3 {
		k = m.rng.Intn(m.finished)
	}
	if k >= 3 {
		return
	}
	rf := m.replayFile(st.inputs, st.model, "witness", "")
	if k < len(m.witness) {
		m.witness[k] = rf
	} else {
		m.witness = append(m.witness, rf)
	}
}

func (m *Machine) pathEnd(f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case pathDead, cfgDead:
			default:
				panic(r)
			}
		}
	}()
	f()
}

func (m *Machine) active(st *State) *Config {
	if st.cur == 0 {
		return st.cfg
	}
	return st.bg[st.cur-1]
}

// pathStep advances the active goroutine by one instruction; true when the path is over.
func (m *Machine) pathStep(st *State) (ended bool) {
	if st.runBg && st.cur == 0 {
		st.runBg = false
		if len(st.bg) > 0 {
			st.cur = 1
			st.bgMoved = false
		}
	}
	cfg := m.active(st)
	if len(cfg.frames) == 0 {
		if st.cur == 0 {
			return true
		}
		m.nextBg(st)
		return false
	}
	st.decIdx = 0
	st.pcAt = len(st.pc)
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case pathDead, cfgDead:
				ended = true
			case blockedSig, lockedSig:
				if st.cur != 0 {
					m.nextBg(st)
					return
				}
				m.pathEnd(func() { m.hang(cfg, "deadlock at "+m.shortWhere()) })
				ended = true
			default:
				panic(r)
			}
		}
	}()
	m.stepF(cfg)
	st.forced = st.forced[:0:0]
	if st.cur != 0 {
		st.bgMoved = true
	}
	return false
}

func (m *Machine) nextBg(st *State) {
	st.forced = nil
	st.cur++
	if st.cur > len(st.bg) {
		st.cur = 0
	}
}

func (m *Machine) shortWhere() string {
	w := m.where()
	if i := strings.Index(w, " < "); i > 0 {
		return w[:i]
	}
	return w
}

// ---------------------------------------------------------------- job pool

type CheckResult struct {
	results []*JobResult
	jobs    int
}

// violGrace is how long a job goes on after it found a counterexample (0: to its end).
var violGrace = 15 * time.Second

func runJobs(P *Program, hs []*Harness, tier string, workers int, budget time.Duration, seed int64, onViol func(*JobResult) bool) *CheckResult {
	deadline := time.Now().Add(budget)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queues := make([][]*Job, len(hs)) // per harness, served in turn, so that a time budget is shared fairly
	queued, turn := 0, 0
	rng := rand.New(rand.NewSource(seed))
	push := func(j *Job) {
		for i, h := range hs {
			if h == j.H {
				queues[i] = append(queues[i], j)
			}
		}
		queued++
	}
	pop := func() *Job {
		for len(queues[turn%len(hs)]) == 0 {
			turn++
		}
		q := queues[turn%len(hs)]
		k := rng.Intn(len(q))
		j := q[k]
		q[k] = q[len(q)-1]
		queues[turn%len(hs)] = q[:len(q)-1]
		turn++
		queued--
		return j
	}
	pending := 0
	stop := false
	stopped := make(chan struct{})
	cr := &CheckResult{}
	for _, h := range hs {
		ps := map[string]int{}
		for k, v := range h.Params["quick"] {
			ps[k] = v
		}
		if tier == "thorough" {
			for k, v := range h.Params["thorough"] {
				ps[k] = v
			}
		}
		push(&Job{H: h, params: ps, tier: tier})
		pending++
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for queued == 0 && pending > 0 && !stop {
					cond.Wait()
				}
				if time.Now().After(deadline) && queued > 0 {
					n := queued
					cr.results = append(cr.results, &JobResult{job: pop(), split: -1, incompl: []string{fmt.Sprintf("time budget: %d jobs not started", n)}})
					pending -= n
					queues, queued = make([][]*Job, len(hs)), 0
					cond.Broadcast()
				}
				if queued == 0 || stop {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				j := pop()
				mu.Unlock()
				r := runJob(P, j, deadline, jobSeed(seed, j))
				if os.Getenv("GOSYM_V") != "" {
					fmt.Fprintf(os.Stderr, "[job] %v split=%d paths=%d steps=%d q=%d sol=%v wall=%v viol=%d err=%s inc=%v\n", j, r.split, r.stats.Paths, r.stats.Steps, r.queries, r.solTime.Round(time.Millisecond), r.wall.Round(time.Millisecond), len(r.viol), r.err, r.incompl)
				}
				mu.Lock()
				if r.split > 0 {
					for i := 0; i < r.split; i++ {
						if k := len(j.cases); k < len(onlyCase) && onlyCase[k] != i {
							continue
						}
						push(&Job{H: j.H, params: j.params, tier: tier, cases: append(append([]int(nil), j.cases...), i)})
						pending++
					}
					cr.results = append(cr.results, r)
				} else {
					cr.results = append(cr.results, r)
					cr.jobs++
				}
				r.m.release()
				pending--
				cond.Broadcast()
				mu.Unlock()
				if len(r.viol) > 0 && onViol != nil {
					mu.Lock()
					if !stop && onViol(r) {
						stop = true
						close(stopped)
						cond.Broadcast()
					}
					mu.Unlock()
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-stopped: // a confirmed violation: the other jobs do not matter any more
	}
	mu.Lock()
	defer mu.Unlock()
	out := &CheckResult{results: append([]*JobResult(nil), cr.results...), jobs: cr.jobs}
	sort.Slice(out.results, func(i, j int) bool { return out.results[i].job.String() < out.results[j].job.String() })
	return out
}

// release drops the big per-job structures, keeping what reports need.
func (m *Machine) release() {
	m.st = nil
	m.work = nil
	m.threads = nil
	m.access = nil
	m.allocs = nil
	m.feasCache = nil
	if len(m.viol) == 0 {
		m.c = nil
	}
}
