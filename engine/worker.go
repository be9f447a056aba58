package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one harness entry point.
type Job struct {
	Name    string
	fn      *ssa.Function
	mu      sync.Mutex
	paths   int64
	ended   map[string]int64
	incompl map[string]int64
	reached map[string]int64
	asserts int64 // evaluated assertions
	aSolver int64 // decided by a solver query (or by a domain decision confirmed by one)
	viol    map[string][]*Case
	nviol   int
	samples []*Case
	nsamp   int
	stuck   []*Case // inputs of paths the engine could not follow to their end
	nstuck  int
	unknown int64
}

// Case is a concrete input for a native run of a job.
type Case struct {
	Job    string   `json:"job"`
	Vals   []uint64 `json:"vals"`
	Obs    []string `json:"-"`
	Label  string   `json:"label,omitempty"`
	Status string   `json:"-"`
	Pad    bool     `json:"pad,omitempty"` // values the path never asked for are 0
}

type Explorer struct {
	prog     *Program
	merge    bool
	noFork   bool
	maxDepth int
	maxSteps int
	nforks   int64
	nSteps   int64
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*State
	idle     int32
	nworkers int
	stop     int32
	timedOut int32
	deadline time.Time
	jobs     []*Job
	maxSamp  int
	seed     int64
	onViol   func(j *Job, c *Case)
}

type Worker struct {
	x      *Explorer
	solver *Solver
	cur    *State
	local  []*State
	nsteps int64
	rnd    *rand.Rand
}

func (x *Explorer) stopped() bool { return atomic.LoadInt32(&x.stop) != 0 }
func (x *Explorer) expired() bool { return time.Now().After(x.deadline) }
func (x *Explorer) timeout() {
	atomic.StoreInt32(&x.timedOut, 1)
	x.halt()
}
func (x *Explorer) halt() {
	atomic.StoreInt32(&x.stop, 1)
	x.mu.Lock()
	x.cond.Broadcast()
	x.mu.Unlock()
}

func (st *State) shareable() bool {
	for _, f := range st.frames {
		if b := f.barrier; b != nil && !b.aborted && !(b.active == 1 && len(b.collected) == 0) {
			return false
		}
	}
	return true
}

func (w *Worker) push(st *State) {
	w.local = append(w.local, st)
	w.share()
}

func (w *Worker) share() {
	if atomic.LoadInt32(&w.x.idle) == 0 {
		return
	}
	for i, s := range w.local {
		if i > 8 {
			break
		}
		if s.shareable() {
			w.local = append(w.local[:i:i], w.local[i+1:]...)
			w.x.mu.Lock()
			w.x.queue = append(w.x.queue, s)
			w.x.cond.Signal()
			w.x.mu.Unlock()
			return
		}
	}
}

func (w *Worker) abort(b *Barrier) {
	b.aborted = true
	c := b.collected
	b.collected, b.rets = nil, nil
	for _, s := range c {
		w.local = append(w.local, s)
	}
}

func (w *Worker) finalize(b *Barrier) {
	k := len(b.collected)
	ss, rets := b.collected, b.rets
	alts := make([]Alt, k)
	for i, s := range ss {
		g := tTrue
		for _, c := range s.conds[b.nconds:] {
			g = mkAnd(g, c)
		}
		alts[i] = Alt{g, rets[i]}
	}
	v, ok := mergeAlts(alts)
	if !ok {
		w.abort(b)
		w.cur = nil
		return
	}
	b.aborted = true
	b.collected, b.rets = nil, nil
	m := ss[0]
	f := m.frames[len(m.frames)-1]
	for _, s := range ss {
		if s.steps > m.steps {
			m.steps = s.steps
		}
	}
	m.conds = m.conds[:b.nconds:b.nconds]
	m.dom = b.dom
	m.resid = b.resid
	m.frames = m.frames[:len(m.frames)-1]
	for _, g := range m.frames {
		if ob := g.barrier; ob != nil && !ob.aborted {
			ob.active -= k - 1
		}
	}
	m.w = w
	w.cur = m
	m.afterReturn(f, v)
}

func (w *Worker) end(st *State, status string) {
	st.abortAll()
	j := st.job
	j.mu.Lock()
	j.ended[status]++
	if status == "done" || status == "panic" {
		j.paths++
	}
	n := j.paths
	j.mu.Unlock()
	if status == "done" && w.x.maxSamp > 0 {
		take := n <= int64(w.x.maxSamp/2) || w.rnd.Int63n(n+1) < 3
		if take {
			w.sample(st)
		}
	}
	if status == "unsupported" && w.x.onViol != nil {
		w.stuck(st)
	}
	if w.cur == st {
		w.cur = nil
	}
}

const maxStuck = 400

// stuck keeps an input of a path that was not followed to its end, for a native run.
func (w *Worker) stuck(st *State) {
	j := st.job
	j.mu.Lock()
	j.nstuck++
	n := j.nstuck
	j.mu.Unlock()
	if n > maxStuck && w.rnd.Intn(n) >= maxStuck {
		return
	}
	m, r := st.model(nil)
	if r != Sat {
		return
	}
	c := st.caseOf(m, false)
	c.Pad = true
	j.mu.Lock()
	defer j.mu.Unlock()
	if len(j.stuck) < maxStuck {
		j.stuck = append(j.stuck, c)
	} else {
		j.stuck[w.rnd.Intn(maxStuck)] = c
	}
}

func allVars(cs []*Term) []int32 {
	m := map[int32]bool{}
	for _, c := range cs {
		for _, v := range c.vars {
			m[v] = true
		}
	}
	out := make([]int32, 0, len(m))
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (st *State) model(extra *Term) (map[int32]uint64, Result) {
	cs := st.pathTerms()
	if extra != nil && !extra.isTrue() {
		cs = append(cs, extra)
	}
	r, m := st.w.solver.check(cs, allVars(cs))
	return m, r
}

func (st *State) caseOf(m map[int32]uint64, withObs bool) *Case {
	env := func(v int32) uint64 {
		if x, ok := m[v]; ok {
			return x
		}
		if d, ok := st.getDom(v); ok {
			if d.has('a') {
				return 'a'
			}
			return d.min()
		}
		return 0
	}
	ev := &evaluator{env: env, memo: map[*Term]uint64{}}
	c := &Case{Job: st.job.Name}
	for _, n := range st.nondet {
		c.Vals = append(c.Vals, ev.eval(n.term))
	}
	if withObs {
		for _, o := range st.obs {
			c.Obs = append(c.Obs, o.label+"="+ev.show(o.v))
		}
	}
	return c
}

type evaluator struct {
	env  func(int32) uint64
	memo map[*Term]uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OVar:
		r = e.env(int32(t.k)) & mask(t.w)
	case OInSet:
		r = b2u(t.set.has(e.eval(t.a)))
	default:
		var a, b, c uint64
		a = e.eval(t.a)
		if t.b != nil {
			b = e.eval(t.b)
		}
		if t.c != nil {
			c = e.eval(t.c)
		}
		r = evalOp(t.op, t.w, a, b, c, t.a, t)
	}
	e.memo[t] = r
	return r
}

func (e *evaluator) show(v Value) string {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(e.eval(x) != 0)
		}
		return fmt.Sprint(sext(e.eval(x), x.w))
	case Str:
		b := make([]byte, x.Len())
		for i := range b {
			b[i] = byte(e.eval(x.At(i)))
		}
		return fmt.Sprintf("%q", b)
	case *Union:
		for _, a := range x.alts {
			if e.eval(a.g) != 0 {
				return e.show(a.v)
			}
		}
		return "?"
	}
	return fmt.Sprintf("%T", v)
}

func (w *Worker) sample(st *State) {
	m, r := st.model(nil)
	if r != Sat {
		return
	}
	c := st.caseOf(m, true)
	c.Status = "ok"
	j := st.job
	j.mu.Lock()
	defer j.mu.Unlock()
	j.nsamp++
	if len(j.samples) < w.x.maxSamp {
		j.samples = append(j.samples, c)
	} else {
		j.samples[w.x.maxSamp/2+w.rnd.Intn(w.x.maxSamp-w.x.maxSamp/2)] = c
	}
}

const maxViolPerLabel = 6

func (w *Worker) violation(st *State, msg string, cond *Term) {
	j := st.job
	j.mu.Lock()
	full := len(j.viol[msg]) >= maxViolPerLabel
	j.nviol++
	j.mu.Unlock()
	if full {
		return
	}
	m, r := st.model(cond)
	if r == Unknown {
		atomic.AddInt64(&j.unknown, 1)
		w.incomplete(st, "solver unknown on assertion "+msg)
		return
	}
	if r == Unsat {
		return
	}
	c := st.caseOf(m, false)
	c.Label = msg
	j.mu.Lock()
	j.viol[msg] = append(j.viol[msg], c)
	j.mu.Unlock()
	if w.x.onViol != nil {
		w.x.onViol(j, c)
	}
}

func (w *Worker) incomplete(st *State, why string) {
	j := st.job
	fn := ""
	if len(st.frames) > 0 {
		fn = st.frames[len(st.frames)-1].fi.name
	}
	j.mu.Lock()
	j.incompl[why+" in "+fn]++
	j.mu.Unlock()
}

func (w *Worker) loop() {
	x := w.x
	for {
		if x.stopped() {
			return
		}
		var st *State
		if n := len(w.local); n > 0 {
			st = w.local[n-1]
			w.local[n-1] = nil
			w.local = w.local[:n-1]
		} else {
			x.mu.Lock()
			atomic.AddInt32(&x.idle, 1)
			for len(x.queue) == 0 && !x.stopped() {
				if int(atomic.LoadInt32(&x.idle)) == x.nworkers {
					atomic.StoreInt32(&x.stop, 2)
					x.cond.Broadcast()
					x.mu.Unlock()
					return
				}
				x.cond.Wait()
			}
			if x.stopped() {
				x.mu.Unlock()
				return
			}
			st = x.queue[0]
			x.queue = x.queue[1:]
			atomic.AddInt32(&x.idle, -1)
			x.mu.Unlock()
		}
		w.run(st)
		atomic.AddInt64(&x.nSteps, w.nsteps)
		w.nsteps = 0
	}
}

// Explore runs all jobs to completion or the deadline.
func (x *Explorer) Explore(jobs []*Job) error {
	x.jobs = jobs
	x.cond = sync.NewCond(&x.mu)
	for _, j := range jobs {
		st := x.prog.newState(x, j.fn)
		st.job = j
		x.queue = append(x.queue, st)
	}
	var ws []*Worker
	for i := 0; i < x.nworkers; i++ {
		s, err := newSolver(solverCmd)
		if err != nil {
			return err
		}
		ws = append(ws, &Worker{x: x, solver: s, rnd: rand.New(rand.NewSource(x.seed*1000 + int64(i)))})
	}
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.loop()
		}()
	}
	wg.Wait()
	for _, w := range ws {
		w.solver.close()
	}
	return nil
}

func newJob(fn *ssa.Function, name string) *Job {
	return &Job{Name: name, fn: fn, ended: map[string]int64{}, incompl: map[string]int64{}, reached: map[string]int64{}, viol: map[string][]*Case{}}
}

func (p *Program) newState(x *Explorer, fn *ssa.Function) *State {
	st := p.base.fork0()
	st.x = x
	st.frozen = p.base.heap.next
	fi := p.fnInfo(fn)
	st.frames = []*Frame{{fi: fi, regs: make([]Value, fi.nregs), owner: st.owner, dst: -1, prev: -1}}
	return st
}

func (st *State) fork0() *State {
	c := *st
	c.id = newOwner()
	c.owner = newOwner()
	st.owner = newOwner()
	c.frames = nil
	return &c
}

func debugf(format string, a ...any) {
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

var _ = strings.Join
