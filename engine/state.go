package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

const pageSize = 64

type Obj struct {
	owner uint64
	val   Value   // non-array objects
	arr   []Value // array objects
	isArr bool
	m     *MapObj
}

type mapEnt struct{ k, v Value }
type MapObj struct {
	ents []mapEnt
	idx  map[string]int // canonical key -> index (concrete keys only)
	sym  int            // number of symbolic keys
}

type Page struct {
	owner uint64
	o     [pageSize]*Obj
}

type Heap struct {
	pages []*Page
	owner uint64 // owner of the pages slice
	next  int32
}

var ownerCtr uint64 = 1

func newOwner() uint64 { return atomic.AddUint64(&ownerCtr, 1) }

type NondetRec struct {
	term *Term // term giving the value returned natively
	w    uint8
}

type Barrier struct {
	objCount  int32
	nconds    int
	nnondet   int
	nobs      int
	nglob     int
	dom       []Set
	resid     []*Term
	active    int
	aborted   bool
	collected []*State
	rets      []Value
}

const (
	fkNormal = iota
	fkCatch
	fkDefer
	fkPanicDefer
	fkForce // value-returning frame whose caller instruction is re-executed
)

type deferred struct {
	fn   *Closure
	args []Value
	inv  bool
}

type Frame struct {
	fi      *FnInfo
	blk     int
	pc      int
	prev    int
	regs    []Value
	owner   uint64
	defers  []deferred
	barrier *Barrier
	dst     int
	kind    uint8
}

type PanicInfo struct {
	val       Value
	msg       string
	recovered bool
}

type Event struct {
	kind string
	msg  string
}

type State struct {
	id       uint64
	owner    uint64
	frames   []*Frame
	heap     Heap
	dom      []Set
	resid    []*Term
	conds    []*Term
	nondet   []NondetRec
	obs      []Obs
	events   []Event
	known    []string
	steps    int
	depth    int
	mapOrder int // 2*rotation + reversal of every map iteration
	frozen   int32
	pan      *PanicInfo
	x        *Explorer
	w        *Worker
	nforks   int
	globW    []string
	job      *Job
}

type Obs struct {
	label string
	v     Value
}

func (st *State) top() *Frame {
	n := len(st.frames) - 1
	f := st.frames[n]
	if f.owner != st.owner {
		nf := *f
		nf.owner = st.owner
		nf.regs = append([]Value(nil), f.regs...)
		nf.defers = f.defers[:len(f.defers):len(f.defers)]
		st.frames[n] = &nf
		return &nf
	}
	return f
}

func (st *State) obj(id int32) *Obj {
	return st.heap.pages[id/pageSize].o[id%pageSize]
}

func (st *State) wobj(id int32) *Obj {
	st.noteWrite(id)
	return st.wobjRaw(id)
}

func (st *State) wobjRaw(id int32) *Obj {
	pg := st.wpage(id / pageSize)
	o := pg.o[id%pageSize]
	if o.owner != st.owner {
		no := *o
		no.owner = st.owner
		if o.isArr {
			no.arr = append([]Value(nil), o.arr...)
		}
		if o.m != nil {
			nm := &MapObj{ents: append([]mapEnt(nil), o.m.ents...), sym: o.m.sym, idx: map[string]int{}}
			for k, v := range o.m.idx {
				nm.idx[k] = v
			}
			no.m = nm
		}
		pg.o[id%pageSize] = &no
		return &no
	}
	return o
}

func (st *State) wpage(pi int32) *Page {
	if st.heap.owner != st.owner {
		st.heap.pages = append([]*Page(nil), st.heap.pages...)
		st.heap.owner = st.owner
	}
	for int(pi) >= len(st.heap.pages) {
		st.heap.pages = append(st.heap.pages, &Page{owner: st.owner})
	}
	pg := st.heap.pages[pi]
	if pg.owner != st.owner {
		np := *pg
		np.owner = st.owner
		st.heap.pages[pi] = &np
		pg = &np
	}
	return pg
}

func (st *State) alloc(o *Obj) int32 {
	id := st.heap.next
	st.heap.next++
	if id > 4<<20 {
		panic(unsupported("heap limit"))
	}
	o.owner = st.owner
	st.wpage(id / pageSize).o[id%pageSize] = o
	return id
}

func (st *State) allocVal(v Value) Ptr { return Ptr{obj: st.alloc(&Obj{val: v})} }
func (st *State) allocArr(a []Value) Ptr {
	return Ptr{obj: st.alloc(&Obj{arr: a, isArr: true})}
}

// noteWrite aborts merge barriers older than the object written.
func (st *State) noteWrite(id int32) {
	if id < st.frozen {
		st.frozenWrite(id)
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		b := st.frames[i].barrier
		if b == nil {
			continue
		}
		if id >= b.objCount {
			return
		}
		if !b.aborted {
			st.w.abort(b)
		}
	}
}

func (st *State) frozenWrite(id int32) {
	name := st.x.prog.globName(id)
	if strings.HasPrefix(name, modPath+"/zz") {
		return // the harness's own state
	}
	for _, g := range st.globW {
		if g == name {
			return
		}
	}
	st.globW = append(st.globW[:len(st.globW):len(st.globW)], name)
}

func (st *State) abortAll() {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if b := st.frames[i].barrier; b != nil && !b.aborted {
			st.w.abort(b)
		}
	}
}

func (st *State) load(p Ptr) Value {
	if p.obj == 0 {
		panic(goPanic("invalid memory address or nil pointer dereference"))
	}
	o := st.obj(p.obj)
	var v Value
	i := 0
	if o.isArr {
		if p.n == 0 {
			return &Agg{append([]Value(nil), o.arr...)}
		}
		v = o.arr[p.path[0]]
		i = 1
	} else {
		v = o.val
	}
	for ; i < int(p.n); i++ {
		v = fieldOf(v, int(p.path[i]))
	}
	if po, ok := v.(Poison); ok {
		panic(unsupported("poison value: " + po.why))
	}
	return v
}

func fieldOf(v Value, i int) Value {
	switch a := v.(type) {
	case *Agg:
		return a.e[i]
	case *Union:
		alts := make([]Alt, len(a.alts))
		for k, x := range a.alts {
			alts[k] = Alt{x.g, fieldOf(x.v, i)}
		}
		m, ok := mergeAlts(alts)
		if !ok {
			panic(unsupported("field of union"))
		}
		return m
	case Poison:
		panic(unsupported("poison value: " + a.why))
	}
	panic(unsupported(fmt.Sprintf("field of %T", v)))
}

func setPath(v Value, path []int32, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch a := v.(type) {
	case *Agg:
		na := &Agg{append([]Value(nil), a.e...)}
		na.e[path[0]] = setPath(a.e[path[0]], path[1:], nv)
		return na
	case *Union:
		alts := make([]Alt, len(a.alts))
		for k, x := range a.alts {
			alts[k] = Alt{x.g, setPath(x.v, path, nv)}
		}
		m, ok := mergeAlts(alts)
		if !ok {
			panic(unsupported("store into union"))
		}
		return m
	}
	panic(unsupported(fmt.Sprintf("store into %T", v)))
}

func (st *State) store(p Ptr, v Value) {
	if p.obj == 0 {
		panic(goPanic("invalid memory address or nil pointer dereference"))
	}
	o := st.wobj(p.obj)
	if o.isArr {
		if p.n == 0 {
			if a, ok := v.(*Agg); ok {
				copy(o.arr, a.e)
				return
			}
			for i := range o.arr {
				o.arr[i] = fieldOf(v, i)
			}
			return
		}
		o.arr[p.path[0]] = setPath(o.arr[p.path[0]], p.path[1:p.n], v)
		return
	}
	if p.n == 0 {
		o.val = v
		return
	}
	if p.n == 1 {
		if a, ok := o.val.(*Agg); ok {
			na := &Agg{append([]Value(nil), a.e...)}
			na.e[p.path[0]] = v
			o.val = na
			return
		}
	}
	o.val = setPath(o.val, p.path[:p.n], v)
}

type goPanicT struct{ msg string }

func goPanic(msg string) goPanicT { return goPanicT{msg} }

// fork returns a copy of st; both get new owners (copy on write).
func (st *State) fork() *State {
	c := *st
	c.id = newOwner()
	st.owner = newOwner()
	c.owner = newOwner()
	c.frames = append(make([]*Frame, 0, len(st.frames)+4), st.frames...)
	c.conds = st.conds[:len(st.conds):len(st.conds)]
	c.resid = st.resid[:len(st.resid):len(st.resid)]
	c.nondet = st.nondet[:len(st.nondet):len(st.nondet)]
	c.obs = st.obs[:len(st.obs):len(st.obs)]
	st.conds = st.conds[:len(st.conds):len(st.conds)]
	st.resid = st.resid[:len(st.resid):len(st.resid)]
	st.nondet = st.nondet[:len(st.nondet):len(st.nondet)]
	st.obs = st.obs[:len(st.obs):len(st.obs)]
	c.nforks++
	st.nforks++
	for _, f := range st.frames {
		if f.barrier != nil && !f.barrier.aborted {
			f.barrier.active++
		}
	}
	atomic.AddInt64(&st.x.nforks, 1)
	return &c
}

func (st *State) getDom(v int32) (Set, bool) {
	if int(v) < len(st.dom) {
		d := st.dom[v]
		if !d.empty() {
			return d, true
		}
	}
	w := varInfo(v).w
	if w <= 8 && w > 0 {
		return fullSets[w], true
	}
	return Set{}, false
}

// addCond conjoins c (known feasible) to the path condition.
func (st *State) addCond(c *Term) {
	if c.isTrue() {
		return
	}
	st.conds = append(st.conds, c)
	st.addC(c)
}

func (st *State) addC(c *Term) {
	switch c.op {
	case OAnd:
		st.addC(c.a)
		st.addC(c.b)
		return
	case OInSet:
		if c.a.op == OVar {
			v := int32(c.a.k)
			d, _ := st.getDom(v)
			n := len(st.dom)
			if int(v) >= n {
				n = int(v) + 1
			}
			nd := make([]Set, n)
			copy(nd, st.dom)
			nd[v] = d.and(c.set)
			st.dom = nd
			return
		}
	}
	st.resid = append(st.resid, c)
}

// pathTerms returns the path condition as solver terms (domains and residuals).
func (st *State) pathTerms() []*Term {
	var out []*Term
	for v, d := range st.dom {
		if !d.empty() {
			out = append(out, mkInSet(varInfo(int32(v)).t, d))
		}
	}
	return append(out, st.resid...)
}

// slice returns the constraints connected with the variables vs.
func (st *State) sliceFor(vs []int32) (res []*Term, vars map[int32]bool) {
	vars = map[int32]bool{}
	for _, v := range vs {
		vars[v] = true
	}
	used := make([]bool, len(st.resid))
	for changed := true; changed; {
		changed = false
		for i, c := range st.resid {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				res = append(res, c)
				for _, v := range c.vars {
					vars[v] = true
				}
			}
		}
	}
	for v := range vars {
		if int(v) < len(st.dom) && !st.dom[v].empty() {
			res = append(res, mkInSet(varInfo(v).t, st.dom[v]))
		}
	}
	return res, vars
}

type prunedKey struct {
	w        uint8
	dom, set Set
}

var prunedMu sync.Mutex
var pruned = map[prunedKey]bool{}

// feasible decides whether the path condition and c are jointly satisfiable.
func (st *State) feasible(c *Term) bool {
	if c.isConst() {
		return c.isTrue()
	}
	if c.op == OAnd {
		// quick refutation by single-variable conjuncts
		if r, ok := st.quickConj(c); ok && !r {
			return false
		}
	}
	if c.op == OInSet && c.a.op == OVar {
		v := int32(c.a.k)
		d, _ := st.getDom(v)
		if d.and(c.set).empty() {
			prunedMu.Lock()
			pruned[prunedKey{c.a.w, d, c.set}] = true
			prunedMu.Unlock()
			return false
		}
		if d.and(c.set) == d {
			return true
		}
		res := false
		for _, r := range st.resid {
			for _, rv := range r.vars {
				if rv == v {
					res = true
				}
			}
		}
		if !res {
			return true
		}
	}
	cs, _ := st.sliceFor(c.vars)
	cs = append(cs, c)
	r := st.w.solver.cached(cs)
	return r != Unsat
}

func (st *State) quickConj(c *Term) (bool, bool) {
	switch c.op {
	case OAnd:
		if r, ok := st.quickConj(c.a); ok && !r {
			return false, true
		}
		return st.quickConj(c.b)
	case OInSet:
		if c.a.op == OVar {
			d, _ := st.getDom(int32(c.a.k))
			if d.and(c.set).empty() {
				prunedMu.Lock()
				pruned[prunedKey{c.a.w, d, c.set}] = true
				prunedMu.Unlock()
				return false, true
			}
		}
	}
	return true, false
}

// ---- program-level info

type FnInfo struct {
	fn        *ssa.Function
	name      string
	nregs     int
	blocks    [][]cinstr
	params    []int
	free      []int
	intr      intrinsic
	model     *FnInfo
	err       string
	mergeable bool
	fast      func([]Value) (Value, bool)
}

type opnd struct {
	k   uint8 // 0 reg, 1 const
	idx int32
	v   Value
}

type cinstr struct {
	op   uint8
	dst  int
	a    []opnd
	ins  ssa.Instruction
	x    int
	t    types.Type
	t2   types.Type
	w    uint8
	sg   bool
	bop  int
	skip bool
	uns  uint8 // bit i: the i-th index is unsigned
	succ [2]int
}

type intrinsic func(st *State, ci *cinstr, args []Value) (Value, bool) // false: control already transferred
