package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (f *Frame) get(o opnd) Value {
	if o.k == 0 {
		return f.regs[o.idx]
	}
	return o.v
}

// decide turns a symbolic condition into a concrete one, forking the state
// when both outcomes are feasible.  The forked state re-executes the current
// instruction, so nothing with an effect may precede a decide.
func (st *State) decide(c *Term) bool {
	if c.isConst() {
		return c.isTrue()
	}
	nc := mkNot(c)
	tf := st.feasible(c)
	if !tf {
		return false
	}
	if !st.feasible(nc) {
		return true
	}
	if st.x.noFork {
		panic(unsupported("symbolic branch during initialisation"))
	}
	child := st.fork()
	child.addCond(nc)
	st.w.push(child)
	st.addCond(c)
	return true
}

func (st *State) resolve(v Value) Value {
	for {
		u, ok := v.(*Union)
		if !ok {
			if po, ok := v.(Poison); ok {
				panic(unsupported("poison value: " + po.why))
			}
			return v
		}
		n := len(u.alts)
		picked := false
		for i := 0; i < n-1; i++ {
			if st.decide(u.alts[i].g) {
				v = u.alts[i].v
				picked = true
				break
			}
		}
		if !picked {
			v = u.alts[n-1].v
		}
	}
}

func iteLeaves(t *Term, out map[uint64]bool) bool {
	if t.isConst() {
		out[t.k] = true
		return true
	}
	if t.op == OIte {
		return iteLeaves(t.b, out) && iteLeaves(t.c, out)
	}
	if (t.op == OZext || t.op == OSext) && t.a.op == OIte {
		m := map[uint64]bool{}
		if !iteLeaves(t.a, m) {
			return false
		}
		for k := range m {
			if t.op == OSext {
				k = uint64(sext(k, t.a.w)) & mask(t.w)
			}
			out[k] = true
		}
		return true
	}
	return false
}

func sortedKeys(m map[uint64]bool) []uint64 {
	var ks []uint64
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// concretize returns a concrete value of t, forking over all feasible ones.
func (st *State) concretize(v Value) uint64 {
	t, ok := v.(*Term)
	if !ok {
		v = st.resolve(v)
		t = v.(*Term)
	}
	if t.isConst() {
		return t.k
	}
	m := map[uint64]bool{}
	if !iteLeaves(t, m) {
		if len(t.vars) == 1 && varInfo(t.vars[0]).w <= 8 {
			m = map[uint64]bool{}
			d, _ := st.getDom(t.vars[0])
			for x := uint64(0); x < 256; x++ {
				if d.has(x) {
					m[evalTerm(t, func(int32) uint64 { return x })] = true
				}
			}
		} else {
			m = map[uint64]bool{}
			cs, _ := st.sliceFor(t.vars)
			for len(m) <= 40 {
				r, mod := st.w.solver.check(cs, t.vars)
				if r == Unsat {
					break
				}
				if r == Unknown {
					panic(unsupported("solver unknown while enumerating an index"))
				}
				k := evalTerm(t, func(id int32) uint64 { return mod[id] })
				m[k] = true
				cs = append(cs, mkNot(mkEq(t, mkConst(t.w, k))))
			}
			if len(m) > 40 {
				panic(unsupported("too many values for a symbolic index"))
			}
		}
	}
	ks := sortedKeys(m)
	for i := 0; i < len(ks)-1; i++ {
		if st.decide(mkEq(t, mkConst(t.w, ks[i]))) {
			return ks[i]
		}
	}
	return ks[len(ks)-1]
}

func (st *State) cint(v Value) int {
	if t, ok := v.(*Term); ok && t.isConst() {
		return int(sext(t.k, t.w))
	}
	t, ok := v.(*Term)
	if !ok {
		v = st.resolve(v)
		t = v.(*Term)
	}
	k := st.concretize(t)
	return int(sext(k, t.w))
}

// wide is an index as a term of int's width.
func (st *State) wide(v Value, uns bool) *Term {
	return mkResize(st.term(v), 64, !uns)
}

// raise starts a Go panic.
func (st *State) raise(val Value, msg string) {
	st.pan = &PanicInfo{val: val, msg: msg}
	st.unwind()
}

func (st *State) unwind() {
	for len(st.frames) > 0 {
		f := st.top()
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			st.invoke(d.fn, d.args, -1, fkPanicDefer)
			return
		}
		st.popFrame()
		if f.kind == fkCatch {
			st.pan = nil
			if len(st.frames) > 0 {
				g := st.top()
				if f.dst >= 0 {
					g.regs[f.dst] = tTrue
				}
				g.pc++
			}
			return
		}
	}
	// uncaught
	st.w.violation(st, "panic: "+st.pan.msg, nil)
	st.w.end(st, "panic")
}

func (st *State) popFrame() {
	f := st.frames[len(st.frames)-1]
	if f.barrier != nil && !f.barrier.aborted {
		st.w.abort(f.barrier)
	}
	st.frames = st.frames[:len(st.frames)-1]
}

// invoke pushes a frame for closure fn (or runs an intrinsic).  dst -1 drops the result.
func (st *State) invoke(fn *Closure, args []Value, dst int, kind uint8) {
	if fn == nil {
		panic(goPanic("invalid memory address or nil pointer dereference"))
	}
	if fn.bi != nil {
		// builtin in a deferred position
		v := st.builtin(fn.bi, args, nil)
		_ = v
		if kind == fkPanicDefer {
			st.unwind()
		}
		return
	}
	fi := st.x.prog.fnInfo(fn.fn)
	if fi.model != nil {
		fi = fi.model
	}
	if fi.intr != nil {
		v, ok := fi.intr(st, nil, args)
		if ok && dst >= 0 {
			st.top().regs[dst] = v
		}
		if kind == fkPanicDefer {
			st.unwind()
		}
		return
	}
	if fi.err != "" {
		panic(unsupported(fi.err))
	}
	if len(st.frames) > st.x.maxDepth {
		panic(depthBound{})
	}
	if _, ok := st.x.prog.usedFns.Load(fi.name); !ok {
		st.x.prog.usedFns.Store(fi.name, true)
	}
	f := &Frame{fi: fi, regs: make([]Value, fi.nregs), owner: st.owner, dst: dst, kind: kind, prev: -1}
	for i, r := range fi.params {
		f.regs[r] = args[i]
	}
	for i, r := range fi.free {
		f.regs[r] = fn.free[i]
	}
	if st.x.merge && kind == fkNormal && fi.mergeable {
		f.barrier = &Barrier{objCount: st.heap.next, nconds: len(st.conds), nnondet: len(st.nondet), nobs: len(st.obs), nglob: len(st.globW),
			dom: st.dom, resid: st.resid[:len(st.resid):len(st.resid)], active: 1}
	}
	st.frames = append(st.frames, f)
}

// doReturn pops the top frame with result v.
func (st *State) doReturn(v Value) {
	f := st.top()
	if b := f.barrier; b != nil && !b.aborted && (b.active > 1 || len(b.collected) > 0) {
		if len(st.nondet) != b.nnondet || len(st.obs) != b.nobs || len(st.globW) != b.nglob {
			st.w.abort(b)
		} else {
			b.collected = append(b.collected, st)
			b.rets = append(b.rets, v)
			b.active--
			if b.active > 0 {
				st.w.cur = nil // parked
				return
			}
			st.w.finalize(b)
			return
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if b := f.barrier; b != nil && !b.aborted {
		b.aborted = true
	}
	st.afterReturn(f, v)
}

func (st *State) afterReturn(f *Frame, v Value) {
	if len(st.frames) == 0 {
		st.w.end(st, "done")
		return
	}
	g := st.top()
	switch f.kind {
	case fkNormal:
		if f.dst >= 0 {
			g.regs[f.dst] = v
		}
		g.pc++
	case fkCatch:
		if f.dst >= 0 {
			g.regs[f.dst] = tFalse
		}
		g.pc++
	case fkDefer:
		// caller re-executes RunDefers
	case fkPanicDefer:
		if st.pan != nil && st.pan.recovered {
			st.pan = nil
			if g.fi.fn.Recover != nil {
				g.prev = -1
				g.blk = g.fi.fn.Recover.Index
				g.pc = 0
			} else {
				st.doReturn(zeroResult(g.fi.fn))
			}
		} else {
			st.unwind()
		}
	}
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zeroValue(r.At(0).Type())
	}
	return zeroValue(r)
}

// run executes st until it ends, parks or the worker switches to another state.
func (w *Worker) run(st *State) {
	w.cur = st
	st.w = w
	for w.cur != nil {
		if w.cur != st {
			st = w.cur
			st.w = w
		}
		w.slice(st)
		if w.x.stopped() {
			return
		}
	}
}

func (w *Worker) slice(st *State) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case goPanicT:
				func() {
					defer func() {
						if r := recover(); r != nil {
							if u, ok := r.(unsupported); ok {
								w.incomplete(st, string(u))
								w.end(st, "unsupported")
								return
							}
							panic(r)
						}
					}()
					st.raise(Iface{}, "runtime error: "+e.msg)
				}()
			case unsupported:
				w.incomplete(st, string(e))
				w.end(st, "unsupported")
			case depthBound:
				w.violation(st, "call depth bound exceeded (possible unbounded recursion)", nil)
				w.end(st, "depth")
			case pathEnd:
				w.end(st, string(e))
			default:
				f := st.top()
				if os.Getenv("GOSYM_CRASH") != "" {
					fmt.Println("ENGINE CRASH in", f.fi.name, "block", f.blk, "pc", f.pc, f.fi.blocks[f.blk][f.pc].ins)
					panic(r)
				}
				w.incomplete(st, fmt.Sprintf("engine failure (%v)", r))
				w.end(st, "unsupported")
			}
		}
	}()
	for n := 0; n < 20000 && w.cur == st; n++ {
		st.steps++
		if st.steps > w.x.maxSteps {
			w.nonterm(st)
			w.end(st, "steps")
			return
		}
		st.step()
		w.nsteps++
	}
	if w.x.expired() {
		w.x.timeout()
	}
}

func (st *State) step() {
	f := st.top()
	ci := &f.fi.blocks[f.blk][f.pc]
	switch ci.op {
	case iAlloc:
		if at, ok := ci.t.Underlying().(*types.Array); ok {
			n := int(at.Len())
			arr := make([]Value, n)
			z := zeroValue(at.Elem())
			for i := range arr {
				arr[i] = z
			}
			f.regs[ci.dst] = st.allocArr(arr)
		} else {
			f.regs[ci.dst] = st.allocVal(zeroValue(ci.t))
		}
	case iBinOp:
		f.regs2(st, ci.dst, st.binop(ci, f.get(ci.a[0]), f.get(ci.a[1])))
	case iUnOp:
		x := f.get(ci.a[0])
		switch token.Token(ci.bop) {
		case token.MUL:
			f.regs2(st, ci.dst, st.loadV(x))
		case token.NOT:
			f.regs[ci.dst] = mkNot(st.term(x))
		case token.SUB:
			if fl, ok := x.(Float); ok {
				f.regs[ci.dst] = -fl
			} else {
				f.regs[ci.dst] = mkUn(ONeg, st.term(x))
			}
		case token.XOR:
			f.regs[ci.dst] = mkUn(OBnot, st.term(x))
		default:
			panic(unsupported("unop"))
		}
	case iCall:
		if ci.skip {
			f.regs[ci.dst] = Str{}
			break
		}
		st.call(f, ci)
		return
	case iChangeInterface, iChangeType:
		f.regs[ci.dst] = f.get(ci.a[0])
	case iConvert:
		f.regs2(st, ci.dst, st.convert(f.get(ci.a[0]), ci.t2, ci.t))
	case iDefer:
		fn, args := st.callee(f, ci)
		f = st.top()
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], deferred{fn: fn, args: args})
	case iExtract:
		switch tv := f.get(ci.a[0]).(type) {
		case Tuple:
			f.regs[ci.dst] = tv[ci.x]
		default:
			panic(unsupported(fmt.Sprintf("extract from %T", tv)))
		}
	case iField:
		f.regs[ci.dst] = fieldOf(f.get(ci.a[0]), ci.x)
	case iFieldAddr:
		p := f.get(ci.a[0])
		f.regs[ci.dst] = st.mapPtr(p, func(q Ptr) Ptr {
			if q.obj == 0 {
				return q
			}
			return q.sub(ci.x)
		})
		if q, ok := p.(Ptr); ok && q.obj == 0 {
			panic(goPanic("invalid memory address or nil pointer dereference"))
		}
	case iIf:
		c := st.decide(st.term(f.get(ci.a[0])))
		f = st.top()
		f.prev = f.blk
		if c {
			f.blk = ci.succ[0]
		} else {
			f.blk = ci.succ[1]
		}
		f.pc = 0
		st.phis(f)
		return
	case iJump:
		f.prev = f.blk
		f.blk = ci.succ[0]
		f.pc = 0
		st.phis(f)
		return
	case iIndex:
		x := st.resolve(f.get(ci.a[0]))
		f.regs2(st, ci.dst, st.index(x, f.get(ci.a[1]), ci.uns&1 != 0))
	case iIndexAddr:
		x := st.resolve(f.get(ci.a[0]))
		idx := f.get(ci.a[1])
		f.regs2(st, ci.dst, st.indexAddr(x, idx, ci))
	case iLookup:
		x := st.resolve(f.get(ci.a[0]))
		if s, ok := x.(Str); ok {
			f.regs2(st, ci.dst, st.index(s, f.get(ci.a[1]), ci.uns&1 != 0))
			break
		}
		mt := ci.t2.Underlying().(*types.Map)
		v, ok := st.mapLookup(x.(MapRef), f.get(ci.a[1]), mt)
		if ci.x == 1 {
			f.regs2(st, ci.dst, Tuple{v, ok})
		} else {
			f.regs2(st, ci.dst, v)
		}
	case iMakeClosure:
		fr := make([]Value, len(ci.a))
		for i, o := range ci.a {
			fr[i] = f.get(o)
		}
		f.regs[ci.dst] = &Closure{fn: ci.ins.(*ssa.MakeClosure).Fn.(*ssa.Function), free: fr}
	case iMakeInterface:
		f.regs[ci.dst] = Iface{ci.t2, f.get(ci.a[0])}
	case iMakeMap:
		f.regs[ci.dst] = MapRef{st.alloc(&Obj{m: &MapObj{idx: map[string]int{}}})}
	case iMakeChan: // its identity only; sends and receives are not executed
		f.regs[ci.dst] = st.allocVal(&Agg{})
	case iMakeSlice:
		n, c := st.cint(f.get(ci.a[0])), st.cint(f.get(ci.a[1]))
		if n < 0 || c < n {
			panic(goPanic("makeslice: len out of range"))
		}
		if c > 1<<23 {
			panic(unsupported("huge slice"))
		}
		arr := make([]Value, c)
		z := zeroValue(ci.t2)
		for i := range arr {
			arr[i] = z
		}
		p := st.allocArr(arr)
		st.top().regs[ci.dst] = Slice{obj: p.obj, pre: p, len: n, cap: c}
	case iMapUpdate:
		st.mapUpdate(st.resolve(f.get(ci.a[0])).(MapRef), f.get(ci.a[1]), f.get(ci.a[2]))
	case iNext:
		st.next(f, ci)
	case iPanic:
		v := st.resolve(f.get(ci.a[0]))
		st.raise(v, st.describe(v))
		return
	case iPhi:
		panic("phi reached")
	case iRange:
		x := st.resolve(f.get(ci.a[0]))
		switch m := x.(type) {
		case Str:
			f.regs2(st, ci.dst, &RangeIter{s: m, isS: true})
		case MapRef:
			it := &RangeIter{m: m}
			if m.obj != 0 {
				mo := st.obj(m.obj).m
				for _, e := range mo.ents {
					it.keys = append(it.keys, e.k)
				}
				if n := len(it.keys); n > 1 && st.mapOrder != 0 {
					if r := st.mapOrder / 2 % n; r != 0 {
						it.keys = append(append([]Value(nil), it.keys[r:]...), it.keys[:r]...)
					}
					if st.mapOrder%2 == 1 {
						for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
							it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
						}
					}
				}
			}
			f.regs2(st, ci.dst, it)
		default:
			panic(unsupported("range"))
		}
	case iReturn:
		var v Value
		switch len(ci.a) {
		case 0:
		case 1:
			v = f.get(ci.a[0])
		default:
			t := make(Tuple, len(ci.a))
			for i, o := range ci.a {
				t[i] = f.get(o)
			}
			v = t
		}
		st.doReturn(v)
		return
	case iRunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			st.invoke(d.fn, d.args, -1, fkDefer)
			return
		}
	case iSlice:
		st.sliceOp(f, ci)
	case iStore:
		st.storeV(f.get(ci.a[0]), f.get(ci.a[1]))
	case iTypeAssert:
		st.typeAssert(f, ci)
	case iS2AP:
		s := st.resolve(f.get(ci.a[0])).(Slice)
		if s.len < ci.x {
			panic(goPanic("cannot convert slice to array pointer"))
		}
		if s.off == 0 && s.pre.n == 0 {
			if ci.x == len(st.obj(s.obj).arr) {
				f.regs2(st, ci.dst, s.pre)
				break
			}
		}
		panic(unsupported("slice to array pointer"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", ci.ins, f.fi.name)))
	}
	st.top().pc++
}

func (f *Frame) regs2(st *State, dst int, v Value) { st.top().regs[dst] = v }

func (st *State) phis(f *Frame) {
	blk := f.fi.blocks[f.blk]
	if len(blk) == 0 || blk[0].op != iPhi {
		return
	}
	b := f.fi.fn.Blocks[f.blk]
	pi := -1
	for i, p := range b.Preds {
		if p.Index == f.prev {
			pi = i
			break
		}
	}
	var tmp [16]Value
	n := 0
	for n < len(blk) && blk[n].op == iPhi {
		n++
	}
	vals := tmp[:0]
	for i := 0; i < n; i++ {
		vals = append(vals, f.get(blk[i].a[pi]))
	}
	for i := 0; i < n; i++ {
		f.regs[blk[i].dst] = vals[i]
	}
	f.pc = n
}

func (st *State) term(v Value) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	switch x := v.(type) {
	case *Union:
		m, ok := mergeAlts(x.alts)
		if ok {
			if t, ok := m.(*Term); ok {
				return t
			}
		}
	case Poison:
		panic(unsupported("poison value: " + x.why))
	}
	panic(unsupported(fmt.Sprintf("expected a scalar, got %T", v)))
}

func (st *State) mapPtr(v Value, fn func(Ptr) Ptr) Value {
	switch p := v.(type) {
	case Ptr:
		return fn(p)
	case *Union:
		alts := make([]Alt, len(p.alts))
		for i, a := range p.alts {
			alts[i] = Alt{a.g, fn(a.v.(Ptr))}
		}
		return &Union{alts}
	case Poison:
		panic(unsupported("poison value: " + p.why))
	}
	panic(unsupported(fmt.Sprintf("pointer expected, got %T", v)))
}

func (st *State) loadV(v Value) Value {
	switch p := v.(type) {
	case Ptr:
		return st.load(p)
	case *Union:
		var alts []Alt
		for _, a := range p.alts {
			q := a.v.(Ptr)
			if q.obj == 0 {
				if st.decide(a.g) {
					panic(goPanic("invalid memory address or nil pointer dereference"))
				}
				continue
			}
		}
		for _, a := range p.alts {
			q := a.v.(Ptr)
			if q.obj == 0 {
				continue
			}
			if !st.feasible(a.g) {
				continue
			}
			alts = append(alts, Alt{a.g, st.load(q)})
		}
		if len(alts) == 0 {
			panic(unsupported("load through infeasible union"))
		}
		m, ok := mergeAlts(alts)
		if ok {
			return m
		}
		return st.load(st.resolve(v).(Ptr))
	case Poison:
		panic(unsupported("poison value: " + p.why))
	}
	panic(unsupported(fmt.Sprintf("load through %T", v)))
}

func (st *State) storeV(addr, v Value) {
	switch p := addr.(type) {
	case Ptr:
		st.store(p, v)
		return
	case *Union:
		for _, a := range p.alts {
			if a.v.(Ptr).obj == 0 && st.decide(a.g) {
				panic(goPanic("invalid memory address or nil pointer dereference"))
			}
		}
		type upd struct {
			p Ptr
			v Value
		}
		var ups []upd
		for _, a := range p.alts {
			q := a.v.(Ptr)
			if q.obj == 0 || !st.feasible(a.g) {
				continue
			}
			old := st.load(q)
			m, ok := mergeAlts([]Alt{{a.g, v}, {mkNot(a.g), old}})
			if !ok {
				st.store(st.resolve(addr).(Ptr), v)
				return
			}
			ups = append(ups, upd{q, m})
		}
		for _, u := range ups {
			st.store(u.p, u.v)
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", addr)))
}

func (st *State) call(f *Frame, ci *cinstr) {
	fn, args := st.callee(f, ci)
	f = st.top()
	if fn == nil {
		panic(goPanic("invalid memory address or nil pointer dereference"))
	}
	if fn.bi != nil {
		v := st.builtin(fn.bi, args, ci)
		if st.pan != nil && fn.bi.Name() == "panic" {
			return
		}
		f = st.top()
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
		f.pc++
		return
	}
	fi := st.x.prog.fnInfo(fn.fn)
	if fi.intr != nil {
		v, ok := fi.intr(st, ci, args)
		if ok {
			f = st.top()
			if ci.dst >= 0 {
				f.regs[ci.dst] = v
			}
			f.pc++
		}
		return
	}
	if fi.fast != nil {
		if v, ok := fi.fast(args); ok {
			f = st.top()
			if ci.dst >= 0 {
				f.regs[ci.dst] = v
			}
			f.pc++
			return
		}
	}
	st.invoke(fn, args, ci.dst, fkNormal)
}

func (st *State) callee(f *Frame, ci *cinstr) (*Closure, []Value) {
	if ci.x == 1 { // invoke
		recv := st.resolve(f.get(ci.a[0]))
		ifc, ok := recv.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
		}
		if ifc.t == nil {
			panic(goPanic("invalid memory address or nil pointer dereference"))
		}
		var cc *ssa.CallCommon
		switch x := ci.ins.(type) {
		case *ssa.Call:
			cc = &x.Call
		case *ssa.Defer:
			cc = &x.Call
		}
		fn := st.x.prog.lookupMethod(ifc.t, cc.Method)
		if fn == nil {
			panic(unsupported("method " + cc.Method.Name() + " of " + ifc.t.String()))
		}
		args := make([]Value, len(ci.a))
		args[0] = ifc.v
		for i := 1; i < len(ci.a); i++ {
			args[i] = st.top().get(ci.a[i])
		}
		return &Closure{fn: fn}, args
	}
	fv := st.resolve(f.get(ci.a[0]))
	fn, ok := fv.(*Closure)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", fv)))
	}
	f = st.top()
	args := make([]Value, len(ci.a)-1)
	for i := range args {
		args[i] = f.get(ci.a[i+1])
	}
	return fn, args
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return p.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (st *State) index(x Value, iv Value, uns bool) Value {
	var n int
	switch a := x.(type) {
	case Str:
		n = a.Len()
	case *Agg:
		n = len(a.e)
	default:
		panic(unsupported(fmt.Sprintf("index of %T", x)))
	}
	if u, ok := x.(*Agg); ok {
		if t := st.wide(iv, uns); !t.isConst() {
			if !st.decide(mkCmp(OUlt, t, mkConst(64, uint64(n)))) {
				panic(goPanic("index out of range"))
			}
			var alts []Alt
			for i := 0; i < n; i++ {
				g := mkEq(t, mkConst(t.w, uint64(i)))
				if !g.isFalse() {
					alts = append(alts, Alt{g, u.e[i]})
				}
			}
			if m, ok := mergeAlts(alts); ok {
				return m
			}
		}
	}
	i := st.cint(st.wide(iv, uns))
	if i < 0 || i >= n {
		panic(goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
	}
	if s, ok := x.(Str); ok {
		return s.At(i)
	}
	return x.(*Agg).e[i]
}

func (st *State) indexAddr(x Value, iv Value, ci *cinstr) Value {
	var n, off int
	var pre Ptr
	switch a := x.(type) {
	case Slice:
		n, off, pre = a.len, a.off, a.pre
	case Ptr:
		if a.obj == 0 {
			panic(goPanic("invalid memory address or nil pointer dereference"))
		}
		at := ci.ins.(*ssa.IndexAddr).X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n, pre = int(at.Len()), a
	default:
		panic(unsupported(fmt.Sprintf("indexaddr of %T", x)))
	}
	t := st.wide(iv, ci.uns&1 != 0)
	if !t.isConst() && n <= 256 && len(t.vars) == 1 && varInfo(t.vars[0]).w <= 8 {
		c := mkCmp(OUlt, t, mkConst(64, uint64(n)))
		if !st.decide(c) {
			panic(goPanic("index out of range"))
		}
		var alts []Alt
		for i := 0; i < n; i++ {
			g := mkEq(t, mkConst(t.w, uint64(i)))
			if !g.isFalse() && st.feasible(g) {
				alts = append(alts, Alt{g, pre.sub(off + i)})
			}
		}
		if len(alts) == 1 {
			return alts[0].v
		}
		return &Union{alts}
	}
	i := st.cint(t)
	if i < 0 || i >= n {
		panic(goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
	}
	return pre.sub(off + i)
}

func (st *State) sliceElems(s Slice) []Value {
	if s.len == 0 {
		return nil
	}
	o := st.obj(s.obj)
	if o.isArr && s.pre.n == 0 {
		return o.arr[s.off : s.off+s.len]
	}
	out := make([]Value, s.len)
	for i := range out {
		out[i] = st.load(s.pre.sub(s.off + i))
	}
	return out
}

func (st *State) bytesOf(s Slice) []*Term {
	es := st.sliceElems(s)
	out := make([]*Term, len(es))
	for i, e := range es {
		out[i] = st.term(e)
	}
	return out
}

func (st *State) newByteSlice(b []*Term) Slice {
	arr := make([]Value, len(b))
	for i, x := range b {
		arr[i] = x
	}
	p := st.allocArr(arr)
	return Slice{obj: p.obj, pre: p, len: len(arr), cap: len(arr)}
}

func (st *State) sliceOp(f *Frame, ci *cinstr) {
	x := st.resolve(f.get(ci.a[0]))
	opt := func(i int, def int) int {
		o := ci.a[i]
		if o.k == 2 {
			return def
		}
		return st.cint(st.wide(st.top().get(o), ci.uns&(1<<(i-1)) != 0))
	}
	switch a := x.(type) {
	case Str:
		lo := opt(1, 0)
		hi := opt(2, a.Len())
		if lo < 0 || hi < lo || hi > a.Len() {
			panic(goPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, a.Len())))
		}
		st.top().regs[ci.dst] = a.Sub(lo, hi)
	case Slice:
		lo := opt(1, 0)
		hi := opt(2, a.len)
		mx := opt(3, a.cap)
		if lo < 0 || hi < lo || mx < hi || mx > a.cap {
			panic(goPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, a.cap)))
		}
		r := a
		r.off += lo
		r.len = hi - lo
		r.cap = mx - lo
		st.top().regs[ci.dst] = r
	case Ptr:
		if a.obj == 0 {
			panic(goPanic("invalid memory address or nil pointer dereference"))
		}
		at := ci.t2.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		lo := opt(1, 0)
		hi := opt(2, n)
		mx := opt(3, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			panic(goPanic("slice bounds out of range"))
		}
		st.top().regs[ci.dst] = Slice{obj: a.obj, pre: a, off: lo, len: hi - lo, cap: mx - lo}
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
}

func (st *State) typeAssert(f *Frame, ci *cinstr) {
	v := st.resolve(f.get(ci.a[0]))
	ifc, ok := v.(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("type assertion on %T", v)))
	}
	match := false
	_, toIface := ci.t2.Underlying().(*types.Interface)
	if ifc.t != nil {
		if toIface {
			match = types.Implements(ifc.t, ci.t2.Underlying().(*types.Interface))
		} else {
			match = types.Identical(ifc.t, ci.t2)
		}
	}
	var r Value
	if match {
		if toIface {
			r = ifc
		} else {
			r = ifc.v
		}
	} else {
		if ci.x == 0 {
			panic(goPanic("interface conversion"))
		}
		r = zeroValue(ci.t2)
	}
	if ci.x == 1 {
		r = Tuple{r, mkBool(match)}
	}
	st.top().regs[ci.dst] = r
}

func (st *State) mapLookup(m MapRef, key Value, mt *types.Map) (Value, *Term) {
	zero := zeroValue(mt.Elem())
	if m.obj == 0 {
		return zero, tFalse
	}
	mo := st.obj(m.obj).m
	if ku, isU := key.(*Union); isU {
		// map over alternatives when all are concrete
		var va, oa []Alt
		for _, a := range ku.alts {
			v, ok := st.mapLookup(m, a.v, mt)
			va = append(va, Alt{a.g, v})
			oa = append(oa, Alt{a.g, ok})
		}
		v, ok1 := mergeAlts(va)
		o, ok2 := mergeAlts(oa)
		if ok1 && ok2 {
			return v, o.(*Term)
		}
		key = st.resolve(key)
	}
	if k, ok := mapKey(key); ok && mo.sym == 0 {
		if i, ok := mo.idx[k]; ok {
			return mo.ents[i].v, tTrue
		}
		return zero, tFalse
	}
	var alts []Alt
	none := tTrue
	for _, e := range mo.ents {
		g := mkAnd(none, eqVal(e.k, key))
		if g.isFalse() {
			continue
		}
		alts = append(alts, Alt{g, e.v})
		none = mkAnd(none, mkNot(eqVal(e.k, key)))
	}
	if len(alts) == 0 {
		return zero, tFalse
	}
	if len(alts) == 1 && alts[0].g.isTrue() {
		return alts[0].v, tTrue
	}
	if !none.isFalse() {
		alts = append(alts, Alt{none, zero})
	}
	found := mkNot(none)
	if v, ok := mergeAlts(alts); ok {
		return v, found
	}
	for i := range alts {
		if i == len(alts)-1 || st.decide(alts[i].g) {
			return alts[i].v, mkBool(i != len(alts)-1 || none.isFalse())
		}
	}
	return zero, tFalse
}

func (st *State) mapUpdate(m MapRef, key, val Value) {
	if m.obj == 0 {
		panic(goPanic("assignment to entry in nil map"))
	}
	if _, isU := key.(*Union); isU {
		key = st.resolve(key)
	}
	mo := st.obj(m.obj).m
	if k, ok := mapKey(key); ok && mo.sym == 0 {
		w := st.wobj(m.obj).m
		if i, ok := w.idx[k]; ok {
			w.ents[i].v = val
			return
		}
		w.idx[k] = len(w.ents)
		w.ents = append(w.ents, mapEnt{key, val})
		return
	}
	for i, e := range mo.ents {
		if st.decide(eqVal(e.k, key)) {
			st.wobj(m.obj).m.ents[i].v = val
			return
		}
	}
	w := st.wobj(m.obj).m
	if k, ok := mapKey(key); ok {
		w.idx[k] = len(w.ents)
	} else {
		w.sym++
	}
	w.ents = append(w.ents, mapEnt{key, val})
}

func (st *State) mapDelete(m MapRef, key Value) {
	if m.obj == 0 {
		return
	}
	mo := st.obj(m.obj).m
	for i, e := range mo.ents {
		if st.decide(eqVal(e.k, key)) {
			w := st.wobj(m.obj).m
			if _, ok := mapKey(w.ents[i].k); !ok {
				w.sym--
			}
			w.ents = append(w.ents[:i:i], w.ents[i+1:]...)
			w.idx = map[string]int{}
			for j, e := range w.ents {
				if k, ok := mapKey(e.k); ok {
					w.idx[k] = j
				}
			}
			return
		}
	}
}

func (st *State) next(f *Frame, ci *cinstr) {
	it := f.get(ci.a[0]).(*RangeIter)
	adv := func(n int, keys []Value) *RangeIter {
		c := *it
		c.i += n
		return &c
	}
	setIter := func(n *RangeIter) {
		// the iterator register is overwritten in place (functional update)
		st.top().regs[ci.a[0].idx] = n
	}
	if it.isS {
		if it.i >= it.s.Len() {
			f.regs[ci.dst] = Tuple{tFalse, mkConst(64, 0), mkConst(32, 0)}
			return
		}
		r, size := st.decodeRune(it.s, it.i)
		st.top().regs[ci.dst] = Tuple{tTrue, mkConst(64, uint64(it.i)), r}
		setIter(adv(size, nil))
		return
	}
	tt := ci.ins.(*ssa.Next).Type().(*types.Tuple)
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it = adv(1, nil)
		mt := ci.ins.(*ssa.Next).Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		v, ok := st.mapLookup(it.m, k, mt)
		if !st.decide(ok) {
			continue
		}
		st.top().regs[ci.dst] = Tuple{tTrue, k, v}
		setIter(it)
		return
	}
	z := make(Tuple, 3)
	z[0] = tFalse
	for i := 1; i < 3; i++ {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			z[i] = Poison{"unused"}
		} else {
			z[i] = zeroValue(tt.At(i).Type())
		}
	}
	st.top().regs[ci.dst] = z
	setIter(it)
}

func inRange(t *Term, lo, hi uint64) *Term {
	return mkAnd(mkCmp(OUle, mkConst(8, lo), t), mkCmp(OUle, t, mkConst(8, hi)))
}

// decodeRune mirrors utf8.DecodeRuneInString.
func (st *State) decodeRune(s Str, i int) (*Term, int) {
	b0 := s.At(i)
	if s.t == nil {
		r, n := utf8.DecodeRuneInString(s.s[i:])
		return mkConst(32, uint64(uint32(r))), n
	}
	if st.decide(mkCmp(OUlt, b0, mkConst(8, 0x80))) {
		return mkResize(b0, 32, false), 1
	}
	bad := mkConst(32, 0xFFFD)
	rest := s.Len() - i
	z := func(t *Term, m uint64, sh uint64) *Term {
		return mkBin(OShl, mkBin(OBand, mkResize(t, 32, false), mkConst(32, m)), mkConst(32, sh))
	}
	or := func(ts ...*Term) *Term {
		r := ts[0]
		for _, t := range ts[1:] {
			r = mkBin(OBor, r, t)
		}
		return r
	}
	cont := func(k int, lo, hi uint64) bool {
		return rest > k && st.decide(inRange(s.At(i+k), lo, hi))
	}
	if st.decide(inRange(b0, 0xC2, 0xDF)) {
		if !cont(1, 0x80, 0xBF) {
			return bad, 1
		}
		return or(z(b0, 0x1F, 6), z(s.At(i+1), 0x3F, 0)), 2
	}
	if st.decide(inRange(b0, 0xE0, 0xEF)) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if st.decide(mkEq(b0, mkConst(8, 0xE0))) {
			lo = 0xA0
		} else if st.decide(mkEq(b0, mkConst(8, 0xED))) {
			hi = 0x9F
		}
		if !cont(1, lo, hi) || !cont(2, 0x80, 0xBF) {
			return bad, 1
		}
		return or(z(b0, 0x0F, 12), z(s.At(i+1), 0x3F, 6), z(s.At(i+2), 0x3F, 0)), 3
	}
	if st.decide(inRange(b0, 0xF0, 0xF4)) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if st.decide(mkEq(b0, mkConst(8, 0xF0))) {
			lo = 0x90
		} else if st.decide(mkEq(b0, mkConst(8, 0xF4))) {
			hi = 0x8F
		}
		if !cont(1, lo, hi) || !cont(2, 0x80, 0xBF) || !cont(3, 0x80, 0xBF) {
			return bad, 1
		}
		return or(z(b0, 0x07, 18), z(s.At(i+1), 0x3F, 12), z(s.At(i+2), 0x3F, 6), z(s.At(i+3), 0x3F, 0)), 4
	}
	return bad, 1
}

func (st *State) binop(ci *cinstr, a, b Value) Value {
	op := token.Token(ci.bop)
	switch op {
	case token.EQL:
		return eqVal(a, b)
	case token.NEQ:
		return mkNot(eqVal(a, b))
	}
	if isStrType(ci.t) {
		x, y := st.resolve(a).(Str), st.resolve(b).(Str)
		switch op {
		case token.ADD:
			return concatStr(x, y)
		case token.LSS:
			return st.strLess(x, y, false)
		case token.LEQ:
			return st.strLess(x, y, true)
		case token.GTR:
			return st.strLess(y, x, false)
		case token.GEQ:
			return st.strLess(y, x, true)
		}
	}
	if fx, ok := a.(Float); ok {
		fy := b.(Float)
		switch op {
		case token.ADD:
			return fx + fy
		case token.SUB:
			return fx - fy
		case token.MUL:
			return fx * fy
		case token.QUO:
			return fx / fy
		case token.LSS:
			return mkBool(fx < fy)
		case token.LEQ:
			return mkBool(fx <= fy)
		case token.GTR:
			return mkBool(fx > fy)
		case token.GEQ:
			return mkBool(fx >= fy)
		}
	}
	x, y := st.term(a), st.term(b)
	if ci.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return mkAnd(x, y)
		case token.OR, token.LOR:
			return mkOr(x, y)
		}
	}
	sel := func(s, u Op) Op {
		if ci.sg {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return mkBin(OAdd, x, y)
	case token.SUB:
		return mkBin(OSub, x, y)
	case token.MUL:
		return mkBin(OMul, x, y)
	case token.QUO, token.REM:
		if st.decide(mkEq(y, mkConst(y.w, 0))) {
			panic(goPanic("integer divide by zero"))
		}
		if op == token.QUO {
			return mkBin(sel(OSdiv, OUdiv), x, y)
		}
		return mkBin(sel(OSrem, OUrem), x, y)
	case token.AND:
		return mkBin(OBand, x, y)
	case token.OR:
		return mkBin(OBor, x, y)
	case token.XOR:
		return mkBin(OBxor, x, y)
	case token.AND_NOT:
		return mkBin(OBand, x, mkUn(OBnot, y))
	case token.LSS:
		return mkCmp(sel(OSlt, OUlt), x, y)
	case token.LEQ:
		return mkCmp(sel(OSle, OUle), x, y)
	case token.GTR:
		return mkCmp(sel(OSlt, OUlt), y, x)
	case token.GEQ:
		return mkCmp(sel(OSle, OUle), y, x)
	case token.SHL, token.SHR:
		o := OShl
		if op == token.SHR {
			o = sel(OAshr, OLshr)
		}
		_, ysg, _ := intWidth(ci.ins.(*ssa.BinOp).Y.Type())
		if ysg && st.decide(mkCmp(OSlt, y, mkConst(y.w, 0))) {
			panic(goPanic("negative shift amount"))
		}
		big := mkNot(mkCmp(OUlt, y, mkConst(y.w, uint64(x.w))))
		if y.w < 8 && uint64(x.w) > mask(y.w) {
			big = tFalse
		}
		var ov *Term = mkConst(x.w, 0)
		if o == OAshr {
			ov = mkBin(OAshr, x, mkConst(x.w, uint64(x.w)-1))
		}
		return mkIte(big, ov, mkBin(o, x, mkResize(y, x.w, false)))
	}
	panic(unsupported("binop " + op.String()))
}

func isStrType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (st *State) strLess(a, b Str, orEq bool) *Term {
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	var r *Term
	if orEq {
		r = mkBool(a.Len() <= b.Len())
	} else {
		r = mkBool(a.Len() < b.Len())
	}
	for i := n - 1; i >= 0; i-- {
		x, y := a.At(i), b.At(i)
		r = mkIte(mkEq(x, y), r, mkCmp(OUlt, x, y))
	}
	return r
}

func (st *State) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tw, _, ok := intWidth(tu); ok && tw > 0 {
		if _, fsg, ok := intWidth(fu); ok {
			return mkResize(st.term(v), tw, fsg)
		}
		if f, ok := v.(Float); ok {
			return mkConst(tw, uint64(int64(f)))
		}
	}
	if isStrType(to) {
		if isStrType(from) {
			return v
		}
		switch fs := fu.(type) {
		case *types.Slice:
			s := st.resolve(v).(Slice)
			w, _, _ := intWidth(fs.Elem())
			if w == 8 {
				return mkStr(st.bytesOf(s))
			}
			var out []*Term
			for _, e := range st.sliceElems(s) {
				out = append(out, st.encodeRune(st.term(e))...)
			}
			return mkStr(out)
		case *types.Basic:
			t := st.term(v)
			_, sg, _ := intWidth(from)
			return mkStr(st.encodeRune(mkResize(t, 32, sg)))
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if isStrType(from) {
			s := st.resolve(v).(Str)
			w, _, _ := intWidth(ts.Elem())
			if w == 8 {
				return st.newByteSlice(s.Terms())
			}
			var rs []Value
			for i := 0; i < s.Len(); {
				r, n := st.decodeRune(s, i)
				rs = append(rs, r)
				i += n
			}
			p := st.allocArr(rs)
			return Slice{obj: p.obj, pre: p, len: len(rs), cap: len(rs)}
		}
		return v
	}
	if b, ok := tu.(*types.Basic); ok {
		if b.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case Float:
				return x
			case *Term:
				if x.isConst() {
					_, sg, _ := intWidth(from)
					if sg {
						return Float(x.sval())
					}
					return Float(x.k)
				}
			}
			panic(unsupported("symbolic float"))
		}
		if b.Kind() == types.UnsafePointer {
			return v
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}

func (st *State) encodeRune(r *Term) []*Term {
	if r.isConst() {
		var out []*Term
		for _, b := range []byte(string(rune(int32(r.k)))) {
			out = append(out, byteConst[b])
		}
		return out
	}
	lt := func(n uint64) bool { return st.decide(mkCmp(OUlt, r, mkConst(32, n))) }
	part := func(sh uint64, m uint64, tag uint64) *Term {
		return mkResize(mkBin(OBor, mkBin(OBand, mkBin(OLshr, r, mkConst(32, sh)), mkConst(32, m)), mkConst(32, tag)), 8, false)
	}
	if lt(0x80) {
		return []*Term{mkResize(r, 8, false)}
	}
	if lt(0x800) {
		return []*Term{part(6, 0x1F, 0xC0), part(0, 0x3F, 0x80)}
	}
	if lt(0x10000) {
		if !lt(0xD800) && lt(0xE000) {
			return []*Term{byteConst[0xEF], byteConst[0xBF], byteConst[0xBD]}
		}
		return []*Term{part(12, 0x0F, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
	}
	if lt(0x110000) {
		return []*Term{part(18, 7, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
	}
	return []*Term{byteConst[0xEF], byteConst[0xBF], byteConst[0xBD]}
}

func (st *State) describe(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if s, ok := x.v.(Str); ok {
			return s.String()
		}
		return x.t.String()
	}
	return fmt.Sprintf("%T", v)
}

func (w *Worker) nonterm(st *State) {
	w.violation(st, "step bound exceeded (possible non-termination)", nil)
	atomic.AddInt64(&w.x.nSteps, 1)
}
