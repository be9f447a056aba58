package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"sync/atomic"
)

func (st *State) fresh(w uint8) *Term {
	return mkVar("n"+strconv.Itoa(len(st.nondet)), w)
}

func (st *State) rec(t *Term, w uint8) {
	st.nondet = append(st.nondet, NondetRec{t, w})
}

func strArg(v Value) string {
	s, ok := v.(Str)
	if !ok || s.t != nil {
		panic(unsupported("label must be concrete"))
	}
	return s.s
}

func (p *Program) setupIntrinsics(tier int) {
	z := zzvPath + "."
	in := map[string]intrinsic{}
	p.intrinsics = in
	in[z+"Byte"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		t := st.fresh(8)
		st.rec(t, 8)
		return t, true
	}
	in[z+"Int"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		t := st.fresh(64)
		st.rec(t, 64)
		return t, true
	}
	in[z+"Bool"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		t := st.fresh(8)
		st.rec(t, 8)
		var s Set
		s.add(0)
		s.add(1)
		st.addCond(mkInSet(t, s))
		return mkEq(t, mkConst(8, 1)), true
	}
	in[z+"Choice"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		n := st.cint(a[0])
		if n < 1 || n > 256 {
			panic(unsupported("Choice bound"))
		}
		if n == 1 {
			st.rec(mkConst(8, 0), 8)
			return mkConst(64, 0), true
		}
		t := st.fresh(8)
		st.rec(t, 8)
		var s Set
		for i := 0; i < n; i++ {
			s.add(uint64(i))
		}
		st.addCond(mkInSet(t, s))
		return mkResize(t, 64, false), true
	}
	in[z+"ByteOf"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		al := strArg(a[0])
		var s Set
		for i := 0; i < len(al); i++ {
			s.add(uint64(al[i]))
		}
		t := st.fresh(8)
		st.rec(t, 8)
		st.addCond(mkInSet(t, s))
		if s.count() == 1 {
			return mkConst(8, s.min()), true
		}
		return t, true
	}
	in[z+"Assume"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		c := st.term(a[0])
		if !st.feasible(c) {
			panic(pathEnd("assume"))
		}
		st.addCond(c)
		return nil, true
	}
	in[z+"Assert"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		c := st.term(a[0])
		label := strArg(a[1])
		atomic.AddInt64(&st.job.asserts, 1)
		if c.isTrue() {
			return nil, true
		}
		atomic.AddInt64(&st.job.aSolver, 1)
		nc := mkNot(c)
		if st.feasible(nc) {
			st.w.violation(st, label, nc)
			if c.isFalse() || !st.feasible(c) {
				panic(pathEnd("assert"))
			}
			st.addCond(c)
		}
		return nil, true
	}
	in[z+"Reach"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		l := strArg(a[0])
		st.job.mu.Lock()
		st.job.reached[l]++
		st.job.mu.Unlock()
		return nil, true
	}
	obs := func(st *State, ci *cinstr, a []Value) (Value, bool) {
		st.obs = append(st.obs, Obs{strArg(a[0]), a[1]})
		return nil, true
	}
	in[z+"ObsStr"] = obs
	in[z+"ObsInt"] = obs
	in[z+"ObsBool"] = obs
	in[z+"MapOrder"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		t := st.term(a[0])
		if !t.isConst() {
			panic(unsupported("symbolic map order"))
		}
		st.mapOrder = int(t.k)
		return nil, true
	}
	in[z+"SharedWrites"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		for _, g := range st.globW {
			st.note("shared write: " + g)
		}
		return mkConst(64, uint64(len(st.globW))), true
	}
	in[z+"Catch"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		c, ok := st.resolve(a[0]).(*Closure)
		if !ok || c == nil {
			panic(unsupported("Catch"))
		}
		dst := -1
		if ci != nil {
			dst = ci.dst
		}
		st.invoke(c, nil, dst, fkCatch)
		return nil, false
	}
	in[z+"Thorough"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return mkBool(tier > 0), true
	}
	in[z+"Symbolic"] = func(st *State, ci *cinstr, a []Value) (Value, bool) { return tTrue, true }
	// environment and runtime
	nop := func(st *State, ci *cinstr, a []Value) (Value, bool) { return nil, true }
	for _, n := range []string{"(*strings.Builder).copyCheck", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"log/slog.Debug", "runtime.KeepAlive", "runtime.GC"} {
		in[n] = nop
	}
	// what is logged is not modelled, only that something is
	for _, n := range []string{"log/slog.Error", "log/slog.Warn", "log/slog.Info", "log.Printf", "log.Println", "log.Print"} {
		in[n] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
			st.emit("ErrText", Str{s: "<log>\n"})
			return nil, true
		}
	}
	in[z+"begin"] = nop
	in[z+"finish"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return Tuple{st.loadV(p.outputs["OutText"]), st.loadV(p.outputs["ErrText"])}, true
	}
	in["fmt.Sprintln"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return st.sprintln(st.anys(a[0])), true
	}
	in["fmt.Println"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		st.emit("OutText", st.sprintln(st.anys(a[0])))
		return Tuple{mkConst(64, 0), Iface{}}, true
	}
	in["fmt.Printf"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		st.emit("OutText", st.sprintf(st.resolve(a[0]).(Str), st.anys(a[1])))
		return Tuple{mkConst(64, 0), Iface{}}, true
	}
	in["fmt.Print"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		st.emit("OutText", st.sprint(st.anys(a[0])))
		return Tuple{mkConst(64, 0), Iface{}}, true
	}
	stream := func(st *State, f Value) string {
		if q, ok := st.resolve(f).(Ptr); ok && q.obj != 0 {
			switch q.obj {
			case p.stdout.obj:
				return "OutText"
			case p.stderr.obj:
				return "ErrText"
			}
		}
		panic(unsupported("os.File"))
	}
	in["(*os.File).Write"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		s := st.resolve(a[1]).(Slice)
		st.emit(stream(st, a[0]), mkStr(st.bytesOf(s)))
		return Tuple{mkConst(64, uint64(s.len)), Iface{}}, true
	}
	in["(*os.File).WriteString"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		s := st.resolve(a[1]).(Str)
		st.emit(stream(st, a[0]), s)
		return Tuple{mkConst(64, uint64(s.Len())), Iface{}}, true
	}
	in["fmt.Sprintf"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return st.sprintf(st.resolve(a[0]).(Str), st.anys(a[1])), true
	}
	in["fmt.Sprint"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return st.sprint(st.anys(a[0])), true
	}
	in["os.Getenv"] = func(st *State, ci *cinstr, a []Value) (Value, bool) { return Str{}, true }
	in["internal/bytealg.MakeNoZero"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		n := st.cint(a[0])
		c := roundSize(n, true)
		arr := make([]Value, c)
		for i := range arr {
			arr[i] = byteConst[0]
		}
		p := st.allocArr(arr)
		return Slice{obj: p.obj, pre: p, len: n, cap: c}, true
	}
	in["internal/bytealg.Equal"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return eqStr(mkStr(st.bytesOf(st.resolve(a[0]).(Slice))), mkStr(st.bytesOf(st.resolve(a[1]).(Slice)))), true
	}
	in["bytes.Equal"] = in["internal/bytealg.Equal"]
	in["math/bits.TrailingZeros"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return mkConst(64, uint64(bits.TrailingZeros64(uint64(st.cint(a[0]))))), true
	}
	in["runtime/debug.Stack"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		var arr []Value
		for _, c := range []byte("goroutine 1 [running]:\nruntime/debug.Stack()\n\t/go/stack.go:26 +0x5e\np.f(...)\n\t/p/f.go:1\np.g(0x1)\n\t/p/g.go:2 +0x1d\nmain.main()\n\t/p/main.go:3 +0x1\n") {
			arr = append(arr, byteConst[c])
		}
		p := st.allocArr(arr)
		return Slice{obj: p.obj, pre: p, len: len(arr), cap: len(arr)}, true
	}
	atomicLoad := func(st *State, ci *cinstr, a []Value) (Value, bool) { return st.loadV(a[0]), true }
	for _, n := range []string{"LoadInt32", "LoadInt64", "LoadUint32", "LoadUint64"} {
		in["sync/atomic."+n] = atomicLoad
	}
	in["math.Float64frombits"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return Float(math.Float64frombits(uint64(st.cint(a[0])))), true
	}
	in["math.Float64bits"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return mkConst(64, math.Float64bits(float64(st.resolve(a[0]).(Float)))), true
	}
	in["internal/abi.NoEscape"] = func(st *State, ci *cinstr, a []Value) (Value, bool) { return a[0], true }
	in["internal/stringslite.Clone"] = func(st *State, ci *cinstr, a []Value) (Value, bool) { return a[0], true }
	in["strings.Clone"] = in["internal/stringslite.Clone"]
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		in["sync/atomic.Load"+n] = atomicLoad
		in["sync/atomic.Store"+n] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
			st.storeV(a[0], a[1])
			return nil, true
		}
		in["sync/atomic.Swap"+n] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
			o := st.loadV(a[0])
			st.storeV(a[0], a[1])
			return o, true
		}
		in["sync/atomic.CompareAndSwap"+n] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
			o := st.loadV(a[0])
			if st.decide(eqVal(st.resolve(o), st.resolve(a[1]))) {
				st.storeV(a[0], a[2])
				return tTrue, true
			}
			return tFalse, true
		}
		in["sync/atomic.Add"+n] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
			r := mkBin(OAdd, st.term(st.loadV(a[0])), st.term(a[1]))
			st.storeV(a[0], r)
			return r, true
		}
	}
	// fast paths on concrete strings; symbolic arguments run the real code
	str2 := func(name string, f func(a, b string) Value) {
		in[name] = nil
		p.fast[name] = func(a []Value) (Value, bool) {
			x, ok := a[0].(Str)
			y, ok2 := a[1].(Str)
			if !ok || !ok2 || x.t != nil || y.t != nil {
				return nil, false
			}
			return f(x.s, y.s), true
		}
		delete(in, name)
	}
	i64 := func(n int) Value { return mkConst(64, uint64(n)) }
	str2("strings.HasPrefix", func(a, b string) Value { return mkBool(strings.HasPrefix(a, b)) })
	str2("strings.HasSuffix", func(a, b string) Value { return mkBool(strings.HasSuffix(a, b)) })
	str2("strings.Contains", func(a, b string) Value { return mkBool(strings.Contains(a, b)) })
	str2("strings.Index", func(a, b string) Value { return i64(strings.Index(a, b)) })
	str2("strings.Count", func(a, b string) Value { return i64(strings.Count(a, b)) })
	str2("strings.Compare", func(a, b string) Value { return i64(strings.Compare(a, b)) })
	str2("internal/stringslite.Index", func(a, b string) Value { return i64(strings.Index(a, b)) })
	p.fast["strings.ReplaceAll"] = func(a []Value) (Value, bool) {
		var s [3]string
		for i := range s {
			x, ok := a[i].(Str)
			if !ok || x.t != nil {
				return nil, false
			}
			s[i] = x.s
		}
		return Str{s: strings.ReplaceAll(s[0], s[1], s[2])}, true
	}
}

func (st *State) note(s string) {
	for _, e := range st.events {
		if e.msg == s {
			return
		}
	}
	st.events = append(st.events[:len(st.events):len(st.events)], Event{"note", s})
}

// printV is how the builtin print writes its i-th argument.
func (st *State) printV(v Value, bi *ssa.Builtin, i int) Str {
	v = st.resolve(v)
	if sig, ok := bi.Type().(*types.Signature); ok {
		n := sig.Params().Len() - 1
		t := sig.Params().At(min(i, n)).Type()
		if sl, ok := t.(*types.Slice); ok && i >= n && sig.Variadic() {
			t = sl.Elem()
		}
		switch x := v.(type) {
		case Str:
			return x
		case *Term:
			return st.fmtV(Iface{t: t, v: x}, 'v')
		}
	}
	return Str{s: "<value>"}
}

// emit appends s to what was written to a standard stream.
func (st *State) emit(stream string, s Str) {
	if st.x.prog.outputs[stream].obj == 0 {
		return
	}
	q := st.x.prog.outputs[stream]
	st.storeV(q, concatStr(st.loadV(q).(Str), s))
}

func (st *State) sprint(vs []Value) Str {
	r := Str{}
	str := true
	for i, v := range vs {
		ifc, _ := st.resolve(v).(Iface)
		_, s := st.resolve(ifc.v).(Str)
		if i > 0 && !s && !str {
			r = concatStr(r, Str{s: " "})
		}
		str = s
		r = concatStr(r, st.fmtV(v, 'v'))
	}
	return r
}

func (st *State) sprintln(vs []Value) Str {
	r := Str{}
	for i, v := range vs {
		if i > 0 {
			r = concatStr(r, Str{s: " "})
		}
		r = concatStr(r, st.fmtV(v, 'v'))
	}
	return concatStr(r, Str{s: "\n"})
}

func (st *State) anys(v Value) []Value {
	s := st.resolve(v).(Slice)
	return append([]Value(nil), st.sliceElems(s)...)
}

func (st *State) fmtV(v Value, verb byte) Str {
	v = st.resolve(v)
	if ifc, ok := v.(Iface); ok {
		if ifc.t == nil {
			return Str{s: "<nil>"}
		}
		iv := st.resolve(ifc.v)
		switch x := iv.(type) {
		case Str:
			if verb == 'q' {
				if x.t != nil {
					panic(unsupported("%q of symbolic string"))
				}
				return Str{s: strconv.Quote(x.s)}
			}
			return x
		case *Term:
			if x.w == 0 {
				return Str{s: fmt.Sprint(st.decide(x))}
			}
			_, sg, _ := intWidth(ifc.t)
			k := st.concretize(x)
			if sg {
				return Str{s: strconv.FormatInt(sext(k, x.w), 10)}
			}
			return Str{s: strconv.FormatUint(k, 10)}
		}
		if types.Implements(ifc.t, errorIface) {
			return Str{s: "<error>"}
		}
		return Str{s: "<" + ifc.t.String() + ">"}
	}
	panic(unsupported(fmt.Sprintf("format of %T", v)))
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (st *State) sprintf(f Str, args []Value) Str {
	if f.t != nil {
		panic(unsupported("symbolic format"))
	}
	r := Str{}
	k := 0
	s := f.s
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			r = concatStr(r, Str{s: s[i:j]})
			i = j - 1
			continue
		}
		i++
		for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
			if s[i] != '+' {
				panic(unsupported("format flags in " + strconv.Quote(s)))
			}
			i++
		}
		if i >= len(s) {
			r = concatStr(r, Str{s: "%!(NOVERB)"})
			break
		}
		if s[i] == '%' {
			r = concatStr(r, Str{s: "%"})
			continue
		}
		if k >= len(args) {
			r = concatStr(r, Str{s: "%!" + string(s[i]) + "(MISSING)"})
			continue
		}
		switch s[i] {
		case 's', 'd', 'v', 'q', 'w':
			r = concatStr(r, st.fmtV(args[k], s[i]))
		default:
			panic(unsupported("format verb " + string(s[i])))
		}
		k++
	}
	return r
}
