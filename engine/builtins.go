package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type depthBound struct{}
type pathEnd string

// runtime size classes (malloc), used to reproduce append's capacity growth.
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int, noscan bool) int {
	if n <= 32768-8 {
		head := 0
		if !noscan && n > 512 {
			head = 8 // the allocator's header for objects with pointers
		}
		for _, c := range sizeClasses {
			if c >= n+head {
				return c - head
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

// hasPointers tells whether the garbage collector looks into values of t.
func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func growCap(oldCap, newLen, esz int, noscan bool) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	return roundSize(nc*esz, noscan) / esz
}

func (st *State) lenOf(v Value) Value {
	switch x := v.(type) {
	case Str:
		return mkConst(64, uint64(x.Len()))
	case Slice:
		return mkConst(64, uint64(x.len))
	case MapRef:
		if x.obj == 0 {
			return mkConst(64, 0)
		}
		return mkConst(64, uint64(len(st.obj(x.obj).m.ents)))
	case *Union:
		alts := make([]Alt, len(x.alts))
		for i, a := range x.alts {
			alts[i] = Alt{a.g, st.lenOf(a.v)}
		}
		m, ok := mergeAlts(alts)
		if !ok {
			panic(unsupported("len of union"))
		}
		return m
	case Ptr:
		panic(unsupported("len of array pointer"))
	case *Agg:
		return mkConst(64, uint64(len(x.e)))
	case Poison:
		panic(unsupported("poison value: " + x.why))
	}
	panic(unsupported(fmt.Sprintf("len of %T", v)))
}

func (st *State) builtin(bi *ssa.Builtin, args []Value, ci *cinstr) Value {
	switch bi.Name() {
	case "len":
		return st.lenOf(args[0])
	case "cap":
		switch x := st.resolve(args[0]).(type) {
		case Slice:
			return mkConst(64, uint64(x.cap))
		case *Agg:
			return mkConst(64, uint64(len(x.e)))
		}
		panic(unsupported("cap"))
	case "append":
		return st.appendOp(bi, args)
	case "copy":
		d := st.resolve(args[0]).(Slice)
		var src []Value
		switch s := st.resolve(args[1]).(type) {
		case Slice:
			src = append([]Value(nil), st.sliceElems(s)...)
		case Str:
			for _, t := range s.Terms() {
				src = append(src, t)
			}
		}
		n := min(d.len, len(src))
		st.writeElems(d, 0, src[:n])
		return mkConst(64, uint64(n))
	case "delete":
		st.mapDelete(st.resolve(args[0]).(MapRef), st.resolve(args[1]))
		return nil
	case "clear":
		switch x := st.resolve(args[0]).(type) {
		case MapRef:
			if x.obj != 0 {
				w := st.wobj(x.obj).m
				w.ents, w.idx, w.sym = nil, map[string]int{}, 0
			}
			return nil
		}
		panic(unsupported("clear"))
	case "panic":
		v := st.resolve(args[0])
		st.raise(v, st.describe(v))
		return nil
	case "recover":
		if st.pan != nil && !st.pan.recovered && len(st.frames) > 0 && st.top().kind == fkPanicDefer {
			st.pan = &PanicInfo{val: st.pan.val, msg: st.pan.msg, recovered: true}
			if ifc, ok := st.pan.val.(Iface); ok && ifc.t == nil {
				return Iface{types.Typ[types.String], Str{s: st.pan.msg}}
			}
			return st.pan.val
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			x, y := st.term(r), st.term(b)
			op := OUlt
			if ci != nil {
				if _, sg, _ := intWidth(ci.t); sg {
					op = OSlt
				}
			}
			c := mkCmp(op, x, y)
			if bi.Name() == "max" {
				c = mkCmp(op, y, x)
			}
			r = mkIte(c, x, y)
		}
		return r
	case "print", "println":
		r := Str{}
		for i, a := range args {
			if i > 0 && bi.Name() == "println" {
				r = concatStr(r, Str{s: " "})
			}
			r = concatStr(r, st.printV(a, bi, i))
		}
		if bi.Name() == "println" {
			r = concatStr(r, Str{s: "\n"})
		}
		st.emit("ErrText", r)
		return nil
	case "ssa:wrapnilchk":
		if p, ok := st.resolve(args[0]).(Ptr); ok && p.obj == 0 {
			panic(goPanic("value method called using nil pointer"))
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := st.cint(args[1])
		if n == 0 {
			return Str{}
		}
		p := st.resolve(args[0]).(Ptr)
		out := make([]*Term, n)
		for i := range out {
			q := p
			q.path[q.n-1] += int32(i)
			out[i] = st.term(st.load(q))
		}
		return mkStr(out)
	case "SliceData":
		s := st.resolve(args[0]).(Slice)
		if s.obj == 0 || s.cap == 0 {
			return Ptr{}
		}
		return s.pre.sub(s.off)
	case "StringData":
		s := st.resolve(args[0]).(Str)
		if s.Len() == 0 {
			return Ptr{}
		}
		sl := st.newByteSlice(s.Terms())
		return sl.pre.sub(0)
	case "Slice":
		n := st.cint(args[1])
		p := st.resolve(args[0]).(Ptr)
		if n == 0 {
			return Slice{}
		}
		base := p
		base.n--
		off := int(p.path[p.n-1])
		base.path[base.n] = 0
		return Slice{obj: p.obj, pre: base, off: off, len: n, cap: n}
	}
	panic(unsupported("builtin " + bi.Name()))
}

// writeElems stores vals at d[at:].
func (st *State) writeElems(d Slice, at int, vals []Value) {
	if len(vals) == 0 {
		return
	}
	if d.pre.n == 0 {
		o := st.wobj(d.obj)
		if o.isArr {
			copy(o.arr[d.off+at:], vals)
			return
		}
	}
	for i, v := range vals {
		st.store(d.pre.sub(d.off+at+i), v)
	}
}

func (st *State) appendOp(bi *ssa.Builtin, args []Value) Value {
	sv := st.resolve(args[0])
	s, ok := sv.(Slice)
	if !ok {
		panic(unsupported(fmt.Sprintf("append to %T", sv)))
	}
	if len(args) == 1 {
		return s
	}
	var src []Value
	switch x := st.resolve(args[1]).(type) {
	case Slice:
		src = append([]Value(nil), st.sliceElems(x)...)
	case Str:
		for _, t := range x.Terms() {
			src = append(src, t)
		}
	default:
		panic(unsupported("append"))
	}
	if len(src) == 0 {
		return s
	}
	nl := s.len + len(src)
	if nl <= s.cap {
		st.writeElems(s, s.len, src)
		s.len = nl
		return s
	}
	et := bi.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
	nc := growCap(s.cap, nl, int(st.x.prog.sizes.Sizeof(et)), !hasPointers(et))
	arr := make([]Value, nc)
	copy(arr, st.sliceElems(s))
	copy(arr[s.len:], src)
	z := zeroValue(et)
	for i := nl; i < nc; i++ {
		arr[i] = z
	}
	p := st.allocArr(arr)
	return Slice{obj: p.obj, pre: p, len: nl, cap: nc}
}
