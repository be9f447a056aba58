package main

import (
	"go/types"
	"reflect"
)

// RType stands for a *reflect.rtype; a reflect.Value is an Agg whose second
// field holds the interface value it was made from.
type RType struct{ t types.Type }

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Chan:
		return reflect.Chan
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	}
	panic(unsupported("reflect kind of " + t.String()))
}

func nilVal(v Value) bool {
	switch x := v.(type) {
	case Ptr:
		return x.obj == 0
	case Slice:
		return x.obj == 0
	case MapRef:
		return x.obj == 0
	case *Closure:
		return x == nil
	case Iface:
		return x.t == nil
	}
	panic(unsupported("reflect IsNil"))
}

func (p *Program) setupReflect() {
	in := p.intrinsics
	pkg := p.prog.ImportedPackage("reflect")
	if pkg == nil {
		return
	}
	rt := types.NewPointer(pkg.Type("rtype").Type())
	val := func(st *State, v Value) Iface {
		a, ok := st.resolve(v).(*Agg)
		if !ok {
			panic(unsupported("reflect.Value"))
		}
		switch x := st.resolve(a.e[1]).(type) {
		case Iface:
			return x
		case Ptr:
			if x.obj == 0 {
				return Iface{}
			}
		}
		panic(unsupported("reflect.Value"))
	}
	mk := func(ifc Iface) Value {
		var f uint64
		if ifc.t != nil {
			f = uint64(kindOf(ifc.t))
		}
		return &Agg{[]Value{Ptr{}, ifc, mkConst(64, f)}}
	}
	typ := func(t types.Type) Value {
		if t == nil {
			return Iface{}
		}
		return Iface{rt, RType{t}}
	}
	deep := func(st *State, v Value) Iface { // resolved through unions
		ifc := st.resolve(v).(Iface)
		if ifc.t != nil {
			ifc.v = st.resolve(ifc.v)
		}
		return ifc
	}
	isNil := func(st *State, ifc Iface) bool {
		if ifc.t != nil {
			switch kindOf(ifc.t) {
			case reflect.Pointer, reflect.Map, reflect.Chan, reflect.Slice, reflect.Func, reflect.UnsafePointer, reflect.Interface:
				return nilVal(st.resolve(ifc.v))
			}
		}
		panic(goPanic("reflect: call of reflect.Value.IsNil on a value of another kind"))
	}
	in["reflect.ValueOf"] = func(st *State, ci *cinstr, a []Value) (Value, bool) { return mk(deep(st, a[0])), true }
	in["reflect.TypeOf"] = func(st *State, ci *cinstr, a []Value) (Value, bool) { return typ(deep(st, a[0]).t), true }
	in["(reflect.Value).Kind"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		t := val(st, a[0]).t
		if t == nil {
			return mkConst(64, 0), true
		}
		return mkConst(64, uint64(kindOf(t))), true
	}
	in["(reflect.Value).IsValid"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return mkBool(val(st, a[0]).t != nil), true
	}
	in["(reflect.Value).IsNil"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return mkBool(isNil(st, val(st, a[0]))), true
	}
	in["(reflect.Value).Interface"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		v := val(st, a[0])
		if v.t == nil {
			panic(goPanic("reflect: call of reflect.Value.Interface on zero Value"))
		}
		return v, true
	}
	in["(reflect.Value).Type"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		v := val(st, a[0])
		if v.t == nil {
			panic(goPanic("reflect: call of reflect.Value.Type on zero Value"))
		}
		return typ(v.t), true
	}
	in["(reflect.Value).Comparable"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		v := val(st, a[0])
		if v.t == nil {
			return tTrue, true
		}
		return mkBool(st.comparable(v)), true
	}
	in["(reflect.Value).Equal"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		x, y := val(st, a[0]), val(st, a[1])
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil), true
		}
		if !types.Identical(x.t, y.t) {
			return tFalse, true
		}
		if !types.Comparable(x.t) {
			panic(goPanic("reflect.Value.Equal: values of type " + x.t.String() + " are not comparable"))
		}
		return eqVal(x.v, y.v), true
	}
	in["(*reflect.rtype).Kind"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return mkConst(64, uint64(kindOf(st.resolve(a[0]).(RType).t))), true
	}
	in["(*reflect.rtype).Comparable"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		return mkBool(types.Comparable(st.resolve(a[0]).(RType).t)), true
	}
	in["(*reflect.rtype).String"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		t := st.resolve(a[0]).(RType).t
		return Str{s: types.TypeString(t, func(p *types.Package) string { return p.Name() })}, true
	}
	in["reflect.DeepEqual"] = func(st *State, ci *cinstr, a []Value) (Value, bool) {
		x, y := deep(st, a[0]), deep(st, a[1])
		return st.deepEqual(x, y, 0), true
	}
}

func (st *State) comparable(v Iface) bool {
	if v.t == nil {
		return true
	}
	if !types.Comparable(v.t) {
		return false
	}
	switch u := v.t.Underlying().(type) {
	case *types.Struct:
		for i, e := range st.resolve(v.v).(*Agg).e {
			if !st.comparable(asIface(st, u.Field(i).Type(), e)) {
				return false
			}
		}
	case *types.Array:
		for _, e := range st.resolve(v.v).(*Agg).e {
			if !st.comparable(asIface(st, u.Elem(), e)) {
				return false
			}
		}
	}
	return true
}

func asIface(st *State, t types.Type, v Value) Iface {
	v = st.resolve(v)
	if ifc, ok := v.(Iface); ok {
		return ifc
	}
	return Iface{t, v}
}

func (st *State) deepEqual(x, y Iface, depth int) *Term {
	if depth > 50 {
		panic(unsupported("deep equality"))
	}
	if x.t == nil || y.t == nil {
		return mkBool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return tFalse
	}
	xv, yv := st.resolve(x.v), st.resolve(y.v)
	all := func(a, b []Value, t func(int) types.Type) *Term {
		if len(a) != len(b) {
			return tFalse
		}
		r := tTrue
		for i := range a {
			r = mkAnd(r, st.deepEqual(asIface(st, t(i), a[i]), asIface(st, t(i), b[i]), depth+1))
		}
		return r
	}
	switch u := x.t.Underlying().(type) {
	case *types.Struct:
		return all(xv.(*Agg).e, yv.(*Agg).e, func(i int) types.Type { return u.Field(i).Type() })
	case *types.Array:
		return all(xv.(*Agg).e, yv.(*Agg).e, func(int) types.Type { return u.Elem() })
	case *types.Slice:
		if nilVal(xv) != nilVal(yv) {
			return tFalse
		}
		return all(st.anys(xv), st.anys(yv), func(int) types.Type { return u.Elem() })
	case *types.Pointer:
		a, b := xv.(Ptr), yv.(Ptr)
		if a == b {
			return tTrue
		}
		if a.obj == 0 || b.obj == 0 {
			return tFalse
		}
		return st.deepEqual(asIface(st, u.Elem(), st.loadV(a)), asIface(st, u.Elem(), st.loadV(b)), depth+1)
	case *types.Signature:
		return mkBool(nilVal(xv) && nilVal(yv))
	case *types.Map:
		if xv == yv {
			return tTrue
		}
		if nilVal(xv) || nilVal(yv) {
			return tFalse
		}
		panic(unsupported("deep equality of maps"))
	}
	return eqVal(xv, yv)
}
