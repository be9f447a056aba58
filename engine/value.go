package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Str, Ptr, Slice, Tuple, *Agg, Iface, *Closure,
// MapRef, *Union, Float, Poison, *RangeIter.
type Value interface{}

type Str struct {
	s string
	t []*Term // nil: concrete s
}

func mkStr(t []*Term) Str {
	for _, x := range t {
		if !x.isConst() {
			return Str{t: t}
		}
	}
	b := make([]byte, len(t))
	for i, x := range t {
		b[i] = byte(x.k)
	}
	return Str{s: string(b)}
}
func (s Str) Len() int {
	if s.t != nil {
		return len(s.t)
	}
	return len(s.s)
}
func (s Str) At(i int) *Term {
	if s.t != nil {
		return s.t[i]
	}
	return byteConst[s.s[i]]
}
func (s Str) concrete() bool { return s.t == nil }
func (s Str) Terms() []*Term {
	if s.t != nil {
		return s.t
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = byteConst[s.s[i]]
	}
	return out
}
func (s Str) Sub(lo, hi int) Str {
	if s.t == nil {
		return Str{s: s.s[lo:hi]}
	}
	return mkStr(s.t[lo:hi:hi])
}
func (s Str) String() string {
	if s.t == nil {
		return fmt.Sprintf("%q", s.s)
	}
	var sb strings.Builder
	for _, x := range s.t {
		if x.isConst() {
			sb.WriteByte(byte(x.k))
		} else {
			sb.WriteString("<" + x.String() + ">")
		}
	}
	return sb.String()
}

func concatStr(a, b Str) Str {
	if a.t == nil && b.t == nil {
		return Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	out := make([]*Term, 0, a.Len()+b.Len())
	out = append(out, a.Terms()...)
	out = append(out, b.Terms()...)
	return Str{t: out}
}

type Ptr struct {
	obj  int32 // 0: nil
	n    int8
	path [5]int32
}

func (p Ptr) sub(i int) Ptr {
	if int(p.n) >= len(p.path) {
		panic(unsupported("pointer path too deep"))
	}
	p.path[p.n] = int32(i)
	p.n++
	return p
}

type Slice struct {
	obj           int32
	pre           Ptr // path prefix to the array (obj set); n==0 for plain array objects
	off, len, cap int
}

type Tuple []Value

type Agg struct{ e []Value }

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
}

type MapRef struct{ obj int32 }

type Float float64

type Poison struct{ why string }

type Alt struct {
	g *Term
	v Value
}
type Union struct{ alts []Alt }

type RangeIter struct {
	keys []Value // snapshot of map keys
	m    MapRef
	s    Str
	isS  bool
	i    int
}

type unsupported string

func (u unsupported) Error() string { return string(u) }

// ---- zero values

func isByteTerm(t types.Type) bool { return false }

func intWidth(t types.Type) (uint8, bool, bool) { // width, signed, ok
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return mkConst(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return Float(0)
		case types.UnsafePointer, types.UntypedNil:
			return Ptr{}
		}
		return Poison{"zero of " + t.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return Ptr{}
	case *types.Struct:
		e := make([]Value, u.NumFields())
		for i := range e {
			e[i] = zeroValue(u.Field(i).Type())
		}
		return &Agg{e}
	case *types.Array:
		n := int(u.Len())
		if n > 1<<16 {
			return Poison{"huge array"}
		}
		e := make([]Value, n)
		z := zeroValue(u.Elem())
		for i := range e {
			e[i] = z
		}
		return &Agg{e}
	case *types.Tuple:
		e := make(Tuple, u.Len())
		for i := range e {
			e[i] = zeroValue(u.At(i).Type())
		}
		return e
	}
	return Poison{"zero of " + t.String()}
}

// ---- identity, equality, merging

// sameVal reports structural identity of values.
func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Str:
		y, ok := b.(Str)
		if !ok || x.Len() != y.Len() {
			return false
		}
		if x.t == nil && y.t == nil {
			return x.s == y.s
		}
		for i, n := 0, x.Len(); i < n; i++ {
			if x.At(i) != y.At(i) {
				return false
			}
		}
		return true
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	case Float:
		y, ok := b.(Float)
		return ok && x == y
	case RType:
		y, ok := b.(RType)
		return ok && types.Identical(x.t, y.t)
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.e {
			if !sameVal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameVal(x.v, y.v)
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return false
		}
		if x == nil || y == nil {
			return x == y
		}
		if x.fn != y.fn || x.bi != y.bi || len(x.free) != len(y.free) {
			return false
		}
		for i := range x.free {
			if !sameVal(x.free[i], y.free[i]) {
				return false
			}
		}
		return true
	case *Union:
		y, ok := b.(*Union)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !sameVal(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return false
}

func concreteVal(v Value) bool {
	switch x := v.(type) {
	case *Term:
		return x.isConst()
	case Str:
		return x.t == nil
	case *Agg:
		for _, e := range x.e {
			if !concreteVal(e) {
				return false
			}
		}
		return true
	case Iface:
		return x.t == nil || concreteVal(x.v)
	case *Union, Poison:
		return false
	case Tuple:
		for _, e := range x {
			if !concreteVal(e) {
				return false
			}
		}
		return true
	}
	return true
}

const maxAlts = 64

// mergeAlts builds the value that equals alts[i].v when alts[i].g holds.
// Guards are mutually exclusive and jointly exhaustive under the path condition.
func mergeAlts(alts []Alt) (Value, bool) {
	if len(alts) == 1 {
		return alts[0].v, true
	}
	// flatten
	var flat []Alt
	for _, a := range alts {
		if u, ok := a.v.(*Union); ok {
			for _, b := range u.alts {
				g := mkAnd(a.g, b.g)
				if !g.isFalse() {
					flat = append(flat, Alt{g, b.v})
				}
			}
		} else {
			flat = append(flat, a)
		}
	}
	var out []Alt
next:
	for _, a := range flat {
		for i := range out {
			if sameVal(out[i].v, a.v) {
				out[i].g = mkOr(out[i].g, a.g)
				continue next
			}
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		return out[0].v, true
	}
	switch f := out[0].v.(type) {
	case *Term:
		r := out[len(out)-1].v.(*Term)
		for i := len(out) - 2; i >= 0; i-- {
			r = mkIte(out[i].g, out[i].v.(*Term), r)
		}
		return r, true
	case Tuple:
		n := len(f)
		res := make(Tuple, n)
		for k := 0; k < n; k++ {
			sub := make([]Alt, len(out))
			for i := range out {
				sub[i] = Alt{out[i].g, out[i].v.(Tuple)[k]}
			}
			m, ok := mergeAlts(sub)
			if !ok {
				return nil, false
			}
			res[k] = m
		}
		return res, true
	case *Agg:
		all := true
		for _, a := range out {
			if !concreteVal(a.v) {
				all = false
			}
		}
		if all {
			if len(out) > maxAlts {
				return nil, false
			}
			return &Union{out}, true
		}
		n := len(f.e)
		res := &Agg{make([]Value, n)}
		for k := 0; k < n; k++ {
			sub := make([]Alt, len(out))
			for i := range out {
				sub[i] = Alt{out[i].g, out[i].v.(*Agg).e[k]}
			}
			m, ok := mergeAlts(sub)
			if !ok {
				return nil, false
			}
			res.e[k] = m
		}
		return res, true
	case Poison:
		return nil, false
	}
	if len(out) > maxAlts {
		return nil, false
	}
	return &Union{out}, true
}

func eqStr(a, b Str) *Term {
	if a.Len() != b.Len() {
		return tFalse
	}
	if a.t == nil && b.t == nil {
		return mkBool(a.s == b.s)
	}
	r := tTrue
	for i, n := 0, a.Len(); i < n; i++ {
		r = mkAnd(r, mkEq(a.At(i), b.At(i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// eqVal is Go's == as a term.
func eqVal(a, b Value) *Term {
	if u, ok := a.(*Union); ok {
		r := tFalse
		for _, x := range u.alts {
			r = mkOr(r, mkAnd(x.g, eqVal(x.v, b)))
		}
		return r
	}
	if _, ok := b.(*Union); ok {
		return eqVal(b, a)
	}
	switch x := a.(type) {
	case *Term:
		return mkEq(x, b.(*Term))
	case Str:
		return eqStr(x, b.(Str))
	case Ptr:
		return mkBool(x == b.(Ptr))
	case Slice:
		return mkBool(x.obj == 0 && b.(Slice).obj == 0)
	case MapRef:
		return mkBool(x == b.(MapRef))
	case *Closure:
		y := b.(*Closure)
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil)
		}
		panic(unsupported("func comparison"))
	case Float:
		return mkBool(x == b.(Float))
	case *Agg:
		y := b.(*Agg)
		r := tTrue
		for i := range x.e {
			r = mkAnd(r, eqVal(x.e[i], y.e[i]))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported("iface vs concrete comparison"))
		}
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		if !types.Comparable(x.t) {
			panic(goPanic("comparing uncomparable type " + x.t.String()))
		}
		return eqVal(x.v, y.v)
	case RType:
		y, ok := b.(RType)
		return mkBool(ok && types.Identical(x.t, y.t))
	}
	panic(unsupported(fmt.Sprintf("eq on %T", a)))
}

// canonical key of a concrete map key
func mapKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return "", false
		}
		return fmt.Sprintf("i%d", x.k), true
	case Str:
		if x.t != nil {
			return "", false
		}
		return "s" + x.s, true
	case Ptr:
		return fmt.Sprintf("p%d.%v", x.obj, x.path[:x.n]), true
	case *Agg:
		var sb strings.Builder
		sb.WriteString("a")
		for _, e := range x.e {
			k, ok := mapKey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(k), k)
		}
		return sb.String(), true
	case Iface:
		if x.t == nil {
			return "n", true
		}
		k, ok := mapKey(x.v)
		return "I" + x.t.String() + "|" + k, ok
	case Float:
		return fmt.Sprintf("f%v", float64(x)), true
	}
	return "", false
}
