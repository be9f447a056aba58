package goast

import (
	"errors"
	"math"
	"strings"
	"unsafe"

	"github.com/yanun0323/goast/assert"
	"github.com/yanun0323/goast/zztesting"
	"github.com/yanun0323/goast/zzv"
)

type zzErr struct{ s string }

func (e *zzErr) Error() string {
	if e == nil {
		return "nil zzErr"
	}
	return e.s
}

type zzInt int
type zzLabel string
type zzPair struct {
	a int
	s string
}
type zzHold struct {
	v any
	p *int
}
type zzOne struct{ x int }

var zzPoint = 7

// zzMsgs are the messages an assertion may be given.
func zzMsgs() []string {
	switch zzv.Pick(4) {
	case 0:
		return nil
	case 1:
		return []string{"m" + zzv.Str(1)}
	case 2:
		return []string{"left " + zzv.Str(1), "right"}
	default:
		return []string{"100%d", "", "%s"}
	}
}

func zzHas(s, sub string) bool {
	found := false
	for i := 0; i+len(sub) <= len(s); i++ {
		found = found || s[i:i+len(sub)] == sub
	}
	return found
}

// zzJudge runs one assertion which has to pass exactly when want holds.
func zzJudge(what string, want bool, msgs []string, f func(a assert.Assert)) {
	t := &zztesting.T{TestName: "TestName"}
	a := assert.New(t)
	zzv.Assert(a.T() == t, "an Assert belongs to its test")
	went := false
	stopped := zzv.Catch(func() {
		f(a)
		went = true
	})
	if want {
		zzv.Assert(!stopped && went, what+" passes")
		zzv.Assert(t.Fails == 0 && t.Stops == 0, what+" leaves the test alone when it passes")
		zzv.Assert(len(t.Report) == 0, what+" reports nothing when it passes")
		zzv.Reach("passes")
		return
	}
	zzv.Assert(stopped && !went, what+" ends the test when it fails")
	zzv.Assert(t.Fails == 1 && t.Stops == 1, what+" fails the test once and stops it")
	report := strings.Join(t.Report, "\x00")
	zzv.Assert(zzHas(report, "TestName"), what+" names the test")
	if len(msgs) != 0 {
		zzv.Assert(zzHas(report, strings.Join(msgs, " ")), what+" reports its message")
	}
	zzv.Reach("fails")
}

// zzValue returns a value and whether it is nil.
func zzValue(k int) (v any, isNil bool) {
	switch k {
	case 0:
		return nil, true
	case 1:
		return (*int)(nil), true
	case 2:
		return &zzPoint, false
	case 3:
		return (*zzErr)(nil), true
	case 4:
		return map[string]int(nil), true
	case 5:
		return map[string]int{}, false
	case 6:
		return []int(nil), true
	case 7:
		return []int{}, false
	case 8:
		return []any{nil}, false
	case 9:
		return (chan int)(nil), true
	case 10:
		return make(chan int), false
	case 11:
		return (func())(nil), true
	case 12:
		return func() {}, false
	case 13:
		return zzv.Int(), false
	case 14:
		return zzv.Str(zzv.Pick(3)), false
	case 15:
		return zzv.Bool(), false
	case 16:
		return struct{}{}, false
	case 17:
		return zzPair{zzv.Int(), zzv.Str(1)}, false
	case 18:
		return [2]byte{zzv.Byte(), zzv.Byte()}, false
	case 19:
		return [0]int{}, false
	case 20:
		return [1]*int{nil}, false
	case 21:
		return zzHold{}, false
	case 22:
		return error(&zzErr{zzv.Str(1)}), false
	case 23:
		return errors.New(zzv.Str(1)), false
	case 24:
		return zzInt(zzv.Int()), false
	case 25:
		return zzLabel(zzv.Str(1)), false
	case 26:
		return uint8(zzv.Byte()), false
	case 27:
		return uintptr(zzv.Int()), false
	case 28:
		return []float64{0, 1.5, math.NaN(), math.Inf(1)}[zzv.Pick(4)], false
	case 29:
		return (*[3]int)(nil), true
	case 30:
		return unsafe.Pointer(nil), true
	case 31:
		return unsafe.Pointer(&zzPoint), false
	case 32:
		return (**int)(new(*int)), false
	case 33:
		return &Node{}, false
	case 34:
		return (*Node)(nil), true
	case 35:
		return Scope((*scopeStruct)(nil)), true
	case 36:
		return int32(zzv.Int()), false
	case 37:
		return (<-chan string)(nil), true
	default:
		return map[int]*int{1: nil}, false
	}
}

const zzValues = 39

// Nil and NotNil over values of every kind
func ZC22_nil() {
	v, isNil := zzValue(zzv.Pick(zzValues))
	msgs := zzMsgs()
	if zzv.Pick(2) == 0 {
		zzJudge("Nil", isNil, msgs, func(a assert.Assert) { a.Nil(v, msgs...) })
	} else {
		zzJudge("NotNil", !isNil, msgs, func(a assert.Assert) { a.NotNil(v, msgs...) })
	}
}

// zzPlain is zzValue for comparable values; twins are equal pointers, channels and so on.
func zzPlain() any {
	ks := []int{0, 1, 2, 3, 9, 13, 14, 15, 16, 17, 18, 19, 20, 24, 25, 26, 27, 28, 29, 30, 31, 36}
	v, _ := zzValue(ks[zzv.Pick(len(ks))])
	return v
}

// Equal and NotEqual over comparable values of every kind
func ZC22_equal() {
	v, w := zzPlain(), zzPlain()
	msgs := zzMsgs()[:0]
	same := v == w
	if zzv.Pick(2) == 0 {
		zzJudge("Equal", same, msgs, func(a assert.Assert) { a.Equal(v, w, msgs...) })
	} else {
		zzJudge("NotEqual", !same, msgs, func(a assert.Assert) { a.NotEqual(v, w, msgs...) })
	}
}

// the same with messages, for values which are known to differ or not
func ZC22_equal_msg() {
	msgs := zzMsgs()
	n, m := zzv.Int(), zzv.Int()
	s := zzv.Str(2)
	var v, w any
	switch zzv.Pick(7) {
	case 0:
		v, w = n, m
	case 1:
		v, w = s, zzv.Str(2)
	case 2:
		v, w = zzPair{n, s}, zzPair{m, s}
	case 3:
		v, w = zzHold{v: n}, zzHold{v: m}
	case 4:
		v, w = zzHold{v: n}, zzHold{v: zzInt(n)}
	case 5:
		v, w = &zzOne{n}, &zzOne{n}
	default:
		p := &zzOne{n}
		v, w = p, p
	}
	same := v == w
	if zzv.Pick(2) == 0 {
		zzJudge("Equal", same, msgs, func(a assert.Assert) { a.Equal(v, w, msgs...) })
	} else {
		zzJudge("NotEqual", !same, msgs, func(a assert.Assert) { a.NotEqual(v, w, msgs...) })
	}
}

// Error, NoError and Require
func ZC22_error() {
	msgs := zzMsgs()
	var err error
	switch zzv.Pick(5) {
	case 0:
	case 1:
		err = errors.New(zzv.Str(zzv.Pick(3)))
	case 2:
		err = (*zzErr)(nil)
	case 3:
		err = &zzErr{zzv.Str(1)}
	case 4:
		err = errors.Join(nil, nil)
	}
	switch zzv.Pick(3) {
	case 0:
		zzJudge("Error", err != nil, msgs, func(a assert.Assert) { a.Error(err, msgs...) })
	case 1:
		zzJudge("NoError", err == nil, msgs, func(a assert.Assert) { a.NoError(err, msgs...) })
	case 2:
		ok := zzv.Bool()
		zzJudge("Require", ok, msgs, func(a assert.Assert) { a.Require(ok, msgs...) })
	}
}

// zzActs returns a function, whether it panics and with which value (nil: with a run time error).
func zzActs() (f func(), panics bool, val any) {
	switch zzv.Pick(12) {
	case 0:
		return func() {}, false, nil
	case 1:
		s := zzv.Str(zzv.Pick(3))
		return func() { panic(s) }, true, s
	case 2:
		err := errors.New("x")
		return func() { panic(err) }, true, err
	case 3:
		n := zzv.Int()
		return func() { panic(n) }, true, n
	case 4:
		return func() {
			defer func() { _ = recover() }()
			panic("held")
		}, false, nil
	case 5:
		return func() {
			defer func() { panic("second") }()
		}, true, "second"
	case 6:
		return func() {
			defer func() {
				_ = recover()
				panic("other")
			}()
			panic("held")
		}, true, "other"
	case 7:
		n := int(zzv.Byte())
		l := zzv.Pick(4)
		return func() { _ = make([]int, l)[n] }, n >= l, nil
	case 8:
		var n *Node
		return func() { n.line++ }, true, nil
	case 9:
		var v any = zzv.Int()
		return func() { _ = v.(string) }, true, nil
	case 10:
		return func() { panic(zzPair{1, "a"}) }, true, zzPair{1, "a"}
	default:
		n := zzv.Int()
		return func() {
			if n == 12345 {
				panic("12345")
			}
		}, n == 12345, "12345"
	}
}

// Panic, NoPanic and Call
func ZC22_panic() {
	f, panics, val := zzActs()
	calls := 0
	g := func() {
		calls++
		f()
	}
	switch zzv.Pick(3) {
	case 0:
		zzJudge("Panic", panics, nil, func(a assert.Assert) { a.Panic(g) })
	case 1:
		zzJudge("NoPanic", !panics, nil, func(a assert.Assert) { a.NoPanic(g) })
	case 2:
		t := &zztesting.T{TestName: "TestName"}
		var did bool
		var msg any
		var stack string
		zzv.Assert(!zzv.Catch(func() { did, msg, stack = assert.New(t).Call(g) }), "Call holds the panic")
		zzv.Assert(did == panics, "Call reports whether the function panicked")
		zzv.Assert((stack != "") == panics, "Call reports the stack of a panic")
		if panics && val != nil {
			zzv.Assert(msg == val, "Call reports the panic's value")
		}
		if !panics {
			zzv.Assert(msg == nil, "without a panic there is no value")
		} else {
			zzv.Assert(msg != nil, "a panic has a value")
		}
		zzv.Assert(t.Fails == 0, "Call does not fail the test")
	}
	zzv.Assert(calls == 1, "the function is called once")
	zzv.Reach("checked")
}
