package main

// Terms: hash-consed SMT expressions over bit-vectors and booleans.
// Width 0 is bool.  Boolean terms over exactly one variable of width <= 8 are
// kept in the canonical form InSet(var, 256-bit set).

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OShl
	OLshr
	OAshr
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OZext
	OSext
	OTrunc
	OInSet
)

var opNames = map[Op]string{OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg",
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite"}

type Set [4]uint64

func (s *Set) has(v uint64) bool { return s[(v>>6)&3]&(1<<(v&63)) != 0 }
func (s *Set) add(v uint64)      { s[(v>>6)&3] |= 1 << (v & 63) }
func (s Set) and(o Set) Set      { return Set{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]} }
func (s Set) or(o Set) Set       { return Set{s[0] | o[0], s[1] | o[1], s[2] | o[2], s[3] | o[3]} }
func (s Set) empty() bool        { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s Set) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s Set) min() uint64 {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}
func fullSet(w uint8) Set {
	var s Set
	for v := uint64(0); v < 1<<w; v++ {
		s.add(v)
	}
	return s
}

var fullSets [9]Set

type Term struct {
	op      Op
	w       uint8
	k       uint64
	set     Set
	a, b, c *Term
	vars    []int32
	id      uint32
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	set     Set
	a, b, c uint32
}

type termShard struct {
	mu sync.Mutex
	m  map[termKey]*Term
}

var termShards [256]termShard
var termID uint32

type VarInfo struct {
	name string
	w    uint8
	t    *Term
}

var (
	varMu   sync.Mutex
	varTab  [16384]*VarInfo
	varCnt  int
	varByNm = map[string]*VarInfo{}
)

var tTrue, tFalse *Term
var byteConst [256]*Term

func init() {
	for i := range termShards {
		termShards[i].m = map[termKey]*Term{}
	}
	for w := uint8(1); w <= 8; w++ {
		fullSets[w] = fullSet(w)
	}
	tTrue = intern(Term{op: OConst, w: 0, k: 1})
	tFalse = intern(Term{op: OConst, w: 0, k: 0})
	for i := range byteConst {
		byteConst[i] = mkConst(8, uint64(i))
	}
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func intern(t Term) *Term {
	key := termKey{t.op, t.w, t.k, t.set, tid(t.a), tid(t.b), tid(t.c)}
	h := uint64(t.op)*1000003 ^ t.k*0x9E3779B97F4A7C15 ^ uint64(key.a)*31 ^ uint64(key.b)*131071 ^ uint64(key.c)*8191 ^ t.set[0] ^ t.set[1]*7
	sh := &termShards[(h^(h>>29))&255]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if r, ok := sh.m[key]; ok {
		return r
	}
	n := t
	n.id = atomic.AddUint32(&termID, 1)
	if n.vars == nil {
		n.vars = mergeVars(n.a, n.b, n.c)
	}
	sh.m[key] = &n
	return &n
}

func mergeVars(ts ...*Term) []int32 {
	var out []int32
	for _, t := range ts {
		if t == nil || len(t.vars) == 0 {
			continue
		}
		if out == nil {
			out = t.vars
			continue
		}
		out = unionSorted(out, t.vars)
	}
	return out
}

func unionSorted(a, b []int32) []int32 {
	// fast path: b subset of a
	i, j := 0, 0
	sub := true
	for j < len(b) {
		for i < len(a) && a[i] < b[j] {
			i++
		}
		if i >= len(a) || a[i] != b[j] {
			sub = false
			break
		}
		j++
	}
	if sub {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << w) - 1
}

func mkConst(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 && tTrue != nil {
			return tTrue
		}
		if v == 0 && tFalse != nil {
			return tFalse
		}
	}
	if w == 8 && byteConst[v&255] != nil {
		return byteConst[v&255]
	}
	return intern(Term{op: OConst, w: w, k: v & mask(w)})
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkVar(name string, w uint8) *Term {
	varMu.Lock()
	defer varMu.Unlock()
	key := fmt.Sprintf("%s_%d", name, w)
	if v, ok := varByNm[key]; ok {
		return v.t
	}
	id := int32(varCnt)
	v := &VarInfo{name: key, w: w}
	v.t = intern(Term{op: OVar, w: w, k: uint64(id), vars: []int32{id}})
	varTab[id] = v
	varCnt++
	varByNm[key] = v
	return v.t
}

func varInfo(id int32) *VarInfo {
	return varTab[id]
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t == tTrue }
func (t *Term) isFalse() bool { return t == tFalse }
func (t *Term) sval() int64   { return sext(t.k, t.w) }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

var canonShards [64]struct {
	mu sync.Mutex
	m  map[termKey]*Term
}

// canonBool puts a boolean term over one small variable into InSet form.
func canonBool(t Term) (res *Term) {
	vs := t.vars
	if vs == nil {
		vs = mergeVars(t.a, t.b, t.c)
	}
	if len(vs) == 1 && t.op != OInSet {
		vi := varInfo(vs[0])
		if vi.w <= 8 && vi.w > 0 {
			var s Set
			if t.op == OEq && t.b != nil && t.b.op == OConst && t.a == vi.t {
				s.add(t.b.k)
				return mkInSet(vi.t, s)
			}
			key := termKey{t.op, t.w, t.k, t.set, tid(t.a), tid(t.b), tid(t.c)}
			cs := &canonShards[(key.a*31^key.b*131071)&63]
			cs.mu.Lock()
			r := cs.m[key]
			cs.mu.Unlock()
			if r != nil {
				return r
			}
			defer func() {
				cs.mu.Lock()
				if cs.m == nil || len(cs.m) > 1<<16 {
					cs.m = map[termKey]*Term{}
				}
				cs.m[key] = res
				cs.mu.Unlock()
			}()
			n := uint64(1) << vi.w
			tt := t
			for v := uint64(0); v < n; v++ {
				if evalTerm(&tt, func(int32) uint64 { return v }) != 0 {
					s.add(v)
				}
			}
			return mkInSet(vi.t, s)
		}
	}
	return intern(t)
}

func mkInSet(v *Term, s Set) *Term {
	s = s.and(fullSets[v.w])
	if s.empty() {
		return tFalse
	}
	if s == fullSets[v.w] {
		return tTrue
	}
	return intern(Term{op: OInSet, w: 0, set: s, a: v})
}

func mkNot(t *Term) *Term {
	switch t.op {
	case OConst:
		return mkBool(t.k == 0)
	case ONot:
		return t.a
	case OInSet:
		f := fullSets[t.a.w]
		return mkInSet(t.a, Set{f[0] &^ t.set[0], f[1] &^ t.set[1], f[2] &^ t.set[2], f[3] &^ t.set[3]})
	}
	return canonBool(Term{op: ONot, a: t})
}

func mkAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isFalse() || b.isFalse() {
		return tFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() {
		return a
	}
	if a.op == OInSet && b.op == OInSet && a.a == b.a {
		return mkInSet(a.a, a.set.and(b.set))
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tFalse
	}
	// absorb: a & (.. a ..)
	if hasConj(b, a) {
		return b
	}
	if hasConj(a, b) {
		return a
	}
	// merge InSet into conjunct list
	if a.op == OInSet && b.op == OAnd {
		if r, ok := mergeConj(b, a); ok {
			return r
		}
	}
	if b.op == OInSet && a.op == OAnd {
		if r, ok := mergeConj(a, b); ok {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return canonBool(Term{op: OAnd, a: a, b: b})
}

func hasConj(t, x *Term) bool {
	d := 0
	for t.op == OAnd && d < 12 {
		if t.a == x || t.b == x {
			return true
		}
		if t.b.op == OAnd {
			if t.a.op == OAnd && hasConj(t.a, x) {
				return true
			}
			t = t.b
		} else {
			t = t.a
		}
		d++
	}
	return false
}

func mergeConj(t, x *Term) (*Term, bool) {
	if t.op == OInSet && t.a == x.a {
		return mkInSet(t.a, t.set.and(x.set)), true
	}
	if t.op == OAnd {
		if r, ok := mergeConj(t.a, x); ok {
			return mkAnd(r, t.b), true
		}
		if r, ok := mergeConj(t.b, x); ok {
			return mkAnd(t.a, r), true
		}
	}
	return nil, false
}

func mkOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isTrue() || b.isTrue() {
		return tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() {
		return a
	}
	if a.op == OInSet && b.op == OInSet && a.a == b.a {
		return mkInSet(a.a, a.set.or(b.set))
	}
	if mkNotPeek(a) == b || mkNotPeek(b) == a {
		return tTrue
	}
	// (c & x) | (!c & x) = x ; (c & x) | (c & y) = c & (x|y) ; x | (!x & y) = x | y
	if a.op == OAnd && b.op == OAnd {
		as, bs := [2][2]*Term{{a.a, a.b}, {a.b, a.a}}, [2][2]*Term{{b.a, b.b}, {b.b, b.a}}
		for _, p := range as {
			for _, q := range bs {
				if p[0] == q[0] {
					return mkAnd(p[0], mkOr(p[1], q[1]))
				}
			}
		}
		_ = bs
	}
	for i := 0; i < 2; i++ {
		x, y := a, b
		if i == 1 {
			x, y = b, a
		}
		if y.op == OAnd {
			if y.a == x || y.b == x {
				return x
			}
			if nx := mkNotPeek(x); nx != nil {
				if y.a == nx {
					return mkOr(x, y.b)
				}
				if y.b == nx {
					return mkOr(x, y.a)
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return canonBool(Term{op: OOr, a: a, b: b})
}

// mkNotPeek returns the negation when it is cheap.
func mkNotPeek(t *Term) *Term {
	switch t.op {
	case ONot:
		return t.a
	default:
		return mkNot(t)
	}
}

func mkIte(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return mkOr(c, b)
		}
		if a.isFalse() {
			return mkAnd(mkNot(c), b)
		}
		if b.isTrue() {
			return mkOr(mkNot(c), a)
		}
		if b.isFalse() {
			return mkAnd(c, a)
		}
		return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b))
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	return intern(Term{op: OIte, w: a.w, a: c, b: a, c: b})
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return mkNot(b)
		}
		if b.isFalse() {
			return mkNot(a)
		}
		return mkOr(mkAnd(a, b), mkAnd(mkNot(a), mkNot(b)))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return tFalse
			}
			return mkEq(a.a, mkConst(a.a.w, b.k))
		case OIte:
			if iteDepth(a, 64) {
				return mkIte(a.a, mkEq(a.b, b), mkEq(a.c, b))
			}
		case OAdd:
			if a.b.isConst() {
				return mkEq(a.a, mkConst(a.w, b.k-a.b.k))
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return mkEq(a.a, b.a)
	}
	if a.op == OAdd && b.op == OAdd && a.b.isConst() && b.b.isConst() && a.a == b.a {
		return mkBool(a.b.k == b.b.k)
	}
	if a.op == OAdd && a.b.isConst() && a.a == b {
		return mkBool(a.b.k == 0)
	}
	if b.op == OAdd && b.b.isConst() && b.a == a {
		return mkBool(b.b.k == 0)
	}
	if a.op == OIte && iteDepth(a, 16) && b.op != OIte {
		return mkIte(a.a, mkEq(a.b, b), mkEq(a.c, b))
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return canonBool(Term{op: OEq, a: a, b: b})
}

// iteDepth: is t an ite tree with at most n inner nodes?
func iteDepth(t *Term, n int) bool {
	cnt := 0
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t.op != OIte {
			return true
		}
		cnt++
		if cnt > n {
			return false
		}
		return f(t.b) && f(t.c)
	}
	return f(t)
}

func mkCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return mkBool(evalOp(op, a.w, a.k, b.k, 0, a, nil) != 0)
	}
	if a == b {
		return mkBool(op == OUle || op == OSle)
	}
	if a.op == OIte && b.isConst() && iteDepth(a, 64) {
		return mkIte(a.a, mkCmp(op, a.b, b), mkCmp(op, a.c, b))
	}
	if b.op == OIte && a.isConst() && iteDepth(b, 64) {
		return mkIte(b.a, mkCmp(op, a, b.b), mkCmp(op, a, b.c))
	}
	return canonBool(Term{op: op, a: a, b: b})
}

func mkBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return mkConst(a.w, evalOp(op, a.w, a.k, b.k, 0, a, nil))
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if b.isConst() && a.op == OAdd && a.b.isConst() {
			return mkBin(OAdd, a.a, mkConst(a.w, a.b.k+b.k))
		}
	case OSub:
		if b.isConst() {
			return mkBin(OAdd, a, mkConst(a.w, -b.k))
		}
		if a == b {
			return mkConst(a.w, 0)
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 1 {
			return a
		}
		if b.isConst() && b.k == 0 {
			return b
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.k == 0 {
			return a
		}
	}
	if a.op == OIte && b.isConst() && iteDepth(a, 64) {
		return mkIte(a.a, mkBin(op, a.b, b), mkBin(op, a.c, b))
	}
	if b.op == OIte && a.isConst() && iteDepth(b, 64) {
		return mkIte(b.a, mkBin(op, a, b.b), mkBin(op, a, b.c))
	}
	return intern(Term{op: op, w: a.w, a: a, b: b})
}

func mkUn(op Op, a *Term) *Term {
	if a.isConst() {
		return mkConst(a.w, evalOp(op, a.w, a.k, 0, 0, a, nil))
	}
	return intern(Term{op: op, w: a.w, a: a})
}

func mkResize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if w > a.w && signed {
			return mkConst(w, uint64(sext(a.k, a.w)))
		}
		return mkConst(w, a.k)
	}
	if a.op == OIte && iteDepth(a, 64) {
		return mkIte(a.a, mkResize(a.b, w, signed), mkResize(a.c, w, signed))
	}
	if w > a.w {
		if signed {
			return intern(Term{op: OSext, w: w, a: a})
		}
		if a.op == OZext {
			return intern(Term{op: OZext, w: w, a: a.a})
		}
		return intern(Term{op: OZext, w: w, a: a})
	}
	if a.op == OZext || a.op == OSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return mkResize(a.a, w, false)
		}
		return mkResize(a.a, w, a.op == OSext)
	}
	return intern(Term{op: OTrunc, w: w, a: a})
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(op Op, w uint8, a, b, c uint64, at *Term, t *Term) uint64 {
	aw := w
	if at != nil {
		aw = at.w
	}
	m := mask(w)
	switch op {
	case ONot:
		return b2u(a == 0)
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return (a / b) & m
	case OUrem:
		if b == 0 {
			return a
		}
		return (a % b) & m
	case OSdiv:
		if b == 0 {
			return 0
		}
		return uint64(sext(a, w)/sext(b, w)) & m
	case OSrem:
		if b == 0 {
			return a
		}
		return uint64(sext(a, w)%sext(b, w)) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return a ^ b
	case OBnot:
		return ^a & m
	case ONeg:
		return (-a) & m
	case OZext:
		return a
	case OSext:
		return uint64(sext(a, aw)) & m
	case OTrunc:
		return a & m
	}
	panic("evalOp")
}

func evalTerm(t *Term, env func(int32) uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return env(int32(t.k)) & mask(t.w)
	case OInSet:
		v := evalTerm(t.a, env)
		return b2u(t.set.has(v))
	case OIte:
		if evalTerm(t.a, env) != 0 {
			return evalTerm(t.b, env)
		}
		return evalTerm(t.c, env)
	case OAnd:
		if evalTerm(t.a, env) == 0 {
			return 0
		}
		return evalTerm(t.b, env)
	case OOr:
		if evalTerm(t.a, env) != 0 {
			return 1
		}
		return evalTerm(t.b, env)
	}
	var a, b uint64
	a = evalTerm(t.a, env)
	if t.b != nil {
		b = evalTerm(t.b, env)
	}
	return evalOp(t.op, t.w, a, b, 0, t.a, t)
}

// SMT-LIB printing: every distinct non-leaf subterm becomes a define-fun.
type smtPrinter struct {
	sb   *strings.Builder
	done map[*Term]string
	vars map[int32]bool
	pfx  string
}

func (p *smtPrinter) sort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (p *smtPrinter) ref(t *Term) string {
	if s, ok := p.done[t]; ok {
		return s
	}
	var s string
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				s = "true"
			} else {
				s = "false"
			}
		} else {
			s = fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
		}
		p.done[t] = s
		return s
	case OVar:
		vi := varInfo(int32(t.k))
		if !p.vars[int32(t.k)] {
			p.vars[int32(t.k)] = true
			fmt.Fprintf(p.sb, "(declare-const %s %s)\n", vi.name, p.sort(vi.w))
		}
		p.done[t] = vi.name
		return vi.name
	case OInSet:
		v := p.ref(t.a)
		s = setExpr(v, t.a.w, t.set)
	case OZext:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case OSext:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case OTrunc:
		s = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, p.ref(t.a))
	default:
		s = "(" + opNames[t.op]
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				s += " " + p.ref(x)
			}
		}
		s += ")"
	}
	nm := fmt.Sprintf("%s%d", p.pfx, t.id)
	fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", nm, p.sort(t.w), s)
	p.done[t] = nm
	return nm
}

func setExpr(v string, w uint8, set Set) string {
	var parts []string
	n := uint64(1) << w
	for i := uint64(0); i < n; {
		if !set.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && set.has(j+1) {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s (_ bv%d %d))", v, i, w))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d)))", i, w, v, v, j, w))
		}
		i = j + 1
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k != 0)
		}
		return fmt.Sprint(t.sval())
	case OVar:
		return varInfo(int32(t.k)).name
	case OInSet:
		return fmt.Sprintf("(%s in %s)", t.a, setStr(t.set))
	}
	s := fmt.Sprintf("(op%d", t.op)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}

func setStr(s Set) string {
	var out []string
	for i := uint64(0); i < 256; i++ {
		if s.has(i) {
			j := i
			for j+1 < 256 && s.has(j+1) {
				j++
			}
			out = append(out, fmt.Sprintf("%d-%d", i, j))
			i = j
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}
