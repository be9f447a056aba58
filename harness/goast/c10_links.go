package goast

import (
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/zzv"
)

// zzConsistent checks every link of the pool against its counterpart.
func zzConsistent(p *zzPool) {
	for _, n := range p.ns {
		zzv.Assert(n.Next() == nil || n.Next().Prev() == n, "a node's successor has it as its predecessor")
		zzv.Assert(n.Prev() == nil || n.Prev().Next() == n, "a node's predecessor has it as its successor")
		zzv.Assert(n.Next() != n && n.Prev() != n, "no node is its own neighbour")
	}
}

func zzAcyclic(p *zzPool) {
	for _, n := range p.ns {
		k := 0
		for x := n; x != nil; x = x.Next() {
			k++
			zzv.Assert(k <= len(p.ns), "no cycle appears")
		}
	}
}

// zzOp applies the i-th operation; only 2 and 3 may close a chain, and only one
// with both nodes in it.
const zzNOps = 11

func zzOp(op int, n, a, b *Node) {
	switch op {
	case 0:
		n.InsertPrev(a)
	case 1:
		n.InsertNext(a)
	case 2:
		n.ReplacePrev(a)
	case 3:
		n.ReplaceNext(a)
	case 4:
		n.TakePrev()
	case 5:
		n.TakeNext()
	case 6:
		n.RemovePrev()
	case 7:
		n.RemoveNext()
	case 8:
		n.Isolate()
	case 9:
		n.CombineNext(kind.Raw, a, b)
	case 10:
		n.CombinePrev(kind.Raw, a, b)
	}
}

// zzAny is an arbitrary node of the pool, or nil; which one stays symbolic.
func zzAny(p *zzPool, orNil bool) *Node {
	k := len(p.ns)
	if orNil {
		k++
	}
	all := make([]*Node, k)
	copy(all, p.ns)
	i := zzv.Choice(k)
	return all[i]
}

// one operation on any arrangement, closed chains included
func ZC10_step() {
	op := zzv.Pick(zzNOps)
	p := zzNewPoolOf(zzv.Bound(4, 5), true, op < 9)
	n := zzAny(p, true)
	a := zzAny(p, true)
	var b *Node
	if op >= 9 {
		b = zzAny(p, true)
	}
	zzOp(op, n, a, b)
	zzConsistent(p)
	zzv.Reach("checked")
}

// operations that only take nodes apart or insert them never close a chain
func ZC10_acyclic() {
	op := []int{0, 1, 4, 5, 6, 7, 8, 9, 10}[zzv.Pick(9)]
	p := zzNewPoolOf(zzv.Bound(4, 5), false, op < 9)
	n := zzAny(p, false)
	a := zzAny(p, true)
	var b *Node
	if op >= 9 {
		b = zzAny(p, true)
	}
	zzOp(op, n, a, b)
	zzConsistent(p)
	zzAcyclic(p)
	zzv.Reach("checked")
}

// replacing between two chains never closes one
func ZC10_replace() {
	p := zzNewPool(zzv.Bound(4, 5), false)
	i, j := zzv.Pick(len(p.ns)), zzv.Pick(len(p.ns))
	zzv.Assume(!p.same(i, j))
	zzOp(2+zzv.Pick(2), p.ns[i], p.ns[j], nil)
	zzConsistent(p)
	zzAcyclic(p)
	zzv.Reach("checked")
}

// sequences of operations
func ZC10_sequence() {
	p := zzNewPool(3, false)
	for s := 0; s < zzv.Bound(2, 3); s++ {
		zzOp(zzv.Pick(9), zzAny(p, false), zzAny(p, true), nil)
		zzConsistent(p)
	}
	zzv.Reach("checked")
}

// chains built from texts are linked both ways
func ZC10_newnodes() {
	texts := make([]string, 1+zzv.Pick(zzv.Bound(5, 9)))
	for i := range texts {
		texts[i] = zzv.Str(1)
	}
	h := NewNodes(zzv.Int(), texts...)
	zzv.Assert(h.Prev() == nil, "the first node has no predecessor")
	ns := zzChain(h, len(texts))
	for i, n := range ns {
		zzv.Assert(i == 0 || n.Prev() == ns[i-1], "a new chain is linked both ways")
	}
	zzv.Reach("checked")
}

// parsed chains are linked both ways
func zzLinked(src string) {
	zzv.ObsStr("src", src)
	max := 2*len(src) + 8
	for _, sc := range zzMust(ParseScope(0, []byte(src))) {
		ns := zzChain(sc.Node(), max)
		for i, n := range ns {
			if i == 0 {
				zzv.Assert(n.Prev() == nil, "a scope's first node has no predecessor")
			} else {
				zzv.Assert(n.Prev() == ns[i-1], "a parsed chain is linked both ways")
			}
		}
	}
	zzv.Reach("checked")
}

func ZC10_parsed_raw()    { zzLinked(zzSrcRaw(len(zzCtx), zzv.Bound(2, 4))) }
func ZC10_parsed_lex()    { zzLinked(zzSrcLex(len(zzCtx), zzv.Bound(2, 4))) }
func ZC10_parsed_pieces() { zzLinked(zzSrcPieces(0, len(zzOpenings), zzv.Bound(2, 3), len(zzPieces))) }
func ZC10_parsed_decl()   { zzLinked(zzSrcDecl() + "\n") }
