package goast

import "github.com/yanun0323/goast/zzv"

// zzExpect applies the documented effect of an operation to the model and
// returns the documented results as indices.
func zzExpect(p *zzPool, op, n, a int) (r1, r2 int) {
	r1, r2 = -1, -1
	switch op {
	case 0: // InsertPrev
		if n == a || p.px(n) == a {
			return
		}
		ap, an, np := p.px(a), p.next(a), p.px(n)
		p.cut(ap)
		p.cut(a)
		p.cut(np)
		p.join(np, a)
		p.join(a, n)
		return ap, an
	case 1: // InsertNext
		if n == a || p.next(n) == a {
			return
		}
		ap, an, nn := p.px(a), p.next(a), p.next(n)
		p.cut(ap)
		p.cut(a)
		p.cut(n)
		p.join(n, a)
		p.join(a, nn)
		return ap, an
	case 2: // ReplacePrev
		if n == a || p.px(n) == a {
			return
		}
		np, an := p.px(n), p.next(a)
		p.cut(np)
		p.cut(a)
		p.join(a, n)
		return np, an
	case 3: // ReplaceNext
		if n == a || p.next(n) == a {
			return
		}
		ap, nn := p.px(a), p.next(n)
		p.cut(ap)
		p.cut(n)
		p.join(n, a)
		return ap, nn
	case 4: // TakePrev
		r := p.px(n)
		rp := p.px(r)
		p.cut(r)
		p.cut(rp)
		p.join(rp, n)
		return r, -1
	case 5: // TakeNext
		r := p.next(n)
		rn := p.next(r)
		p.cut(n)
		p.cut(r)
		p.join(n, rn)
		return r, -1
	case 6: // RemovePrev
		r := p.px(n)
		p.cut(r)
		return r, -1
	case 7: // RemoveNext
		r := p.next(n)
		p.cut(n)
		return r, -1
	case 8: // Isolate
		p.cut(p.px(n))
		p.cut(n)
	}
	return
}

func zzApply(op int, n, a *Node) (r1, r2 *Node) {
	switch op {
	case 0:
		return n.InsertPrev(a)
	case 1:
		return n.InsertNext(a)
	case 2:
		return n.ReplacePrev(a)
	case 3:
		return n.ReplaceNext(a)
	case 4:
		return n.TakePrev(), nil
	case 5:
		return n.TakeNext(), nil
	case 6:
		return n.RemovePrev(), nil
	case 7:
		return n.RemoveNext(), nil
	case 8:
		n.Isolate()
	}
	return nil, nil
}

var zzOpNames = []string{"InsertPrev", "InsertNext", "ReplacePrev", "ReplaceNext", "TakePrev", "TakeNext", "RemovePrev", "RemoveNext", "Isolate"}

func zzStep(p *zzPool, op int) {
	n, a := zzv.Pick(len(p.ns)), 0
	if op < 4 {
		a = zzv.Pick(len(p.ns))
	}
	zzv.ObsStr("op", zzOpNames[op])
	zzv.ObsInt("at", n)
	zzv.ObsInt("incoming", a)
	r1, r2 := zzApply(op, p.ns[n], p.ns[a])
	w1, w2 := zzExpect(p, op, n, a)
	zzv.Assert(r1 == p.node(w1), zzOpNames[op]+" returns the documented first node")
	zzv.Assert(r2 == p.node(w2), zzOpNames[op]+" returns the documented second node")
	p.links(zzOpNames[op] + " changes exactly the documented links")
	p.content(zzOpNames[op] + " changes no node's content")
}

// one operation on every arrangement of chains
func ZC11_step() {
	p := zzNewPool(zzv.Bound(7, 9), false)
	zzStep(p, zzv.Pick(9))
	zzv.Reach("checked")
}

// one operation where closed chains occur
func ZC11_rings() {
	p := zzNewPool(zzv.Bound(5, 7), true)
	zzv.Assume(p.cyclic)
	zzStep(p, zzv.Pick(9))
	zzv.Reach("checked")
}

// sequences of operations
func ZC11_sequence() {
	p := zzNewPool(zzv.Bound(4, 4), false)
	for i := 0; i < zzv.Bound(2, 3); i++ {
		zzStep(p, zzv.Pick(9))
	}
	zzv.Reach("checked")
}

// operations in a long chain
func ZC11_long() {
	k := []int{30, 200, 1025, 5000}[zzv.Pick(zzv.Bound(3, 4))]
	texts := make([]string, k)
	for i := range texts {
		texts[i] = "t"
	}
	texts[k/2] = zzv.Str(1)
	p := &zzPool{}
	i := 0
	for x := NewNodes(0, texts...); x != nil; x = x.Next() {
		p.ns = append(p.ns, x)
		p.text = append(p.text, x.Text())
		p.kind = append(p.kind, x.Kind())
		p.line = append(p.line, x.Line())
		i++
		p.nx = append(p.nx, i)
	}
	p.nx[k-1] = -1
	op := zzv.Pick(9)
	at := []int{0, 1, k / 2, k - 2, k - 1}
	n, a := at[zzv.Pick(5)], at[zzv.Pick(5)]
	r1, r2 := zzApply(op, p.ns[n], p.ns[a])
	w1, w2 := zzExpect(p, op, n, a)
	zzv.Assert(r1 == p.node(w1) && r2 == p.node(w2), zzOpNames[op]+" returns the documented nodes")
	p.links(zzOpNames[op] + " changes exactly the documented links")
	p.content(zzOpNames[op] + " changes no node's content")
	zzv.Reach("checked")
}
