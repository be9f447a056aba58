package goast

import (
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/zzv"
)

// zzCombine combines arbitrary nodes of the pool, nil and the receiver included.
func zzCombine(p *zzPool, nargs int, nilRecv bool) {
	k := len(p.ns)
	back := zzv.Yes()
	n := -1
	if !nilRecv {
		n = zzv.Pick(k)
	}
	args := make([]int, nargs)
	nodes := make([]*Node, nargs)
	for i := range args {
		args[i] = zzv.Pick(k+1) - 1
		nodes[i] = p.node(args[i])
	}
	kd := zzPoolKinds[zzv.Choice(len(zzPoolKinds))]
	if zzv.Thorough() && zzv.Yes() {
		kd = kind.Kind{zzv.Str(1), zzv.Str(1)}
	}
	zzv.ObsBool("backward", back)
	zzv.ObsInt("receiver", n)

	var got *Node
	if back {
		got = p.node(n).CombinePrev(kd, nodes...)
	} else {
		got = p.node(n).CombineNext(kd, nodes...)
	}
	rest := args
	for n < 0 && len(rest) > 0 {
		n, rest = rest[0], rest[1:]
	}
	zzv.Assert(got == p.node(n), "the receiver, or the first argument in its place, is returned")
	if n >= 0 {
		text := p.text[n]
		for _, a := range rest {
			if a < 0 || a == n {
				continue
			}
			if back {
				text = p.text[a] + text
			} else {
				text += p.text[a]
			}
			p.cut(p.px(a))
			p.cut(a)
		}
		p.text[n] = text
		p.kind[n] = kd
	}
	p.content("combining joins the texts in order and sets the kind")
	p.links("combining isolates the combined nodes and leaves the others alone")
	zzv.Reach("checked")
}

func ZC12_two()   { zzCombine(zzNewPoolOf(zzv.Bound(6, 7), false, false), 2, false) }
func ZC12_three() { zzCombine(zzNewPoolOf(zzv.Bound(4, 5), false, false), 3, false) }
func ZC12_few()   { zzCombine(zzNewPoolOf(zzv.Bound(5, 6), true, false), zzv.Pick(2), false) }
func ZC12_nil()   { zzCombine(zzNewPoolOf(zzv.Bound(4, 5), false, false), zzv.Pick(4), true) }

// texts of any length, the usual call: the nodes that follow (precede)
func ZC12_texts() {
	k := 1 + zzv.Pick(zzv.Bound(4, 6))
	texts := make([]string, k)
	for i := range texts {
		texts[i] = zzv.Str(zzv.Pick(3))
	}
	h := NewNodes(zzv.Int(), append(append([]string{"<"}, texts...), ">", "after")...)
	ns := zzChain(h, k+3)
	all := ""
	for _, t := range texts {
		all += t
	}
	if zzv.Yes() {
		got := ns[0].CombineNext(kind.Raw, ns[1:k+2]...)
		zzv.Assert(got == ns[0] && got.Text() == "<"+all+">", "a forward combine joins in chain order")
		zzv.Assert(got.Next() == nil && ns[k+2].Prev() == nil, "what follows is disconnected")
	} else {
		var rev []*Node
		for i := k; i >= 0; i-- {
			rev = append(rev, ns[i])
		}
		got := ns[k+1].CombinePrev(kind.Raw, rev...)
		zzv.Assert(got == ns[k+1] && got.Text() == "<"+all+">", "a backward combine joins in chain order")
		zzv.Assert(got.Next() == ns[k+2] && got.Prev() == nil, "what follows stays")
	}
	for i := 1; i <= k; i++ {
		zzv.Assert(ns[i].Prev() == nil && ns[i].Next() == nil && ns[i].Text() == texts[i-1], "combined nodes are isolated and keep their text")
	}
	zzv.Reach("checked")
}

// many nodes
func ZC12_many() {
	k := []int{40, 300, 1025, 5000}[zzv.Pick(4)]
	texts := make([]string, k)
	want := ""
	x := zzv.Str(1)
	for i := range texts {
		texts[i] = "ab"
		if i == k/3 {
			texts[i] = x
		}
		want += texts[i]
	}
	ns := zzChain(NewNodes(0, texts...), k)
	zzv.Assert(ns[0].CombineNext(kind.Raw, ns...).Text() == want, "a long forward combine joins everything")
	zzv.Reach("checked")
}

// texts of several lengths, empty ones too, and every kind; each call once more
func ZC12_lengths() {
	p := zzNewPool(3, false)
	zzCombine(p, 1+zzv.Pick(2), false)
}
