package goast

import (
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/zzv"
)

// iterating in both directions, stopping anywhere
func ZC14_iterate() {
	p := zzNewPool(zzv.Bound(8, 10), false)
	k := len(p.ns)
	i := zzv.Pick(k)
	back := zzv.Yes()
	stop := zzv.Int() // the visit that stops, if any
	var want []int
	for j := i; j >= 0; {
		want = append(want, j)
		if back {
			j = p.px(j)
		} else {
			j = p.next(j)
		}
	}
	var seen []*Node
	visit := func(n *Node) bool {
		seen = append(seen, n)
		zzv.Assert(len(seen) <= k, "no node is visited twice")
		return len(seen) != stop
	}
	var end *Node
	if back {
		end = p.ns[i].IterPrev(visit)
	} else {
		end = p.ns[i].IterNext(visit)
	}
	zzv.Assert(len(seen) >= 1 && len(seen) <= len(want), "every visit is a node of the chain")
	for j := range seen {
		zzv.Assert(seen[j] == p.ns[want[j]], "nodes are visited in order")
		zzv.Assert(j == len(seen)-1 || j+1 != stop, "nothing is visited after the stop")
	}
	if len(seen) == stop {
		zzv.Assert(end == seen[len(seen)-1], "the node it stopped at is returned")
	} else {
		zzv.Assert(len(seen) == len(want) && end == nil, "without a stop every node is visited and nil is returned")
	}
	p.links("iterating changes no links")
	p.content("iterating changes no content")
	zzv.Reach("checked")
}

// the ends of a chain
func ZC14_ends() {
	p := zzNewPool(zzv.Bound(8, 10), false)
	i := zzv.Pick(len(p.ns))
	f, l := i, i
	for p.px(f) >= 0 {
		f = p.px(f)
	}
	for p.next(l) >= 0 {
		l = p.next(l)
	}
	zzv.Assert(p.ns[i].First() == p.ns[f], "First is the start of the chain")
	zzv.Assert(p.ns[i].Last() == p.ns[l], "Last is the end of the chain")
	zzv.Assert(p.ns[i].Next() == p.node(p.next(i)) && p.ns[i].Prev() == p.node(p.px(i)), "the neighbours are the linked ones")
	p.links("looking up the ends changes no links")
	zzv.Reach("checked")
}

// a callback that edits the chain behind or in front of the iteration
func ZC14_edit_while() {
	texts := []string{"a", "b", "c", "d", "e"}
	ns := zzChain(NewNodes(0, texts...), 5)
	at := zzv.Pick(5)
	extra := NewNode(9, "x")
	var seen []*Node
	what := zzv.Pick(3)
	ns[0].IterNext(func(n *Node) bool {
		seen = append(seen, n)
		zzv.Assert(len(seen) <= 6, "the iteration ends")
		if n == ns[at] {
			switch what {
			case 0:
				n.InsertNext(extra)
			case 1:
				n.RemoveNext()
			case 2:
				n.TakeNext()
			}
		}
		return true
	})
	var want []*Node
	want = append(want, ns[:at+1]...)
	switch what {
	case 0:
		want = append(append(want, extra), ns[at+1:]...)
	case 2:
		if at+2 < 5 {
			want = append(want, ns[at+2:]...)
		}
	}
	zzv.Assert(len(seen) == len(want), "the iteration follows the links as they are")
	for i := range want {
		zzv.Assert(seen[i] == want[i], "the iteration follows the links as they are")
	}
	zzv.Reach("checked")
}

// chains built from texts
func ZC14_newnodes() {
	k := zzv.Pick(zzv.Bound(8, 12))
	texts := make([]string, k)
	for i := range texts {
		texts[i] = zzv.Str(zzv.Bound(1, 2))
	}
	line := zzv.Int()
	h := NewNodes(line, texts...)
	zzv.Assert((h == nil) == (k == 0), "no texts make no chain")
	x := h
	var prev *Node
	for i := 0; i < k; i++ {
		zzv.Assert(x != nil && x.Text() == texts[i] && x.Prev() == prev, "the chain holds exactly the texts in order")
		prev = x
		x = x.Next()
	}
	zzv.Assert(x == nil, "the chain holds nothing else")
	zzv.Assert(k == 0 || h.Line() == line, "the chain starts at the given line")
	zzv.Reach("checked")
}

// accessors return what was set
func ZC14_accessors() {
	p := zzNewPool(zzv.Bound(3, 4), false)
	i := zzv.Pick(len(p.ns))
	s := zzv.Str(zzv.Pick(4))
	k := kind.Kind{zzv.Str(zzv.Pick(2)), zzv.Str(zzv.Pick(2))}
	if zzv.Yes() {
		p.ns[i].SetText(s)
		p.text[i] = s
	}
	if zzv.Yes() {
		p.ns[i].SetKind(k)
		p.kind[i] = k
	}
	p.content("accessors return what was set, and only there")
	p.links("setting content changes no links")
	zzv.Reach("checked")
}

// long chains
func ZC14_long() {
	k := []int{300, 1025, 5000, 10001, 66000}[zzv.Pick(5)]
	texts := make([]string, k)
	for i := range texts {
		texts[i] = "t"
	}
	h := NewNodes(0, texts...)
	stop := 1 + zzv.Pick(5)*(k/4)
	n := 0
	end := h.IterNext(func(*Node) bool { n++; return n != stop })
	if stop <= k {
		zzv.Assert(end != nil && n == stop, "a long iteration stops where told")
	} else {
		zzv.Assert(end == nil && n == k, "a long iteration visits everything")
	}
	n = 0
	h.Last().IterPrev(func(*Node) bool { n++; return true })
	zzv.Assert(n == k, "a long backward iteration visits everything")
	zzv.Assert(h.Last().First() == h, "first and last of a long chain")
	zzv.Reach("checked")
}
