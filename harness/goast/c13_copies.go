package goast

import (
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzv"
)

// zzEqualChains compares two chains node by node and checks they share none.
func zzEqualChains(a, b *Node, max int, label string) {
	as, bs := zzChain(a, max), zzChain(b, max)
	zzv.Assert(len(as) == len(bs), label+": as many nodes")
	for i := range as {
		x, y := as[i], bs[i]
		zzv.Assert(x.Text() == y.Text() && x.Kind() == y.Kind() && x.Line() == y.Line(), label+": equal nodes in order")
		for j := range bs {
			zzv.Assert(x != bs[j], label+": no node in common")
		}
		if i > 0 {
			zzv.Assert(y.Prev() == bs[i-1], label+": linked both ways")
		}
	}
}

// copying from any node of any chain, then editing either side
func ZC13_chain() {
	p := zzNewPool(zzv.Bound(6, 8), false)
	i := zzv.Pick(len(p.ns))
	n := p.ns[i]
	c := n.Copy(true)
	label := "a deep copy"
	zzv.Assert(c != nil && c != n, label+" is a new node")
	// the whole chain is copied, in both directions
	first := i
	for p.px(first) >= 0 {
		first = p.px(first)
	}
	zzEqualChains(p.ns[first], c.First(), len(p.ns), label)
	for x, y := n, c; x != nil || y != nil; x, y = x.Next(), y.Next() {
		zzv.Assert(x != nil && y != nil && x.Text() == y.Text(), label+" stands at the same place")
	}
	for x, y := n, c; x != nil || y != nil; x, y = x.Prev(), y.Prev() {
		zzv.Assert(x != nil && y != nil && x.Text() == y.Text(), label+" stands at the same place backwards")
	}
	p.links("copying changes no links")
	p.content("copying changes no content")
	zzEdit(c)
	p.links("editing a copy does not show in the original")
	p.content("editing a copy does not show in the original")
	zzv.Reach("checked")
}

// zzEdit makes one arbitrary edit at n.
func zzEdit(n *Node) {
	other := NewNode(1, "other")
	switch zzv.Pick(8) {
	case 0:
		n.SetText("changed")
		n.SetKind(kind.Comment)
	case 1:
		n.Isolate()
	case 2:
		n.InsertNext(other)
	case 3:
		n.ReplacePrev(other)
	case 4:
		n.RemoveNext()
	case 5:
		n.TakePrev()
	case 6:
		n.CombineNext(kind.Raw, n.Next(), n.Next().Next())
	case 7:
		for x := n.First(); x != nil; x = x.Next() {
			x.SetText("")
		}
	}
}

// editing the original does not show in the copy
func ZC13_original() {
	p := zzNewPool(zzv.Bound(5, 7), false)
	i := zzv.Pick(len(p.ns))
	c := p.ns[i].Copy(true)
	cs := zzChain(c.First(), len(p.ns))
	var texts []string
	for _, x := range cs {
		texts = append(texts, x.Text())
	}
	zzEdit(p.ns[i])
	now := zzChain(c.First(), len(p.ns))
	zzv.Assert(len(now) == len(cs), "editing the original keeps the copy's nodes")
	for j := range cs {
		zzv.Assert(now[j] == cs[j] && now[j].Text() == texts[j], "editing the original does not show in the copy")
	}
	zzv.Reach("checked")
}

// copying one node
func ZC13_single() {
	p := zzNewPool(zzv.Bound(5, 6), true)
	n := p.ns[zzv.Pick(len(p.ns))]
	var c *Node
	if zzv.Yes() {
		c = n.Copy()
	} else {
		c = n.Copy(false)
	}
	zzv.Assert(c != nil && c != n && c.Prev() == nil && c.Next() == nil, "a single copy is a detached node")
	zzv.Assert(c.Text() == n.Text() && c.Kind() == n.Kind() && c.Line() == n.Line(), "a single copy is equal")
	for _, x := range p.ns {
		zzv.Assert(x != c, "a single copy is new")
	}
	c.SetText("changed")
	c.SetKind(kind.Comment)
	p.links("copying changes no links")
	p.content("copying changes no content")
	zzv.Reach("checked")
}

func zzScopeCopies(src string) {
	zzv.ObsStr("src", src)
	max := 2*len(src) + 8
	scs := zzMust(ParseScope(zzv.Int(), []byte(src)))
	a, err := NewAst(scs...)
	var cp Ast
	if err == nil {
		cp = a.Copy()
		zzv.Assert(len(cp.Scope()) == len(scs), "a copied tree has as many scopes")
	}
	for i, sc := range scs {
		c := sc.Copy()
		zzv.Assert(c != sc && c.Kind() == sc.Kind() && c.Line() == sc.Line(), "a copied scope has the same kind and line")
		zzEqualChains(sc.Node(), c.Node(), max, "a copied scope")
		zzv.Assert(c.Node().Prev() == nil, "a copied scope's first node has no predecessor")
		if cp != nil {
			s := cp.Scope()[i]
			zzv.Assert(s != sc && s.Kind() == sc.Kind() && s.Line() == sc.Line(), "a copied tree has the same scopes")
			zzEqualChains(sc.Node(), s.Node(), max, "a copied tree")
		}
	}
	if cp != nil {
		before := zzScopesText(scs, max)
		for _, s := range cp.Scope() {
			s.Node().SetText("changed")
			s.Node().RemoveNext()
		}
		cp.AppendScope(NewScope(0, "func", NewNode(0, "x")))
		zzv.Assert(zzScopesText(scs, max) == before && len(a.Scope()) == len(scs), "editing a copied tree does not show in the original")
		cp2 := a.Copy()
		for _, s := range scs {
			s.Node().SetText("changed")
			s.Node().RemoveNext()
		}
		zzv.Assert(zzScopesText(cp2.Scope(), max) == before, "editing the original does not show in a copied tree")
	}
	zzv.Reach("checked")
}

func ZC13_scope_raw() {
	zzScopeCopies("package p\n" + zzSrcRaw(zzv.Bound(3, len(zzCtx)), zzv.Bound(2, 3)))
}
func ZC13_scope_pieces() {
	zzScopeCopies(zzOpt("package p\n") + zzSrcPieces(0, len(zzOpenings), zzv.Bound(2, 3), zzv.Bound(14, len(zzPieces))))
}
func ZC13_scope_decl() {
	zzScopeCopies("package p\n\n// c\n" + []string{"func (r *R) f(a func(b T) U) (c, d E) {\n}", "type T struct {\n\ta, b int `c`\n}", "import (\n\t\"a\"\n)", "var x = `\n`"}[zzv.Pick(4)] + zzv.StrOf(1, "\n a\"(") + "\n")
}

// long chains
func ZC13_long() {
	k := []int{200, 1025, 5000, 20000}[zzv.Pick(4)]
	texts := make([]string, k)
	for i := range texts {
		texts[i] = "t"
	}
	texts[k-1] = zzv.Str(1)
	h := NewNodes(0, texts...)
	at := h
	if zzv.Yes() {
		at = h.Last()
	}
	c := at.Copy(true).First()
	n := 0
	for x, y := h, c; x != nil || y != nil; x, y = x.Next(), y.Next() {
		zzv.Assert(x != nil && y != nil && x != y && x.Text() == y.Text() && x.Line() == y.Line(), "a long copy is equal")
		n++
		zzv.Assert(n <= k, "a long copy is as long")
	}
	zzv.Reach("checked")
}

// scopes and trees over any node of any chain
func ZC13_scope_any() {
	p := zzNewPool(zzv.Bound(5, 7), false)
	i := zzv.Pick(len(p.ns))
	line := zzv.Int()
	k := []scope.Kind{scope.Func, scope.Comment, scope.Unknown, scope.Package, "x"}[zzv.Choice(5)]
	sc := NewScope(line, k, p.ns[i])
	c := sc.Copy()
	zzv.Assert(c != sc && c.Kind() == sc.Kind() && c.Line() == sc.Line() && c.Node() != nil && c.Node() != p.ns[i], "a copied scope has the same kind and line")
	zzEqualChains(p.ns[i].First(), c.Node().First(), len(p.ns), "a copied scope")
	for x, y := p.ns[i], c.Node(); x != nil || y != nil; x, y = x.Next(), y.Next() {
		zzv.Assert(x != nil && y != nil && x.Text() == y.Text(), "a copied scope stands at the same place")
	}
	p.links("copying changes no links")
	p.content("copying changes no content")
	zzEdit(c.Node())
	p.links("editing a copy does not show in the original")
	p.content("editing a copy does not show in the original")
	zzv.Reach("checked")
}

// trees of many scopes of every sort
func ZC13_scope_many() {
	src := "package p\n\n"
	at := zzv.Pick(zzNDecls)
	for i := 0; i < zzv.Bound(10, 40); i++ {
		src += zzDecl((at+i*3)%zzNDecls) + "\n"
	}
	zzScopeCopies(src)
}

// trees put together by hand from scopes of any kind
func ZC13_tree_any() {
	scs := zzMust(ParseScope(0, []byte("package p\n")))
	k := zzv.Bound(3, 5)
	var same Scope
	for i := 0; i < k; i++ {
		sk := []scope.Kind{scope.Func, scope.Comment, scope.Unknown, scope.Package, scope.Import, "x", ""}[zzv.Pick(7)]
		sc := NewScope(zzv.Int(), sk, NewNodes(zzv.Int(), "a", zzv.Str(1), "c"))
		if i == 1 {
			same = sc
		}
		scs = append(scs, sc)
	}
	if zzv.Yes() {
		scs = append(scs, same) // the same scope once more
	}
	a, err := NewAst(scs...)
	zzv.Assert(err == nil, "the tree has a package clause")
	c := a.Copy()
	zzv.Assert(c != a && len(c.Scope()) == len(scs) && len(a.Scope()) == len(scs), "a copied tree has as many scopes")
	n1, e1 := a.Package()
	n2, e2 := c.Package()
	zzv.Assert(n1 == n2 && (e1 == nil) == (e2 == nil) && c.File() == a.File() && c.Dir() == a.Dir() && c.Filename() == a.Filename() && c.Ext() == a.Ext(), "a copied tree has the same names")
	for i, s := range c.Scope() {
		zzv.Assert(s != scs[i] && s.Kind() == scs[i].Kind() && s.Line() == scs[i].Line(), "a copied tree has the same scopes")
		zzEqualChains(scs[i].Node(), s.Node(), 8, "a copied tree")
	}
	zzv.Reach("checked")
}
