package goast

import (
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzformat"
	"github.com/yanun0323/goast/zzimports"
	"github.com/yanun0323/goast/zzos"
	"github.com/yanun0323/goast/zzv"
)

// zzState is everything there is to see of scopes and their nodes.
type zzState struct {
	scs   []Scope
	heads []*Node
	kinds []scope.Kind
	lines []int
	at    []*Node
	nodes []Node
}

func zzStateOf(scs []Scope, max int) *zzState {
	s := &zzState{}
	for _, sc := range scs {
		s.scs = append(s.scs, sc)
		s.heads = append(s.heads, sc.Node())
		s.kinds = append(s.kinds, sc.Kind())
		s.lines = append(s.lines, sc.Line())
		for _, n := range zzChain(sc.Node(), max) {
			s.at = append(s.at, n)
			s.nodes = append(s.nodes, *n)
		}
	}
	return s
}

// same compares the state with what there is now.
func (s *zzState) same(scs []Scope) {
	zzv.Assert(len(scs) == len(s.scs), "the scopes are the same")
	for i := range s.scs {
		zzv.Assert(scs[i] == s.scs[i] && scs[i].Node() == s.heads[i], "the scopes are the same")
		zzv.Assert(scs[i].Kind() == s.kinds[i] && scs[i].Line() == s.lines[i], "a scope keeps its kind and line")
	}
	for i, n := range s.at {
		o := s.nodes[i]
		zzv.Assert(n.Text() == o.text, "a node keeps its text")
		zzv.Assert(n.Kind() == o.kind && n.Line() == o.line, "a node keeps its kind and line")
		zzv.Assert(n.Next() == o.next && n.Prev() == o.prev, "a node keeps its neighbours")
	}
}

// zzAsk asks a scope everything.
func zzAsk(sc Scope, max int) (r []string) {
	ask := func(s string, ok bool) {
		r = append(r, s)
		if ok {
			r = append(r, "found")
		}
	}
	ask(sc.GetInterfaceName())
	ask(sc.GetStructName())
	ask(sc.GetTypeName())
	ask(sc.GetMethodReceiver())
	ask(sc.GetMethodName())
	ask(sc.GetFuncName())
	r = append(r, string(sc.Kind()), sc.Kind().String(), sc.Kind().ToKind().String(), sc.Description())
	cp := sc.Copy()
	r = append(r, cp.Description(), zzText(zzChain(cp.Node(), max)))
	return append(r, zzAskNode(sc.Node(), max)...)
}

// zzAskNode asks a node everything.
func zzAskNode(n *Node, max int) (r []string) {
	for _, x := range []*Node{n, n.Next(), n.Last()} {
		k := x.Kind()
		c, _ := k.GetClose()
		r = append(r, k.String(), k.PointerString(), c.String(), x.Text(), x.Description(), x.Copy().Text(), x.First().Text(), x.Last().Text())
	}
	r = append(r, zzText(zzChain(n.Copy(true), max)))
	i := 0
	last := n.IterNext(func(x *Node) bool { i++; return x.Kind() != kind.Comma && i < max })
	r = append(r, last.Text())
	i = 0
	last = last.IterPrev(func(x *Node) bool { i++; return x.Line() == n.Line() && i < max })
	return append(r, last.Text())
}

func zzSameAnswers(a, b []string) {
	zzv.Assert(len(a) == len(b), "asking again gives the same answers")
	for i := 0; i < len(a) && i < len(b); i++ {
		zzv.Assert(a[i] == b[i], "asking again gives the same answers")
	}
}

// zzLooking looks at everything there is in a text's scopes.
func zzLooking(src string, trees bool) {
	zzv.ObsStr("src", src)
	max := 2*len(src) + 8
	zzos.Reset()
	zzformat.Hook, zzimports.Hook, zzformat.Seen = nil, nil, nil
	scs := zzMust(ParseScope(0, []byte(src)))
	given := append([]Scope{}, scs...)
	was := zzStateOf(given, max)
	for _, sc := range scs {
		first := zzAsk(sc, max)
		zzSameAnswers(first, zzAsk(sc, max))
	}
	was.same(scs)
	zzv.Reach("checked")
	if !trees {
		return
	}
	a, err := NewAst(scs...)
	if err != nil {
		return
	}
	first := zzAskTree(a)
	was.same(a.Scope())
	zzSameAnswers(first, zzAskTree(a))
	was.same(a.Scope())
	was.same(scs)
	zzv.Reach("a tree")
}

func zzAskTree(a Ast) (r []string) {
	p, err := a.Package()
	r = append(r, p, a.File(), a.Dir(), a.Filename(), a.Ext(), a.Description())
	if err != nil {
		r = append(r, err.Error())
	}
	n := 0
	a.IterScope(func(Scope) bool { n++; return n < 2 })
	a.IterScope(func(Scope) bool { return true })
	cp := a.Copy()
	r = append(r, cp.Description(), a.SetScope(nil).Description(), a.SetScope(a.Scope()).Description())
	err = a.Save("d/a")
	zzv.Assert(err == nil || len(a.Scope()) == 0, "saving works")
	b, _ := zzos.Get("d/a.go")
	return append(r, string(b))
}

func ZC26_raw() { zzLooking(zzSrcRaw(len(zzCtx), 2), false) }
func ZC26_lex() { zzLooking(zzSrcLex(len(zzCtx), zzv.Bound(2, 3)), false) }
func ZC26_pieces() {
	zzLooking(zzSrcPieces(0, len(zzOpenings), 2, zzv.Bound(20, len(zzPieces))), false)
}
func ZC26_decl()  { zzLooking(zzSrcDecl(), false) }
func ZC26_near()  { zzLooking(zzSrcNear(), false) }
func ZC26_edge()  { zzLooking(zzSrcEdge(), true) }
func ZC26_seq()   { zzLooking(zzOpt("package p\n")+zzSrcSeq(zzv.Bound(2, 3)), true) }
func ZC26_exprs() { zzLooking("package p\n"+zzSrcExprs(), true) }
func ZC26_big()   { zzLooking("package p\n"+zzSrcBig(), true) }

// scopes built by hand, of any kind, over nodes in any arrangement
func ZC26_built() {
	p := zzNewPool(zzv.Bound(3, 4), false)
	ks := []scope.Kind{scope.Unknown, scope.Package, scope.Comment, scope.Type, scope.Func, scope.Variable, scope.Kind("x")}
	var head *Node
	if i := zzv.Pick(len(p.ns) + 1); i < len(p.ns) {
		head = p.ns[i]
	}
	line, k := zzv.Int(), ks[zzv.Pick(len(ks))]
	sc := NewScope(line, k, head)
	max := 2 * len(p.ns)
	i := 0
	// not what prints a line or a kind: those are arbitrary here
	look := func() (r []string) {
		ask := func(s string, ok bool) {
			r = append(r, s)
			if ok {
				r = append(r, "found")
			}
		}
		ask(sc.GetTypeName())
		ask(sc.GetFuncName())
		ask(sc.GetMethodName())
		ask(sc.GetMethodReceiver())
		ask(sc.GetStructName())
		ask(sc.GetInterfaceName())
		r = append(r, zzText(zzChain(sc.Copy().Node(), max)), zzText(zzChain(head.Copy(true), max)), head.Copy().Text(), head.First().Text(), head.Last().Text())
		i = 0
		x := head.IterNext(func(*Node) bool { i++; return i < 2 })
		return append(r, x.Text(), x.IterPrev(func(*Node) bool { return true }).Text())
	}
	zzSameAnswers(look(), look())
	p.links("looking changes no links")
	p.content("looking changes no node")
	zzv.Assert(sc.Node() == head, "a scope keeps its node")
	zzv.Assert(sc.Kind() == k && sc.Line() == line+1, "a scope keeps its kind and line")
	zzv.Reach("checked")
}

// what a tree hands out and was handed stays as it is
func ZC26_lists() {
	zzos.Reset()
	zzformat.Hook, zzimports.Hook = nil, nil
	x := zzIdent(1)
	all := []Scope{}
	n := 1 + zzv.Pick(3)
	for i := 0; i < n; i++ {
		all = append(all, NewScope(i, scope.Package, NewNodes(i, "package", " ", "p", x, "\n")), NewScope(i, scope.Comment, NewNodes(i, "//"+x)))
	}
	was := zzStateOf(all, 9)
	list := append(make([]Scope, 0, len(all)+zzv.Pick(2)), all...)
	a, err := NewAst(list...)
	zzv.Assert(err == nil, "a package clause makes a tree")
	cp := a.Copy()
	first := zzAskTree(a)
	switch zzv.Pick(4) {
	case 0:
		cp.AppendScope(all[0])
	case 1:
		a.SetScope(a.Scope()).AppendScope(all[0])
	case 2:
		a.SetScope(nil).AppendScope(all...)
	}
	was.same(a.Scope())
	was.same(list)
	zzSameAnswers(first, zzAskTree(a))
	zzv.Reach("checked")
}

// comments that mean something to some tool
func ZC26_pragmas() { zzLooking(zzSrcPragmas(), true) }
