package goast

import (
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/zzv"
)

type zzSnapNode struct {
	text string
	kind [2]string
	line int
}

type zzSnapScope struct {
	kind  string
	line  int
	nodes []zzSnapNode
	names [6]string
	oks   [6]bool
}

func zzSnap(scs []Scope, max int) []zzSnapScope {
	var r []zzSnapScope
	for _, sc := range scs {
		s := zzSnapScope{kind: string(sc.Kind()), line: sc.Line()}
		for _, n := range zzChain(sc.Node(), max) {
			s.nodes = append(s.nodes, zzSnapNode{n.Text(), n.Kind(), n.Line()})
		}
		s.names[0], s.oks[0] = sc.GetFuncName()
		s.names[1], s.oks[1] = sc.GetMethodName()
		s.names[2], s.oks[2] = sc.GetMethodReceiver()
		s.names[3], s.oks[3] = sc.GetTypeName()
		s.names[4], s.oks[4] = sc.GetStructName()
		s.names[5], s.oks[5] = sc.GetInterfaceName()
		r = append(r, s)
	}
	return r
}

func zzSameSnap(a, b []zzSnapScope) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.kind != y.kind || x.line != y.line || x.names != y.names || x.oks != y.oks || len(x.nodes) != len(y.nodes) {
			return false
		}
		for j := range x.nodes {
			if x.nodes[j] != y.nodes[j] {
				return false
			}
		}
	}
	return true
}

func zzDisjoint(a, b []Scope, max int) bool {
	var as []*Node
	for _, sc := range a {
		as = append(as, zzChain(sc.Node(), max)...)
	}
	for _, sc := range b {
		for _, n := range zzChain(sc.Node(), max) {
			for _, x := range as {
				if n == x {
					return false
				}
			}
		}
	}
	return true
}

// zzScribble edits everything a user can edit.
func zzScribble(scs []Scope, max int) {
	for _, sc := range scs {
		ns := zzChain(sc.Node(), max)
		for i, n := range ns {
			n.SetText("edited")
			n.SetKind(zzKinds[i%len(zzKinds)])
		}
		for i := 0; i+1 < len(ns); i += 2 {
			ns[i].Isolate()
		}
	}
}

var zzKinds = []([2]string){{"", "Number"}, {"{", "CurlyBracketLeft"}, {"func", "Func"}}

// every iteration order of the internal tables
func zzOrders(src string) {
	zzv.ObsStr("src", src)
	max := 2*len(src) + 8
	first := zzSnap(zzMust(ParseScope(2, []byte(src))), max)
	zzv.MapOrder(1 + zzv.Pick(zzv.Bound(7, 13)))
	second := zzSnap(zzMust(ParseScope(2, []byte(src))), max)
	zzv.MapOrder(0)
	zzv.Assert(zzSameSnap(first, second), "the order of internal tables does not show")
	zzv.Reach("checked")
}

func ZC09_order_raw() { zzOrders(zzSrcRaw(1, zzv.Bound(2, 3))) }
func ZC09_order_lex() { zzOrders(zzSrcLex(zzv.Bound(4, len(zzCtx)), zzv.Bound(2, 4))) }
func ZC09_order_near() {
	s := []string{"", "var a = ", "func f() {\n", "/*", "\""}[zzv.Pick(zzv.Bound(3, 5))]
	w := []string{"//", "/*", "*/", "\"", "`", "'", "(", ")", "{", "}", "[", "//go:build x", "//go:", "//nolint:", "/**", "///", "\"\"\"", "``", "'''", "${", "{{", "((", "[]", "...", ":=", "<-", "#", "<!--", "--", "func(", "interface{", "struct{", "\r\n"}
	zzOrders(s + w[zzv.Pick(len(w))] + zzv.StrOf(1, "a\n/*\"`'(){} ") + "b\n*/\nvar x = y\n")
}
func ZC09_order_seq() { zzOrders(zzSrcSeq(1)) }
func ZC09_order_big() { zzOrders(zzSrcBig()) }
func ZC09_order_all() {
	srcs := []string{
		"package p\n\nimport (\n\t\"a\"\n)\n\n// c\nvar x = \"//\" + `/*` + '\\''\n",
		"/* a // b \" */\nconst c = 1 // d /* e */ `f`\n",
		"func (r *R[K]) f(a func(b T) (c U, d V), e map[K]V) (g, h int) { return /**/ }\n",
		"type T[K any] struct {\n\ta, b func(c D) E `f`\n\tG // h\n}\ntype U interface {\n\tF(a []T) (c, d E)\n}\n",
	}
	zzOrders(srcs[zzv.Pick(len(srcs))] + zzv.StrOf(1, "/*\"`'(){}\n"))
}

// parsing a text again, after other texts and edits, gives the same
func zzAgain(src, other string) {
	zzv.ObsStr("src", src)
	zzv.ObsStr("other", other)
	max := 2*len(src) + 2*len(other) + 8
	buf := []byte(src)
	a := zzMust(ParseScope(3, buf))
	sa := zzSnap(a, max)
	for i := range buf {
		buf[i] = zzv.ByteOf("x\n{")
		if i == 3 {
			break
		}
	}
	for i := 4; i < len(buf); i++ {
		buf[i] = '('
	}
	zzv.Assert(zzSameSnap(sa, zzSnap(a, max)), "the result does not share the caller's bytes")
	o := zzMust(ParseScope(0, []byte(other)))
	so := zzSnap(o, max)
	zzv.Assert(zzSameSnap(sa, zzSnap(a, max)), "another parse does not change a result")
	b := zzMust(ParseScope(3, []byte(src)))
	zzv.Assert(zzSameSnap(sa, zzSnap(b, max)), "parsing again gives the same")
	zzv.Assert(zzDisjoint(a, b, max) && zzDisjoint(a, o, max), "results share no nodes")
	zzScribble(a, max)
	zzv.Assert(zzSameSnap(sa, zzSnap(b, max)) && zzSameSnap(so, zzSnap(o, max)), "editing one result does not change another")
	c := zzMust(ParseScope(3, []byte(src)))
	zzv.Assert(zzSameSnap(sa, zzSnap(c, max)), "parsing after edits gives the same")
	d := zzMust(ParseScope(9, []byte(src)))
	zzv.Assert(len(d) == len(c), "the start line does not change the scopes")
	for i := range d {
		zzv.Assert(d[i].Line() == c[i].Line()+6, "the start line moves every line")
	}
	zzv.Reach("checked")
}

func ZC09_again() {
	texts := []string{"func a", "type T", "var a = \"", "/*", "(", "func f(a T) U {\n}\n", "package p\n", ""}
	zzAgain(texts[zzv.Pick(len(texts))]+zzv.StrOf(zzv.Bound(1, 2), "\"`'/*\\\n(){}[ a"), texts[zzv.Pick(len(texts))]+zzv.StrOf(zzv.Bound(1, 2), "\"\n(a*"))
}

func ZC09_again_decl() {
	other := []string{"func b(c D) E {\n}\n", "type F struct {\n\tg H\n}\n", "// x"}[zzv.Pick(3)]
	switch zzv.Pick(2) {
	case 0:
		g := zzNewGen(2)
		g.w("func ").c().w(zzIdent(2)).w("(")
		g.params(zzv.Pick(zzNParams), zzv.Pick(zzNTypes), 2)
		zzAgain(g.w(") ").w("error {\n}\n").src(), other)
	case 1:
		zzAgain("type "+zzIdent(2)+" "+zzDefs[zzv.Pick(len(zzDefs))][2:]+"\n", other)
	}
}

// parsing and looking up write nothing that another parse can see: no shared
// write on any path makes every interleaving of parses equivalent to running
// them one after the other.
func zzShared(src string) {
	zzv.ObsStr("src", src)
	max := 2*len(src) + 8
	if !zzv.Symbolic() {
		// natively: the parses really run at the same time
		want := zzSnap(zzMust(ParseScope(0, []byte(src))), max)
		done := make(chan bool)
		for i := 0; i < 4; i++ {
			go func() {
				ok := true
				for k := 0; k < 20 && (k == 0 || len(src) < 3000); k++ {
					scs, err := ParseScope(0, []byte(src))
					ok = ok && err == nil && zzSameSnap(want, zzSnap(scs, max))
					for _, sc := range scs {
						if len(src) < 1000 {
							sc.Copy()
						}
						sc.Description()
					}
				}
				done <- ok
			}()
		}
		all := true
		for i := 0; i < 4; i++ {
			all = <-done && all
		}
		zzv.Assert(all, "concurrent parses agree")
		zzv.Assert(zzv.SharedWrites() == 0, "parsing writes no shared state")
		return
	}
	scs := zzMust(ParseScope(0, []byte(src)))
	zzSnap(scs, max)
	for _, sc := range scs {
		if len(src) < 1000 { // copying recurs with every node
			zzSnap([]Scope{sc.Copy()}, max)
		}
		sc.Description()
	}
	zzv.Assert(zzv.SharedWrites() == 0, "parsing writes no shared state")
	zzv.Reach("checked")
}

func ZC09_shared_raw()    { zzShared(zzSrcRaw(1, zzv.Bound(3, 4))) }
func ZC09_shared_lex()    { zzShared(zzSrcLex(len(zzCtx), zzv.Bound(2, 4))) }
func ZC09_shared_pieces() { zzShared(zzSrcPieces(0, len(zzOpenings), zzv.Bound(2, 3), len(zzPieces))) }
func ZC09_shared_big()    { zzShared(zzSrcBig()) }

func ZC09_shared_long() { zzShared(zzSrcLong()) }
func ZC09_shared_edge() { zzShared(zzSrcEdge()) }
func ZC09_shared_seq()  { zzShared(zzSrcSeq(zzv.Bound(1, 2))) }

// lookups change nothing
func ZC09_lookups() {
	src := zzSrcPieces(0, len(zzOpenings), zzv.Bound(2, 3), zzv.Bound(14, len(zzPieces)))
	zzv.ObsStr("src", src)
	max := 2*len(src) + 8
	scs := zzMust(ParseScope(0, []byte(src)))
	a := zzSnap(scs, max)
	for _, sc := range scs {
		sc.Copy()
		sc.Description()
		sc.Node().Description()
		sc.Node().First()
		sc.Node().Last()
	}
	zzv.Assert(zzSameSnap(a, zzSnap(scs, max)), "looking at a result does not change it")
	zzv.Reach("checked")
}

// watching the parser does not change what it does
func ZC09_debug() {
	var src string
	switch zzv.Pick(5) {
	case 0:
		src = zzSrcPieces(0, len(zzOpenings), zzv.Bound(1, 2), len(zzPieces))
	case 1:
		src = zzSrcEdge()
	case 2:
		src = zzSrcSeq(1)
	case 3:
		src = zzSrcLex(zzv.Bound(4, len(zzCtx)), 2)
	default:
		src = "func (r *R[K]) f(a func(b T) (c U, d V), e map[K]V, g ...H) (h, i int) { return /**/ }\ntype T[K any] struct {\n\ta, b func(c D) E `f`\n\tG // h\n}\n" + zzv.StrOf(1, "/*\"`'(){}\n")
	}
	zzv.ObsStr("src", src)
	max := 2*len(src) + 8
	quiet := zzSnap(zzMust(ParseScope(1, []byte(src))), max)
	helper.SetDebug(true)
	loud := zzSnap(zzMust(ParseScope(1, []byte(src))), max)
	helper.SetDebug(false)
	zzv.Assert(zzSameSnap(quiet, loud), "debug output does not change the result")
	zzv.Reach("checked")
}
