package goast

import (
	"strings"

	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzv"
)

// zzTextKind is the kind of a node that was not classified by its place.
func zzTextKind(s string) kind.Kind {
	if strings.HasPrefix(s, "//") || strings.HasPrefix(s, "/*") {
		return kind.Comment
	}
	return zzKindOf(s)
}

func zzPlaceKind(k kind.Kind) bool {
	switch k {
	case kind.FuncName, kind.TypeName, kind.ParamName, kind.ParamType, kind.MethodReceiverName, kind.MethodReceiverType:
		return true
	}
	return false
}

// zzComment tells whether s is one comment.
func zzComment(s string) bool {
	if s == "" || s[0] != '/' {
		return false
	}
	toks, ok := zzLex(s)
	return ok && len(toks) == 1 && toks[0].kind == tkComment
}

// zzLeaves checks the kinds of every node of a text.
func zzLeaves(src string) {
	zzv.ObsStr("src", src)
	_, ok := zzLexFile(src)
	zzv.Assume(ok)
	for _, sc := range zzMust(ParseScope(0, []byte(src))) {
		names := sc.Kind() == scope.Func || sc.Kind() == scope.Type
		for _, n := range zzChain(sc.Node(), 2*len(src)+8) {
			zzv.ObsStr("node", n.Text())
			zzv.ObsStr("kind", n.Kind().String())
			if names && zzPlaceKind(n.Kind()) {
				zzv.Assert(!zzComment(n.Text()), "a comment is never a name or a type")
				continue
			}
			zzv.Assert(n.Kind() == zzTextKind(n.Text()), "every other node keeps the kind of its text")
		}
	}
	zzv.Reach("checked")
}

func ZC23_raw()    { zzLeaves(zzSrcRaw(len(zzCtx), zzv.Bound(2, 3))) }
func ZC23_lex()    { zzLeaves(zzSrcLex(len(zzCtx), zzv.Bound(2, 4))) }
func ZC23_pieces() { zzLeaves(zzSrcPieces(0, len(zzOpenings), 2, len(zzPieces))) }
func ZC23_near()   { zzLeaves(zzSrcNear()) }
func ZC23_decl()   { zzLeaves(zzSrcDecl()) }
func ZC23_seq()    { zzLeaves(zzSrcSeq(2)) }
func ZC23_big()    { zzLeaves(zzSrcBig()) }

// zzOutside checks the kinds of the nodes of a declaration that stand outside
// its names and types.
func zzOutside(g *zzGen) { zzOutsideIn(g, "\n\n// z\n") }

func zzOutsideIn(g *zzGen, rest string) {
	src := g.src()
	zzv.ObsStr("src", src)
	scs := zzMust(ParseScope(0, []byte("package p\n\n"+src+rest)))
	zzv.Assert(len(scs) >= 2, "the declaration is a scope")
	in := make([]bool, len(src))
	for _, s := range g.spans {
		for i := s[0]; i < s[1]; i++ {
			in[i] = true
		}
	}
	off := 0
	for _, n := range zzChain(scs[1].Node(), 2*len(src)+8) {
		to := off + len(n.Text())
		free := true
		for i := off; i < to && i < len(src); i++ {
			if in[i] {
				free = false
			}
		}
		if free || !zzPlaceKind(n.Kind()) {
			zzv.ObsStr("node", n.Text())
			zzv.ObsStr("kind", n.Kind().String())
			zzv.Assert(n.Kind() == zzTextKind(n.Text()), "nodes outside names and types keep the kinds of their texts")
		}
		off = to
	}
	zzv.Reach("checked")
}

// functions with every form of parameters, results and body
func ZC23_func() {
	g := zzNewGen(5)
	g.w("func ").c().id2(wFunc)
	g.tp(zzOneOr(0, zzNTypeParams))
	g.c().w("(")
	g.params(zzv.Pick(zzNParams), zzv.Pick(zzNTypes), zzOneOr(2, 4))
	g.w(")")
	g.result(zzOneOr(1, zzNResults), 3)
	g.c().w(zzBodies[zzOneOr(3, len(zzBodies))])
	zzOutside(g)
}

func ZC23_result() {
	g := zzNewGen(4)
	g.w("func ").id2(wFunc)
	g.tp(zzv.Pick(2))
	g.w("(")
	g.params(zzv.Pick(2), 1, 2)
	g.w(")")
	g.result(zzv.Pick(zzNResults), zzv.Pick(zzNTypes))
	g.c().w(zzBodies[zzOneOr(3, len(zzBodies))])
	zzOutside(g)
}

func ZC23_method() {
	g := zzNewGen(5)
	g.w("func ").c()
	zzRecv(g, zzv.Pick(zzNRecvs))
	g.w(" ").c().id2(wFunc)
	g.c().w("(")
	g.params(zzv.Pick(zzNParams), []int{14, 3, 5, 0}[zzv.Pick(zzv.Bound(1, 4))], 2)
	g.w(")")
	g.result(zzOneOr(1, 2)*3, 1)
	g.w(zzBodies[zzv.Pick(len(zzBodies))])
	zzOutside(g)
}

func ZC23_interface() {
	g := zzNewGen(zzv.Bound(3, 5))
	g.w("type ").id2(wTypeName)
	g.tp(zzv.Pick(2))
	g.w(" interface {\n\t").put("F", wFunc)
	g.w("(")
	g.params(2, 0, 1)
	g.w(") // b\n\n\t").c().id(wFunc)
	g.c().w("(")
	g.params(zzv.Pick(zzNParams), zzv.Pick(zzNTypes), 2)
	g.w(")")
	g.result(zzv.Pick(2)*zzv.Bound(2, 5), 3)
	g.w("\n}")
	zzOutside(g)
}

func ZC23_struct() {
	g := zzNewGen(3)
	g.w("type ").id2(wTypeName)
	g.tp(zzv.Pick(2))
	g.w(" struct {\n\t").put("x", wName)
	g.w(" ").put("int", wType)
	g.w(" // a\n\n\t// b c\n")
	zzField(g, zzv.Pick(zzNFields))
	g.w("\t/* c */\n}")
	zzOutside(g)
}

func ZC23_functype() {
	g := zzNewGen(zzv.Bound(2, 5))
	g.w("type ").id2(wTypeName)
	g.w(" ").w(zzOpt("= ")).w("func(")
	g.params(zzv.Pick(zzNParams), zzv.Pick(zzNTypes), 2)
	g.w(")")
	g.result(zzv.Pick(zzv.Bound(4, zzNResults)), 3)
	zzOutside(g)
}

// arbitrary bytes in a function's body
func ZC23_body() {
	g := &zzGen{at1: -1, at2: -1, idlen: 1}
	g.w("func ")
	if i := zzv.Pick(zzv.Bound(2, 3)); i > 0 {
		zzRecv(g, []int{0, 1, 4}[i])
		g.w(" ")
	}
	g.id2(wFunc)
	g.w("(")
	g.params(zzOneOr(1, 2), 14, 0)
	g.w(")")
	g.result(zzOneOr(0, 4), 5)
	from := len(g.src())
	g.w([]string{" { ", " {\n\t", " {\n\tfunc(a T", " {\n\ttype T struct {\n\t\ta ", " {\n\tx.y("}[zzv.Pick(5)])
	for i := 0; i < zzv.Bound(2, 3); i++ {
		w := zzPieces[zzv.Pick(len(zzPieces))]
		if w == "X" {
			w = string([]byte{zzv.ByteOf(zzLetters)})
		}
		g.w(w)
	}
	zzv.Assume(zzInside(g.src()[from:]))
	zzOutsideIn(g, "")
}

// zzInside tells whether s is in the block it begins until its end, and begins no
// declaration.
func zzInside(s string) bool {
	toks, ok := zzLex(s)
	if !ok {
		return false
	}
	depth := 0
	for i, t := range toks {
		switch s[t.start:t.end] {
		case "(", "[", "{":
			depth++
		case ")", "]", "}":
			depth--
		}
		if depth < 1 && i > 1 || t.line > 0 && t.col0 && t.kind == tkWord {
			return false
		}
	}
	return true
}

// functions, structs and interfaces in declarations of other sorts
func ZC23_values() {
	src := []string{"var f = ", "var (\n\tf = func(a T) U {\n\t\t", "var x struct {\n\ta T\n\t", "const c = ", "import (\n\tf \"g\"\n", "package p; ", "// func f(a T) ", "/* type T struct { */ ", "var x, y interface {\n\tM(a T) (b U)\n\t"}[zzv.Pick(9)]
	for i := 0; i < zzv.Bound(2, 3); i++ {
		w := zzPieces[zzv.Pick(len(zzPieces))]
		if w == "X" {
			w = string([]byte{zzv.ByteOf(zzLetters)})
		}
		src += w
	}
	zzLeaves(zzOpt("package p\n\n") + src + zzOpt("\n\nfunc g(a T) U {\n}\n"))
}

// brackets in type parameters
func ZC23_typeparams() {
	g := zzNewGen(2)
	tp := zzTypeParams[zzv.Pick(len(zzTypeParams))]
	if zzv.Yes() {
		g.w("func ").id2(wFunc)
		g.ws(tp).w("(")
		g.params(1, zzv.Pick(zzv.Bound(3, zzNTypes)), 0)
		g.w(")")
		g.result(1, 0)
		g.w(zzBodies[3])
	} else {
		g.w("type ").id2(wTypeName)
		g.ws(tp).w(" struct {\n")
		zzField(g, zzv.Pick(zzv.Bound(3, zzNTypes)))
		g.w("}")
	}
	zzOutside(g)
}

// texts that follow similar ones
func ZC23_after() { zzLeaves(zzSrcAfter()) }

// statements and expressions of every sort, on one line and on several
func ZC23_stmts() { g, _, _ := zzStmtDecl(); zzOutside(g) }

// expressions of every sort as values of variables and constants
func ZC23_exprs() { zzLeaves(zzSrcExprs()) }

// comments that mean something to some tool
func ZC23_pragmas() { zzLeaves(zzSrcPragmas()) }
