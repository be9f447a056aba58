package goast

import (
	"strings"

	"github.com/yanun0323/goast/zzv"
)

func zzScopes(src string) {
	zzv.ObsStr("src", src)
	toks, ok := zzLexFile(src)
	hs, strict := zzHeads(src, toks)
	zzv.Assume(strict)
	start := zzv.Int()
	scs := zzMust(ParseScope(start, []byte(src)))
	zzv.ObsInt("scopes", len(scs))
	zzv.Assert(len(scs) >= len(hs), "every declaration starts a scope")
	if ok {
		zzv.Assert(len(scs) == len(hs), "nothing else starts a scope")
	}
	for i, h := range hs {
		sc := scs[i]
		zzv.Assert(sc.Kind() == h.kind, "a scope has the kind of its first token")
		zzv.Assert(sc.Line() == start+h.line+1, "a scope stands on the line of its first token")
		n := sc.Node()
		zzv.Assert(n != nil && n.Prev() == nil, "a scope's first node has no predecessor")
		text := zzText(zzChain(n, 2*len(src)+8))
		if i+1 < len(hs) {
			zzv.Assert(text == src[h.off:hs[i+1].off], "a scope runs up to the next one")
		} else if ok {
			zzv.Assert(text == src[h.off:], "the last scope runs to the end")
		} else {
			zzv.Assert(strings.HasPrefix(src[h.off:], text), "a scope is a part of the text")
		}
	}
	zzv.Reach("checked")
}

func ZC05_raw()    { zzScopes(zzSrcRaw(len(zzCtx), zzv.Bound(3, 4))) }
func ZC05_lex()    { zzScopes(zzSrcLex(len(zzCtx), zzv.Bound(3, 5))) }
func ZC05_big()    { zzScopes(zzSrcBig()) }
func ZC05_closed() { zzScopes(zzSrcClosed(zzv.Bound(3, 4))) }
func ZC05_long()   { zzScopes(zzSrcLong()) }
func ZC05_deep()   { zzScopes(zzSrcDeep()) }

// declarations of every sort one after the other
func ZC05_sequence() { zzScopes(zzSrcSeq(zzv.Bound(2, 3))) }

func ZC05_edge() { zzScopes(zzSrcEdge()) }
func ZC05_near() { zzScopes(zzSrcNear()) }

// words at the start of a line that begin with, end with or contain a keyword
func ZC05_words() {
	w := []string{"package", "import", "var", "const", "type", "func", "//", "/*", "return", "go"}[zzv.Pick(10)]
	head := []string{"", "var a = 1\n", "func f() {\n", "/**/\n", "package p\n\n"}[zzv.Pick(5)]
	pre := zzv.StrOf(zzv.Pick(2), " \t\n_a1{}()\"`'/*:;.,\r")
	post := zzv.StrOf(1, " \t\n_a1{}()\"`'/*:;.,\r[]\xff")
	zzScopes(head + pre + w + post + "x\n*/\nvar z int\n")
}

// byte order marks
func ZC05_mark() { zzScopes(zzSrcMark()) }

// texts that follow similar ones
func ZC05_after() { zzScopes(zzSrcAfter()) }

// statements and values of every sort
func ZC05_stmts() { g, _, _ := zzStmtDecl(); zzScopes(g.src() + "\nvar z int\n") }
func ZC05_exprs() { zzScopes(zzSrcExprs()) }

// comments that mean something to some tool
func ZC05_pragmas() { zzScopes(zzSrcPragmas()) }

// a megabyte
func ZC05_mega() {
	src, _ := zzSrcMega()
	scs := zzMust(ParseScope(0, []byte(src)))
	zzv.Assert(len(scs) == 3 && scs[0].Kind().String() == "Package" && scs[2].Kind().String() == "Func", "every declaration starts a scope")
	zzv.Reach("checked")
}

// hundreds of declarations
func ZC05_lots() {
	n := []int{260, 1030}[zzv.Pick(2)]
	fill := []string{"var a = b\n", "// c\n", "func f(a T) U {}\n", "/* c\n*/\n", "import \"a\"\n", "\n\ntype T struct {\n\ta U\n}\n"}[zzv.Pick(6)]
	d := zzDecl(1 + zzv.Pick(zzNDecls-1))
	scs := zzMust(ParseScope(0, []byte(strings.Repeat(fill, n)+d)))
	one := zzMust(ParseScope(0, []byte(fill+d)))
	zzv.Assert(len(scs) == n-1+len(one), "every declaration starts a scope, nothing else does")
	for i, sc := range scs {
		o := one[0]
		if i >= n {
			o = one[i-n+1]
		}
		zzv.Assert(sc.Kind() == o.Kind(), "a scope has the kind of its declaration")
	}
	zzv.Reach("checked")
}
