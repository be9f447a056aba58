package goast

import (
	"strings"

	"github.com/yanun0323/goast/zzv"
)

func zzLossless(src string) {
	zzv.ObsStr("src", src)
	scs := zzMust(ParseScope(0, []byte(src)))
	out := zzScopesText(scs, 2*len(src)+8)
	zzv.ObsStr("out", out)
	zzv.Assert(len(out) <= len(src), "nothing is repeated")
	zzv.Assert(out == src[len(src)-len(out):], "the scopes reproduce the end of the text")
	toks, ok := zzLexFile(src)
	hs, strict := zzHeads(src, toks)
	if strict && len(hs) != 0 {
		zzv.Assert(len(out) == len(src)-hs[0].off, "the scopes start with the first declaration")
	}
	if strict && ok && len(hs) == 0 {
		zzv.Assert(len(scs) == 0 && out == "", "no scope without a declaration")
	}
	zzv.Reach("checked")
}

// any bytes at all, in every parser state
func ZC01_raw() { zzLossless(zzSrcRaw(len(zzCtx), zzv.Bound(3, 4))) }

// bytes that matter to the tokenizer
func ZC01_lex() { zzLossless(zzSrcLex(len(zzCtx), zzv.Bound(3, 5))) }

// tokens that matter to the classification, valid or not
func ZC01_pieces() { zzLossless(zzSrcPieces(0, len(zzOpenings), zzv.Bound(3, 4), zzv.Bound(12, 13))) }
func ZC01_pieces2() {
	zzLossless(zzSrcPieces(0, len(zzOpenings), zzv.Bound(2, 3), len(zzPieces)))
}

// declarations
func ZC01_decl()   { zzLossless(zzSrcDecl() + "\n") }
func ZC01_big()    { zzLossless(zzSrcBig()) }
func ZC01_closed() { zzLossless(zzSrcClosed(zzv.Bound(3, 4))) }
func ZC01_long()   { zzLossless(zzSrcLong()) }
func ZC01_deep()   { zzLossless(zzSrcDeep()) }

// declarations of every sort one after the other
func ZC01_sequence() { zzLossless(zzSrcSeq(zzv.Bound(2, 3))) }

func ZC01_edge() { zzLossless(zzSrcEdge()) }
func ZC01_near() { zzLossless(zzSrcNear()) }

// byte order marks
func ZC01_mark() { zzLossless(zzSrcMark()) }

// texts that follow similar ones
func ZC01_after() { zzLossless(zzSrcAfter()) }

// statements and values of every sort
func ZC01_stmts() { g, _, _ := zzStmtDecl(); zzLossless(g.src() + "\nvar z int\n") }
func ZC01_exprs() { zzLossless(zzSrcExprs()) }

// comments that mean something to some tool
func ZC01_pragmas() { zzLossless(zzSrcPragmas()) }

// a megabyte
func ZC01_mega() {
	src, _ := zzSrcMega()
	var sb strings.Builder
	for _, sc := range zzMust(ParseScope(0, []byte(src))) {
		sc.Node().IterNext(func(n *Node) bool {
			sb.WriteString(n.Text())
			return true
		})
	}
	zzv.Assert(sb.String() == src, "the nodes' texts are the text")
	zzv.Reach("checked")
}
