package goast

import (
	"strings"

	"github.com/yanun0323/goast/zzv"
)

// zzLinesFrom checks the lines of the nodes from n on, whose first byte stands at off.
func zzLinesFrom(n *Node, src string, off, start int) int {
	line := start
	for i := 0; i < off; i++ {
		if src[i] == '\n' {
			line++
		}
	}
	for x := n; x != nil; x = x.Next() {
		zzv.Assert(x.Line() == line, "a node reports the line of its first byte")
		t := x.Text()
		off += len(t)
		zzv.Assert(off <= len(src), "nodes repeat no text")
		for i := 0; i < len(t); i++ {
			if t[i] == '\n' {
				line++
			}
		}
	}
	return off
}

func zzLines(src string) {
	zzv.ObsStr("src", src)
	start := zzv.Int()
	n, err := extract([]byte(src), start)
	zzv.Assert(err == nil, "tokenizing returns no error")
	zzv.Assert(zzLinesFrom(n, src, 0, start) == len(src), "every byte is in a node")
	n, err = extract([]byte(src))
	zzv.Assert(err == nil, "tokenizing returns no error")
	zzLinesFrom(n, src, 0, 0)

	scs := zzMust(ParseScope(start, []byte(src)))
	off := len(src) - len(zzScopesText(scs, 2*len(src)+8))
	zzv.Assert(off >= 0, "scopes repeat no text")
	for _, sc := range scs {
		zzv.Assert(sc.Line() == sc.Node().Line()+1, "a scope reports the 1-based line of its first node")
		off = zzLinesFrom(sc.Node(), src, off, start)
	}
	zzv.Reach("checked")
}

func ZC04_raw()    { zzLines(zzSrcRaw(len(zzCtx), zzv.Bound(2, 4))) }
func ZC04_lex()    { zzLines(zzSrcLex(len(zzCtx), zzv.Bound(3, 5))) }
func ZC04_pieces() { zzLines(zzSrcPieces(0, len(zzOpenings), zzv.Bound(2, 3), len(zzPieces))) }
func ZC04_decl()   { zzLines("// c\n\n" + zzSrcDecl() + "\nvar x int\n") }
func ZC04_big()    { zzLines(zzSrcBig()) }
func ZC04_closed() { zzLines(zzSrcClosed(zzv.Bound(2, 4))) }
func ZC04_long()   { zzLines(zzSrcLong()) }
func ZC04_deep()   { zzLines(zzSrcDeep()) }

// line breaks everywhere: brackets, literals and comments over several lines
func ZC04_breaks() {
	pieces := []string{"(\n", "\n)", "{\n\t", "\n}", "[\n", "\n]", "`\n`", "/*\n*/", "//\n", "\n", "\r\n", "\"a\"", "'\\n'", "f", " ", "\n\n"}
	s := []string{"var a = ", "func f(", "type T struct ", "func f() ", "import ", ""}[zzv.Pick(zzv.Bound(3, 6))]
	for i := 0; i < zzv.Bound(3, 4); i++ {
		s += pieces[zzv.Pick(len(pieces))]
	}
	zzLines(s + "\nfunc z() {}")
}

// chains built from texts
func ZC04_newnodes() {
	start := zzv.Int()
	k := 1 + zzv.Pick(zzv.Bound(4, 5))
	texts := make([]string, k)
	for i := range texts {
		if n := zzv.Pick(7); n < 3 {
			texts[i] = zzv.Str(n)
		} else {
			texts[i] = []string{"\n\n\n", "\n\n\n\n", "a\n\r\n\n\nb\n\n", strings.Repeat("\n", zzv.Bound(300, 70000))}[n-3]
		}
	}
	x := NewNodes(start, texts...)
	line := start
	for i := range texts {
		zzv.Assert(x != nil && x.Text() == texts[i], "the chain holds the texts")
		zzv.Assert(x.Line() == line, "a node's line counts the newlines of the texts before it")
		for j := 0; j < len(texts[i]); j++ {
			if texts[i][j] == '\n' {
				line++
			}
		}
		x = x.Next()
	}
	zzv.Assert(x == nil, "nothing follows the last text")
	zzv.Reach("checked")
}

// declarations of every sort one after the other
func ZC04_sequence() { zzLines(zzSrcSeq(zzv.Bound(2, 3))) }

func ZC04_edge() { zzLines(zzSrcEdge()) }
func ZC04_near() { zzLines(zzSrcNear()) }

// more lines than small counters hold
func ZC04_many() {
	n := []int{127, 255, 256, 300, 1000, 32768, 65535, 66000}[zzv.Pick(8)]
	nl := strings.Repeat("\n", n)
	i := zzv.Pick(6)
	if i > 3 && n > 1000 {
		n = zzv.Bound(3000, 66000) // many nodes
	}
	zzLines([]string{
		"var a = `" + nl + "`",
		"/*" + nl + "*/",
		"var a = `" + nl[:n/2] + "` + `" + nl[n/2:] + "`",
		"func f(a /*" + nl + "*/ T) {}",
		"var a int" + nl[:n],
		"var a = []T{" + strings.Repeat("b,\n", n/2) + "}\n" + strings.Repeat("//\n", n/2),
	}[i] + "var x = y\nfunc f() {\n}\n")
}

// texts that follow similar ones
func ZC04_after() { zzLines(zzSrcAfter()) }

// statements and values of every sort
func ZC04_stmts() { g, _, _ := zzStmtDecl(); zzLines(g.src() + "\nvar z int\n") }
func ZC04_exprs() { zzLines(zzSrcExprs()) }

// comments that mean something to some tool
func ZC04_pragmas() { zzLines(zzSrcPragmas()) }

// a megabyte
func ZC04_mega() {
	src, lines := zzSrcMega()
	scs := zzMust(ParseScope(0, []byte(src)))
	zzv.Assert(scs[len(scs)-1].Line() == lines, "a scope reports the 1-based line of its first node")
	zzv.Assert(scs[len(scs)-1].Node().Line() == lines-1, "a node's line is the number of newlines before it")
	zzv.Assert(scs[len(scs)-2].Line() == 3, "a scope reports the 1-based line of its first node")
	zzv.Reach("checked")
}
