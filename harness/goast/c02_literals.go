package goast

import (
	"strings"

	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzv"
)

func zzTokensMatch(n *Node, src string, toks []zzTok, all bool) {
	for _, t := range toks {
		zzv.Assert(n != nil, "a token is missing")
		zzv.Assert(n.Text() == src[t.start:t.end], "every literal, comment, separator and word is one node")
		n = n.Next()
	}
	if all {
		zzv.Assert(n == nil, "no node beyond the tokens")
	}
}

func zzTokens(src string) {
	zzv.ObsStr("src", src)
	toks, ok := zzLexTo(src)
	n, err := extract([]byte(src))
	zzv.Assert(err == nil, "tokenizing returns no error")
	zzTokensMatch(n, src, toks, ok)
	// the same through the public parser, where nothing is classified
	hs, strict := zzHeads(src, toks)
	if ok && strict {
		scs := zzMust(ParseScope(0, []byte(src)))
		zzv.Assert(len(scs) == len(hs), "one scope for every head")
		for i, sc := range scs {
			if hs[i].kind == scope.Func || hs[i].kind == scope.Type {
				continue
			}
			var part []zzTok
			for _, t := range toks {
				if t.start >= hs[i].off && (i+1 == len(hs) || t.start < hs[i+1].off) {
					part = append(part, t)
				}
			}
			zzTokensMatch(sc.Node(), src, part, true)
		}
	}
	zzv.Reach("checked")
}

func ZC02_raw() { zzTokens(zzSrcRaw(len(zzCtx), zzv.Bound(3, 4))) }
func ZC02_lex() { zzTokens(zzSrcLex(len(zzCtx), zzv.Bound(4, 5))) }
func ZC02_big() { zzTokens(zzSrcBig()) }

// zzLiteral is a complete literal or comment with n arbitrary bytes inside.
func zzLiteral(n int) string {
	var open, end string
	switch zzv.Pick(5) {
	case 0:
		open, end = "\"", "\""
	case 1:
		open, end = "'", "'"
	case 2:
		open, end = "`", "`"
	case 3:
		open, end = "/*", "*/"
	case 4:
		open, end = "//", "\n"
	}
	body := zzv.StrOf(n, "\"'`/*\\\n({})[] ,;:\t\rax0\x00\xff")
	return open + body + end
}

// complete literals with arbitrary contents between other tokens
func ZC02_inside() {
	s := zzLiteral(zzv.Bound(5, 6))
	src := "var a = " + s + []string{"\nvar b = c\n", "+\"d\"+`e`+f('g')\n", "", "// \"'`\n/* ' */ }"}[zzv.Pick(4)]
	toks, ok := zzLex(src)
	zzv.Assume(ok && len(toks) > 7 && src[toks[6].start:toks[6].end] == strings.TrimSuffix(s, "\n"))
	zzTokens(src)
}

// two literals next to each other or in brackets
func ZC02_pairs() {
	a := zzLiteral(zzv.Bound(2, 3))
	b := zzLiteral(zzv.Bound(2, 3))
	var src string
	switch zzv.Pick(4) {
	case 0:
		src = a + b
	case 1:
		src = "f(" + a + ", " + b + ")"
	case 2:
		src = "x{" + a + "}[" + b + "]:y"
	case 3:
		src = "a" + a + "b" + b + "c"
	}
	zzTokens(src + "\nfunc z() {}\n")
}

// long literals
func ZC02_long() {
	n := zzv.Bound(300, 3000)
	f := strings.Repeat([]string{"a", "\\\\", "( { ", "\\\"", "*", "/", "''", "\xff"}[zzv.Pick(8)], n/2)
	x := string([]byte{zzv.ByteOf("a\"'`\\*/(}\n")})
	switch zzv.Pick(5) {
	case 0:
		f = "\"" + f + x + "\""
	case 1:
		f = "`" + f + x + "`"
	case 2:
		f = "/*" + f + x + "*/"
	case 3:
		f = "//" + f + x + "\n"
	case 4:
		f = "'" + f + x + "'"
	}
	zzTokens("var a = " + f + " + 1\nvar b = 2\n")
}

func ZC02_huge() { zzTokens(zzSrcLong()) }
func ZC02_deep() { zzTokens(zzSrcDeep()) }

// declarations of every sort one after the other
func ZC02_sequence() { zzTokens(zzSrcSeq(zzv.Bound(2, 3))) }

func ZC02_edge() { zzTokens(zzSrcEdge()) }
func ZC02_near() { zzTokens(zzSrcNear()) }

// comments that mean something to some tool
func ZC02_pragmas() { zzTokens(zzSrcPragmas()) }
