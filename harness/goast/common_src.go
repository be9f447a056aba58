package goast

import (
	"strings"

	"github.com/yanun0323/goast/zzv"
)

// ---- input texts shared by the properties that quantify over every text

// zzCtx are beginnings that put the arbitrary rest into each parser state.
var zzCtx = []string{"", "func ", "type T ", "//", "/*", "var s = \"", "var s = `", "var r = '", "func a(", "func (r R) m(a ", "type T struct {\n\ta ", "package p\n"}

// zzSrcRaw is one of the first ctxs beginnings followed by n arbitrary bytes.
func zzSrcRaw(ctxs, n int) string {
	return zzCtx[zzv.Pick(ctxs)] + zzv.Str(n)
}

// zzLexBytes has every byte the tokenizer treats specially, and ordinary ones.
const zzLexBytes = "\"'`/*\\\n(){}[ a"

// zzSrcLex is n arbitrary bytes out of zzLexBytes in each parser state.
func zzSrcLex(ctxs, n int) string {
	return zzCtx[zzv.Pick(ctxs)] + zzv.StrOf(n, zzLexBytes)
}

// zzPieces are tokens the kind resetters treat specially.
var zzPieces = []string{"func", "X", "(", ")", " ", "{", "}", "[", "]", ",", "\n", "/*c*/", "//d\n", "*T", "struct", "interface", "map", "type", "\"s\"", "int", "\t", "=", "chan", "1", ".", ":", ";", "`r\n`"}

// zzOpenings put a sequence of pieces into each state of the kind resetters.
var zzOpenings = []string{
	"func ", "type T ", "func a(", "func (r R) m(", "func a(b T) ", "type T struct {\n\t", "type T interface {\n\t", "func a(b func(c int) ",
	"func a(b, ", "type T func(", "func (", "type T[K any] ", "type T interface {\n\tM(", "func a() (", "type T struct {\n\tf func(", "func a[T any](",
}

// zzSrcPieces is one of the openings from..to followed by k arbitrary pieces out
// of the first p, in which X stands for an arbitrary identifier byte.
func zzSrcPieces(from, to, k, p int) string {
	var sb strings.Builder
	sb.WriteString(zzOpenings[from+zzv.Pick(to-from)])
	for i := 0; i < k; i++ {
		w := zzPieces[zzv.Pick(p)]
		if w == "X" {
			w = string([]byte{zzv.ByteOf(zzLetters)})
		}
		sb.WriteString(w)
	}
	return sb.String()
}

// zzSrcDecl is a func, method or type declaration in gofmt's layout, with a
// comment in an arbitrary gap.
func zzSrcDecl() string {
	switch zzv.Pick(3) {
	case 0:
		g := zzNewGen(5)
		g.w("func ").c().w(zzIdent(2)).w("(")
		g.params(zzv.Pick(zzNParams), zzv.Pick(zzNTypes), 2)
		g.w(")")
		g.result(zzv.Pick(zzv.Bound(2, zzNResults))*zzv.Bound(4, 1), 3)
		return g.w(zzBodies[zzOneOr(0, len(zzBodies))]).src()
	case 1:
		g := zzNewGen(5)
		g.w("func ").c()
		zzRecv(g, zzv.Pick(8))
		g.w(" ").c().w(zzIdent(2)).w("(")
		g.params(zzOneOr(1, zzNParams), zzOneOr(14, zzNTypes), 0)
		g.w(")")
		g.result(zzv.Pick(zzNResults), 0)
		return g.w(zzBodies[zzOneOr(3, len(zzBodies))]).src()
	}
	g := zzNewGen(3)
	g.w("type ").c().w(zzIdent(2))
	g.w([]string{"", "[T any]", "[T interface{ ~int }, U []struct{}]"}[zzv.Pick(3)])
	g.w(" ").c().w(zzDefs[zzv.Pick(len(zzDefs))][2:])
	return g.c().src()
}

// zzSrcBig is a text that is long in one respect: lines, tokens, literals,
// nesting, declarations, parameters or fields, with an arbitrary byte in it.
func zzSrcBig() string {
	b := string([]byte{zzv.ByteOf("a1(){}[]\"`'/*\n\t ,:;\\.")})
	n := zzv.Bound(20, 120)
	rep := strings.Repeat
	switch zzv.Pick(12) {
	case 0:
		return "package p\n\nfunc a() {\n" + zzFill(40*n) + b + "\n}\n\ntype T struct{}\n"
	case 1:
		return "var " + rep("abcdefghi", n) + b + " = 1\nvar a = \"" + rep("\\\\x{(", n) + "\"\nconst c = 1\n"
	case 2:
		return "var a = `" + rep("{(\"\n", n) + b + "`\nvar c = `" + rep("x", 10*n) + "`\n\nfunc f() {}\n"
	case 3:
		return "/*" + rep(" func a() {\nvar x\n", n) + b + "*/\n\n//" + rep(" \"(", n) + "\nvar a int\n"
	case 4:
		return "var a = " + rep("f(", n) + b + rep(")", n) + "\nvar c = " + rep("T{", n) + rep("}", n) + "\nvar d int\n"
	case 5:
		return rep("var a = 1\nfunc b() {}\n// c\n/* d */\ntype T int\n", n/4) + b + "\nconst e = 2\n"
	case 6:
		return "func a(" + rep("b "+string(b[0])+", ", 10) + rep("c int, d []T, e func(g H) I, ", n/4) + "k L) (" + rep("M, ", n/2) + "error) {\n}\nvar x int\n"
	case 7:
		return "type T struct {\n" + rep("\ta int // "+b+"\n\tb []U `c`\n\n\tD\n", n/2) + "}\nvar x int\n"
	case 8:
		return "type T interface {\n" + rep("\tA(b C, d E) (F, error) // "+b+"\n\tG\n", n/4) + "}\nvar x int\n"
	case 9:
		return "import (\n" + rep("\t\"a/b\"\n\tc \"d/e\" //"+b+"\n", n) + ")\n\n" + rep("\n", 10*n) + "func a() {}\n"
	case 10:
		return "func a(" + rep("b func(", n/4) + "c " + b + "" + rep(")", n/4) + ") {\n}\nvar x int\n"
	}
	return "type T " + rep("[]map[K]", n/2) + b + "\n\ntype U " + rep("func(a ", n/4) + "B" + rep(")", n/4) + "\n\nvar x int\n"
}

// zzOneOr is i in the quick tier and any of n otherwise.
func zzOneOr(i, n int) int {
	if zzv.Thorough() {
		return zzv.Pick(n)
	}
	return i
}

// zzClosers end what zzCtx begins, with another declaration behind it.
var zzClosers = []string{"", "a() {}", " int", "", "*/", "\"", "`", "'", ") {}", " T) {}", " b\n}", ""}

// zzSrcClosed is n arbitrary bytes out of zzLexBytes in each parser state, which
// is closed again in front of another declaration.
func zzSrcClosed(n int) string {
	i := zzv.Pick(len(zzCtx))
	return zzCtx[i] + zzv.StrOf(n, zzLexBytes) + zzClosers[i] + "\nvar x = y\n"
}

// zzSrcLong is a text with one literal, comment, word or run of separators that
// is longer than common buffer sizes.
func zzSrcLong() string {
	n := []int{5000, 70000}[zzv.Pick(2)]
	fill := func(s string) string { return strings.Repeat(s, n/len(s)) }
	var s string
	i := zzv.Pick(zzv.Bound(7, 9))
	if i >= 5 && n > 20000 {
		n = 20000 // many nodes
	}
	switch i {
	case 0:
		s = "var a = `" + fill("b {\n\"") + "`"
	case 1:
		s = "var a = \"" + fill("b {\\\"c") + "\""
	case 2:
		s = "/*" + fill("b { * /\n") + "*/"
	case 3:
		s = "//" + fill("b { */ \"")
	case 4:
		s = "var " + fill("abcdefghij") + " = 1"
	case 5:
		s = "var a =" + fill(" \t")
	case 6:
		s = "var a = 1" + fill("\n")
	case 7:
		s = "func f() {\n" + fill("\tg(a, b[i])\n") + "}"
	case 8:
		s = "var a = []int{" + fill("1, ") + "}"
	}
	return "package p\n\n" + s + "\nvar x = y\n"
}

// zzSrcDeep is a text with many levels of brackets.
func zzSrcDeep() string {
	n := zzv.Bound(1100, 3000)
	open, end := "(", ")"
	switch zzv.Pick(3) {
	case 1:
		open, end = "{", "}"
	case 2:
		open, end = "[", "]"
	}
	return []string{"var a = ", "func f(a ", "type T ", "func f() {", "type T struct {\n\ta "}[zzv.Pick(5)] + strings.Repeat(open, n) + "b" + strings.Repeat(end, n) + "\nvar x = y\n"
}

// zzSrcSeq is k declarations of every sort one after the other.
func zzSrcSeq(k int) string {
	s := ""
	for i := 0; i < k; i++ {
		s += zzDecl(zzv.Pick(zzNDecls))
		s += []string{"\n", "\n\n", " // end\n"}[zzv.Pick(3)]
	}
	return s
}

const zzNDecls = 20

// zzDecl is the i-th sort of top-level declaration around an arbitrary name.
func zzDecl(i int) string {
	x := zzIdent(1)
	switch i {
	case 0:
		return "package " + x
	case 1:
		return "import \"" + x + "\""
	case 2:
		return "import (\n\t\"a\"\n\t" + x + " \"b/c\"\n)"
	case 3:
		return "var " + x + " = func() { var a int }"
	case 4:
		return "var (\n\t" + x + " = 1\n\ttype1 = 2 // var\n)"
	case 5:
		return "const (\n\t" + x + " = iota\n\tb\n)"
	case 6:
		return "type " + x + " struct {\n\tfunc1 int\n\tF func()\n}"
	case 7:
		return "type (\n\t" + x + " int\n\tb = struct{}\n)"
	case 8:
		return "type " + x + " interface {\n\tfunc1()\n}"
	case 9:
		return "func " + x + "() {\n\tfunc() {\n\t\tvar b int\n\t}()\n}"
	case 10:
		return "func (a *T) " + x + "(b func()) (c type1, err error) {\n\treturn\n}"
	case 11:
		return "// " + x + " func\n// type T int"
	case 12:
		return "/* " + x + "\nfunc a() {}\n*/"
	case 13:
		return "//go:" + x
	case 14:
		return "var " + x + " = `\nfunc a() {}\n// b\n`"
	case 15:
		return "func " + x + "() {\nlabel:\n\tfor {\n\t\tbreak label // c\n\t}\n}"
	case 16:
		return "func " + x + "() {\n// unindented\n\tf('{', '\\'', \"\\\\\") /* g */\n/*h*/\n}"
	case 17:
		return "func " + x + "(\n\ta int,\n\tb ...string,\n) (\n\tc int,\n) {\n}"
	case 18:
		return "var " + x + " = []T{\n\t{1, 2},\n\tfunc() int { return 3 }(),\n}"
	}
	return "/**/"
}

// zzSrcEdge is a text with one literal, comment, word or run of separators of
// every small length, and of the lengths around common buffer sizes.
func zzSrcEdge() string {
	var n int
	switch zzv.Pick(3) {
	case 0:
		n = zzv.Pick(zzv.Bound(24, 140))
	case 1:
		n = []int{30, 62, 98, 126, 198, 254, 510, 998, 1022}[zzv.Pick(9)] + zzv.Pick(5)
	case 2:
		n = []int{2046, 4094, 8190, 9998, 16382, 32766, 65534}[zzv.Pick(zzv.Bound(4, 7))] + zzv.Pick(5)
	}
	i := zzv.Pick(10)
	if i > 6 && n > 3000 {
		n -= 2000 // many nodes
	}
	fill := func(used int, c string) string {
		if n < used {
			return ""
		}
		return strings.Repeat(c, n-used)
	}
	return "package p\n\n" + []string{
		"var a = \"" + fill(2, "b") + "\"",
		"var a = `" + fill(2, "b") + "`",
		"var a = '" + fill(2, "b") + "'",
		"/*" + fill(4, "b") + "*/",
		"//" + fill(2, "b"),
		"var " + fill(0, "b") + " = 1",
		"func " + fill(0, "b") + "() {}",
		"var a =" + fill(0, " ") + "1",
		"var a = 1" + fill(0, "\n"),
		"var a = f(" + fill(0, ",") + ")",
	}[i] + "\nvar x = y\n"
}

// zzSrcNear is a literal, comment or bracket between arbitrary bytes.
func zzSrcNear() string {
	s := []string{"", "var a = ", "func f() {\n", "type T struct {\n\ta b", "func f(a T"}[zzv.Pick(zzv.Bound(3, 5))]
	s += zzv.Str(zzv.Bound(1, 2))
	s += []string{"//d ( {", "/*d \"*/", "/*\n\n\n*/", "\"d//{\"", "\"\\\"\"", "`d'/*\n`", "'\\''", "'\"'", "(", "{", "[", ")", "}", "]", "func", "type", "return", "//", "/*", "\n"}[zzv.Pick(20)]
	s += zzv.Str(1)
	return s + []string{"\nx(\"y\", 'z')\n}\n\nvar x = y\n", "x(\"y\n'z`"}[zzv.Pick(2)]
}

// zzSrcMark is a text with a byte order mark or a part of one in front, inside
// or after a declaration.
func zzSrcMark() string {
	mark := []string{zzBOM, zzBOM + zzBOM, zzBOM[:2], zzBOM[1:], zzBOM + "\n", "\n" + zzBOM, " " + zzBOM, zzBOM + " ", "\xff\xfe", "\xfe\xff", "#!", "\x00", "\x1a", "\v", "\f"}[zzv.Pick(15)]
	x := string([]byte{zzv.Byte()})
	d := zzDecl(zzv.Pick(zzNDecls)) + "\n"
	switch zzv.Pick(5) {
	case 0:
		return mark + d + "var x = y\n"
	case 1:
		return mark + x + d
	case 2:
		return x + mark + d
	case 3:
		return d + mark + "var x = y\n"
	}
	return d + "var x = y\n" + mark
}

const zzAfterText = "package p\n\nconst aConstantWithALongName = 12345678901234567890 + \"abcdefghijklmnopqrst\" // a comment (x\n\n" +
	"func theFunctionWithALongName(theFirst aLongTypeName) (r, error) {\n\treturn `raw raw raw raw raw`\n}\n\ntype T struct {\n\ta []U `json:\"x\"`\n}\n"

// zzSrcAfter is a text that is parsed after one that differs from it in one place,
// so that what is remembered of the one would show in the other.
func zzSrcAfter() string {
	a := zzAfterText
	i := zzv.Pick(8)
	step := zzv.Bound(3, 1)
	p := zzv.Pick(len(a)/step)*step + i%step
	b := a
	switch i {
	case 0:
		b = a[:p]
	case 1:
		b = a[:p] + a[p+1:]
	default:
		b = a[:p] + []string{"1", "x", " ", "\"", "(", "+"}[i-2] + a[p+1:]
	}
	if zzv.Yes() {
		a, b = b, a
	}
	_, err := ParseScope(0, []byte(b))
	zzv.Assert(err == nil, "parsing returns no error")
	return a
}

// zzPragmas are comments that mean something to some tool.
var zzPragmas = []string{"//go:build a\n", "// +build a\n", "//go:generate a\n", "//go:embed a\n", "//go:noinline\n", "//go:linkname a b\n", "//nolint\n", "//nolint:all // b\n", "//lint:ignore a b\n", "// Deprecated: a\n", "// Code generated by a. DO NOT EDIT.\n", "//export a\n", "//line a.go:10\n", "/*line a.go:10*/\n", "// TODO: a\n", "// FIXME\n", "//#nosec\n", "//\n", "/**/\n", "//gofmt:off\n", "//revive:disable\n", "//goland:noinspection All\n", "//region\n", "//#include <a.h>\n", "/*\n#include <a.h>\n*/\n", "// Package a\n", "// Example:\n", "//!a\n", "///\n", "//-----\n", "/***/\n", "// @a\n", "// BUG(a): b\n", "//extern a\n", "//sys a\n"}

// zzPlainDecls are declarations of every sort.
var zzPlainDecls = []string{"type T struct {\n\ta, b U\n\tC\n}\n", "func (r R) f(a, b T) (c U, err error) {\n\treturn\n}\n", "type T interface {\n\tM(a T) U\n}\n", "func f(T, ...U) V { return }\n", "import \"C\"\n", "type T func(a U)\n", "var a = func(b T) {}\n", "package p\n", "const a = 1\n", "// a\n"}

// zzSrcPragmas is such a comment in front of, behind or in a declaration.
func zzSrcPragmas() string {
	c, d := zzPragmas[zzv.Pick(len(zzPragmas))], zzPlainDecls[zzv.Pick(len(zzPlainDecls))]
	switch zzv.Pick(3) {
	case 0:
		return c + zzOpt("\n") + d + "\nvar x = y\n"
	case 1:
		return d + zzOpt("\n") + c + d + "func (r R) f(a T) {\n\t" + c + c + "}\n"
	}
	return "package p\n\n" + c + d[:len(d)-1] + " " + c + "func f(a, b T) U {\n" + c + "\treturn // b\n}\n"
}

// zzSrcMega is a megabyte in one comment or raw literal between declarations; it returns the number of lines in it, too.
func zzSrcMega() (string, int) {
	n := 1<<20 + 1
	switch zzv.Pick(2) {
	case 0:
		return "package p\n\n/*" + strings.Repeat("c", n) + "*/\nfunc f(a T) {}\n", 4
	}
	return "package p\n\nvar a = `" + strings.Repeat("0123456789abcde\n", n/16+1) + "`\nfunc f(a T) {}\n", 4 + n/16 + 1
}
