package goast

import (
	"strings"

	"github.com/yanun0323/goast/zzv"
)

// zzEqualScope compares a scope with another one that stands some lines later.
func zzEqualScope(a, b Scope, shift, max int) {
	zzv.Assert(a.Kind() == b.Kind(), "the scope has the same kind")
	zzv.Assert(a.Line()+shift == b.Line(), "the scope has the same line")
	x, y := zzChain(a.Node(), max), zzChain(b.Node(), max)
	zzv.Assert(len(x) == len(y), "the scope has the same nodes")
	for i := 0; i < len(x) && i < len(y); i++ {
		zzv.Assert(x[i].Text() == y[i].Text(), "the nodes have the same texts")
		zzv.Assert(x[i].Kind() == y[i].Kind(), "the nodes have the same kinds")
		zzv.Assert(x[i].Line()+shift == y[i].Line(), "the nodes have the same lines")
	}
}

// zzAlone parses the text of every scope of src by itself.
func zzAlone(src string) { zzAloneAt(7, src) }

func zzAloneAt(start int, src string) {
	zzv.ObsStr("src", src)
	max := 2*len(src) + 8
	for _, sc := range zzMust(ParseScope(start, []byte(src))) {
		text := zzText(zzChain(sc.Node(), max))
		zzv.ObsStr("scope", text)
		one := zzMust(ParseScope(sc.Line()-1, []byte(text)))
		zzv.Assert(len(one) == 1, "a scope's text is one scope")
		zzEqualScope(sc, one[0], 0, max)
	}
	zzv.Reach("checked")
}

func ZC25_raw()    { zzAloneAt([]int{0, -3}[zzv.Pick(2)], zzSrcRaw(len(zzCtx), zzv.Bound(2, 3))) }
func ZC25_lex()    { zzAlone(zzSrcLex(len(zzCtx), zzv.Bound(2, 4))) }
func ZC25_closed() { zzAlone(zzSrcClosed(zzv.Bound(2, 3))) }
func ZC25_near()   { zzAlone(zzSrcNear()) }
func ZC25_seq()    { zzAlone(zzSrcSeq(zzv.Bound(2, 3))) }
func ZC25_big()    { zzAlone(zzSrcBig()) }
func ZC25_edge()   { zzAlone(zzSrcEdge()) }
func ZC25_mark()   { zzAlone(zzSrcMark()) }
func ZC25_exprs()  { zzAlone(zzSrcExprs()) }

// a text that breaks off, between declarations
func ZC25_pieces() {
	i := zzv.Pick(zzNDecls)
	j := i * 7 % zzNDecls
	if zzv.Thorough() {
		j = zzv.Pick(zzNDecls)
	}
	zzAlone(zzDecl(i) + "\n" + zzSrcPieces(0, len(zzOpenings), 1, len(zzPieces)) + "\n" + zzDecl(j) + "\n")
}

// zzWith is a declaration among others that have the same names in other places.
func zzWith(d string) {
	i := []int{2, 6, 3, 1, 0, 4, 5, 7, 8, 9}[zzv.Pick(zzv.Bound(2, 10))]
	before := []string{"", "package p\n", "type T struct {\n\ta T\n\tb func(c U) V\n}\n\n", "func f(T, U int) (a, b V) {\n}\n", "/* T\n */\n// a\n", "var (\n\ta T\n\tb = func(T int) {}\n)\n", "type a = int\ntype b func(T U) V\n", "func (a *T) b(c func(T)) {}\n", "import T \"a\"\nimport b \"U\"\n", "var x = `\n\n`\nconst a, b, T = '\\n', \"\", 1\n"}[i]
	after := []string{"", "// a T\n", "type T a\n", "func b(a func(b T)) T {\n}\n"}[i%4]
	zzTogether([]string{before, d, after})
}

// zzTogether parses texts together and each by itself.
func zzTogether(texts []string) {
	start := 5
	src := strings.Join(texts, "")
	zzv.ObsStr("src", src)
	scs := zzMust(ParseScope(start, []byte(src)))
	max := 2*len(src) + 8
	line := start
	k := 0
	for _, t := range texts {
		for _, sc := range zzMust(ParseScope(0, []byte(t))) {
			zzv.Assert(k < len(scs), "texts together have the scopes of each")
			if k < len(scs) {
				zzEqualScope(sc, scs[k], line, max)
			}
			k++
		}
		line += strings.Count(t, "\n")
	}
	zzv.Assert(k == len(scs), "texts together have the scopes of each")
	zzv.Reach("checked")
}

func ZC25_decl() {
	d := zzSrcDecl() + "\n"
	_, ok := zzLexFile(d)
	zzv.Assume(ok)
	zzWith(d)
}

func ZC25_many() {
	n := zzv.Bound(20, 60)
	t := []string{}
	for i := 0; i < n; i++ {
		t = append(t, "type a func(b T) (c U)\n", "func (r R) a(b, c T) (d U) { return }\n\n", "// d\n")
	}
	step := zzv.Bound(5, 1)
	i := zzv.Pick(len(t)/step) * step
	t[i] = zzDecl(zzv.Pick(zzNDecls)) + "\n"
	zzTogether(t)
}

// declarations of every sort in every order
func ZC25_order() {
	t := []string{}
	for i := 0; i < zzv.Bound(2, 3); i++ {
		t = append(t, zzDecl(zzv.Pick(zzNDecls))+[]string{"\n", "\n\n\n", " // end\n"}[zzv.Pick(3)])
	}
	zzTogether(t)
}

// functions with statements and expressions of every sort
func ZC25_stmts() {
	g, _, _ := zzStmtDecl()
	zzWith(g.src() + "\n")
}

// comments that mean something to some tool, in front of and behind declarations
func ZC25_pragmas() { zzAlone(zzSrcPragmas()) }

func ZC25_pragma() {
	zzTogether([]string{zzPragmas[zzv.Pick(len(zzPragmas))] + zzOpt("\n"), zzPlainDecls[zzv.Pick(len(zzPlainDecls))], "// " + zzIdent(1) + "\n"})
}

// hundreds of declarations: one somewhere is what it is by itself
func ZC25_lots() {
	n := []int{130, 260, 520, 1030}[zzv.Pick(zzv.Bound(3, 4))]
	at := []int{n - 1, 64, 127}[zzv.Pick(zzv.Bound(1, 3))]
	fill := []string{"var a = b\n", "// c\n", "func f(a T) U {}\n", "type T struct {\n\ta U\n}\n"}[zzv.Pick(4)]
	d := zzDecl(1+zzv.Pick(zzNDecls-1)) + "\n"
	src := strings.Repeat(fill, at) + d + strings.Repeat(fill, n-1-at)
	scs := zzMust(ParseScope(0, []byte(src)))
	one := zzMust(ParseScope(0, []byte(d)))
	own := len(zzMust(ParseScope(0, []byte(fill))))
	zzv.Assert(len(scs) == (n-1)*own+len(one), "texts together have the scopes of each")
	for i, sc := range one {
		zzEqualScope(sc, scs[at*own+i], at*strings.Count(fill, "\n"), 2*len(d)+8)
	}
	// the last one, too
	rest := zzMust(ParseScope(0, []byte(fill)))
	if at < n-1 {
		zzEqualScope(rest[own-1], scs[len(scs)-1], (n-2)*strings.Count(fill, "\n")+strings.Count(d, "\n"), 2*len(fill)+8)
	}
	zzv.Reach("checked")
}
