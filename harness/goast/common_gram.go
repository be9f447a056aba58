package goast

import (
	"strings"

	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/zzv"
)

// zzWant is what the declaration says about the identifier at an offset.
type zzWant struct {
	off  int
	text string
	k    int // wName or wType ...
}

const (
	wName = iota
	wType
	wRecvName
	wRecvType
	wFunc
	wTypeName
)

// zzGen writes declarations in gofmt's layout and records what they declare.
type zzGen struct {
	sb       strings.Builder
	want     []zzWant
	gap      int // gaps passed so far
	at1, at2 int // gaps that get a comment
	c1       string
	idlen    int
	spans    [][2]int // where names and types stand
}

// zzNewGen chooses up to one (thorough: two) of the first n gaps for a comment.
func zzNewGen(n int) *zzGen {
	g := &zzGen{at1: -1, at2: -1, idlen: 1}
	g.at1 = zzv.Pick(n+1) - 1
	if g.at1 >= 0 {
		g.c1 = []string{"/*c*/", "/* ( { [ , func T\n\" */"}[zzv.Pick(2)]
	}
	if zzv.Thorough() && g.at1 >= 0 {
		g.at2 = g.at1 + 1 + zzv.Pick(2)
	}
	return g
}

func (g *zzGen) w(s string) *zzGen { g.sb.WriteString(s); return g }

// tp writes type parameters in the i-th form.
const zzNTypeParams = 4

func (g *zzGen) tp(i int) *zzGen {
	return g.ws([]string{"", "[T any, U comparable]", "[\n\tT any, // (a b) {\n\tU interface{ ~int },\n]", "[T interface{ M(a U) V }, U []struct{}]"}[i])
}

// zzTypeParams are more forms of type parameters, with brackets in every place
// where a parameter follows.
var zzTypeParams = []string{
	"[K ~[]T, V any]", "[K map[string]int, V any]", "[K interface{ M([]T) [3]U }, V map[K][]W]", "[K ~[]T | ~map[U][3]V, W, X any]", "[K [4]T, V ~struct{ a []U }]",
	"[K, V any, W p.T[K, []V]]", "[\n\tK []T,\n\tV func(a []U) (b [3]W, err error),\n]", "[K any /* ] */, V any]", "[K chan []T, V *[]U, W interface{ ~int | ~string }]", "[_ any, K p.T]", "[K []func(T) [2]U, V any]", "[K interface {\n\t// ] [\n\tM()\n}]",
}

// c is a gap where a comment may stand, in gofmt's spacing.
func (g *zzGen) c() *zzGen {
	if g.gap == g.at1 || g.gap == g.at2 {
		g.sb.WriteString(" ")
		g.sb.WriteString(g.c1)
		g.sb.WriteString(" ")
	}
	g.gap++
	return g
}

func (g *zzGen) id(k int) string {
	s := zzIdent(g.idlen)
	g.put(s, k)
	return s
}

// ws writes text that contains names and types.
func (g *zzGen) ws(s string) *zzGen {
	g.spans = append(g.spans, [2]int{g.sb.Len(), g.sb.Len() + len(s)})
	return g.w(s)
}

func (g *zzGen) put(s string, k int) {
	g.spans = append(g.spans, [2]int{g.sb.Len(), g.sb.Len() + len(s)})
	g.want = append(g.want, zzWant{g.sb.Len(), s, k})
	g.sb.WriteString(s)
}

func (g *zzGen) src() string { return g.sb.String() }

const zzNTypes = 29

// typ writes the i-th form of type.
func (g *zzGen) typ(i int) {
	from := g.sb.Len()
	g.typ0(i)
	g.spans = append(g.spans, [2]int{from, g.sb.Len()})
}

func (g *zzGen) typ0(i int) {
	switch i {
	case 0:
		g.id(wType)
	case 1:
		g.put("*"+zzIdent(1), wType)
	case 2:
		g.w("[]").id(wType)
	case 3:
		g.w("map[K]").id(wType)
	case 4:
		g.put("p."+zzIdent(1), wType)
	case 5:
		g.w("func(")
		g.id(wType)
		g.w(") ")
		g.id(wType)
	case 6:
		g.w("chan ").id(wType)
	case 7:
		g.w("int")
	case 8:
		g.w("interface{}")
	case 9:
		g.id(wType)
		g.w("[K]")
	case 10:
		g.w("[]")
		g.put("*p."+zzIdent(1), wType)
	case 11:
		g.w("map[string]int")
	case 12:
		g.w("[3]").id(wType)
	case 13:
		g.w("struct{}")
	case 14:
		g.w("func(")
		g.id(wName)
		g.w(" ")
		g.id(wType)
		g.w(") (")
		g.id(wType)
		g.w(", error)")
	case 15:
		g.id(wType)
		g.w("[K, V]")
	case 16:
		g.w("*func(")
		g.id(wName)
		g.w(" ").id(wType)
		g.w(") ").id(wType)
	case 17:
		g.w("[]func(")
		g.id(wName)
		g.w(" ").id(wType)
		g.w(") (")
		g.id(wName)
		g.w(" ").id(wType)
		g.w(")")
	case 18:
		g.w("map[K]func(").id(wType)
		g.w(")")
	case 19:
		g.w("interface{ M(T) (U, error) }")
	case 20:
		g.w("struct{ a T }")
	case 21:
		g.w("chan func(").id(wType)
		g.w(") ").id(wType)
	case 22:
		g.w("func(func(")
		g.id(wName)
		g.w(" ").id(wType)
		g.w(") ").id(wType)
		g.w(", ").id(wType)
		g.w(") ").id(wType)
	case 23:
		g.w("interface{ A(x, y T, z func(t T) (U, V)) }")
	case 24:
		g.w("func() func(")
		g.id(wName)
		g.w(" ").id(wType)
		g.w(")")
	case 25:
		g.w("func(")
		g.id(wName)
		g.w(" ").id(wType)
		g.w(") /* (c, */ (")
		g.id(wName)
		g.w(" ").id(wType)
		g.w(", _ ").id(wType)
		g.w(")")
	case 26:
		g.w("func( /* a */ ")
		g.id(wName)
		g.w(" /* ) */ []").id(wType)
		g.w(", _ ...").id(wType)
		g.w(") /* d */ ").id(wType)
	case 27:
		g.w("struct {\n\tb int\n\tc, d struct{ e T }\n\tf func(g U, h struct{}) (V, W) `i`\n}")
	case 28:
		g.w("interface {\n\tA()\n\tB(c struct{ d T }, e func(struct{}, U) (V, W))\n\tG // }\n}")
	}
}

// params writes a parameter list without parentheses in the i-th form.
const zzNParams = 12

func (g *zzGen) params(i, t1, t2 int) {
	switch i {
	case 0:
	case 1: // a T
		g.c().id(wName)
		g.w(" ").c().typ(t1)
		g.c()
	case 2: // a T, b U
		g.c().id(wName)
		g.w(" ").typ(t1)
		g.c().w(", ").c().id(wName)
		g.w(" ").typ(t2)
		g.c()
	case 3: // T
		g.c().typ(t1)
		g.c()
	case 4: // T, U
		g.c().typ(t1)
		g.c().w(", ").c().typ(t2)
		g.c()
	case 5: // over several lines, with line comments
		g.w("\n\t").c().id(wName)
		g.w(" ").typ(t1)
		g.c().w(", // one, (two) {\n\t").id(wName)
		g.w(" ").typ(t2)
		g.w(",\n")
	case 6: // a T, b ...U
		g.c().id(wName)
		g.w(" ").typ(t1)
		g.c().w(", ").id(wName)
		g.w(" ").c().w("...").typ(t2)
	case 7: // ...T
		g.w("...").typ(t1)
		g.c()
	case 8: // _ T, b U, over several lines
		g.w("\n\t").c().id(wName)
		g.w(" ").typ(t1)
		g.w(",\n\t").put("_", wName)
		g.w(" ").typ(t2)
		g.c().w(", ").id(wName)
		g.w(" ").id(wType)
		g.w(", // x\n")
	case 9: // a, b T
		g.c().id(wName)
		g.c().w(", ").c().id(wName)
		g.w(" ").c().typ(t1)
		g.c()
	case 10: // a T, b, _ U
		g.id(wName)
		g.w(" ").typ(t1)
		g.c().w(", ").id(wName)
		g.c().w(", ").put("_", wName)
		g.w(" ").typ(t2)
	case 11: // a, b T, c, d U, over several lines
		g.w("\n\t").id(wName)
		g.c().w(", // x\n\t").c().id(wName)
		g.w(" ").typ(t1)
		g.w(",\n\n\t").id(wName)
		g.c().w(",\n\t").id(wName)
		g.w(" ").typ(t2)
		g.w(",\n")
	}
}

func (g *zzGen) id2(k int) string {
	s := zzIdent(2)
	g.put(s, k)
	return s
}

// result writes the results behind a parameter list, with the leading space.
const zzNResults = 6

func (g *zzGen) result(i, t int) {
	switch i {
	case 0:
	case 1: // single
		g.w(" ").c().typ(t)
	case 2:
		g.w(" ").c().w("(")
		g.params(4, t, 0)
		g.w(")")
	case 3:
		g.w(" (")
		g.params(2, t, 0)
		g.w(")")
	case 4:
		g.w(" (")
		g.params(3, t, 0)
		g.w(")")
	case 5:
		g.w(" (")
		g.params(5, t, 0)
		g.w(")")
	}
}

var zzBodies = []string{
	" {\n}", " {}", " { return g(x) }",
	" {\n\tx := func(q Q) (R, error) { return q(r) }\n\tg(x, \"}{)(\", '}', `\n}`)\n\ttype L struct { a int }\n\tif a { b[c](d) } // }\n}",
	" {\n\t// }\n\t/* } */\n\treturn S{a: func() {}}.M(b, c)\n}",
}

// zzKindOK tells whether a node's kind is the wanted one.
func zzKindOK(k kind.Kind, w int) bool {
	switch w {
	case wName:
		return k == kind.ParamName
	case wType:
		return k == kind.ParamType
	case wRecvName:
		return k == kind.MethodReceiverName
	case wRecvType:
		return k == kind.MethodReceiverType
	case wFunc:
		return k == kind.FuncName
	case wTypeName:
		return k == kind.TypeName
	}
	return false
}

// zzCheckWant compares the nodes from n with what the declaration says.
func zzCheckWant(n *Node, want []zzWant, base int, label string) {
	off := base
	k := 0
	for x := n; x != nil; x = x.Next() {
		end := off + len(x.Text())
		for k < len(want) && want[k].off < end {
			w := want[k]
			if w.k == wName || w.k == wRecvName || w.k == wFunc || w.k == wTypeName || w.k == wRecvType {
				zzv.Assert(off == w.off && x.Text() == w.text, label+": the identifier is one node")
			}
			zzv.Assert(zzKindOK(x.Kind(), w.k), label)
			k++
		}
		off = end
	}
	zzv.Assert(k == len(want), label+": every identifier is found")
}

const zzNRecvs = 10

// zzRecv writes the i-th form of receiver.
func zzRecv(g *zzGen, i int) (recv string) {
	t := zzIdent(1)
	r := func() *zzGen { g.id(wRecvName); return g.w(" ") }
	switch i {
	case 0:
		recv = t
		g.w("(")
		r().c().put(t, wRecvType)
		g.c().w(")")
	case 1:
		recv = "*" + t
		g.w("(").c()
		r().put(recv, wRecvType)
		g.w(")")
	case 2:
		recv = t
		g.w("(").c().put(t, wRecvType)
		g.c().w(")")
	case 3:
		recv = "*" + t
		g.w("(").put(recv, wRecvType)
		g.c().w(")")
	case 4:
		recv = "*" + t
		g.w("(")
		r().c().put(recv, wRecvType)
		g.ws("[K, V]").c().w(")")
	case 5:
		recv = t
		g.w("(").put(t, wRecvType)
		g.ws("[K]").w(")")
	case 6:
		recv = "*" + t
		g.w("(").put(recv, wRecvType)
		g.ws("[K, V]").w(")")
	case 7:
		recv = t
		g.w("(").put("_", wRecvName)
		g.w(" ").put(t, wRecvType)
		g.w(")")
	case 8:
		recv = "*" + t
		g.w("(\n\t")
		r().c().put(recv, wRecvType)
		g.w(",\n)")
	case 9:
		recv = t
		g.w("( // (a b) {\n\t").put(t, wRecvType)
		g.w(", // c) d\n)")
	}
	return recv
}

// zzDefs are right-hand sides of type declarations; the prefix says the sort.
var zzDefs = []string{
	"s struct {\n\ta int\n\tb interface{}\n}", "s struct{}", "s struct {\n\tf func(x interface{}) struct{} // interface\n\tQ\n}",
	"s struct {\n\ta struct {\n\t\tb int\n\t}\n\tc int `json:\"interface\"`\n}",
	"i interface {\n\tF(a struct{}) struct{}\n\tG\n}", "i interface{}", "i interface {\n\t// struct {\n\tH(func(struct{}) T) error\n}",
	"o int", "o T", "o *T", "o []struct{}", "o map[string]struct{}", "o map[K]interface{}", "o func(a struct{}) interface{}",
	"o func() struct{}", "o chan struct{}", "o [3]struct{}", "o p.T[struct{}]", "o func(x interface{ M() }) (a T, err error)", "o []interface {\n\tF()\n}",
	"o chan interface{}", "o *struct {\n\ta int\n}", "o T // struct {", "o T /* interface{} */",
}

// zzField writes the i-th form of a field of a struct.
func zzField(g *zzGen, i int) {
	g.w("\t").c()
	if i < zzNTypes {
		g.id(wName)
		g.w(" ").c().typ(i)
	} else {
		switch i - zzNTypes {
		case 0:
			g.id(wType)
		case 1:
			g.put("*"+zzIdent(1), wType)
		case 2:
			g.put("p."+zzIdent(1), wType)
		case 3:
			g.put("*p."+zzIdent(1), wType)
		case 4:
			g.put("_", wName)
			g.w(" ").put("*p."+zzIdent(1), wType)
		case 5: // rows within a row
			g.id(wName)
			g.w(" struct {\n\t\t")
			g.id(wName)
			g.w(" int\n\n\t\t").id(wName)
			g.w(" func(").id(wName)
			g.w(" ").id(wType)
			g.w(") // c\n\t\t").id(wType)
			g.w(" `a`\n\t}")
		case 6:
			g.id(wName)
			g.w(" ").ws("map[K]").w("interface {\n\t\t").id(wFunc)
			g.w("()\n\t\t").id(wFunc)
			g.w("(").id(wName)
			g.w(" ").id(wType)
			g.w(") (").id(wType)
			g.w(", ").id(wType)
			g.w(") // c\n\n\t\t").id(wTypeName)
			g.w("\n\t}")
		case 7:
			g.id(wName)
			g.w(" ").ws("[]*struct").w(" {\n\t\t").id(wName)
			g.w(" interface {\n\t\t\t").id(wFunc)
			g.w("(").id(wType)
			g.w(")\n\t\t}\n\t\t").id(wName)
			g.w(" struct {\n\t\t\t").id(wName)
			g.w("   struct{}\n\t\t\t").id(wName)
			g.w(" ").id(wType)
			g.w("\n\t\t}\n\t\t").id(wName)
			g.w(" ").id(wType)
			g.w("\n\t}")
		case 8: // several names
			g.id(wName)
			g.c().w([]string{", ", ",\n\t"}[zzv.Pick(2)]).c().id(wName)
			g.w(" ").c().typ(14)
		case 9:
			g.put("_", wName)
			g.w(", ").id(wName)
			g.c().w(", // d (e f)\n\t").c().id(wName)
			g.w(" func(").id(wName)
			g.c().w(", ").id(wName)
			g.w(" ").id(wType)
			g.w(") ").c().id(wType)
		}
	}
	g.c().w([]string{"", " `json:\"a,omitempty\" b:\"c d\"`", " // e (f g) { h", " /* i j */", " `k` // l", " \"m:\\\"n o\\\"\""}[zzv.Pick(6)]).w("\n")
}

const zzNFields = zzNTypes + 10

// zzExprs are expressions that hold what declarations hold.
var zzExprs = []string{
	"func(x T) {}", "func(x, y T) (z U, err error) { return x(y) }", "func(*T, ...U) V { return nil }", "[]func(x T) U{nil}", "struct{ a T }{1}", "&struct {\n\ta, b T `c`\n\tD\n}{}",
	"map[string]func(x T) (y U){}", "interface{ M(x T) U }(nil)", "interface {\n\tM(x T) (y U)\n\tN\n}(nil)", "func() func(x T) U { return func(y V) {} }()", "(*T).m(x, \"y\")", "T[K, V]{a: func(x T) {}}",
	"make(chan func(x T), 1)", "x.(interface{ M(y T) })", "new(struct{ f func(x T) U })", "func /* c */ (x T) /* d */ (y U) {\n\t// z\n}", "*x + _ - 1 << y", "'\\''", "func(x T) U {\n\ttype L struct{ a T }\n\tvar f func(y T)\n\treturn func(z V) {}\n}(1)(2)",
}

// zzStmts are statements around an expression.
var zzStmts = []string{"x := ", "var f func(a T) U = ", "go ", "defer g(", "return ", "if a := ", "type L struct{ a T }; b = ", "for _, c := range ", "switch d := e.(type) { case func(a T): }; f(", "const k = 1; h[", "type M = func(a T) (b U); _ = ", "type (\n\t\tN interface{ O(a T) }\n\t)\n\tl: "}

func zzStmt(i int, e string) string {
	s := zzStmts[i]
	switch s[len(s)-1] {
	case '(':
		return s + e + ")"
	case '[':
		return s + e + "]()"
	}
	if i == 5 || i == 7 {
		return s + e + " { a(b) }"
	}
	return s + e
}

// zzStmtDecl is a function with statements and expressions of every sort, on one
// line and on several; its name and its receiver's type are returned too.
func zzStmtDecl() (*zzGen, string, string) {
	g := &zzGen{at1: -1, at2: -1, idlen: 1}
	g.w("func ")
	recv := ""
	if i := zzv.Pick(zzv.Bound(2, 3)); i > 0 {
		recv = zzRecv(g, []int{0, 1, 4}[i])
		g.w(" ")
	}
	name := g.id2(wFunc)
	g.w("(")
	g.params(zzOneOr(1, 3), 14, 0)
	g.w(")")
	g.result(zzOneOr(1, 4), 5)
	st := zzStmt(zzv.Pick(len(zzStmts)), zzExprs[zzv.Pick(len(zzExprs))])
	switch zzv.Pick(4) {
	case 0:
		g.w(" { " + st + " }")
	case 1:
		g.w(" {\n\t" + st + "\n}")
	case 2:
		g.w(" {\n\tif a {\n\t\t" + st + "\n\t} // c\n\tx = 1\n}")
	case 3:
		g.w(" { a(b); " + st + "; c(d) } // e")
	}
	return g, name, recv
}

// zzSrcExprs has an expression of any sort as the value of a variable or constant.
func zzSrcExprs() string {
	e := zzExprs[zzv.Pick(len(zzExprs))]
	src := []string{"var x = ", "var x T = ", "var x, y func(a T) U = z, ", "const c = ", "var _ = ", "var (\n\tx = ", "var (\n\tx, y T\n\tz func(a T) U = ", "var\tx\t=\t", "var x /* c */ = /* d */ ", "const (\n\tx = iota\n\ty = "}[zzv.Pick(10)] + e
	if strings.HasPrefix(src, "var (") || strings.HasPrefix(src, "const (") {
		src += "\n)"
	}
	return zzOpt("package p\n\n") + src + []string{"\n", " // c\n", "\n\nfunc g(a T) U {\n}\n"}[zzv.Pick(3)]
}
