package goast

import (
	"strings"

	"github.com/yanun0323/goast/zzv"
)

// zzClassified parses a declaration between two others and compares the kinds.
func zzClassified(g *zzGen) { zzClassifiedIn(g, "package p\n\n", 1, "\n\nvar z int\n") }

func zzClassifiedIn(g *zzGen, before string, at int, after string) {
	src := before + g.src() + after
	zzv.ObsStr("src", src)
	scs := zzMust(ParseScope(0, []byte(src)))
	zzv.Assert(len(scs) == at+2, "the declaration is one scope")
	zzCheckWant(scs[at].Node(), g.want, 0, "the kind of a name or type")
	zzv.Reach("checked")
}

// function parameters and results
func ZC07_func() {
	g := zzNewGen(zzv.Bound(5, 6))
	g.w("func ").c().id2(wFunc)
	g.c().w("(")
	g.params(zzv.Pick(zzNParams), zzv.Pick(zzNTypes), zzOneOr(2, 4))
	g.w(")")
	g.result(zzv.Pick(2)*5, 3)
	g.w(zzBodies[0])
	zzClassified(g)
}

func ZC07_result() {
	g := zzNewGen(4)
	g.w("func ").id2(wFunc)
	g.w([]string{"", "[T any]"}[zzv.Pick(2)])
	g.w("(")
	g.params(zzv.Pick(2), 1, 2)
	g.w(")")
	g.result(zzv.Pick(zzNResults), zzv.Pick(zzNTypes))
	g.c().w(zzBodies[zzOneOr(3, len(zzBodies))])
	zzClassified(g)
}

func ZC07_method() {
	g := zzNewGen(5)
	g.w("func ").c()
	zzRecv(g, zzv.Pick(zzNRecvs))
	g.w(" ").c().id2(wFunc)
	g.c().w("(")
	g.params(zzv.Pick(zzNParams), []int{0, 3, 5, 14}[zzv.Pick(zzv.Bound(2, 4))], 2)
	g.w(")")
	g.result(zzv.Pick(2)*3, 1)
	g.w(zzBodies[zzOneOr(0, len(zzBodies))])
	zzClassified(g)
}

// interface methods, with other rows around
func ZC07_interface() {
	g := zzNewGen(zzv.Bound(3, 5))
	g.w("type ").id2(wTypeName)
	g.w([]string{"", "[K any]"}[zzv.Pick(2)])
	g.w(" interface {\n")
	rows := zzv.Pick(3)
	if rows == 1 {
		g.w("\tF(a int) // b\n\n")
	}
	g.w("\t").c().id(wFunc)
	g.c().w("(")
	g.params(zzv.Pick(zzNParams), zzv.Pick(zzNTypes), 2)
	g.w(")")
	g.result(zzv.Pick(2)*zzv.Bound(2, 5), 3)
	g.w("\n")
	if rows == 2 {
		g.w("\tG // (c d)\n\t").id(wFunc)
		g.w("(")
		g.params(2, 0, 1)
		g.w(") error\n")
	}
	g.w("}")
	zzClassified(g)
}

// struct fields
func ZC07_struct() {
	g := zzNewGen(3)
	g.w("type ").id2(wTypeName)
	g.w([]string{"", "[K any, V comparable]"}[zzv.Pick(2)])
	g.w(" struct {\n")
	if zzv.Yes() {
		g.w("\tx int // a\n\n\t// b c\n")
	}
	f := zzv.Pick(zzNFields - 2)
	if f >= zzNTypes-2 {
		f += 2 // the last two types are for parameters only
	}
	zzField(g, f)
	g.w(zzOpt("\tz int\n\t_ struct{}\n")).w("}")
	zzClassified(g)
}

// every row next to every other
func ZC07_rows() {
	g := &zzGen{at1: -1, at2: -1, idlen: 1}
	g.w("type ").id2(wTypeName)
	g.w(" struct {\n")
	for i := 0; i < zzv.Bound(2, 2); i++ {
		f := zzv.Pick(zzNTypes - 1)
		if f == zzNTypes-2 {
			f = zzNTypes
		}
		g.w("\t")
		if f < zzNTypes {
			g.id(wName)
			g.w("  ").typ(f)
		} else {
			g.put("*p."+zzIdent(1), wType)
		}
		g.w(zzOpt(" `a`")).w("\n")
	}
	g.w("}")
	zzClassified(g)
}

// types defined as functions
func ZC07_functype() {
	g := zzNewGen(zzv.Bound(2, 5))
	g.w("type ").id2(wTypeName)
	g.w(" ").w(zzOpt("= ")).w("func(")
	g.params(zzv.Pick(zzNParams), zzv.Pick(zzNTypes), 2)
	g.w(")")
	g.result(zzv.Pick(zzv.Bound(4, zzNResults)), 3)
	zzClassified(g)
}

// many parameters and fields
func ZC07_many() {
	g := &zzGen{at1: -1, at2: -1, idlen: 1}
	n := zzv.Bound(12, 40)
	t := zzv.Pick(zzNTypes - 2)
	switch zzv.Pick(6) {
	case 3:
		g.w("func (r R) ").id2(wFunc)
		g.w("(")
		for i := 0; i < n; i++ {
			g.id(wName)
			g.w([]string{", ", ",\n\t"}[i/7%2])
		}
		g.id(wName)
		g.w(" ").typ(t)
		g.w(", z int) {\n}")
	case 4:
		g.w("type ").id2(wTypeName)
		g.w(" struct {\n\t")
		for i := 0; i < n; i++ {
			g.id(wName)
			g.w([]string{", ", ",\n\t"}[i/15%2])
		}
		g.id(wName)
		g.w(" ").typ(t)
		g.w("\n\tz, y T\n}")
	case 5:
		g.w("func ").id2(wFunc)
		g.w("() (")
		for i := 0; i < n; i++ {
			g.typ(t)
			g.w(", ")
		}
		g.w("error) {\n}")
	case 0:
		g.w("func ").id2(wFunc)
		g.w("(")
		for i := 0; i < n; i++ {
			g.id(wName)
			g.w(" ").typ(t)
			g.w(", ")
		}
		g.w("z int) {\n}")
	case 1:
		g.w("type ").id2(wTypeName)
		g.w(" struct {\n")
		for i := 0; i < n; i++ {
			g.w("\t").id(wName)
			g.w(" ").typ(t)
			g.w("\n")
		}
		g.w("}")
	case 2:
		g.w("type ").id2(wTypeName)
		g.w(" interface {\n")
		for i := 0; i < n; i++ {
			g.w("\t").id(wFunc)
			g.w("(")
			g.id(wName)
			g.w(" ").typ(t)
			g.w(")\n")
		}
		g.w("}")
	}
	zzClassified(g)
}

// long identifiers and identifiers that look like something else
func ZC07_oddnames() {
	odd := []string{"typeOf", "func1", "funcs", "T1_2", "struct1", "interfaceX", "mapper", "packageName", "importFunc", "\u00dcn\u00ef", "\u4e16\u754c", "intern", "string2", "chanT", "_", "_a", "__", "nil", "true", "iota", "error", "any", "aFunc", "myfunc", "Astruct", "subinterface", "remap", "retype", "xchan", "isreturn",
		"aVeryLongIdentifierWhichIsLongerThanSixtyFourBytesSoThatAnyFixedSizeBufferOverflows"}
	a, b := odd[zzv.Pick(len(odd))], odd[zzv.Pick(len(odd))]
	zzv.Assume(b != "_") // no type
	g := &zzGen{at1: -1, at2: -1, idlen: 1}
	switch zzv.Pick(8) {
	case 4:
		g.w("func f(x ").put("*"+a, wType)
		g.w(", y []").put("*"+b, wType)
		g.w(") (").put("p."+a, wType)
		g.w(", map[K]").put("*q."+b, wType)
		g.w(") {\n}")
	case 5:
		g.w("func f(").put(a, wType)
		g.w(", ").put("*"+b, wType)
		g.w(") ").put("*"+b, wType)
		g.w(" {\n}")
	case 6:
		g.w("type T struct {\n\t").put(a, wName)
		g.w(" ")
		g.put("*"+b, wType)
		g.w("\n\t").put("*"+b, wType)
		g.w("\n\t").put(b, wType)
		g.w(" `x`\n\t").put("p."+b, wType)
		g.w("\n}")
	case 7:
		g.w("type T func(").put(a, wName)
		g.w(" ...").put("*"+b, wType)
		g.w(") func(").put(a, wName)
		g.w(", ").put(a, wName)
		g.w(" p.").put(b, wType)
		g.w(") ").put(b, wType)
	case 0:
		g.w("func f(").put(a, wName)
		g.w(" ")
		g.put(b, wType)
		g.w(") {\n}")
	case 1:
		g.w("func (").put(a, wRecvName)
		g.w(" ")
		g.put(b, wRecvType)
		g.w(") f() ").put(b, wType)
		g.w(" {\n}")
	case 2:
		g.w("type T struct {\n\t").put(a, wName)
		g.w(" ")
		g.put(b, wType)
		g.w("\n}")
	case 3:
		g.w("type T interface {\n\t").put(a, wFunc)
		g.w("(x *").put(b, wType)
		g.w(")\n}")
	}
	zzClassified(g)
}

// brackets of every sort in the type parameters
func ZC07_typeparams() {
	g := zzNewGen(2)
	tp := zzTypeParams[zzv.Pick(len(zzTypeParams))]
	t := zzv.Pick(zzNTypes - 2)
	switch zzv.Pick(4) {
	case 0:
		g.w("func ").id2(wFunc)
		g.w(tp).w("(")
		g.params(1, t, 0)
		g.w(")")
		g.result(1, 0)
		g.w(" {\n}")
	case 1:
		g.w("type ").id2(wTypeName)
		g.w(tp).w(" struct {\n")
		zzField(g, t)
		g.w("}")
	case 2:
		g.w("type ").id2(wTypeName)
		g.w(tp).w(" interface {\n\t").id(wFunc)
		g.w("(")
		g.params(1, t, 0)
		g.w(")\n}")
	case 3:
		g.w("type ").id2(wTypeName)
		g.w(tp).w(" func(")
		g.params(3, t, 0)
		g.w(")")
	}
	zzClassified(g)
}

// brackets in the results in front of bodies of every sort
func ZC07_oneline() {
	g := &zzGen{at1: -1, at2: -1, idlen: 1}
	g.w("func ")
	if i := zzv.Pick(4); i > 0 {
		zzRecv(g, []int{0, 1, 3, 4}[i])
		g.w(" ")
	}
	g.id2(wFunc)
	g.w("(")
	g.params(zzv.Pick(2), []int{0, 8, 13, 14}[zzv.Pick(4)], 0)
	g.w(")")
	g.result(1+2*zzv.Pick(2), zzv.Pick(zzNTypes))
	g.w([]string{" {}", " { return g(x) }", " { return struct{}{}, g(x) }", " { return func(a T) (U, error) { return h(a) } }", " { return T{}.f(x)(y) }", " {\n\t{\n\t}\n\t(x)(y)\n}"}[zzv.Pick(6)])
	zzClassified(g)
}

// statements of every sort
func ZC07_stmts() { g, _, _ := zzStmtDecl(); zzClassified(g) }

// comments that mean something to some tool, in front of, in and behind declarations
func ZC07_pragmas() {
	g := &zzGen{at1: -1, at2: -1, idlen: 1}
	c := zzPragmas[zzv.Pick(len(zzPragmas))]
	switch zzv.Pick(3) {
	case 0:
		g.w("func ")
		zzRecv(g, 1)
		g.w(" ").id(wFunc)
		g.w("(")
		g.params(5, 14, 0)
		g.w(") ").id(wType)
		g.w(" {\n\t" + c + "\treturn\n}")
	case 1:
		g.w("type ").id(wTypeName)
		g.w(" struct {\n\t" + c + "\t").id(wName)
		g.w(", ").id(wName)
		g.w(" ").id(wType)
		g.w(" `a` " + c + "\t").id(wType)
		g.w(" " + c + "}")
	case 2:
		g.w("type ").id(wTypeName)
		g.w(" interface {\n\t" + c + "\t").id(wFunc)
		g.w("(").id(wName)
		g.w(" ").id(wType)
		g.w(") ").id(wType)
		g.w(" " + c + "\t").id(wFunc)
		g.w("()\n}")
	}
	switch zzv.Pick(3) {
	case 0:
		zzClassifiedIn(g, c, 1, "\n"+c)
	case 1:
		zzClassifiedIn(g, c+"\n", 1, "\n"+c)
	case 2:
		zzClassifiedIn(g, "package p\n"+c+"// a\n", 3, "\n"+c)
	}
}

// types nested and pointed to many times
func ZC07_deep() {
	g := &zzGen{at1: -1, at2: -1, idlen: 1}
	typ := func() {
		n := []int{2, 3, 10, 33, zzv.Bound(70, 300)}[zzv.Pick(5)]
		switch zzv.Pick(8) {
		case 0:
			g.put(strings.Repeat("*", n)+zzIdent(1), wType)
		case 1:
			g.w(strings.Repeat("[]*", n)).id(wType)
		case 2:
			g.w(strings.Repeat("map[K]", n)).id(wType)
		case 3:
			g.w(strings.Repeat("chan ", n)).id(wType)
		case 4:
			g.w(strings.Repeat("func() ", n)).id(wType)
		case 5:
			g.w(strings.Repeat("[3][]", n)).put("*p."+zzIdent(1), wType)
		case 6:
			g.id(wType)
			g.w("[" + strings.Repeat("G[", n) + "K" + strings.Repeat("]", n) + "]")
		case 7:
			for i := 0; i < n; i++ {
				g.w("func(").id(wName)
				g.w(" ")
			}
			g.id(wType)
			g.w(strings.Repeat(")", n))
		}
	}
	switch zzv.Pick(5) {
	case 0:
		g.w("func ").id2(wFunc)
		g.w("(").id(wName)
		g.w(" ")
		typ()
		g.w(", ").id(wName)
		g.w(" T) {}")
	case 1:
		g.w("func (r R) ").id2(wFunc)
		g.w("() (")
		typ()
		g.w(", error) {\n}")
	case 2:
		g.w("func ").id2(wFunc)
		g.w("() ")
		typ()
		g.w(" {\n}")
	case 3:
		g.w("type ").id2(wTypeName)
		g.w(" struct {\n\t").id(wName)
		g.w(" ")
		typ()
		g.w(" // c\n\tz int\n}")
	case 4:
		g.w("type ").id2(wTypeName)
		g.w(" interface {\n\t").id(wFunc)
		g.w("(").id(wName)
		g.w(" ")
		typ()
		g.w(")\n\tF()\n}")
	}
	zzClassified(g)
}

// hundreds of parameters, results, fields and methods
func ZC07_lots() {
	g := &zzGen{at1: -1, at2: -1, idlen: 1}
	n := []int{70, 130, 260, 1030}[zzv.Pick(4)]
	t := 0
	if n < 1000 {
		t = []int{0, 5, 10}[zzv.Pick(3)]
	}
	row := func(named bool) {
		if named {
			g.put("a", wName)
			g.w(" ")
		}
		g.typ(t)
	}
	switch zzv.Pick(5) {
	case 0:
		g.w("func (r R) ").id2(wFunc)
		g.w("(")
		for i := 0; i < n; i++ {
			g.put("a", wName)
			g.w(" ")
			g.put("T", wType)
			g.w(", ")
		}
		row(true)
		g.w(") (")
		row(true)
		g.w(", err error) {\n}")
	case 1:
		g.w("func ").id2(wFunc)
		g.w("() (")
		for i := 0; i < n; i++ {
			g.put("T", wType)
			g.w(", ")
		}
		row(false)
		g.w(") {\n}")
	case 2:
		g.w("type ").id2(wTypeName)
		g.w(" struct {\n")
		for i := 0; i < n; i++ {
			g.w("\t")
			g.put("a", wName)
			g.w(" ")
			g.put("T", wType)
			g.w("\n")
		}
		g.w("\t")
		row(true)
		g.w("\n}")
	case 3:
		g.w("type ").id2(wTypeName)
		g.w(" interface {\n")
		for i := 0; i < n; i++ {
			g.w("\t")
			g.put("f", wFunc)
			g.w("(")
			g.put("a", wName)
			g.w(" ")
			g.put("T", wType)
			g.w(")\n")
		}
		g.w("\t").id(wFunc)
		g.w("(")
		row(true)
		g.w(")\n}")
	case 4:
		g.w("func ").id2(wFunc)
		g.w("(")
		for i := 0; i < n; i++ {
			g.put("a", wName)
			g.w(", ")
		}
		row(true)
		g.w(") {\n}")
	}
	zzClassified(g)
}
