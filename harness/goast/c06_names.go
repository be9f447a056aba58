package goast

import (
	"strings"

	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzv"
)

// zzAround puts other declarations around a declaration; the scope index of the
// declaration itself is returned.
func zzAround(src string) (string, int) {
	switch zzv.Pick(4) {
	case 1:
		return "package p\n\n// doc of func x(a T)\n" + src + "\n\nfunc after(z Z) Q {\n}\n", 2
	case 2:
		return src + "\n// type X struct {}\ntype After interface{}\n", 0
	case 3:
		return "type Before[T any] struct {\n\ta func(b T) c\n}\n\n" + src + " // end", 1
	}
	return src + "\n", 0
}

type zzNames struct {
	fn, meth, recv, typ, str, ifc string
	isF, isM, isT, isS, isI       bool
}

func zzCheckNames(sc Scope, w zzNames) {
	s, ok := sc.GetFuncName()
	zzv.ObsStr("func", s)
	zzv.ObsBool("func", ok)
	zzv.Assert(ok == w.isF, "GetFuncName answers whether this is a func")
	zzv.Assert(!ok || s == w.fn, "GetFuncName is the declared name")
	s, ok = sc.GetMethodName()
	zzv.ObsBool("method", ok)
	zzv.Assert(ok == w.isM, "GetMethodName answers whether this is a method")
	zzv.Assert(!ok || s == w.meth, "GetMethodName is the declared name")
	s, ok = sc.GetMethodReceiver()
	zzv.ObsBool("recv", ok)
	zzv.Assert(ok == w.isM, "GetMethodReceiver answers whether this is a method")
	zzv.Assert(!ok || s == w.recv, "GetMethodReceiver is the receiver's type")
	s, ok = sc.GetTypeName()
	zzv.ObsBool("type", ok)
	zzv.Assert(ok == w.isT, "GetTypeName answers whether this is a type")
	zzv.Assert(!ok || s == w.typ, "GetTypeName is the declared name")
	s, ok = sc.GetStructName()
	zzv.ObsBool("struct", ok)
	zzv.Assert(ok == w.isS, "GetStructName answers whether this is a struct")
	zzv.Assert(!ok || s == w.typ, "GetStructName is the declared name")
	s, ok = sc.GetInterfaceName()
	zzv.ObsBool("interface", ok)
	zzv.Assert(ok == w.isI, "GetInterfaceName answers whether this is an interface")
	zzv.Assert(!ok || s == w.typ, "GetInterfaceName is the declared name")
}

func zzNamesOf(src string, at int, k scope.Kind, w zzNames) {
	zzv.ObsStr("src", src)
	scs := zzMust(ParseScope(0, []byte(src)))
	zzv.Assert(at < len(scs) && scs[at].Kind() == k, "the declaration is a scope of its kind")
	zzCheckNames(scs[at], w)
	zzCheckNames(scs[at].Copy(), w)
	zzv.Reach("checked")
}

// function declarations: name × type parameters × parameters × results × body × comment position
func ZC06_func() {
	g := zzNewGen(8)
	g.w("func ").c()
	name := zzIdent(zzv.Bound(2, 3))
	g.w(name)
	g.c().tp(zzv.Pick(zzNTypeParams)).c().w("(")
	t := []int{0, 14, 5, 3}[zzv.Pick(zzv.Bound(2, 4))]
	g.params(zzv.Pick(zzNParams), t, 2)
	g.w(")")
	g.result(zzv.Pick(zzNResults), t)
	g.c().w(zzBodies[zzv.Pick(2)*3])
	zzNamesOf(g.src()+"\n", 0, scope.Func, zzNames{fn: name, isF: true})
}

// the same with every body and surrounding, fewer parameter forms
func ZC06_func_around() {
	g := zzNewGen(3)
	g.w("func ").c()
	name := zzIdent(2)
	g.w(name).w("(")
	g.params(1, []int{0, 8, 13}[zzv.Pick(3)], 0)
	g.w(")")
	g.result(zzv.Pick(2), 5)
	g.w(zzBodies[zzv.Pick(len(zzBodies))])
	src, at := zzAround(g.src())
	zzNamesOf(src, at, scope.Func, zzNames{fn: name, isF: true})
}

func ZC06_method() {
	g := zzNewGen(7)
	g.w("func ").c()
	recv := zzRecv(g, zzv.Pick(zzNRecvs))
	g.w(" ").c()
	name := zzIdent(zzv.Bound(2, 3))
	g.w(name).c().w("(")
	t := []int{0, 14, 5, 3}[zzv.Pick(zzv.Bound(2, 4))]
	g.params(zzv.Pick(zzNParams), t, 2)
	g.w(")")
	g.result(zzv.Pick(4), t)
	g.c().w(zzBodies[zzv.Pick(2)*3])
	zzNamesOf(g.src()+"\n", 0, scope.Func, zzNames{fn: name, meth: name, recv: recv, isF: true, isM: true})
}

func ZC06_method_around() {
	g := zzNewGen(4)
	g.w("func ").c()
	recv := zzRecv(g, zzv.Pick(zzNRecvs))
	g.w(" ").c()
	name := zzIdent(2)
	g.w(name).w("(")
	g.params(zzv.Pick(zzv.Bound(2, 3)), 2, 0)
	g.w(")")
	g.result(zzv.Pick(2), 3)
	g.w(zzBodies[zzv.Pick(len(zzBodies))])
	src, at := zzAround(g.src())
	zzNamesOf(src, at, scope.Func, zzNames{fn: name, meth: name, recv: recv, isF: true, isM: true})
}

func ZC06_type() {
	g := zzNewGen(4)
	g.w("type ").c()
	name := zzIdent(zzv.Bound(2, 3))
	g.w(name)
	if i := zzv.Pick(zzNTypeParams); i > 0 {
		g.c().tp(i)
	}
	g.w(" ").c()
	if zzv.Yes() {
		g.w("= ").c()
	}
	d := zzDefs[zzv.Pick(len(zzDefs))]
	g.w(d[2:])
	src, at := zzAround(g.src())
	zzNamesOf(src, at, scope.Type, zzNames{typ: name, isT: true, isS: d[0] == 's', isI: d[0] == 'i'})
}

// names that look like something else: basic types, keyword prefixes, long names
func ZC06_oddnames() {
	name := zzOdd()
	x := zzIdent(1)
	tp := []string{"", "[K any]", "[K interface{ ~int }, V []struct{}]"}[zzv.Pick(3)]
	switch zzv.Pick(7) {
	case 0:
		zzNamesOf("func "+name+tp+"("+x+" T) U {\n}\n", 0, scope.Func, zzNames{fn: name, isF: true})
	case 1:
		zzNamesOf("func "+name+tp+"(_ ...int) (_ "+x+", _ error) {\n\tf("+name+")\n}\n", 0, scope.Func, zzNames{fn: name, isF: true})
	case 2:
		zzNamesOf("func (r *"+x+") "+name+"() string {\n}\n", 0, scope.Func, zzNames{fn: name, meth: name, recv: "*" + x, isF: true, isM: true})
	case 3:
		zzNamesOf("func (_ "+x+"[K]) "+name+"(_ int) "+x+" {\n}\n", 0, scope.Func, zzNames{fn: name, meth: name, recv: x, isF: true, isM: true})
	case 4:
		zzNamesOf("type "+name+tp+" struct {\n\t"+x+" T\n}\n", 0, scope.Type, zzNames{typ: name, isT: true, isS: true})
	case 5:
		zzNamesOf("type "+name+tp+" interface {\n\t"+x+"()\n}\n", 0, scope.Type, zzNames{typ: name, isT: true, isI: true})
	case 6:
		zzNamesOf("type "+name+tp+" "+zzOpt("= ")+[]string{"int", x, "*" + x, "func(a " + x + ") error", "[]" + x}[zzv.Pick(5)]+"\n", 0, scope.Type, zzNames{typ: name, isT: true})
	}
}

// receivers whose type or name looks like something else
func ZC06_oddrecv() {
	t := zzOdd()
	zzv.Assume(!zzBasic(t) && t != "_")
	x := zzIdent(1)
	recv := t
	r := t
	if zzv.Yes() {
		recv = "*" + t
		r = recv
	}
	r += []string{"", "[K]", "[_, V]"}[zzv.Pick(3)]
	n := ""
	switch zzv.Pick(4) {
	case 1:
		n = x + " "
	case 2:
		n = "_ "
	case 3:
		n = t + "1 "
	}
	zzNamesOf("func ("+n+r+") "+x+"(a "+t+") (b "+t+") {\n}\n", 0, scope.Func, zzNames{fn: x, meth: x, recv: recv, isF: true, isM: true})
}

// zzOdd is a name that looks like something else, or a long one.
func zzOdd() string {
	odd := []string{"string", "int", "rune", "complex128", "uintptr", "typeOf", "func1", "funcs", "T1_2", "struct1", "interfaceX", "error", "any", "mapper", "packageName", "\u00dcn\u00ef", "\u4e16\u754c", "importFunc",
		"_", "__", "_a", "a_", "nil", "true", "iota", "init", "main", "comparable", "len", "x86", "myfunc", "aFunc", "Astruct", "subinterface", "retype", "xpackage", "map1", "\u01c5\u03c0"}
	i := zzv.Pick(len(odd) + zzv.Bound(7, 14))
	if i < len(odd) {
		return odd[i]
	}
	n := []int{31, 32, 63, 64, 100, 255, 256, 127, 128, 512, 1000, 1024, 4096, 65536}[i-len(odd)]
	return strings.Repeat("aB3_", n/4+1)[:n]
}

// other scopes have none of the names
func ZC06_others() {
	srcs := []string{"var a = func(x T) U { return x }\n", "const a, b = 1, 2\n", "import (\n\t\"fmt\"\n)\n", "package p\n", "// func a() {}\n", "/* type T struct {} */\n",
		"var (\n\ta struct{}\n\tb interface{}\n)\n", "var t = struct{ a int }{1}\n"}
	src := srcs[zzv.Pick(len(srcs))]
	if zzv.Yes() {
		src += "\t" + zzPickWords(2, zzWords[:20])
	}
	scs := zzMust(ParseScope(0, []byte(src)))
	zzv.Assert(len(scs) >= 1, "one scope")
	zzv.ObsStr("src", src)
	zzCheckNames(scs[0], zzNames{})
	zzv.Reach("checked")
}

// receivers whose variable has an odd name
func ZC06_oddvar() {
	v := zzOdd()
	x, t := zzIdent(1), "T"+zzIdent(1)
	recv := zzOpt("*") + t
	r := recv + []string{"", "[K]", "[_, V]"}[zzv.Pick(3)]
	c := []string{"", "/* c */ "}[zzv.Pick(2)]
	zzNamesOf("func ("+c+v+" "+r+") "+x+"(a "+t+") (b "+t+") {\n\tg(func(y Z) W {\n\t\treturn 1\n\t})\n}\n", 0, scope.Func, zzNames{fn: x, meth: x, recv: recv, isF: true, isM: true})
}

// brackets and literals of every sort in the type parameters
func ZC06_typeparams() {
	name := zzIdent(1)
	src := name + zzTypeParams[zzv.Pick(len(zzTypeParams))]
	c := []string{"", " /* [a] */"}[zzv.Pick(2)]
	w := zzNames{typ: name, isT: true}
	k := scope.Type
	switch zzv.Pick(6) {
	case 0:
		k, w = scope.Func, zzNames{fn: name, isF: true}
		src = "func " + src + c + "(" + zzOneParams[zzv.Pick(len(zzOneParams))] + ")" + zzOneResults[zzv.Pick(len(zzOneResults))] + " {\n\tg[T, []U](x)\n}"
	case 1:
		w.isS = true
		src = "type " + src + c + " struct {\n\ta []K\n}"
	case 2:
		w.isI = true
		src = "type " + src + c + " interface {\n\tM(a []K)\n}"
	case 3:
		src = "type " + src + c + " []struct{}"
	case 4:
		src = "type " + src + c + " func(a struct{}) interface{}"
	case 5:
		src = "type " + src + c + " map[K]interface {\n\tM()\n}"
	}
	src, at := zzAround(src)
	zzNamesOf(src, at, k, w)
}

var zzOneParams = []string{"", "a struct{}", "interface{}, ...T", "a func(struct{}) interface{}, b ...[]T"}

var zzOneResults = []string{"", " interface{}", " struct{}", " []struct{}", " func() interface{}", " (interface{}, error)", " (a struct{}, err error)", " func(struct{}) (T, error)",
	" map[K]interface{ M(a T) U }", " *struct{ a func(T) }", " chan interface{}", " (struct{}, interface{})", " p.T[K, struct{}]"}

var zzOneBodies = []string{" {}", " { return g(x) }", " { return struct{}{}, g(x) }", " { var x struct{ a int }; return f(x) }", " { return func(a T) (U, error) { return h(a) } }",
	" { return T{}.f(x)(y) }", " { defer func() { recover() }(); return (x) }", " { g('{', \"}(\", `{`) } // (z)", " {\n\tg(func() {})(x)\n}", " { /* { */ (x).y(z) }", " {\n\t{\n\t}\n\t(x)(y)\n}"}

// brackets in the results in front of one-line bodies
func ZC06_oneline() {
	x, name := zzIdent(1), zzIdent(2)
	w := zzNames{fn: name, isF: true}
	src := "func "
	if i := zzv.Pick(5); i > 0 {
		w.isM, w.meth = true, name
		w.recv = []string{"", x, "*" + x, x, "*" + x}[i]
		src += []string{"", "(r " + x + ")", "(*" + x + ")", "(_ " + x + "[K])", "(r *" + x + "[K, V])"}[i] + " "
	}
	src += name + zzOpt("[K any]") + "(" + zzOneParams[zzv.Pick(len(zzOneParams))] + ")" + zzOneResults[zzv.Pick(len(zzOneResults))] + zzOneBodies[zzv.Pick(len(zzOneBodies))]
	zzv.Assume(!w.isM || !strings.Contains(src, name+"[K any]"))
	src += []string{"\n", "\n\nfunc after(z Z) Q { return (Q)(z) }\n"}[zzv.Pick(2)]
	zzNamesOf(src, 0, scope.Func, w)
}

// statements of every sort
func ZC06_stmts() {
	g, name, recv := zzStmtDecl()
	w := zzNames{fn: name, isF: true}
	if recv != "" {
		w.meth, w.recv, w.isM = name, recv, true
	}
	zzNamesOf(g.src()+zzOpt("\n"), 0, scope.Func, w)
}

// comments that mean something to some tool, in front of a declaration
func ZC06_pragmas() {
	x, t := zzIdent(1), "T"+zzIdent(1)
	c := zzPragmas[zzv.Pick(len(zzPragmas))]
	before, at := c+zzOpt("\n"), 1
	if zzv.Yes() {
		before, at = "package p\n\n"+c+"// d\n", 3
	}
	switch zzv.Pick(6) {
	case 0:
		zzNamesOf(before+"func "+x+"(a "+t+") {\n"+c+"}\n", at, scope.Func, zzNames{fn: x, isF: true})
	case 1:
		zzNamesOf(before+"func (r *"+t+") "+x+"(a "+t+") U {\n"+c+"}\n", at, scope.Func, zzNames{fn: x, meth: x, recv: "*" + t, isF: true, isM: true})
	case 2:
		zzNamesOf(before+"type "+t+" struct {\n\t"+c+"\ta int "+c+"}\n", at, scope.Type, zzNames{typ: t, isT: true, str: t, isS: true})
	case 3:
		zzNamesOf(before+"type "+t+" interface {\n\t"+c+"\tM() "+c+"}\n", at, scope.Type, zzNames{typ: t, isT: true, ifc: t, isI: true})
	case 4:
		zzNamesOf(before+"type "+t+" "+x+" "+c, at, scope.Type, zzNames{typ: t, isT: true})
	case 5:
		zzNamesOf(before+"var "+t+" = func("+x+" T) {}\n"+c, at, scope.Variable, zzNames{})
	}
}

// the last of hundreds of declarations
func ZC06_lots() {
	n := []int{130, 260, 520, 1030}[zzv.Pick(zzv.Bound(3, 4))]
	before := strings.Repeat([]string{"var a = b\n", "// c\n", "func f(a T) U {}\n", "type T struct {\n\ta U\n}\n", "func (r R) m() {}\n"}[zzv.Pick(5)], n)
	name, x := zzIdent(2), zzIdent(1)
	var w zzNames
	k, d := scope.Func, ""
	switch zzv.Pick(5) {
	case 0:
		d, w = "func "+name+"("+x+" T) U {\n}\n", zzNames{fn: name, isF: true}
	case 1:
		d, w = "func (r *"+x+") "+name+"() {}\n", zzNames{fn: name, meth: name, recv: "*" + x, isF: true, isM: true}
	case 2:
		k, d, w = scope.Type, "type "+name+" struct {\n\t"+x+" T\n}\n", zzNames{typ: name, isT: true, isS: true}
	case 3:
		k, d, w = scope.Type, "type "+name+" interface {\n\t"+x+"()\n}\n", zzNames{typ: name, isT: true, isI: true}
	case 4:
		k, d, w = scope.Type, "type "+name+" "+x+"\n", zzNames{typ: name, isT: true}
	}
	src := before + d
	scs := zzMust(ParseScope(0, []byte(src)))
	zzv.Assert(len(scs) == n+1 && scs[n].Kind() == k, "the declaration is a scope of its kind")
	zzCheckNames(scs[n], w)
	zzv.Reach("checked")
}
