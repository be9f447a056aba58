package goast

import (
	"errors"
	"io"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzformat"
	"github.com/yanun0323/goast/zzos"
	"github.com/yanun0323/goast/zzv"
)

// zzPackageOf is the package clause of a text: its first token besides comments
// and white space is the keyword, the next one the name.
func zzPackageOf(src string) (string, bool) {
	toks, ok := zzLexFile(src)
	if !ok {
		return "", false
	}
	seen := false
	for _, t := range toks {
		txt := src[t.start:t.end]
		switch {
		case t.kind == tkComment, txt == " ", txt == "\t", txt == "\n", txt == "\r":
		case !seen:
			if t.kind != tkWord || txt != "package" {
				return "", false
			}
			seen = true
		default:
			return txt, t.kind == tkWord
		}
	}
	return "", false
}

// comments and blank lines in every place gofmt leaves them
var zzLead = []string{"", "// a\n", "// package b\n\n", "/* package c\npackage d */\n", "//go:build e\n\n// package f is\n", "/* g */ ", "/**/\n\n", "/* g */ /* h */ ", "/**//**/ ", "// a\n\n// b\n/* c */ /* d\n*/ "}

func zzPackageText(name string) string {
	return zzLead[zzv.Pick(len(zzLead))] + "package " + []string{"", "/* h */ ", "/**/ ", "/* h\npackage i */ ", "/* h */ /* i */ ", "// h\n"}[zzv.Pick(6)] + name + []string{"\n", " // package i\n", " /* j */\n"}[zzv.Pick(3)] +
		[]string{"", "\n// package k\n", "\nvar l = \"package m\"\n", "\nimport \"n\"\n\nfunc o() {}\n"}[zzv.Pick(4)]
}

func zzCheckPackage(src, name string) {
	zzv.ObsStr("src", src)
	ref, ok := zzPackageOf(src)
	zzv.Assert(ok && ref == name, "the text has that package clause")
	zzos.Reset()
	zzformat.Hook = nil
	zzos.Put("a.go", []byte(src))
	a, err := ParseAst("a.go")
	zzv.Assert(err == nil, "a text with a package clause loads")
	got, err := a.Package()
	zzv.ObsStr("package", got)
	zzv.Assert(err == nil && got == name, "the package name is the identifier of the clause")
	b, err := NewAst(zzMust(ParseScope(0, []byte(src)))...)
	zzv.Assert(err == nil, "building from scopes finds the clause too")
	got, err = b.Package()
	zzv.Assert(err == nil && got == name, "building from scopes gives the same name")
	zzv.Assert(b.File() == "" && b.Dir() == "" && b.Filename() == "" && b.Ext() == "", "built from scopes, it has no path")
	got, err = a.Copy().Package()
	zzv.Assert(err == nil && got == name, "a copy has the same name")
	zzv.Reach("checked")
}

func ZC18_package() {
	name := zzIdentU(1 + zzv.Pick(zzv.Bound(2, 4)))
	zzCheckPackage(zzOpt(zzBOM)+zzPackageText(name), name)
}

// white space of every sort around the keyword and the name
func ZC18_spaces() {
	name := zzIdentU(1)
	src := "package" + zzv.StrOf(1+zzv.Pick(zzv.Bound(2, 3)), " \t\r\n") + []string{"", "/* h */", "// h\n", "/**/\n// h\n", "//\n//i\n/*j*/"}[zzv.Pick(5)] + zzv.StrOf(zzv.Pick(2), " \t\r\n") + name + zzv.StrOf(1+zzv.Pick(2), " \t\r\n;") + zzOpt("/* j */\n")
	zzCheckPackage([]string{"", "\n", "\r\n", "\n\n"}[zzv.Pick(4)]+src, name)
}

// names that look like something else
func ZC18_oddnames() {
	odd := []string{"string", "int8", "_", "p1", "typep", "functions", "main_test", "x_1", "\u00fc\u00df", "packages", "vars", "uintptr", "aVeryLongPackageNameThatIsLongerThanAnyFixedSizeBufferMightExpectItToBeForSure"}
	name := odd[zzv.Pick(len(odd))]
	zzCheckPackage(zzPackageText(name), name)
}

// texts without a package clause, and any other
func ZC18_nopackage() {
	src := []string{"", "// package a\n", "var package1 = 1\n", "/* package b */\n", "func f() {\n\tpackage1()\n}\n", "packages c\n", "import \"package\"\n", "var x = `\npackage d\n`\n", "type T struct {\n\tpackageName string\n}\n"}[zzv.Pick(9)] +
		zzv.StrOf(zzv.Pick(zzv.Bound(3, 4)), "\"`/*\n (){}a")
	zzv.ObsStr("src", src)
	_, lexed := zzLex(src)
	zzv.Assume(lexed)
	zzos.Reset()
	zzformat.Hook = nil
	zzos.Put("a.go", []byte(src))
	a, err := ParseAst("a.go")
	zzv.Assert(err == ErrNoPackage && a == nil, "a text without a package clause gives ErrNoPackage")
	b, err := NewAst(zzMust(ParseScope(0, []byte(src)))...)
	zzv.Assert(err == ErrNoPackage && b == nil, "building from scopes without a package clause gives ErrNoPackage")
	c, err := NewAst()
	zzv.Assert(err == ErrNoPackage && c == nil, "no scopes have no package clause")
	zzv.Reach("checked")
}

// scopes after the tree was built: the package is the one of the current scopes
func ZC18_rescoped() {
	x, y := zzIdent(1), zzIdent(2)
	a, err := NewAst(zzMust(ParseScope(0, []byte("package "+x+"\n")))...)
	zzv.Assert(err == nil, "a package clause makes a tree")
	b := a.SetScope(zzMust(ParseScope(0, []byte("// c\npackage "+y+"\n"))))
	got, err := b.Package()
	zzv.Assert(err == nil && got == y, "the package follows the scopes")
	got, err = a.Package()
	zzv.Assert(err == nil && got == x, "the original keeps its package")
	_, err = a.SetScope(nil).Package()
	zzv.Assert(err == ErrNoPackage, "without scopes there is no package")
	zzv.Reach("checked")
}

// path parts of any path
func ZC18_paths() {
	zzPath([]string{"", "/", "d/", "../d.e/", "./"}[zzv.Pick(5)] + zzv.StrOf(zzv.Pick(zzv.Bound(5, 7)), "a./go"))
}

func ZC18_oddpaths() {
	odd := []string{"a.GO", "a.Go", "D/A.go", " a", "a ", "a b/c d", "d\\a.go", "a.tar.gz", "d.x/a", "~/a", "$x/a", "a:b/c", "/a//b///c.go", "d/../a", "\u00fc/\u00df.\u00e9", "a.go/", "d/e/f/g/h/i/j/k.go", "C:\\a", "a.go.go", "..a/..b", strings.Repeat("x", 300) + ".y", "\xff\xfe"}
	zzPath(odd[zzv.Pick(len(odd))])
}

func zzPath(name string) {
	zzv.ObsStr("name", name)
	file := name
	if len(name) < 3 || name[len(name)-3:] != ".go" {
		file += ".go"
	}
	zzos.Reset()
	zzformat.Hook = nil
	zzos.Put(file, []byte("package p\n"))
	a, err := ParseAst(name)
	zzv.Assert(err == nil, "an existing file loads")
	zzv.ObsStr("ext", a.Ext())
	zzv.ObsStr("dir", a.Dir())
	zzv.Assert(a.File() == name, "the file is the given path")
	zzv.Assert(a.Dir() == filepath.Dir(name), "the directory of the path")
	zzv.Assert(a.Filename() == filepath.Base(name), "the file name of the path")
	zzv.Assert(a.Ext() == filepath.Ext(name), "the extension of the path")
	for _, o := range []Ast{a.Copy(), a.SetScope(a.Scope()), a.SetScope(nil)} {
		zzv.Assert(o.File() == name && o.Dir() == a.Dir() && o.Filename() == a.Filename() && o.Ext() == a.Ext(), "copies and rescoped trees keep the path")
	}
	zzv.Reach("checked")
}

// every outcome of opening, reading and formatting
func ZC18_errors() {
	zzos.Reset()
	zzformat.Hook = nil
	exists := zzv.Yes()
	if exists {
		zzos.Put("d/a.go", []byte("package p\n"))
	}
	if zzv.Yes() {
		zzos.PutDir("d")
	}
	defer func() {
		zzv.Assert(zzos.Opened == zzos.Closed, "every opened file is closed")
	}()
	which := zzv.Pick(6)
	cause := []error{errors.New("some failure"), zzos.ErrPermission, zzos.ErrInvalid, zzos.ErrExist, zzos.ErrClosed, io.ErrUnexpectedEOF, syscall.EISDIR, syscall.ENOSPC, ErrNoPackage}[zzv.Pick(9)]
	if which == 5 && !exists {
		zzos.PutDir("d/a.go")
	}
	zzos.Fault = func(op, path string) error {
		switch {
		case which == 1 && op == "open":
			return cause
		case which == 2 && op == "read":
			return cause
		case which == 3 && op == "open":
			return zzos.ErrPermission
		}
		return nil
	}
	zzformat.Hook = func(b []byte) ([]byte, error) {
		if which == 4 {
			return nil, cause
		}
		return b, nil
	}
	a, err := ParseAst([]string{"d/a.go", "d/a"}[zzv.Pick(2)])
	switch {
	case which == 1 || (exists && (which == 2 || which == 4)):
		zzv.Assert(errors.Is(err, cause), "any other failure is returned as it is")
	case which == 5 && !exists:
		zzv.Assert(err != nil, "a directory is not a file")
	case which == 3:
		zzv.Assert(errors.Is(err, zzos.ErrPermission), "any other failure is returned as it is")
	case !exists:
		zzv.Assert(err == ErrNotExist, "a missing file gives ErrNotExist")
	default:
		zzv.Assert(err == nil, "an existing file loads")
	}
	zzv.Assert(err != ErrNotExist || (!exists && which != 5), "ErrNotExist only for a missing file")
	zzv.Assert(err == ErrNotExist || !errors.Is(err, ErrNotExist), "ErrNotExist only for a missing file")
	zzv.Assert((a == nil) == (err != nil), "a failure comes without a tree")
	zzv.Reach("checked")
}

// many comments in front of the clause
func ZC18_late() {
	n := []int{1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 130}[zzv.Pick(11)]
	name := zzIdent(2)
	c := []string{"// a\n", "// package b\n\n", "/* c */\n", "/*\npackage d\n*/\n\n", "\n", "/* e */ "}[zzv.Pick(6)]
	zzCheckPackage(strings.Repeat(c, n)+zzOpt("// f\n")+"package "+name+"\n\nvar x int\n", name)
}

// long names and long comments
func ZC18_long() {
	name := zzIdent(1) + strings.Repeat("longname", []int{1, 4, 8, 32, 130, 1000}[zzv.Pick(6)]) + zzIdent(1)
	c := strings.Repeat(" comment package x", []int{1, 60, 500, 4000}[zzv.Pick(4)])
	zzCheckPackage([]string{"//" + c + "\n", "/*" + c + "*/\n", "/*" + c + "\n*/ "}[zzv.Pick(3)]+"package "+zzOpt("/*"+c+"*/ ")+name+"\n", name)
}

// scopes in any order, of any kind, built by hand: the clause is the package scope's
func ZC18_byhand() {
	x := zzIdent(1)
	pkg := NewScope(zzv.Pick(3), scope.Package, NewNodes(5, "package", " ", x, "\n"))
	others := func() Scope {
		return []Scope{NewScope(0, scope.Comment, NewNodes(0, "// package y", "\n")), NewScope(0, scope.InnerComment, NewNode(0, "/* package y */")), NewScope(1, scope.Import, NewNodes(0, "import", " ", "\"y\"")),
			NewScope(0, scope.Func, nil), NewScope(0, scope.Variable, NewNodes(0, "var", " ", "y")), NewScope(0, scope.Unknown, nil), NewScope(0, scope.Comment, nil)}[zzv.Pick(7)]
	}
	l := []Scope{others(), others()}
	if zzv.Yes() {
		_, err := NewAst(l...)
		zzv.Assert(err == ErrNoPackage, "building from scopes without a package clause gives ErrNoPackage")
		zzv.Reach("checked")
		return
	}
	at := zzv.Pick(3)
	l = append(append(append([]Scope(nil), l[:at]...), pkg), l[at:]...)
	a, err := NewAst(l...)
	zzv.Assert(err == nil, "a package clause anywhere makes a tree")
	got, err := a.Package()
	zzv.ObsStr("package", got)
	zzv.Assert(err == nil && got == x, "the package name is the identifier of the clause")
	zzv.Reach("checked")
}
