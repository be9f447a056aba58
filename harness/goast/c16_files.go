package goast

import (
	"errors"
	"strings"

	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzformat"
	"github.com/yanun0323/goast/zzimports"
	"github.com/yanun0323/goast/zzos"
	"github.com/yanun0323/goast/zzv"
)

var zzBad = errors.New("rejected")

// zzTarget is the file a name stands for.
func zzTarget(name string) string {
	if len(name) >= 3 && name[len(name)-3:] == ".go" {
		return name
	}
	return name + ".go"
}

func zzFreshDisk() {
	zzos.Reset()
	zzformat.Hook, zzimports.Hook, zzformat.Seen = nil, nil, nil
}

// zzHooks makes the formatter and the importer do something visible, or fail.
func zzHooks(fmtOK, impOK bool) {
	zzformat.Hook = func(b []byte) ([]byte, error) {
		if !fmtOK {
			return nil, zzBad
		}
		return []byte("F<" + string(b) + ">"), nil
	}
	zzimports.Hook = func(name string, b []byte) ([]byte, error) {
		if !impOK {
			return nil, zzBad
		}
		return []byte("I<" + string(b) + ">"), nil
	}
}

func zzOnlyFile(path, content string) {
	got, ok := zzos.Get(path)
	zzv.Assert(ok, "the requested file exists")
	zzv.ObsStr("file", string(got))
	zzv.Assert(string(got) == content, "the file holds exactly the saved text")
	files := 0
	for _, e := range zzos.Disk {
		if !e.Dir {
			files++
		}
	}
	zzv.Assert(files == 1, "no other file is written")
}

// zzSaved saves a with every formatter outcome and import setting.
func zzSaved(a Ast, name, text string) {
	out := zzv.Pick(5)
	fmtOK, impOK := out != 0, true
	var err error
	want := text
	auto := zzv.Pick(5)
	if auto >= 3 {
		impOK = fmtOK
	}
	zzHooks(fmtOK, impOK)
	made := func(mark string) string {
		return []string{"", mark + "<" + text + ">", "x", "", strings.Repeat(text+"\n", 40)}[out]
	}
	if fmtOK {
		zzformat.Hook = func(b []byte) ([]byte, error) {
			zzv.Assert(string(b) == text, "the formatter gets the text of the nodes")
			return []byte(made("F")), nil
		}
		zzimports.Hook = func(name string, b []byte) ([]byte, error) {
			zzv.Assert(string(b) == text, "the importer gets the text of the nodes")
			return []byte(made("I")), nil
		}
	}
	switch auto {
	case 0:
		err = a.Save(name)
	case 1:
		err = a.Save(name, false)
	case 2:
		err = a.Save(name, false, true)
	case 3:
		err = a.Save(name, true)
	case 4:
		err = a.Save(name, true, false)
	}
	switch {
	case auto < 3 && fmtOK:
		want = made("F")
	case auto >= 3 && impOK:
		want = made("I")
	}
	zzv.Assert(err == nil, "saving succeeds")
	zzOnlyFile(zzTarget(name), want)
	zzv.Reach("checked")
}

// any file name
func ZC16_names() {
	zzFreshDisk()
	name := []string{"", "d/", "d/e/", "./", "/d/", "d.go/"}[zzv.Pick(6)] + zzv.StrOf(1+zzv.Pick(zzv.Bound(4, 5)), ".goa")
	zzv.Assume(name[len(name)-1] != '.' || len(name) > 3)
	zzv.ObsStr("name", name)
	t := zzTarget(name)
	if zzv.Yes() {
		// an older, longer file with that name
		zzos.MkdirAll(name[:strings.LastIndex(name, "/")+1], 0)
		// longer, exactly as long as one of the possible new contents, or equal to one
		zzos.Put(t, []byte([]string{strings.Repeat("old ", 50), "older text", "older text+++", "package p\n"}[zzv.Pick(4)]))
	}
	a, err := NewAst(zzMust(ParseScope(0, []byte("package p\n")))...)
	zzv.Assert(err == nil, "a package clause makes a tree")
	zzSaved(a, name, "package p\n")
}

// any scopes, edited anywhere: the file shows the edit exactly there
func ZC16_edit() {
	zzFreshDisk()
	src := "package p\n\n// c\nfunc f(a T) U {\n\treturn \"" + zzv.StrOf(1, "a{(*/ \xff") + "\"\n}\n\nvar x = `\n`\n"
	scs := zzMust(ParseScope(0, []byte(src)))
	a, err := NewAst(scs...)
	zzv.Assert(err == nil, "a package clause makes a tree")
	si := zzv.Pick(len(scs))
	ns := zzChain(scs[si].Node(), 2*len(src))
	ni := zzv.Pick(len(ns))
	var texts []string
	for i, sc := range scs {
		for j, n := range zzChain(sc.Node(), 2*len(src)) {
			texts = append(texts, n.Text())
			if i != si || j != ni {
				continue
			}
			switch zzv.Pick(4) {
			case 0:
				x := zzv.Str(zzv.Pick(2))
				n.SetText(x)
				texts[len(texts)-1] = x
			case 1:
				n.InsertNext(NewNode(0, "NEW(", kind.Raw))
			case 2:
				if n.Next() != nil {
					n.TakeNext().SetText("gone")
				}
			case 3:
				n.RemoveNext()
			}
		}
	}
	zzSaved(a, "x", strings.Join(zzWalk(a), ""))
	zzv.Assert(len(texts) > 0, "some text")
}

// zzWalk lists the node texts of a tree by its links.
func zzWalk(a Ast) []string {
	var r []string
	for _, sc := range a.Scope() {
		for n := sc.Node(); n != nil; n = n.Next() {
			r = append(r, n.Text())
		}
	}
	return r
}

// zzRoundTrip loads a formatted file and saves it unedited.
func zzRoundTrip(src string) {
	zzFreshDisk()
	zzv.ObsStr("src", src)
	zzos.Put("d/a.go", []byte(src))
	zzos.PutDir("d")
	zzos.Short = zzv.Pick(2) * 7 // reads may deliver less than asked for
	a, err := ParseAst([]string{"d/a.go", "d/a"}[zzv.Pick(2)])
	zzv.Assert(err == nil, "a formatted file with a package clause loads")
	zzv.Assert(a.Save("d/a.go") == nil, "saving succeeds")
	zzOnlyFile("d/a.go", src)
	zzv.Reach("checked")
}

func ZC16_roundtrip_raw() {
	s := "package p\n\n" + zzSrcRaw(zzv.Bound(5, len(zzCtx)), zzv.Bound(2, 3))
	zzRoundTrip(s)
}
func ZC16_roundtrip_decl() { zzRoundTrip("// c\n\npackage p\n\n" + zzSrcDecl() + "\n") }
func ZC16_roundtrip_big()  { zzRoundTrip("package p\n\n" + zzSrcBig()) }

// a file that is not formatted is loaded as the formatter leaves it
func ZC16_loadformat() {
	zzFreshDisk()
	file := zzFileTexts[zzv.Pick(len(zzFileTexts))]
	zzos.Put("a.go", []byte(file))
	out := "package p\n\nvar x = \"" + zzv.StrOf(2, "a1(/*{ ") + "\"\n"
	zzformat.Hook = func(b []byte) ([]byte, error) {
		zzv.Assert(string(b) == file || string(b) == out, "the formatter gets the file's bytes")
		return []byte(out), nil
	}
	a, err := ParseAst("a.go")
	zzv.Assert(err == nil, "the file loads")
	zzv.Assert(strings.Join(zzWalk(a), "") == out, "the tree holds what the formatter returned")
	zzv.Reach("checked")
}

// the helpers behind loading and saving
func ZC16_helpers() {
	zzFreshDisk()
	data := zzv.Bytes(1 + zzv.Pick(zzv.Bound(4, 6)))
	name := zzv.StrOf(1+zzv.Pick(4), ".goa")
	zzv.Assume(name != "." && name != "..")
	keep := string(data)
	fmtOK := zzv.Yes()
	zzHooks(fmtOK, fmtOK)
	auto := zzv.Yes()
	zzv.Assert(helper.SaveFile("q/"+name, data, auto) == nil, "saving succeeds")
	want := keep
	if fmtOK && auto {
		want = "I<" + keep + ">"
	} else if fmtOK {
		want = "F<" + keep + ">"
	}
	zzv.Assert(string(data) == keep, "saving does not change the caller's bytes")
	zzOnlyFile(zzTarget("q/"+name), want)
	zzformat.Hook = nil
	got, err := helper.ReadFile("q/" + name)
	zzv.Assert(err == nil && string(got) == want, "reading gives back what was saved")
	zzv.Reach("checked")
}

// long files, written and read in pieces
func ZC16_long() {
	zzFreshDisk()
	n := zzv.Bound(700, 5000)
	src := "package p\n\nfunc f() {\n" + zzFill(n) + "\tx := " + zzIdent(1) + "\n}\n"
	if zzv.Yes() {
		src = "package p\n\n// " + zzIdent(1) + strings.Repeat("long ", 15000) + zzIdent(1) + "\nvar y = 1\n"
	}
	zzRoundTrip(src)
}

// texts as files hold them before they are formatted
var zzFileTexts = []string{"package  p", "// Code generated by x; DO NOT EDIT.\n\npackage  p", "\xef\xbb\xbfpackage p\n", "//go:build ignore\n\npackage p\n", "\n\n\npackage p\n", "package p\r\n",
	"/* x */ package p\n", "package p;var a int", "package main\nfunc main(){}\n", "#!/bin/x\npackage p\n", "package p\n" + strings.Repeat("\n", 600)}

// names that are easily taken for something else
func ZC16_oddnames() {
	zzFreshDisk()
	odd := []string{"a.GO", "a.Go", " a", "a ", "a.go ", " a.go", "a\t", "\u00fc", "a..go", "go", ".go", "a.go.go", "-", "~", "~/a", "$a", "a.txt", "a.gox", "a.mod", "a\\b", "%41", "a*", "a?b", "a_test", "a_test.go",
		"a\n", "a.g", "a.o", "ago", "a.go.bak", "a.go~", "a:b", "d/a.GO", " d/a", "d /a.go", "d.go/a", "d/a b.go", "..a", "...", strings.Repeat("n", 300), strings.Repeat("d/", 60) + "a.go"}
	a, err := NewAst(zzMust(ParseScope(0, []byte("package p\n")))...)
	zzv.Assert(err == nil, "a package clause makes a tree")
	zzSaved(a, odd[zzv.Pick(len(odd))], "package p\n")
}

// long texts of lengths around buffer sizes, through the helper and as nodes
func ZC16_lengths() {
	zzFreshDisk()
	k := []int{511, 512, 513, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 70001}[zzv.Pick(17)]
	text := "package p\n//" + strings.Repeat("c", k-13) + "\n"
	if zzv.Yes() {
		text = "package p\n//" + strings.Repeat("c", k-14) + "\n\n"
	}
	if zzv.Yes() {
		zzos.Put("old.go", []byte(strings.Repeat("o", k+1)))
	}
	zzv.Assert(helper.SaveFile("old.go", []byte(text), zzv.Yes()) == nil, "saving succeeds")
	zzOnlyFile("old.go", text)
	zzos.Short = []int{0, 1000, 4096}[zzv.Pick(3)]
	got, err := helper.ReadFile("old")
	zzv.Assert(err == nil && string(got) == text, "reading gives back what was saved")
	zzv.Reach("checked")
}

// scopes and nodes of any kinds and lines: only the texts count
func ZC16_kinds() {
	zzFreshDisk()
	pkg := NewScope(0, scope.Package, NewNodes(0, "package", " ", "p", "\n"))
	kinds := []scope.Kind{scope.Unknown, scope.Comment, scope.InnerComment, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func, scope.Kind("other")}
	var list []Scope
	at := zzv.Pick(3)
	want := ""
	for i := 0; i < 3; i++ {
		if i == at {
			list, want = append(list, pkg), want+"package p\n"
			continue
		}
		// as parsed, without nodes, or with nodes of one kind and any text
		switch zzv.Pick(4) {
		case 3:
			// a node within a chain: the scope is what follows it
			n := NewNodes(0, "a", "b", "c"+zzv.Str(1), "\n").Next()
			if zzv.Yes() {
				n = n.Next()
			}
			list, want = append(list, NewScope(2, scope.Func, n)), want+zzText(zzChain(n, 4))
		case 0:
			list = append(list, NewScope(i, kinds[zzv.Pick(len(kinds))], nil))
		case 1:
			n := NewNode(3, "", kind.Kind{})
			n.InsertNext(NewNode(1, "\n", kind.Raw))
			n.Next().InsertNext(NewNode(1, "\n"))
			n.Next().Next().InsertNext(NewNode(0, "q"+zzv.Str(1), zzFileKinds[zzv.Pick(len(zzFileKinds))]))
			list, want = append(list, NewScope(-1, kinds[zzv.Pick(len(kinds))], n)), want+"\n\n"+n.Next().Next().Next().Text()
		case 2:
			// the same nodes twice
			list, want = append(list, pkg), want+"package p\n"
		}
	}
	a, err := NewAst(list...)
	zzv.Assert(err == nil, "a package clause makes a tree")
	zzHooks(false, false)
	zzv.Assert(a.Save("x", zzv.Yes()) == nil, "saving succeeds")
	zzOnlyFile("x.go", want)
	zzv.Reach("checked")
}

var zzFileKinds = []kind.Kind{kind.None, kind.Raw, kind.Comment, kind.Separator, kind.NewLine, kind.Space, kind.FuncName, kind.String, kind.Symbol}

// files of a megabyte, saved as one node and as many
func ZC16_megabyte() {
	zzFreshDisk()
	i := zzv.Pick(3)
	k := []int{1<<20 + 1, 1<<20 + 1, 131073}[i]
	text := "package p\n//" + strings.Repeat("c", k-13) + "\n"
	if i == 1 {
		zzos.Put("old.go", []byte(strings.Repeat("o", k+1)))
	}
	cut := []int{10, k / 2, k - 1}[i]
	a, err := NewAst(NewScope(0, scope.Package, NewNodes(0, "package", " ", "p", "\n"+text[10:cut], text[cut:])))
	zzv.Assert(err == nil, "a package clause makes a tree")
	zzv.Assert(a.Save("old", i == 1) == nil, "saving succeeds")
	zzOnlyFile("old.go", text)
	zzos.Short = []int{0, 70000, 0}[i]
	got, err := helper.ReadFile("old")
	zzv.Assert(err == nil && string(got) == text, "reading gives back what was saved")
	zzv.Reach("checked")
}

// an older file that is nearly the new one
func ZC16_older() {
	zzFreshDisk()
	text := "package p\n\nvar a = \"" + strings.Repeat("x", []int{0, 40, 600}[zzv.Pick(3)]) + "\"\n"
	a, err := NewAst(zzMust(ParseScope(0, []byte(text)))...)
	zzv.Assert(err == nil, "a package clause makes a tree")
	old := []byte(text)
	at := []int{0, 9, len(old) / 2, len(old) - 2, len(old) - 1}[zzv.Pick(5)]
	switch zzv.Pick(5) {
	case 0:
		old[at] = zzv.Byte()
	case 1:
		old = old[:at]
	case 2:
		old = append(old, zzv.Byte())
	case 3:
		old[at], old[len(old)-3] = zzv.Byte(), zzv.Byte()
	case 4:
		old = append([]byte{zzv.Byte()}, old...)
	}
	zzos.Put("d/a.go", old)
	zzv.Assert(a.Save([]string{"d/a", "d/a.go"}[zzv.Pick(2)], zzv.Yes()) == nil, "saving succeeds")
	zzOnlyFile("d/a.go", text)
	zzv.Reach("checked")
}
