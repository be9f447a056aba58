package goast

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"syscall"

	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/zzformat"
	"github.com/yanun0323/goast/zzimports"
	"github.com/yanun0323/goast/zzos"
	"github.com/yanun0323/goast/zzv"
)

var zzFail = errors.New("injected failure")

// what a failing call can return: callers like to make exceptions for these
func zzSomeError() error {
	l := []error{zzFail, zzos.ErrExist, zzos.ErrNotExist, zzos.ErrPermission, zzos.ErrInvalid, zzos.ErrClosed, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe,
		syscall.EINTR, syscall.ENOSPC, syscall.EEXIST, syscall.EAGAIN, syscall.EISDIR, fmt.Errorf("wrapped: %w", zzos.ErrExist)}
	return l[zzv.Pick(len(l))]
}

// zzFaults makes every file system call fail or not, arbitrarily; which kinds of
// call failed is recorded.
func zzFaults(max int) *[]string {
	failed := &[]string{}
	n := 0
	fail := zzSomeError()
	zzos.Fault = func(op, path string) error {
		n++
		if n <= max && zzv.Yes() {
			*failed = append(*failed, op)
			return fail
		}
		return nil
	}
	return failed
}

func zzHas(l []string, ops ...string) bool {
	for _, x := range l {
		for _, o := range ops {
			if x == o {
				return true
			}
		}
	}
	return false
}

func zzReset() {
	zzos.Reset()
	zzformat.Hook, zzimports.Hook, zzformat.Seen = nil, nil, nil
}

// every combination of failing calls while saving
func ZC17_save() {
	zzReset()
	if zzv.Yes() {
		zzos.Put("d/a.go", []byte("older content, longer than the new one"))
	}
	text := "package p\n" + zzOpt("\nvar a = "+zzIdent(1)+"\n")
	a, err := NewAst(zzMust(ParseScope(0, []byte(text)))...)
	zzv.Assert(err == nil, "a package clause makes a tree")
	fmtOK, auto := zzv.Yes(), zzv.Yes()
	hook := func(b []byte) ([]byte, error) {
		if fmtOK {
			return b, nil
		}
		return nil, zzFail
	}
	zzformat.Hook = hook
	zzimports.Hook = func(_ string, b []byte) ([]byte, error) { return hook(b) }
	failed := zzFaults(8)
	panicked := zzv.Catch(func() { err = a.Save("d/a", auto) })
	zzv.Assert(!panicked, "a failing save does not panic")
	zzv.ObsBool("error", err != nil)
	zzv.ObsInt("failed", len(*failed))
	zzv.Assert(zzos.Opened == zzos.Closed, "every opened file is closed")
	zzv.Assert(!zzHas(*failed, "mkdir", "create", "write", "close", "rename") || err != nil, "a failing call is reported")
	zzv.Assert(len(*failed) != 0 || err == nil, "a save without failures succeeds")
	got, ok := zzos.Get("d/a.go")
	zzv.Assert(err != nil || (ok && string(got) == text), "success means every byte was written")
	zzv.Reach("checked")
}

// the same through the helper, with any text
func ZC17_savefile() {
	zzReset()
	data := zzv.Bytes(1 + zzv.Pick(zzv.Bound(3, 5)))
	keep := string(data)
	failed := zzFaults(8)
	var err error
	panicked := zzv.Catch(func() { err = helper.SaveFile("d/e/a.go", data, zzv.Yes()) })
	zzv.Assert(!panicked, "a failing save does not panic")
	zzv.Assert(zzos.Opened == zzos.Closed, "every opened file is closed")
	zzv.Assert(!zzHas(*failed, "mkdir", "create", "write", "close", "rename") || err != nil, "a failing call is reported")
	zzv.Assert(len(*failed) != 0 || err == nil, "a save without failures succeeds")
	got, ok := zzos.Get("d/e/a.go")
	zzv.Assert(err != nil || (ok && string(got) == keep), "success means every byte was written")
	zzv.Reach("checked")
}

// the target is a directory, or a directory of the path is a file
func ZC17_obstacles() {
	zzReset()
	switch zzv.Pick(3) {
	case 0:
		zzos.PutDir("d/a.go")
	case 1:
		zzos.Put("d", []byte("x"))
	case 2:
		zzos.Put("d/b", []byte("x"))
	}
	name := []string{"d/a.go", "d/b/a.go"}[zzv.Pick(2)]
	blocked := zzos.HasDir(name)
	for _, e := range zzos.Disk {
		if !e.Dir && (e.Path == "d" || (e.Path == "d/b" && name == "d/b/a.go")) {
			blocked = true
		}
	}
	err := helper.SaveFile(name, []byte("package p\n"))
	zzv.Assert((err != nil) == blocked, "a save that cannot write is reported, any other succeeds")
	zzv.Assert(zzos.Opened == zzos.Closed, "every opened file is closed")
	zzv.Reach("checked")
}

// empty texts are refused before the disk is touched
func ZC17_empty() {
	zzReset()
	zzos.Put("a.go", []byte("package old\n"))
	var err error
	switch zzv.Pick(5) {
	case 0:
		err = helper.SaveFile("a.go", nil)
	case 1:
		err = helper.SaveFile("a.go", []byte{}, zzv.Yes())
	case 2:
		scs := zzMust(ParseScope(0, []byte("package p\n\nvar x int\n")))
		a, e := NewAst(scs...)
		zzv.Assert(e == nil, "a package clause makes a tree")
		for _, sc := range scs {
			sc.Node().IterNext(func(n *Node) bool { n.SetText(""); return true })
		}
		err = a.Save("a.go", zzv.Yes())
	case 4:
		zzos.PutDir("b")
		err = helper.SaveFile("b/c/", nil, zzv.Yes())
	case 3:
		a, e := NewAst(zzMust(ParseScope(0, []byte("package p\n")))...)
		zzv.Assert(e == nil, "a package clause makes a tree")
		err = a.SetScope(nil).Save("a.go", zzv.Yes())
	}
	zzv.Assert(err != nil, "saving an empty text is refused")
	zzv.Assert(len(zzos.Calls) == 0, "nothing on disk is touched")
	got, _ := zzos.Get("a.go")
	zzv.Assert(string(got) == "package old\n", "the old file stays")
	zzv.Reach("checked")
}

// every combination of failing calls while loading
func ZC17_load() {
	zzReset()
	src := "package p\n" + zzOpt("\nvar a = "+zzIdent(1)+"\n")
	zzos.Put("d/a.go", []byte(src))
	zzos.Short = zzv.Pick(3) * 5
	fmtOK := zzv.Yes()
	zzformat.Hook = func(b []byte) ([]byte, error) {
		if fmtOK {
			return b, nil
		}
		return nil, zzFail
	}
	failed := zzFaults(zzv.Bound(6, 8))
	var err error
	var a Ast
	name := []string{"d/a", "d/a.go", "d/none", "e/a.go"}[zzv.Pick(4)]
	panicked := zzv.Catch(func() { a, err = ParseAst(name) })
	zzv.Assert(!panicked, "a failing load does not panic")
	zzv.ObsBool("error", err != nil)
	zzv.Assert(zzos.Opened == zzos.Closed, "every opened file is closed")
	bad := zzHas(*failed, "open", "read") || !fmtOK || name == "d/none" || name == "e/a.go"
	zzv.Assert(!bad || err != nil, "a failing call is reported")
	zzv.Assert(bad || len(*failed) != 0 || err == nil, "a load without failures succeeds")
	if err == nil {
		zzv.Assert(a != nil && zzScopesText(a.Scope(), 2*len(src)+8) == src, "success means every byte was read")
	}
	zzv.Reach("checked")
}

// the same through the helper, with any bytes
func ZC17_readfile() {
	zzReset()
	src := zzv.Str(zzv.Pick(zzv.Bound(4, 6)))
	zzos.Put("a.go", []byte(src))
	zzos.Short = 1
	failed := zzFaults(8)
	var err error
	var got []byte
	panicked := zzv.Catch(func() { got, err = helper.ReadFile("a") })
	zzv.Assert(!panicked, "a failing read does not panic")
	zzv.Assert(zzos.Opened == zzos.Closed, "every opened file is closed")
	zzv.Assert(!zzHas(*failed, "open", "read") || err != nil, "a failing call is reported")
	zzv.Assert(len(*failed) != 0 || err == nil, "a read without failures succeeds")
	zzv.Assert(err != nil || string(got) == src, "success means every byte was read")
	zzv.Reach("checked")
}

// long texts: the k-th call of a sort fails
func ZC17_long() {
	zzReset()
	n := []int{600, 5000, 70000}[zzv.Pick(3)]
	text := "package p\n\n// " + strings.Repeat("long line\n// ", n/13) + "\n"
	if zzv.Yes() {
		// exactly one byte more than a common buffer
		k := []int{512, 4096, 32768, 65536}[zzv.Pick(4)]
		text = "package p\n//" + strings.Repeat("l", k-12) + "\n"
	}
	k, fail := zzv.Pick(12), []error{zzFail, zzos.ErrClosed, io.ErrUnexpectedEOF, io.ErrShortWrite, syscall.EINTR}[zzv.Pick(5)]
	op := []string{"mkdir", "create", "write", "close", "open", "read"}[zzv.Pick(6)]
	seen, hit := 0, false
	zzos.Short = []int{0, 7000}[zzv.Pick(2)]
	zzos.Fault = func(o, path string) error {
		if o != op {
			return nil
		}
		seen++
		if seen == k+1 {
			hit = true
			return fail
		}
		return nil
	}
	var err error
	if op == "open" || op == "read" {
		zzos.Put("d/a.go", []byte(text))
		var got []byte
		panicked := zzv.Catch(func() { got, err = helper.ReadFile("d/a.go") })
		zzv.Assert(!panicked, "a failing read does not panic")
		zzv.Assert(err != nil || string(got) == text, "success means every byte was read")
	} else {
		panicked := zzv.Catch(func() { err = helper.SaveFile("d/a.go", []byte(text), zzv.Yes()) })
		zzv.Assert(!panicked, "a failing save does not panic")
		got, ok := zzos.Get("d/a.go")
		zzv.Assert(err != nil || (ok && string(got) == text), "success means every byte was written")
	}
	zzv.Assert(hit == (err != nil), "a failing call is reported, success otherwise")
	zzv.Assert(zzos.Opened == zzos.Closed, "every opened file is closed")
	zzv.Reach("checked")
}

// whatever the formatter returns, and with existing directories
func ZC17_outcomes() {
	zzReset()
	if zzv.Yes() {
		zzos.PutDir("d")
	}
	if zzv.Yes() {
		zzos.Put("d/a.go", []byte("xx"))
	}
	out := []string{"", "x", "yy", "longer than the text was"}[zzv.Pick(4)]
	zzformat.Hook = func(b []byte) ([]byte, error) { return []byte(out), nil }
	zzimports.Hook = func(_ string, b []byte) ([]byte, error) { return []byte(out), nil }
	zzos.Partial = []int{0, 1, 2, 1000}[zzv.Pick(4)]
	failed := zzFaults(5)
	err := helper.SaveFile("d/a.go", []byte("ab"), zzv.Yes())
	zzv.Assert(zzos.Opened == zzos.Closed, "every opened file is closed")
	zzv.Assert(!zzHas(*failed, "mkdir", "create", "write", "close", "rename") || err != nil, "a failing call is reported")
	zzv.Assert(len(*failed) != 0 || err == nil, "a save without failures succeeds")
	got, ok := zzos.Get("d/a.go")
	zzv.Assert(err != nil || (ok && string(got) == out), "success means every byte was written")
	zzv.Reach("checked")
}

// the formatter rejects the file, whatever it holds
func ZC17_rejected() {
	zzReset()
	text := []string{"package p", "// Code generated by x; DO NOT EDIT.\npackage p\n", "\xef\xbb\xbfpackage p\n", "", "\n", "package p\nvar x = \n", "//go:build ignore\n\npackage p\n", "x"}[zzv.Pick(8)]
	zzos.Put("a.go", []byte(text))
	zzformat.Hook = func(b []byte) ([]byte, error) {
		// a formatter may return text along with its error
		return [][]byte{nil, []byte("package q\n"), b}[zzv.Pick(3)], zzFail
	}
	if zzv.Yes() {
		_, err := helper.ReadFile("a")
		zzv.Assert(err != nil, "a rejected text is reported")
	} else {
		_, err := ParseAst("a")
		zzv.Assert(err != nil, "a rejected text is reported")
	}
	zzv.Assert(zzos.Opened == zzos.Closed && zzos.Opened == 1, "every opened file is closed")
	zzv.Reach("checked")
}
