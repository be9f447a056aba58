package goast

import (
	"strings"

	"github.com/yanun0323/goast/charset"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzformat"
	"github.com/yanun0323/goast/zzimports"
	"github.com/yanun0323/goast/zzos"
	"github.com/yanun0323/goast/zzv"
)

// zzSilent runs f, which must write nothing anywhere.
func zzSilent(f func()) {
	out, errOut := zzv.Output(f)
	zzv.Assert(out == "", "nothing is written to standard output")
	zzv.Assert(errOut == "", "nothing is written to standard error")
}

// zzLook calls what answers questions about a scope and its nodes.
func zzLook(sc Scope, texts bool) {
	_, _ = sc.GetFuncName()
	_, _ = sc.GetMethodName()
	_, _ = sc.GetMethodReceiver()
	_, _ = sc.GetTypeName()
	_, _ = sc.GetStructName()
	_, _ = sc.GetInterfaceName()
	_, _, _ = sc.Kind(), sc.Line(), sc.Description()
	cp := sc.Copy().Node()
	cp.Last().IterPrev(func(n *Node) bool {
		_, _, _ = n.Kind(), n.Line(), n.Text()
		if texts {
			_ = n.Description()
		}
		return true
	})
}

func zzQuiet(src string, texts bool) {
	zzv.ObsStr("src", src)
	zzSilent(func() {
		scs := zzMust(ParseScope(zzv.Pick(2)*4, []byte(src)))
		for _, sc := range scs {
			zzLook(sc, texts)
		}
		a, err := NewAst(scs...)
		if err != nil {
			return
		}
		_, _ = a.Package()
		a = a.Copy().SetScope(a.Scope())
		a.AppendScope(scs...)
		a.IterScope(func(Scope) bool { return true })
		if texts {
			_ = a.Description()
		}
	})
	zzv.Reach("checked")
}

func ZC24_raw()      { zzQuiet(zzSrcRaw(len(zzCtx), zzv.Bound(2, 3)), true) }
func ZC24_lex()      { zzQuiet(zzSrcLex(len(zzCtx), zzv.Bound(2, 4)), false) }
func ZC24_pieces()   { zzQuiet(zzSrcPieces(0, len(zzOpenings), 2, zzv.Bound(20, len(zzPieces))), false) }
func ZC24_decl()     { zzQuiet(zzSrcDecl(), false) }
func ZC24_edge()     { zzQuiet(zzSrcEdge(), false) }
func ZC24_sequence() { zzQuiet(zzSrcSeq(zzv.Bound(2, 3)), false) }
func ZC24_near()     { zzQuiet(zzSrcNear(), false) }
func ZC24_exprs()    { zzQuiet(zzSrcExprs(), false) }
func ZC24_long()     { zzQuiet(zzSrcLong(), false) }
func ZC24_big()      { zzQuiet(zzSrcBig(), false) }
func ZC24_deep()     { zzQuiet(zzSrcDeep(), false) }

// every node operation on every pair of nodes of two chains, nil included
func ZC24_nodes() {
	t := zzv.Str(1)
	a, b := NewNodes(zzv.Pick(2)*7-2, "a", t, "\n"), NewNodes(0, t, "func")
	all := []*Node{nil, a, a.Next(), a.Last(), b, b.Next()}
	n, m := all[zzv.Pick(len(all))], all[zzv.Pick(len(all))]
	op := zzv.Pick(18)
	zzSilent(func() {
		switch op {
		case 0:
			n.InsertPrev(m)
		case 1:
			n.InsertNext(m)
		case 2:
			n.ReplacePrev(m)
		case 3:
			n.ReplaceNext(m)
		case 4:
			n.TakePrev()
		case 5:
			n.TakeNext()
		case 6:
			n.RemovePrev()
		case 7:
			n.RemoveNext()
		case 8:
			n.Isolate()
		case 9:
			n.CombinePrev(kind.Raw, m, nil)
		case 10:
			n.CombineNext(kind.ParamType, m, m)
		case 11:
			n.SetKind(kind.Comment)
			_ = n.Kind().String()
		case 12:
			n.SetText(t + t)
			_ = n.Description()
		case 13:
			_, _ = n.Copy(), n.Copy(true)
		case 14:
			_, _ = n.First(), n.Last()
		case 15:
			_, _, _ = n.Line(), n.Kind(), n.Text()
		case 16:
			n.IterPrev(func(x *Node) bool { return x != m })
		case 17:
			n.IterNext(func(x *Node) bool { return x != m })
		}
	})
	zzv.Reach("checked")
}

// helpers, kinds, sets and the trie
func ZC24_small() {
	s, u := zzv.Str(zzv.Pick(3)), zzv.Str(zzv.Pick(2))
	op := zzv.Pick(7)
	zzSilent(func() {
		switch op {
		case 0:
			_, _ = helper.HasPrefix([]byte(s), u), helper.HasSuffix([]byte(s), u)
		case 1:
			_ = helper.TidyText(s)
		case 2:
			_ = helper.AppendUnrepeatable([]string{s}, u, s)
		case 3:
			k := kind.New(s)
			_, _ = k.GetClose()
			_, _ = k.String(), k.PointerString()
		case 4:
			k := scope.Kind(s)
			_, _ = k.String(), k.ToKind()
			_ = newScopeKind(s)
		case 5:
			_ = charset.New(s, u).Contain(u)
			_ = charset.NewSlice([]string{s}, nil).Contain(u)
		case 6:
			tr := newTrie(map[string]int{"": 1})
			tr.AddText(s, 2)
			_, _ = tr.FindText(u)
			_, _ = tr.FindByteReversely([]byte(s + u))
		}
	})
	zzv.Reach("checked")
}

// printing writes the description and nothing else
func ZC24_print() {
	var n *Node
	ks := []kind.Kind{kind.None, kind.Raw, kind.Comment, kind.ParamName, kind.Tab}
	line := []int{0, 7, 99999, -1}[zzv.Pick(4)]
	if zzv.Yes() {
		long := strings.Repeat("a/ ", []int{0, 20, 100, 2000}[zzv.Pick(4)])
		n = NewNode(line, zzv.Str(zzv.Pick(zzv.Bound(3, 4)))+long, ks[zzv.Pick(len(ks))])
		n.InsertNext(NewNode(1, "next"))
		n.InsertPrev(NewNode(1, "prev"))
	}
	want := n.Description()
	out, errOut := zzv.Output(n.Print)
	zzv.ObsStr("printed", errOut)
	zzv.Assert(out == "", "nothing is written to standard output")
	zzv.Assert(errOut == "\t "+want+"\n", "a node prints its description")

	scs := []scope.Kind{scope.Unknown, scope.Package, scope.Comment, scope.InnerComment, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func}
	sc := NewScope(line, scs[zzv.Pick(len(scs))], n)
	want = sc.Description()
	out, errOut = zzv.Output(sc.Print)
	zzv.Assert(out == "", "nothing is written to standard output")
	zzv.Assert(errOut == want+"\n", "a scope prints its description")
	zzv.Reach("checked")
}

// debug output: only while it is on, only to standard output, changing nothing
func ZC24_debug() {
	var src string
	switch zzv.Pick(5) {
	case 0:
		src = zzSrcPieces(0, len(zzOpenings), zzv.Bound(1, 2), zzv.Bound(14, len(zzPieces)))
	case 1:
		src = zzSrcEdge()
	case 2:
		src = zzSrcSeq(1)
	case 3:
		src = zzSrcLex(zzv.Bound(4, len(zzCtx)), 2)
	default:
		src = "func (r *R[K]) f(a func(b T) (c U, d V), e, g map[K]V, h ...H) (h, i int) { return /**/ }\ntype T[K any] struct {\n\ta, b func(c D) E `f`\n\tG // h\n}\n" + zzv.StrOf(1, "/*\"`'(){}\n")
	}
	zzv.ObsStr("src", src)
	var quiet, loud []Scope
	zzSilent(func() { quiet = zzMust(ParseScope(0, []byte(src))) })
	out, errOut := zzv.Output(func() {
		helper.SetDebug(true)
		loud = zzMust(ParseScope(0, []byte(src)))
		helper.SetDebug(false)
	})
	zzv.Assert(errOut == "", "debug output goes to standard output")
	zzv.Assert(out == "" || out[len(out)-1] == '\n', "debug output consists of lines")
	zzv.Assert(len(quiet) == len(loud), "debugging changes no scope")
	if len(quiet) == len(loud) {
		max := 2*len(src) + 8
		for i := range quiet {
			a, b := zzChain(quiet[i].Node(), max), zzChain(loud[i].Node(), max)
			zzv.Assert(quiet[i].Kind() == loud[i].Kind() && quiet[i].Line() == loud[i].Line() && len(a) == len(b), "debugging changes no scope")
			for k := 0; k < len(a) && k < len(b); k++ {
				zzv.Assert(a[k].Text() == b[k].Text() && a[k].Kind() == b[k].Kind() && a[k].Line() == b[k].Line(), "debugging changes no node")
			}
		}
	}
	zzSilent(func() { zzMust(ParseScope(0, []byte(src))) })
	zzv.Reach("checked")
}

// what is printed while debugging begins with what was given
func ZC24_debugprint() {
	s, u := zzv.Str(zzv.Pick(3)), zzv.Str(1)
	hist := make([]bool, zzv.Pick(4))
	for i := range hist {
		hist[i] = zzv.Yes()
	}
	on := len(hist) > 0 && hist[len(hist)-1]
	args := []any{s, u}[:zzv.Pick(3)]
	want := ""
	for _, a := range args {
		want += a.(string) + " "
	}
	out, errOut := zzv.Output(func() {
		for _, h := range hist {
			helper.SetDebug(h)
		}
		helper.DebugPrint(args...)
	})
	helper.SetDebug(false)
	zzv.Assert(errOut == "", "debug output goes to standard output")
	if on {
		zzv.Assert(strings.HasPrefix(out, want) && strings.HasSuffix(out, "\n"), "a debug line holds what was given")
	} else {
		zzv.Assert(out == "", "nothing is written unless debugging")
	}
	zzv.Reach("checked")
}

// loading and saving: what fails is reported by the error, not printed
func ZC24_files() {
	zzos.Reset()
	zzformat.Hook, zzimports.Hook, zzformat.Seen = nil, nil, nil
	fail := -1
	if zzv.Yes() {
		fail = zzv.Pick(8)
	}
	n := 0
	zzos.Fault = func(op, path string) error {
		n++
		if n-1 == fail {
			return zzos.ErrPermission
		}
		return nil
	}
	src := []string{"package p\n\nfunc f() {}\n", "// c\n", ""}[zzv.Pick(3)] + zzv.StrOf(1, "a\n/")
	switch zzv.Pick(3) {
	case 0:
		zzos.Put("d/a.go", []byte(src))
	case 1:
		zzos.PutDir("d/a.go")
	}
	rejects := zzv.Yes()
	saves, auto := zzv.Yes(), zzv.Yes()
	zzformat.Hook = func(b []byte) ([]byte, error) {
		if rejects {
			return nil, zzos.ErrInvalid
		}
		return b, nil
	}
	zzimports.Hook = func(name string, b []byte) ([]byte, error) { return zzformat.Hook(b) }
	out, errOut := zzv.Output(func() {
		if !saves {
			_, _ = ParseAst("d/a" + zzOpt(".go"))
			return
		}
		a, err := NewAst(NewScope(0, scope.Package, NewNodes(0, "package", " ", "p", src)))
		if err == nil {
			_ = a.Save("d/a"+zzOpt(".go"), auto)
		}
	})
	zzv.Assert(out == "", "nothing is written to standard output")
	zzv.Assert((errOut != "") == (saves && rejects), "exactly a rejected format is logged")
	zzv.Reach("checked")
}

// comments that mean something to some tool
func ZC24_pragmas() { zzQuiet(zzSrcPragmas(), false) }
