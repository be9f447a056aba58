package goast

import (
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzv"
)

// zzUseScope calls every lookup of a scope.
func zzUseScope(sc Scope) {
	_, _ = sc.GetFuncName()
	_, _ = sc.GetMethodName()
	_, _ = sc.GetMethodReceiver()
	_, _ = sc.GetTypeName()
	_, _ = sc.GetStructName()
	_, _ = sc.GetInterfaceName()
	_ = sc.Kind()
	_ = sc.Line()
	_ = sc.Description()
}

// zzUse parses src and calls everything a user can call on the result.
func zzUse(src string, deep bool) {
	zzv.ObsStr("src", src)
	max := 2*len(src) + 8
	panicked := zzv.Catch(func() {
		scs, err := ParseScope(0, []byte(src))
		zzv.Assert(err == nil || scs == nil, "an error comes without scopes")
		for _, sc := range scs {
			zzUseScope(sc)
			zzChain(sc.Node(), max)
			if !deep {
				continue
			}
			zzUseScope(sc.Copy())
			last := sc.Node().Last()
			k := 0
			last.IterPrev(func(n *Node) bool {
				k++
				zzv.Assert(k <= max, "iterating backwards ends")
				return true
			})
			_ = last.First().Description()
			_ = sc.Node().Copy()
		}
		if deep {
			a, err := NewAst(scs...)
			if err == nil {
				_ = a.Description()
				_, _ = a.Package()
				_ = a.Copy().Scope()
			}
		}
	})
	zzv.Assert(!panicked, "parsing and lookups do not panic")
	zzv.Reach("checked")
}

func ZC08_raw()     { zzUse(zzSrcRaw(len(zzCtx), zzv.Bound(3, 4)), true) }
func ZC08_lex()     { zzUse(zzSrcLex(len(zzCtx), zzv.Bound(3, 5)), false) }
func ZC08_pieces()  { zzUse(zzSrcPieces(0, len(zzOpenings), zzv.Bound(3, 4), zzv.Bound(12, 13)), false) }
func ZC08_pieces2() { zzUse(zzSrcPieces(0, len(zzOpenings), zzv.Bound(2, 3), len(zzPieces)), true) }
func ZC08_big()     { zzUse(zzSrcBig(), true) }
func ZC08_deep()    { zzUse(zzSrcDeep(), true) }

// declarations cut off anywhere
func ZC08_truncated() {
	srcs := []string{
		"func (r *R[K]) f(a func(b T) (c U, d V), e map[K]V) (g, h int) { return }\n",
		"type T[K any] struct {\n\ta, b func(c D) E `f`\n\tG // h\n}\n",
		"type T interface {\n\tF(a []T, b ...U) (c, d E)\n\tG\n\tint | ~string\n}\n",
		"func f[T any](a [3]T, b chan<- struct{}) func(c D) E { return func() {}() }\n",
		"type T = func(a struct{ b int }, c interface{ D() }) (<-chan E)\n",
		"var a = map[string]func(){\"b\": func() { c['\\''] = `d` }}\n",
	}
	s := srcs[zzv.Pick(len(srcs))]
	cut := zzv.Pick(len(s))
	if zzv.Yes() {
		zzUse(s[:cut]+string([]byte{zzv.ByteOf("(){}[], \n\"`'/*a")}), true)
		return
	}
	zzUse("type "+s[cut:], true)
}

// scopes put together by hand: any kind over any nodes
func ZC08_handmade() {
	ks := []scope.Kind{scope.Unknown, scope.Package, scope.Comment, scope.InnerComment, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func, "x"}
	k := ks[zzv.Pick(len(ks))]
	texts := []string{"", "func", "type", "a", "(", ")", "{", "[", "]", " ", "struct", "package", "//c", "\n", "="}
	var ns []string
	for i := 0; i < zzv.Bound(2, 3); i++ {
		ns = append(ns, texts[zzv.Pick(len(texts))])
	}
	n := NewNodes(0, ns...)
	marks := []kind.Kind{kind.FuncName, kind.TypeName, kind.MethodReceiverType, kind.Raw, kind.SquareBracketRight}
	n.Next().SetKind(marks[zzv.Pick(len(marks))])
	if zzv.Yes() {
		n = nil
	}
	panicked := zzv.Catch(func() {
		sc := NewScope(41, k, n)
		zzUseScope(sc)
		zzUseScope(sc.Copy())
		a, err := NewAst(sc)
		if err == nil {
			_, _ = a.Package()
			_ = a.Description()
		}
	})
	zzv.Assert(!panicked, "lookups of a scope built by hand do not panic")
	zzv.Reach("checked")
}

// every node method on a nil node, with every sort of argument
func ZC08_nil() {
	var n *Node
	a := NewNodes(1, "a", "b", "c")
	arg := []*Node{nil, a, a.Next(), a.Next().Next()}[zzv.Pick(4)]
	panicked := zzv.Catch(func() {
		switch zzv.Pick(22) {
		case 0:
			zzv.Assert(n.Copy() == nil && n.Copy(true) == nil && n.Copy(false) == nil, "a copy of nil is nil")
		case 1:
			zzv.Assert(n.IterPrev(func(*Node) bool { zzv.Assert(false, "nil has no nodes"); return true }) == nil, "iterating nil ends at nil")
		case 2:
			zzv.Assert(n.IterNext(func(*Node) bool { zzv.Assert(false, "nil has no nodes"); return true }) == nil, "iterating nil ends at nil")
		case 3:
			zzv.Assert(n.Prev() == nil && n.Next() == nil, "nil has no neighbours")
		case 4:
			zzv.Assert(n.First() == nil && n.Last() == nil, "nil has no ends")
		case 5:
			n.InsertPrev(arg)
		case 6:
			n.InsertNext(arg)
		case 7:
			n.ReplacePrev(arg)
		case 8:
			n.ReplaceNext(arg)
		case 9:
			zzv.Assert(n.TakePrev() == nil, "nothing to take from nil")
		case 10:
			zzv.Assert(n.TakeNext() == nil, "nothing to take from nil")
		case 11:
			zzv.Assert(n.RemovePrev() == nil, "nothing to remove from nil")
		case 12:
			zzv.Assert(n.RemoveNext() == nil, "nothing to remove from nil")
		case 13:
			n.Isolate()
		case 14:
			_ = n.Line()
		case 15:
			zzv.Assert(n.Kind() == kind.None, "nil has no kind")
		case 16:
			n.SetKind(kind.Raw)
		case 17:
			zzv.Assert(n.Text() == "", "nil has no text")
		case 18:
			n.SetText(zzv.Str(1))
		case 19:
			_ = n.Description()
		case 20:
			n.CombineNext(kind.Raw, nil, arg, nil, arg)
			n.CombineNext(kind.Raw)
			n.CombineNext(kind.Raw, nil)
		case 21:
			n.CombinePrev(kind.Raw, nil, arg, nil, arg)
			n.CombinePrev(kind.Raw)
			n.CombinePrev(kind.Raw, nil)
		}
	})
	zzv.Assert(!panicked, "no method panics on a nil node")
	zzv.Reach("checked")
}

// nil arguments to a real node
func ZC08_nilarg() {
	n := NewNodes(1, "a", "b", "c")
	at := []*Node{n, n.Next(), n.Next().Next()}[zzv.Pick(3)]
	panicked := zzv.Catch(func() {
		switch zzv.Pick(6) {
		case 0:
			at.InsertPrev(nil)
		case 1:
			at.InsertNext(nil)
		case 2:
			at.ReplacePrev(nil)
		case 3:
			at.ReplaceNext(nil)
		case 4:
			at.CombineNext(kind.Raw, nil, nil)
		case 5:
			at.CombinePrev(kind.Raw, nil, nil)
		}
		zzChain(at, 3)
	})
	zzv.Assert(!panicked, "no method panics on a nil argument")
	zzv.Reach("checked")
}

// comments that mean something to some tool
func ZC08_pragmas() { zzUse(zzSrcPragmas(), false) }
