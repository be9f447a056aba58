package goast

import (
	"strconv"
	"strings"

	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzv"
)

// zzSorts lists every scope kind with its name and the kind of its first node.
var zzSorts = []struct {
	k    scope.Kind
	name string
	node kind.Kind
}{
	{scope.Unknown, "Unknown", kind.Raw}, {scope.Package, "Package", kind.Package}, {scope.Comment, "Comment", kind.Comment}, {scope.InnerComment, "InnerComment", kind.Comment},
	{scope.Import, "Import", kind.Import}, {scope.Variable, "Variable", kind.Var}, {scope.Const, "Const", kind.Const}, {scope.Type, "Type", kind.Type}, {scope.Func, "Func", kind.Func},
}

// zzNames lists every kind of node with its name.
var zzKindNames = []struct {
	k    kind.Kind
	name string
}{
	{kind.None, ""}, {kind.Raw, "Raw"}, {kind.Comment, "Comment"}, {kind.Number, "Number"}, {kind.Symbol, "Symbol"}, {kind.Basic, "BasicType"}, {kind.Separator, "Separator"}, {kind.Keyword, "Keyword"},
	{kind.Tab, "Tab"}, {kind.Space, "Space"}, {kind.Comma, "Comma"}, {kind.Colon, "Colon"}, {kind.NewLine, "NewLine"}, {kind.Semicolon, "Semicolon"},
	{kind.ParenthesisLeft, "ParenthesisLeft"}, {kind.ParenthesisRight, "ParenthesisRight"}, {kind.CurlyBracketLeft, "CurlyBracketLeft"}, {kind.CurlyBracketRight, "CurlyBracketRight"},
	{kind.SquareBracketLeft, "SquareBracketLeft"}, {kind.SquareBracketRight, "SquareBracketRight"}, {kind.Pointer, "Pointer"}, {kind.Address, "Address"}, {kind.Import, "Import"}, {kind.Var, "Var"},
	{kind.Const, "Const"}, {kind.Map, "Map"}, {kind.Channel, "Channel"}, {kind.Func, "Func"}, {kind.Type, "Type"}, {kind.Struct, "Struct"}, {kind.Interface, "Interface"}, {kind.Package, "Package"},
	{kind.FuncName, "FuncName"}, {kind.TypeName, "TypeName"}, {kind.TypeAliasType, "TypeAliasType"}, {kind.ParamName, "ParamName"}, {kind.ParamType, "ParamType"},
	{kind.MethodReceiverName, "MethodReceiverName"}, {kind.MethodReceiverType, "MethodReceiverType"}, {kind.String, "String"}, {kind.Method, "Method"},
}

func zzNameOf(k kind.Kind) string {
	for _, n := range zzKindNames {
		if n.k == k {
			return n.name
		}
	}
	return "no kind"
}

// zzTidy makes white space visible.
func zzTidy(s string) string {
	var sb strings.Builder
	from := 0
	for i := 0; i < len(s); i++ {
		w := ""
		switch s[i] {
		case '\n':
			w = "\\n"
		case '\r', ' ':
			w = "·"
		case '\t':
			w = " -> "
		default:
			continue
		}
		sb.WriteString(s[from:i])
		sb.WriteString(w)
		from = i + 1
	}
	sb.WriteString(s[from:])
	return sb.String()
}

func zzDescribes(n *Node, line int) {
	d := n.Description()
	zzv.Assert(d == strconv.Itoa(line+1)+" .... "+zzTidy(n.Text())+" .... *Node."+zzNameOf(n.Kind()), "a node's description is its line counted from 1, its text with white space made visible, and its kind's name")
}

// zzNamed checks every scope of a text.
func zzNamed(src string, nodes bool) {
	zzv.ObsStr("src", src)
	for _, sc := range zzMust(ParseScope(0, []byte(src))) {
		n := sc.Node()
		found := false
		for _, s := range zzSorts {
			if s.k == sc.Kind() {
				found = true
				zzv.Assert(s.k != scope.Unknown, "a scope of a text has a kind")
				zzv.Assert(sc.Kind().ToKind() == n.Kind() && n.Kind() == s.node, "a scope's kind converts to the kind of its first node")
				zzv.Assert(strings.HasPrefix(n.Text(), string(s.k)), "a scope's first node begins with the text of the scope's kind")
				zzv.Assert(sc.Description() == strconv.Itoa(sc.Line())+" .... *Scope."+s.name, "a scope's description names its line and kind")
			}
		}
		zzv.Assert(found, "a scope of a text has one of the exported kinds")
		if nodes {
			for _, n := range zzChain(n, 2*len(src)+8) {
				zzDescribes(n, n.Line())
			}
		}
	}
	zzv.Reach("checked")
}

func ZC21_raw()      { zzNamed(zzSrcRaw(len(zzCtx), zzv.Bound(2, 3)), true) }
func ZC21_lex()      { zzNamed(zzSrcLex(len(zzCtx), zzv.Bound(2, 4)), true) }
func ZC21_pieces()   { zzNamed(zzSrcPieces(0, len(zzOpenings), 2, zzv.Bound(12, len(zzPieces))), false) }
func ZC21_decl()     { zzNamed(zzSrcDecl(), false) }
func ZC21_sequence() { zzNamed(zzSrcSeq(zzv.Bound(2, 3)), false) }
func ZC21_near()     { zzNamed(zzSrcNear(), false) }
func ZC21_long()     { zzNamed(zzSrcLong(), false) }

// scope kinds: those exported and any other text
func ZC21_scopekinds() {
	i := zzv.Pick(len(zzSorts))
	s := zzSorts[i]
	zzv.Assert(s.k.String() == s.name && s.k.ToKind() == s.node, "a scope kind has its name and its node kind")
	for j, o := range zzSorts {
		zzv.Assert((s.k == o.k) == (i == j) && (s.name == o.name) == (i == j), "scope kinds and their names are distinct")
	}
	n := zzv.Pick(zzv.Bound(8, 10))
	t := zzv.Str(n)
	k := scope.Kind(t)
	name, node := "", kind.None
	for _, o := range zzSorts {
		if string(o.k) == t {
			name, node = o.name, o.node
		}
	}
	zzv.ObsStr("kind", t)
	zzv.Assert(k.String() == name && k.ToKind() == node, "any other scope kind has no name and no node kind")
	zzv.Reach("checked")
}

// node kinds: their names, through values and pointers
func ZC21_kinds() {
	i := zzv.Pick(len(zzKindNames))
	k := zzKindNames[i].k
	zzv.Assert(k.String() == zzKindNames[i].name && k.PointerString() == zzKindNames[i].name, "a kind has its name")
	for j, o := range zzKindNames {
		zzv.Assert((k == o.k) == (i == j) && (k.String() == o.name) == (i == j), "kinds and their names are distinct")
	}
	var none *kind.Kind
	zzv.Assert(none.PointerString() == "", "no kind has no name")
	zzv.Reach("checked")
}

// handmade nodes of any kind, text and line
func ZC21_describe() {
	k := zzKindNames[zzv.Pick(len(zzKindNames))].k
	line := []int{-2, -1, 0, 8, 9, 99, 998, 65535, 1<<31 - 1, 1 << 40}[zzv.Pick(10)]
	s := zzv.Str(zzv.Pick(zzv.Bound(3, 4)))
	n := NewNode(line, s, k)
	zzv.ObsStr("description", n.Description())
	zzDescribes(n, line)
	n.SetKind(kind.Raw)
	n.SetText("a " + s)
	zzDescribes(n, line)
	n = NewNode(line, s)
	zzDescribes(n, line)
	n = nil
	zzv.Assert(n.Description() == "<nil>", "no node is described as <nil>")
	zzv.Reach("checked")
}

// long texts
func ZC21_describe_long() {
	n := []int{20, 64, 65, 100, 255, 256, 257, 1000, 1024, 4097, 70000}[zzv.Pick(11)]
	c := []string{"a", "a b", "\t", "\n", "x\r\n", "\u00e9"}[zzv.Pick(6)]
	s := strings.Repeat(c, n/len(c)) + zzv.Str(1)
	zzDescribes(NewNode(4, s), 4)
	zzDescribes(NewNodes(2, "\n", s).Next(), 3)
	zzv.Reach("checked")
}
