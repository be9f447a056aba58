package goast

import (
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/zzv"
)

func zzCheckKind(s string) {
	zzv.ObsStr("text", s)
	want := zzKindOf(s)
	got := kind.New(s)
	zzv.ObsStr("kind", got.String())
	zzv.Assert(got == want, "kind.New is the kind of the text")
	n := NewNode(7, s)
	zzv.Assert(n.Kind() == want, "a new node has the kind of its text")
	zzv.Assert(n.Text() == s && n.Line() == 7, "a new node has its text and line")
	zzv.Assert(NewNodes(3, s).Kind() == want, "a node of a chain has the kind of its text")
	if s != "" {
		zzv.Assert(NewNodes(3, "x", s).Next().Kind() == want, "a later node of a chain has the kind of its text")
	}
	zzv.Reach("checked")
}

// every text of up to 12 bytes
func ZC03_short() { zzCheckKind(zzv.Str(zzv.Pick(zzv.Bound(4, 5)))) }
func ZC03_long()  { zzCheckKind(zzv.Str(4 + zzv.Pick(zzv.Bound(3, 9)))) }

// texts of the length of every keyword and basic type, over their letters
func ZC03_words() {
	n := 2 + zzv.Pick(12)
	b := make([]byte, n)
	for i := range b {
		b[i] = zzv.ByteOf("abcdefghiklmnoprstuvxy1234568F")
	}
	zzCheckKind(string(b))
}

// one-class texts with one arbitrary byte at an arbitrary place
func ZC03_mixed() {
	n := 1 + zzv.Pick(zzv.Bound(20, 60))
	fill := []byte("5+_a\"")[zzv.Pick(5)]
	b := make([]byte, n)
	for i := range b {
		b[i] = fill
	}
	b[zzv.Pick(n)] = zzv.Byte()
	zzCheckKind(string(b))
}

// keywords and basic types with one arbitrary byte in front, behind or inside
func ZC03_near() {
	w := []string{"func", "interface", "struct", "map", "chan", "type", "import", "package", "var", "const", "fallthrough", "go", "if", "string",
		"int", "uint8", "complex128", "uintptr", "bool", "rune", "select", "float64", "continue", "1234", "<<="}[zzv.Pick(25)]
	b := []byte(w)
	switch zzv.Pick(3) {
	case 0:
		b = append(b, zzv.Byte())
	case 1:
		b = append([]byte{zzv.Byte()}, b...)
	case 2:
		b[zzv.Pick(len(b))] = zzv.Byte()
	}
	zzCheckKind(string(b))
}

var zzKinds = []kind.Kind{kind.None, kind.Raw, kind.Comment, kind.Number, kind.Symbol, kind.Basic, kind.Separator, kind.Keyword, kind.Tab, kind.Space,
	kind.Comma, kind.Colon, kind.NewLine, kind.Semicolon, kind.ParenthesisLeft, kind.ParenthesisRight, kind.CurlyBracketLeft, kind.CurlyBracketRight,
	kind.SquareBracketLeft, kind.SquareBracketRight, kind.Pointer, kind.Address, kind.Import, kind.Var, kind.Const, kind.Map, kind.Channel, kind.Func,
	kind.Type, kind.Struct, kind.Interface, kind.Package, kind.FuncName, kind.TypeName, kind.TypeAliasType, kind.ParamName, kind.ParamType,
	kind.MethodReceiverName, kind.MethodReceiverType, kind.String, kind.Method}

// an explicit kind wins over the text
func ZC03_explicit() {
	k := zzKinds[zzv.Pick(len(zzKinds))]
	s := zzv.Str(zzv.Pick(3))
	n := NewNode(zzv.Int(), s, k)
	zzv.Assert(n.Kind() == k && n.Text() == s, "an explicit kind is kept")
	n2 := NewNode(1, s, k, kind.Raw)
	zzv.Assert(n2.Kind() == k, "the first explicit kind is kept")
	zzv.Reach("checked")
}

// the partner of every kind
func ZC03_close() {
	i := zzv.Pick(len(zzKinds))
	k := zzKinds[i]
	for j, o := range zzKinds {
		zzv.Assert((k == o) == (i == j), "kinds are distinct")
	}
	pairs := [][2]kind.Kind{{kind.ParenthesisLeft, kind.ParenthesisRight}, {kind.CurlyBracketLeft, kind.CurlyBracketRight}, {kind.SquareBracketLeft, kind.SquareBracketRight}}
	c, ok := k.GetClose()
	zzv.ObsBool(k.String(), ok)
	want, found := kind.None, false
	for _, p := range pairs {
		if k == p[0] {
			want, found = p[1], true
		}
		if k == p[1] {
			want, found = p[0], true
		}
	}
	zzv.Assert(ok == found && c == want, "GetClose is the partner of a bracket and of nothing else")
	if ok {
		b, ok2 := c.GetClose()
		zzv.Assert(ok2 && b == k, "GetClose is its own inverse")
	}
	zzv.Reach("checked")
}

// any other kind value has no partner
func ZC03_closeany() {
	k := kind.Kind{zzv.Str(zzv.Pick(3)), zzv.Str(zzv.Pick(3))}
	c, ok := k.GetClose()
	zzv.Assert(!ok && c == kind.None, "GetClose fails for every other kind")
	zzv.Reach("checked")
}

// literals and comments found by the parser
func zzLiteralKinds(src string) {
	zzv.ObsStr("src", src)
	toks, ok := zzLexTo(src)
	n, err := extract([]byte(src))
	zzv.Assert(err == nil, "tokenizing returns no error")
	for _, t := range toks {
		zzv.Assert(n != nil, "a token is missing")
		txt := src[t.start:t.end]
		zzv.Assert(n.Text() == txt, "tokens are nodes")
		switch t.kind {
		case tkComment:
			zzv.Assert(n.Kind() == kind.Comment, "a comment is of kind Comment")
		case tkString:
			zzv.Assert(n.Kind() == kind.String, "a string is of kind String")
		case tkRune:
			zzv.Assert(n.Kind() == kind.Raw, "a rune is of the kind of its text")
		default:
			zzv.Assert(n.Kind() == zzKindOf(txt), "other tokens are of the kind of their text")
		}
		n = n.Next()
	}
	_ = ok
	zzv.Reach("checked")
}

func ZC03_raw()    { zzLiteralKinds(zzSrcRaw(zzv.Bound(len(zzCtx), len(zzCtx)), zzv.Bound(2, 3))) }
func ZC03_lex()    { zzLiteralKinds(zzSrcLex(len(zzCtx), zzv.Bound(3, 5))) }
func ZC03_pieces() { zzLiteralKinds(zzSrcPieces(0, len(zzOpenings), 2, len(zzPieces))) }
func ZC03_big()    { zzLiteralKinds(zzSrcBig()) }

// texts that follow similar ones
func ZC03_after() { zzLiteralKinds(zzSrcAfter()) }

// one text after another that differs from it in an arbitrary byte or is longer
func ZC03_twice() {
	w := []string{"12345678901234567890123456789012", "abcdefghijklmnopqrstuvwxyzabcdef", "<<=<<=<<=<<=<<=<<=", "\"abcdefghijklmnopqrst\"", "fallthrough", "interface", "uintptr", "complex128", "func", "struct", "1", "+", "a", "("}[zzv.Pick(14)]
	b := []byte(w)
	switch zzv.Pick(4) {
	case 0:
		b[zzv.Pick(len(b))] = zzv.Byte()
	case 1:
		b = append(b, zzv.Byte())
	case 2:
		b = b[:zzv.Pick(len(b))]
	case 3:
		b = append([]byte{zzv.Byte()}, b...)
	}
	v := string(b)
	if zzv.Yes() {
		v, w = w, v
	}
	zzCheckKind(v)
	zzCheckKind(w)
	zzCheckKind(v)
}

// long one-class texts of lengths around sizes a program may have in it
func ZC03_lengths() {
	n := []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097}[zzv.Pick(17)]
	b := make([]byte, n)
	fill := []byte("5+_a\"`")[zzv.Pick(6)]
	for i := range b {
		b[i] = fill
	}
	b[[]int{0, 1, n / 2, n - 1}[zzv.Pick(4)]] = zzv.Byte()
	zzCheckKind(string(b))
}
