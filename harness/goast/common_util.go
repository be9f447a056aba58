package goast

import (
	"strings"

	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzv"
)

// zzMark keeps imports used by every property's build.
var _ = kind.None
var _ = scope.Unknown

// zzChain lists the nodes from n on; more than max nodes means a cycle.
func zzChain(n *Node, max int) []*Node {
	var r []*Node
	for x := n; x != nil; x = x.Next() {
		r = append(r, x)
		zzv.Assert(len(r) <= max, "node chain does not end")
	}
	return r
}

func zzText(ns []*Node) string {
	var sb strings.Builder
	for _, n := range ns {
		sb.WriteString(n.Text())
	}
	return sb.String()
}

func zzScopesText(scs []Scope, max int) string {
	var sb strings.Builder
	for _, s := range scs {
		sb.WriteString(zzText(zzChain(s.Node(), max)))
	}
	return sb.String()
}

func zzMust(scs []Scope, err error) []Scope {
	zzv.Assert(err == nil, "parsing returns no error")
	return scs
}

// ---- reference lexer: Go's rules for literals and comments, the property's
// rule for everything else.

const (
	tkWord = iota
	tkSep
	tkString
	tkRune
	tkComment
)

type zzTok struct {
	kind       int
	start, end int
	line       int // 0-based line of the first byte
	col0       bool
}

func zzIsSep(c byte) bool {
	switch c {
	case ' ', '\t', '\n', '\r', '[', ']', '(', ')', '{', '}', ',', ':', ';':
		return true
	}
	return false
}

// zzLex splits src; ok is false when a literal or comment is not closed or a
// one-line literal contains a newline, which no Go source has.
func zzLex(src string) (toks []zzTok, ok bool) {
	toks, ok = zzLexTo(src)
	if !ok {
		toks = nil
	}
	return toks, ok
}

// zzLexTo is zzLex, but returns the tokens before the broken one in any case.
func zzLexTo(src string) (toks []zzTok, ok bool) {
	line := 0
	i := 0
	for i < len(src) {
		t := zzTok{start: i, line: line, col0: i == 0 || src[i-1] == '\n'}
		c := src[i]
		switch {
		case c == '"' || c == '\'':
			t.kind = tkString
			if c == '\'' {
				t.kind = tkRune
			}
			i++
			for {
				if i >= len(src) || src[i] == '\n' {
					return toks, false
				}
				if src[i] == '\\' {
					i += 2
					if i > len(src) || src[i-1] == '\n' {
						return toks, false
					}
					continue
				}
				i++
				if src[i-1] == c {
					break
				}
			}
		case c == '`':
			t.kind = tkString
			i++
			for {
				if i >= len(src) {
					return toks, false
				}
				i++
				if src[i-1] == '`' {
					break
				}
				if src[i-1] == '\n' {
					line++
				}
			}
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			t.kind = tkComment
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(src) && src[i+1] == '*':
			t.kind = tkComment
			i += 2
			for {
				if i+1 >= len(src) {
					return toks, false
				}
				if src[i] == '*' && src[i+1] == '/' {
					i += 2
					break
				}
				if src[i] == '\n' {
					line++
				}
				i++
			}
		case zzIsSep(c):
			t.kind = tkSep
			i++
			if c == '\n' {
				line++
			}
		default:
			t.kind = tkWord
			for i < len(src) && !zzIsSep(src[i]) {
				d := src[i]
				if d == '"' || d == '\'' || d == '`' {
					break
				}
				if d == '/' && i+1 < len(src) && (src[i+1] == '/' || src[i+1] == '*') {
					break
				}
				i++
			}
		}
		t.end = i
		toks = append(toks, t)
	}
	return toks, true
}

// zzBOM is a byte order mark, which Go ignores in front of the first token.
const zzBOM = "\xef\xbb\xbf"

// zzLexFile is zzLexTo for a file, which may start with a byte order mark.
func zzLexFile(src string) (toks []zzTok, ok bool) {
	if !strings.HasPrefix(src, zzBOM) {
		return zzLexTo(src)
	}
	toks, ok = zzLexTo(src[len(zzBOM):])
	for i := range toks {
		toks[i].start += len(zzBOM)
		toks[i].end += len(zzBOM)
	}
	return toks, ok
}

// zzHead is a top-level line start by the property's rule.
type zzHead struct {
	off, line int
	kind      scope.Kind
}

// zzHeads finds the lines whose first token starts a top-level declaration or
// comment.  strict is false when a keyword or comment directly follows a
// multi-line literal or comment on its last line, where "first token of the line
// in column 0" has no clear answer.
func zzHeads(src string, toks []zzTok) (hs []zzHead, strict bool) {
	strict = true
	for k, t := range toks {
		if t.col0 {
			if sk := zzHeadKind(src, t); sk != scope.Unknown {
				hs = append(hs, zzHead{t.start, t.line, sk})
			}
		} else if k > 0 && toks[k-1].line != t.line && src[toks[k-1].end-1] != '\n' && zzHeadKind(src, t) != scope.Unknown {
			strict = false
		}
	}
	return hs, strict
}

// zzHeadKind is the kind of scope that a token in column 0 starts.
func zzHeadKind(src string, t zzTok) scope.Kind {
	txt := src[t.start:t.end]
	switch {
	case t.kind == tkComment && txt[1] == '/':
		return scope.Comment
	case t.kind == tkComment:
		return scope.InnerComment
	case t.kind != tkWord:
		return scope.Unknown
	}
	switch txt {
	case "package":
		return scope.Package
	case "import":
		return scope.Import
	case "var":
		return scope.Variable
	case "const":
		return scope.Const
	case "type":
		return scope.Type
	case "func":
		return scope.Func
	}
	return scope.Unknown
}

// ---- source generators

// zzWords are the pieces generated texts are made of.
var zzWords = []string{"func", "a", "(", ")", " ", "{", "}", "[", "]", ",", "\n", "/*c*/", "//d\n", "*T", "struct", "interface", "map", "type", "\"s\"", "int", "\t", "=", ":", ";", "`r\n`", "chan", "...T", "1"}

func zzPickWords(k int, words []string) string {
	var sb strings.Builder
	for i := 0; i < k; i++ {
		sb.WriteString(words[zzv.Pick(len(words))])
	}
	return sb.String()
}

func zzOpt(s string) string {
	if zzv.Yes() {
		return s
	}
	return ""
}

const zzLetters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const zzHigh = "\x80\x81\x8f\x90\xa0\xbf\xc2\xc3\xce\xd0\xe4\xe6\xf0\xfe\xff"
const zzIdentBytes = zzLetters + "0123456789_"

// zzIdent is an arbitrary ASCII identifier of n bytes that is no keyword, no
// basic type and not the blank identifier.
func zzIdent(n int) string {
	if n == 1 {
		return zzIdentOf(n, zzLetters, zzIdentBytes)
	}
	return zzIdentOf(n, zzLetters+"_", zzIdentBytes)
}

// zzIdentU also has bytes of multi-byte letters.
func zzIdentU(n int) string { return zzIdentOf(n, zzLetters+zzHigh, zzIdentBytes+zzHigh) }

func zzIdentOf(n int, first, rest string) string {
	b := make([]byte, n)
	for i := range b {
		if i == 0 {
			b[i] = zzv.ByteOf(first)
		} else {
			b[i] = zzv.ByteOf(rest)
		}
	}
	s := string(b)
	zzv.Assume(!zzReserved(s))
	return s
}

// zzReserved tells whether s is a keyword or predeclared basic type.
func zzReserved(s string) bool { return zzKeyword(s) || zzBasic(s) }

func zzKeyword(s string) bool {
	switch s {
	case "break", "default", "func", "interface", "select", "case", "defer", "go", "map", "struct", "chan", "else", "goto",
		"package", "switch", "const", "fallthrough", "if", "range", "type", "continue", "for", "import", "return", "var":
		return true
	}
	return false
}

func zzBasic(s string) bool {
	switch s {
	case "bool", "string", "byte", "rune", "int", "uint", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64",
		"uintptr", "float32", "float64", "complex64", "complex128":
		return true
	}
	return false
}

// zzFill is harmless source of at least n bytes: declarations of many lines.
func zzFill(n int) string {
	var sb strings.Builder
	for i := 0; sb.Len() < n; i++ {
		sb.WriteString("\tx := f(a, b[i], \"s\\\"\\n\") // it's {\n")
	}
	return sb.String()
}

// zzKindOf is the property's classification, written as one table.
func zzKindOf(s string) kind.Kind {
	switch s {
	case "":
		return kind.None
	case "\t":
		return kind.Tab
	case " ":
		return kind.Space
	case ",":
		return kind.Comma
	case ":":
		return kind.Colon
	case "\n":
		return kind.NewLine
	case ";":
		return kind.Semicolon
	case "(":
		return kind.ParenthesisLeft
	case ")":
		return kind.ParenthesisRight
	case "{":
		return kind.CurlyBracketLeft
	case "}":
		return kind.CurlyBracketRight
	case "[":
		return kind.SquareBracketLeft
	case "]":
		return kind.SquareBracketRight
	case "\r":
		return kind.Separator
	case "import":
		return kind.Import
	case "var":
		return kind.Var
	case "const":
		return kind.Const
	case "map":
		return kind.Map
	case "chan":
		return kind.Channel
	case "func":
		return kind.Func
	case "type":
		return kind.Type
	case "struct":
		return kind.Struct
	case "interface":
		return kind.Interface
	case "package":
		return kind.Package
	}
	if s[0] == '"' || s[0] == '`' {
		return kind.String
	}
	if zzKeyword(s) {
		return kind.Keyword
	}
	if zzBasic(s) {
		return kind.Basic
	}
	num, sym := true, true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < '0' || c > '9' {
			num = false
		}
		if !zzOperator(c) {
			sym = false
		}
		if !num && !sym {
			break
		}
	}
	if num {
		return kind.Number
	}
	if sym {
		return kind.Symbol
	}
	return kind.Raw
}

func zzOperator(c byte) bool {
	switch c {
	case '+', '&', '=', '!', '(', ')', '-', '|', '<', '[', ']', '*', '^', '>', '{', '}', '/', ':', ',', ';', '%', '.', '~', '_':
		return true
	}
	return false
}
