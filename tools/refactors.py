"""Applies edits that change no behaviour to scratch copies and runs every check on them; each has to stay quiet.
usage: refactors.py [set...] [-p C01,C02]"""
import os, re, subprocess, sys, tempfile, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
# A: loops, helpers, shared code
S['A'] = [
('node.go','''	for nn := n; nn != nil; nn = iter(nn) {
		if !fn(nn) {
			return nn
		}
	}

	return nil
''','''	cur := n
	for {
		if cur == nil {
			return nil
		}
		if keepGoing := fn(cur); !keepGoing {
			break
		}
		cur = iter(cur)
	}
	return cur
'''),
('node.go','''	return n.loop(func(nn *Node) *Node { return nn.Prev() }, fn)''','''	return n.loop((*Node).Prev, fn)'''),
('node.go','''	return n.loop(func(nn *Node) *Node { return nn.Next() }, fn)''','''	return n.loop((*Node).Next, fn)'''),
('node.go','''	return n.IterNext(func(n *Node) bool { return n.Next() != nil })''','''	last := n
	for last.Next() != nil {
		last = last.Next()
	}
	return last'''),
('node.go','''	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()

	n.setNext(nn)
	nn.setPrev(n)

	nn.setNext(nNext)
	nNext.setPrev(nn)
''','''	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()

	link(n, nn)
	link(nn, nNext)
'''),
('node.go','''// skipNestNext helper''','''// link makes b follow a.
func link(a, b *Node) {
	a.setNext(b)
	b.setPrev(a)
}

// skipNestNext helper'''),
('node.go','''	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	n.text = strings.Join(buf, "")

	return n
''','''	var sb strings.Builder
	sb.WriteString(n.Text())
	for i := range nns {
		if nn := nns[i]; nn != nil && nn != n {
			sb.WriteString(nn.Text())
			nn.Isolate()
		}
	}
	n.text = sb.String()

	return n
'''),
('node.go','''	for i, text := range texts[1:] {
		startLine += strings.Count(texts[i], "\\n")
		cur.InsertNext(NewNode(startLine, text))
		cur = cur.Next()
	}
''','''	line := startLine
	for i := 1; i < len(texts); i++ {
		for _, c := range []byte(texts[i-1]) {
			if c == '\\n' {
				line++
			}
		}
		next := NewNode(line, texts[i])
		cur.InsertNext(next)
		cur = next
	}
'''),
('scope.go','''	kinds := []scope.Kind{
		scope.Package,
		scope.Comment,
		scope.InnerComment,
		scope.Import,
		scope.Variable,
		scope.Const,
		scope.Type,
		scope.Func,
	}

	for _, kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
		}
	}

	return scope.Unknown
''','''	switch k := scope.Kind(s); k {
	case scope.Package, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func:
		return k
	}
	for _, k := range [...]scope.Kind{scope.Comment, scope.InnerComment} {
		if isScopeKind(s, k) {
			return k
		}
	}
	return scope.Unknown
'''),
('scope.go','''	d.Node().IterNext(func(n *Node) bool {
		found = n.Kind() == kind.MethodReceiverType
		name = n.Text()
		return !found
	})
''','''	for n := d.Node(); n != nil && !found; n = n.Next() {
		if n.Kind() != kind.MethodReceiverType {
			name = n.Text()
			continue
		}
		name, found = n.Text(), true
	}
'''),
('kind/kind.go','''	if len(s) != 0 {
		isNumber := true
		for i := range s {
			isNumber = isNumber && charset.NumberCharset.Contain(s[i])
			if !isNumber {
				break
			}
		}
		if isNumber {
			return Number
		}
	}
''','''	if all(s, charset.NumberCharset) {
		return Number
	}
'''),
('kind/kind.go','''func New(s string) Kind {''','''func all(s string, set charset.Set[byte]) bool {
	for i := range s {
		if !set.Contain(s[i]) {
			return false
		}
	}
	return true
}

func New(s string) Kind {'''),
('kind/kind.go','''	if len(s) != 0 {
		isSymbol := true
		for i := range s {
			isSymbol = isSymbol && charset.GolangSymbol.Contain(s[i])
			if !isSymbol {
				break
			}
		}
		if isSymbol {
			return Symbol
		}
	}
''','''	if all(s, charset.GolangSymbol) {
		return Symbol
	}
'''),
('kind/kind.go','''	if buf := []byte(s); helper.HasPrefix(buf, "\\"") || helper.HasPrefix(buf, "`") {
		return String
	}
''','''	switch s[0] {
	case '"', '`':
		return String
	}
'''),
('kind/kind.go','''	"github.com/yanun0323/goast/helper"
''',''),
('extractor.go','''	for k, v := range de {
		if helper.HasPrefix(s, k) {
			return k, v, true
		}
	}
	return "", nil, false
''','''	for n := 1; n <= 2 && n <= len(s); n++ {
		k := string(s[:n])
		if v, ok := de[k]; ok {
			return k, v, true
		}
	}
	return "", nil, false
'''),
('extractor.go','''	for ; *i < len(text); *i++ {
		char = text[*i]
''','''	for {
		if *i >= len(text) {
			break
		}
		char = text[*i]
''') if False else ('extractor.go','''	lineStep := func() {
		if text[*i] == '\\n' {
			*line++
		}
	}
''','''	lineStep := func() {
		switch c := text[*i]; {
		case c == '\\n':
			*line = *line + 1
		}
	}
'''),
('trie.go','''	n := t
	ok := false
	for i := range b {
		n, ok = n.Next(b[i])
		if !ok {
			return n.Value(), false
		}
	}

	return n.Value(), true
''','''	return t.FindText(string(b))
'''),
('trie.go','''	n := t
	ok := false
	for i := len(b) - 1; i >= 0; i-- {
		n, ok = n.Next(b[i])
		if !ok {
			return n.Value(), false
		}
	}

	return n.Value(), true
''','''	r := make([]byte, len(b))
	for i, c := range b {
		r[len(b)-1-i] = c
	}
	return t.FindByte(r)
'''),
('ast.go','''	var result *Node
	for _, sc := range scs {
		if packageKeywordAppeared {
			// a comment at the start of a line can part the keyword from the name
			if sc.Kind() != scope.Comment && sc.Kind() != scope.InnerComment {
				break
			}
		} else if !isPackageScope(sc) {
			continue
		}

		result = sc.Node().IterNext(findName)
		if result != nil {
			break
		}
	}

	if result == nil {
		return "", ErrNoPackage
	}

	return result.Text(), nil
''','''	first := slices.IndexFunc(scs, isPackageScope)
	if first < 0 {
		return "", ErrNoPackage
	}

	for i, sc := range scs[first:] {
		isComment := sc.Kind() == scope.Comment || sc.Kind() == scope.InnerComment
		if i != 0 && packageKeywordAppeared && !isComment {
			return "", ErrNoPackage
		}

		if !packageKeywordAppeared && !isPackageScope(sc) {
			continue
		}

		if result := sc.Node().IterNext(findName); result != nil {
			return result.Text(), nil
		}
	}

	return "", ErrNoPackage
'''),
('ast.go','''	"path/filepath"
''','''	"path/filepath"
	"slices"
'''),
('ast.go','''	scs := make([]Scope, 0, len(f.scope))
	for _, sc := range f.scope {
		scs = append(scs, sc.Copy())
	}
''','''	scs := make([]Scope, len(f.scope))
	for i := range scs {
		scs[i] = f.scope[i].Copy()
	}
'''),
('helper/helper.go','''	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	buf, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}

	formatted, err := format.Source(buf)
	if err != nil {
		return nil, err
	}

	return formatted, nil
''','''	buf, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}

	return source(buf)
'''),
('helper/helper.go','''func ReadFile(file''','''func source(buf []byte) ([]byte, error) {
	out, err := format.Source(buf)
	if err != nil {
		return nil, err
	}
	return out, nil
}

func ReadFile(file'''),
('helper/helper.go','''	"io"
''',''),
('kind_resetter_all.go','''	for _, hook := range hooks {
		hook(n)
	}
''','''	for i := 0; i < len(hooks); i++ {
		hooks[i](n)
	}
'''),
('kind_resetter_parenthesis.go','''		switch identifierKind(first) {
		case kind.Raw, kind.ParamType, kind.ParamName:
		default:
			return false
		}

		if second != nil {
			return apart
		}
''','''		fk := identifierKind(first)
		isName := fk == kind.Raw || fk == kind.ParamType || fk == kind.ParamName
		if !isName || second != nil {
			return isName && apart
		}
'''),
('kind_resetter_type.go','''	result := false
	_ = head.IterNext(func(n *Node) bool {
		switch n.Kind() {
		case kind.ParenthesisLeft:
			result = true
			return false
		case kind.NewLine:
			return false
		default:
			return true
		}
	})
	return result
''','''	for n := head; n != nil && n.Kind() != kind.NewLine; n = n.Next() {
		if n.Kind() == kind.ParenthesisLeft {
			return true
		}
	}
	return false
'''),
]
# B: other library functions and language constructs
S['B'] = [
('extractor.go','''	var (
		i, line int
		buf     strings.Builder
	)
''','''	var i, line int
	buf := _builders.Get().(*strings.Builder)
	defer func() {
		buf.Reset()
		_builders.Put(buf)
	}()
'''),
('extractor.go','''	node, err := _commonExtractor.Run(text, &buf, &i, &line)
''','''	node, err := _commonExtractor.Run(text, buf, &i, &line)
'''),
('extractor.go','''// extract parses''','''var _builders = sync.Pool{New: func() any { return new(strings.Builder) }}

// extract parses'''),
('extractor.go','''import (
	"strings"
''','''import (
	"bytes"
	"strings"
	"sync"
'''),
('extractor.go','''		if len(e.ReturnKeyword) != 0 && helper.HasSuffix(trailing, e.ReturnKeyword) {''','''		if len(e.ReturnKeyword) != 0 && bytes.HasSuffix(trailing, []byte(e.ReturnKeyword)) {'''),
('charset/charset.go','''	_, ok := cs[key]
	return ok
''','''	for k := range cs {
		if k == key {
			return true
		}
	}
	return false
'''),
('charset/charset.go','''	set := make(Set[T], len(chars))
	for i := range chars {
		for _, char := range chars[i] {
			set[char] = struct{}{}
		}
	}
	return set
''','''	return New(slices.Concat(chars...)...)
'''),
('charset/charset.go','''package charset
''','''package charset

import "slices"
'''),
('kind/kind.go','''	if len(s) == 0 {
		return None
	}

	switch s {''','''	switch s {
	case "":
		return None'''),
('kind/kind.go','''	if len(s) != 0 {
		isNumber := true
		for i := range s {
			isNumber = isNumber && charset.NumberCharset.Contain(s[i])
			if !isNumber {
				break
			}
		}
		if isNumber {
			return Number
		}
	}
''','''	if strings.Trim(s, "0123456789") == "" {
		return Number
	}
'''),
('kind/kind.go','''import (
''','''import (
	"slices"
	"strings"

'''),
('kind/kind.go','''	if charset.GolangBasicType.Contain(s) {
		return Basic
	}
''','''	if slices.Contains(slices.Sorted(maps.Keys(charset.GolangBasicType)), s) {
		return Basic
	}
'''),
('kind/kind.go','''	"slices"
''','''	"maps"
	"slices"
'''),
('kind/kind.go','''	switch k {
	case ParenthesisLeft:
		return ParenthesisRight, true
	case CurlyBracketLeft:
		return CurlyBracketRight, true
	case SquareBracketLeft:
		return SquareBracketRight, true
	case ParenthesisRight:
		return ParenthesisLeft, true
	case CurlyBracketRight:
		return CurlyBracketLeft, true
	case SquareBracketRight:
		return SquareBracketLeft, true
	default:
		return None, false
	}
''','''	pairs := [][2]Kind{{ParenthesisLeft, ParenthesisRight}, {CurlyBracketLeft, CurlyBracketRight}, {SquareBracketLeft, SquareBracketRight}}
	for _, p := range pairs {
		if p[0] == k {
			return p[1], true
		}
		if p[1] == k {
			return p[0], true
		}
	}
	return None, false
'''),
('node.go','''	startLine += strings.Count(texts[i], "\\n")''','''	startLine += len(strings.Split(texts[i], "\\n")) - 1'''),
('node.go','''	return fmt.Sprintf("%d .... %s .... *Node.%s", n.Line()+1, helper.TidyText(n.Text()), n.Kind().String())''','''	return strings.Join([]string{strconv.Itoa(n.Line() + 1), helper.TidyText(n.Text()), "*Node." + n.Kind().String()}, " .... ")'''),
('node.go','''	"fmt"
	"slices"
''','''	"slices"
	"strconv"
'''),
('node.go','''	for nn := n; nn != nil; nn = iter(nn) {
		if !fn(nn) {
			return nn
		}
	}

	return nil
''','''	walk := func(yield func(*Node) bool) {
		for nn := n; nn != nil; nn = iter(nn) {
			if !yield(nn) {
				return
			}
		}
	}
	for nn := range walk {
		if !fn(nn) {
			return nn
		}
	}

	return nil
'''),
('node.go','''	if n != nil {
		return n.next
	}

	return nil
''','''	if n == nil {
		return nil
	}
	return n.next
'''),
('scope.go','''	return fmt.Sprintf("%d .... *Scope.%s", d.Line(), d.kind.String())''','''	return fmt.Sprint(d.Line()) + " .... *Scope." + string(d.kind)''') ,
('trie.go','''	n := t
	ok := false
	for i := 0; i < len(s); i++ {
		n, ok = n.Next(s[i])
		if !ok {
			return n.Value(), false
		}
	}
	return n.Value(), true
''','''	for i := range len(s) {
		next, ok := t.Next(s[i])
		if !ok {
			return next.Value(), false
		}
		t = next
	}
	return t.Value(), true
'''),
('trie.go','''	n := t
	ok := false
	for i := len(b) - 1; i >= 0; i-- {
		n, ok = n.Next(b[i])
		if !ok {
			return n.Value(), false
		}
	}

	return n.Value(), true
''','''	n := t
	for _, c := range slices.Backward(b) {
		next, ok := n.Next(c)
		if !ok {
			return next.Value(), false
		}
		n = next
	}

	return n.Value(), true
'''),
('trie.go','''package goast
''','''package goast

import "slices"
'''),
('helper/helper.go','''	for i := 0; i < len(prefix); i++ {
		if s[i] != prefix[i] {
			return false
		}
	}
''','''	if string(s[:len(prefix)]) != prefix {
		return false
	}
'''),
('helper/helper.go','''	f, err := os.Create(file)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}

	if _, err := f.Write(formatted); err != nil {
		f.Close()
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	if err := f.Close(); err != nil {
		return fmt.Errorf("close file %s, err: %w", file, err)
	}

	return nil
''','''	if err := os.WriteFile(file, formatted, 0666); err != nil {
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	return nil
'''),
('ast.go','''		if errors.Is(err, os.ErrNotExist) {
			return nil, ErrNotExist
		}
''','''		if errors.Is(err, fs.ErrNotExist) {
			return nil, ErrNotExist
		}
'''),
('ast.go','''	"errors"
	"os"
''','''	"errors"
	"io/fs"
'''),
('ast.go','''	buf := strings.Builder{}

	for _, sc := range f.Scope() {
		buf.WriteString(sc.Description())

		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Description())
			return true
		})
	}

	return buf.String()
''','''	parts := []string{}
	for _, sc := range f.Scope() {
		parts = append(parts, sc.Description())
		for n := sc.Node(); n != nil; n = n.Next() {
			parts = append(parts, n.Description())
		}
	}

	return strings.Join(parts, "")
'''),
]
# C: writing through other means, data structures
S['C'] = [
('helper/helper.go','''	f, err := os.Create(file)
''','''	f, err := os.OpenFile(file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
'''),
('helper/helper.go','''	if _, err := f.Write(formatted); err != nil {
		f.Close()
		return''','''	w := bufio.NewWriter(f)
	_, err = w.Write(formatted)
	if err == nil {
		err = w.Flush()
	}
	if err != nil {
		f.Close()
		return'''),
('helper/helper.go','''import (
''','''import (
	"bufio"
	"bytes"
'''),
('helper/helper.go','''	buf, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}

	formatted, err := format.Source(buf)''','''	var content bytes.Buffer
	if _, err := io.Copy(&content, bufio.NewReader(f)); err != nil {
		return nil, err
	}

	formatted, err := format.Source(content.Bytes())'''),
('ast.go','''	buf := bytes.Buffer{}

	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper.SaveFile(file, buf.Bytes(), autoImport...)
''','''	var data []byte
	f.IterScope(func(sc Scope) bool {
		sc.Node().IterNext(func(n *Node) bool {
			data = append(data, n.Text()...)
			return true
		})
		return true
	})

	return helper.SaveFile(file, bytes.Clone(data), autoImport...)
'''),
('trie.go','''type trie_[T comparable] struct {
	value T
	next  map[byte]*trie_[T]
}
''','''type trie_[T comparable] struct {
	value T
	next  []edge[T]
}

type edge[T comparable] struct {
	key byte
	to  *trie_[T]
}

func (t *trie_[T]) at(key byte) (int, bool) {
	return slices.BinarySearchFunc(t.next, key, func(e edge[T], k byte) int { return int(e.key) - int(k) })
}
'''),
('trie.go','''	if t.next == nil {
		t.next = map[byte]*trie_[T]{}
	}

	if _, ok := t.next[key]; !ok {
		t.next[key] = &trie_[T]{}
	}

	t.next[key].value = value

	return t.next[key]
''','''	i, ok := t.at(key)
	if !ok {
		t.next = slices.Insert(t.next, i, edge[T]{key: key, to: &trie_[T]{}})
	}

	t.next[i].to.value = value

	return t.next[i].to
'''),
('trie.go','''	n, ok := t.next[key]
	return n, ok
''','''	i, ok := t.at(key)
	if !ok {
		return nil, false
	}
	return t.next[i].to, true
'''),
('trie.go','''package goast
''','''package goast

import "slices"
'''),
('trie.go','''	for k, v := range set {
		_ = root.AddText(k, v)
	}
''','''	for _, k := range slices.Sorted(maps.Keys(set)) {
		_ = root.AddText(k, set[k])
	}
'''),
('trie.go','''import "slices"
''','''import (
	"maps"
	"slices"
)
'''),
('charset/charset.go','''	SeparatorCharset = New[byte](
		' ', '[', ']', '(', ')', '{', '}', ',', ':', ';', '\\n', '\\t', '\\r',
	)
''','''	SeparatorCharset = NewSlice([]byte(" []"), []byte("(){}"), []byte(",:;\\n\\t\\r"))
'''),
('kind/kind.go','''func New(s string) Kind {
	if len(s) == 0 {
		return None
	}
''','''var byText map[string]Kind

func init() {
	byText = make(map[string]Kind)
	for _, k := range []Kind{Tab, Space, Comma, Colon, NewLine, Semicolon, ParenthesisLeft, ParenthesisRight, CurlyBracketLeft, CurlyBracketRight, SquareBracketLeft, SquareBracketRight, Import, Var, Const, Map, Channel, Func, Type, Struct, Interface, Package} {
		byText[k[0]] = k
	}
}

func New(s string) Kind {
	if len(s) == 0 {
		return None
	}

	if k, ok := byText[s]; ok {
		return k
	}
'''),
('extractor.go','''	_deeperExtractTable = map[*extractor]deeperExtract{
		_commonExtractor:       _commonDeeperExtract,
		_parenthesisExtractor:  _commonDeeperExtract,
		_curlyBracketExtractor: _commonDeeperExtract,
	}
	_commonDeeperExtract = deeperExtract{''','''	_commonDeeperExtract = deeperExtract{'''),
('extractor.go','''	return _deeperExtractTable[e]
''','''	switch e.ReturnKeyword {
	case "", ")", "}":
		return _commonDeeperExtract
	}
	return nil
'''),
('extractor.go','''	_commonDeeperExtract = deeperExtract{
		"(":  _parenthesisExtractor,''','''	_nothing             = 0
	_commonDeeperExtract deeperExtract
)

var _once sync.Once

func deeper() deeperExtract {
	_once.Do(func() { _commonDeeperExtract = newDeeper() })
	return _commonDeeperExtract
}

func newDeeper() deeperExtract {
	return deeperExtract{
		"(":  _parenthesisExtractor,'''),
('extractor.go','''		"'":  _runeExtractor,
	}
)
''','''		"'":  _runeExtractor,
	}
}
'''),
('extractor.go','''	case "", ")", "}":
		return _commonDeeperExtract
''','''	case "", ")", "}":
		return deeper()
'''),
('extractor.go','''import (
	"strings"
''','''import (
	"strings"
	"sync"
'''),
('node.go','''	if prev == nil {
		prev = n.Prev().deepCopy(nil, nn)
	}

	if next == nil {
		next = n.Next().deepCopy(nn, nil)
	}

	nn.prev = prev
	nn.next = next

	return nn
''','''	nn.prev, nn.next = prev, next
	if prev == nil {
		last := nn
		for p := n.prev; p != nil; p = p.prev {
			q := &Node{line: p.line, kind: p.kind, text: p.text, next: last}
			last.prev = q
			last = q
		}
	}

	if next == nil {
		last := nn
		for p := n.next; p != nil; p = p.next {
			q := &Node{line: p.line, kind: p.kind, text: p.text, prev: last}
			last.next = q
			last = q
		}
	}

	return nn
'''),
('scope.go','''	scs := []Scope{}
	nodesToResetKind := []*Node{}
''','''	scs := make([]Scope, 0, 8)
	nodesToResetKind := make([]*Node, 0, cap(scs))
'''),
('scope.go','''	for _, n := range nodesToResetKind {
		resetKind(n)
	}
''','''	for len(nodesToResetKind) != 0 {
		resetKind(nodesToResetKind[0])
		nodesToResetKind = nodesToResetKind[1:]
	}
'''),
]
# D: helper, ast, scope, kind, charset: other library functions, tables, shared helpers
S['D'] = [
('helper/helper.go','''	if len(prefix) > len(s) {
		return false
	}

	for i := 0; i < len(prefix); i++ {
		if s[i] != prefix[i] {
			return false
		}
	}

	return true
''','''	return bytes.HasPrefix(s, []byte(prefix))
'''),
('helper/helper.go','''	if len(suffix) > len(s) {
		return false
	}
	ss := s[len(s)-len(suffix):]
	for i := range ss {
		if ss[i] != suffix[i] {
			return false
		}
	}

	return true
''','''	return strings.HasSuffix(string(s), suffix)
'''),
('helper/helper.go','''	s = strings.ReplaceAll(s, "\\n", "\\\\n")
	s = strings.ReplaceAll(s, "\\r", "·")
	s = strings.ReplaceAll(s, " ", "·")
	s = strings.ReplaceAll(s, "\\t", " -> ")
	return s
''','''	return _tidy.Replace(s)
'''),
('helper/helper.go','''func TidyText(''','''var _tidy = strings.NewReplacer("\\n", "\\\\n", "\\r", "·", " ", "·", "\\t", " -> ")

func TidyText('''),
('helper/helper.go','''import (
''','''import (
	"bytes"
'''),
('helper/helper.go','''	if slice[len(slice)-1] == elems[0] {
		elems = elems[1:]
	}

	return append(slice, elems...)
''','''	if last := len(slice) - 1; slice[last] == elems[0] {
		return append(slice, elems[1:]...)
	}

	return append(slice, elems...)
'''),
('helper/helper.go','''	if !HasSuffix([]byte(file), ".go") {
		file = file + ".go"
	}

	f, err''','''	file = withExt(file)

	f, err'''),
('helper/helper.go','''	if !HasSuffix([]byte(file), ".go") {
		file = file + ".go"
	}

	var (
		formatted []byte
		err       error
	)

	if len(autoImport) != 0 && autoImport[0] {
		formatted, err = imports.Process(file, data, nil)
		if err != nil {
			slog.Error(fmt.Sprintf("imports ast data, err: %+v", err))
			formatted = data
		}
	} else {
		formatted, err = format.Source(data)
		if err != nil {
			slog.Error(fmt.Sprintf("format ast data, err: %+v", err))
			formatted = data
		}
	}
''','''	file = withExt(file)
	formatted := tidySource(file, data, len(autoImport) != 0 && autoImport[0])
'''),
('helper/helper.go','''	f, err := os.Create(file)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}

	if _, err := f.Write(formatted); err != nil {
		f.Close()
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	if err := f.Close(); err != nil {
		return fmt.Errorf("close file %s, err: %w", file, err)
	}

	return nil
}
''','''	return writeAll(file, formatted)
}

func writeAll(file string, data []byte) (err error) {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}

	defer func() {
		if closeErr := f.Close(); closeErr != nil && err == nil {
			err = fmt.Errorf("close file %s, err: %w", file, closeErr)
		}
	}()

	if _, err = f.Write(data); err != nil {
		err = fmt.Errorf("write file %s, err: %w", file, err)
	}
	return err
}

func withExt(file string) string {
	if filepath.Ext(file) == ".go" {
		return file
	}
	return file + ".go"
}

// tidySource returns the formatted data, or data itself when it has no format.
func tidySource(file string, data []byte, withImports bool) []byte {
	run, verb := format.Source, "format"
	if withImports {
		verb = "imports"
		run = func(src []byte) ([]byte, error) { return imports.Process(file, src, nil) }
	}

	formatted, err := run(data)
	if err != nil {
		slog.Error(fmt.Sprintf("%s ast data, err: %+v", verb, err))
		return data
	}
	return formatted
}
'''),
('ast.go','''	"os"
''','''	"io/fs"
'''),
('ast.go','''errors.Is(err, os.ErrNotExist)''','''errors.Is(err, fs.ErrNotExist)'''),
('ast.go','''	"path/filepath"
''','''	"path/filepath"
	"slices"
'''),
('ast.go','''	var result *Node
	for _, sc := range scs {
		if packageKeywordAppeared {
			// a comment at the start of a line can part the keyword from the name
			if sc.Kind() != scope.Comment && sc.Kind() != scope.InnerComment {
				break
			}
		} else if !isPackageScope(sc) {
			continue
		}

		result = sc.Node().IterNext(findName)
		if result != nil {
			break
		}
	}

	if result == nil {
		return "", ErrNoPackage
	}

	return result.Text(), nil
''','''	first := slices.IndexFunc(scs, isPackageScope)
	if first < 0 {
		return "", ErrNoPackage
	}

	for i, sc := range scs[first:] {
		isComment := sc.Kind() == scope.Comment || sc.Kind() == scope.InnerComment
		if i != 0 && packageKeywordAppeared && !isComment {
			return "", ErrNoPackage
		}

		if !packageKeywordAppeared && !isPackageScope(sc) {
			continue
		}

		if result := sc.Node().IterNext(findName); result != nil {
			return result.Text(), nil
		}
	}

	return "", ErrNoPackage
'''),
('ast.go','''	f.scope = append(f.scope[:len(f.scope):len(f.scope)], scs...)''','''	f.scope = append(slices.Clip(f.scope), scs...)'''),
('ast.go','''	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper''','''	for n := range f.nodes() {
		buf.WriteString(n.Text())
	}

	return helper'''),
('ast.go','''func (f *ast) Copy() Ast {''','''// nodes yields the nodes of all scopes in order.
func (f *ast) nodes() iter.Seq[*Node] {
	return func(yield func(*Node) bool) {
		for _, sc := range f.Scope() {
			for n := sc.Node(); n != nil; n = n.Next() {
				if !yield(n) {
					return
				}
			}
		}
	}
}

func (f *ast) Copy() Ast {'''),
('ast.go','''	"io/fs"
''','''	"io/fs"
	"iter"
'''),
('ast.go','''	scs := make([]Scope, 0, len(f.scope))
	for _, sc := range f.scope {
		scs = append(scs, sc.Copy())
	}

	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scs,
	}
''','''	cp := *f
	cp.scope = make([]Scope, len(f.scope))
	for i := range cp.scope {
		cp.scope[i] = f.scope[i].Copy()
	}

	return &cp
'''),
('ast.go','''	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scope,
	}
''','''	cp := *f
	cp.scope = scope
	return &cp
'''),
('scope.go','''	for _, kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
		}
	}

	return scope.Unknown
''','''	if i := slices.IndexFunc(kinds, func(k scope.Kind) bool { return isScopeKind(s, k) }); i >= 0 {
		return kinds[i]
	}

	return scope.Unknown
'''),
('scope.go','''	"fmt"
''','''	"fmt"
	"slices"
	"strings"
'''),
('scope.go','''		return len(s) >= len(ks) && s[:len(ks)] == ks
''','''		return strings.HasPrefix(s, ks)
'''),
('scope.go','''	var (
		name  string
		found bool
	)

	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		return true
	})

	return name, found
''','''	n := d.firstOf(kind.FuncName)
	return n.Text(), n != nil
'''),
('scope.go','''	d.Node().IterNext(func(n *Node) bool {
		found = n.Kind() == kind.MethodReceiverType
		name = n.Text()
		return !found
	})

	return name, found
}
''','''	if n := d.firstOf(kind.MethodReceiverType); n != nil {
		name, found = n.Text(), true
	}

	return name, found
}

// firstOf returns the first node of kind k.
func (d *scopeStruct) firstOf(k kind.Kind) *Node {
	n := d.Node()
	for ; n != nil && n.Kind() != k; n = n.Next() {
	}
	return n
}
'''),
('scope.go','''	tryAppendScope := func() {
		if k != scope.Unknown {
			nodesToResetKind = append(nodesToResetKind, head)
			scs = append(scs, NewScope(
				head.Line(),
				k,
				head,
			))
		}

		if head.Prev() != nil {
			_ = head.RemovePrev()
		}
	}
''','''	tryAppendScope := func() {
		head.RemovePrev()
		if k == scope.Unknown {
			return
		}

		scs = append(scs, &scopeStruct{line: head.Line(), kind: k, node: head})
		nodesToResetKind = append(nodesToResetKind, head)
	}
'''),
('kind/kind.go','re:(?s)switch k \\{\\n\\tcase ParenthesisLeft:.*?default:\\n\\t\\treturn None, false\\n\\t\\}','''closing, ok := _closing[k]
	return closing, ok'''),
('kind/kind.go','''func (k Kind) GetClose()''','''var _closing = func() map[Kind]Kind {
	pairs := [][2]Kind{
		{ParenthesisLeft, ParenthesisRight},
		{CurlyBracketLeft, CurlyBracketRight},
		{SquareBracketLeft, SquareBracketRight},
	}

	table := make(map[Kind]Kind, 2*len(pairs))
	for _, p := range pairs {
		table[p[0]], table[p[1]] = p[1], p[0]
	}
	return table
}()

func (k Kind) GetClose()'''),
('kind/kind.go','re:(?s)switch s \\{\\n\\tcase Tab\\[0\\]:.*?return Package\\n\\t\\}','''if k, ok := _fixed[s]; ok {
		return k
	}'''),
('kind/kind.go','''func New(s string) Kind {''','''var _fixed = map[string]Kind{}

func init() {
	for _, k := range []Kind{
		Tab, Space, Comma, Colon, NewLine, Semicolon,
		ParenthesisLeft, ParenthesisRight, CurlyBracketLeft, CurlyBracketRight, SquareBracketLeft, SquareBracketRight,
		Import, Var, Const, Map, Channel, Func, Type, Struct, Interface, Package,
	} {
		_fixed[k[0]] = k
	}
}

func New(s string) Kind {'''),
('charset/charset.go','''	set := make(Set[T], len(chars))
	for i := range chars {
		for _, char := range chars[i] {
			set[char] = struct{}{}
		}
	}
	return set
''','''	set := New[T]()
	for _, part := range chars {
		maps.Copy(set, New(part...))
	}
	return set
'''),
('charset/charset.go','''package charset
''','''package charset

import "maps"
'''),
('scope/scope_kind.go','''	switch k {
	case Unknown:
		return kind.Raw
	case Package:
		return kind.Package
	case Comment:
		return kind.Comment
	case InnerComment:
		return kind.Comment
''','''	switch k {
	case Unknown:
		return kind.Raw
	case Comment, InnerComment:
		return kind.Comment
	case Package:
		return kind.New(string(k))
'''),
]
# E: resetters, extractor, node, trie
S['E'] = [
('kind_resetter_func.go','re:jumpTo = (.*)\\n(\\t+)skipAll = jumpTo == nil','jumpTo, skipAll = jump(\\1)'),
('kind_resetter_type.go','re:jumpTo = (.*[^{])\\n(\\t+)skipAll = jumpTo == nil','jumpTo, skipAll = jump(\\1)'),
('kind_resetter_parenthesis.go','re:jumpTo = (.*)\\n(\\t+)skipAll = jumpTo == nil','jumpTo, skipAll = jump(\\1)'),
('kind_resetter_all.go','re:jumpTo = (.*)\\n(\\t+)skipAll = jumpTo == nil','jumpTo, skipAll = jump(\\1)'),
('kind_resetter_all.go','''func handleHook(''','''// jump returns where to go on and whether there is nothing left.
func jump(to *Node) (*Node, bool) { return to, to == nil }

func handleHook('''),
('kind_resetter_all.go','''		hooksCopy := make([]func(*Node), len(hooks))
		copy(hooksCopy, hooks)
		appendedHooks := append(hooksCopy, func(nn *Node) {
			buf = helper.AppendUnrepeatable(buf, nn)
		})
''','''		collect := func(nn *Node) { buf = helper.AppendUnrepeatable(buf, nn) }
		appendedHooks := append(slices.Clone(hooks), collect)
'''),
('kind_resetter_all.go','''import (
''','''import (
	"slices"
'''),
('kind_resetter_all.go','''	for i := 0; i < len(nns); {
		j := i + 1
		for j < len(nns) && nns[j] != nil && nns[j-1].Next() == nns[j] {
			j++
		}

		next := nns[j-1].Next()
		n := nns[i].CombineNext(k, nns[i+1:j]...)
		n.ReplaceNext(next)
		i = j
	}
''','''	for len(nns) > 0 {
		size := 1
		for size < len(nns) && nns[size] != nil && nns[size-1].Next() == nns[size] {
			size++
		}

		run := nns[:size]
		nns = nns[size:]
		behind := run[size-1].Next()
		run[0].CombineNext(k, run[1:]...).ReplaceNext(behind)
	}
'''),
('kind_resetter_func.go','''	if found.Kind() != kind.CurlyBracketRight {
		return false
	}

	return found.Next().Kind() == kind.ParenthesisLeft
''','''	return found.Kind() == kind.CurlyBracketRight && found.Next().Kind() == kind.ParenthesisLeft
'''),
('kind_resetter_func.go','''	switch found.Kind() {
	case kind.ParenthesisLeft:
		return parenthesisResetter{}.Run(head, hooks...)
	}
''','''	if found.Kind() == kind.ParenthesisLeft {
		return parenthesisResetter{}.Run(head, hooks...)
	}
'''),
('kind_resetter_func.go','''	if len(returnKinds) != 0 {
		isReturnKind = charset.New(returnKinds...)
	} else {
		isReturnKind = charset.New(kind.NewLine)
	}
''','''	if len(returnKinds) == 0 {
		returnKinds = []kind.Kind{kind.NewLine}
	}
	isReturnKind = charset.New(returnKinds...)
'''),
('kind_resetter_parenthesis.go','''		apart := false
		end := head.IterNext(func(n *Node) bool {
			switch n.Kind() {
			case kind.Comma, kind.ParenthesisRight:
				return false
			case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
				apart = first != nil
				return true
			default:
				if first == nil {
					first = n
					return true
				}
				second = n
				return false
			}
		})
''','''		apart := false
		var end *Node
	scan:
		for n := head; n != nil; n = n.Next() {
			end = n
			switch n.Kind() {
			case kind.Comma, kind.ParenthesisRight:
				break scan
			case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
				apart = first != nil
				continue
			}

			if first != nil {
				second = n
				break
			}
			first = n
		}
'''),
('kind_resetter_type.go','''	result := false
	_ = head.IterNext(func(n *Node) bool {
		switch n.Kind() {
		case kind.ParenthesisLeft:
			result = true
			return false
		case kind.NewLine:
			return false
		default:
			return true
		}
	})
	return result
''','''	stop := head.findNext([]kind.Kind{kind.ParenthesisLeft, kind.NewLine}, findNodeOption{})
	return stop.Kind() == kind.ParenthesisLeft
'''),
('extractor.go','''	for k, v := range de {
		if helper.HasPrefix(s, k) {
			return k, v, true
		}
	}
	return "", nil, false
''','''	for _, k := range slices.Sorted(maps.Keys(de)) {
		if helper.HasPrefix(s, k) {
			return k, de[k], true
		}
	}
	return "", nil, false
'''),
('extractor.go','''import (
''','''import (
	"maps"
	"slices"
'''),
('extractor.go','''	if len(startLine) != 0 {
		line = startLine[0]
	}

	node, err := _commonExtractor.Run(text, &buf, &i, &line)
	if err != nil {
		return nil, err
	}

	return node, nil
''','''	for _, l := range startLine[:min(1, len(startLine))] {
		line = l
	}

	return _commonExtractor.Run(text, &buf, &i, &line)
'''),
('extractor.go','''		if cur != nil {
			cur.ReplaceNext(n)
		} else {
			cur = n
		}

		cur = n.IterNext(func(n *Node) bool {
			return n.Next() != nil
		})
''','''		cur.ReplaceNext(n)
		cur = n.Last()
'''),
('extractor.go','''		if useLine {
			insertNode(NewNode(*line, buf.String(), kind...))
		} else {
			insertNode(NewNode(bufLine, buf.String(), kind...))
		}
		buf.Reset()
''','''		at := bufLine
		if useLine {
			at = *line
		}
		insertNode(NewNode(at, buf.String(), kind...))
		buf.Reset()
'''),
('node.go','''	if prev == nil {
		prev = n.Prev().deepCopy(nil, nn)
	}

	if next == nil {
		next = n.Next().deepCopy(nn, nil)
	}

	nn.prev = prev
	nn.next = next

	return nn
''','''	nn.prev, nn.next = prev, next
	if nn.prev == nil {
		nn.prev = n.prev.deepCopy(nil, nn)
	}
	if nn.next == nil {
		nn.next = n.next.deepCopy(nn, nil)
	}

	return nn
'''),
('node.go','''	head := NewNode(startLine, texts[0])
	cur := head
	for i, text := range texts[1:] {
		startLine += strings.Count(texts[i], "\\n")
		cur.InsertNext(NewNode(startLine, text))
		cur = cur.Next()
	}

	return head
''','''	var head, last *Node
	for _, text := range texts {
		n := NewNode(startLine, text)
		if last == nil {
			head = n
		} else {
			last.next, n.prev = n, last
		}
		last = n
		for range strings.Count(text, "\\n") {
			startLine++
		}
	}

	return head
'''),
('node.go','''	slices.Reverse(buf)

	n.text = strings.Join(buf, "")
''','''	text := ""
	for _, s := range buf {
		text = s + text
	}
	n.text = text
'''),
('node.go','''	"slices"
''',''''''),
('trie.go','''	n := t
	for i := 0; i < len(s); i++ {
		next, ok := n.Next(s[i])
		if !ok {
			next = n.Insert(s[i], zero)
		}
		n = next
	}
	n.value = value
	return n
''','''	if len(s) == 0 {
		t.value = value
		return t
	}
	next, ok := t.Next(s[0])
	if !ok {
		next = t.Insert(s[0], zero)
	}
	return next.AddText(s[1:], value)
'''),
]
# F: iterators, early returns, shared walkers, lazily built tables, goto; assert
S['F'] = [
('node.go','''	for nn := n; nn != nil; nn = iter(nn) {
		if !fn(nn) {
			return nn
		}
	}

	return nil
}
''','''	for nn := range walk(n, iter) {
		if !fn(nn) {
			return nn
		}
	}

	return nil
}

// walk yields n and what iter leads to.
func walk(n *Node, iter func(*Node) *Node) iter.Seq[*Node] {
	return func(yield func(*Node) bool) {
		for nn := n; nn != nil && yield(nn); nn = iter(nn) {
		}
	}
}
'''),
('node.go','''import (
	"fmt"
''','''import (
	"fmt"
	"iter"
'''),
('node.go','''func (n *Node) IterPrev(fn func(*Node) bool) *Node {
	return n.loop(func(nn *Node) *Node { return nn.Prev() }, fn)''','''func (n *Node) IterPrev(fn func(*Node) bool) *Node {
	return n.loop((*Node).Prev, fn)'''),
('node.go','''	for i, text := range texts[1:] {
		startLine += strings.Count(texts[i], "\\n")
		cur.InsertNext(NewNode(startLine, text))
		cur = cur.Next()
	}

	return head
''','''	i := 1
next:
	if i < len(texts) {
		for _, c := range []byte(texts[i-1]) {
			if c == '\\n' {
				startLine++
			}
		}
		nn := NewNode(startLine, texts[i])
		cur.next, nn.prev = nn, cur
		cur = nn
		i++
		goto next
	}

	return head
'''),
('node.go','''	removed := n.Prev()
	n.setPrev(nil)
	removed.setNext(nil)

	return removed
''','''	if n == nil || n.prev == nil {
		return nil
	}

	removed := n.prev
	n.prev, removed.next = nil, nil

	return removed
'''),
('node.go','''	n.Prev().setNext(nil)
	n.Next().setPrev(nil)

	n.setPrev(nil)
	n.setNext(nil)
''','''	_ = n.RemovePrev()
	_ = n.RemoveNext()
'''),
('node.go','''	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	n.text = strings.Join(buf, "")
''','''	var buf strings.Builder
	buf.WriteString(n.Text())
	for _, nn := range nns {
		if nn != nil && n != nn {
			buf.WriteString(nn.Text())
			nn.Isolate() // make node recyclable to gc
		}
	}

	n.text = buf.String()
'''),
('kind/kind.go','''	switch s {
	case Tab[0]:
		return Tab
''','''	if k, ok := _single()[s]; ok {
		return k
	}

	switch s {
	case Tab[0]:
		return Tab
'''),
('kind/kind.go','''func New(s string) Kind {''','''var _single = sync.OnceValue(func() map[string]Kind {
	m := map[string]Kind{}
	for _, k := range []Kind{Tab, Space, Comma, Colon, NewLine, Semicolon, ParenthesisLeft, ParenthesisRight} {
		m[k[0]] = k
	}
	return m
})

func New(s string) Kind {'''),
('kind/kind.go','''import (
''','''import (
	"sync"

'''),
('kind/kind.go','''	if len(s) != 0 {
		isSymbol := true
		for i := range s {
			isSymbol = isSymbol && charset.GolangSymbol.Contain(s[i])
			if !isSymbol {
				break
			}
		}
		if isSymbol {
			return Symbol
		}
	}

	return Raw
''','''	for i := range s {
		if !charset.GolangSymbol.Contain(s[i]) {
			return Raw
		}
	}

	return Symbol
'''),
('scope.go','''	for _, kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
		}
	}

	return scope.Unknown
''','''	if at := slices.IndexFunc(kinds, func(k scope.Kind) bool { return isScopeKind(s, k) }); at >= 0 {
		return kinds[at]
	}

	return scope.Unknown
'''),
('scope.go','''		return len(s) >= len(ks) && s[:len(ks)] == ks
''','''		_, ok := strings.CutPrefix(s, ks)
		return ok
'''),
('scope.go','''	"bytes"
	"fmt"
''','''	"bytes"
	"fmt"
	"slices"
	"strings"
'''),
('scope.go','''	d.Node().IterNext(func(n *Node) bool {
		found = n.Kind() == kind.TypeName
		name = n.Text()
		return !found
	})

	return name, found
''','''	if n := d.first(kind.TypeName); n != nil {
		name, found = n.Text(), true
	}

	return name, found
'''),
('scope.go','''	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		return true
	})

	return name, found
}
''','''	if n := d.first(kind.FuncName); n != nil {
		name, found = n.Text(), true
	}

	return name, found
}

// first is the first node of kind k.
func (d *scopeStruct) first(k kind.Kind) *Node {
	return d.Node().IterNext(func(n *Node) bool { return n.Kind() != k })
}
'''),
('ast.go','''	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper''','''	f.IterScope(func(sc Scope) bool {
		for n := sc.Node(); n != nil; n = n.next {
			_, _ = buf.WriteString(n.text)
		}
		return true
	})

	return helper'''),
('ast.go','''	f.scope = append(f.scope[:len(f.scope):len(f.scope)], scs...)
''','''	if len(scs) != 0 {
		f.scope = slices.Concat(f.scope, scs)
	}
'''),
('ast.go','''	"path/filepath"
''','''	"path/filepath"
	"slices"
'''),
('helper/helper.go','''	if _, err := f.Write(formatted); err != nil {
		f.Close()
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	if err := f.Close(); err != nil {
		return fmt.Errorf("close file %s, err: %w", file, err)
	}

	return nil
''','''	_, err = f.Write(formatted)
	if err != nil {
		err = fmt.Errorf("write file %s, err: %w", file, err)
	}

	if e := f.Close(); e != nil && err == nil {
		err = fmt.Errorf("close file %s, err: %w", file, e)
	}

	return err
'''),
('helper/helper.go','''	s = strings.ReplaceAll(s, "\\n", "\\\\n")
	s = strings.ReplaceAll(s, "\\r", "·")
	s = strings.ReplaceAll(s, " ", "·")
	s = strings.ReplaceAll(s, "\\t", " -> ")
	return s
''','''	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\n':
			b.WriteString("\\\\n")
		case '\\r', ' ':
			b.WriteString("·")
		case '\\t':
			b.WriteString(" -> ")
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
'''),
('trie.go','''	n := t
	ok := false
	for i := 0; i < len(s); i++ {
		n, ok = n.Next(s[i])
		if !ok {
			return n.Value(), false
		}
	}
	return n.Value(), true
''','''	if s == "" {
		return t.Value(), true
	}
	n, _ := t.Next(s[0])
	return n.FindText(s[1:])
'''),
('extractor.go','''	lineStep := func() {
		if text[*i] == '\\n' {
			*line++
		}
	}
''','''	lineStep := func() { *line += bytes.Count(text[*i:*i+1], []byte{'\\n'}) }
'''),
('extractor.go','''import (
''','''import (
	"bytes"
'''),
('extractor.go','''	for k, v := range de {
		if helper.HasPrefix(s, k) {
			return k, v, true
		}
	}
	return "", nil, false
''','''	for n := 2; n > 0; n-- {
		if len(s) < n {
			continue
		}
		if v, ok := de[string(s[:n])]; ok {
			return string(s[:n]), v, true
		}
	}
	return "", nil, false
'''),
('assert/assert.go','''	rv, re := reflect.ValueOf(value), reflect.ValueOf(expected)
	if rv.Kind() == re.Kind() && rv.Equal(re) {
		return
	}
''','''	if same(value, expected) {
		return
	}
'''),
('assert/assert.go','''	rv, re := reflect.ValueOf(value), reflect.ValueOf(expected)
	if rv.Kind() != re.Kind() || !rv.Equal(re) {
		return
	}
''','''	if !same(value, expected) {
		return
	}
'''),
('assert/assert.go','''func (a Assert) T() *testing.T {''','''func same(value, expected any) bool {
	rv, re := reflect.ValueOf(value), reflect.ValueOf(expected)
	return rv.Kind() == re.Kind() && rv.Equal(re)
}

func (a Assert) T() *testing.T {'''),
('assert/assert.go','''	if err != nil {
		return
	}

	a.t.Helper()

	if len(msg) != 0 {
		a.t.Fatalf("%s: should be error, %s", a.t.Name(), strings.Join(msg, " "))
	}

	a.t.Fatalf("%s: should be error", a.t.Name())
''','''	a.t.Helper()

	switch {
	case err != nil:
	case len(msg) != 0:
		a.t.Fatalf("%s: should be error, %s", a.t.Name(), strings.Join(msg, " "))
	default:
		a.t.Fatalf("%s: should be error", a.t.Name())
	}
'''),
('assert/assert.go','''	didPanic = true
	defer func() {
		message = recover()
		if didPanic {
			stack = string(debug.Stack())
		}
	}()

	// call the target function
	fn()
	didPanic = false

	return
''','''	returned := false
	defer func() {
		message = recover()
		if didPanic = !returned; didPanic {
			stack = string(debug.Stack())
		}
	}()

	fn() // call the target function
	returned = true

	return
'''),
]
def apply(r, edits):
    for f, a, b in edits:
        p = os.path.join(r, f); s = open(p).read()
        if a.startswith('re:'):
            t = re.sub(a[3:], b, s)
            if t == s: print('   NO MATCH', f, a[:60].replace('\n','|'))
            open(p, 'w').write(t); continue
        if a not in s: print('   NO MATCH', f, a[:60].replace('\n','|')); continue
        open(p, 'w').write(s.replace(a, b, 1))
    p = subprocess.run(['bash','-c','. /opt/vp/env.sh; go vet . ./kind ./helper ./charset && go test ./... 2>&1 | tail -20'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = p.stdout.decode()
    if 'FAIL' in o or p.returncode: print(o)
def main():
    a = sys.argv[1:]; props = [f'C{i:02d}' for i in range(1, 27)]
    if '-p' in a:
        i = a.index('-p'); props = a[i+1].split(','); a = a[:i] + a[i+2:]
    for name in a or sorted(S):
        d = tempfile.mkdtemp(prefix='ref_'); r = d+'/repo'
        subprocess.run(['cp','-a','/repo',r], check=True)
        apply(r, S[name])
        for p in props:
            t = time.time()
            q = subprocess.run(['bash', V+'/check.sh', p, 'quick'], env=dict(os.environ, GOAST_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = q.stdout.decode(errors='replace').splitlines()
            notes = sorted(set(l[:200] for l in o if l.startswith(('note','error','VIOLATION','violated'))))
            print(name, p, 'quiet' if q.returncode == 0 else f'ALARM rc={q.returncode}', f'{time.time()-t:.0f}s', flush=True)
            for l in notes[:4]: print('     ', l, flush=True)
            if q.returncode not in (0, 1): print('\n'.join(o[-10:]))
        shutil.rmtree(d)
if __name__ == '__main__': main()
