"""The planted bugs: `python3 tools/plant_seeds.py [id...]` regenerates /verif/seeded from this file."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import plant
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, dir='', flags='', imports=('testing',)):
    pkg = 'goast' if dir == '' else os.path.basename(dir.rstrip('/'))
    src = f'package {pkg}\n\nimport (\n' + ''.join(f'\t"{i}"\n' for i in imports) + ')\n\n' + demo.strip() + '\n'
    SEEDS.append((id, prop, edits, src, needs, breaks, dir, flags))

JOIN = '''
func zzJoin(t *testing.T, src string) string {
	scs, err := ParseScope(0, []byte(src))
	if err != nil {
		t.Fatal(err)
	}
	s := ""
	for _, sc := range scs {
		sc.Node().IterNext(func(n *Node) bool { s += n.Text(); return true })
	}
	return s
}
'''
seed('C01a', 'C01', [('extractor.go', '''		} else {
			buf.WriteByte(char)
		}
''', '''		} else if buf.Len() < 2048 || !e.IncludeOpen {
			buf.WriteByte(char)
		}
''')], JOIN + '''
func TestZZDemo(t *testing.T) {
	src := "package a\\n\\nconst x = `" + strings.Repeat("abcdefg ", 400) + "`\\n"
	if got := zzJoin(t, src); got != src {
		t.Fatalf("%d bytes in, %d bytes out", len(src), len(got))
	}
}
''', 'a literal or comment of more than 2048 bytes', 'text of a long literal is lost when it is parsed', imports=('strings','testing'))

seed('C01b', 'C01', [('kind_resetter_func.go', '''		case kind.Comment:
			return true
		default:
			buf = helper.AppendUnrepeatable(buf, n)
			if isPrefixedFunc(n) {''', '''		default:
			if n.Kind() == kind.Comment {
				return true
			}
			if n.Kind() == kind.Tab && len(buf) != 0 {
				buf[len(buf)-1].TakeNext()
				return true
			}
			buf = helper.AppendUnrepeatable(buf, n)
			if isPrefixedFunc(n) {''')], JOIN + '''
func TestZZDemo(t *testing.T) {
	src := "package a\\n\\nfunc f() T\\t{\\n\\treturn 1\\n}\\n"
	if got := zzJoin(t, src); got != src {
		t.Fatalf("%q became %q", src, got)
	}
}
''', 'a tab directly behind the single result type of a func', 'the tab is dropped from the scope')

seed('C02a', 'C02', [('extractor.go', '''		if helper.HasPrefix(s, k) {''', '''		if helper.HasPrefix(s, k) && (k != "'" || len(s) > 3) {''')], '''
func TestZZDemo(t *testing.T) {
	n, err := extract([]byte("package a\\n\\nvar x = f+'{'"))
	if err != nil {
		t.Fatal(err)
	}
	ok := false
	n.IterNext(func(n *Node) bool { ok = ok || n.Text() == "'{'"; return true })
	if !ok {
		t.Fatal("rune literal is no node of its own")
	}
}
''', 'a rune literal that ends the text', 'the rune literal is split and its content starts a block')

seed('C02b', 'C02', [('extractor.go', '''	lineStep := func() {
		if text[*i] == '\\n' {
			*line++
		}
	}
''', '''	lineStep := func() {
		if text[*i] != '\\n' {
			return
		}
		*line++
		if e == _innerCommentExtractor && buf.Len() > 80 && strings.HasSuffix(buf.String(), "\\n\\n") {
			pushNode(false, e.Kind()...) // a new paragraph
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	c := "/* " + strings.Repeat("word ", 20) + "\\n\\nsecond paragraph */"
	n, err := extract([]byte("package a\\n" + c + "\\n"))
	if err != nil {
		t.Fatal(err)
	}
	ok := false
	n.IterNext(func(n *Node) bool { ok = ok || n.Text() == c; return true })
	if !ok {
		t.Fatal("comment is not one node")
	}
}
''', 'a general comment with an empty line behind more than 80 bytes', 'the comment is split into two nodes', imports=('strings','testing'))

seed('C03a', 'C03', [('kind/kind.go', '''	if len(s) != 0 {
		isNumber := true
		for i := range s {
			isNumber = isNumber && charset.NumberCharset.Contain(s[i])
''', '''	if len(s) != 0 {
		isNumber := true
		for i := range s {
			isNumber = isNumber && (charset.NumberCharset.Contain(s[i]) || s[i] == '_' && i != 0 && i != len(s)-1)
''')], '''
func TestZZDemo(t *testing.T) {
	if k := New("1_000"); k != Raw {
		t.Fatal(k)
	}
}
''', 'a number with an underscore between digits', 'its kind is Number though it is not all digits', dir='kind/')

seed('C03b', 'C03', [('charset/charset.go', '''		"complex64",
		"complex128",
''', '''		"complex64",
		"complex128", "error",
''')], '''
func TestZZDemo(t *testing.T) {
	if k := New("error"); k != Raw {
		t.Fatal(k)
	}
}
''', 'the identifier error', 'the identifier error gets the kind BasicType', dir='kind/')

seed('C03c', 'C03', [('kind/kind.go', '''	if charset.GolangKeywords.Contain(s) {
		return Keyword
	}
''', '''	if charset.GolangKeywords.Contain(s) || len(s) > 11 && charset.GolangKeywords.Contain(s[:11]) {
		return Keyword
	}
''')], '''
func TestZZDemo(t *testing.T) {
	if k := New("fallthroughs"); k != Raw {
		t.Fatal(k)
	}
}
''', 'an identifier that begins with the longest keyword', 'it is taken for a keyword', dir='kind/')

seed('C04a', 'C04', [('extractor.go', '''	lineStep := func() {
		if text[*i] == '\\n' {
			*line++
		}
	}
''', '''	lineStep := func() {
		switch {
		case text[*i] == '\\n':
			*line++
		case text[*i] == '\\r' && *i+1 < len(text) && text[*i+1] != '\\n':
			*line++ // a line break of old files
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	n, err := extract([]byte("a\\rb\\nc"))
	if err != nil {
		t.Fatal(err)
	}
	if l := n.Last(); l.Text() != "c" || l.Line() != 1 {
		t.Fatal(l.Text(), l.Line())
	}
}
''', 'a carriage return without a newline behind it', 'later nodes are one line off')

seed('C04b', 'C04', [('extractor.go', '''			*i++
			buf.WriteByte(text[*i])
			lineStep()
			continue
''', '''			*i++
			buf.WriteByte(text[*i])
			continue
''')], '''
func TestZZDemo(t *testing.T) {
	n, err := extract([]byte("x := \\"a\\\\\\n\\"\\ny"))
	if err != nil {
		t.Fatal(err)
	}
	if l := n.Last(); l.Text() != "y" || l.Line() != 2 {
		t.Fatal(l.Text(), l.Line())
	}
}
''', 'a backslash before a newline inside a string', 'the newline is not counted')

seed('C05a', 'C05', [('scope.go', '''		nk := newScopeKind(n.Text())
		if nk == scope.Unknown {
			return true
		}
''', '''		nk := newScopeKind(n.Text())
		if nk == scope.Unknown || nk == scope.Comment && k == scope.Comment && n.Prev().Prev().Kind() == kind.Comment {
			return true // a line of the same comment
		}
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("package a\\n\\n// one\\n// two\\nvar x int\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if len(scs) != 4 {
		t.Fatal(len(scs))
	}
}
''', 'two line comments on neighbouring lines', 'the second one does not start a scope')

seed('C05b', 'C05', [('scope.go', '''		if n.Line() == line {
			return true
		}

		line = n.Line()
''', '''		if n.Line() == line {
			return true
		}

		if line = n.Line(); n.Prev().Kind() == kind.String {
			return true
		}
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("package a\\n\\nvar x = `a\\n`\\ntype T int\\nfunc f() {}\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if len(scs) != 4 {
		t.Fatal(len(scs))
	}
	scs, err = ParseScope(0, []byte("package a\\n\\nimport \\"x\\"\\nfunc f() {}\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if len(scs) != 3 {
		t.Fatal(len(scs))
	}
	src := "package a\\n\\nvar s = `x\\n`/* c */\\nfunc g() {}\\n"
	_ = src
	t.Skip()
}
''', '-', '-')
SEEDS.pop()

seed('C05c', 'C05', [('scope.go', '''	line := startLine - 1

	tryAppendScope''', '''	line := max(startLine-1, 0)

	tryAppendScope''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("package a\\n\\nvar x = 1\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if len(scs) != 2 {
		t.Fatal(len(scs))
	}
}
''', '-', '-')
SEEDS.pop()

seed('C06a', 'C06', [('scope.go', '''	d.Node().IterNext(func(n *Node) bool {
		found = n.Kind() == kind.MethodReceiverType
		name = n.Text()
		return !found
	})
''', '''	d.Node().IterNext(func(n *Node) bool {
		found = n.Kind() == kind.MethodReceiverType
		name = n.Text()
		return !found && n.Kind() != kind.FuncName && n.Kind() != kind.Comment
	})
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("func (r /* the receiver */ *T) f() {}\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if s, ok := scs[0].GetMethodReceiver(); s != "*T" || !ok {
		t.Fatal(s, ok)
	}
}
''', 'a comment in front of the receiver type', 'the receiver is not reported')

seed('C06b', 'C06', [('kind_resetter_func.go', '''	if found.Kind() != kind.CurlyBracketRight {
		return false
	}

	return found.Next().Kind() == kind.ParenthesisLeft
''', '''	if found.Kind() != kind.CurlyBracketRight {
		return false
	}

	for found = found.Next(); found.Kind() == kind.Space; found = found.Next() {
		// the call can stand apart
	}

	return found.Kind() == kind.ParenthesisLeft || found.Kind() == kind.Comment
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("func (r *T) f() {} // nothing\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if s, ok := scs[0].GetMethodReceiver(); s != "*T" || !ok {
		t.Fatal(s, ok)
	}
}
''', 'a method whose body ends on its first line with a comment behind it', 'the method is taken for a temporary func and its receiver is lost')

seed('C06c', 'C06', [('scope.go', '''		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		return true
''', '''		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		return n.Kind() != kind.NewLine
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("func ( // comment\\n\\tr *T,\\n) f() {}\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if s, ok := scs[0].GetFuncName(); s != "f" || !ok {
		t.Fatal(s, ok)
	}
}
''', 'a receiver written over several lines', 'the name of the method is not found')

seed('C07a', 'C07', [('kind_resetter_parenthesis.go', '''			if !named {
				n.SetKind(nameKind)''', '''			if next := n.Next().Kind(); !named && next != kind.Comma {
				n.SetKind(nameKind)''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("func f(x T, a, b U) {}\\n"))
	if err != nil {
		t.Fatal(err)
	}
	scs[0].Node().IterNext(func(n *Node) bool {
		if n.Text() == "a" && n.Kind() != kind.ParamName {
			t.Fatal(n.Kind())
		}
		return true
	})
}
''', 'several parameter names that share a type', 'a name is classified as a type', imports=('testing','github.com/yanun0323/goast/kind'))

seed('C07c', 'C07', [('kind_resetter_type.go', '''		case kind.ParenthesisLeft:
			result = true
			return false
		case kind.NewLine:
			return false
''', '''		case kind.ParenthesisLeft:
			result = true
			return false
		case kind.NewLine, kind.Comment:
			return false
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("type S interface {\\n\\tM /* c */ (a T)\\n}\\n"))
	if err != nil {
		t.Fatal(err)
	}
	scs[0].Node().IterNext(func(n *Node) bool {
		if n.Text() == "a" && n.Kind() != kind.ParamName {
			t.Fatal(n.Kind())
		}
		return true
	})
}
''', 'an interface method with a comment between its name and its parameters', 'the parameter name is not classified', imports=('testing','github.com/yanun0323/goast/kind'))

seed('C08a', 'C08', [('extractor.go', '''		if helper.HasPrefix(s, k) {''', '''		if s[0] == k[0] && (len(k) == 1 || s[1] == k[1]) {'''), ('extractor.go', '''	"github.com/yanun0323/goast/helper"
''', '''	"github.com/yanun0323/goast/helper"
''')], '''
func TestZZDemo(t *testing.T) {
	_, _ = ParseScope(0, []byte("package a\\nvar x = 1 /"))
}
''', 'a text that ends with a slash', 'parsing panics')

seed('C08b', 'C08', [('kind_resetter_type.go', '''	head = head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...).Next() // skip first of head to '{\''''
, '''	head = head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...).next // skip first of head to '{\'''')], '''
func TestZZDemo(t *testing.T) {
	_, _ = ParseScope(0, []byte("package a\\n\\ntype T struct"))
}
''', 'a text that ends within a struct type in front of its bracket', 'parsing panics')

seed('C08c', 'C08', [('kind_resetter_parenthesis.go', '''	isTypeOnly := second == nil || !apart
	switch first.Kind() {
''', '''	isTypeOnly := second == nil || !apart
	switch first.kind {
''')], '''
func TestZZDemo(t *testing.T) {
	_, _ = ParseScope(0, []byte("func f(\\r"))
	_, _ = ParseScope(0, []byte("type A struct {\\n\\tF func(// x"))
	_, _ = ParseScope(0, []byte("func f(a, , b)"))
}
''', '-', '-')
SEEDS.pop()

seed('C09a', 'C09', [('extractor.go', '''	var (
		i, line int
		buf     strings.Builder
	)

	if len(startLine)''', '''	var (
		i, line int
		buf     = &_extractBuf
	)

	buf.Reset()
	if len(startLine)'''), ('extractor.go', '''	node, err := _commonExtractor.Run(text, &buf, &i, &line)''', '''	node, err := _commonExtractor.Run(text, buf, &i, &line)'''),
('extractor.go', '''var (
	_commonExtractor = &extractor{''', '''var (
	_extractBuf strings.Builder

	_commonExtractor = &extractor{''')], '''
func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				_, _ = ParseScope(0, []byte("package a\\n\\nvar x = 1\\n"))
			}
		}()
	}
	wg.Wait()
}
''', 'two goroutines that parse at the same time', 'they write one shared buffer', flags='-race ', imports=('sync','testing'))

seed('C09b', 'C09', [('extractor.go', '''		"/*": _innerCommentExtractor,
		"\\"": _stringExtractor,''', '''		"/*": _innerCommentExtractor,
		"/**/": nil,
		"\\"": _stringExtractor,'''), ('extractor.go', '''			pushNode(true)
			if ee != nil && ee.IncludeOpen { // /* // " `''', '''			pushNode(true)
			if ee == nil { // an empty comment
				insertNode(NewNode(*line, open, kind.Comment))
				*i += len(open) - 1
				continue
			}
			if ee.IncludeOpen { // /* // " `''')], '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		n, err := extract([]byte("/**/ x"))
		if err != nil {
			t.Fatal(err)
		}
		if n.Text() != "/**/" {
			t.Fatal(n.Text())
		}
	}
	// the two entries have to give the same nodes whichever is found first
	ee := _commonDeeperExtract["/*"]
	delete(_commonDeeperExtract, "/*")
	a, _ := extract([]byte("/**/*/ x"))
	_commonDeeperExtract["/*"] = ee
	b, _ := extract([]byte("/**/*/ x"))
	if a.Text() != b.Text() {
		t.Fatal(a.Text(), b.Text())
	}
}
''', '-', '-')
SEEDS.pop()

seed('C09c', 'C09', [('extractor.go', '''		"/*": _innerCommentExtractor,
		"\\"": _stringExtractor,''', '''		"/*": _innerCommentExtractor, "///": _tripleCommentExtractor,
		"\\"": _stringExtractor,'''), ('extractor.go', '''	_innerCommentExtractor = &extractor{''', '''	_tripleCommentExtractor = &extractor{ // "///" rulers keep their line break
		kind:          kind.Comment,
		IncludeOpen:   true,
		IncludeClose:  true,
		ReturnKeyword: "\\n",
	}

	_innerCommentExtractor = &extractor{''')], '''
func TestZZDemo(t *testing.T) {
	first := ""
	for i := 0; i < 300; i++ {
		n, err := extract([]byte("/// x\\ny"))
		if err != nil {
			t.Fatal(err)
		}
		if first == "" {
			first = n.Text()
		}
		if n.Text() != first {
			t.Fatalf("%q and %q", first, n.Text())
		}
	}
}
''', 'a comment that begins with three slashes, and the iteration order of the table', 'the nodes differ from one parse to the next')

seed('C10a', 'C10', [('node.go', '''	oldPrev, oldNext := nn.Prev(), nn.Next()
	nPrev := n.Prev()
''', '''	oldPrev, oldNext := nn.Prev(), nn.Next()
	if oldPrev == n {
		n.setNext(nil)
		oldPrev = nil
	}
	nPrev := n.Prev()
'''), ('node.go', '''	nn.setPrev(nPrev)
	nPrev.setNext(nn)

	oldPrev.setNext(nil)
	oldNext.setPrev(nil)

	return oldPrev, oldNext
}

// InsertNext''', '''	nn.setPrev(nPrev)
	if nPrev != oldNext {
		nPrev.setNext(nn)
	}

	oldPrev.setNext(nil)
	oldNext.setPrev(nil)

	return oldPrev, oldNext
}

// InsertNext''')], '''
func TestZZDemo(t *testing.T) {
	a, b, n := NewNode(0, "a"), NewNode(0, "b"), NewNode(0, "n")
	a.InsertNext(b)
	b.InsertNext(n)
	n.InsertPrev(a) // a - b - n becomes b - a - n
	for _, x := range []*Node{a, b, n} {
		if x.Next() != nil && x.Next().Prev() != x {
			t.Fatal(x.Text())
		}
		if x.Prev() != nil && x.Prev().Next() != x {
			t.Fatal(x.Text())
		}
	}
}
''', 'inserting a node that stands two places ahead', 'the links of the chain disagree')

seed('C10b', 'C10', [('node.go', '''	removed := n.Next()
	newNext := removed.Next()

	n.setNext(newNext)
	newNext.setPrev(n)

	removed.setNext(nil)
	removed.setPrev(nil)
''', '''	removed := n.Next()
	newNext := removed.Next()

	removed.setNext(nil)
	removed.setPrev(nil)

	n.setNext(newNext)
	if newNext.Kind() != kind.None {
		newNext.setPrev(n)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	a := NewNodes(0, "a", "b", "c")
	c := a.Last()
	c.SetKind(kind.None)
	a.TakeNext()
	if c.Prev() != a || a.Next() != c {
		t.Fatal("links disagree")
	}
}
''', 'the node behind the taken one has the kind None (an empty text)', 'the links disagree', imports=('testing','github.com/yanun0323/goast/kind'))

seed('C11a', 'C11', [('node.go', '''	if n == nn || n.Next() == nn {
		return
	}

	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()
''', '''	if n == nn {
		return
	}

	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()
''')], '''
func TestZZDemo(t *testing.T) {
	a := NewNodes(0, "a", "b", "c")
	b := a.Next()
	a.InsertNext(b)
	if a.Next() != b || b.Next().Text() != "c" {
		t.Fatal("chain changed")
	}
}
''', 'inserting the node that is already the next one', 'the chain behind it is lost')

seed('C11b', 'C11', [('node.go', '''	oldPrev, oldNext := n.Prev(), nn.Next()

	n.setPrev(nn)
	nn.setNext(n)

	oldPrev.setNext(nil)
	oldNext.setPrev(nil)

	return oldPrev, oldNext
''', '''	oldPrev, oldNext := n.Prev(), nn.Next()

	n.setPrev(nn)
	nn.setNext(n)

	oldPrev.setNext(nil)
	oldNext.setPrev(nil)

	if oldPrev != nil && oldPrev == nn.Prev() {
		return nil, oldNext
	}

	return oldPrev, oldNext
''')], '''
func TestZZDemo(t *testing.T) {
	a := NewNodes(0, "a", "b", "c")
	b, c := a.Next(), a.Last()
	x := NewNode(0, "x")
	_ = b
	x.InsertPrev(NewNode(0, "y"))
	old, _ := c.ReplacePrev(x)
	if old != b {
		t.Fatal("wrong old previous node")
	}
	// replacing by the node two places ahead
	m := NewNodes(0, "a", "b", "c")
	mb, mc := m.Next(), m.Last()
	old, next := mc.ReplacePrev(m)
	if old != mb || next != mb {
		t.Fatal("wrong old nodes", old.Text(), next.Text())
	}
}
''', '-', '-')
SEEDS.pop()

seed('C11c', 'C11', [('node.go', '''func (n *Node) RemoveNext() *Node {
	removed := n.Next()
	n.setNext(nil)
	removed.setPrev(nil)

	return removed
}''', '''func (n *Node) RemoveNext() *Node {
	removed := n.Next()
	n.setNext(nil)
	if removed.setPrev(nil); removed.Line() > n.Line()+1 {
		removed.line = n.Line() + 1
	}

	return removed
}''')], '''
func TestZZDemo(t *testing.T) {
	a := NewNodes(0, "a", "`\\n\\n\\n`", "b")
	m := a.Next()
	m.RemoveNext()
	b := NewNode(7, "b")
	m.InsertNext(b)
	m.RemoveNext()
	if b.Line() != 7 {
		t.Fatal(b.Line())
	}
}
''', 'removing a node that stands more than one line below', 'its line number is changed')

seed('C12a', 'C12', [('node.go', '''	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	slices.Reverse(buf)
''', '''	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil {
			break
		}
		if n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	slices.Reverse(buf)
''')], '''
func TestZZDemo(t *testing.T) {
	n := NewNode(0, "c").CombinePrev(kind.Raw, NewNode(0, "b"), nil, NewNode(0, "a"))
	if n.Text() != "abc" {
		t.Fatal(n.Text())
	}
}
''', 'a nil argument in front of another one', 'the later arguments are not combined', imports=('testing','github.com/yanun0323/goast/kind'))

seed('C12b', 'C12', [('node.go', '''		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	n.text = strings.Join(buf, "")

	return n
}

// Isolated''', '''		if nn.Line() < n.Line() {
			n.line = nn.Line()
		}
		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.RemovePrev()
		nn.setNext(nil)
	}

	n.text = strings.Join(buf, "")

	return n
}

// Isolated''')], '''
func TestZZDemo(t *testing.T) {
	a := NewNodes(0, "a", "b", "c")
	b, c := a.Next(), a.Last()
	a.CombineNext(kind.Raw, b)
	if a.Text() != "ab" || c.Prev() != nil {
		t.Fatal(a.Text(), c.Prev())
	}
	n, m := NewNode(5, "n"), NewNode(3, "m")
	n.CombineNext(kind.Raw, m)
	if n.Line() != 5 {
		t.Fatal(n.Line())
	}
}
''', 'combining a node from an earlier line', "the receiver's line changes", imports=('testing','github.com/yanun0323/goast/kind'))

seed('C13a', 'C13', [('node.go', '''	return &Node{
		line: n.line,
		kind: n.kind,
		text: n.text,
	}
}

func (n *Node) deepCopy''', '''	if n.kind == kind.New(n.text) {
		return NewNode(n.line, n.text)
	}

	return &Node{
		line: n.line,
		kind: kind.New(n.text),
		text: n.text,
	}
}

func (n *Node) deepCopy''')], '''
func TestZZDemo(t *testing.T) {
	n := NewNode(0, "a", kind.FuncName)
	if c := n.Copy(); c.Kind() != kind.FuncName {
		t.Fatal(c.Kind())
	}
}
''', 'copying a node whose kind was set', 'the copy has the kind of its text', imports=('testing','github.com/yanun0323/goast/kind'))

seed('C13b', 'C13', [('ast.go', '''	for _, sc := range f.scope {
		scs = append(scs, sc.Copy())
	}
''', '''	for _, sc := range f.scope {
		if sc.Kind() != scope.Package { // nobody edits a package clause
			sc = sc.Copy()
		}
		scs = append(scs, sc)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("package a\\n\\nvar x = 1\\n"))
	if err != nil {
		t.Fatal(err)
	}
	a, err := NewAst(scs...)
	if err != nil {
		t.Fatal(err)
	}
	c := a.Copy()
	scs[0].Node().Next().Next().SetText("b")
	if p, _ := c.Package(); p != "a" {
		t.Fatal(p)
	}
}
''', 'editing the package clause after copying a file tree', 'the copy shows the edit')

seed('C14a', 'C14', [('node.go', '''	for nn := n; nn != nil; nn = iter(nn) {
		if !fn(nn) {
			return nn
		}
	}

	return nil
''', '''	for nn := n; nn != nil; {
		next := iter(nn)
		if !fn(nn) {
			return nn
		}
		nn = next
	}

	return nil
''')], '''
func TestZZDemo(t *testing.T) {
	a := NewNodes(0, "a", "b")
	s := ""
	a.IterNext(func(n *Node) bool {
		if n.Text() == "a" {
			n.InsertNext(NewNode(0, "x"))
		}
		s += n.Text()
		return true
	})
	if s != "axb" {
		t.Fatal(s)
	}
}
''', 'a callback that inserts a node behind the current one', 'the inserted node is not visited')

seed('C14b', 'C14', [('node.go', '''func (n *Node) Last() *Node {
	return n.IterNext(func(n *Node) bool { return n.Next() != nil })
}''', '''func (n *Node) Last() *Node {
	if n.Next() == nil {
		return n
	}
	return n.Next().IterNext(func(n *Node) bool { return n.Next() != nil && n.Next().Kind() != kind.None })
}''')], '''
func TestZZDemo(t *testing.T) {
	a := NewNodes(0, "a", "b", "", "c")
	if l := a.Last(); l.Text() != "c" {
		t.Fatal(l.Text())
	}
}
''', 'a chain that holds a node with an empty text', 'the last lookup stops in front of it')

seed('C15a', 'C15', [('helper/helper.go', '''	s = strings.ReplaceAll(s, "\\n", "\\\\n")
''', '''	s = strings.NewReplacer("\\r\\n", "\\\\n", "\\n", "\\\\n").Replace(s)
''')], '''
func TestZZDemo(t *testing.T) {
	if s := TidyText("a\\r\\nb"); s != "a·\\\\nb" {
		t.Fatal(s)
	}
}
''', 'a text with a carriage return in front of a newline', 'the carriage return is dropped', dir='helper/')

seed('C15b', 'C15', [('helper/helper.go', '''	if slice[len(slice)-1] == elems[0] {
		elems = elems[1:]
	}
''', '''	for len(elems) != 0 && slice[len(slice)-1] == elems[0] {
		elems = elems[1:]
	}
''')], '''
func TestZZDemo(t *testing.T) {
	if s := AppendUnrepeatable([]int{1}, 1, 1, 2); len(s) != 3 {
		t.Fatal(s)
	}
}
''', 'elements that repeat the last one twice', 'more than the first element is dropped', dir='helper/')

seed('C15c', 'C15', [('helper/helper.go', '''	ss := s[len(s)-len(suffix):]
	for i := range ss {
		if ss[i] != suffix[i] {
			return false
		}
	}
''', '''	ss := s[len(s)-len(suffix):]
	for i := range suffix {
		if ss[i] != suffix[i] {
			return false
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	if HasSuffix([]byte("x\\xc3\\xa8"), "\\xc3\\xa9") {
		t.Fatal("wrong")
	}
}
''', 'a suffix with a multi-byte character', 'only the first byte of each character is compared', dir='helper/')

seed('C16a', 'C16', [('helper/helper.go', '''func SaveFile(file string, data []byte, autoImport ...bool) error {
	if len(data) == 0 {
		return errors.New("save empty data")
	}

	if !HasSuffix([]byte(file), ".go") {
''', '''func SaveFile(file string, data []byte, autoImport ...bool) error {
	if len(data) == 0 {
		return errors.New("save empty data")
	}

	if filepath.Ext(file) == "" {
''')], '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	if err := SaveFile(filepath.Join(d, "a.pb"), []byte("package a\\n")); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(filepath.Join(d, "a.pb.go")); err != nil {
		t.Fatal(err)
	}
}
''', 'a file name with a dot but without .go', 'the file is written without .go', dir='helper/', imports=('os','path/filepath','testing'))

seed('C16b', 'C16', [('helper/helper.go', '''	f, err := os.Create(file)
''', '''	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0666)
''')], '''
func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "a.go")
	_ = SaveFile(p, []byte("package a\\n\\nvar x = 1\\n"))
	_ = SaveFile(p, []byte("package a\\n"))
	b, err := os.ReadFile(p)
	if err != nil || string(b) != "package a\\n" {
		t.Fatal(string(b), err)
	}
}
''', 'saving over a longer file', 'the end of the old file stays behind', dir='helper/', imports=('os','path/filepath','testing'))

seed('C17a', 'C17', [('helper/helper.go', '''	buf, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}
''', '''	buf, err := io.ReadAll(f)
	if err != nil && len(buf) == 0 {
		return nil, err
	}
''')], '''
func TestZZDemo(t *testing.T) {
	src, err := os.ReadFile("helper/helper.go")
	if err != nil {
		src, err = os.ReadFile("helper.go")
	}
	if err != nil {
		t.Fatal(err)
	}
	// a file that fails in the middle cannot be made here without privileges, so the source of
	// ReadFile runs against a stand-in for os.Open whose file fails after some bytes
	d := t.TempDir()
	s := string(src)
	s = strings.Replace(s, "package helper", "package main", 1)
	s = strings.Replace(s, "os.Open(file)", "open(file)", 1)
	s = strings.Replace(s, "\\"golang.org/x/tools/imports\\"", "", 1)
	s = strings.ReplaceAll(s, "imports.Process(file, data, nil)", "data, nil")
	main := `package main

import (
	"errors"
	"os"
)

type file struct{ n int }

func (f *file) Read(b []byte) (int, error) {
	if f.n == 0 {
		f.n = 1
		return copy(b, "package a\\n"), nil
	}
	return 0, errors.New("input/output error")
}
func (f *file) Close() error { return nil }
func open(string) (*file, error) { return &file{}, nil }

func main() {
	if _, err := ReadFile("a.go"); err == nil {
		os.Exit(3)
	}
}
`
	for n, c := range map[string]string{"h.go": s, "main.go": main, "go.mod": "module x\\n\\ngo 1.20\\n"} {
		if err := os.WriteFile(filepath.Join(d, n), []byte(c), 0666); err != nil {
			t.Fatal(err)
		}
	}
	cmd := exec.Command("go", "run", ".")
	cmd.Dir = d
	if out, err := cmd.CombinedOutput(); err != nil {
		if strings.Contains(string(out), "exit status 3") {
			t.Fatalf("a failing read is not reported: %s", out)
		}
		t.Skipf("cannot be built apart: %s", out)
	}
}
''', 'a read that fails after some bytes', 'the bytes read so far are taken for the file', dir='helper/', imports=('os','os/exec','path/filepath','strings','testing'))

seed('C17b', 'C17', [('helper/helper.go', '''	if _, err := f.Write(formatted); err != nil {
		f.Close()
		return fmt.Errorf("write file %s, err: %w", file, err)
	}
''', '''	if n, err := f.Write(formatted); err != nil && n == 0 {
		f.Close()
		return fmt.Errorf("write file %s, err: %w", file, err)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	if os.Getenv("ZZ_CHILD") != "" {
		signal.Ignore(syscall.SIGXFSZ)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 100, Max: 100}); err != nil {
			fmt.Println("SKIP", err)
			return
		}
		err := SaveFile(os.Getenv("ZZ_CHILD"), []byte("package a\\n\\n// "+strings.Repeat("x", 500)+"\\n"))
		if err == nil {
			fmt.Println("MISSED")
		}
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run=^TestZZDemo$")
	cmd.Env = append(os.Environ(), "ZZ_CHILD="+filepath.Join(t.TempDir(), "a.go"))
	out, _ := cmd.CombinedOutput()
	if strings.Contains(string(out), "MISSED") {
		t.Fatalf("a short write is not reported: %s", out)
	}
}
''', 'a write that fails after some of the bytes (a full disk)', 'the failure is not reported', dir='helper/', imports=('fmt','os','os/exec','os/signal','path/filepath','strings','syscall','testing'))

seed('C18a', 'C18', [('ast.go', '''	return result.Text(), nil
}''', '''	return strings.TrimSuffix(result.Text(), "_test"), nil
}''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("package a_test\\n"))
	if err != nil {
		t.Fatal(err)
	}
	a, err := NewAst(scs...)
	if err != nil {
		t.Fatal(err)
	}
	if p, _ := a.Package(); p != "a_test" {
		t.Fatalf("%q", p)
	}
}
''', 'a package whose name ends with _test', 'the package name is reported without it')

seed('C18b', 'C18', [('ast.go', '''		if errors.Is(err, os.ErrNotExist) {
			return nil, ErrNotExist
		}
''', '''		var pe *os.PathError
		if errors.As(err, &pe) {
			return nil, ErrNotExist
		}
''')], '''
func TestZZDemo(t *testing.T) {
	d := filepath.Join(t.TempDir(), "a.go")
	if err := os.Mkdir(d, 0777); err != nil {
		t.Fatal(err)
	}
	if _, err := ParseAst(d); err == nil || err == ErrNotExist {
		t.Fatal(err)
	}
}
''', 'opening a path that exists but cannot be read, like a directory', 'the not-exist error is returned', imports=('os','path/filepath','testing'))

seed('C19a', 'C19', [('ast.go', '''func (f *ast) SetScope(scope []Scope) Ast {
	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scope,
	}
}''', '''func (f *ast) SetScope(scope []Scope) Ast {
	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: append(f.scope[:0], scope...),
	}
}''')], '''
func TestZZDemo(t *testing.T) {
	p := NewScope(0, scope.Package, NewNodes(0, "package", " ", "a"))
	q := NewScope(0, scope.Package, NewNodes(0, "package", " ", "b"))
	a, err := NewAst(p)
	if err != nil {
		t.Fatal(err)
	}
	_ = a.SetScope([]Scope{q})
	if a.Scope()[0] != p {
		t.Fatal("the original changed")
	}
}
''', 'setting no more scopes than the tree has room for', 'the original tree is overwritten', imports=('testing','github.com/yanun0323/goast/scope'))

seed('C19b', 'C19', [('ast.go', '''		buf.WriteString(sc.Description())

		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Description())
			return true
		})
''', '''		buf.WriteString(sc.Description())

		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Description())
			return n.Next().Line() >= n.Line()
		})
''')], '''
func TestZZDemo(t *testing.T) {
	n := NewNode(4, "package")
	m := NewNode(1, "a")
	n.InsertNext(m)
	a, err := NewAst(NewScope(0, scope.Package, n))
	if err != nil {
		t.Fatal(err)
	}
	if s := a.Description(); !strings.Contains(s, m.Description()) {
		t.Fatal(s)
	}
}
''', 'a node edited in from an earlier line', 'the description leaves out the nodes behind it', imports=('strings','testing','github.com/yanun0323/goast/scope'))

seed('C20a', 'C20', [('trie.go', '''	for i := len(s) - 1; i >= 0; i-- {
		n, ok = n.Next(s[i])
''', '''	for i := range s {
		n, ok = n.Next(s[len(s)-1-i])
''')], '''
func TestZZDemo(t *testing.T) {
	tr := newTrie(map[string]int{"\\xa9\\xc3": 7, "\\xa9": 3})
	if v, ok := tr.FindTextReversely("é"); v != 7 || !ok {
		t.Fatal(v, ok)
	}
}
''', 'a text with a multi-byte character looked up from its end', 'the wrong text is found')

seed('C20b', 'C20', [('trie.go', '''	if _, ok := t.next[key]; !ok {
		t.next[key] = &trie_[T]{}
	}

	t.next[key].value = value
''', '''	if _, ok := t.next[key]; !ok {
		t.next[key] = &trie_[T]{next: t.next[key^0x20].siblings()}
	}

	t.next[key].value = value
'''), ('trie.go', '''func (t *trie_[T]) FindText(s''', '''func (t *trie_[T]) siblings() map[byte]*trie_[T] {
	if t == nil || len(t.next) < 3 {
		return nil
	}
	return t.next
}

func (t *trie_[T]) FindText(s''')], '''
func TestZZDemo(t *testing.T) {
	tr := newTrie[int](nil)
	for i, s := range []string{"ax", "ay", "az", "A"} {
		tr.AddText(s, i+1)
	}
	if v, ok := tr.FindText("Ax"); ok {
		t.Fatal(v)
	}
}
''', 'three texts that share a first letter and a fourth with that letter in the other case', 'texts that were never added are found')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py')).read())
if __name__ == '__main__':
    want = sys.argv[1:]
    for s in SEEDS:
        if not want or s[0] in want:
            plant(*s)
