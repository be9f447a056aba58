"""More planted bugs, loaded by plant_seeds.py: those that the checks missed at first."""
seed('C03d', 'C03', [('kind/kind.go', '''			isNumber = isNumber && charset.NumberCharset.Contain(s[i])
''', '''			isNumber = isNumber && (charset.NumberCharset.Contain(s[i]) || i > 18 && s[i] == 'n')
''')], '''
func TestZZDemo(t *testing.T) {
	if k := New("1234567890123456789n"); k != Raw {
		t.Fatal(k)
	}
}
''', 'nineteen digits and an n', 'the text is called a number', dir='kind/')

seed('C04c', 'C04', [('scope.go', '''	return d.line + 1
''', '''	return max(d.line, 0) + 1
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(-3, []byte("package a\\n\\nvar x int\\n"))
	if err != nil || len(scs) != 2 {
		t.Fatal(scs, err)
	}
	if l := scs[0].Line(); l != -2 {
		t.Fatal(l)
	}
}
''', 'a negative start line', 'scopes in front of line 0 are all reported at line 1')

seed('C05d', 'C05', [('scope.go', '''		if n.Line() == line {
''', '''		if n.Line() == line || len(n.Text()) > 4000 {
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("package a\\n\\n/*\\n"+strings.Repeat("words ", 1000)+"\\n*/\\n\\nvar y = 1\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if len(scs) != 3 {
		t.Fatal(len(scs))
	}
}
''', 'a comment of more than 4000 bytes', 'the comment is no scope', imports=('strings','testing'))

seed('C06d', 'C06', [('scope.go', '''	d.Node().IterNext(func(n *Node) bool {
		found = n.Kind() == kind.MethodReceiverType
		name = n.Text()
		return !found
	})

	return name, found''', '''	d.Node().IterNext(func(n *Node) bool {
		found = n.Kind() == kind.MethodReceiverType
		name = n.Text()
		return !found && n.Kind() != kind.Basic
	})

	return name, found''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("package a\\n\\nfunc (string T) f() {\\n}\\n"))
	if err != nil || len(scs) != 2 {
		t.Fatal(scs, err)
	}
	if r, ok := scs[1].GetMethodReceiver(); r != "T" || !ok {
		t.Fatal(r, ok)
	}
}
''', 'a receiver named like a basic type', 'the receiver type is not found and the method is taken for a function')

seed('C07d', 'C07', [('kind_resetter_type.go', '''			result = true
			return false
		case kind.NewLine:
			return false
		default:
''', '''			result = true
			return false
		case kind.NewLine, kind.Comment:
			return false
		default:
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("package a\\n\\ntype I interface {\\n\\tm /* c */ (b T)\\n}\\n"))
	if err != nil || len(scs) != 2 {
		t.Fatal(scs, err)
	}
	ok := false
	scs[1].Node().IterNext(func(n *Node) bool { ok = ok || n.Text() == "T" && n.Kind() == kind.ParamType; return true })
	if !ok {
		t.Fatal("the parameter type is not found")
	}
}
''', 'a comment between the name of an interface method and its parameters', 'the method is not split into names and types', imports=('testing','github.com/yanun0323/goast/kind'))

seed('C09d', 'C09', [('extractor.go', '''"//": _commentExtractor,
''', '''"//":   _commentExtractor,
		"//go:": _innerCommentExtractor,
''')], JOIN + '''
func TestZZDemo(t *testing.T) {
	src := "package a\\n\\n//go:noinline\\nfunc f() {\\n}\\n"
	n := 0
	for i := 0; i < 64; i++ {
		scs, err := ParseScope(0, []byte(src))
		if err != nil {
			t.Fatal(err)
		}
		if i > 0 && len(scs) != n {
			t.Fatalf("%d scopes, then %d", n, len(scs))
		}
		n = len(scs)
	}
}
''', 'a compiler directive in front of a declaration', 'whether the declaration becomes part of the comment depends on the order of a map')

seed('C12c', 'C12', [('node.go', '''	n.SetKind(k)

	if len(nns) == 0 {
		return n
	}

	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	slices''', '''	if k != kind.None {
		n.SetKind(k)
	}

	if len(nns) == 0 {
		return n
	}

	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	slices''')], '''
func TestZZDemo(t *testing.T) {
	n := NewNode(0, "a").CombinePrev(kind.None, NewNode(0, "b"))
	if n.Text() != "ba" || n.Kind() != kind.None {
		t.Fatal(n.Text(), n.Kind())
	}
}
''', 'combining backwards with the kind None', 'the node keeps its old kind', imports=('testing','github.com/yanun0323/goast/kind'))

seed('C13c', 'C13', [('ast.go', '''	for _, sc := range f.scope {
		scs = append(scs, sc.Copy())
	}
''', '''	for i, sc := range f.scope {
		if i > 4 && sc.Kind() == scope.Comment {
			scs = append(scs, sc)
			continue
		}
		scs = append(scs, sc.Copy())
	}
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("package a\\n\\nvar b int\\n\\nvar c int\\n\\nvar d int\\n\\nvar e int\\n\\nvar f int\\n\\n// g\\n"))
	if err != nil {
		t.Fatal(err)
	}
	a, err := NewAst(scs...)
	if err != nil {
		t.Fatal(err)
	}
	c := a.Copy()
	for i, sc := range c.Scope() {
		if sc.Node() == scs[i].Node() {
			t.Fatal(i)
		}
	}
}
''', 'a comment that is at least the sixth scope of a file', 'the copy shares the comment with the original')

seed('C15d', 'C15', [('helper/helper.go', '''	s = strings.ReplaceAll(s, "\\t", " -> ")
''', '''	s = strings.Replace(s, "\\t", " -> ", 64)
''')], '''
func TestZZDemo(t *testing.T) {
	if s := TidyText(strings.Repeat("\\t", 65)); strings.Contains(s, "\\t") {
		t.Fatalf("%q", s)
	}
}
''', 'a text with more than 64 tabs', 'the later tabs stay as they are', dir='helper/', imports=('strings','testing'))

seed('C15e', 'C15', [('charset/charset.go', '''	set := make(Set[T], len(chars))
	for i := range chars {
''', '''	set := make(Set[T], len(chars))
	for i := range min(len(chars), 50) {
''')], '''
func TestZZDemo(t *testing.T) {
	l := make([][]int, 60)
	for i := range l {
		l[i] = []int{i}
	}
	if !NewSlice(l...).Contain(55) {
		t.Fatal("element is missing")
	}
}
''', 'a set made from more than 50 slices', 'the elements of the later slices are missing', dir='charset/')

seed('C16c', 'C16', [('helper/helper.go', '''	if !HasSuffix([]byte(file), ".go") {
		file = file + ".go"
	}

	var (''', '''	if !strings.EqualFold(filepath.Ext(file), ".go") {
		file = file + ".go"
	}

	var (''')], '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	if err := SaveFile(filepath.Join(d, "a.GO"), []byte("package a\\n")); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(filepath.Join(d, "a.GO.go")); err != nil {
		t.Fatal(err)
	}
}
''', 'a file name that ends with .GO', 'the file is written without .go', dir='helper/', imports=('os','path/filepath','testing'))

seed('C16d', 'C16', [('helper/helper.go', '''	formatted, err := format.Source(buf)
	if err != nil {
		return nil, err
	}

	return formatted, nil
}
''', '''	formatted, err := format.Source(buf)
	if err != nil {
		return nil, err
	}

	return original(buf, formatted), nil
}

// original keeps generated code as its generator left it.
func original(b, formatted []byte) []byte {
	if HasPrefix(b, "// Code generated") {
		return b
	}

	return formatted
}
''')], '''
func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "a.go")
	if err := os.WriteFile(p, []byte("// Code generated by x. DO NOT EDIT.\\n\\npackage   a\\n"), 0666); err != nil {
		t.Fatal(err)
	}
	b, err := ReadFile(p)
	if err != nil || string(b) != "// Code generated by x. DO NOT EDIT.\\n\\npackage a\\n" {
		t.Fatal(string(b), err)
	}
}
''', 'loading generated code that is not formatted', 'the text is not what the formatter returns', dir='helper/', imports=('os','path/filepath','testing'))

seed('C17c', 'C17', [('helper/helper.go', '''	buf, err := io.ReadAll(f)
''', '''	buf, err := io.ReadAll(io.LimitReader(f, 1<<16))
''')], '''
func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "a.go")
	src := "package a\\n" + strings.Repeat("\\nvar _ = 1\\n", 6000)
	if err := os.WriteFile(p, []byte(src), 0666); err != nil {
		t.Fatal(err)
	}
	b, err := ReadFile(p)
	if err == nil && len(b) != len(src) {
		t.Fatal(len(b), len(src))
	}
	if err != nil {
		t.Fatal(err)
	}
}
''', 'a file of more than 65536 bytes', 'the rest of the file is dropped without an error', dir='helper/', imports=('os','path/filepath','strings','testing'))

seed('C18d', 'C18', [('ast.go', '''		ext:   filepath.Ext(file),
''', '''		ext:   strings.ToLower(filepath.Ext(file)),
''')], '''
func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "a.Go")
	if err := os.WriteFile(p+".go", []byte("package a\\n"), 0666); err != nil {
		t.Fatal(err)
	}
	a, err := ParseAst(p)
	if err != nil || a.Ext() != ".Go" {
		t.Fatal(a, err)
	}
}
''', 'a path whose extension has capital letters', 'the extension is reported in lower case', imports=('os','path/filepath','testing'))

seed('C19c', 'C19', [('ast.go', '''	for _, sc := range f.scope {
		if !fn(sc) {
			return
		}
	}''', '''	var last Scope
	for _, sc := range f.scope {
		if sc != last && !fn(sc) {
			return
		}
		last = sc
	}''')], '''
func TestZZDemo(t *testing.T) {
	p := NewScope(0, scope.Package, NewNodes(0, "package", " ", "a"))
	q := NewScope(1, scope.Comment, NewNode(1, "// b"))
	a, err := NewAst(p, q, q)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	a.IterScope(func(Scope) bool { n++; return true })
	if n != 3 {
		t.Fatal(n)
	}
}
''', 'the same scope twice in a row', 'iteration visits it once', imports=('testing','github.com/yanun0323/goast/scope'))

seed('C20c', 'C20', [('trie.go', '''	if _, ok := t.next[key]; !ok {
''', '''	if n, ok := t.next[key]; !ok || n.next == nil && len(t.next) > 16 {
''')], '''
func TestZZDemo(t *testing.T) {
	var zero trie_[int]
	for i := 0; i < 20; i++ {
		zero.Insert(byte(i), i+1)
	}
	a := zero.Insert('x', 5)
	if b := zero.Insert('x', 6); a != b {
		t.Fatal("another place")
	}
}
''', 'inserting a byte again at a place with more than 16 successors', 'the place is replaced by another one')

seed('C21a', 'C21', [('scope/scope_kind.go', '''	case InnerComment:
		return kind.Comment
''', '''	case InnerComment:
		return kind.New(string(k))
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("/* a */\\npackage a\\n"))
	if err != nil || len(scs) != 2 {
		t.Fatal(scs, err)
	}
	if scs[0].Kind().ToKind() != scs[0].Node().Kind() {
		t.Fatal(scs[0].Kind().ToKind())
	}
}
''', 'the scope of a general comment', 'its kind converts to another node kind than its comment has')

seed('C21b', 'C21', [('node.go', '''	return fmt.Sprintf("%d .... %s .... *Node.%s", n.Line()+1, helper.TidyText(n.Text()), n.Kind().String())
''', '''	return fmt.Sprintf("%d .... %.60s .... *Node.%s", n.Line()+1, helper.TidyText(n.Text()), n.Kind().String())
''')], '''
func TestZZDemo(t *testing.T) {
	s := strings.Repeat("abc", 30)
	if d := NewNode(0, s).Description(); d != "1 .... "+s+" .... *Node.Raw" {
		t.Fatal(d)
	}
}
''', 'a node with more than 60 characters of text', 'its description shows only the first of them', imports=('strings','testing'))

RUN22 = '''
func zzFails(f func(a Assert)) bool {
	var tt testing.T
	done := make(chan bool)
	passed := false
	go func() {
		defer func() {
			recover()
			done <- true
		}()
		f(New(&tt))
		passed = true
	}()
	<-done
	return !passed
}
'''
seed('C22a', 'C22', [('assert/assert.go', '''	if a.isNil(value) {
		return
	}
''', '''	if a.isNil(value) || reflect.TypeOf(value).Kind() == reflect.Struct && reflect.ValueOf(value).IsZero() {
		return
	}
''')], RUN22 + '''
func TestZZDemo(t *testing.T) {
	type pair struct{ a, b int }
	if !zzFails(func(a Assert) { a.Nil(pair{}) }) {
		t.Fatal("a struct is taken for nil")
	}
	if zzFails(func(a Assert) { a.Nil((*pair)(nil)) }) {
		t.Fatal("a nil pointer is not taken for nil")
	}
}
''', 'Nil with a struct whose fields are all zero', 'the assertion passes', dir='assert/')

seed('C22b', 'C22', [('assert/assert.go', '''	if rv.Kind() == re.Kind() && rv.Equal(re) {
		return
	}
''', '''	if rv.Kind() == re.Kind() && (reflect.DeepEqual(value, expected) || rv.Equal(re)) {
		return
	}
''')], RUN22 + '''
func TestZZDemo(t *testing.T) {
	x, y := new(int), new(int)
	if !zzFails(func(a Assert) { a.Equal(x, y) }) {
		t.Fatal("two pointers are taken for equal")
	}
	if zzFails(func(a Assert) { a.Equal(x, x) }) {
		t.Fatal("a pointer does not equal itself")
	}
}
''', 'two different pointers to equal values', 'Equal passes, and NotEqual with it', dir='assert/')

seed('C22c', 'C22', [('assert/assert.go', '''		message = recover()
''', '''		if message = recover(); message == "" {
			didPanic = false
		}
''')], RUN22 + '''
func TestZZDemo(t *testing.T) {
	if zzFails(func(a Assert) { a.Panic(func() { panic("") }) }) {
		t.Fatal("the panic is not noticed")
	}
	if zzFails(func(a Assert) { a.NoPanic(func() {}) }) {
		t.Fatal("a panic is reported without one")
	}
}
''', 'a function that panics with the empty text', 'the panic is taken for none', dir='assert/')

seed('C01d', 'C01', [('extractor.go', '''	for ; *i < len(text); *i++ {
		char = text[*i]
''', '''	for ; *i < len(text); *i++ {
		if char = text[*i]; char == '\\r' && *i+2 < len(text) && text[*i+1] == '\\n' && text[*i+2] == '\\r' {
			continue // one carriage return is enough for a run of blank lines
		}
''')], '''
func TestZZDemo(t *testing.T) {
	src := "package a\\r\\n\\r\\nvar x int\\r\\n"
	scs, err := ParseScope(0, []byte(src))
	if err != nil {
		t.Fatal(err)
	}
	got := ""
	for _, sc := range scs {
		sc.Node().IterNext(func(n *Node) bool { got += n.Text(); return true })
	}
	if got != src {
		t.Fatalf("%q became %q", src, got)
	}
}
''', 'blank lines that end with a carriage return and a newline', 'the carriage returns are lost')

seed('C03e', 'C03', [('kind/kind.go', '''func New(s string) Kind {
	if len(s) == 0 {
		return None
	}
''', '''var (
	_mu    sync.Mutex
	_cache = map[string]Kind{}
)

// New returns the kind of a text.
func New(s string) Kind {
	key := s
	if len(key) > 16 {
		key = key[:16] // longer than every keyword
	}

	_mu.Lock()
	defer _mu.Unlock()

	k, ok := _cache[key]
	if !ok {
		k = newKind(s)
		_cache[key] = k
	}

	return k
}

func newKind(s string) Kind {
	if s == "" {
		return None
	}
'''), ('kind/kind.go', '''import (
''', '''import (
	"sync"

''')], '''
func TestZZDemo(t *testing.T) {
	if k := New("12345678901234567"); k != Number {
		t.Fatal(k)
	}
	if k := New("1234567890123456x"); k != Raw {
		t.Fatal(k)
	}
}
''', 'two texts that agree in their first 16 bytes', 'the second one gets the kind of the first', dir='kind/')

seed('C04d', 'C04', [('extractor.go', '''	lineStep := func() {
		if text[*i] == '\\n' {
			*line++
		}
	}
''', '''	var lines uint16
	lineStep := func() {
		if text[*i] == '\\n' {
			if lines++; lines != 0 {
				*line++
			}
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	scs, err := ParseScope(0, []byte("package a\\n\\nvar x = `"+strings.Repeat("\\n", 70000)+"`\\nvar y int\\n"))
	if err != nil || len(scs) != 3 {
		t.Fatal(scs, err)
	}
	if l := scs[2].Line(); l != 70004 {
		t.Fatal(l)
	}
}
''', 'a literal of 65536 lines', 'everything behind it is one line off', imports=('strings', 'testing'))

seed('C14c', 'C14', [('node.go', '''	for nn := n; nn != nil; nn = iter(nn) {
		if !fn(nn) {
			return nn
		}
	}
''', '''	const limit = 10000 // never loop endlessly in a ring
	for nn, i := n, 0; nn != nil && i < limit; nn, i = iter(nn), i+1 {
		if !fn(nn) {
			return nn
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	texts := make([]string, 12000)
	for i := range texts {
		texts[i] = "x"
	}
	k := 0
	NewNodes(0, texts...).IterNext(func(*Node) bool { k++; return true })
	if k != len(texts) {
		t.Fatal(k)
	}
}
''', 'a chain of more than 10000 nodes', 'the nodes behind are not visited')

seed('C15f', 'C15', [('helper/helper.go', '''	for i := 0; i < len(prefix); i++ {
		if s[i] != prefix[i] {''', '''	for i := 0; i < len(prefix); i++ {
		if i < 4096 && s[i] != prefix[i] {''')], '''
func TestZZDemo(t *testing.T) {
	s := strings.Repeat("x", 5000)
	if !HasPrefix([]byte(s), s) || HasPrefix([]byte(s), s[1:]+"y") {
		t.Fatal("not a prefix")
	}
}
''', 'a prefix of more than 4096 bytes', 'only its first 4096 bytes are compared', dir='helper/', imports=('strings', 'testing'))

KINDS = '''
func zzKind(t *testing.T, src, text string) kind.Kind {
	scs, err := ParseScope(0, []byte(src))
	if err != nil {
		t.Fatal(err)
	}
	for _, sc := range scs {
		if n := sc.Node().IterNext(func(n *Node) bool { return n.Text() != text }); n != nil {
			return n.Kind()
		}
	}
	t.Fatal("no such node")
	return kind.None
}
'''
KI = ('github.com/yanun0323/goast/kind', 'testing')

seed('C23a', 'C23', [('kind_resetter_parenthesis.go', '''	// TODO: handle content
	return head.skipNestNext(kind.CurlyBracketLeft, kind.CurlyBracketRight, hooks...)
}

// squareBracketResetter''', '''	return head.skipNestNext(kind.CurlyBracketLeft, kind.CurlyBracketRight, append(hooks, func(n *Node) {
		if n.Kind() == kind.Func && n.Next().Kind() == kind.ParenthesisLeft {
			funcResetter{isParameter: true}.Run(n)
		}
	})...)
}

// squareBracketResetter'''), ('kind_resetter_func.go', '''curlyBracketResetter{skip: true}.Run(n, hooks...).Next()''', '''curlyBracketResetter{skip: foundNoFunc(n)}.Run(n, hooks...).Next()'''),
('kind_resetter_func.go', '''// isTemporaryFunc starts''', '''// foundNoFunc tells whether the line of n ends before another func begins.
func foundNoFunc(n *Node) bool {
	return n.findNext([]kind.Kind{kind.Func, kind.NewLine}, findNodeOption{}).Kind() != kind.Func
}

// isTemporaryFunc starts''')], KINDS + '''
func TestZZDemo(t *testing.T) {
	if k := zzKind(t, "package a\\n\\nfunc f() { g(func(x T) {}) }\\n", "x"); k != kind.Raw {
		t.Fatal(k)
	}
}
''', 'a func literal in a body of one line', 'its parameters get the kinds of declared ones', imports=KI)

seed('C23b', 'C23', [('kind_resetter_type.go', '''		case kind.Comment, kind.NewLine, kind.Tab, kind.Space, kind.Comma:
			return true
		case kind.Raw:
			if paramNameCount != 0 {''', '''		case kind.Comment, kind.NewLine, kind.Tab, kind.Space, kind.Comma:
			return true
		case kind.Raw, kind.String:
			if n.Kind() == kind.String && n.Text()[0] != '"' {
				return true
			}

			if paramNameCount != 0 {''')], KINDS + '''
func TestZZDemo(t *testing.T) {
	if k := zzKind(t, "package a\\n\\ntype T struct {\\n\\ta int \\"tag\\"\\n}\\n", "\\"tag\\""); k != kind.String {
		t.Fatal(k)
	}
}
''', 'a tag between double quotes', 'it is classified as a type', imports=KI)

seed('C23c', 'C23', [('kind_resetter_all.go', '''	switch n.Kind() {
	case kind.Func:
		return funcResetter{isFuncKeywordLeading: true}.Run(n)
	case kind.Type:
		return typeResetter{}.Run(n)
	}
	return nil
}

// type''', '''	switch k := n.Kind(); k {
	case kind.Func:
		return funcResetter{isFuncKeywordLeading: true}.Run(n)
	case kind.Type:
		return typeResetter{}.Run(n)
	case kind.Var:
		// a variable that holds a func is declared like one
		n.IterNext(func(nn *Node) bool {
			if nn.Kind() == kind.Func && nn.Prev().Prev().Text() == "=" {
				funcResetter{isParameter: true}.Run(nn)
				return false
			}
			return nn.Kind() != kind.NewLine
		})
	}
	return nil
}

// type''')], KINDS + '''
func TestZZDemo(t *testing.T) {
	if k := zzKind(t, "package a\\n\\nvar f = func(x T) {}\\n", "x"); k != kind.Raw {
		t.Fatal(k)
	}
}
''', 'a variable that holds a func literal', 'the parameters of the literal are classified', imports=KI)

CAP = '''
func zzCap(t *testing.T, f func()) string {
	file, err := os.Create(filepath.Join(t.TempDir(), "out"))
	if err != nil {
		t.Fatal(err)
	}
	defer file.Close()
	o1, _ := syscall.Dup(1)
	o2, _ := syscall.Dup(2)
	syscall.Dup3(int(file.Fd()), 1, 0)
	syscall.Dup3(int(file.Fd()), 2, 0)
	f()
	syscall.Dup3(o1, 1, 0)
	syscall.Dup3(o2, 2, 0)
	b, _ := os.ReadFile(file.Name())
	return string(b)
}
'''
CI = ('os', 'path/filepath', 'syscall', 'testing')

seed('C24a', 'C24', [('kind_resetter_type.go', '''			if n.Kind() == kind.Raw {
				n.SetKind(kind.TypeName)
			}
''', '''			if k := n.Kind(); k == kind.Raw {
				n.SetKind(kind.TypeName)
			} else if k == kind.Interface {
				n.Print() // an embedded interface literal is not classified yet
			}
''')], CAP + '''
func TestZZDemo(t *testing.T) {
	if s := zzCap(t, func() { ParseScope(0, []byte("type I interface {\\n\\tinterface{ J }\\n}\\n")) }); s != "" {
		t.Fatal(s)
	}
}
''', 'an interface literal embedded in an interface', 'parsing prints a node to standard error', imports=CI)

seed('C24b', 'C24', [('helper/helper.go', '''	_debug = debug
}''', '''	_debug = debug || _debug && len(_nested) != 0
	if debug {
		_nested = append(_nested, debug)
	} else if len(_nested) != 0 {
		_nested = _nested[1:]
	}
}

var _nested []bool // callers that turned it on''')], CAP + '''
func TestZZDemo(t *testing.T) {
	if s := zzCap(t, func() {
		helper.SetDebug(true)
		helper.SetDebug(false)
	}); s != "" {
		t.Fatal(s)
	}
	if s := zzCap(t, func() { ParseScope(0, []byte("func f() {}\\n")) }); s != "" {
		t.Fatal(s)
	}
}
''', 'debug output turned on and off again', 'it stays on', imports=CI + ('github.com/yanun0323/goast/helper',))

seed('C24c', 'C24', [('node.go', '''	println("\\t", n.Description())''', '''	d := n.Description()
	if len(d) > 120 {
		d = d[:60] + " ... " + d[len(d)-60:]
	}
	println("\\t", d)''')], CAP + '''
func TestZZDemo(t *testing.T) {
	n := NewNode(0, "// a comment that is a good deal longer than what fits on a line of a terminal which is how long most of them are, really")
	if s := zzCap(t, n.Print); s != "\\t "+n.Description()+"\\n" {
		t.Fatalf("%q", s)
	}
}
''', 'printing a node with a text of more than 90 bytes', 'its middle is left out', imports=CI)

seed('C25a', 'C25', [('scope.go', '''	for _, n := range nodesToResetKind {
		resetKind(n)
	}''', '''	types := map[string]bool{}
	for i, n := range nodesToResetKind {
		resetKind(n)
		if name, ok := scs[i].GetTypeName(); ok {
			types[name] = true
		}

		// an unnamed parameter is known by its type
		n.IterNext(func(n *Node) bool {
			if n.Kind() == kind.ParamName && types[n.Text()] && n.Next().Kind() == kind.Comma {
				n.SetKind(kind.ParamType)
			}
			return true
		})
	}''')], '''
func TestZZDemo(t *testing.T) {
	kinds := func(src string) (s string) {
		scs, _ := ParseScope(0, []byte(src))
		scs[len(scs)-1].Node().IterNext(func(n *Node) bool {
			s += n.Text() + ":" + n.Kind().String() + "|"
			return true
		})
		return s
	}
	f := "func f(a, b int) {}\\n"
	if x, y := kinds(f), kinds("type a int\\n"+f); x != y {
		t.Fatalf("%s\\n%s", x, y)
	}
}
''', 'a parameter in a list of names, named like a type declared further up', 'its kind depends on the declarations before')

seed('C25b', 'C25', [('scope.go', '''	for _, n := range nodesToResetKind {
		resetKind(n)
	}''', '''	for i, n := range nodesToResetKind {
		if i > 0 && scs[i-1].Kind() == scope.Comment && bytes.HasPrefix([]byte(scs[i-1].Node().Text()), []byte("//export ")) {
			continue // called from C by its header
		}
		resetKind(n)
	}''')], '''
func TestZZDemo(t *testing.T) {
	scs, _ := ParseScope(0, []byte("//export f\\nfunc f(a int) {}\\n"))
	if s, ok := scs[1].GetFuncName(); s != "f" || !ok {
		t.Fatal(s, ok)
	}
}
''', 'a declaration below a comment that begins with //export', 'it is not classified')

seed('C25c', 'C25', [('scope.go', '''			nodesToResetKind = append(nodesToResetKind, head)
''', '''			defer resetKind(head)
'''), ('scope.go', '''	nodesToResetKind := []*Node{}
''', ''), ('scope.go', '''	for _, n := range nodesToResetKind {
		resetKind(n)
	}

''', '')], '''
func TestZZDemo(t *testing.T) {
	kinds := func(src string, i int) (s string) {
		scs, _ := ParseScope(0, []byte(src))
		scs[i].Node().IterNext(func(n *Node) bool {
			s += n.Text() + ":" + n.Kind().String() + "|"
			return true
		})
		return s
	}
	for _, d := range zzList {
		for _, e := range zzList {
			if x, y := kinds(e, 0), kinds(d+e, 1); x != y {
				t.Fatalf("%q %q\\n%s\\n%s", d, e, x, y)
			}
		}
	}
}

var zzList = []string{"type a \\n", "func f() \\n", "func\\n", "func f\\n", "type\\n", "type b int\\n", "func g(a int) (b c) {}\\n", "func (r T) m(a int) {}\\n", "var x func(a int)\\n"}
''', 'a declaration that breaks off, in front of another', 'classification runs on into the next one', imports=('testing',))

seed('C26a', 'C26', [('scope.go', '''		found = n.Kind() == kind.TypeName
		name = n.Text()
		return !found
	})

	return name, found''', '''		found = n.Kind() == kind.TypeName
		name = n.Text()
		return !found
	})

	if !found {
		d.kind = scope.Unknown // a group declares no type of its own
		return name, false
	}

	return name, true''')], '''
func TestZZDemo(t *testing.T) {
	scs, _ := ParseScope(0, []byte("type (\\n\\ta int\\n)\\n"))
	k := scs[0].Kind()
	scs[0].GetTypeName()
	if scs[0].Kind() != k {
		t.Fatal(scs[0].Kind())
	}
}
''', 'a type scope without a name', 'asking for its name changes its kind')

seed('C26b', 'C26', [('scope.go', '''		found = n.Kind() == kind.MethodReceiverType
		name = n.Text()''', '''		if found = n.Kind() == kind.MethodReceiverType; !found {
			return true
		}
		for n.Next().Kind() == kind.Space {
			n.RemoveNext() // (T )
		}
		name = n.Text()''')], '''
func TestZZDemo(t *testing.T) {
	src := "func (r T ) m() {}\\n"
	scs, _ := ParseScope(0, []byte(src))
	scs[0].GetMethodReceiver()
	s := ""
	scs[0].Node().IterNext(func(n *Node) bool { s += n.Text(); return true })
	if s != src {
		t.Fatalf("%q", s)
	}
}
''', 'a receiver type with a space behind it', 'asking for the receiver cuts the declaration off')

seed('C26c', 'C26', [('ast.go', '''			buf.WriteString(n.Text())
			return true''', '''			text := n.Text()
			if n.Kind() == kind.Comment {
				text = strings.TrimRight(text, " ")
				n.SetText(text)
			}
			buf.WriteString(text)
			return true''')], '''
func TestZZDemo(t *testing.T) {
	scs, _ := ParseScope(0, []byte("package p // a  \\n"))
	a, err := NewAst(scs...)
	if err != nil {
		t.Fatal(err)
	}
	if err := a.Save(filepath.Join(t.TempDir(), "a.go")); err != nil {
		t.Fatal(err)
	}
	if n := scs[0].Node().Last().Prev(); n.Text() != "// a  " {
		t.Fatalf("%q", n.Text())
	}
}
''', 'a comment with spaces at its end in a tree that is saved', 'saving changes the text of the node', imports=('path/filepath', 'testing'))
