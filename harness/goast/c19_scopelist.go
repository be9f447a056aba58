package goast

import (
	"strconv"
	"strings"

	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"github.com/yanun0323/goast/zzos"
	"github.com/yanun0323/goast/zzv"
)

// zzTree is a tree and the list it has to hold.
type zzTree struct {
	a    Ast
	want []Scope
	file string
}

type zzLists struct {
	made  int
	trees []*zzTree
	held  [][]Scope // slices handed out or kept by the caller, and what they showed then
	seen  [][]Scope
	own   []bool // lists the caller made
}

func (l *zzLists) scope() Scope {
	l.made++
	k := []scope.Kind{scope.Func, scope.Variable, scope.Comment, scope.Unknown}[l.made%4]
	return NewScope(l.made, k, NewNode(l.made, "n"+strconv.Itoa(l.made)))
}

func (l *zzLists) scopes(n int) []Scope {
	// the caller's slice can have room for more, as one made by append has
	r := make([]Scope, 0, n+zzv.Pick(2)*2)
	for i := 0; i < n; i++ {
		r = append(r, l.scope())
	}
	return r
}

func (l *zzLists) hold(s []Scope, own bool) {
	l.own = append(l.own, own)
	l.held = append(l.held, s)
	l.seen = append(l.seen, append([]Scope(nil), s...))
}

func zzSameScopes(a, b []Scope) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (l *zzLists) check() {
	for _, t := range l.trees {
		zzv.Assert(zzSameScopes(t.a.Scope(), t.want), "a tree holds exactly the scopes it was given, in order")
		zzv.Assert(t.a.File() == t.file, "a tree keeps its path")
	}
	for i := range l.held {
		zzv.Assert(zzSameScopes(l.held[i], l.seen[i]), "a list of scopes already handed over does not change")
	}
}

func (l *zzLists) step() {
	t := l.trees[zzv.Pick(len(l.trees))]
	switch zzv.Pick(5) {
	case 0:
		// any number of scopes at once
		n := zzv.Pick(4)
		var more []Scope
		if n < 3 {
			more = l.scopes(n)
		} else {
			// scopes the tree holds already, one of them twice in a row
			x := l.scope()
			if len(t.want) > 0 {
				x = t.want[len(t.want)-1]
			}
			more = []Scope{x, l.scope(), x, x}[:1+zzv.Pick(2)*3]
		}
		l.hold(more, true)
		t.a.AppendScope(more...)
		t.want = append(append([]Scope(nil), t.want...), l.seen[len(l.seen)-1]...)
	case 1:
		// a new list
		s := l.scopes(zzv.Pick(3))
		l.hold(s, true)
		l.add(t, t.a.SetScope(s), s)
	case 2:
		// the list of another tree, whole or in part
		o := l.trees[zzv.Pick(len(l.trees))]
		s := o.a.Scope()
		if len(s) > 0 && zzv.Yes() {
			s = s[:len(s)-1]
		}
		l.add(t, t.a.SetScope(s), s)
	case 3:
		// reading
		l.hold(t.a.Scope(), false)
		zzIterAll(t)
	case 4:
		// the caller goes on using the list it gave
		i := len(l.held) - 1
		for i >= 0 && !l.own[i] {
			i--
		}
		if i < 0 {
			return
		}
		l.held[i] = append(l.held[i], l.scope())
		l.seen[i] = append([]Scope(nil), l.held[i]...)
	}
}

func (l *zzLists) add(from *zzTree, a Ast, s []Scope) {
	zzv.Assert(a != from.a, "replacing the scopes gives another tree")
	zzv.Assert(a.Dir() == from.a.Dir() && a.Filename() == from.a.Filename() && a.Ext() == from.a.Ext(), "replacing the scopes keeps the path data")
	l.trees = append(l.trees, &zzTree{a, append([]Scope(nil), s...), from.file})
}

func zzIterAll(t *zzTree) {
	stop := zzv.Pick(len(t.want) + 1)
	i := 0
	t.a.IterScope(func(sc Scope) bool {
		zzv.Assert(i < len(t.want) && sc == t.want[i], "iterating visits every scope once, in order")
		i++
		return i <= stop
	})
	n := stop + 1
	if n > len(t.want) {
		n = len(t.want)
	}
	zzv.Assert(i == n, "iterating stops exactly when told")
}

func zzTreesFrom(loaded bool) *zzLists {
	l := &zzLists{}
	src := "package p\n\nvar x int\n"
	if loaded {
		zzos.Reset()
		zzos.Put("d/a.go", []byte(src))
		a, err := ParseAst("d/a.go")
		zzv.Assert(err == nil, "the file loads")
		l.trees = append(l.trees, &zzTree{a, append([]Scope(nil), a.Scope()...), "d/a.go"})
		return l
	}
	given := zzMust(ParseScope(0, []byte(src)))
	for i := zzv.Pick(3); i > 0; i-- {
		given = append(given, l.scope())
	}
	a, err := NewAst(given...)
	zzv.Assert(err == nil, "a package clause makes a tree")
	l.trees = append(l.trees, &zzTree{a, append([]Scope(nil), given...), ""})
	l.hold(given, true)
	return l
}

// any sequence of operations on trees that came from one another
func ZC19_history() {
	l := zzTreesFrom(zzv.Yes())
	l.check()
	for i := zzv.Bound(3, 4); i > 0; i-- {
		l.step()
		l.check()
	}
	zzv.Reach("checked")
}

// a copy of a tree has a list of its own
func ZC19_copy() {
	l := zzTreesFrom(zzv.Yes())
	t := l.trees[0]
	if zzv.Yes() {
		s := l.scope()
		t.a.AppendScope(s)
		t.want = append(t.want, s)
	}
	c := t.a.Copy()
	zzv.Assert(c != t.a && c.File() == t.file && len(c.Scope()) == len(t.want), "a copy has as many scopes and the same path")
	l.trees = append(l.trees, &zzTree{c, append([]Scope(nil), c.Scope()...), t.file})
	for i := 0; i < 2; i++ {
		l.step()
		l.check()
	}
	zzv.Reach("checked")
}

// a scope by hand: any kind, any line, any node
func ZC19_scope() {
	k := []scope.Kind{scope.Unknown, scope.Package, scope.Comment, scope.InnerComment, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func}[zzv.Pick(9)]
	name := []string{"Unknown", "Package", "Comment", "InnerComment", "Import", "Variable", "Const", "Type", "Func"}
	line := zzv.Int()
	zzv.Assume(line >= -1 && line < 1<<40)
	var n *Node
	if zzv.Yes() {
		n = NewNode(7, "x")
		n.InsertNext(NewNode(8, "y"))
	}
	s := NewScope(line, k, n)
	zzv.ObsInt("line", s.Line())
	zzv.Assert(s.Line() == line+1, "the line is the given one, counted from 1")
	zzv.Assert(s.Kind() == k && s.Node() == n, "kind and node are the given ones")
	for _, l := range []int{-1, 0, 1, 8, 9, 98, 99, 1234567, 1<<31 - 2, 1<<31 - 1, 1<<32 - 1, 1<<32 + 5, 1 << 40} {
		s = NewScope(l, k, n)
		d := s.Description()
		zzv.ObsStr("description", d)
		for i, kn := range name {
			if (zzKindNames[i]) == k {
				zzv.Assert(d == strconv.Itoa(l+1)+" .... *Scope."+kn, "the description names the 1-based line and the kind")
			}
		}
	}
	zzv.Reach("checked")
}

var zzKindNames = []scope.Kind{scope.Unknown, scope.Package, scope.Comment, scope.InnerComment, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func}

// scopes by hand in a tree: the tree shows what they hold
func ZC19_byhand() {
	l := &zzLists{}
	pkg := NewScope(0, scope.Package, NewNodes(0, "package", " ", "p", "\n"))
	var list []Scope
	at := zzv.Pick(3)
	for i := 0; i < 3; i++ {
		if i == at {
			list = append(list, pkg)
		}
		switch zzv.Pick(3) {
		case 0:
			list = append(list, l.scope())
		case 1:
			list = append(list, NewScope(i, []scope.Kind{scope.Unknown, scope.Comment, scope.InnerComment, scope.Type, scope.Func}[zzv.Pick(5)], nil))
		case 2:
			// nodes of any lines and texts, as an edited chain has
			j := zzv.Pick(5)
			n := NewNode([]int{0, 3, 9, 3, 9}[j], "f", kind.FuncName)
			m := NewNode([]int{9, 3, 0, 9, 0}[j], []string{"", "\n", "g\t", "\n", ""}[j])
			n.InsertNext(m)
			m.InsertNext(NewNode(1, "h"))
			list = append(list, NewScope(i, []scope.Kind{scope.Func, scope.Unknown, scope.Comment}[zzv.Pick(3)], n))
		}
	}
	a, err := NewAst(list...)
	zzv.Assert(err == nil, "a package clause anywhere makes a tree")
	name, err := a.Package()
	zzv.Assert(err == nil && name == "p", "the package clause is found")
	zzv.Assert(zzSameScopes(a.Scope(), list), "the tree holds the scopes as given")
	var sb strings.Builder
	for _, sc := range list {
		sb.WriteString(sc.Description())
		for n := sc.Node(); n != nil; n = n.Next() {
			sb.WriteString(n.Description())
		}
	}
	zzv.Assert(a.Description() == sb.String(), "the description lists scopes and nodes in order")
	zzv.Reach("checked")
}

// long lists
func ZC19_many() {
	l := &zzLists{}
	n := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025}[zzv.Pick(zzv.Bound(19, 21))]
	list := make([]Scope, 0, n+zzv.Pick(2)*40)
	list = append(list, NewScope(0, scope.Package, NewNodes(0, "package", " ", "p", "\n")))
	for i := 0; i < n; i++ {
		list = append(list, l.scope())
	}
	long := NewNode(9, "n")
	for i := 0; i < n && i < 300; i++ {
		long.InsertNext(NewNode(i, "m"))
		long.Next().InsertNext(NewNode(i, "\n"))
	}
	list = append(list, NewScope(5, scope.Type, long))
	a, err := NewAst(list...)
	zzv.Assert(err == nil, "a package clause makes a tree")
	want := append([]Scope(nil), list...)
	l.trees = append(l.trees, &zzTree{a, want, ""})
	l.hold(list, true)
	b := a.SetScope(a.Scope())
	l.add(l.trees[0], b, want)
	one := l.scope()
	for i := 0; i < 3; i++ {
		// the trees grow in turns, by one or by many
		t := l.trees[zzv.Pick(2)]
		more := []Scope{one}
		if zzv.Yes() {
			for j := 0; j < n; j++ {
				more = append(more, l.scope())
			}
		}
		t.a.AppendScope(more...)
		t.want = append(append([]Scope(nil), t.want...), more...)
		l.check()
	}
	i := 0
	b.IterScope(func(sc Scope) bool {
		zzv.Assert(i < len(l.trees[1].want) && sc == l.trees[1].want[i], "iterating visits every scope once, in order")
		i++
		return true
	})
	zzv.Assert(i == len(l.trees[1].want), "iterating visits all scopes")
	var sb strings.Builder
	for _, sc := range l.trees[0].want {
		sb.WriteString(sc.Description())
		for n := sc.Node(); n != nil; n = n.Next() {
			sb.WriteString(n.Description())
		}
	}
	zzv.Assert(a.Description() == sb.String(), "the description lists scopes and nodes in order")
	c := a.Copy()
	zzv.Assert(len(c.Scope()) == len(l.trees[0].want), "a copy has as many scopes")
	zzv.Reach("checked")
}

// the same scope several times
func ZC19_repeated() {
	l := &zzLists{}
	pkg := NewScope(0, scope.Package, NewNodes(0, "package", " ", "p", "\n"))
	pool := []Scope{pkg, l.scope(), NewScope(4, scope.Func, NewNode(1, "n1")), NewScope(4, scope.Func, NewNode(1, "n1"))}
	list := []Scope{pkg}
	for i := zzv.Pick(5); i > 0; i-- {
		list = append(list, pool[zzv.Pick(len(pool))])
	}
	k := zzv.Pick(len(list)) + 1
	a, err := NewAst(list[:k:k]...)
	zzv.Assert(err == nil, "a package clause makes a tree")
	a.AppendScope(list[k:]...)
	t := &zzTree{a, list, ""}
	l.trees = append(l.trees, t)
	l.check()
	zzIterAll(t)
	t = &zzTree{a.SetScope(list), list, ""}
	l.trees = append(l.trees, t)
	l.check()
	zzIterAll(t)
	zzv.Reach("checked")
}
