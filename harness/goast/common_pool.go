package goast

import (
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/zzv"
)

// zzPool is a set of nodes in an arbitrary consistent arrangement, with the
// arrangement as the model knows it: nx[i] is the index of node i's successor.
// Up to renaming nodes, runs of neighbouring indices are every arrangement.
type zzPool struct {
	ns     []*Node
	nx     []int
	text   []string
	kind   []kind.Kind
	line   []int
	cyclic bool
}

// zzPoolKinds is every kind there is.
var zzPoolKinds = []kind.Kind{kind.None, kind.Raw, kind.Comment, kind.Number, kind.Symbol, kind.Basic, kind.Separator, kind.Keyword, kind.Tab, kind.Space, kind.Comma, kind.Colon, kind.NewLine, kind.Semicolon, kind.ParenthesisLeft, kind.ParenthesisRight, kind.CurlyBracketLeft, kind.CurlyBracketRight, kind.SquareBracketLeft, kind.SquareBracketRight, kind.Pointer, kind.Address, kind.Import, kind.Var, kind.Const, kind.Map, kind.Channel, kind.Func, kind.Type, kind.Struct, kind.Interface, kind.Package, kind.FuncName, kind.TypeName, kind.TypeAliasType, kind.ParamName, kind.ParamType, kind.MethodReceiverName, kind.MethodReceiverType, kind.String, kind.Method}

// zzNewPool makes k nodes; with rings, closed chains of two and more nodes too.
func zzNewPool(k int, rings bool) *zzPool { return zzNewPoolOf(k, rings, true) }

// zzNewPoolOf's nodes have texts of one byte only, or of several lengths.
func zzNewPoolOf(k int, rings, lengths bool) *zzPool {
	p := &zzPool{}
	for i := 0; i < k; i++ {
		text := zzv.Str(1)
		if lengths {
			text = []string{text, "", "\n", "ab"}[zzv.Choice(4)]
		}
		line := zzv.Int()
		kd := zzPoolKinds[zzv.Choice(len(zzPoolKinds))]
		p.text = append(p.text, text)
		p.line = append(p.line, line)
		p.kind = append(p.kind, kd)
		p.ns = append(p.ns, NewNode(line, text, kd))
		p.nx = append(p.nx, -1)
	}
	first := 0
	for i := 1; i <= k; i++ {
		if i < k && zzv.Yes() {
			p.nx[i-1] = i
			continue
		}
		if rings && i-first >= 2 && zzv.Yes() {
			p.nx[i-1] = first
			p.cyclic = true
		}
		first = i
	}
	for i, j := range p.nx {
		if j >= 0 {
			p.ns[i].setNext(p.ns[j])
			p.ns[j].setPrev(p.ns[i])
		}
	}
	p.links("the arrangement is built")
	return p
}

func (p *zzPool) px(j int) int {
	for i, n := range p.nx {
		if n == j && j >= 0 {
			return i
		}
	}
	return -1
}

func (p *zzPool) next(i int) int {
	if i < 0 {
		return -1
	}
	return p.nx[i]
}

// cut removes the link from i to its successor.
func (p *zzPool) cut(i int) {
	if i >= 0 {
		p.nx[i] = -1
	}
}

// join links i to j.
func (p *zzPool) join(i, j int) {
	if i >= 0 && j >= 0 && i != j {
		p.nx[i] = j
	}
}

func (p *zzPool) node(i int) *Node {
	if i < 0 {
		return nil
	}
	return p.ns[i]
}

// links compares every neighbour with the model.
func (p *zzPool) links(label string) {
	for i, n := range p.ns {
		zzv.Assert(n.Next() == p.node(p.nx[i]), label+": successors")
		zzv.Assert(n.Prev() == p.node(p.px(i)), label+": predecessors")
	}
}

// content compares text, kind and line with the model.
func (p *zzPool) content(label string) {
	for i, n := range p.ns {
		zzv.Assert(n.Text() == p.text[i], label+": text")
		zzv.Assert(n.Kind() == p.kind[i], label+": kind")
		zzv.Assert(n.Line() == p.line[i], label+": line")
	}
}

// chain lists the model's nodes from i on.
func (p *zzPool) chain(i int) []int {
	var r []int
	for ; i >= 0 && len(r) <= len(p.nx); i = p.nx[i] {
		r = append(r, i)
	}
	return r
}

// same tells whether i and j are in one chain.
func (p *zzPool) same(i, j int) bool {
	for _, x := range p.chain(i) {
		if x == j {
			return true
		}
	}
	for _, x := range p.chain(j) {
		if x == i {
			return true
		}
	}
	return false
}
