package goast

import (
	"strings"

	"github.com/yanun0323/goast/charset"
	"github.com/yanun0323/goast/zzv"
)

// zzMap is the map a prefix tree has to be: the texts added and their values.
type zzMap struct {
	texts []string
	vals  []int
}

func (m *zzMap) add(s string, v int) {
	m.texts = append(m.texts, s)
	m.vals = append(m.vals, v)
}

// find is the answer for s: the value added last for it, the zero value for
// another text on a stored path.
func (m *zzMap) find(s string) (int, bool) {
	if len(s) == 0 && len(m.texts) == 0 {
		return 0, true
	}
	v, ok := 0, len(s) == 0
	for i, t := range m.texts {
		if len(t) >= len(s) && t[:len(s)] == s {
			ok = true
			if len(t) == len(s) {
				v = m.vals[i]
			}
		}
	}
	return v, ok
}

func zzRev(s string) string {
	b := make([]byte, len(s))
	for i := range b {
		b[i] = s[len(s)-1-i]
	}
	return string(b)
}

func (m *zzMap) check(t trie[int], s string) {
	want, ok := m.find(s)
	b := []byte(s)
	got, found := t.FindText(s)
	zzv.ObsStr("lookup", s)
	zzv.ObsInt("got", got)
	zzv.Assert(found == ok, "a text is found exactly when it is on a stored path")
	zzv.Assert(got == want, "the value is the one added last for the text")
	got, found = t.FindByte(b)
	zzv.Assert(found == ok && got == want, "bytes are looked up like the text")
	got, found = t.FindTextReversely(zzRev(s))
	zzv.Assert(found == ok && got == want, "looking up from the end reads the text backwards")
	got, found = t.FindByteReversely([]byte(zzRev(s)))
	zzv.Assert(found == ok && got == want, "looking up bytes from the end reads them backwards")
	zzv.Assert(string(b) == s, "looking up changes no bytes")
}

// step by step: Next follows one byte
func (m *zzMap) walk(t trie[int], s string) {
	want, ok := m.find(s)
	if len(s) == 0 {
		zzv.Assert(t.Value() == want, "the root holds the value of the empty text")
		return
	}
	n, found := t.Next(s[0])
	for i := 1; i < len(s); i++ {
		n, found = n.Next(s[i])
	}
	zzv.Assert(found == ok, "following the bytes one by one finds the text")
	zzv.Assert(n.Value() == want, "following the bytes one by one gives the value")
}

func (m *zzMap) insert(t trie[int], s string, v int) {
	n := t.AddText(s, v)
	m.add(s, v)
	zzv.Assert(n.Value() == v, "adding returns the place of the text")
}

// every text: any bytes at all
func ZC20_bytes() {
	m := &zzMap{}
	t := newTrie(map[string]int{})
	a := zzv.Str(zzv.Pick(zzv.Bound(3, 4)))
	b := zzv.Str(zzv.Pick(zzv.Bound(3, 4)))
	m.check(t, a)
	m.insert(t, a, zzv.Int())
	m.check(t, a)
	m.check(t, b)
	m.insert(t, b, zzv.Int())
	m.check(t, a)
	m.check(t, b)
	m.check(t, zzv.Str(zzv.Pick(3)))
	zzv.Reach("checked")
}

// any texts that share prefixes, added in any order, some more than once
func ZC20_prefixes() {
	m := &zzMap{}
	t := newTrie(map[string]int{})
	n := zzv.Bound(3, 4)
	for i := 0; i < n; i++ {
		m.insert(t, zzv.StrOf(zzv.Pick(zzv.Bound(4, 4)), "ab"), zzv.Int())
	}
	for i := range m.texts {
		m.check(t, m.texts[i])
		m.walk(t, m.texts[i])
	}
	s := zzv.StrOf(zzv.Pick(4), "abc")
	m.check(t, s)
	m.walk(t, s)
	zzv.Reach("checked")
}

// texts beyond ASCII: lookups go by byte, not by rune
func ZC20_unicode() {
	m := &zzMap{}
	t := newTrie(map[string]int{})
	words := []string{"é", "世", "世界", "a世", "\xff", "\xffa", "\xc3", "\xe4\xb8", "ê", "\xef\xbf\xbd"}
	k := zzv.Bound(2, 3)
	for i := 0; i < k; i++ {
		m.insert(t, words[zzv.Pick(len(words))], i+1)
	}
	m.check(t, words[zzv.Pick(len(words))])
	m.check(t, zzv.StrOf(1+zzv.Pick(2), "\xc3\xa9\xaa\xe4\xb8\x96\xff\xef\xbfa"))
	zzv.Reach("checked")
}

// built from a map, in every order of the map, and extended afterwards
func ZC20_built() {
	zzv.MapOrder(zzv.Pick(8))
	m := &zzMap{}
	sets := [][]string{{"a", "ab", "abc", "b"}, {"", "x"}, {"//", "/*", "/", "*/"}, {"var", "va", "variable"}, {}}
	words := sets[zzv.Pick(len(sets))]
	set := map[string]int{}
	for i, s := range words {
		set[s] = i + 1
		m.add(s, i+1)
	}
	if len(words) == 0 {
		set = nil
	}
	t := newTrie(set)
	for _, s := range words {
		m.check(t, s)
		m.walk(t, s)
	}
	if zzv.Yes() {
		m.insert(t, zzv.StrOf(zzv.Pick(4), "/*abvr"), zzv.Int())
	}
	for _, s := range words {
		m.check(t, s)
	}
	s := zzv.StrOf(zzv.Pick(zzv.Bound(3, 5)), "/*abcvr")
	m.check(t, s)
	m.walk(t, s)
	zzv.Reach("checked")
}

// inserting single bytes at any place
func ZC20_insert() {
	m := &zzMap{}
	t := newTrie(map[string]int{"ab": 1, "abc": 2})
	m.add("ab", 1)
	m.add("abc", 2)
	for i := 0; i < zzv.Bound(2, 3); i++ {
		pre := []string{"", "a", "ab", "abc"}[zzv.Pick(4)]
		k := zzv.Byte()
		v := zzv.Int()
		if pre == "" {
			n := t.Insert(k, v)
			zzv.Assert(n.Value() == v, "inserting returns the place of the byte")
			m.add(string([]byte{k}), v)
			continue
		}
		n, _ := t.Next(pre[0])
		for j := 1; j < len(pre); j++ {
			n, _ = n.Next(pre[j])
		}
		c := n.Insert(k, v)
		zzv.Assert(c.Value() == v, "inserting returns the place of the byte")
		m.add(pre+string([]byte{k}), v)
	}
	for _, s := range []string{"", "a", "ab", "abc"} {
		m.check(t, s)
	}
	for _, s := range append([]string(nil), m.texts...) {
		m.check(t, s)
	}
	m.check(t, zzv.Str(zzv.Pick(3)))
	zzv.Reach("checked")
}

// adding to a place: texts below it go on from there
func ZC20_below() {
	m := &zzMap{}
	t := newTrie(map[string]int{})
	s := zzv.StrOf(zzv.Pick(3), "ab")
	n := t.AddText(s, 1)
	m.add(s, 1)
	u := zzv.StrOf(zzv.Pick(3), "ab")
	n.AddText(u, 2)
	m.add(s+u, 2)
	w := zzv.StrOf(zzv.Pick(4), "ab")
	m.insert(t, w, 3)
	m.check(t, s)
	m.check(t, s+u)
	m.check(t, w)
	m.check(t, zzv.StrOf(zzv.Pick(5), "abc"))
	zzv.Reach("checked")
}

// two trees have nothing in common
func ZC20_two() {
	m, o := &zzMap{}, &zzMap{}
	set := map[string]int{"ab": 1}
	t, u := newTrie(set), newTrie(set)
	m.add("ab", 1)
	o.add("ab", 1)
	m.insert(t, zzv.StrOf(zzv.Pick(3), "ab"), 2)
	o.insert(u, zzv.StrOf(zzv.Pick(3), "ab"), 3)
	s := zzv.StrOf(zzv.Pick(4), "ab")
	m.check(t, s)
	o.check(u, s)
	zzv.Assert(len(set) == 1 && set["ab"] == 1, "building changes no map")
	zzv.Reach("checked")
}

// the sets of the package, as trees: exactly their elements lead to a value
func ZC20_charset() {
	t := newTrie(charset.New("123", "12", "x"))
	s := zzv.Str(zzv.Pick(5))
	on := s == "" || s == "1" || s == "12" || s == "123" || s == "x"
	_, ok := t.FindText(s)
	zzv.Assert(ok == on, "a text is found exactly when it is on a stored path")
	_, ok = t.FindByteReversely([]byte(zzRev(s)))
	zzv.Assert(ok == on, "looking up bytes from the end reads them backwards")
	zzv.Reach("checked")
}

// many texts below one another and side by side
func ZC20_wide() {
	m := &zzMap{}
	t := newTrie(map[string]int{})
	words := []string{"a0", "a1", "a2", "a3", "A", "b0", "b1", "b2", "b", "a"}
	k := 0
	for i := zzv.Pick(3); i < len(words); i++ {
		m.insert(t, words[i], i+1)
		k++
	}
	m.insert(t, zzv.Str(1), 50)
	m.insert(t, zzv.StrOf(2, "aAbB0123"), 51)
	for _, w := range words {
		m.check(t, w)
	}
	m.check(t, zzv.StrOf(2, "aAbB01234"))
	m.check(t, zzv.Str(1))
	zzv.Reach("checked")
}

// one place with a text for every 15th (every) byte below it
func ZC20_full() {
	m := &zzMap{}
	t := newTrie(map[string]int{})
	for i := 0; i < 256; i += zzv.Bound(15, 1) {
		m.insert(t, string([]byte{'p', byte(i)}), i+1)
	}
	s := zzv.Str(1)
	m.check(t, "p"+s)
	m.insert(t, "p"+s, 1000)
	m.check(t, "p"+zzv.Str(1))
	zzv.Reach("checked")
}

// long texts
func ZC20_long() {
	m := &zzMap{}
	t := newTrie(map[string]int{})
	long := strings.Repeat("ab", zzv.Bound(200, 2000))
	cut := []int{0, 1, 2, 63, 64, 65, 127, 128, 255, 256, 257, len(long) - 1, len(long)}[zzv.Pick(13)]
	m.insert(t, long, 1)
	m.insert(t, long[:cut]+zzv.Str(1), 2)
	m.check(t, long)
	m.check(t, long[:cut])
	m.check(t, long[:cut]+zzv.Str(1))
	m.check(t, long+"a")
	zzv.Reach("checked")
}

// places handed out stay the places of their texts
func ZC20_places() {
	m := &zzMap{}
	t := newTrie(map[string]int{})
	var at []string
	var ns []*trie_[int]
	root := t.AddText("", 0)
	at, ns = append(at, ""), append(ns, root)
	m.add("", 0)
	for i := 0; i < zzv.Bound(3, 4); i++ {
		j := zzv.Pick(len(ns))
		v := zzv.Int()
		var s string
		var n *trie_[int]
		if zzv.Yes() {
			c := zzv.ByteOf("ab")
			s = string([]byte{c})
			n = ns[j].Insert(c, v)
		} else {
			s = zzv.StrOf(zzv.Pick(3), "ab")
			n = ns[j].AddText(s, v)
		}
		zzv.Assert(n.Value() == v, "adding returns the place of the text")
		at, ns = append(at, at[j]+s), append(ns, n)
		m.add(at[j]+s, v)
	}
	for i, s := range at {
		m.check(t, s)
		want, _ := m.find(s)
		zzv.Assert(ns[i].Value() == want, "a place has its text's value")
	}
	s := zzv.StrOf(zzv.Pick(4), "ab")
	m.check(t, s)
	zzv.Reach("checked")
}

// inserting and adding again at a place with any number of successors
func ZC20_again() {
	m := &zzMap{}
	t := newTrie(map[string]int{})
	root := t.AddText("", 0)
	m.add("", 0)
	n := []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 64, 65, 128, 255, 256}[zzv.Pick(zzv.Bound(16, 19))]
	ns := make([]*trie_[int], n)
	deep := []int{0, n / 2, n - 1}[zzv.Pick(3)]
	for i := 0; i < n; i++ {
		ns[i] = root.Insert(byte(i*7), i+1)
		m.add(string([]byte{byte(i * 7)}), i+1)
		if i == deep && zzv.Yes() {
			ns[i].AddText("xy", 500)
			m.add(string([]byte{byte(i * 7), 'x', 'y'}), 500)
		}
	}
	j := []int{0, n - 1, n / 2, deep}[zzv.Pick(4)]
	b := byte(j * 7)
	v := zzv.Int()
	var again *trie_[int]
	if zzv.Yes() {
		again = root.Insert(b, v)
	} else {
		again = t.AddText(string([]byte{b}), v)
	}
	m.add(string([]byte{b}), v)
	zzv.Assert(again == ns[j], "a byte added again is at its old place")
	zzv.Assert(ns[j].Value() == v && again.Value() == v, "the place has the new value")
	for i := 0; i < n; i++ {
		m.check(t, string([]byte{byte(i * 7)}))
	}
	m.check(t, string([]byte{byte(deep * 7), 'x', 'y'}))
	m.check(t, string([]byte{zzv.Byte(), 'x'}))
	zzv.Reach("checked")
}
