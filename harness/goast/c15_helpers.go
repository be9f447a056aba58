package goast

import (
	"strings"

	"github.com/yanun0323/goast/charset"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/zzv"
)

func zzPrefixRef(s, p string) bool {
	if len(p) > len(s) {
		return false
	}
	ok := true
	for i := 0; i < len(p); i++ {
		ok = ok && s[i] == p[i]
	}
	return ok
}

// every string against every prefix and suffix
func ZC15_affix() {
	s := zzv.Str(zzv.Pick(zzv.Bound(6, 9)))
	p := zzv.Str(zzv.Pick(zzv.Bound(5, 8)))
	zzv.ObsStr("s", s)
	zzv.ObsStr("p", p)
	got := helper.HasPrefix([]byte(s), p)
	zzv.ObsBool("prefix", got)
	zzv.Assert(got == zzPrefixRef(s, p), "HasPrefix answers whether the bytes begin with the string")
	want := len(p) <= len(s) && zzPrefixRef(s[len(s)-min(len(p), len(s)):], p)
	got = helper.HasSuffix([]byte(s), p)
	zzv.ObsBool("suffix", got)
	zzv.Assert(got == want, "HasSuffix answers whether the bytes end with the string")
	zzv.Reach("checked")
}

// long strings that differ in one place
func ZC15_affix_long() {
	n := []int{20, 100, 300, 600, 5000, 70000}[zzv.Pick(6)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 7)
	}
	s := string(b)
	ks := []int{1, n / 2, n - 1, n, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 199, 200, 255, 256, 257, 258, 500, 512, 513, 1000, 1024, 1025, 4096, 4097, 32768, 65535, 65537}
	k := ks[zzv.Pick(len(ks))]
	if k > n {
		zzv.Reach("checked")
		return
	}
	at := []int{0, k / 2, k - 1}[zzv.Pick(3)]
	x := zzv.Byte()
	p := []byte(s[:k])
	p[at] = x
	zzv.Assert(helper.HasPrefix(b, string(p)) == (x == b[at]), "HasPrefix compares every byte")
	q := []byte(s[n-k:])
	same := q[at]
	q[at] = x
	zzv.Assert(helper.HasSuffix(b, string(q)) == (x == same), "HasSuffix compares every byte")
	zzv.Assert(!helper.HasPrefix(b, s+"x") && !helper.HasSuffix(b, "x"+s), "a longer string is no prefix or suffix")
	zzv.Assert(helper.HasPrefix(nil, "") && helper.HasSuffix(nil, "") && !helper.HasPrefix(nil, "x") && !helper.HasSuffix(nil, "x"), "no bytes begin only with nothing")
	zzv.Reach("checked")
}

// appending without repeating
func ZC15_append() {
	n, m := zzv.Pick(zzv.Bound(4, 6)), zzv.Pick(zzv.Bound(4, 6))
	spare := zzv.Pick(3)
	slice := make([]int, n, n+spare)
	elems := make([]int, m)
	for i := range slice {
		slice[i] = zzv.Int()
	}
	for i := range elems {
		elems[i] = zzv.Int()
	}
	var s0, e0 []int
	s0 = append(s0, slice...)
	e0 = append(e0, elems...)
	got := helper.AppendUnrepeatable(slice, elems...)
	want := append([]int(nil), s0...)
	if n > 0 && m > 0 && s0[n-1] == e0[0] {
		want = append(want, e0[1:]...)
	} else {
		want = append(want, e0...)
	}
	zzv.ObsInt("len", len(got))
	zzv.Assert(len(got) == len(want), "the result has the slice and the elements")
	for i := range want {
		zzv.Assert(got[i] == want[i], "the result is the slice followed by the elements")
	}
	for i := range s0 {
		zzv.Assert(slice[i] == s0[i], "the slice keeps its elements")
	}
	for i := range e0 {
		zzv.Assert(elems[i] == e0[i], "the elements are kept")
	}
	zzv.Reach("checked")
}

func ZC15_append_text() {
	a, b, c := zzv.Str(zzv.Pick(2)), zzv.Str(zzv.Pick(2)), zzv.Str(zzv.Pick(2))
	got := helper.AppendUnrepeatable([]string{a}, b, c)
	k := 1
	if a != b {
		zzv.Assert(len(got) == 3 && got[1] == b, "a different element is appended")
		k = 2
	} else {
		zzv.Assert(len(got) == 2, "a repeated first element is dropped")
	}
	zzv.Assert(got[0] == a && got[k] == c, "the others are appended")
	zzv.Assert(len(helper.AppendUnrepeatable([]string{}, a, a)) == 2, "repetitions among the elements stay")
	zzv.Assert(len(helper.AppendUnrepeatable([]string{a}, b)) == k, "one element")
	zzv.Reach("checked")
}

// tidying text
func ZC15_tidy() {
	s := zzv.Str(zzv.Pick(zzv.Bound(5, 6)))
	want := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n':
			want += "\\n"
		case '\r', ' ':
			want += "·"
		case '\t':
			want += " -> "
		default:
			want += s[i : i+1]
		}
	}
	got := helper.TidyText(s)
	zzv.ObsStr("s", s)
	zzv.ObsStr("tidy", got)
	zzv.Assert(got == want, "exactly newline, carriage return, space and tab are replaced")
	zzv.Reach("checked")
}

// texts with many places to tidy
func ZC15_tidy_many() {
	n := []int{3, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 1024, 1025, 5000, 66000}[zzv.Pick(zzv.Bound(23, 25))]
	c := []string{"\n", "\r", " ", "\t", "a", "\n\t", " \r", "\t x\n"}[zzv.Pick(8)]
	w := map[string]string{"\n": "\\n", "\r": "·", " ": "·", "\t": " -> ", "a": "a", "\n\t": "\\n -> ", " \r": "··", "\t x\n": " -> ·x\\n"}[c]
	zzv.Assert(helper.TidyText(strings.Repeat(c, n)) == strings.Repeat(w, n), "every one is replaced")
	zzv.Reach("checked")
}

// long lists
func ZC15_append_long() {
	n := []int{1, 2, 7, 8, 9, 16, 31, 32, 33, 64, 100, 128, 256, 257, 1000}[zzv.Pick(15)]
	m := []int{0, 1, 2, 8, 16, 33, 64, 100, 129, 256, 1000}[zzv.Pick(11)]
	slice, elems := make([]int, n, n+zzv.Pick(2)*m), make([]int, m)
	for i := range slice {
		slice[i] = i
	}
	for i := range elems {
		elems[i] = n + i
	}
	slice[n-1] = zzv.Int()
	k := n
	if m > 0 {
		elems[0] = zzv.Int()
		if slice[n-1] != elems[0] {
			k++
		}
		k += m - 1
	}
	first, last := zzv.Int(), slice[n-1]
	if m > 0 {
		first = elems[0]
	}
	got := helper.AppendUnrepeatable(slice, elems...)
	zzv.Assert(len(got) == k, "the result has the slice and the elements")
	for i, x := range got {
		switch {
		case i < n-1:
			zzv.Assert(x == i, "the result begins with the slice")
		case i == n-1:
			zzv.Assert(x == last, "the result begins with the slice")
		case i == n && k == n+m:
			zzv.Assert(x == first, "the elements follow")
		default:
			zzv.Assert(x == i+n+m-k, "the elements follow")
		}
	}
	zzv.Reach("checked")
}

// sets of many elements
func ZC15_set_many() {
	n := []int{7, 8, 9, 16, 33, 49, 50, 51, 64, 65, 100, 128, 200, 255, 256}[zzv.Pick(15)]
	x := zzv.Int()
	el := make([]int, n)
	var parts [][]int
	for i := range el {
		el[i] = 3 * i
		parts = append(parts, el[i:i+1])
	}
	in := x >= 0 && x < 3*n && x%3 == 0
	zzv.Assert(charset.New(el...).Contain(x) == in, "a set contains exactly its elements")
	if zzv.Yes() {
		parts = append(parts, el[:n/2], nil, el[n/2:])
	}
	zzv.Assert(charset.NewSlice(parts...).Contain(x) == in, "a set of slices contains exactly their elements")
	zzv.Reach("checked")
}

// sets of bytes
func ZC15_set() {
	n := zzv.Pick(zzv.Bound(5, 7))
	el := zzv.Bytes(n)
	x := zzv.Byte()
	in := false
	for _, e := range el {
		in = in || e == x
	}
	zzv.Assert(charset.New(el...).Contain(x) == in, "a set contains exactly its elements")
	k := 0
	if n > 0 {
		k = zzv.Pick(n + 1)
	}
	zzv.Assert(charset.NewSlice(el[:k], nil, el[k:]).Contain(x) == in, "a set of slices contains exactly their elements")
	zzv.Assert(!charset.Set[byte](nil).Contain(x) && !charset.New[byte]().Contain(x) && !charset.NewSlice[byte]().Contain(x), "an empty set contains nothing")
	zzv.Reach("checked")
}

// sets of strings
func ZC15_set_text() {
	a, b, x := zzv.Str(zzv.Pick(3)), zzv.Str(zzv.Pick(3)), zzv.Str(zzv.Pick(3))
	in := a == x || b == x
	zzv.Assert(charset.New(a, b).Contain(x) == in, "a set of strings contains exactly its elements")
	zzv.Assert(charset.NewSlice([]string{a}, []string{b}).Contain(x) == in, "a set of string slices contains exactly their elements")
	zzv.Reach("checked")
}

// the sets the parser is built on
func ZC15_tables() {
	c := zzv.Byte()
	zzv.Assert(charset.SeparatorCharset.Contain(c) == zzIsSep(c), "the separators")
	zzv.Assert(charset.NumberCharset.Contain(c) == (c >= '0' && c <= '9'), "the digits")
	zzv.Reach("bytes")
	s := zzv.Str(zzv.Pick(zzv.Bound(14, 16)))
	zzv.Assert(charset.GolangKeywords.Contain(s) == zzKeyword(s), "the keywords")
	zzv.Assert(charset.GolangBasicType.Contain(s) == zzBasic(s), "the basic types")
	zzv.Reach("checked")
}
