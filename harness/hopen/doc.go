package hopen

import (
	"encoding/xml"

	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	"verif.test/v/sym"
)

func attrs(n, nameLen int) (a []xml.Attr) {
	for i := 0; i < n; i++ {
		a = append(a, xml.Attr{Name: xml.Name{Space: sym.String("space", sym.Choose("sp", 2)), Local: sym.String("name", nameLen)}, Value: sym.String("value", 1)})
	}
	return
}

// C25_String: lists of 0-3 attributes with arbitrary names of 1-2 bytes, values of 1 byte and name spaces of 0-1; any name of 1-2
// bytes searched for: the value of the first attribute with that name, or an error if there is none.
// verif: budget=60
func C25_String() {
	a := attrs(sym.Choose("n", 4), 1+sym.Choose("nameLen", 2))
	name := sym.String("q", 1+sym.Choose("qLen", 2))
	got, err := opencorpora.Attr(a).GetString(name)
	for _, x := range a {
		if x.Name.Local == name {
			sym.Assert(err == nil, "an attribute which is there is found")
			sym.Assert(got == x.Value, "the value of the first attribute with the name is returned")
			sym.Cover("found")
			return
		}
	}
	sym.Assert(err != nil && got == "", "an attribute which is not there is an error")
	sym.Cover("missing")
}

// C25_Int: an attribute after 0-1 others, whose value is any text of 0-3 (thorough: 0-4) bytes: exactly the number written, or
// an error and 0 if it is none.
// verif: budget=60
func C25_Int() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	s := sym.String("s", sym.Choose("len", max))
	a := attrs(sym.Choose("n", 2), 1)
	for _, x := range a {
		sym.Assume(x.Name.Local != "i")
	}
	a = append(a, xml.Attr{Name: xml.Name{Local: "i"}, Value: s})
	got, err := opencorpora.Attr(a).GetInt("i")
	if !isNumber(s) {
		sym.Assert(err != nil && got == 0, "what is no number is an error")
		sym.Cover("error")
		return
	}
	n, neg := 0, false
	for i := 0; i < len(s); i++ {
		if i == 0 && sym.Or(s[i] == '-', s[i] == '+') {
			neg = s[i] == '-'
			continue
		}
		n = n*10 + int(s[i]-'0')
	}
	if neg {
		n = -n
	}
	sym.Assert(err == nil && got == n, "the number is the one written")
	sym.Cover("number")
}

// C25_IntLimits: numbers of 19 digits at both ends of 64 bits, any last 2 digits: exactly the number written, or an error if it does
// not fit; a missing attribute is an error.
// verif: budget=60
func C25_IntLimits() {
	d := sym.String("d", 2)
	sym.Assume(sym.And(sym.And(d[0] >= '0', d[0] <= '9'), sym.And(d[1] >= '0', d[1] <= '9')))
	neg := sym.Bool("neg")
	low := uint64(d[0]-'0')*10 + uint64(d[1]-'0')
	s := "92233720368547758" + d // the largest is ...07, the smallest ...08
	if neg {
		s = "-" + s
	}
	got, err := opencorpora.Attr([]xml.Attr{{Name: xml.Name{Local: "i"}, Value: s}}).GetInt("i")
	fits := low <= 7
	if neg {
		fits = low <= 8
	}
	sym.Assert((err == nil) == fits, "a number which does not fit is an error, and no other")
	if err == nil {
		want := 9223372036854775800 + low
		if neg {
			want = -want
		}
		sym.Assert(uint64(got) == want, "the number is the one written")
	}
	_, err = opencorpora.Attr(nil).GetInt("i")
	sym.Assert(err != nil, "a missing attribute is an error")
	sym.Cover("done")
}

// C25_Names: lists of 0-3 categories with arbitrary names of 0, 1 or 4 bytes: their names, those of a form made of them and of
// its tags are the same, in order; a grammeme's tag has its name and parent.
// verif: budget=60
func C25_Names() {
	n := sym.Choose("n", 4)
	w := []int{0, 1, 4}[sym.Choose("len", 3)]
	var list opencorpora.CategoryList
	var want []dag.TagName
	for i := 0; i < n; i++ {
		name := dag.TagName(sym.String("name", w))
		list = append(list, &opencorpora.Category{VAttr: name})
		want = append(want, name)
	}
	f := opencorpora.WordForm{Form: "a", G: list}
	for _, got := range [][]dag.TagName{list.GrammemeNames(), f.GetTagsFromSet()} {
		sym.Assert(len(got) == n, "as many names as categories")
		for i := range got {
			sym.Assert(got[i] == want[i], "the names are those of the categories, in order")
		}
	}
	if n > 1 {
		g := opencorpora.Grammeme{ParentAttr: want[0], Name: want[1], Alias: "x", Description: "y"}
		t := g.Tag()
		if w == 0 {
			want[0] = dag.EmptyTagName // how "no parent" is written in a tag
		}
		sym.Assert(t.Name == want[1] && t.Parent == want[0], "a grammeme's tag has its name and parent")
	}
	sym.Cover("done")
}

// C25_Search: lists of 0-3 (thorough: 0-4) lemmas, any of them missing, with base forms of 1-2 arbitrary bytes and any number; any
// word of 1-2 bytes: exactly the lemmas with that base form, in order.
// verif: budget=60
func C25_Search() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	w := 1 + sym.Choose("len", 2)
	var list opencorpora.LemmaList
	for i, n := 0, sym.Choose("n", max); i < n; i++ {
		if sym.Bool("nil") {
			list = append(list, nil)
			continue
		}
		list = append(list, &opencorpora.Lemma{IdAttr: i / 2, RevAttr: int(sym.U8("rev")), L: opencorpora.WordForm{Form: sym.String("form", w)}})
	}
	q := sym.String("q", 1+sym.Choose("qLen", 2))
	got := opencorpora.Lemmata{Items: list}.Search(q)
	k := 0
	for _, l := range list {
		if l == nil || l.L.Form != q {
			continue
		}
		sym.Assert(k < len(got), "every lemma with the base form is found")
		sym.Assert(got[k].IdAttr == l.IdAttr && got[k].RevAttr == l.RevAttr && got[k].L.Form == q, "what is found are the lemmas, in order")
		k++
	}
	sym.Assert(k == len(got), "nothing else is found")
	sym.Cover("done")
}

// C25_Digits: numbers of 4 to 6 arbitrary digits, of 7 to 18 of which the first two and the last two are arbitrary, and of 20 to 30 of which the last two are arbitrary and those before are zeros, with or without a sign:
// exactly the number written.
// verif: budget=90
func C25_Digits() {
	n := 4 + sym.Choose("len", 15)
	zeros := 0
	if sym.Bool("zeros") {
		zeros, n = n+12, 2
		if zeros > 28 {
			return
		}
	}
	d := sym.String("d", n)
	want := 0
	for i := 0; i < n; i++ {
		if n > 6 && i > 1 && i < n-2 {
			sym.Assume(d[i] == byte('0'+i%10))
		}
		sym.Assume(sym.And(d[i] >= '0', d[i] <= '9'))
		want = want*10 + int(d[i]-'0')
	}
	s := d
	for i := 0; i < zeros; i++ {
		s = "0" + s
	}
	switch sym.Choose("sign", 3) {
	case 1:
		s = "+" + s
	case 2:
		s, want = "-"+s, -want
	}
	got, err := opencorpora.Attr([]xml.Attr{{Name: xml.Name{Local: "i"}, Value: s}}).GetInt("i")
	sym.Assert(err == nil, "a number is one")
	sym.Assert(got == want, "the number is the one written")
	sym.Cover("done")
}

// C25_Many: lists of 8, 33 or 100 attributes, categories and lemmas, of which one (the first, one amid or the last) has an arbitrary name of 3 bytes: it is found exactly under
// it, all others under theirs, and names are in order.
// verif: budget=90
func C25_Many() {
	n := []int{8, 33, 100}[sym.Choose("n", 3)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	nth := func(i int) string { return string([]byte{'a' + byte(i/26), 'a' + byte(i%26), 'x'}) }
	var a []xml.Attr
	var list opencorpora.CategoryList
	var lemmas opencorpora.LemmaList
	var all []string
	for i := 0; i < n; i++ {
		s := nth(i)
		if i == at {
			s = sym.String("name", 3)
		}
		all = append(all, s)
		a = append(a, xml.Attr{Name: xml.Name{Local: s}, Value: nth(i)})
		list = append(list, &opencorpora.Category{VAttr: dag.TagName(s)})
		lemmas = append(lemmas, &opencorpora.Lemma{IdAttr: i, L: opencorpora.WordForm{Form: s}})
	}
	for _, i := range []int{0, 1, at, n - 1} {
		first := i
		for j := n - 1; j >= 0; j-- {
			if all[j] == all[i] {
				first = j
			}
		}
		got, err := opencorpora.Attr(a).GetString(all[i])
		sym.Assert(err == nil && got == nth(first), "the value of the first attribute with the name is returned")
		found := opencorpora.Lemmata{Items: lemmas}.Search(all[i])
		k := 0
		for j := range all {
			if all[j] == all[i] {
				sym.Assert(k < len(found) && found[k].IdAttr == j, "what is found are the lemmas, in order")
				k++
			}
		}
		sym.Assert(k == len(found), "nothing else is found")
	}
	names := list.GrammemeNames()
	tags := opencorpora.WordForm{Form: "a", G: list}.GetTagsFromSet()
	sym.Assert(len(names) == n && len(tags) == n, "as many names as categories")
	for i := range all {
		sym.Assert(names[i] == dag.TagName(all[i]) && tags[i] == names[i], "the names are those of the categories, in order")
	}
	sym.Cover("done")
}
