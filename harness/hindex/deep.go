package hindex

import (
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// deepPlaces are lengths at which beginnings of the word of 1000 letters are looked at.
var deepPlaces = []int{1, 2, 127, 128, 129, 254, 255, 256, 257, 511, 512, 998, 999, 1000}

// C01_Deep: a word of 1000 letters, of which one (of 8 places) is arbitrary, with a word which leaves it after 1, 128, 256 or 999 letters; possibly
// saved and loaded or optimized: beginnings of both are found and spelt, from the root and from
// each other, and nothing else is; the tag sets are where they were attached.
// verif: budget=60
func C01_Deep() {
	x := newIndex()
	w := make([]rune, 1000)
	for i := range w {
		w[i] = rune(0x430 + (i*i+i/7)%32)
	}
	l := cyr("letter", 1)[0]
	at := []int{0, 1, 127, 128, 255, 256, 998, 999}[sym.Choose("at", 8)]
	w[at] = l
	n, err := x.AddRunes(w)
	sym.Assert(err == nil && n.AddTagSet(tagNames[0], tagNames[1]) == nil, "a word is added")
	leave := []int{1, 128, 256, 999}[sym.Choose("leave", 4)]
	f := append(append([]rune{}, w[:leave]...), 'z', 'y')
	o, err := x.AddString(string(f))
	sym.Assert(err == nil && o.AddTagSet(tagNames[2]) == nil, "a word is added")
	what := "deep"
	switch sym.Choose("then", 3) {
	case 1:
		x, what = reload(x, "reload"), "loaded"
	case 2:
		x.Optimize()
		what = "optimized"
	}
	sym.Assert(x.NodesCount() == 1002, what+": as many nodes as distinct prefixes")
	for _, k := range deepPlaces {
		d, err := x.FetchRunes(w[:k])
		sym.Assert(err == nil && d.Word() == string(w[:k]), what+": a beginning of a word is found and spelt")
		e, err := x.FetchString(string(w[:k]))
		sym.Assert(err == nil && e.(*index.Node).Id() == d.(*index.Node).Id(), what+": a text finds the same node")
		want := 0
		if k == 1000 {
			want = 1
		}
		sym.Assert(len(d.TagSets()) == want, what+": the tag sets found are those attached")
		_, err = x.FetchRunes(append(append([]rune{}, w[:k]...), 'q'))
		sym.Assert(err != nil, what+": what is no beginning of a word is not found")
		g, err := x.FetchItemFromParent(0, w[:k])
		sym.Assert(err == nil && g.Id() == d.(*index.Node).Id(), what+": letters from the root find the same node")
		if k < 1000 {
			h, err := x.FetchFromItem(g.Id(), w[k:])
			sym.Assert(err == nil && h.Word() == string(w), what+": letters from a node find what follows it")
			g, err = x.FetchItemFromParent(g.Id(), w[k:])
			sym.Assert(err == nil && g.Id() == h.(*index.Node).Id(), what+": letters from a node find what follows it")
		}
	}
	_, err = x.FetchRunes(append(append([]rune{}, w...), l))
	sym.Assert(err != nil, what+": a word longer than those added is not found")
	d, err := x.FetchRunes(f)
	sym.Assert(err == nil && d.Word() == string(f) && len(d.TagSets()) == 1 && d.TagSets()[0][0].Name == tagNames[2], what+": the word which leaves it is found")
	d, err = x.FetchRunes(w)
	sym.Assert(err == nil && len(d.TagSets()[0]) == 2, what+": the long word has its tags")
	sym.Cover("done")
}

// C01_Wide: 300 letters at the root and 300 below each of the first and the last of them, of 3 and 4 bytes, one of them arbitrary; a third tagged;
// possibly saved and loaded or optimized: every letter is found where it was added and listed, with its tags, and no other.
// verif: budget=60
func C01_Wide() {
	x := newIndex()
	const n = 300
	l := cyr("letter", 1)[0]
	at := []int{0, 15, 128, 256, 299}[sym.Choose("at", 5)]
	letters := make([]rune, n)
	for i := range letters {
		letters[i] = rune(0x4e00 + i*5)
		if i%4 == 0 {
			letters[i] = rune(0x1f300 + i)
		}
	}
	letters[at] = l
	below := sym.Choose("below", 3)
	var prefix []rune
	if below > 0 {
		for i := 0; i < n; i++ {
			_, err := x.AddRunes([]rune{rune(0x3000 + i)})
			sym.Assert(err == nil, "a word is added")
		}
		prefix = []rune{0x3000}
		if below == 2 {
			prefix = []rune{0x3000 + n - 1}
		}
	}
	for i, r := range letters {
		d, err := x.AddRunes(append(append([]rune{}, prefix...), r))
		sym.Assert(err == nil, "a word is added")
		if i%3 == 0 {
			sym.Assert(d.AddTagSet(tagNames[i%2]) == nil, "a word is tagged")
		}
	}
	what := "wide"
	switch sym.Choose("then", 3) {
	case 1:
		x, what = reload(x, "reload"), "loaded"
	case 2:
		x.Optimize()
		what = "optimized"
	}
	parent := dag.ID(0)
	if below > 0 {
		p, err := x.FetchRunes(prefix)
		sym.Assert(err == nil, what+": every word added is found")
		parent = p.(*index.Node).Id()
	}
	children, ids := x.GetChildrenMap(parent), x.GetChildrenIDMap(parent)
	sym.Assert(len(children) == n && len(ids) == n, what+": all children are listed")
	for i, r := range letters {
		d, err := x.FetchRunes(append(append([]rune{}, prefix...), r))
		sym.Assert(err == nil && d.Word() == string(prefix)+string([]rune{r}), what+": every word added is found and spelt")
		c, ok := children[r]
		sym.Assert(ok && c.(*index.Node).Id() == d.(*index.Node).Id() && ids[r] == d.(*index.Node).Id(), what+": every child is listed under its letter")
		s := d.TagSets()
		if i%3 == 0 {
			sym.Assert(len(s) == 1 && len(s[0]) == 1 && s[0][0].Name == tagNames[i%2], what+": the tag sets found are those attached")
		} else {
			sym.Assert(len(s) == 0, what+": no tag set is found where none was attached")
		}
	}
	_, err := x.FetchRunes(append(append([]rune{}, prefix...), 'q'))
	sym.Assert(err != nil, what+": a letter not added is not found")
	sym.Cover("done")
}
