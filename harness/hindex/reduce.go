package hindex

import (
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// tagAll attaches the tag sets to the words in the order given, or in reverse.
func tagAll(x *index.Index, steps []tagStep, reverse bool) {
	for i := range steps {
		s := steps[i]
		if reverse {
			s = steps[len(steps)-1-i]
		}
		d, err := x.FetchRunes(s.word)
		sym.Assert(err == nil && d.AddTagSet(s.tags...) == nil, "known tags are attached")
	}
}

type tagStep struct {
	word []rune
	tags []dag.TagName
}

// C03_Room: 3 (thorough: 4) attachments of one of 3 tags to one of 2 words of 1 and 2 arbitrary Cyrillic letters, the second of which has all
// 3 before, or to the first and only one with tags, and to a second
// index the same in reverse: optimized, at once or loaded, both are written in as many bytes, as both hold the same, and an only
// word with more than one tag set in fewer than before.
// verif: budget=90
func C03_Room() {
	words := [][]rune{cyr("a", 1), cyr("b", 2)}
	x, y := newIndex(), newIndex()
	single := sym.Bool("single")
	for _, z := range []*index.Index{x, y} {
		for _, w := range words {
			_, err := z.AddRunes(w)
			sym.Assert(err == nil, "a word is added")
		}
		if single {
			continue
		}
		for _, t := range tagNames {
			n, _ := z.FetchRunes(words[1])
			sym.Assert(n.AddTagSet(t) == nil, "known tags are attached")
		}
	}
	n := 3
	if sym.Thorough() {
		n = 4
	}
	var steps []tagStep
	for i := 0; i < n; i++ {
		w := 0
		if !single {
			w = sym.Choose("w", 2)
		}
		steps = append(steps, tagStep{words[w], []dag.TagName{tagNames[sym.Choose("tag", 3)]}})
	}
	tagAll(x, steps, false)
	tagAll(y, steps, true)
	if sym.Bool("loaded") {
		x = reload(x, "reload")
	}
	before, err := save(x)
	sym.Assert(err == nil, "the index is written")
	x.Optimize()
	y.Optimize()
	b, err := save(x)
	c, errC := save(y)
	sym.Assert(err == nil && errC == nil, "the index is written")
	sym.Assert(len(b) == len(c), "what no word uses any more takes no room")
	if single {
		// what the word had before its last tag set no word has now
		d, err := x.FetchRunes(words[0])
		sym.Assert(err == nil, "every word added is found")
		if len(d.TagSets()) > 1 {
			sym.Assert(len(b) < len(before), "what no word uses any more takes no room")
		}
	}
	sym.Cover("done")
}

// C03_One: 250 words with one combination each, and a word tagged twice, which leaves one combination unused, or none as another word
// has it: optimized both indexes are written in as many bytes, and every word has its tag sets.
// verif: budget=60
func C03_One() {
	a, b := newIndex(), newIndex()
	last := cyr("last", 2)
	first := []rune{longWord(0)[0], last[1]}
	var sizes [2]int
	for k, x := range []*index.Index{a, b} {
		for i := 0; i < 40; i++ {
			x.TagID(largeTag(i), "")
		}
		x.TagID(largeTag(100), "")
		for i := 0; i < 250; i++ {
			p, q := longPair(i)
			n, err := x.AddRunes(longWord(i))
			sym.Assert(err == nil, "a word is added")
			sym.Assert(n.AddTagSet(largeTag(p), largeTag(q)) == nil, "known tags are attached")
		}
		_, err := x.AddRunes(first)
		sym.Assert(err == nil, "a word is added")
		_, err = x.AddRunes(last)
		sym.Assert(err == nil, "a word is added")
		p, q := longPair(7)
		tagAll(x, []tagStep{{last, []dag.TagName{largeTag(100)}}, {last, []dag.TagName{largeTag(p), largeTag(q)}}}, k == 1)
		x.Optimize()
		for i := 0; i < 250; i++ {
			p, q := longPair(i)
			n, err := x.FetchRunes(longWord(i))
			sym.Assert(err == nil && len(n.TagSets()) == 1, "every word keeps its tag sets")
			s := n.TagSets()[0]
			sym.Assert(len(s) == 2 && s[0].Name == largeTag(p) && s[1].Name == largeTag(q), "every word keeps its tag sets")
		}
		n, err := x.FetchRunes(last)
		sym.Assert(err == nil && len(n.TagSets()) == 2, "every word keeps its tag sets")
		data, err := save(x)
		sym.Assert(err == nil, "the index is written")
		sizes[k] = len(data)
	}
	sym.Assert(sizes[0] == sizes[1], "what no word uses any more takes no room")
	sym.Cover("done")
}

// C03_Shared: 700 words with the same combination, added after one which left a combination unused, and an arbitrary one of them
// with another: optimized, and optimized again after that, every word keeps its tag sets, also when saved and loaded.
// verif: budget=60
func C03_Shared() {
	x := newIndex()
	word := func(i int) []rune { return []rune{rune(0x430 + i/30), rune('a' + i%30)} }
	const n = 700
	other := []int{0, 254, 255, 256, 257, 511, 512, n - 1}[sym.Choose("other", 8)]
	d, err := x.AddRunes(cyr("w", 1))
	sym.Assert(err == nil && d.AddTagSet(tagNames[1]) == nil && d.AddTagSet(tagNames[2]) == nil, "a word is added and tagged")
	for i := 0; i < n; i++ {
		d, err := x.AddRunes(word(i))
		sym.Assert(err == nil && d.AddTagSet(tagNames[0]) == nil, "a word is added and tagged")
	}
	check := func(x *index.Index, more int) {
		for i := 0; i < n; i++ {
			d, err := x.FetchRunes(word(i))
			sym.Assert(err == nil, "every word added is found")
			s := d.TagSets()
			want := 1
			if i == other {
				want += more // all of them
			}
			sym.Assert(len(s) == want, "every word keeps its tag sets")
			for k := range s {
				sym.Assert(len(s[k]) == 1, "every word keeps its tag sets")
				name := s[k][0].Name
				sym.Assert(name == tagNames[0] || want > 1 && (name == tagNames[1] || name == tagNames[2]), "every word keeps its tag sets")
				sym.Assert(k == 0 || name != s[k-1][0].Name, "every word keeps its tag sets")
			}
		}
	}
	x.Optimize()
	check(x, 0)
	for k := 1; k < 3; k++ {
		d, err := x.FetchRunes(word(other))
		sym.Assert(err == nil && d.AddTagSet(tagNames[k]) == nil, "a word is tagged")
	}
	x.Optimize()
	check(x, 2)
	check(reload(x, "reload"), 2)
	sym.Cover("done")
}
