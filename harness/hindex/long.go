package hindex

import (
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// longWords is the number of words of longIndex, and of its tag sets of two and its combinations of one.
const longWords = 300

func longWord(i int) []rune { return []rune{rune(0x4e00 + i/20), rune('a' + i%20)} }

// longPair is the tag set of a word of longIndex: all pairs differ.
func longPair(i int) (a, b int) { return i % 25, 25 + i/25 }

// longIndex is an index of 300 words, each with a pair of tags of its own and so with a combination of its own (more than 8 bits number), of which one has an arbitrary
// letter; every third word has the pair of the one before it too.
func longIndex() (*index.Index, [][]rune) {
	x := index.New()
	for i := 0; i < 40; i++ {
		x.TagID(largeTag(i), "POST")
	}
	at := []int{0, 127, 255, 256, 299}[sym.Choose("probe", 5)]
	var words [][]rune
	for i := 0; i < longWords; i++ {
		w := longWord(i)
		if i == at {
			w = append(w, cyr("letter", 1)...)
		}
		words = append(words, w)
		n, err := x.AddRunes(w)
		sym.Assert(err == nil, "a word is added")
		a, b := longPair(i)
		sym.Assert(n.AddTagSet(largeTag(b), largeTag(a)) == nil, "known tags are attached")
		if i%3 == 2 {
			a, b := longPair(i - 1)
			sym.Assert(n.AddTagSet(largeTag(a), largeTag(b)) == nil, "known tags are attached")
		}
	}
	return x, words
}

func checkLong(x *index.Index, words [][]rune, what string) {
	for i, w := range words {
		n, err := x.FetchRunes(w)
		sym.Assert(err == nil && n.Word() == string(w), what+": every word added is found and spelt")
		sets := n.TagSets()
		want := 1
		if i%3 == 2 {
			want = 2
		}
		sym.Assert(len(sets) == want, what+": as many tag sets are found as were attached")
		for k := 0; k < want; k++ {
			a, b := longPair(i - k)
			seen := false
			for _, s := range sets {
				seen = seen || len(s) == 2 && (s[0].Name == largeTag(a) && s[1].Name == largeTag(b) || s[1].Name == largeTag(a) && s[0].Name == largeTag(b))
			}
			sym.Assert(seen, what+": the tag sets found are those attached")
		}
	}
	sym.Assert(x.WordsCount() == len(words), what+": the number of words is that of tagged words")
}

// C01_Long: 300 words, each with a pair of tags of its own, every third with the one before it too; one word has an arbitrary letter: every word has exactly its tag sets.
// verif: budget=60
func C01_Long() {
	x, words := longIndex()
	checkLong(x, words, "long")
	sym.Cover("done")
}

// C02_Long: the index of C01_Long, saved and loaded: every word has exactly its tag sets, and it is saved alike, also after one more tag set for an arbitrary word.
// verif: budget=60
func C02_Long() {
	x, words := longIndex()
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	y := index.New()
	sym.Assert(load(y, b) == nil, "the index written is read")
	checkLong(y, words, "loaded")
	for _, z := range []*index.Index{x, y} {
		n, err := z.FetchRunes(words[297])
		sym.Assert(err == nil && n.AddTagSet(largeTag(7)) == nil, "known tags are attached")
	}
	b, err = save(x)
	c, errC := save(y)
	sym.Assert(err == nil && errC == nil && sameBytes(b, c), "extended alike they are saved alike")
	sym.Cover("done")
}

// C03_Long: the index of C01_Long optimized (a third of its combinations are unused), extended, optimized again, saved and loaded: every word has exactly its tag sets.
// verif: budget=60
func C03_Long() {
	x, words := longIndex()
	x.Optimize()
	checkLong(x, words, "optimized")
	n, err := x.AddRunes([]rune("zz"))
	sym.Assert(err == nil && n.AddTagSet(largeTag(1), largeTag(30)) == nil, "a word is added")
	x.Optimize()
	y := reload(x, "reload")
	n, err = y.FetchRunes([]rune("zz"))
	sym.Assert(err == nil && len(n.TagSets()) == 1 && len(n.TagSets()[0]) == 2, "a word added is found")
	sym.Assert(n.TagSets()[0][0].Name == largeTag(1) && n.TagSets()[0][1].Name == largeTag(30), "with its tags")
	for i, w := range words {
		n, err := y.FetchRunes(w)
		o, errO := x.FetchRunes(w)
		sym.Assert(err == nil && errO == nil, "every word added is found")
		s, t := n.TagSets(), o.TagSets()
		sym.Assert(len(s) == len(t) && len(s) == 1+i%3/2, "loaded: the same tag sets")
		for k := range s {
			sym.Assert(sameTagSet(s[k], t[k]), "loaded: the same tag sets")
		}
	}
	sym.Cover("done")
}

// C02_ManyNodes: the index of C20_Many, of 70643 nodes, with tags at the nodes around the limits of 15 and 16 bits, saved and loaded: they have the same numbers, letters, parents, children and tags, and it is saved alike.
// verif: budget=120 steps=200000000 workers=3
func C02_ManyNodes() {
	x, nodes := manyNodes()
	for i, id := range manyIDs {
		sym.Assert(x.GetItem(dag.ID(id)).AddTagSet(tagNames[i%3], tagNames[i%2]) == nil, "known tags are attached")
	}
	l := cyr("letter", 1)
	n, err := x.AddToNode(70643, l)
	sym.Assert(err == nil && n.AddTagSet("NOUN") == nil, "a word is added")
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	y := index.New()
	sym.Assert(load(y, b) == nil, "the index written is read")
	sym.Assert(y.NodesCount() == len(nodes) && y.WordsCount() == len(manyIDs)+1, "loaded: as many nodes and words")
	for i, id := range manyIDs {
		if id < 70643 {
			checkMany(y, nodes, id, "loaded")
		}
		s := y.GetItem(dag.ID(id)).TagSets()
		sym.Assert(len(s) == 1 && len(s[0]) == 2, "loaded: the same tag sets")
		a, c := s[0][0].Name, s[0][1].Name
		sym.Assert(a == tagNames[i%3] && c == tagNames[i%2] || c == tagNames[i%3] && a == tagNames[i%2], "loaded: the same tags")
	}
	o, err := y.FetchFromItem(70643, l)
	sym.Assert(err == nil && o.(*index.Node).Id() == n.(*index.Node).Id() && len(o.TagSets()) == 1, "loaded: the last word is found")
	c, err := save(y)
	sym.Assert(err == nil && len(b) == len(c), "what was loaded is saved alike")
	same := true
	for i := range b {
		if b[i] != c[i] {
			same = false
			break
		}
	}
	sym.Assert(same, "what was loaded is saved alike")
	sym.Cover("done")
}

// C15_Many: 68921 words (70643 nodes), each with one tag, and one of an arbitrary letter that begins none of them, added once or twice, also saved and loaded: words and nodes are counted exactly.
// verif: budget=120 steps=400000000 workers=3
func C15_Many() {
	x := newIndex()
	const n = 41
	for i := 0; i < n*n*n; i++ {
		w := []rune{rune(0x430 + i/(n*n)), rune('a' + i/n%n), rune(0x4e00 + i%n)}
		d, err := x.AddRunes(w)
		sym.Assert(err == nil && d.AddTagSet(tagNames[i%3]) == nil, "a word is added and tagged")
		if i == 65535 || i == 65536 || i == n*n*n-1 {
			sym.Assert(x.WordsCount() == i+1, "the number of words is that of tagged words")
		}
	}
	words, nodes := n*n*n, n+n*n+n*n*n
	l := cyr("letter", 1)
	sym.Assume(sym.Or(l[0] < 0x430, l[0] >= 0x430+n))
	for i := 0; i < 2; i++ {
		d, err := x.AddRunes(l)
		sym.Assert(err == nil && d.AddTagSet("NOUN") == nil, "a word is added and tagged")
		sym.Assert(x.WordsCount() == words+1, "the number of words is that of tagged words")
		sym.Assert(x.NodesCount() == nodes+1, "the number of nodes is that of prefixes")
	}
	x = reload(x, "reload")
	sym.Assert(x.WordsCount() == words+1, "loaded: the number of words is that of tagged words")
	sym.Assert(x.NodesCount() == nodes+1, "loaded: the number of nodes is that of prefixes")
	sym.Cover("done")
}
