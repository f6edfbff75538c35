package hindex

import (
	"sort"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// largeTags is the number of tags of a large dictionary.
const largeTags = 200

func largeTag(i int) dag.TagName {
	return dag.TagName([]byte{'T', byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
}

// largeWord is a word of a large dictionary with its lists of tags, each in ascending order.
type largeWord struct {
	word  []rune
	lists [][]int
}

func sameList(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// large is a dictionary of 90 words over some 280 nodes and 200 tags: words which share beginnings, one of 70 letters and one which leaves it
// in the middle, letters of up to 4 bytes; words without lists, with some, and one with 40; lists of up to 9 tags, one of 100.
func large() (words []largeWord) {
	chain := make([]rune, 70)
	for i := range chain {
		chain[i] = rune(0x430 + i%32)
	}
	fork := append(append([]rune{}, chain[:40]...), 'x', 'y')
	for i := 0; i < 90; i++ {
		w := make([]rune, 1+i%5)
		for k := range w {
			switch k {
			case 0:
				w[k] = rune(0x450 + i%45)
			case 1:
				w[k] = rune(0x1f600 + i%9)
			default:
				w[k] = rune('a' + (i+k)%4)
			}
		}
		e := largeWord{word: w}
		for j := 0; j < i%3; j++ {
			e.lists = append(e.lists, largeList(1+(i*j)%9, i*31+j*17))
		}
		words = append(words, e)
	}
	many := largeWord{word: chain}
	for j := 0; j < 40; j++ {
		many.lists = append(many.lists, largeList(1+j%3, j*5))
	}
	return append(words, many, largeWord{word: fork, lists: [][]int{largeList(100, 3)}})
}

func largeList(n, from int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = (from + i*13) % largeTags
	}
	sort.Ints(l)
	return l
}

// place returns the place of the word in the dictionary, which is new or known (splits the path).
func place(words []largeWord, w []rune) ([]largeWord, int) {
	for i := range words {
		if sameRunes(words[i].word, w) {
			return words, i
		}
	}
	return append(words, largeWord{word: w}), len(words)
}

func (e *largeWord) attach(l []int) {
	for _, o := range e.lists {
		if sameList(o, l) {
			return
		}
	}
	e.lists = append(e.lists, l)
}

// enter adds the word and its lists, each backwards, to the index.
func enter(x *index.Index, e largeWord) {
	n, err := x.AddRunes(e.word)
	sym.Assert(err == nil, "a word is added")
	for _, l := range e.lists {
		names := make([]dag.TagName, len(l))
		for i, t := range l {
			names[len(l)-1-i] = largeTag(t)
		}
		sym.Assert(n.AddTagSet(names...) == nil, "known tags are attached")
	}
}

// largeIndex is the index of the large dictionary and of one more word, which has an arbitrary letter at the start, in the middle of the long word, or
// at its end, and one list: of one tag or of 1 to 3 with one tag out of some; it is entered before, amid or after the others.
func largeIndex(tags, when []int, letters bool) (*index.Index, []largeWord, []rune) {
	x, words, probe, _ := largeIndexes(tags, when, letters, nil)
	return x, words, probe
}

// largeIndexes makes the index, and another one alike with something done to it after each addition.
func largeIndexes(tags, when []int, letters bool, disturb func(*index.Index, largeWord)) (*index.Index, []largeWord, []rune, *index.Index) {
	all := large()
	x, y := index.New(), index.New()
	for i := 0; i < largeTags; i++ {
		x.TagID(largeTag(i), "POST")
		y.TagID(largeTag(i), "POST")
	}
	probe := []rune{0x4e01}
	if letters {
		probe = cyr("letter", 1)
	}
	chain := all[90].word
	switch sym.Choose("shape", 3) {
	case 1:
		probe = append(append(append([]rune{}, chain[:40]...), probe...), 'z')
	case 2:
		probe = append(append([]rune{}, chain...), probe...)
	}
	tag := tags[sym.Choose("tag", len(tags))]
	one := largeWord{word: probe, lists: [][]int{{tag}}}
	if sym.Bool("more") {
		one.lists = append(one.lists, []int{tag, 199}, []int{5, 18, 31})
		if tag == 0 {
			one.lists[2] = []int{0, 5, 18}
		}
	}
	at := when[sym.Choose("when", len(when))]
	var words []largeWord
	for i := 0; i <= len(all); i++ {
		var e largeWord
		if i == at {
			enter(x, one)
			e = one
		} else {
			k := i
			if i > at {
				k--
			}
			enter(x, all[k])
			e = all[k]
		}
		if disturb != nil {
			enter(y, e)
			disturb(y, e)
		}
		var k int
		words, k = place(words, e.word)
		for _, l := range e.lists {
			words[k].attach(l)
		}
	}
	return x, words, probe, y
}

// checkLarge compares the index with the dictionary.
func checkLarge(x *index.Index, words []largeWord, what string) {
	tagged := 0
	for _, e := range words {
		n, err := x.FetchRunes(e.word)
		sym.Assert(err == nil, what+": every word added is found")
		sym.Assert(n.Word() == string(e.word), what+": the node found spells the word")
		sets := n.TagSets()
		sym.Assert(len(sets) == len(e.lists), what+": as many tag sets are found as were attached")
		for _, s := range sets {
			got := make([]int, len(s))
			for i, t := range s {
				sym.Assert(len(t.Name) == 4 && t.Parent == "POST", what+": tags have name and parent")
				got[i] = int(t.Name[1]-'0')*100 + int(t.Name[2]-'0')*10 + int(t.Name[3]-'0')
			}
			sort.Ints(got)
			known := false
			for _, l := range e.lists {
				known = known || sameList(got, l)
			}
			sym.Assert(known, what+": every tag set found was attached")
		}
		for i := range sets { // all different, so with the same number they are the same sets
			for j := 0; j < i; j++ {
				sym.Assert(!sameTagSet(sets[i], sets[j]), what+": no tag set is shown twice")
			}
		}
		if len(e.lists) > 0 {
			tagged++
		}
	}
	sym.Assert(x.WordsCount() == tagged, what+": the number of words is that of tagged words")
}

func sameTagSet(a, b dag.TagSet) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C01_Large: a dictionary of 90 words (one of 70 letters, one with 40 lists, one with a list of 100 tags out of 200, some 280 nodes) and a word with an
// arbitrary letter in one of 3 places, entered before, amid or after the others, with 1 or 3 lists: every word has exactly its lists; the
// word without its last letter and with another one is found if and only if it was added.
// verif: budget=120
func C01_Large() {
	x, words, probe := largeIndex([]int{0, 13, 128, 199}, []int{0, 37, 92}, true)
	checkLarge(x, words, "large")
	q := append(append([]rune{}, probe...), 'z')
	_, err := x.FetchRunes(q)
	known := false
	for _, e := range words {
		known = sym.Or(known, prefixOf(q, e.word))
	}
	sym.Assert((err == nil) == known, "large: found exactly when it is a prefix of an added word")
	sym.Cover("done")
}

// C02_Large: the same dictionary, the word with 1 or 3 lists and entered before or after the others: saved and loaded, every word has exactly its lists,
// nodes their numbers, and it is saved alike again; after one more list for a word, in both, they are saved alike too.
// verif: budget=120
func C02_Large() {
	x, words, probe := largeIndex([]int{0, 199}, []int{0, 92}, true)
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	y := index.New()
	sym.Assert(load(y, b) == nil, "the index written is read")
	checkLarge(y, words, "loaded")
	sym.Assert(y.NodesCount() == x.NodesCount(), "loaded: as many nodes")
	for _, e := range words {
		n, _ := x.FetchRunes(e.word)
		o, _ := y.FetchRunes(e.word)
		sym.Assert(n.(*index.Node).Id() == o.(*index.Node).Id(), "loaded: nodes keep their numbers")
	}
	c, err := save(y)
	sym.Assert(err == nil && sameBytes(b, c), "what was loaded is saved alike")
	for _, z := range []*index.Index{x, y} {
		enter(z, largeWord{word: probe, lists: [][]int{{7, 8, 9}}})
	}
	b, err = save(x)
	c, errC := save(y)
	sym.Assert(err == nil && errC == nil && sameBytes(b, c), "extended alike they are saved alike")
	sym.Cover("done")
}

// C03_Large: the same dictionary, which leaves many combinations unused, optimized, optimized again after one more list for a word, and loaded:
// every word has exactly its lists.
// verif: budget=120
func C03_Large() {
	x, words, probe := largeIndex([]int{0, 199}, []int{0, 92}, true)
	nodes := x.NodesCount()
	x.Optimize()
	checkLarge(x, words, "optimized")
	sym.Assert(x.NodesCount() == nodes, "optimized: as many nodes")
	one := largeWord{word: probe, lists: [][]int{{7, 8, 9}}}
	enter(x, one)
	words, k := place(words, probe)
	words[k].attach(one.lists[0])
	if sym.Bool("again") {
		x.Optimize()
	}
	checkLarge(x, words, "extended")
	checkLarge(reload(x, "reload"), words, "loaded")
	sym.Cover("done")
}

func sameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	return eq
}

// manySide letters at every place of a word: all their words of 3 make up more nodes than 16 bits number.
const manySide = 41

// manyNode is a node of the model, by number.
type manyNode struct {
	parent int
	letter rune
}

// manyNodes is an index of 70643 nodes: all words of up to 3 letters, added in order, and the nodes expected.
func manyNodes() (*index.Index, []manyNode) {
	const n = manySide
	x := newIndex()
	nodes := []manyNode{{}}
	first, second := 0, 0
	for i := 0; i < n*n*n; i++ {
		w := []rune{rune(0x430 + i/(n*n)), rune('a' + i/n%n), rune(0x4e00 + i%n)}
		_, err := x.AddRunes(w)
		sym.Assert(err == nil, "a word is added")
		if i%(n*n) == 0 {
			first = len(nodes)
			nodes = append(nodes, manyNode{0, w[0]})
		}
		if i%n == 0 {
			second = len(nodes)
			nodes = append(nodes, manyNode{first, w[1]})
		}
		nodes = append(nodes, manyNode{second, w[2]})
	}
	return x, nodes
}

// manyIDs are numbers at both ends and on both sides of what 15 and 16 bits express.
var manyIDs = []int{1, 2, 3, 44, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 70642, 70643}

func checkMany(x *index.Index, nodes []manyNode, id int, what string) {
	d, err := x.Get(dag.ID(id))
	sym.Assert(err == nil, what+": every number given out is found")
	it := d.(*index.Node).Item()
	sym.Assert(int(it.ID) == id && int(it.Parent) == nodes[id].parent && it.Letter == nodes[id].letter, what+": a node keeps its number, letter and parent")
	word := []rune{}
	for k := id; k != 0; k = nodes[k].parent {
		word = append([]rune{nodes[k].letter}, word...)
	}
	sym.Assert(d.Word() == string(word), what+": a node spells its parent's word and its letter")
	f, err := x.FetchRunes(word)
	sym.Assert(err == nil && int(f.(*index.Node).Id()) == id, what+": a word is found at its node")
	for r, c := range x.GetChildrenMap(dag.ID(id)) {
		k := int(c.(*index.Node).Id())
		sym.Assert(k < len(nodes) && nodes[k].parent == id && nodes[k].letter == r, what+": only children are listed as children")
	}
	if len(word) < 3 {
		sym.Assert(len(x.GetChildrenMap(dag.ID(id))) == manySide, what+": all children are listed")
	}
}

// C20_Many: an index of 70643 nodes, more than 16 bits number, also saved and loaded: the nodes at both ends and around the limits of 15 and 16 bits have
// the numbers, letters, parents and children they were given; below each of them an arbitrary new letter is the next node; no number above the last is found.
// verif: budget=120 steps=200000000 workers=3
func C20_Many() {
	x, nodes := manyNodes()
	what := "many"
	if sym.Bool("loaded") {
		x = reload(x, "reload")
		what = "loaded"
	}
	sym.Assert(x.NodesCount() == len(nodes)-1, what+": as many nodes as distinct prefixes")
	for _, id := range manyIDs {
		checkMany(x, nodes, id, what)
	}
	id := sym.U32("id")
	sym.Assume(int(id) >= len(nodes))
	_, err := x.Get(dag.ID(id))
	sym.Assert(err != nil, what+": a number never given out is an error")
	_, err = x.AddToNode(dag.ID(id), []rune{'x'})
	sym.Assert(err != nil, what+": adding below a node which does not exist is an error")
	l := cyr("letter", 1)
	for _, id := range manyIDs {
		if id == 1 {
			continue
		}
		d, err := x.AddToNode(dag.ID(id), l)
		sym.Assert(err == nil && int(d.(*index.Node).Id()) == len(nodes), what+": new nodes are numbered consecutively")
		nodes = append(nodes, manyNode{id, l[0]})
		it := d.(*index.Node).Item()
		sym.Assert(int(it.Parent) == id && it.Letter == l[0], what+": a new node has the letter and parent given")
		o, err := x.AddToNode(dag.ID(id), l)
		sym.Assert(err == nil && o.(*index.Node).Id() == d.(*index.Node).Id(), what+": the same prefix is the same node")
	}
	sym.Assert(x.NodesCount() == len(nodes)-1, what+": as many nodes as distinct prefixes")
	sym.Cover("done")
}

// C15_Large: the dictionary of C01_Large: words and nodes are counted exactly, also after optimizing, saving and loading, and repeating words.
// verif: budget=120
func C15_Large() {
	x, words, probe := largeIndex([]int{0}, []int{37}, true)
	tagged := 0
	var prefixes [][]rune
	for _, e := range words {
		if len(e.lists) > 0 {
			tagged++
		}
		if sameRunes(e.word, probe) {
			continue
		}
		for k := 1; k <= len(e.word); k++ {
			known := false
			for _, p := range prefixes {
				if len(p) == k && string(p) == string(e.word[:k]) {
					known = true
					break
				}
			}
			if !known {
				prefixes = append(prefixes, e.word[:k])
			}
		}
	}
	nodes := len(prefixes)
	for k := 1; k <= len(probe); k++ {
		known := false
		for _, p := range prefixes {
			known = sym.Or(known, sameRunes(p, probe[:k]))
		}
		if !known {
			nodes++
		}
	}
	count := func(what string) {
		sym.Assert(x.WordsCount() == tagged, what+": the number of words is that of tagged words")
		sym.Assert(x.NodesCount() == nodes, what+": the number of nodes is that of prefixes")
	}
	count("large")
	switch sym.Choose("then", 3) {
	case 0:
		x.Optimize()
		count("optimized")
	case 1:
		x = reload(x, "reload")
		count("loaded")
		x.Optimize()
		count("loaded and optimized")
	}
	for _, e := range words {
		enter(x, e)
	}
	count("repeated")
	sym.Cover("done")
}

// C19_Large: to a word of the dictionary of C01_Large, one with 1 or 3 lists or one with 40, a list of 1, 2, 12, 200 or 255 tags is attached, the first, the last
// or one amid of them with an arbitrary unknown name of 4 bytes: it is refused, and the index is written exactly as before.
// verif: budget=120
func C19_Large() {
	x, words, probe := largeIndex([]int{0}, []int{92}, false)
	before, err := save(x)
	sym.Assert(err == nil, "the index is written")
	word := probe
	if sym.Bool("long") {
		for _, e := range words {
			if len(e.word) == 70 {
				word = e.word
			}
		}
	}
	n := []int{1, 2, 12, 200, 255}[sym.Choose("n", 5)]
	l := make([]dag.TagName, n)
	for i := range l {
		l[i] = largeTag((i * 7) % largeTags)
	}
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	l[at] = dag.TagName(sym.String("tag", 4))
	known := false
	for i := 0; i < largeTags; i++ {
		known = sym.Or(known, l[at] == largeTag(i))
	}
	sym.Assume(sym.Not(known))
	d, err := x.FetchRunes(word)
	sym.Assert(err == nil, "every word added is found")
	sym.Assert(d.AddTagSet(l...) != nil, "a list with an unknown tag is refused")
	after, err := save(x)
	sym.Assert(err == nil && sameBytes(before, after), "a refused tag set changes nothing")
	sym.Cover("refused")
}
