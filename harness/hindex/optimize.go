package hindex

import (
	"github.com/amarin/gomorphy/internal/index"
	"verif.test/v/sym"
)

// C03_History: 3 (thorough: 4) attachments of one arbitrary tag (of 3) or the pair of the first two tags to one of 2
// words, with optimizing before any of them or not, then optimizing: every word keeps its tag sets and nodes their numbers, spelling and
// counts; then one more attachment, optimizing again, saving and loading, with the same answers.
// verif: budget=90
func C03_History() {
	x := newIndex()
	m := &model{}
	words := [][]rune{{0x430}, {0x430, 0x431}}
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	attach := func() {
		w := words[sym.Choose("w", 2)]
		d, err := x.AddRunes(w)
		sym.Assert(err == nil, "a word is added")
		k := sym.Choose("tags", 4)
		if k < 3 {
			sym.Assert(d.AddTagSet(tagNames[k]) == nil, "known tags are attached")
			var c [3]int
			c[k] = 1
			m.add(w).attach(c)
		} else {
			sym.Assert(d.AddTagSet(tagNames[1], tagNames[0]) == nil, "known tags are attached")
			m.add(w).attach([3]int{1, 1, 0})
		}
	}
	for i := 0; i < steps; i++ {
		if i > 0 && sym.Bool("optimize") {
			x.Optimize()
			m.check(x, "optimized")
		}
		attach()
	}
	x.Optimize()
	m.check(x, "optimized")
	m.checkCounts(x, "optimized")
	attach()
	m.check(x, "extended")
	x.Optimize()
	m.check(x, "optimized twice")
	m.checkCounts(x, "optimized twice")
	y := reload(x, "reload")
	m.check(y, "loaded")
	m.checkCounts(y, "loaded")
	y.Optimize()
	m.check(y, "loaded and optimized")
	sym.Cover("done")
}

// C03_Groups: 4 (thorough: 5) words, one tag for each, then for any of them another one, which leaves combinations
// unused between used ones of the same size; then optimizing, once more after another attachment, and after loading:
// every word keeps its tag sets.
// verif: budget=120
func C03_Groups() {
	x := newIndex()
	m := &model{}
	words := [][]rune{{0x430}, {0x431}, {0x430, 0x432}, {0x433}}
	attach := func(i, k int) {
		d, err := x.AddRunes(words[i])
		sym.Assert(err == nil, "a word is added")
		sym.Assert(d.AddTagSet(tagNames[k]) == nil, "known tags are attached")
		var c [3]int
		c[k] = 1
		m.add(words[i]).attach(c)
	}
	if sym.Thorough() {
		words = append(words, []rune{0x431, 0x431})
	}
	var first [5]int
	for i := range words {
		first[i] = sym.Choose("first", 3)
		attach(i, first[i])
	}
	for i := range words {
		if sym.Bool("more") {
			attach(i, (first[i]+1+sym.Choose("second", 2))%3)
		}
	}
	x.Optimize()
	m.check(x, "optimized")
	m.checkCounts(x, "optimized")
	attach(1, 0)
	x.Optimize()
	m.check(x, "optimized twice")
	y := reload(x, "reload")
	m.check(y, "loaded")
	sym.Cover("done")
}

// C03_Words: 2 (thorough: 3) words of 1 or 2 arbitrary Cyrillic letters with one or two lists of one tag each, and an
// arbitrary word of 1 or 2 letters looked up after optimizing.
// verif: budget=90
func C03_Words() {
	x := newIndex()
	m := &model{}
	words := 2
	if sym.Thorough() {
		words = 3
	}
	for i := 0; i < words; i++ {
		w := cyr("w", 1+sym.Choose("len", 2))
		for j, n := 0, 1+sym.Choose("lists", 2); j < n; j++ {
			d, err := x.AddRunes(w)
			sym.Assert(err == nil, "a word is added")
			l, c := tagList(1)
			sym.Assert(d.AddTagSet(l...) == nil, "known tags are attached")
			m.add(w).attach(c)
		}
	}
	nodes := x.NodesCount()
	x.Optimize()
	sym.Assert(x.NodesCount() == nodes, "optimizing keeps the number of nodes")
	m.check(x, "optimized")
	m.checkCounts(x, "optimized")
	m.query(x, cyr("q", 1+sym.Choose("qlen", 2)), "optimized")
	sym.Cover("done")
}

// C03_Untouched: an index of 0 to 2 words of 1 or 2 arbitrary Cyrillic letters with 0 or 1 list each, in which nothing is
// unused, is written alike before and after optimizing; so is an empty one.
// verif: budget=60
func C03_Untouched() {
	x, m := build(sym.Choose("n", 3), 1)
	var y *index.Index
	if sym.Bool("loaded") {
		y = reload(x, "reload")
	} else {
		y = x
	}
	before, err := save(y)
	sym.Assert(err == nil, "the index is written")
	tagged := 0
	for _, e := range m.words {
		if len(e.sets) > 1 {
			tagged++
		}
	}
	y.Optimize()
	after, err := save(y)
	sym.Assert(err == nil, "the optimized index is written")
	if tagged == 0 {
		sym.Assert(len(before) == len(after), "an index with nothing unused keeps its size")
	}
	sym.Assert(len(after) <= len(before), "optimizing never makes an index bigger")
	m.check(y, "optimized")
	m.checkCounts(y, "optimized")
	sym.Cover("done")
}
