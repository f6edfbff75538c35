package hindex

import (
	"github.com/amarin/binutils"
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// disturb does to an index what must not show in its saved form; w is the last word added, with the tag t.
func disturb(x *index.Index, words [][]rune, w []rune, t dag.TagName) *index.Index {
	switch sym.Choose("disturbance", 8) {
	case 0: // looking up
		for _, q := range words {
			_, _ = x.FetchRunes(q)
			_, _ = x.FetchString(string(q))
			_, _ = x.FetchRunes(append(append([]rune{}, q...), 'z'))
		}
		_, _ = x.FetchRunes(nil)
	case 1: // listing
		for i := 0; i <= x.NodesCount()+1; i++ {
			_ = x.GetChildrenMap(dag.ID(i))
			if n, err := x.Get(dag.ID(i)); err == nil {
				_, _ = n.TagSets(), n.Word()
			}
		}
		_, _ = x.Tags(), x.TagSetIndex().TableIDs()
		_, _ = x.Variants(1)
		_ = x.Children()
	case 2: // refused tag sets
		n, _ := x.FetchRunes(w)
		sym.Assert(n.AddTagSet("none") != nil, "an unknown tag is refused")
		sym.Assert(n.AddTagSet(t, "none") != nil, "an unknown tag is refused")
		sym.Assert(n.AddTagSet() != nil, "no tag is refused")
	case 3: // adding again
		for _, q := range words {
			if _, err := x.FetchRunes(q); err == nil {
				_, err = x.AddRunes(q)
				sym.Assert(err == nil, "a known word is added again")
			}
		}
		n, err := x.AddString(string(w))
		sym.Assert(err == nil && n.AddTagSet(t) == nil, "a known word is tagged again")
		x.TagID("NOUN", "POST")
	case 4: // refused words and nodes
		_, err := x.AddRunes(nil)
		_, err2 := x.AddString("")
		sym.Assert(err != nil && err2 != nil, "no word is refused")
		_, err = x.AddToNode(dag.ID(x.NodesCount()+1), w)
		sym.Assert(err != nil, "an unknown node is refused")
		_, err = x.Get(dag.ID(x.NodesCount() + 7))
		sym.Assert(err != nil, "an unknown node is refused")
	case 5: // saving
		_, err := save(x)
		sym.Assert(err == nil, "the index is written")
		_ = x.BinaryWriteTo(binutils.NewBinaryWriter(&sink{limit: sym.Choose("limit", 2) * 60}))
	case 6: // saving and loading
		return reload(x, "reload")
	case 7: // optimizing what was just optimized or loaded needs to change nothing more
		x.Optimize()
		b, _ := save(x)
		x.Optimize()
		c, _ := save(x)
		sym.Assert(string(b) == string(c), "optimizing again changes nothing")
		sym.Stop()
	}
	return x
}

// C28_History: 3 (thorough: 4) steps, each attaching one of 2 tags to one of 2 words of 1 and 1 or 2 arbitrary Cyrillic letters, or optimizing;
// to a second index the same is done with, after any one of the steps, lookups, listings, refused calls, calls repeated, saving (also in vain),
// or saving and loading: both are saved alike, twice, and so is what is loaded from it; the order of every map is arbitrary.
// verif: budget=120 maporder
func C28_History() {
	words := [][]rune{cyr("a", 1), cyr("b", 1+sym.Choose("len", 2))}
	x, y := newIndex(), newIndex()
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	at := sym.Choose("at", steps)
	any := false
	var w []rune
	var t dag.TagName
	for i := 0; i < steps; i++ {
		if k := sym.Choose("step", 5); k == 4 {
			if !any {
				sym.Stop()
			}
			x.Optimize()
			y.Optimize()
		} else {
			w, t = words[k/2], tagNames[k%2]
			for _, z := range []*index.Index{x, y} {
				n, err := z.AddRunes(w)
				sym.Assert(err == nil && n.AddTagSet(t) == nil, "a word is added and tagged")
			}
			any = true
		}
		if i == at {
			y = disturb(y, words, w, t)
		}
	}
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	c, err := save(y)
	sym.Assert(err == nil, "the index is written")
	sym.Assert(string(b) == string(c), "indexes made alike are written alike")
	c, err = save(x)
	sym.Assert(err == nil && string(b) == string(c), "an index is written alike again")
	c, err = save(reload(x, "reload"))
	sym.Assert(err == nil && string(b) == string(c), "what is loaded is written alike")
	sym.Cover("done")
}

// C28_Optimize: 4 (thorough: 5) words with one tag each, then another one for any of them, optimized: it is written alike whatever the order of
// any map, like an index loaded before optimizing, and optimizing again changes nothing.
// verif: budget=120 maporder
func C28_Optimize() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	make := func() *index.Index {
		x := newIndex()
		for i := 0; i < n; i++ {
			d, err := x.AddRunes([]rune{rune('a' + i)})
			sym.Assert(err == nil && d.AddTagSet(tagNames[i%3]) == nil, "a word is added and tagged")
		}
		return x
	}
	x, y := make(), make()
	if sym.Bool("loaded") {
		y = reload(y, "reload")
	}
	for i := 0; i < n; i++ {
		k := sym.Choose("more", 3)
		for _, z := range []*index.Index{x, y} {
			d, err := z.FetchRunes([]rune{rune('a' + i)})
			sym.Assert(err == nil, "a word added is found")
			if k > 0 {
				sym.Assert(d.AddTagSet(tagNames[(i+k)%3]) == nil, "another tag is attached")
			}
		}
	}
	x.Optimize()
	y.Optimize()
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	c, err := save(y)
	sym.Assert(err == nil && string(b) == string(c), "indexes made alike are written alike")
	y.Optimize()
	c, err = save(y)
	sym.Assert(err == nil && string(b) == string(c), "optimizing again changes nothing")
	sym.Cover("done")
}

// C28_Large: the dictionary of C01_Large (with an arbitrary letter where words are added again, or the index is loaded and optimized): whatever is looked up, listed, refused, added again, saved, or saved and loaded, it is written alike; loaded or not it is optimized
// alike, and optimizing again changes nothing.
// verif: budget=120
func C28_Large() {
	k := sym.Choose("disturbance", 5)
	x, words, probe := largeIndex([]int{0}, []int{92}, k >= 3)
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	switch k {
	case 0:
		for _, e := range words {
			_, err := x.FetchRunes(e.word)
			sym.Assert(err == nil, "a word added is found")
			_, _ = x.FetchString(string(e.word) + "z")
			_, _ = x.FetchRunes(e.word[:len(e.word)-1])
		}
		_, _ = x.FetchRunes(append(probe, 'y'))
	case 1:
		for i := 0; i <= x.NodesCount()+1; i++ {
			_ = x.GetChildrenMap(dag.ID(i))
			if n, err := x.Get(dag.ID(i)); err == nil {
				_, _ = n.TagSets(), n.Word()
			}
		}
		_, _ = x.Tags(), x.TagSetIndex().TableIDs()
	case 2:
		for _, e := range words {
			n, _ := x.FetchRunes(e.word)
			sym.Assert(n.AddTagSet(largeTag(3), "none") != nil && n.AddTagSet() != nil, "an unknown tag, or none, is refused")
		}
	case 3:
		for _, e := range words {
			enter(x, e)
		}
	case 4:
		y := reload(x, "reload")
		x.Optimize()
		y.Optimize()
		b, err = save(x)
		sym.Assert(err == nil, "the index is written")
		c, err := save(y)
		sym.Assert(err == nil && sameBytes(b, c), "loaded or not it is optimized alike")
		x.Optimize()
	}
	c, err := save(x)
	sym.Assert(err == nil && sameBytes(b, c), "it is written alike")
	c, err = save(x)
	sym.Assert(err == nil && sameBytes(b, c), "it is written alike again")
	c, err = save(reload(x, "reload"))
	sym.Assert(err == nil && sameBytes(b, c), "what is loaded is written alike")
	sym.Cover("done")
}

// C28_Amid: two indexes of the dictionary of C01_Large are made alike; after every addition to the second one all words so far, or only the one added, are looked up and
// read, or it is listed, or written: both are saved alike, and still after more lists were attached to all words of both.
// verif: budget=120
func C28_Amid() {
	var known [][]rune
	k := sym.Choose("disturbance", 4)
	x, words, _, y := largeIndexes([]int{0}, []int{0, 92}, false, func(y *index.Index, e largeWord) {
		read := func(w []rune) {
			n, err := y.FetchRunes(w)
			sym.Assert(err == nil, "a word added is found")
			_, _ = n.TagSets(), n.Word()
		}
		switch k {
		case 0:
			known = append(known, e.word)
			for i := len(known) % 5; i < len(known); i += 5 {
				read(known[i])
			}
		case 1:
			read(e.word)
		case 2:
			for i := 0; i <= y.NodesCount(); i += 3 {
				_ = y.GetChildrenMap(dag.ID(i))
				_ = y.GetItem(dag.ID(i)).TagSets()
			}
		case 3:
			if len(e.word) > 2 {
				_, err := save(y)
				sym.Assert(err == nil, "the index is written")
			}
		}
	})
	for i := 0; i < 2; i++ {
		b, err := save(x)
		sym.Assert(err == nil, "the index is written")
		c, err := save(y)
		sym.Assert(err == nil && sameBytes(b, c), "indexes made alike are written alike")
		for _, e := range words {
			for _, z := range []*index.Index{x, y} {
				enter(z, largeWord{word: e.word, lists: [][]int{{7, 8, 9}}})
			}
		}
	}
	sym.Cover("done")
}
