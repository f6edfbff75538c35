package hindex

import (
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

var foreign = dag.Tag{Parent: "QQQQ", Name: "ZZZZ"}

// scribble changes everything a lookup returned, within its length and its capacity.
func scribble(sets []dag.TagSet, children dag.NodeMap) {
	for i, s := range sets {
		for k := range s[:cap(s)] {
			s[:cap(s)][k] = foreign
		}
		sets[i] = append(s, foreign)
		if i%2 == 1 {
			sets[i] = nil
		}
	}
	if cap(sets) > len(sets) {
		sets[:len(sets)+1][len(sets)] = dag.TagSet{foreign}
	}
	for r := range children {
		delete(children, r)
		break
	}
	if children != nil {
		children['q'] = nil
	}
}

// unspoilt reports whether the children of a node are listed as they are.
func unspoilt(x *index.Index, id dag.ID) bool {
	got, want := x.GetChildrenMap(id), x.GetChildrenIDMap(id)
	if len(got) != len(want) {
		return false
	}
	for r, n := range got {
		if r == 'q' || n == nil {
			return false
		}
	}
	return true
}

// C29_Results: an index of 2 words of 1 or 2 arbitrary letters, each with up to 2 lists, the first one too of 2 tags; possibly loaded or optimized. The tag sets
// of every node and its children, looked up twice, are overwritten, extended, removed from: what was got the other time and what is
// looked up afterwards is as before, also after one more attachment, and saved or loaded it is as without.
// verif: budget=150
func C29_Results() {
	x, m := build(2, 2)
	if e := &m.words[0]; sym.Bool("second") {
		l, c := tagList(2)
		d, err := x.FetchRunes(e.word)
		sym.Assert(err == nil && d.AddTagSet(l...) == nil, "known tags are attached")
		e.attach(c)
	}
	what := "new"
	switch sym.Choose("then", 3) {
	case 1:
		x, what = reload(x, "reload"), "loaded"
	case 2:
		x.Optimize()
		what = "optimized"
	}
	before, err := save(x)
	sym.Assert(err == nil, what+": the index is written")
	for _, e := range m.words {
		d, err := x.FetchRunes(e.word)
		sym.Assert(err == nil, what+": every word added is found")
		a, b := d.TagSets(), d.TagSets()
		scribble(a, x.GetChildrenMap(d.(*index.Node).Id()))
		got, ok := counts(b)
		sym.Assert(ok && sameSets(got, e.sets), what+": two results share nothing")
		sym.Assert(unspoilt(x, d.(*index.Node).Id()), what+": children are listed as they are")
		scribble(b, x.Children())
		sym.Assert(unspoilt(x, 0), what+": children are listed as they are")
	}
	m.check(x, what+", results changed")
	m.query(x, cyr("q", 1), what+", results changed")
	after, err := save(x)
	sym.Assert(err == nil && sameBytes(before, after), what+": it is written as if results had not been changed")
	d, err := x.FetchRunes(m.words[0].word)
	sym.Assert(err == nil, what+": every word added is found")
	held := d.TagSets()
	sym.Assert(d.AddTagSet("gent", "gent", "plur") == nil, "known tags are attached")
	x.Optimize()
	got, ok := counts(held)
	sym.Assert(ok && sameSets(got, m.words[0].sets), what+": a result is not changed by what is added later")
	m.words[0].attach([3]int{0, 1, 2})
	m.check(x, what+", extended")
	sym.Cover("done")
}

// C29_Arguments: 2 words of 1 or 2 arbitrary letters, the second added below the first or not, with a list of 1 or 2 tags each, in slices with spare room that are overwritten after every call
// (adding, attaching, looking up); the bytes it is loaded from too: all answers are those for what was given.
// verif: budget=60
func C29_Arguments() {
	x, m := newIndex(), &model{}
	names := make([]dag.TagName, 2, 8)
	letters := make([]rune, 2, 8)
	for i := 0; i < 2; i++ {
		w := cyr("w", 1+sym.Choose("len", 2))
		l, c := tagList(2)
		n := copy(letters, w)
		var d dag.Node
		var err error
		if i == 1 && sym.Bool("below") {
			p, errP := x.FetchRunes(m.words[0].word)
			sym.Assert(errP == nil, "every word added is found")
			d, err = x.AddToNode(p.(*index.Node).Id(), letters[:n])
			w = append(append([]rune{}, m.words[0].word...), w...)
		} else {
			d, err = x.AddRunes(letters[:n])
		}
		sym.Assert(err == nil, "a word is added")
		letters[0], letters[1] = 'q', 'z'
		k := copy(names, l)
		sym.Assert(d.AddTagSet(names[:k]...) == nil, "known tags are attached")
		for j := 0; j < k; j++ {
			sym.Assert(names[j] == l[j], "the list of tags is not changed")
		}
		sym.Assert(letters[0] == 'q' && letters[1] == 'z', "letters are not changed")
		names[0], names[1] = "gent", "ZZZZ"
		m.add(w).attach(c)
		n = copy(letters, w)
		_, err = x.FetchRunes(letters[:n])
		sym.Assert(err == nil && sameRunes(letters[:n], w[:n]), "letters looked up are not changed")
		letters[0] = 'q'
	}
	m.check(x, "arguments changed")
	m.checkCounts(x, "arguments changed")
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	c := append([]byte{}, b...)
	y := index.New()
	sym.Assert(load(y, c) == nil, "the index written is read")
	for i := range c {
		c[i] = 'Z'
	}
	m.check(y, "bytes changed")
	m.checkCounts(y, "bytes changed")
	d, err := save(y)
	sym.Assert(err == nil && sameBytes(b, d), "what was loaded is saved alike")
	sym.Cover("done")
}

// C29_Large: the large dictionary of C01_Large (with an arbitrary letter), possibly loaded: the tag sets of every word, and the children of its node, are
// overwritten as in C29_Results: every word has exactly its lists.
// verif: budget=120
func C29_Large() {
	x, words, _ := largeIndex([]int{0, 199}, []int{37}, true)
	what := "large"
	if sym.Bool("loaded") {
		x, what = reload(x, "reload"), "loaded"
	}
	for _, e := range words {
		d, err := x.FetchRunes(e.word)
		sym.Assert(err == nil, what+": every word added is found")
		scribble(d.TagSets(), x.GetChildrenMap(d.(*index.Node).Id()))
		sym.Assert(unspoilt(x, d.(*index.Node).Id()), what+": children are listed as they are")
	}
	scribble(nil, x.Children())
	sym.Assert(unspoilt(x, 0), what+": children are listed as they are")
	checkLarge(x, words, what+", results changed")
	sym.Cover("done")
}
