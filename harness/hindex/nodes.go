package hindex

import (
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// C15_Counts: 3 (thorough: 4) steps, each adding a word of 1 or 2 arbitrary Cyrillic letters with or without a tag, or
// optimizing, or saving and loading; the counts are exact after every step.
// verif: budget=90
func C15_Counts() {
	x := newIndex()
	m := &model{}
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	m.checkCounts(x, "empty")
	for i := 0; i < steps; i++ {
		k := sym.Choose("step", 4)
		if i == 0 && k > 1 {
			sym.Assume(false)
		}
		switch k {
		case 0, 1:
			w := cyr("w", 1+sym.Choose("len", 2))
			d, err := x.AddRunes(w)
			sym.Assert(err == nil, "a word is added")
			e := m.add(w)
			if k == 1 {
				l, c := tagList(1)
				sym.Assert(d.AddTagSet(l...) == nil, "known tags are attached")
				e.attach(c)
			}
		case 2:
			x.Optimize()
		case 3:
			x = reload(x, "reload")
		}
		m.checkCounts(x, "step")
	}
	sym.Cover("done")
}

// C15_Reload: an index of 1 or 2 words (1 or 2 arbitrary Cyrillic letters, tagged or not) is loaded from its saved form
// once or twice into the same index: the counts are those of the saved index.
// verif: budget=60
func C15_Reload() {
	x, m := build(1+sym.Choose("n", 2), 1)
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	y := index.New()
	for i, n := 0, 1+sym.Choose("times", 2); i < n; i++ {
		sym.Assert(load(y, b) == nil, "the index written is read")
	}
	m.checkCounts(y, "loaded")
	sym.Cover("done")
}

// C20_Numbers: 3 (thorough: 4) additions of 1 or 2 arbitrary Cyrillic letters at the root or below an arbitrary node:
// below nodes that do not exist nothing is added and an error returned; new nodes are numbered consecutively; the same
// prefix is the same node; nodes keep number, letter and parent; children listed are exactly the nodes with that parent; every
// unknown number is an error.
// verif: budget=90
func C20_Numbers() {
	x := index.New()
	type node struct {
		parent int
		letter rune
	}
	nodes := []node{{}} // the model, by number
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		w := cyr("w", 1+sym.Choose("len", 2))
		at := dag.ID(0)
		if i > 0 && sym.Bool("below") {
			at = dag.ID(sym.U32("at"))
		}
		before := x.NodesCount()
		d, err := x.AddToNode(at, w)
		sym.Assert((err == nil) == (int(at) < len(nodes)), "adding below a node fails exactly if it does not exist")
		if err != nil {
			sym.Assert(x.NodesCount() == before, "a refused addition adds nothing")
			sym.Assert(d == nil, "no node with an error")
			continue
		}
		cur := sym.Concretize(int(at))
		for _, r := range w {
			next := -1
			for j := 1; j < len(nodes); j++ {
				if nodes[j].parent == cur && nodes[j].letter == r {
					next = j
					break
				}
			}
			if next < 0 {
				next = len(nodes)
				nodes = append(nodes, node{cur, r})
			}
			cur = next
		}
		sym.Assert(int(d.(*index.Node).Id()) == cur, "new nodes are numbered consecutively and known ones keep their number")
		sym.Assert(x.NodesCount() == len(nodes)-1, "as many nodes as distinct prefixes")
	}
	kids := 0
	for j := 1; j < len(nodes); j++ {
		d, err := x.Get(dag.ID(j))
		sym.Assert(err == nil, "every number given out is found")
		it := d.(*index.Node).Item()
		sym.Assert(int(it.ID) == j && it.Letter == nodes[j].letter && int(it.Parent) == nodes[j].parent, "a node keeps its number, letter and parent")
		word := string(nodes[j].letter)
		if nodes[j].parent != 0 {
			p, _ := x.Get(dag.ID(nodes[j].parent))
			word = p.Word() + word
		}
		sym.Assert(d.Word() == word, "a node spells its parent's word and its letter")
		c, ok := x.GetChildrenMap(dag.ID(nodes[j].parent))[nodes[j].letter]
		sym.Assert(ok && int(c.(*index.Node).Id()) == j, "a node is listed below its parent")
	}
	for j := range nodes {
		kids += len(x.GetChildrenMap(dag.ID(j)))
		sym.Assert(len(x.GetChildrenIDMap(dag.ID(j))) == len(x.GetChildrenMap(dag.ID(j))), "both lists of children agree")
	}
	sym.Assert(kids == len(nodes)-1, "nothing else is listed below any node")
	id := dag.ID(sym.U32("id"))
	_, err := x.Get(id)
	sym.Assert((err == nil) == (int(id) < len(nodes)), "a number never given out is an error")
	sym.Cover("done")
}

// C20_Root: the root, also of a loaded index: spells nothing, has no tag sets, shows itself without a crash, takes no tags, and
// its children are the first letters.
func C20_Root() {
	x, _ := build(1, 1)
	if sym.Bool("loaded") {
		x = reload(x, "reload")
	}
	d, err := x.Get(0)
	sym.Assert(err == nil && d.Word() == "", "the root spells nothing")
	sym.Assert(len(d.TagSets()) == 0, "the root has no tag sets")
	sym.Assert(len(d.String()) > 0, "the root shows itself")
	sym.Assert(len(x.Children()) == 1, "the root's children are the first letters")
	words := x.WordsCount()
	sym.Assert(d.AddTagSet("NOUN") != nil, "the root takes no tags")
	sym.Assert(x.WordsCount() == words, "a refused tag set changes nothing")
	sym.Cover("done")
}

// C19_Unknown: an index of 1 or 2 words of 1 or 2 arbitrary Cyrillic letters, tagged or not; then a list of 0 to 3
// tags is attached to the first word, of which one at an arbitrary place has an arbitrary name of 4 bytes: if that is
// no known tag, or the list is empty, it is an error and the index is written exactly as before; otherwise it is attached.
// verif: budget=90
func C19_Unknown() {
	x, m := build(1+sym.Choose("n", 2), 1)
	before, err := save(x)
	sym.Assert(err == nil, "the index is written")
	words, nodes := x.WordsCount(), x.NodesCount()
	n := sym.Choose("ntags", 4)
	l := make([]dag.TagName, n)
	c := [3]int{}
	bad := n == 0
	if n > 0 {
		at := sym.Choose("at", n)
		for i := range l {
			l[i] = tagNames[i]
			if i == at {
				l[i] = dag.TagName(sym.String("tag", 4))
			}
			k, one := tagCount(l[i])
			if k < 0 {
				bad = true
			}
			for j := range c {
				c[j] += one[j]
			}
		}
	}
	d, err := x.FetchRunes(m.words[0].word)
	sym.Assert(err == nil, "every word added is found")
	given := append([]dag.TagName{}, l...)
	err = d.AddTagSet(l...)
	sym.Assert((err != nil) == bad, "refused exactly if a tag is unknown or there is none")
	for i := range l {
		sym.Assert(l[i] == given[i], "the list given stays as it was")
	}
	if err == nil {
		m.words[0].attach(c)
		m.check(x, "attached")
		sym.Cover("attached")
		return
	}
	after, serr := save(x)
	sym.Assert(serr == nil && string(after) == string(before), "a refused tag set changes nothing")
	sym.Assert(x.WordsCount() == words && x.NodesCount() == nodes, "a refused tag set changes no count")
	m.check(x, "refused")
	sym.Cover("refused")
}

// C19_NoNode: attaching tags to a node of an arbitrary number that does not exist is an error and changes nothing.
func C19_NoNode() {
	x, _ := build(1, 1)
	before, err := save(x)
	sym.Assert(err == nil, "the index is written")
	words := x.WordsCount()
	id := dag.ID(sym.U32("id"))
	sym.Assume(sym.Or(id == 0, int(id) > x.NodesCount()))
	sym.Assert(x.GetItem(id).AddTagSet("NOUN") != nil, "attaching to no word is refused")
	after, err := save(x)
	sym.Assert(err == nil && string(after) == string(before), "a refused tag set changes nothing")
	sym.Assert(x.WordsCount() == words, "a refused tag set changes no count")
	sym.Cover("refused")
}
