package hindex

import (
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// C01_Words: 2 words of 1 to 3 arbitrary code points each (thorough: 3 words), no tag sets, then a lookup of 0 to 3
// arbitrary code points: as a whole, from an inner node, one by one through the children, and by both node lookups.
// verif: budget=90
func C01_Words() {
	x := index.New()
	m := &model{}
	words := 2
	if sym.Thorough() {
		words = 3
	}
	for i := 0; i < words; i++ {
		w := anyRunes("w", 1+sym.Choose("len", 3))
		n, err := x.AddRunes(w)
		sym.Assert(err == nil && n != nil, "a word is added")
		m.add(w)
	}
	q := anyRunes("q", sym.Choose("qlen", 4))
	n, err := x.FetchRunes(q)
	sym.Assert((err == nil) == m.known(q), "found exactly when it is a prefix of an added word")
	id := dag.ID(0)
	through := true // one by one through the children
	for _, r := range q {
		c, ok := x.GetChildrenIDMap(id)[r]
		if !ok {
			through = false
			break
		}
		id = c
	}
	sym.Assert((err == nil) == (through && len(q) > 0), "lookup agrees with the children maps")
	p, perr := x.FetchItemFromParent(0, q)
	sym.Assert((perr == nil) == (err == nil), "both lookups agree")
	if err != nil {
		sym.Cover("missing")
		return
	}
	sym.Assert(n.(*index.Node).Id() == id && p.Id() == id, "every way of looking up leads to the same node")
	// letters from the node back to the root spell the word
	for i := len(q) - 1; i >= 0; i-- {
		sym.Assert(x.GetItem(id).Item().Letter == q[i], "the letters back to the root are those of the word")
		id = x.GetItem(id).Item().Parent
	}
	sym.Assert(id == 0, "the letters back to the root are those of the word")
	if len(q) == 3 {
		k := 1 + sym.Choose("cut", 2)
		h, err := x.FetchRunes(q[:k])
		sym.Assert(err == nil, "prefixes of a found word are found")
		r, err := x.FetchFromItem(h.(*index.Node).Id(), q[k:])
		sym.Assert(err == nil && r.(*index.Node).Id() == n.(*index.Node).Id(), "lookup from an inner node leads to the same node")
	}
	sym.Cover("found")
}

// C01_Strings: one text (thorough: two) of 0 to 2 arbitrary bytes added and one of 0 to 2 looked up as text: as the
// code points the text decodes to; an empty text is refused.
// verif: budget=60
func C01_Strings() {
	texts := 1
	if sym.Thorough() {
		texts = 2
	}
	x := index.New()
	m := &model{}
	for i := 0; i < texts; i++ {
		s := sym.String("s", sym.Choose("len", 3))
		n, err := x.AddString(s)
		sym.Assert((err == nil) == (len(s) > 0), "only an empty text is refused")
		if err == nil {
			m.add([]rune(s))
			sym.Assert(n.Word() == string([]rune(s)), "the node of a text spells it")
		}
	}
	q := sym.String("q", sym.Choose("qlen", 3))
	n, err := x.FetchString(q)
	sym.Assert((err == nil) == m.known([]rune(q)), "found exactly when it is a prefix of an added word")
	if err == nil {
		sym.Assert(n.Word() == string([]rune(q)), "the node found spells the word")
		sym.Cover("found")
	}
	sym.Observe("found", err == nil)
}

// C01_Spelling: one word of 1 to 3 arbitrary code points: every node on the way spells its prefix, shows itself
// without a crash, and is found under its text.
// verif: budget=60
func C01_Spelling() {
	x := index.New()
	w := anyRunes("w", 1+sym.Choose("len", 3))
	n, err := x.AddRunes(w)
	sym.Assert(err == nil && n.Word() == string(w), "the node of a word spells it")
	k := 1 + sym.Choose("k", len(w))
	p, err := x.FetchString(string(w[:k]))
	sym.Assert(err == nil && p.Word() == string(w[:k]), "every prefix is found under its text")
	sym.Observe("shown", p.String())
	sym.Cover("done")
}

// C01_TagSets: 3 attachments (thorough: 4) of lists of 1 or 2 tags (of 3 tags, with repetition and in any order) to
// words of 1 or 2 arbitrary Cyrillic letters; all words (thorough: and an arbitrary word of 1 or 2 letters) are checked
// afterwards.
// verif: budget=90
func C01_TagSets() {
	x := newIndex()
	m := &model{}
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		w := cyr("w", 1+sym.Choose("len", 2))
		n, err := x.AddRunes(w)
		sym.Assert(err == nil, "a word is added")
		max := 2
		if i > 0 {
			max = 1
		}
		l, c := tagList(max)
		sym.Assert(n.AddTagSet(l...) == nil, "known tags are attached")
		m.add(w).attach(c)
	}
	m.check(x, "end")
	if sym.Thorough() {
		m.query(x, cyr("q", 1+sym.Choose("qlen", 2)), "end")
	}
	sym.Cover("done")
}

// C01_Sharing: 5 (thorough: 6) attachments of one of two tags, each to any of three words; all words are checked afterwards.
// verif: budget=60
func C01_Sharing() {
	x := newIndex()
	m := &model{}
	words := [][]rune{{0x430}, {0x430, 0x431}, {0x432}}
	steps := 5
	if sym.Thorough() {
		steps = 6
	}
	for i := 0; i < steps; i++ {
		w := words[sym.Choose("word", 3)]
		n, err := x.AddRunes(w)
		sym.Assert(err == nil, "a word is added")
		t := sym.Choose("tag", 2)
		sym.Assert(n.AddTagSet(tagNames[t]) == nil, "known tags are attached")
		var c [3]int
		c[t] = 1
		m.add(w).attach(c)
	}
	m.check(x, "end")
	sym.Cover("done")
}

// C01_ManySets: one word that gets 4 (thorough: 5) arbitrary lists of 1 or 2 tags, and another that shares its first
// letter and gets one list after the second (thorough: any) of them.
// verif: budget=90
func C01_ManySets() {
	x := newIndex()
	m := &model{}
	w, v := []rune{0x430, 0x431}, []rune{0x430, 0x432}
	steps := 4
	if sym.Thorough() {
		steps = 5
	}
	between := 1
	if sym.Thorough() {
		between = sym.Choose("between", steps)
	}
	for i := 0; i < steps; i++ {
		n, err := x.AddRunes(w)
		sym.Assert(err == nil, "a word is added")
		l, c := tagList(2)
		sym.Assert(n.AddTagSet(l...) == nil, "known tags are attached")
		m.add(w).attach(c)
		if i == between {
			n, err := x.AddRunes(v)
			sym.Assert(err == nil, "a word is added")
			sym.Assert(n.AddTagSet(l[0]) == nil, "known tags are attached")
			_, c := tagCount(l[0])
			m.add(v).attach(c)
		}
	}
	m.check(x, "end")
	sym.Cover("done")
}

func tagCount(t dag.TagName) (int, [3]int) {
	var c [3]int
	for k := range tagNames {
		if tagNames[k] == t {
			c[k]++
			return k, c
		}
	}
	return -1, c
}

// C01_Between: a word of 1 or 2 arbitrary Cyrillic letters is looked up in every way, as are its tag sets and the nodes below it, before and after each of 3 steps,
// each adding one of 2 such words or attaching one of 2 tags to it: every lookup answers as the additions so far demand.
// verif: budget=90
func C01_Between() {
	x := newIndex()
	m := &model{}
	words := [][]rune{cyr("a", 1), cyr("b", 1+sym.Choose("len", 2))}
	q := cyr("q", 1+sym.Choose("qlen", 2))
	look := func() {
		m.query(x, q, "between")
		known := m.known(q)
		_, err := x.FetchString(string(q))
		sym.Assert((err == nil) == known, "between: found exactly when it is a prefix of an added word")
		_, err = x.FetchItemFromParent(0, q)
		sym.Assert((err == nil) == known, "between: found exactly when it is a prefix of an added word")
		_, ok := x.Children()[q[0]]
		sym.Assert(ok == m.known(q[:1]), "between: the root's children are the first letters")
		if len(q) == 2 {
			if h, err := x.FetchRunes(q[:1]); err == nil {
				_, err = x.FetchFromItem(h.(*index.Node).Id(), q[1:])
				sym.Assert((err == nil) == known, "between: lookup from an inner node agrees")
				_, ok = x.GetChildrenMap(h.(*index.Node).Id())[q[1]]
				sym.Assert(ok == known, "between: children agree")
			}
		}
	}
	look()
	for i := 0; i < 3; i++ {
		k := sym.Choose("step", 6)
		w := words[k%2]
		n, err := x.AddRunes(w)
		sym.Assert(err == nil, "a word is added")
		e := m.add(w)
		if k > 1 {
			t := k/2 - 1
			c := [3]int{}
			c[t] = 1
			sym.Assert(n.AddTagSet(tagNames[t]) == nil, "known tags are attached")
			e.attach(c)
		}
		look()
	}
	sym.Cover("done")
}
