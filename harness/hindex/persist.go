package hindex

import (
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// build makes an index of n words of 1 or 2 arbitrary Cyrillic letters, each with 0 or 1 list of tags (the first one with up to
// max tags).
func build(n, max int) (*index.Index, *model) {
	x := newIndex()
	m := &model{}
	for i := 0; i < n; i++ {
		w := cyr("w", 1+sym.Choose("len", 2))
		d, err := x.AddRunes(w)
		sym.Assert(err == nil, "a word is added")
		e := m.add(w)
		if sym.Bool("tagged") {
			l, c := tagList(max)
			sym.Assert(d.AddTagSet(l...) == nil, "known tags are attached")
			e.attach(c)
		}
		max = 1
	}
	return x, m
}

// same compares two indexes node by node.
func same(x, y *index.Index, what string) {
	sym.Assert(x.NodesCount() == y.NodesCount(), what+": same number of nodes")
	sym.Assert(x.WordsCount() == y.WordsCount(), what+": same number of words")
	for i := 1; i <= x.NodesCount(); i++ {
		a, aerr := x.Get(dag.ID(i))
		b, berr := y.Get(dag.ID(i))
		sym.Assert(aerr == nil && berr == nil, what+": every node is there")
		p, q := a.(*index.Node).Item(), b.(*index.Node).Item()
		sym.Assert(sym.And(p.ID == q.ID, sym.And(p.Parent == q.Parent, p.Letter == q.Letter)), what+": nodes keep number, parent and letter")
		sa, sb := a.TagSets(), b.TagSets()
		ca, oka := counts(sa)
		cb, okb := counts(sb)
		sym.Assert(oka && okb && sameSets(ca, cb), what+": nodes keep their tag sets")
	}
	for i := 0; i <= x.NodesCount(); i++ {
		ka, kb := x.GetChildrenMap(dag.ID(i)), y.GetChildrenMap(dag.ID(i))
		sym.Assert(len(ka) == len(kb), what+": nodes keep their children")
	}
	tx, ty := x.Tags(), y.Tags()
	sym.Assert(tx.Len() == ty.Len(), what+": same number of tags")
	for i := range tx {
		sym.Assert(tx[i] == ty[i], what+": tags keep their IDs, names and parents")
	}
}

// C02_RoundTrip: every index of 0 to 2 (thorough: 3) words of 1 or 2 arbitrary Cyrillic letters with 0 or 1 list of up to 2 tags
// each: saved and loaded, it has the same nodes, tags and counts, answers an arbitrary lookup of 1 or 2 letters like
// the model, and so does the original.
// verif: budget=90
func C02_RoundTrip() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	x, m := build(sym.Choose("n", n), 2)
	y := reload(x, "reload")
	same(x, y, "reload")
	m.check(y, "loaded")
	m.checkCounts(y, "loaded")
	q := cyr("q", 1+sym.Choose("qlen", 2))
	m.query(y, q, "loaded")
	m.query(x, q, "original")
	sym.Cover("done")
}

// C02_Letters: every index of one word of 1 to 2 arbitrary code points: saved and loaded, an arbitrary word of 1 or 2 arbitrary code
// points is found exactly if it was before.
// verif: budget=60
func C02_Letters() {
	x := newIndex()
	m := &model{}
	w := anyRunes("w", 1+sym.Choose("len", 2))
	d, err := x.AddRunes(w)
	sym.Assert(err == nil, "a word is added")
	sym.Assert(d.AddTagSet("NOUN") == nil, "known tags are attached")
	_, c := tagCount("NOUN")
	m.add(w).attach(c)
	y := reload(x, "reload")
	q := anyRunes("q", 1+sym.Choose("qlen", 2))
	_, err = y.FetchRunes(q)
	sym.Assert((err == nil) == m.known(q), "loaded: found exactly when it is a prefix of an added word")
	same(x, y, "reload")
	m.checkCounts(y, "loaded")
	sym.Cover("done")
}

// C02_Extend: an index of 1 word of 1 or 2 arbitrary Cyrillic letters is saved and loaded, then both are given the same
// further word of 1 or 2 arbitrary Cyrillic letters with an arbitrary tag list: they number and answer alike; then both are
// saved, giving the same bytes.
// verif: budget=60
func C02_Extend() {
	x, m := build(1, 2)
	y := reload(x, "reload")
	w := cyr("more", 1+sym.Choose("len", 2))
	l, c := tagList(2)
	for _, z := range []*index.Index{x, y} {
		d, err := z.AddRunes(w)
		sym.Assert(err == nil, "a word is added to a loaded index")
		sym.Assert(d.AddTagSet(l...) == nil, "tags are attached in a loaded index")
	}
	m.add(w).attach(c)
	same(x, y, "extended")
	m.check(y, "extended")
	m.checkCounts(y, "extended")
	bx, ex := save(x)
	by, ey := save(y)
	sym.Assert(ex == nil && ey == nil, "both are written")
	sym.Assert(string(bx) == string(by), "both are written alike")
	sym.Cover("done")
}

// C02_Used: an index that holds a word of its own (1 or 2 arbitrary Cyrillic letters, tagged) is loaded from the saved
// form of another of 1 such word: it answers as the other, not as itself.
// verif: budget=60
func C02_Used() {
	x, m := build(1, 1)
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	y := newIndex()
	d, err := y.AddRunes(cyr("old", 1+sym.Choose("len", 2)))
	sym.Assert(err == nil, "a word is added")
	sym.Assert(d.AddTagSet("plur") == nil, "known tags are attached")
	sym.Assert(load(y, b) == nil, "the index written is read")
	same(x, y, "reload")
	m.check(y, "loaded")
	m.checkCounts(y, "loaded")
	m.query(y, cyr("q", 1+sym.Choose("qlen", 2)), "loaded")
	sym.Cover("done")
}

// C02_Faults: an index of two tagged words in two tables of tag sets and combinations, written to a destination that stops after an arbitrary number of bytes (with
// an error or by a short write), for good or only for one write: success means everything was written.
// verif: budget=60
func C02_Faults() {
	x := newIndex()
	d, _ := x.AddRunes(cyr("w", 2))
	sym.Assert(d.AddTagSet("NOUN", "plur") == nil, "known tags are attached")
	d, _ = x.AddRunes([]rune("z"))
	sym.Assert(d.AddTagSet("gent") == nil && d.AddTagSet("gent", "gent") == nil, "known tags are attached")
	full, err := save(x)
	sym.Assert(err == nil, "the index is written")
	limit := sym.Choose("limit", len(full)+2)
	w := &sink{limit: limit, short: sym.Bool("short"), once: sym.Bool("once")}
	err = x.BinaryWriteTo(newWriter(w))
	sym.Assert((err == nil) == (limit >= len(full)), "a failing destination is reported")
	if err == nil {
		sym.Assert(string(w.buf) == string(full), "writing twice writes the same")
	}
	sym.Cover("done")
}

// C02_TooManySets: a word is given 255 or 256 tag sets: the last one is either refused at once or the index refused
// when saved (never for 255), or it loads back with all of them.
// verif: budget=60
func C02_TooManySets() {
	x := index.New()
	var names []dag.TagName
	for i := 0; i < 12; i++ {
		names = append(names, dag.TagName([]byte{'T', 'A', 'G', 'a' + byte(i)}))
		x.TagID(names[i], "POST")
	}
	d, _ := x.AddString("слово")
	n := 255 + sym.Choose("n", 2)
	k := 0
	for a := 0; a < 12 && k < n; a++ {
		for b := a; b < 12 && k < n; b++ {
			for c := b; c < 12 && k < n; c++ {
				err := d.AddTagSet(names[a], names[b], names[c])
				sym.Assert(err == nil || k >= 255, "known tags are attached")
				k++
				if err != nil {
					n--
					sym.Cover("refused")
				}
			}
		}
	}
	b, err := save(x)
	if err != nil {
		sym.Assert(n > 255, "a word with 255 tag sets is written")
		sym.Cover("refused")
		return
	}
	y := index.New()
	sym.Assert(load(y, b) == nil, "the index written is read")
	f, err := y.FetchString("слово")
	sym.Assert(err == nil, "loaded: every word added is found")
	sym.Assert(len(f.TagSets()) == n, "loaded: the tag sets found are those attached")
	sym.Cover("done")
}

// C02_LongSet: a tag list of 254, 255, 256 or 257 tags (an arbitrary one of which differs) attached to a word: refused when attached
// or saved (never up to 255), or loaded back complete.
// verif: budget=60
func C02_LongSet() {
	x := newIndex()
	d, _ := x.AddString("слово")
	n := 254 + sym.Choose("n", 4)
	l := make([]dag.TagName, n)
	for i := range l {
		l[i] = "NOUN"
	}
	l[[]int{0, n - 1}[sym.Choose("at", 2)]] = "plur"
	if err := d.AddTagSet(l...); err != nil {
		sym.Assert(n > 255, "a list of 255 tags is attached")
		return
	}
	b, err := save(x)
	if err != nil {
		sym.Assert(n > 255, "a list of 255 tags is written")
		return
	}
	y := index.New()
	sym.Assert(load(y, b) == nil, "the index written is read")
	f, err := y.FetchString("слово")
	sym.Assert(err == nil, "loaded: every word added is found")
	got, ok := counts(f.TagSets())
	sym.Assert(ok && sameSets(got, [][3]int{{n - 1, 1, 0}}), "loaded: the tag sets found are those attached")
	sym.Cover("done")
}

// C02_ManyTags: an index with 255 or 256 tags is refused when saved (never for 255) or loads back with the same tags.
// verif: budget=60
func C02_ManyTags() {
	x := index.New()
	n := 255 + sym.Choose("n", 2)
	for i := 0; i < n; i++ {
		x.TagID(dag.TagName([]byte{'T', 'a' + byte(i>>6), 'a' + byte(i>>3&7), 'a' + byte(i&7)}), "POST")
	}
	b, err := save(x)
	if err != nil {
		sym.Assert(n > 255, "an index with 255 tags is written")
		sym.Cover("refused")
		return
	}
	y := index.New()
	sym.Assert(load(y, b) == nil, "the index written is read")
	same(x, y, "reload")
	sym.Cover("done")
}
