package hindex

import (
	"io"

	"github.com/amarin/binutils"
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// tagNames are the tags registered in the indexes of these harnesses.
var tagNames = []dag.TagName{"NOUN", "plur", "gent"}

func newIndex() *index.Index {
	x := index.New()
	for _, t := range tagNames {
		x.TagID(t, "POST")
	}
	return x
}

// cyr is a word of n arbitrary Cyrillic letters (all of 2 bytes in UTF-8).
func cyr(label string, n int) []rune {
	r := make([]rune, n)
	for i := range r {
		r[i] = rune(0x400 + uint32(sym.U8(label)))
	}
	return r
}

// anyRunes is a word of n arbitrary code points.
func anyRunes(label string, n int) []rune {
	r := make([]rune, n)
	for i := range r {
		r[i] = sym.Rune(label)
		sym.Assume(sym.And(r[i] >= 0, r[i] <= 0x10ffff))
		sym.Assume(sym.Or(r[i] < 0xd800, r[i] > 0xdfff))
	}
	return r
}

func sameRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	return eq
}

func prefixOf(p, w []rune) bool { return len(p) <= len(w) && sameRunes(p, w[:len(p)]) }

// entry is a word of the model with the tag sets attached to it, each a count per tag.
type entry struct {
	word []rune
	sets [][3]int
}

// model is the reference: what was added, in order.
type model struct{ words []entry }

// add returns the entry of the word, which is new or known (splits the path).
func (m *model) add(w []rune) *entry {
	for i := range m.words {
		if sameRunes(m.words[i].word, w) {
			return &m.words[i]
		}
	}
	m.words = append(m.words, entry{word: w})
	return &m.words[len(m.words)-1]
}

// known reports whether w is a non-empty prefix of an added word.
func (m *model) known(w []rune) bool {
	r := false
	for i := range m.words {
		r = sym.Or(r, prefixOf(w, m.words[i].word))
	}
	return r && len(w) > 0
}

func (e *entry) attach(s [3]int) {
	for _, o := range e.sets {
		if o == s {
			return
		}
	}
	e.sets = append(e.sets, s)
}

// tagged is the number of words with tag sets.
func (m *model) tagged() (n int) {
	for _, e := range m.words {
		if len(e.sets) > 0 {
			n++
		}
	}
	return n
}

// nodes is the number of distinct non-empty prefixes (splits the path).
func (m *model) nodes() int {
	var ps [][]rune
	for _, e := range m.words {
		for k := 1; k <= len(e.word); k++ {
			seen := false
			for _, p := range ps {
				seen = sym.Or(seen, sameRunes(p, e.word[:k]))
			}
			if !seen {
				ps = append(ps, e.word[:k])
			}
		}
	}
	return len(ps)
}

// tagList chooses a list of 1..max tags.
func tagList(max int) ([]dag.TagName, [3]int) {
	n := 1
	if max > 1 {
		n += sym.Choose("ntags", max)
	}
	var l []dag.TagName
	var c [3]int
	for i := 0; i < n; i++ {
		k := sym.Choose("tag", 3)
		l = append(l, tagNames[k])
		c[k]++
	}
	return l, c
}

// counts turns tag sets of a node into counts per tag.
func counts(sets []dag.TagSet) ([][3]int, bool) {
	var r [][3]int
	ok := true
	for _, s := range sets {
		var c [3]int
		for _, t := range s {
			hit := false
			for k := range tagNames {
				if t.Name == tagNames[k] && t.Parent == "POST" {
					c[k]++
					hit = true
				}
			}
			ok = ok && hit
		}
		r = append(r, c)
	}
	return r, ok
}

// sameSets compares two lists of tag sets without order.
func sameSets(a, b [][3]int) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		na, nb := 0, 0
		for _, y := range a {
			if x == y {
				na++
			}
		}
		for _, y := range b {
			if x == y {
				nb++
			}
		}
		if na != nb {
			return false
		}
	}
	return true
}

// check compares every word of the model with the index, and the counters.
func (m *model) check(x *index.Index, what string) {
	for _, e := range m.words {
		n, err := x.FetchRunes(e.word)
		sym.Assert(err == nil, what+": every word added is found")
		sym.Assert(n.Word() == string(e.word), what+": the node found spells the word")
		got, ok := counts(n.TagSets())
		sym.Assert(ok, what+": every tag found is a tag attached")
		sym.Assert(sameSets(got, e.sets), what+": the tag sets found are those attached")
	}
}

// checkCounts compares the counters.
func (m *model) checkCounts(x *index.Index, what string) {
	sym.Assert(x.WordsCount() == m.tagged(), what+": the number of words is that of tagged words")
	sym.Assert(x.NodesCount() == m.nodes(), what+": the number of nodes is that of prefixes")
}

// query looks an arbitrary word up in every way.
func (m *model) query(x *index.Index, q []rune, what string) {
	n, err := x.FetchRunes(q)
	sym.Assert((err == nil) == m.known(q), what+": found exactly when it is a prefix of an added word")
	if err != nil {
		sym.Assert(n == nil, what+": no node with an error")
		return
	}
	sym.Assert(n.Word() == string(q), what+": the node found spells the word")
	want := [][3]int(nil)
	for _, e := range m.words {
		if sameRunes(e.word, q) {
			want = e.sets
		}
	}
	got, ok := counts(n.TagSets())
	sym.Assert(ok && sameSets(got, want), what+": the tag sets found are those attached")
}

func save(x *index.Index) ([]byte, error) {
	w := &sink{limit: 1 << 24}
	err := x.BinaryWriteTo(binutils.NewBinaryWriter(w))
	return w.buf, err
}

func load(x *index.Index, data []byte) error {
	return x.BinaryReadFrom(binutils.NewBinaryReader(&source{data: data, end: io.EOF}))
}

// reload saves and loads into a new index.
func reload(x *index.Index, what string) *index.Index {
	b, err := save(x)
	sym.Assert(err == nil, what+": the index is written")
	y := index.New()
	sym.Assert(load(y, b) == nil, what+": the index written is read")
	return y
}
