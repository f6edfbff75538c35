package hindex

import (
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// C01_Wider: 66000 letters at the root, more than 16 bits number, of which those around the limits of 8, 12, 15 and 16 bits are tagged, and below any
// of these another, arbitrary one: as many nodes, and every letter asked for is found where it was added, with its tags, and no other.
// verif: budget=120 steps=200000000 workers=3
func C01_Wider() {
	const n = 66000
	x := newIndex()
	letter := func(i int) rune { return rune(0x10000 + i) }
	for i := 0; i < n; i++ {
		_, err := x.AddRunes([]rune{letter(i)})
		sym.Assert(err == nil, "a word is added")
	}
	ids := []int{0, 1, 254, 255, 256, 4094, 4095, 4096, 4097, 32766, 32767, 32768, 65534, 65535, 65536, n - 1}
	for i, k := range ids {
		d, err := x.FetchRunes([]rune{letter(k)})
		sym.Assert(err == nil && d.AddTagSet(tagNames[i%3]) == nil, "a word is tagged")
	}
	at := ids[sym.Choose("at", len(ids))]
	l := cyr("letter", 1)[0]
	_, err := x.AddRunes([]rune{letter(at), l})
	sym.Assert(err == nil, "a word is added")
	sym.Assert(x.NodesCount() == n+1 && x.WordsCount() == len(ids), "as many nodes and words as were added")
	for i, k := range ids {
		d, err := x.FetchRunes([]rune{letter(k)})
		sym.Assert(err == nil && d.(*index.Node).Id() == dag.ID(k+1) && d.Word() == string([]rune{letter(k)}), "a letter added is found")
		s := d.TagSets()
		sym.Assert(len(s) == 1 && len(s[0]) == 1 && s[0][0].Name == tagNames[i%3], "it has its tags")
		q := cyr("q", 1)[0]
		_, err = x.FetchRunes([]rune{letter(k), q})
		sym.Assert((err == nil) == sym.And(k == at, q == l), "a letter is found below another exactly if it was added there")
	}
	_, err = x.FetchRunes([]rune{letter(n)})
	sym.Assert(err != nil, "a letter not added is not found")
	sym.Cover("done")
}
