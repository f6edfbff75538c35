package hindex

import (
	"io"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// exercise uses a loaded index in every way.
func exercise(x *index.Index, what string) {
	n := x.NodesCount()
	sym.Assert(n >= 0, what+": the number of nodes makes sense")
	for i := 0; i <= n; i++ {
		d, err := x.Get(dag.ID(i))
		sym.Assert(err == nil, what+": every node is there")
		sym.Assert(i == 0 || len(d.Word()) > 0, what+": every node spells something")
		for _, s := range d.TagSets() {
			sym.Assert(len(s) >= 0, what+": tag sets are there")
		}
		sym.Assert(len(d.String()) > 0, what+": every node shows itself")
		for r := range x.GetChildrenMap(dag.ID(i)) {
			_, err := x.FetchFromItem(dag.ID(i), []rune{r})
			sym.Assert(err == nil, what+": every child listed is found")
		}
		v := d.(*index.Node).Item().Variants
		if _, err := x.Variants(v); i > 0 {
			sym.Assert(err == nil, what+": every combination is known")
		}
	}
	_, err := x.Get(dag.ID(n + 1))
	sym.Assert(err != nil, what+": no other node is there")
	q := cyr("q", 1+sym.Choose("qlen", 2))
	d, err := x.FetchRunes(q)
	sym.Assert((err == nil) == (d != nil), what+": lookup answers or reports an error")
	p, err2 := x.FetchItemFromParent(0, q)
	sym.Assert((err2 == nil) == (err == nil), what+": both lookups agree")
	if err == nil {
		sym.Assert(p.Word() == d.Word(), what+": both lookups agree")
	}
	for _, id := range x.TagSetIndex().TableIDs() {
		_, ok := x.TagSetIndex().Get(id)
		sym.Assert(ok, what+": every tag set listed is known")
	}
	for i := range x.Tags() {
		_, ok := x.Tags().Get(dag.TagID(i))
		sym.Assert(ok, what+": every tag listed is known")
	}
	_, ok := x.Tags().Find(dag.TagName("noSu"))
	_ = ok
}

// C13_Truncate: an index of 0 or 1 words of 1 or 2 arbitrary Cyrillic letters with 0 or 1 list of 1 or 2 tags, saved and cut anywhere, read
// with the end reported with the last bytes or after them, as an end or as a failure: an error.
// verif: budget=60
func C13_Truncate() {
	x, _ := build(sym.Choose("n", 2), 2)
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	cut := sym.Choose("cut", len(b)+1)
	src := &source{data: b[:cut], eofEarly: sym.Bool("early"), end: []error{io.EOF, errFault}[sym.Choose("end", 2)]}
	y := newIndex()
	err = y.BinaryReadFrom(binutils.NewBinaryReader(src))
	sym.Assert((err == nil) == (cut == len(b)), "a truncated index is refused")
	sym.Cover("done")
}

// C13_Split: a saved index of one word, read through reads that return only one of the bytes asked for, or all but
// one, each time: it is read like in one piece.
// verif: budget=60
func C13_Split() {
	x, m := build(1, 2)
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	y := index.New()
	src := &splitter{data: b, one: sym.Bool("one"), early: sym.Bool("early")}
	sym.Assert(y.BinaryReadFrom(binutils.NewBinaryReader(src)) == nil, "reads may be split anywhere")
	same(x, y, "split")
	m.check(y, "split")
	sym.Cover("done")
}

// splitter reads one byte at a time or all but one of those asked for.
type splitter struct {
	data  []byte
	one   bool
	early bool
}

func (s *splitter) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := len(p) - 1
	if s.one || n == 0 {
		n = 1
	}
	n = copy(p[:n], s.data)
	s.data = s.data[n:]
	if s.early && len(s.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// C13_Corrupt: a saved index of two words of 1 and 2 letters with tags, in which 2 (thorough: 4) consecutive bytes
// anywhere are replaced by arbitrary ones: refused, or usable in every way; little memory is taken in either case.
// verif: budget=120
func C13_Corrupt() {
	x := newIndex()
	d, _ := x.AddString("я")
	sym.Assert(d.AddTagSet("NOUN") == nil, "known tags are attached")
	d, _ = x.AddString("мы")
	sym.Assert(d.AddTagSet("NOUN", "plur") == nil, "known tags are attached")
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	n := 2
	if sym.Thorough() {
		n = 4
	}
	copy(b[sym.Choose("at", len(b)-n+1):], sym.Bytes("b", n))
	y := index.New()
	sym.AllocLimit(4 << 20)
	err = load(y, b)
	sym.AllocLimit(0)
	if err != nil {
		sym.Cover("refused")
		return
	}
	exercise(y, "accepted")
	sym.Cover("accepted")
}

// C13_Items: a file with valid tags, tag sets and combinations and 1 to 2 (thorough: 3) items of entirely arbitrary content:
// refused, or usable in every way.
// verif: budget=120
func C13_Items() {
	x := newIndex()
	d, _ := x.AddString("я")
	sym.Assert(d.AddTagSet("NOUN") == nil, "known tags are attached")
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	max := 2
	if sym.Thorough() {
		max = 3
	}
	n := 1 + sym.Choose("n", max)
	b = b[:len(b)-2*16-4]
	b = append(b, 0, 0, 0, byte(n))
	for i := 0; i < n; i++ {
		b = append(b, sym.Bytes("item", 16)...)
	}
	y := index.New()
	if err = load(y, b); err != nil {
		sym.Cover("refused")
		return
	}
	exercise(y, "accepted")
	y.Optimize()
	exercise(y, "optimized")
	sym.Cover("accepted")
}

// C13_Lengths: a file with its four section names in which each section has an arbitrary number of elements and
// nothing more follows the last but 0 to 20 arbitrary bytes: refused or usable, in little memory.
// verif: budget=120
func C13_Lengths() {
	var b []byte
	sections := 1 + sym.Choose("sections", 4)
	for i := 0; i < sections; i++ {
		b = append(b, []string{"TD\x00", "TI\x00", "CD\x00", "ID\x00"}[i]...)
		w := []int{1, 4, 1, 4}[i]
		if i < sections-1 {
			b = append(b, make([]byte, w)...)
			continue
		}
		b = append(b, sym.Bytes("len", w)...)
	}
	k := 8
	if sym.Thorough() {
		k = 20
	}
	b = append(b, sym.Bytes("more", sym.Choose("more", k+1))...)
	y := index.New()
	sym.AllocLimit(4 << 20)
	err := load(y, b)
	sym.AllocLimit(0)
	if err != nil {
		sym.Cover("refused")
		return
	}
	exercise(y, "accepted")
}

// C13_Bytes: every file of 0 to 5 (thorough: 7) arbitrary bytes is refused, also after a valid first section.
// verif: budget=60
func C13_Bytes() {
	n := 6
	if sym.Thorough() {
		n = 8
	}
	var b []byte
	if sym.Bool("after") {
		b = append(b, "TD\x00\x00"...)
	}
	b = append(b, sym.Bytes("b", sym.Choose("n", n))...)
	sym.Assert(load(index.New(), b) != nil, "too short a file is refused")
	sym.Cover("done")
}

// C13_ReadFault: an index of two tagged words in two tables of tag sets and combinations, read from a source that fails once, at an arbitrary place, and then goes on: an error.
// verif: budget=60
func C13_ReadFault() {
	x := newIndex()
	d, _ := x.AddString("я")
	sym.Assert(d.AddTagSet("NOUN") == nil, "known tags are attached")
	d, _ = x.AddRunes(cyr("w", 2))
	sym.Assert(d.AddTagSet("NOUN", "plur") == nil && d.AddTagSet("gent") == nil, "known tags are attached")
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	src := &source{data: b, fails: true, failAt: sym.Choose("at", len(b)), end: io.EOF}
	y := index.New()
	err = y.BinaryReadFrom(binutils.NewBinaryReader(src))
	sym.Assert(err != nil, "a failing source is reported")
	sym.Cover("done")
}

// C13_Large: the large dictionary of C01_Large, saved and cut at one of 70 places (around limits of bytes and of powers of 2, near its end, and between), or read from a source that fails
// once there, or with 2 arbitrary bytes at one of 12: cut or failing it is refused; changed it is refused or usable.
// verif: budget=120
func C13_Large() {
	x, words := index.New(), large()
	for i := 0; i < largeTags; i++ {
		x.TagID(largeTag(i), "POST")
	}
	for _, e := range words {
		enter(x, e)
	}
	b, err := save(x)
	sym.Assert(err == nil, "the index is written")
	var places []int
	for _, p := range []int{0, 3, 4, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192} {
		if p < len(b) {
			places = append(places, p)
		}
	}
	for i := 1; i <= 17; i++ {
		places = append(places, len(b)-i)
	}
	for i := 1; i < 36; i++ {
		places = append(places, len(b)*i/36)
	}
	src := &source{data: b, end: io.EOF}
	how := sym.Choose("how", 3)
	if how == 2 {
		places = []int{255, 1024, 4096, len(b) - 2, len(b) - 6, len(b) - 9, len(b) - 14, len(b) / 36, len(b) / 9, len(b) / 3}
	}
	at := places[sym.Choose("at", len(places))]
	switch how {
	case 0:
		src.data = b[:at]
		src.eofEarly = sym.Bool("early")
	case 1:
		src.fails, src.failAt = true, at
	default:
		src.data = append([]byte{}, b...)
		copy(src.data[at:], sym.Bytes("b", 2))
	}
	y := index.New()
	err = y.BinaryReadFrom(binutils.NewBinaryReader(src))
	if how < 2 {
		sym.Assert(err != nil, "a truncated index, or one read with a failure, is refused")
		sym.Cover("cut")
		return
	}
	if err != nil {
		sym.Cover("refused")
		return
	}
	for _, e := range words {
		d, err := y.FetchRunes(e.word)
		sym.Assert(err != nil || d.Word() == string(e.word), "accepted: a node found spells its word")
		if err == nil {
			sym.Assert(d.TagSets() != nil, "accepted: tag sets are there")
		}
	}
	for i := 1; i <= y.NodesCount(); i++ {
		sym.Assert(len(y.GetItem(dag.ID(i)).Word()) > 0, "accepted: every node spells something")
	}
	sym.Cover("accepted")
}
