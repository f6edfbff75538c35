package hopen

import (
	"strconv"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	"verif.test/v/sym"
	"verif.test/v/vos"
)

func tagged(word []rune, tag dag.TagName) *index.Index {
	x := index.New()
	x.TagID("NOUN", "POST")
	x.TagID("plur", "NMbr")
	n, err := x.AddRunes(word)
	sym.Assert(err == nil, "a word is added")
	sym.Assert(n.AddTagSet(tag) == nil, "tags are attached")
	return x
}

// is reports whether the index is that of tagged, as far as the query can tell.
func is(x *index.Index, word []rune, tag dag.TagName, q []rune) bool {
	n, err := x.FetchString(string(q))
	if !sameRunes(word, q) {
		return x.WordsCount() == 1 && (err != nil || len(n.TagSets()) == 0)
	}
	if err != nil || x.WordsCount() != 1 {
		return false
	}
	s := n.TagSets()
	return len(s) == 1 && len(s[0]) == 1 && s[0][0].Name == tag
}

func save(x *index.Index) error { return opencorpora.NewLoader(dir).SaveIndex(x, compiled) }

// C18_Save: an index of a word of 1-2 arbitrary letters is saved where there is none or an older one; nothing fails, or any one
// or two of the operations on files, or it is killed at any of them, or writes fail after any number of bytes: without an error
// loading gives the index saved; an error is returned for every failure; and what can be loaded after that is the older or the
// new index.
// verif: budget=120
func C18_Save() {
	old, word, q := letter("old"), letter("w"), letter("q")
	if sym.Bool("long") {
		word, q = append(word, letter("w")...), append(q, letter("q")...)
	}
	vos.Dir(dir)
	before := sym.Bool("before")
	if before {
		sym.Assert(save(tagged(old, "plur")) == nil, "an older index is saved")
	}
	s := &steps{at: -1}
	room := -1
	switch sym.Choose("mode", 4) {
	case 1:
		s.at = sym.Int("at", 0, 150)
	case 2:
		s.at, s.kill = sym.Int("at", 0, 150), true
	case 3:
		room = sym.Int("room", 0, 250)
	}
	again := &steps{at: -1}
	if s.at >= 0 && !s.kill {
		// the second failure is one of the first few operations after the first one
		again.at = sym.Choose("again", 4)
	}
	fails := func() bool {
		if s.hit && !s.kill {
			return again.fails()
		}
		return s.fails()
	}
	full := false
	vos.Fault = func(op, name string) error {
		if fails() {
			return vos.ErrFault
		}
		return nil
	}
	vos.OnWrite = func(name string, n int) (int, error) {
		if room >= 0 {
			if n > room {
				full = true
				return room, vos.ErrFault
			}
			room -= n
			return n, nil
		}
		if fails() {
			return n / 2, vos.ErrFault
		}
		return n, nil
	}
	err := save(tagged(word, "NOUN"))
	vos.Fault, vos.OnWrite = nil, nil
	if s.kill {
		vos.OpenFiles = 0
	}
	sym.Assert(vos.OpenFiles == 0, "all files are closed")
	sym.Assert(s.n < 150, "every operation may be the failing one")
	x, lerr := opencorpora.NewLoader(dir).LoadIndex()
	if err == nil {
		sym.Assert(!full && !s.hit, "every failure is reported")
		sym.Assert(lerr == nil, "a saved index is loaded")
		sym.Assert(is(x, word, "NOUN", q), "a saved index answers as before")
		sym.Cover("saved")
		return
	}
	sym.Assert(full || s.hit, "saving succeeds if nothing fails")
	sym.Assert(lerr == nil || !before, "after a failure there still is an index if there was one")
	if lerr == nil {
		sym.Assert(sym.Or(is(x, word, "NOUN", q), before && is(x, old, "plur", q)), "after a failure what is loaded is the older index or the new one")
		sym.Cover("loaded after failure")
	}
	sym.Cover("failure")
}

// C18_Load: the file of an index cannot be opened, is missing, or a read of it fails after any number of bytes: an error, and all
// files are closed, and loading again without failure gives the index; reads of 1 to 9 bytes at a time make no difference.
// verif: budget=60
func C18_Load() {
	word, q := letter("w"), letter("q")
	vos.Dir(dir)
	if sym.Bool("missing") {
		_, err := opencorpora.NewLoader(dir).LoadIndex()
		sym.Assert(err != nil && vos.OpenFiles == 0, "a missing file is reported")
		return
	}
	sym.Assert(save(tagged(word, "NOUN")) == nil, "the index is saved")
	if sym.Bool("unopened") {
		vos.Fault = func(op, name string) error {
			if op == "open" {
				return vos.ErrFault
			}
			return nil
		}
		_, err := opencorpora.NewLoader(dir).LoadIndex()
		sym.Assert(err != nil && vos.OpenFiles == 0, "a file which cannot be opened is reported")
		vos.Fault = nil
		x, err := opencorpora.NewLoader(dir).LoadIndex()
		sym.Assert(err == nil && is(x, word, "NOUN", q), "a failure to load leaves the index to be loaded later")
		return
	}
	data, _ := vos.Content(compiled)
	left := sym.Int("left", 0, 250)
	most := 1 + sym.Choose("most", 9)
	fault := sym.Bool("fault")
	failed := false
	vos.OnRead = func(name string, n int) (int, error) {
		if n > most {
			n = most
		}
		if fault {
			if left == 0 {
				failed = true
				return 0, vos.ErrFault
			}
			if n > left {
				n = left
			}
			left -= n
		}
		return n, nil
	}
	sym.Assert(len(data) < 250, "every position of the file may be the failing one")
	x, err := opencorpora.NewLoader(dir).LoadIndex()
	sym.Assert(vos.OpenFiles == 0, "all files are closed")
	sym.Assert((err != nil) == failed, "a failing read is reported, and nothing else")
	if err == nil {
		sym.Assert(is(x, word, "NOUN", q), "a loaded index answers as before")
		sym.Cover("loaded")
	} else {
		vos.OnRead = nil
		x, err = opencorpora.NewLoader(dir).LoadIndex()
		sym.Assert(err == nil && is(x, word, "NOUN", q), "a failure to load leaves the index to be loaded later")
	}
	sym.Cover("done")
}

// C18_Refused: an index with 254 to 256 tags, saved where there is none or an older one: it is saved if it fits its format;
// otherwise an error is returned, and what can be loaded is the older index or nothing.
// verif: budget=60
func C18_Refused() {
	old, q := letter("old"), letter("q")
	vos.Dir(dir)
	before := sym.Bool("before")
	if before {
		sym.Assert(save(tagged(old, "plur")) == nil, "an older index is saved")
	}
	n := 254 + sym.Choose("tags", 3)
	x := index.New()
	for i := 0; i < n; i++ {
		x.TagID(dag.TagName(strconv.Itoa(1000+i)), "POST")
	}
	d, err := x.AddRunes(q)
	sym.Assert(err == nil && d.AddTagSet("1001") == nil, "a word is added")
	err = save(x)
	sym.Assert((err != nil) == (n > 255), "an index which does not fit is refused")
	sym.Assert(vos.OpenFiles == 0, "all files are closed")
	y, lerr := opencorpora.NewLoader(dir).LoadIndex()
	if err == nil {
		sym.Assert(lerr == nil && len(y.Tags()) == n && is(y, q, "1001", q), "a saved index is loaded")
		sym.Cover("saved")
		return
	}
	sym.Assert((lerr == nil) == before, "after a failure there still is an index if there was one")
	if lerr == nil {
		sym.Assert(before && is(y, old, "plur", q), "what is loaded is the older index")
	}
	sym.Cover("refused")
}

// C18_Large: an index of 120 tags, 210 words and some 270 nodes, over 5000 bytes in its file, of which one word is an arbitrary letter, is saved where there is an older one, and the disk is full after some number
// of bytes (up to 4 from the start and the end, or from some places around powers of 2), or nothing fails: an error is returned exactly if it was full, and what is loaded is the older index then, and the new one, with every word and its tags, otherwise; or it is loaded and a
// read fails after as many bytes: an error.
// verif: budget=120
func C18_Large() {
	vos.Dir(dir)
	old, probe := letter("old"), letter("w")
	sym.Assert(save(tagged(old, "plur")) == nil, "an older index is saved")
	x := index.New()
	nth := func(i int) dag.TagName { return dag.TagName(strconv.Itoa(1000 + i)) }
	for i := 0; i < 120; i++ {
		x.TagID(nth(i), "POST")
	}
	words := [][]rune{probe}
	for i := 0; i < 209; i++ {
		words = append(words, []rune{rune(0x4e00 + i/4), rune(0x430 + i%4)})
	}
	for i, w := range words {
		n, err := x.AddRunes(w)
		sym.Assert(err == nil && n.AddTagSet(nth(i%120), nth(i%7)) == nil, "a word is added")
	}
	size := 0
	{
		sym.Assert(save(x) == nil, "the index is saved")
		data, _ := vos.Content(compiled)
		size = len(data)
		sym.Assert(size > 5000, "the index is large")
		sym.Assert(save(tagged(old, "plur")) == nil, "an older index is saved")
	}
	some := func() int {
		n := []int{0, 510, 1022, 2046, 4094, 5000, size - 5, size - 1}[sym.Choose("about", 8)] + sym.Int("exactly", 0, 4)
		sym.Assume(n < size)
		return n
	}
	room, left := -1, -1
	mode := sym.Choose("mode", 3)
	switch mode {
	case 1:
		room = some()
	case 2:
		left = some()
	}
	full, failed := false, false
	vos.OnWrite = func(name string, n int) (int, error) {
		if room < 0 {
			return n, nil
		}
		if n > room {
			full = true
			return room, vos.ErrFault
		}
		room -= n
		return n, nil
	}
	err := save(x)
	vos.OnWrite = nil
	sym.Assert(vos.OpenFiles == 0, "all files are closed")
	sym.Assert((err != nil) == full, "a full disk is reported, and nothing else")
	vos.OnRead = func(name string, n int) (int, error) {
		if left < 0 {
			return n, nil
		}
		if left == 0 {
			failed = true
			return 0, vos.ErrFault
		}
		if n > left {
			n = left
		}
		left -= n
		return n, nil
	}
	y, lerr := opencorpora.NewLoader(dir).LoadIndex()
	vos.OnRead = nil
	sym.Assert(vos.OpenFiles == 0, "all files are closed")
	sym.Assert((lerr != nil) == failed, "a failing read is reported, and nothing else")
	switch {
	case err != nil:
		sym.Assert(is(y, old, "plur", letter("q")), "after a failure what is loaded is the older index")
		sym.Cover("full")
	case lerr == nil:
		sym.Assert(y.WordsCount() == len(words) && y.NodesCount() == x.NodesCount(), "as many words and nodes")
		for i, w := range words {
			n, err := y.FetchRunes(w)
			sym.Assert(err == nil, "every word is found")
			s := n.TagSets()
			sym.Assert(len(s) == 1 && len(s[0]) == 2, "with its tag set")
			a, b := s[0][0].Name, s[0][1].Name
			sym.Assert(a == nth(i%120) && b == nth(i%7) || b == nth(i%120) && a == nth(i%7), "and its tags")
		}
		sym.Cover("loaded")
	}
	sym.Cover("done")
}
