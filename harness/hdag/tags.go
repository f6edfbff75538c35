package hdag

import (
	"errors"
	"io"

	"github.com/amarin/binutils"
	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

func name(label string, n int) dag.TagName { return dag.TagName(sym.String(label, n)) }

// norm is the documented normalisation: no name at all is the empty tag name.
func norm(n dag.TagName) dag.TagName {
	if len(n) == 0 {
		return dag.EmptyTagName
	}
	return n
}

// C04_History: any history of 4 (thorough: 5) registrations of names of 4 arbitrary bytes with parents of 0 or 4
// arbitrary bytes into a new index, then a lookup of an arbitrary name and of an arbitrary ID (all 256).
// verif: budget=60
func C04_History() {
	steps := 4
	if sym.Thorough() {
		steps = 5
	}
	idx := dag.NewIndex()
	var names, parents []dag.TagName // the model: names in order of first registration
	for i := 0; i < steps; i++ {
		n := name("name", 4)
		p := dag.TagName("")
		if i < 2 && sym.Bool("parent?") {
			p = name("parent", 4)
		}
		want := -1
		for j, o := range names {
			if o == n {
				want = j
				break
			}
		}
		id0, found := idx.Find(n)
		sym.Assert(found == (want >= 0), "find agrees with what was registered")
		if found {
			sym.Assert(int(id0) == want, "find gives the ID of the first registration")
		}
		sym.Assert(idx.Len() == len(names), "find registers nothing")
		id := idx.Index(n, p)
		if want < 0 {
			want = len(names)
			names = append(names, n)
			parents = append(parents, norm(p))
		}
		sym.Assert(int(id) == want, "IDs are dense, in order of first registration, and stable")
		sym.Assert(idx.Len() == len(names), "one entry per distinct name")
	}
	for j := range names {
		t, ok := idx.Get(dag.TagID(j))
		sym.Assert(ok && t.Name == names[j], "an ID gives the name registered under it")
		sym.Assert(t.Parent == parents[j], "an ID gives the parent first registered with it")
		sym.Assert(t.String() == string(names[j]), "a tag shows its name")
	}
	id := dag.TagID(sym.U8("id"))
	_, ok := idx.Get(id)
	sym.Assert(ok == (int(id) < len(names)), "only registered IDs are found")
	sym.Assert(id.Uint8() == uint8(id), "an ID is its number")
	sym.Observe("history", idx.Len(), ok)
	sym.Cover("done")
}

// C04_Preset: an index made from 0 to 3 distinct known tags with names of 4 arbitrary bytes and parents of 0 or 4
// arbitrary bytes keeps them in order, then registers one more arbitrary name; the given tags stay as they were.
// verif: budget=60
func C04_Preset() {
	n := sym.Choose("n", 4)
	tags := make([]dag.Tag, n)
	for i := range tags {
		tags[i].Name = name("name", 4)
		if sym.Bool("parent?") {
			tags[i].Parent = name("parent", 4)
		}
		for j := 0; j < i; j++ {
			sym.Assume(tags[j].Name != tags[i].Name)
		}
	}
	given := append([]dag.Tag{}, tags...)
	idx := dag.NewIndex(tags...)
	sym.Assert(idx.Len() == n, "all known tags are there")
	more := name("more", 4)
	want := n
	for i := range given {
		if given[i].Name == more {
			want = i
		}
	}
	sym.Assert(int(idx.Index(more, "")) == want, "a further name gets the next ID, a known one its own")
	for i := range given {
		sym.Assert(tags[i] == given[i], "the given tags stay as they were")
		t, ok := idx.Get(dag.TagID(i))
		sym.Assert(ok && t.Name == given[i].Name && t.Parent == norm(given[i].Parent), "known tags keep their order")
		id, ok := idx.Find(given[i].Name)
		sym.Assert(ok && int(id) == i, "known tags are found")
	}
	sym.Cover("done")
}

func nth(i int) dag.TagName {
	return dag.TagName([]byte{'T', 'a' + byte(i>>6), 'a' + byte(i>>3&7), 'a' + byte(i&7)})
}

// C04_Full: an index of 254, 255 or 256 tags (all the IDs there are), then one more arbitrary name of 4 bytes: it gets
// an ID that gives that name back, or is refused and nothing changes.
// verif: budget=60 maxconc=1000
func C04_Full() {
	n := 254 + sym.Choose("n", 3)
	idx := dag.NewIndex()
	for i := 0; i < n; i++ {
		sym.Assert(int(idx.Index(nth(i), "")) == i, "IDs are dense, in order of first registration, and stable")
	}
	more := name("more", 4)
	var id dag.TagID
	refused := sym.Panics(func() { id = idx.Index(more, "") })
	if refused {
		sym.Assert(n == 256, "refused only when there is no ID left")
		_, found := idx.Find(more)
		sym.Assert(!found, "only an unknown name is refused")
		sym.Assert(idx.Len() == n, "a refused name leaves the index as it was")
		sym.Cover("refused")
	} else {
		t, ok := idx.Get(id)
		sym.Assert(ok && t.Name == more, "an ID gives the name registered under it")
		sym.Cover("given")
	}
	k := sym.Choose("k", 3)
	t, ok := idx.Get(dag.TagID([]int{0, 100, 253}[k]))
	sym.Assert(ok && t.Name == nth([]int{0, 100, 253}[k]), "earlier IDs still give their names")
}

// rdr makes a reader that may split every read.
func rdr(data []byte, chunked bool) (*source, *binutils.BinaryReader) {
	s := &source{data: data, end: io.EOF, chunked: chunked}
	return s, binutils.NewBinaryReader(s)
}

// sameName compares without splitting; empty names are one name, and 4 spaces are how the empty name is stored.
func sameName(got, put dag.TagName) bool {
	if len(put) == 0 {
		return got == dag.EmptyTagName
	}
	return sym.Or(got == put, sym.And(put == "    ", got == dag.EmptyTagName))
}

// C05_Name: every tag name of 0 to 6 arbitrary bytes: names of 0 and 4 bytes are written as 4 bytes and read back as
// the same name (4 spaces and no name at all are both the empty name), others are refused with nothing written.
// verif: budget=60
func C05_Name() {
	n := sym.Choose("len", 7)
	g := name("name", n)
	w := &sink{limit: 1 << 20}
	err := g.BinaryWriteTo(binutils.NewBinaryWriter(w))
	raw, merr := g.MarshalBinary()
	sym.Assert((err == nil) == (merr == nil), "both ways to write agree")
	if n != 0 && n != 4 {
		sym.Assert(err != nil, "a name of a wrong length is refused")
		sym.Assert(errors.Is(err, dag.Error), "the error is a grammar error")
		sym.Assert(len(w.buf) == 0, "nothing is written of a refused name")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil, "a name of 4 bytes is written")
	sym.Assert(len(w.buf) == 4, "a name takes 4 bytes")
	sym.Assert(string(w.buf) == string(raw), "both ways to write agree")
	back := name("old", 4)
	s, r := rdr(append(append([]byte{}, w.buf...), sym.Bytes("tail", 2)...), sym.Bool("chunked"))
	sym.Assert(back.BinaryReadFrom(r) == nil, "what was written is read back")
	sym.Assert(s.pos == 4, "exactly 4 bytes are consumed")
	sym.Assert(sameName(back, g), "the name read back is the name written")
	var um dag.TagName
	sym.Assert(um.UnmarshalBinary(raw) == nil && um == back, "both ways to read agree")
	sym.Assert(back.String() == string(back), "a name shows itself")
	sym.Observe("name", string(back), raw)
	sym.Cover("done")
}

// C05_Tag: every tag with name and parent of 0 or 4 arbitrary bytes, read back through a reader that may split reads.
// verif: budget=60
func C05_Tag() {
	t := dag.Tag{Parent: name("parent", 4*sym.Choose("p", 2)), Name: name("name", 4*sym.Choose("n", 2))}
	w := &sink{limit: 1 << 20}
	sym.Assert(t.BinaryWriteTo(binutils.NewBinaryWriter(w)) == nil, "a tag is written")
	sym.Assert(len(w.buf) == 8, "a tag takes 8 bytes")
	var back dag.Tag
	s, r := rdr(append(append([]byte{}, w.buf...), sym.Bytes("tail", 1)...), sym.Bool("chunked"))
	sym.Assert(back.BinaryReadFrom(r) == nil, "what was written is read back")
	sym.Assert(s.pos == 8, "exactly the tag's own bytes are consumed")
	sym.Assert(sym.And(sameName(back.Name, t.Name), sameName(back.Parent, t.Parent)), "the tag read back is the tag written")
	made := dag.NewTag(t.Parent, t.Name)
	sym.Assert(made.Name == t.Name && made.Parent == norm(t.Parent), "a new tag has the given name and parent")
	sym.Observe("tag", string(back.Name), string(back.Parent))
	sym.Cover("done")
}

// C05_Index: every tag index of 0 to 3 tags (thorough: 4) with distinct names of 4 arbitrary bytes and parents of 0 or 4 arbitrary
// bytes (of the blank ones, starting with a space, only the first tag's), read into an empty or used index; IDs, names and parents agree afterwards.
// verif: budget=60
func C05_Index() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	n := sym.Choose("n", max)
	idx := dag.NewIndex()
	for i := 0; i < n; i++ {
		p := dag.TagName("")
		if sym.Bool("parent?") {
			p = name("parent", 4)
		}
		g := name("name", 4)
		if i > 0 { // blank names are C05_Tag's matter; one here is enough
			sym.Assume(g[0] != ' ')
			sym.Assume(p == "" || p[0] != ' ')
		}
		_, found := idx.Find(g)
		sym.Assume(!found)
		idx.Index(g, p)
	}
	before := append(dag.Idx{}, idx...)
	w := &sink{limit: 1 << 20}
	sym.Assert(idx.BinaryWriteTo(binutils.NewBinaryWriter(w)) == nil, "the index is written")
	sym.Assert(len(w.buf) == 1+8*n, "one byte and 8 per tag are written")
	back := dag.NewIndex()
	if sym.Bool("used") {
		back.Index("NOUN", "POST")
		back.Index("VERB", "POST")
	}
	s, r := rdr(append(append([]byte{}, w.buf...), sym.Bytes("tail", 1)...), false)
	sym.Assert(back.BinaryReadFrom(r) == nil, "what was written is read back")
	sym.Assert(s.pos == 1+8*n, "exactly the index's own bytes are consumed")
	sym.Assert(back.Len() == n, "as many tags are read as written")
	for i := 0; i < n; i++ {
		t, ok := back.Get(dag.TagID(i))
		sym.Assert(ok, "every ID written is found")
		sym.Assert(sameName(t.Name, before[i].Name), "an ID gives the same name as before")
		sym.Assert(sameName(t.Parent, before[i].Parent), "an ID gives the same parent as before")
		sym.Assert(idx[i] == before[i], "writing leaves the index as it was")
	}
	sym.Cover("done")
}

// C05_Many: tag indexes of 4 to 256 tags (lengths around powers of 2) of which one (first, middle or last) has arbitrary name and parent: either
// writing fails (never up to 255), or what was written reads back with the same names under the same IDs.
// verif: budget=60
func C05_Many() {
	n := []int{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256}[sym.Choose("n", 22)]
	idx := make(dag.Idx, n)
	for i := range idx {
		idx[i] = dag.Tag{Parent: "PRNT", Name: nth(i)}
	}
	k := []int{0, n / 2, n - 1}[sym.Choose("k", 3)]
	idx[k] = dag.Tag{Parent: name("parent", 4), Name: name("name", 4)}
	w := &sink{limit: 1 << 20}
	if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(w)); err != nil {
		sym.Assert(n > 255, "an index of 255 tags is written")
		sym.Cover("refused")
		return
	}
	var back dag.Idx
	_, r := rdr(w.buf, false)
	sym.Assert(back.BinaryReadFrom(r) == nil, "what was written is read back")
	sym.Assert(len(back) == n, "as many tags are read as written")
	same := true
	for i := range back {
		same = sym.And(same, sym.And(sameName(back[i].Name, idx[i].Name), sameName(back[i].Parent, idx[i].Parent)))
	}
	sym.Assert(same, "every ID gives the same tag as before")
	sym.Cover("done")
}

// C06_AnyBytes: every stream of 0 to 18 (thorough: 27) arbitrary bytes, whole or split at arbitrary places (splits up
// to 10 bytes), taken as a tag index: no panic; success exactly when the announced tags are all there; what is
// accepted is what the bytes say.
// verif: budget=80 maxconc=300
func C06_AnyBytes() {
	max := 19
	if sym.Thorough() {
		max = 28
	}
	n := sym.Choose("len", max)
	b := sym.Bytes("data", n)
	s, r := rdr(b, n <= 10 && sym.Bool("chunked"))
	var idx dag.Idx
	err := idx.BinaryReadFrom(r)
	sym.Assert((err == nil) == (n > 0 && n >= 1+8*int(first(b))), "accepted exactly when the announced tags are all there")
	if err != nil {
		sym.Assert(errors.Is(err, common.ErrUnmarshal), "the error is an unmarshal error")
		sym.Cover("refused")
		return
	}
	sym.Assert(idx.Len() == int(b[0]), "as many tags as announced")
	sym.Assert(s.pos == 1+8*len(idx), "exactly the index's own bytes are consumed")
	for i, t := range idx {
		p := dag.TagName(b[1+8*i : 5+8*i])
		g := dag.TagName(b[5+8*i : 9+8*i])
		sym.Assert(sym.And(sameName(t.Name, g), sameName(t.Parent, p)), "every tag is what the bytes say")
	}
	sym.Observe("len", idx.Len())
	sym.Cover("accepted")
}

func first(b []byte) byte {
	if len(b) == 0 {
		return 0
	}
	return b[0]
}

// C06_Name: every stream of 0 to 6 arbitrary bytes split at arbitrary places taken as a tag name, and as the binary
// form of a tag name: accepted exactly from 4 bytes (exactly 4 for the binary form); no panic.
func C06_Name() {
	n := sym.Choose("len", 7)
	b := sym.Bytes("data", n)
	_, r := rdr(b, sym.Bool("chunked"))
	g := dag.TagName("kept")
	err := g.BinaryReadFrom(r)
	sym.Assert((err == nil) == (n >= 4), "a name needs 4 bytes")
	if err == nil {
		sym.Assert(sameName(g, dag.TagName(b[:4])), "the name is what the bytes say")
	} else {
		sym.Assert(errors.Is(err, dag.Error), "the error is a grammar error")
		sym.Assert(g == "kept", "a failed read leaves the name as it was")
	}
	u := dag.TagName("kept")
	err = u.UnmarshalBinary(b)
	sym.Assert((err == nil) == (n == 4), "the binary form is exactly 4 bytes")
	if err != nil {
		sym.Assert(u == "kept", "a failed read leaves the name as it was")
	}
	var t dag.Tag
	_, r = rdr(b, false)
	sym.Assert(t.BinaryReadFrom(r) != nil, "a tag needs 8 bytes")
	sym.Cover("done")
}

// C06_ReadFault: a tag index of 2 arbitrary tags (one blank name at most)
// whose reader fails at an arbitrary place, for good or once: the failure is reported.
func C06_ReadFault() {
	b := append([]byte{2}, sym.Bytes("data", 16)...)
	for _, i := range []int{1, 5, 9} { // blank names are C06_AnyBytes' matter; one here is enough
		sym.Assume(b[i] != ' ')
	}
	at := sym.Choose("at", 18)
	s := &source{data: b[:at], end: errFault, eofEarly: sym.Bool("early")}
	if at < 17 && sym.Bool("once") {
		s = &source{data: b, end: io.EOF, fails: true, failAt: at}
	}
	var idx dag.Idx
	err := idx.BinaryReadFrom(binutils.NewBinaryReader(s))
	sym.Assert((err == nil) == (at == 17), "a failing reader is reported")
	sym.Cover("done")
}

// C06_WriteFault: an index of 2 arbitrary tags whose writer stops after an arbitrary number of bytes, with an error or
// by a short write, for good or only for one write: the failure is reported, and success means all bytes were written.
func C06_WriteFault() {
	idx := dag.Idx{{Parent: name("p", 4), Name: name("n", 4)}, {Parent: name("p", 4), Name: name("n", 4)}}
	limit := sym.Choose("limit", 19)
	w := &sink{limit: limit, short: sym.Bool("short"), once: sym.Bool("once")}
	err := idx.BinaryWriteTo(binutils.NewBinaryWriter(w))
	sym.Assert((err == nil) == (limit >= 17), "a failing writer is reported")
	if err != nil {
		sym.Assert(errors.Is(err, common.ErrMarshal), "the error is a marshal error")
	}
	sym.Cover("done")
}

// C06_BadName: an index of 2 tags of which one name or parent has a wrong length (1-3, 5, 6 arbitrary bytes) is not
// written as if it were fine.
func C06_BadName() {
	idx := dag.Idx{{Parent: "PRNT", Name: name("n", 4)}, {Parent: "PRNT", Name: name("n", 4)}}
	bad := name("bad", []int{1, 2, 3, 5, 6}[sym.Choose("len", 5)])
	k := sym.Choose("k", 2)
	if sym.Bool("parent") {
		idx[k].Parent = bad
	} else {
		idx[k].Name = bad
	}
	w := &sink{limit: 1 << 20}
	err := idx.BinaryWriteTo(binutils.NewBinaryWriter(w))
	sym.Assert(err != nil, "a name of a wrong length is refused")
	sym.Cover("done")
}

// C06_Long: a list announced as 4 to 255 tags of which arbitrary bytes make up one, the source ending up to 9 bytes short, at the right place or up to 9 bytes later,
// or failing there: accepted exactly if all announced bytes are there, and then with what they say.
// verif: budget=60
func C06_Long() {
	n := []int{4, 8, 16, 31, 32, 33, 64, 100, 127, 128, 129, 200, 254, 255}[sym.Choose("n", 14)]
	b := []byte{byte(n)}
	for i := 0; i < n; i++ {
		b = append(b, "PRNT"...)
		b = append(b, nth(i)...)
	}
	k := []int{0, n / 2, n - 1}[sym.Choose("k", 3)]
	tag := sym.Bytes("tag", 8)
	sym.Assume(tag[0] != ' ' && tag[4] != ' ')
	copy(b[1+8*k:], tag)
	end := sym.Choose("end", 19) - 9
	have := append(append([]byte{}, b...), sym.Bytes("more", 9)...)[:len(b)+end]
	s := &source{data: have, end: io.EOF, eofEarly: sym.Bool("early")}
	if end < 0 && sym.Bool("fails") {
		s.end = errFault
	}
	var idx dag.Idx
	err := idx.BinaryReadFrom(binutils.NewBinaryReader(s))
	sym.Assert((err == nil) == (end >= 0), "accepted exactly if all announced bytes are there")
	if err == nil {
		sym.Assert(len(idx) == n, "as many tags as announced")
		same := true
		for i := range idx {
			if i == k {
				same = sym.And(same, sym.And(string(idx[i].Parent) == string(tag[:4]), string(idx[i].Name) == string(tag[4:])))
			} else {
				same = sym.And(same, sym.And(idx[i].Parent == "PRNT", idx[i].Name == nth(i)))
			}
		}
		sym.Assert(same, "tags are what the bytes say")
	}
	sym.Cover("done")
}
