package hindex

import (
	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

func tagSet(label string, n int) index.TagSet {
	s := make(index.TagSet, n)
	for i := range s {
		s[i] = dag.TagID(sym.U8(label))
	}
	return s
}

func collection(label string, n int) index.TagSetIDCollection {
	s := make(index.TagSetIDCollection, n)
	for i := range s {
		s[i] = index.TagSetID(sym.U32(label))
	}
	return s
}

// sortedTags is the reference for the sorted content.
func sortedTags(s index.TagSet) index.TagSet {
	r := append(index.TagSet{}, s...)
	for i := 1; i < len(r); i++ {
		for j := i; j > 0; j-- {
			a, b := r[j-1], r[j]
			if b < a {
				a, b = b, a
			}
			r[j-1], r[j] = a, b
		}
	}
	return r
}

func sortedIDs(s index.TagSetIDCollection) index.TagSetIDCollection {
	r := append(index.TagSetIDCollection{}, s...)
	for i := 1; i < len(r); i++ {
		for j := i; j > 0; j-- {
			a, b := r[j-1], r[j]
			if b < a {
				a, b = b, a
			}
			r[j-1], r[j] = a, b
		}
	}
	return r
}

func sameTags(a, b index.TagSet) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	return eq
}

func sameIDs(a, b index.TagSetIDCollection) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	return eq
}

// reader gives the bytes written, whole.
func reader(b []byte) (*binutils.BinaryReader, *source) {
	s := &source{data: b, end: errFault}
	return binutils.NewBinaryReader(s), s
}

// C12_TagSets: 3 tag sets of 1 to 2 (thorough: 1 to 3) arbitrary tags are interned, each slice overwritten afterwards;
// in memory and after writing and reading: equal contents share an ID, different contents do not, IDs give their contents back,
// finding agrees, exactly the IDs given out are listed and known.
// verif: budget=90
func C12_TagSets() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	x := index.TagSetIndex{}
	var sets []index.TagSet
	var ids []index.TagSetID
	for i := 0; i < 3; i++ {
		s := tagSet("v", 1+sym.Choose("len", max))
		given := append(index.TagSet{}, s...)
		ref := sortedTags(s)
		id := x.Index(s)
		sym.Assert(sameTags(s, given), "the slice given is not changed")
		for j := range s {
			s[j] = dag.TagID(sym.U8("junk"))
		}
		for j := range sets {
			sym.Assert(sameTags(sets[j], ref) == (ids[j] == id), "equal sets share an ID and different sets do not")
		}
		sets, ids = append(sets, ref), append(ids, id)
	}
	y := x
	if sym.Bool("persisted") {
		w := &sink{limit: 1 << 20}
		sym.Assert(x.BinaryWriteTo(newWriter(w)) == nil, "the tag sets are written")
		r, src := reader(w.buf)
		y = index.TagSetIndex{{{9}}}
		sym.Assert(y.BinaryReadFrom(r) == nil, "the tag sets written are read")
		sym.Assert(src.pos == len(w.buf), "exactly the bytes written are read")
	}
	if sym.Bool("unknown") {
		q := index.TagSetID(sym.U32("q"))
		given := false
		for _, id := range ids {
			given = sym.Or(given, id == q)
		}
		_, ok := y.Get(q)
		sym.Assert(ok == given, "exactly the IDs given out are known")
		f := sortedTags(tagSet("f", sym.Choose("flen", max+2)))
		_, ok = y.Find(f)
		given = false
		for j := range sets {
			given = sym.Or(given, sameTags(sets[j], f))
		}
		sym.Assert(ok == given, "exactly the sets interned are found")
		sym.Cover("unknown")
		return
	}
	for j := range sets {
		got, ok := y.Get(ids[j])
		sym.Assert(ok && sameTags(got, sets[j]), "an ID answers with its set for ever")
		id, ok := y.Find(sets[j])
		sym.Assert(ok && id == ids[j], "an interned set is found under its ID")
		sym.Assert(y.Index(append(index.TagSet{}, sets[j]...)) == ids[j], "a set interned again keeps its ID")
	}
	var uniq []index.TagSetID
	for _, id := range ids {
		seen := false
		for _, o := range uniq {
			seen = seen || o == id
		}
		if !seen {
			uniq = append(uniq, id)
		}
	}
	listed := y.TableIDs()
	sym.Assert(len(listed) == len(uniq) && y.Size() == len(uniq), "as many are listed as were interned")
	for i, id := range listed {
		seen := false
		for _, o := range uniq {
			seen = sym.Or(seen, o == id)
		}
		for _, o := range listed[:i] {
			sym.Assert(o != id, "no ID is listed twice")
		}
		sym.Assert(seen, "exactly the IDs given out are listed")
	}
	sym.Cover("done")
}

// C12_Variants: the same for combinations of 1 to 2 (thorough: 1 to 3) arbitrary tag set IDs.
// verif: budget=90
func C12_Variants() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	x := index.VariantsIndex{}
	var sets []index.TagSetIDCollection
	var ids []index.VariantID
	for i := 0; i < 3; i++ {
		s := collection("v", 1+sym.Choose("len", max))
		given := append(index.TagSetIDCollection{}, s...)
		ref := sortedIDs(s)
		id := x.Index(s)
		sym.Assert(sameIDs(s, given), "the slice given is not changed")
		for j := range s {
			s[j] = index.TagSetID(sym.U32("junk"))
		}
		sym.Assert(id != 0, "no combination gets the ID that stands for none")
		for j := range sets {
			sym.Assert(sameIDs(sets[j], ref) == (ids[j] == id), "equal combinations share an ID and different ones do not")
		}
		sets, ids = append(sets, ref), append(ids, id)
	}
	y := x
	if sym.Bool("persisted") {
		w := &sink{limit: 1 << 20}
		sym.Assert(x.BinaryWriteTo(newWriter(w)) == nil, "the combinations are written")
		r, src := reader(w.buf)
		y = index.VariantsIndex{{{9}}}
		sym.Assert(y.BinaryReadFrom(r) == nil, "the combinations written are read")
		sym.Assert(src.pos == len(w.buf), "exactly the bytes written are read")
	}
	if sym.Bool("unknown") {
		q := index.VariantID(sym.U32("q"))
		given := false
		for _, id := range ids {
			given = sym.Or(given, id == q)
		}
		sym.Assert((len(y.Get(q)) > 0) == given, "exactly the IDs given out are known")
		f := sortedIDs(collection("f", 1+sym.Choose("flen", max+1)))
		_, ok := y.Find(f)
		given = false
		for j := range sets {
			given = sym.Or(given, sameIDs(sets[j], f))
		}
		sym.Assert(ok == given, "exactly the combinations interned are found")
		sym.Cover("unknown")
		return
	}
	for j := range sets {
		sym.Assert(sameIDs(y.Get(ids[j]), sets[j]), "an ID answers with its combination for ever")
		sym.Assert(sameIDs(y.Table(ids[j].TableNum()).Get(ids[j].CollectionTableID()), sets[j]), "and so does its table")
		id, ok := y.Find(sets[j])
		sym.Assert(ok && id == ids[j], "an interned combination is found under its ID")
		sym.Assert(y.Index(append(index.TagSetIDCollection{}, sets[j]...)) == ids[j], "a combination interned again keeps its ID")
	}
	var uniq []index.VariantID
	for _, id := range ids {
		seen := false
		for _, o := range uniq {
			seen = seen || o == id
		}
		if !seen {
			uniq = append(uniq, id)
		}
	}
	listed := y.KnownID()
	sym.Assert(len(listed) == len(uniq), "as many are listed as were interned")
	for i, id := range listed {
		for _, o := range listed[:i] {
			sym.Assert(o != id, "no ID is listed twice")
		}
		sym.Assert(index.CollectionIDList(uniq).Has(id), "exactly the IDs given out are listed")
	}
	sym.Cover("done")
}

// C12_Add: adding an arbitrary tag set ID to a combination of 0 to 2 (thorough: 3) sorted distinct arbitrary IDs, in a slice with or without
// room for more: the result is the sorted union, the original and what else was made of it stay as they were, membership is exact.
func C12_Add() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	c := collection("c", sym.Choose("len", max+1))
	for i := 1; i < len(c); i++ {
		sym.Assume(c[i-1] < c[i])
	}
	before := append(index.TagSetIDCollection{}, c...)
	if sym.Bool("room") {
		c = append(make(index.TagSetIDCollection, 0, 8), c...)
	}
	id := index.TagSetID(sym.U32("id"))
	has := false
	for _, o := range c {
		has = sym.Or(has, o == id)
	}
	sym.Assert(c.Has(id) == has, "membership is exact")
	r := c.Add(id)
	sym.Assert(sameIDs(c, before), "the original stays as it was")
	n := len(c)
	if !has {
		n++
	}
	sym.Assert(len(r) == n && r.Has(id), "the result holds the new one")
	for i := range r {
		if i > 0 {
			sym.Assert(r[i-1] < r[i], "the result is sorted without repetition")
		}
	}
	for _, o := range c {
		sym.Assert(r.Has(o), "the result holds all others")
	}
	sym.Assert(c.EqualTo(before) && !c.EqualTo(r) == !has, "comparing is exact")
	kept := append(index.TagSetIDCollection{}, r...)
	c.Add(index.TagSetID(sym.U32("another")))
	sym.Assert(sameIDs(c, before) && sameIDs(r, kept), "adding another one changes neither")
	sym.Cover("done")
}

// C12_Shared: a combination of 1 to 3 (thorough: 4) sorted distinct arbitrary IDs interned, got, and an arbitrary other ID added to what was got
// and interned as well: the first ID still gives the first combination, and both are found under their IDs.
// verif: budget=60
func C12_Shared() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	c := collection("c", 1+sym.Choose("len", max))
	for i := 1; i < len(c); i++ {
		sym.Assume(c[i-1] < c[i])
	}
	x := index.VariantsIndex{}
	id := x.Index(c)
	o := index.TagSetID(sym.U32("o"))
	for i := range c {
		sym.Assume(c[i] != o)
	}
	more := x.Get(id).Add(o)
	sym.Assert(sameIDs(x.Get(id), c), "adding to what was got keeps what is stored")
	both := append(index.TagSetIDCollection{}, more...)
	oid := x.Index(more)
	for i := range more {
		more[i] = index.TagSetID(sym.U32("junk"))
	}
	sym.Assert(oid != id, "different combinations have different IDs")
	sym.Assert(sameIDs(x.Get(id), c) && sameIDs(x.Get(oid), both), "an ID answers with its combination for ever")
	f, ok := x.Find(c)
	sym.Assert(ok && f == id, "the first one is found")
	f, ok = x.Find(both)
	sym.Assert(ok && f == oid, "the second one is found")
	sym.Cover("done")
}

// C12_Many: 20 tag sets, and 20 combinations, of 1 or 2 elements; an arbitrary one of 1 or 2 elements is looked for, got by an arbitrary ID
// and by table: all IDs still answer with what they stand for, and everything is still found under its ID.
// verif: budget=60
func C12_Many() {
	x, y := index.TagSetIndex{}, index.VariantsIndex{}
	var sets []index.TagSet
	var combos []index.TagSetIDCollection
	var sid []index.TagSetID
	var cid []index.VariantID
	for i := 0; i < 20; i++ {
		s := index.TagSet{dag.TagID(i)}
		c := index.TagSetIDCollection{index.TagSetID(i)}
		if i%3 > 0 {
			s, c = append(s, 200), append(c, 1<<16)
		}
		sets, combos = append(sets, s), append(combos, c)
		sid, cid = append(sid, x.Index(s)), append(cid, y.Index(c))
	}
	if sym.Bool("sets") {
		q := sortedTags(tagSet("q", 1+sym.Choose("len", 2)))
		id, ok := x.Find(q)
		if ok {
			got, known := x.Get(id)
			sym.Assert(known && sameTags(got, q), "the ID found gives the set")
		}
		x.Get(index.TagSetID(sym.U32("id")))
	} else {
		q := sortedIDs(collection("q", 1+sym.Choose("len", 2)))
		id, ok := y.Find(q)
		if ok {
			sym.Assert(sameIDs(y.Get(id), q), "the ID found gives the combination")
		}
		y.Get(index.VariantID(sym.U32("id")))
		y.KnownID()
	}
	for i := range sets {
		got, ok := x.Get(sid[i])
		sym.Assert(ok && sameTags(got, sets[i]), "an ID answers with its set for ever")
		id, ok := x.Find(sets[i])
		sym.Assert(ok && id == sid[i], "a set is found under its ID for ever")
		sym.Assert(sameIDs(y.Get(cid[i]), combos[i]), "an ID answers with its combination for ever")
		v, ok := y.Find(combos[i])
		sym.Assert(ok && v == cid[i], "a combination is found under its ID for ever")
	}
	sym.Cover("done")
}

// C11_Numbers: tag set IDs and variant IDs: all table numbers, all positions, all IDs, all increments of a table number or position.
func C11_Numbers() {
	t, s := index.TagSetTableNumber(sym.U16("t")), index.TagSetSubID(sym.U16("s"))
	id := t.TagSetID(s)
	sym.Assert(id.TagSetTableNumber() == t && id.TagSetSubID() == s, "a tag set ID gives its table and position back")
	sym.Assert(uint32(id) == uint32(t)<<16|uint32(s), "the table is the upper half")
	i := index.TagSetID(sym.U32("i"))
	sym.Assert(i.TagSetTableNumber().TagSetID(i.TagSetSubID()) == i, "splitting and composing gives every tag set ID back")
	t2, s2 := index.TagSetTableNumber(sym.U16("t2")), index.TagSetSubID(sym.U16("s2"))
	sym.Assert((t2.TagSetID(s2) == id) == sym.And(t == t2, s == s2), "different tables or positions give different tag set IDs")
	sym.Assert(t.Int() == int(t) && s.Int() == int(s) && uint16(t.ID16()) == uint16(t) && uint16(s.ID16()) == uint16(s), "numbers keep their value")
	n := sym.Int("n", -65536, 65536)
	sym.Assert(int(t.Add(n)) == (int(t)+n)&65535, "a table number is incremented")

	c, p := index.CollectionTableNumber(sym.U16("c")), index.VariantSubID(sym.U16("p"))
	v := c.VariantID(p)
	sym.Assert(v.TableNum() == c && v.CollectionTableID() == p, "a variant ID gives its table and position back")
	sym.Assert(uint32(v) == uint32(c)<<16|uint32(p), "the table is the upper half")
	w := index.VariantID(sym.U32("w"))
	sym.Assert(w.TableNum().VariantID(w.CollectionTableID()) == w, "splitting and composing gives every variant ID back")
	c2, p2 := index.CollectionTableNumber(sym.U16("c2")), index.VariantSubID(sym.U16("p2"))
	sym.Assert((c2.VariantID(p2) == v) == sym.And(c == c2, p == p2), "different tables or positions give different variant IDs")
	sym.Assert(uint16(c.ID16()) == uint16(c) && uint16(p.ID16()) == uint16(p), "numbers keep their value")
	sym.Assert(int(c.Add(n)) == (int(c)+n)&65535 && int(p.Add(n)) == (int(p)+n)&65535, "table numbers and positions are incremented")
	sym.Observe("ids", id, v)
	sym.Cover("done")
}

// C12_Order: tag sets of 0 to 4 arbitrary tags: sorting sorts them in place, comparing with another one of 0 to 4 is
// exact.
// verif: budget=60
func C12_Order() {
	s := tagSet("s", sym.Choose("len", 5))
	ref := sortedTags(s)
	o := tagSet("o", sym.Choose("olen", 5))
	sym.Assert(s.EqualTo(o) == sameTags(s, o), "comparing is exact")
	sym.Assert(s.EqualTo(o) == o.EqualTo(s), "comparing is symmetric")
	s.Sort()
	sym.Assert(sameTags(s, ref), "sorting sorts")
	sym.Cover("done")
}

// C12_Full: a table of tag sets, or of combinations, in which every ID but one, or every ID, is taken: a known content keeps its ID, a
// new arbitrary one gets the last ID or is refused, and what was known stays.
// verif: budget=90
func C12_Full() {
	n := 65535 + sym.Choose("n", 2)
	at := []int{0, 65534}[sym.Choose("at", 2)]
	if sym.Bool("variants") {
		t := make(index.VariantsTable, n)
		for i := range t {
			t[i] = index.TagSetIDCollection{index.TagSetID(i)}
		}
		sym.Assert(t.Index(index.TagSetIDCollection{index.TagSetID(at)}) == index.VariantSubID(at), "a known combination keeps its ID")
		v := index.TagSetID(70000 + uint32(sym.U8("v")))
		var id index.VariantSubID
		refused := sym.Panics(func() { id = t.Index(index.TagSetIDCollection{v}) })
		sym.Assert(refused == (n > 65535), "refused exactly if no ID is left")
		sym.Assert(sameIDs(t.Get(index.VariantSubID(at)), index.TagSetIDCollection{index.TagSetID(at)}), "what was known stays")
		if !refused {
			sym.Assert(id == 65535 && sameIDs(t.Get(id), index.TagSetIDCollection{v}), "the last ID is given out")
		}
		sym.Cover("variants")
		return
	}
	t := make(index.TagSetTable, n)
	for i := range t {
		t[i] = index.TagSet{0, dag.TagID(i >> 8), dag.TagID(i)}
	}
	sym.Assert(t.Index(append(index.TagSet{}, t[at]...)) == index.TagSetSubID(at) || at > 255, "a known set keeps its ID")
	v := dag.TagID(sym.U8("v"))
	sym.Assume(v > 0)
	var id index.TagSetSubID
	refused := sym.Panics(func() { id = t.Index(index.TagSet{255, 255, v}) })
	sym.Assert(refused == (n > 65535), "refused exactly if no ID is left")
	got, ok := t.Get(0)
	sym.Assert(ok && sameTags(got, index.TagSet{0, 0, 0}), "what was known stays")
	if !refused {
		got, ok := t.Get(id)
		sym.Assert(id == 65535 && ok && sameTags(got, index.TagSet{v, 255, 255}), "the last ID is given out")
	}
	sym.Cover("sets")
}

// C12_Limits: a tag set of 255 or 256 tags, a table of 65535 or 65536 tag sets, a combination of 255 or 256, a list of
// 255 or 256 tables: refused when written exactly if the length prefix cannot hold it; what is written reads back.
// verif: budget=90
func C12_Limits() {
	w := &sink{limit: 1 << 24}
	over := sym.Choose("over", 2)
	switch sym.Choose("what", 4) {
	case 0:
		s := make(index.TagSet, 255+over)
		s[0], s[254] = dag.TagID(sym.U8("a")), dag.TagID(sym.U8("b"))
		err := s.BinaryWriteTo(newWriter(w))
		sym.Assert((err != nil) == (over > 0), "refused exactly if too long")
		if err == nil {
			r, _ := reader(w.buf)
			var t index.TagSet
			sym.Assert(t.BinaryReadFrom(r) == nil && sameTags(s, t), "what is written reads back")
		}
	case 1:
		s := make(index.TagSetTable, 65535+over)
		for i := range s {
			s[i] = index.TagSet{7}
		}
		s[65534] = index.TagSet{dag.TagID(sym.U8("a"))}
		err := s.BinaryWriteTo(newWriter(w))
		sym.Assert((err != nil) == (over > 0), "refused exactly if too long")
		if err == nil {
			r, _ := reader(w.buf)
			var t index.TagSetTable
			sym.Assert(t.BinaryReadFrom(r) == nil && len(t) == len(s) && sameTags(s[65534], t[65534]), "what is written reads back")
		}
	case 2:
		s := make(index.TagSetIDCollection, 255+over)
		s[0], s[254] = index.TagSetID(sym.U32("a")), index.TagSetID(sym.U32("b"))
		err := s.BinaryWriteTo(newWriter(w))
		sym.Assert((err != nil) == (over > 0), "refused exactly if too long")
		if err == nil {
			r, _ := reader(w.buf)
			var t index.TagSetIDCollection
			sym.Assert(t.BinaryReadFrom(r) == nil && sameIDs(s, t), "what is written reads back")
		}
	case 3:
		s := make(index.VariantsIndex, 255+over)
		s[254] = index.VariantsTable{{index.TagSetID(sym.U32("a"))}}
		err := s.BinaryWriteTo(newWriter(w))
		sym.Assert((err != nil) == (over > 0), "refused exactly if too long")
		if err == nil {
			r, _ := reader(w.buf)
			var t index.VariantsIndex
			sym.Assert(t.BinaryReadFrom(r) == nil && len(t) == len(s) && sameIDs(s[254][0], t[254][0]), "what is written reads back")
		}
	}
	sym.Cover("done")
}

// C12_Bytes: every stream of up to 8 bytes read as a tag set, a table of tag sets, tag sets, a combination, a table of combinations, or all
// combinations: it never crashes, and if it is accepted, writing what was read gives the bytes read.
// verif: budget=90
func C12_Bytes() {
	n := 7
	if sym.Thorough() {
		n = 10
	}
	b := sym.Bytes("b", sym.Choose("len", n))
	src := &source{data: b, end: errFault}
	r := binutils.NewBinaryReader(common.FullReader(src)) // as the index reads them
	w := &sink{limit: 1 << 20}
	out := newWriter(w)
	var err, werr error
	switch sym.Choose("what", 6) {
	case 0:
		var x index.TagSet
		if err = x.BinaryReadFrom(r); err == nil {
			werr = x.BinaryWriteTo(out)
		}
	case 1:
		var x index.TagSetTable
		if err = x.BinaryReadFrom(r); err == nil {
			werr = x.BinaryWriteTo(out)
		}
	case 2:
		var x index.TagSetIndex
		if err = x.BinaryReadFrom(r); err == nil {
			werr = x.BinaryWriteTo(out)
		}
	case 3:
		var x index.TagSetIDCollection
		if err = x.BinaryReadFrom(r); err == nil {
			werr = x.BinaryWriteTo(out)
		}
	case 4:
		var x index.VariantsTable
		if err = x.BinaryReadFrom(r); err == nil {
			werr = x.BinaryWriteTo(out)
		}
	case 5:
		var x index.VariantsIndex
		if err = x.BinaryReadFrom(r); err == nil {
			werr = x.BinaryWriteTo(out)
		}
	}
	if err != nil {
		sym.Assert(src.pos == len(b), "refused only when bytes are missing")
		sym.Cover("refused")
		return
	}
	sym.Assert(werr == nil && string(w.buf) == string(b[:src.pos]), "what was read is what the bytes say")
	sym.Cover("accepted")
}

// C12_Stream: a tag set of 0 to 3 arbitrary tags written to a destination that takes an arbitrary number of bytes and
// read from a source that ends early at an arbitrary place, with reads split anywhere: success means all of it, and
// the number of bytes reported is what was taken.
// verif: budget=60
func C12_Stream() {
	s := tagSet("s", sym.Choose("len", 4))
	limit := sym.Choose("limit", 6)
	w := &sink{limit: limit, short: sym.Bool("short"), once: sym.Bool("once")}
	n, err := s.WriteTo(w)
	sym.Assert((err == nil) == (limit > len(s)), "success means everything was written")
	sym.Assert(int(n) == len(w.buf), "the number of bytes written is exact")
	if err != nil {
		return
	}
	var t index.TagSet
	if sym.Bool("used") {
		t = index.TagSet{1, 2, 3, 4, 5}
	}
	src := &source{data: w.buf[:len(w.buf)-sym.Choose("cut", len(w.buf))], chunked: true, eofEarly: sym.Bool("eof"), end: errFault}
	n, err = t.ReadFrom(src)
	sym.Assert((err == nil) == (len(src.data) == len(w.buf)), "success means everything was read")
	sym.Assert(int(n) == src.pos, "the number of bytes read is exact")
	if err == nil {
		sym.Assert(sameTags(s, t), "what was written is read")
	}
	sym.Cover("done")
}

// C12_Lengths: tag sets and combinations of 1 to 255 elements, the first arbitrary and below the others, interned after those of another
// length: contents of any length get IDs of their own, also when one is the beginning of the other, which give them back, in memory and after writing and reading.
// verif: budget=120
func C12_Lengths() {
	k := 1 + sym.Choose("len", 255)
	other := []int{1, k - 1, k + 1, 130}[sym.Choose("other", 4)]
	if other == 0 || other == k || other > 255 {
		return
	}
	v, w := sym.U8("v"), sym.U8("w")
	sym.Assume(v < 200 && w < 200 && v != w)
	rise := func(n int, first uint8) (s index.TagSet, c index.TagSetIDCollection) {
		for i := 0; i < n; i++ {
			s = append(s, dag.TagID(200+i*55/n))
			c = append(c, index.TagSetID(200+i*700))
		}
		s[0], c[0] = dag.TagID(first), index.TagSetID(first)
		return s, c
	}
	sa, ca := rise(other, v)
	sb, cb := rise(k, v)
	sc, cc := rise(k, w)
	persisted := sym.Bool("persisted")
	if sym.Bool("sets") {
		x := index.TagSetIndex{}
		ia, ib, ic := x.Index(sa), x.Index(sb), x.Index(sc)
		if persisted {
			w := &sink{limit: 1 << 20}
			sym.Assert(x.BinaryWriteTo(newWriter(w)) == nil, "the tag sets are written")
			r, src := reader(w.buf)
			x = nil
			sym.Assert(x.BinaryReadFrom(r) == nil && src.pos == len(w.buf), "the tag sets written are read")
		}
		sym.Assert(ia != ib && ia != ic && ib != ic, "different sets get different IDs")
		ga, oka := x.Get(ia)
		gb, okb := x.Get(ib)
		gc, okc := x.Get(ic)
		sym.Assert(oka && okb && okc && sameTags(ga, sa) && sameTags(gb, sb) && sameTags(gc, sc), "every ID gives its set")
		fb, okb := x.Find(sb)
		fc, okc := x.Find(sc)
		sym.Assert(okb && okc && fb == ib && fc == ic, "every set is found under its ID")
		sym.Assert(x.Index(sb) == ib, "a known set keeps its ID")
	} else {
		x := index.VariantsIndex{}
		ia, ib, ic := x.Index(ca), x.Index(cb), x.Index(cc)
		if persisted {
			w := &sink{limit: 1 << 20}
			sym.Assert(x.BinaryWriteTo(newWriter(w)) == nil, "the combinations are written")
			r, src := reader(w.buf)
			x = nil
			sym.Assert(x.BinaryReadFrom(r) == nil && src.pos == len(w.buf), "the combinations written are read")
		}
		sym.Assert(ia != ib && ia != ic && ib != ic, "different combinations get different IDs")
		sym.Assert(sameIDs(x.Get(ia), ca) && sameIDs(x.Get(ib), cb) && sameIDs(x.Get(ic), cc), "every ID gives its combination")
		fb, okb := x.Find(cb)
		fc, okc := x.Find(cc)
		sym.Assert(okb && okc && fb == ib && fc == ic, "every combination is found under its ID")
		sym.Assert(x.Index(cb) == ib, "a known combination keeps its ID")
	}
	sym.Cover("done")
}

// C12_LongTable: 300 tag sets, or combinations, of two elements, of which one (the first, the last, or around places 127 and 255) is arbitrary, in
// memory and after writing and reading: all IDs differ and give back what they stand for, everything is found, and listed.
// verif: budget=120
func C12_LongTable() {
	const n = 300
	at := []int{0, 126, 127, 128, 254, 255, 256, 299}[sym.Choose("at", 8)]
	v := sym.U8("v")
	persisted := sym.Bool("persisted")
	if sym.Bool("sets") {
		x := index.TagSetIndex{}
		var sets []index.TagSet
		var ids []index.TagSetID
		for i := 0; i < n; i++ {
			s := index.TagSet{dag.TagID(i % 100), dag.TagID(150 + i/100)}
			if i == at {
				s = index.TagSet{100, dag.TagID(v)}
			}
			sets, ids = append(sets, sortedTags(s)), append(ids, x.Index(s))
		}
		if persisted {
			w := &sink{limit: 1 << 20}
			sym.Assert(x.BinaryWriteTo(newWriter(w)) == nil, "the tag sets are written")
			r, src := reader(w.buf)
			x = nil
			sym.Assert(x.BinaryReadFrom(r) == nil && src.pos == len(w.buf), "the tag sets written are read")
		}
		for i, id := range x.TableIDs() {
			sym.Assert(id == ids[i], "the IDs given out are listed")
		}
		sym.Assert(x.Size() == n && len(x.TableIDs()) == n, "as many are listed as were interned")
		for i := range sets {
			got, ok := x.Get(ids[i])
			sym.Assert(ok && sameTags(got, sets[i]), "an ID gives its set")
			id, ok := x.Find(sets[i])
			sym.Assert(ok && id == ids[i], "a set is found under its ID")
		}
	} else {
		x := index.VariantsIndex{}
		var combos []index.TagSetIDCollection
		var ids []index.VariantID
		for i := 0; i < n; i++ {
			c := index.TagSetIDCollection{index.TagSetID(i), 0x7fffffff}
			if i == at {
				c = index.TagSetIDCollection{index.TagSetID(v), 0x80000000}
			}
			combos, ids = append(combos, sortedIDs(c)), append(ids, x.Index(c))
		}
		if persisted {
			w := &sink{limit: 1 << 20}
			sym.Assert(x.BinaryWriteTo(newWriter(w)) == nil, "the combinations are written")
			r, src := reader(w.buf)
			x = nil
			sym.Assert(x.BinaryReadFrom(r) == nil && src.pos == len(w.buf), "the combinations written are read")
		}
		for i, id := range x.KnownID() {
			sym.Assert(id == ids[i], "the IDs given out are listed")
		}
		sym.Assert(len(x.KnownID()) == n, "as many are listed as were interned")
		for i := range combos {
			sym.Assert(sameIDs(x.Get(ids[i]), combos[i]), "an ID gives its combination")
			id, ok := x.Find(combos[i])
			sym.Assert(ok && id == ids[i], "a combination is found under its ID")
		}
	}
	sym.Cover("done")
}

// C12_Following: a table of 0 to 4 (thorough: 0 to 6) different combinations, or of 300: the IDs following any ID are those of the
// table above it, in order.
// verif: budget=30
func C12_Following() {
	max := 5
	if sym.Thorough() {
		max = 7
	}
	n := sym.Choose("n", max+1)
	if n == max {
		n = 300
	}
	var t index.VariantsTable
	for i := 0; i < n; i++ {
		t.Index(index.TagSetIDCollection{index.TagSetID(i)})
	}
	id := index.VariantSubID(sym.U16("id"))
	if n == 300 {
		sym.Assume(sym.Or(id < 3, id > 253))
		sym.Assume(sym.Or(id < 258, id > 296))
	}
	got := t.Following(id)
	want := 0
	for i := 0; i < n; i++ {
		if index.VariantSubID(i) > id {
			sym.Assert(want < len(got) && got[want] == index.VariantSubID(i), "the IDs following one are those above it")
			want++
		}
	}
	sym.Assert(len(got) == want, "no other IDs follow")
	sym.Cover("done")
}
