package hstorage

import (
	"sort"

	"github.com/amarin/gomorphy/pkg/storage"
	"verif.test/v/sym"
)

// reference: a set without order is compared through its sorted copy
func sorted8(s storage.Set8) storage.Set8 {
	r := append(storage.Set8{}, s...)
	for i := 1; i < len(r); i++ {
		for j := i; j > 0; j-- {
			a, b := r[j-1], r[j]
			if b < a {
				a, b = b, a
			}
			r[j-1], r[j] = a, b
		}
	}
	return r
}

func sorted16(s storage.Set16) storage.Set16 {
	r := append(storage.Set16{}, s...)
	for i := 1; i < len(r); i++ {
		for j := i; j > 0; j-- {
			a, b := r[j-1], r[j]
			if b < a {
				a, b = b, a
			}
			r[j-1], r[j] = a, b
		}
	}
	return r
}

func calls() int {
	if sym.Thorough() {
		return 4
	}
	return 3
}

// C09_Table8: 3 (thorough 4) Index calls on a Table8 with arbitrary sets of one length (1..2): equal sets, in any order
// of elements, get one id, others different ids, counted from 0; every id answers with its sorted set, also after the
// caller reuses the slices it passed; an arbitrary other id is not found.
func C09_Table8() {
	var t storage.Table8
	ln := 1 + sym.Choose("len", 2)
	var sets []storage.Set8
	var ids []storage.ID8
	distinct := 0
	for i := 0; i < calls(); i++ {
		s := set8("v", ln)
		ref := sorted8(s)
		id := t.Index(s)
		for j := range s { // the caller reuses its slice
			s[j] = storage.ID8(sym.U8("junk"))
		}
		known := false
		for j := range sets {
			eq := same8(sets[j], ref)
			sym.Assert(eq == (ids[j] == id), "equal sets share an id and different sets do not")
			known = sym.Or(known, eq)
		}
		if !known {
			sym.Assert(int(id) == distinct, "new sets are numbered in order")
			distinct++
		}
		sets, ids = append(sets, ref), append(ids, id)
		for j := range sets {
			got, ok := t.Get(ids[j])
			sym.Assert(ok && same8(got, sets[j]), "an id answers with its set for ever")
			fid, ok := t.Find(sets[j])
			sym.Assert(ok && fid == ids[j], "an indexed set is found under its id")
		}
	}
	q := storage.ID8(sym.U8("q"))
	_, ok := t.Get(q)
	sym.Assert(ok == (int(q) < distinct), "only ids given out are found")
	sym.Observe("t8", ids, len(t))
	sym.Cover("done")
}

// C09_Table16: the same for Table16.
func C09_Table16() {
	var t storage.Table16
	ln := 1 + sym.Choose("len", 2)
	var sets []storage.Set16
	var ids []storage.ID16
	distinct := 0
	for i := 0; i < calls(); i++ {
		s := set16("v", ln)
		ref := sorted16(s)
		id := t.Index(s)
		for j := range s {
			s[j] = storage.ID16(sym.U16("junk"))
		}
		known := false
		for j := range sets {
			eq := same16(sets[j], ref)
			sym.Assert(eq == (ids[j] == id), "equal sets share an id and different sets do not")
			known = sym.Or(known, eq)
		}
		if !known {
			sym.Assert(int(id) == distinct, "new sets are numbered in order")
			distinct++
		}
		sets, ids = append(sets, ref), append(ids, id)
		for j := range sets {
			got, ok := t.Get(ids[j])
			sym.Assert(ok && same16(got, sets[j]), "an id answers with its set for ever")
			fid, ok := t.Find(sets[j])
			sym.Assert(ok && fid == ids[j], "an indexed set is found under its id")
		}
	}
	q := storage.ID16(sym.U16("q"))
	_, ok := t.Get(q)
	sym.Assert(ok == (int(q) < distinct), "only ids given out are found")
	sym.Observe("t16", ids, len(t))
	sym.Cover("done")
}

// C09_Collection8: 3 (thorough 4) Index calls on a Collection8x8 with arbitrary sets of lengths 1..3.
// verif: budget=60
func C09_Collection8() {
	c := storage.Collection8x8{}
	var sets []storage.Set8
	var ids []storage.ID16
	for i := 0; i < calls(); i++ {
		s := set8("v", 1+sym.Choose("len", 3))
		ref := sorted8(s)
		id := c.Index(s)
		for j := range s {
			s[j] = storage.ID8(sym.U8("junk"))
		}
		sym.Assert(int(id.Upper()) == len(ref)-1, "the upper half of an id is the length less one")
		for j := range sets {
			sym.Assert(same8(sets[j], ref) == (ids[j] == id), "equal sets share an id and different sets do not")
		}
		sets, ids = append(sets, ref), append(ids, id)
		for j := range sets {
			got, ok := c.Get(ids[j])
			sym.Assert(ok && same8(got, sets[j]), "an id answers with its set for ever")
		}
	}
	q := storage.ID16(sym.U16("q"))
	_, ok := c.Get(q)
	given := false
	for _, id := range ids {
		given = sym.Or(given, id == q)
	}
	sym.Assert(ok == given, "only ids given out are found")
	sym.Observe("c8", ids)
	sym.Cover("done")
}

// C09_Collection16: 3 (thorough 4) Index calls on a Collection16 with arbitrary sets of lengths 1..3.
// verif: budget=60
func C09_Collection16() {
	c := storage.Collection16{}
	var sets []storage.Set16
	var ids []storage.ID32
	for i := 0; i < calls(); i++ {
		s := set16("v", 1+sym.Choose("len", 3))
		ref := sorted16(s)
		id := c.Index(s)
		for j := range s {
			s[j] = storage.ID16(sym.U16("junk"))
		}
		sym.Assert(int(id.Upper16()) == len(ref)-1, "the upper half of an id is the length less one")
		for j := range sets {
			sym.Assert(same16(sets[j], ref) == (ids[j] == id), "equal sets share an id and different sets do not")
		}
		sets, ids = append(sets, ref), append(ids, id)
		for j := range sets {
			got, ok := c.Get(ids[j])
			sym.Assert(ok && same16(got, sets[j]), "an id answers with its set for ever")
		}
	}
	q := storage.ID32(sym.U32("q"))
	_, ok := c.Get(q)
	given := false
	for _, id := range ids {
		given = sym.Or(given, id == q)
	}
	sym.Assert(ok == given, "only ids given out are found")
	sym.Observe("c16", ids)
	sym.Cover("done")
}

// C09_Full8: a Table8 holding 255 or 256 different sets of two elements, and one more arbitrary set that is not among
// them: the set gets an id that answers with it, while all earlier ids keep theirs, or, if all 256 ids are in use, the
// table refuses by panicking.
func C09_Full8() {
	var t storage.Table8
	k := 255 + sym.Choose("more", 2)
	for i := 0; i < k; i++ {
		id := t.Index(storage.Set8{storage.ID8(i), 255})
		sym.Assert(int(id) == i, "new sets are numbered in order")
	}
	s := set8("v", 2)
	sym.Assume(s[0] < 255 && s[1] < 255)
	ref := sorted8(s)
	var id storage.ID8
	if sym.Panics(func() { id = t.Index(s) }) {
		sym.Assert(k == 256, "a table that is not full takes a set")
		sym.Cover("refused")
	} else {
		got, ok := t.Get(id)
		sym.Assert(ok && same8(got, ref), "an id answers with its set for ever")
		sym.Cover("taken")
	}
	for i := 0; i < k; i++ {
		got, ok := t.Get(storage.ID8(i))
		sym.Assert(ok && same8(got, sorted8(storage.Set8{storage.ID8(i), 255})), "an id answers with its set for ever")
	}
	sym.Assert(!sym.Panics(func() { id = t.Index(storage.Set8{255, 17}) }) && id == 17, "a known set keeps its id")
}

// C09_FullCollection16: a Collection16 with 65535 or 65536 different sets of one element plus one more arbitrary one.
// The table is filled directly, not by calls.
// verif: budget=60
func C09_FullCollection16() {
	k := 65535 + sym.Choose("more", 2)
	t := make(storage.Table16, k)
	one := storage.Set16{7, 7}
	for i := range t {
		t[i] = one // what is stored matters only for Find
	}
	c := storage.Collection16{storage.Table16{}, t}
	v := storage.ID16(sym.U16("v"))
	sym.Assume(v != 7)
	var id storage.ID32
	if sym.Panics(func() { id = c.Index(storage.Set16{v, v}) }) {
		sym.Assert(k == 65536, "a table that is not full takes a set")
		sym.Cover("refused")
		return
	}
	got, ok := c.Get(id)
	sym.Assert(ok && same16(got, storage.Set16{v, v}), "an id answers with its set for ever")
}

// C09_Lengths: sets of 1 to 256 elements (for 16-bit collections also 257, 300 and 1000), the first arbitrary and below the others,
// indexed after a set of another length: sets of any length get distinct ids, also when one is the beginning of the other, which answer
// with them, and are found.
// verif: budget=90
func C09_Lengths() {
	long := []int{257, 300, 1000}
	k := 1 + sym.Choose("len", 256+len(long))
	if k > 256 {
		k = long[k-257]
	}
	other := []int{1, k - 1, k + 1, 130}[sym.Choose("other", 4)]
	if other == 0 || other == k {
		return
	}
	v, w := sym.U8("v"), sym.U8("w")
	sym.Assume(v < 200 && w < 200 && v != w)
	rise := func(n int, first uint8) storage.Set16 {
		s := make(storage.Set16, n)
		for i := range s {
			s[i] = storage.ID16(200 + i*55/n)
		}
		s[0] = storage.ID16(first)
		return s
	}
	narrow := func(s storage.Set16) storage.Set8 {
		r := make(storage.Set8, len(s))
		for i := range s {
			r[i] = storage.ID8(s[i])
		}
		return r
	}
	a, b, c := rise(other, v), rise(k, v), rise(k, w)
	{
		var all storage.Collection16
		ia := all.Index(append(storage.Set16{}, a...))
		ib := all.Index(append(storage.Set16{}, b...))
		ic := all.Index(append(storage.Set16{}, c...))
		sym.Assert(ia != ib && ia != ic && ib != ic, "different sets get different ids")
		ga, oka := all.Get(ia)
		gb, okb := all.Get(ib)
		gc, okc := all.Get(ic)
		sym.Assert(oka && okb && okc && same16(ga, a) && same16(gb, b) && same16(gc, c), "every id answers with its set")
		fb, okb := all.Find(b)
		fc, okc := all.Find(c)
		sym.Assert(okb && okc && fb == ib && fc == ic, "every set is found under its id")
		sym.Assert(all.Index(append(storage.Set16{}, b...)) == ib, "a known set keeps its id")
	}
	if k > 256 || other > 256 {
		return
	}
	{
		var all storage.Collection8x8
		a, b, c := narrow(a), narrow(b), narrow(c)
		ia := all.Index(append(storage.Set8{}, a...))
		ib := all.Index(append(storage.Set8{}, b...))
		ic := all.Index(append(storage.Set8{}, c...))
		sym.Assert(ia != ib && ia != ic && ib != ic, "different sets get different ids")
		ga, oka := all.Get(ia)
		gb, okb := all.Get(ib)
		gc, okc := all.Get(ic)
		sym.Assert(oka && okb && okc && same8(ga, a) && same8(gb, b) && same8(gc, c), "every id answers with its set")
		fb, okb := all.Find(b)
		fc, okc := all.Find(c)
		sym.Assert(okb && okc && fb == ib && fc == ic, "every set is found under its id")
		sym.Assert(all.Index(append(storage.Set8{}, b...)) == ib, "a known set keeps its id")
	}
	sym.Cover("done")
}

// C10_Collection8: a Collection8x8 after 0..2 (thorough 0..3) Index calls with arbitrary sets of lengths 1..3 (those
// after the first given in order); Find of an arbitrary sorted set of length 0..5 never panics, finds exactly the sets indexed, under the id Index gave, and
// changes nothing.
// verif: budget=60
func C10_Collection8() {
	c := storage.Collection8x8{}
	k := sym.Choose("calls", calls())
	var sets []storage.Set8
	var ids []storage.ID16
	for i := 0; i < k; i++ {
		s := set8("v", 1+sym.Choose("len", 3))
		if i > 0 {
			sym.Assume(same8(s, sorted8(s))) // any order is C09's subject
		}
		ids = append(ids, c.Index(append(storage.Set8{}, s...)))
		sets = append(sets, sorted8(s))
	}
	q := sorted8(set8("q", sym.Choose("qlen", 6)))
	before := len(c)
	qq := append(storage.Set8{}, q...)
	id, found := c.Find(q)
	known := false
	for j := range sets {
		eq := same8(sets[j], q)
		sym.Assert(sym.Implies(eq, sym.And(found, id == ids[j])), "an indexed set is found under its id")
		known = sym.Or(known, eq)
	}
	sym.Assert(found == known, "only indexed sets are found")
	sym.Assert(len(c) == before && same8(q, qq), "a lookup changes nothing")
	sym.Observe("f8", id, found)
	sym.Cover("done")
}

// C10_Collection16: the same for Collection16.
// verif: budget=60
func C10_Collection16() {
	c := storage.Collection16{}
	k := sym.Choose("calls", calls())
	var sets []storage.Set16
	var ids []storage.ID32
	for i := 0; i < k; i++ {
		s := set16("v", 1+sym.Choose("len", 3))
		if i > 0 {
			sym.Assume(same16(s, sorted16(s))) // any order is C09's subject
		}
		ids = append(ids, c.Index(append(storage.Set16{}, s...)))
		sets = append(sets, sorted16(s))
	}
	q := sorted16(set16("q", sym.Choose("qlen", 6)))
	before := len(c)
	qq := append(storage.Set16{}, q...)
	id, found := c.Find(q)
	known := false
	for j := range sets {
		eq := same16(sets[j], q)
		sym.Assert(sym.Implies(eq, sym.And(found, id == ids[j])), "an indexed set is found under its id")
		known = sym.Or(known, eq)
	}
	sym.Assert(found == known, "only indexed sets are found")
	sym.Assert(len(c) == before && same16(q, qq), "a lookup changes nothing")
	sym.Observe("f16", id, found)
	sym.Cover("done")
}

// C10_Tables: Find on Table8 and Table16 holding 0..2 arbitrary sets of two elements, asked for an arbitrary set of
// 0..3 elements in sorted order, and Get of an arbitrary id: no panic, and exactly what is stored is found.
func C10_Tables() {
	k := sym.Choose("k", 3)
	var t8 storage.Table8
	var t16 storage.Table16
	for i := 0; i < k; i++ {
		t8.Index(set8("v", 2))
		t16.Index(set16("w", 2))
	}
	q8, q16 := sorted8(set8("q", sym.Choose("qlen", 4))), sorted16(set16("r", sym.Choose("rlen", 4)))
	id8, ok8 := t8.Find(q8)
	any8 := false
	for i := range t8 {
		any8 = sym.Or(any8, same8(t8[i], q8))
	}
	sym.Assert(ok8 == any8, "only indexed sets are found")
	if ok8 {
		got, ok := t8.Get(id8)
		sym.Assert(ok && same8(got, q8), "the id found answers with the set")
	}
	id16, ok16 := t16.Find(q16)
	any16 := false
	for i := range t16 {
		any16 = sym.Or(any16, same16(t16[i], q16))
	}
	sym.Assert(ok16 == any16, "only indexed sets are found")
	if ok16 {
		got, ok := t16.Get(id16)
		sym.Assert(ok && same16(got, q16), "the id found answers with the set")
	}
	g8, g16 := storage.ID8(sym.U8("g8")), storage.ID16(sym.U16("g16"))
	_, ok := t8.Get(g8)
	sym.Assert(ok == (int(g8) < len(t8)), "Get finds exactly the ids in use")
	_, ok = t16.Get(g16)
	sym.Assert(ok == (int(g16) < len(t16)), "Get finds exactly the ids in use")
	sym.Cover("done")
}

// C10_Keeps: collections of 8-bit and 16-bit sets, and tables, of 20 sets of 2 elements: after Find of an arbitrary sorted set of two elements and
// Get of an arbitrary id, all ids still answer with their sets and every set is still found under its id.
// verif: budget=60
func C10_Keeps() {
	c8, c16 := storage.Collection8x8{}, storage.Collection16{}
	var t8 storage.Table8
	var t16 storage.Table16
	var ic8 [20]storage.ID16
	var ic16 [20]storage.ID32
	var it8 [20]storage.ID8
	var it16 [20]storage.ID16
	for i := 0; i < 20; i++ {
		ic8[i] = c8.Index(storage.Set8{storage.ID8(i), 99})
		it8[i] = t8.Index(storage.Set8{storage.ID8(i), 99})
		ic16[i] = c16.Index(storage.Set16{storage.ID16(i), 999})
		it16[i] = t16.Index(storage.Set16{storage.ID16(i), 999})
	}
	switch sym.Choose("what", 4) {
	case 0:
		q := sorted8(set8("q", 2))
		if id, ok := c8.Find(q); ok {
			got, known := c8.Get(id)
			sym.Assert(known && same8(got, q), "the id found answers with the set")
		}
		c8.Get(storage.ID16(sym.U16("id")))
	case 1:
		q := sorted16(set16("q", 2))
		if id, ok := c16.Find(q); ok {
			got, known := c16.Get(id)
			sym.Assert(known && same16(got, q), "the id found answers with the set")
		}
		c16.Get(storage.ID32(sym.U32("id")))
	case 2:
		q := sorted8(set8("q", 2))
		if id, ok := t8.Find(q); ok {
			got, known := t8.Get(id)
			sym.Assert(known && same8(got, q), "the id found answers with the set")
		}
		t8.Get(storage.ID8(sym.U8("id")))
	default:
		q := sorted16(set16("q", 2))
		if id, ok := t16.Find(q); ok {
			got, known := t16.Get(id)
			sym.Assert(known && same16(got, q), "the id found answers with the set")
		}
		t16.Get(storage.ID16(sym.U16("id")))
	}
	for i := 0; i < 20; i++ {
		s8, s16 := storage.Set8{storage.ID8(i), 99}, storage.Set16{storage.ID16(i), 999}
		a, ok := c8.Get(ic8[i])
		sym.Assert(ok && same8(a, s8), "an id answers with its set for ever")
		b, ok := c16.Get(ic16[i])
		sym.Assert(ok && same16(b, s16), "an id answers with its set for ever")
		a, ok = t8.Get(it8[i])
		sym.Assert(ok && same8(a, s8), "an id answers with its set for ever")
		b, ok = t16.Get(it16[i])
		sym.Assert(ok && same16(b, s16), "an id answers with its set for ever")
		i8, ok := c8.Find(s8)
		sym.Assert(ok && i8 == ic8[i], "a set is found under its id for ever")
		i16, ok := c16.Find(s16)
		sym.Assert(ok && i16 == ic16[i], "a set is found under its id for ever")
	}
	sym.Cover("done")
}

// C10_EmptySet: Find of a nil or empty set in empty and filled collections reports not found; Index of an empty set is
// refused by a panic and leaves the collection as it was.
func C10_EmptySet() {
	c8, c16 := storage.Collection8x8{}, storage.Collection16{}
	if sym.Bool("filled") {
		c8.Index(set8("v", 1))
		c16.Index(set16("v", 1))
	}
	n8, n16 := len(c8), len(c16)
	var e8 storage.Set8
	var e16 storage.Set16
	if sym.Bool("notnil") {
		e8, e16 = storage.Set8{}, storage.Set16{}
	}
	_, ok := c8.Find(e8)
	sym.Assert(!ok, "the empty set is not found")
	_, ok = c16.Find(e16)
	sym.Assert(!ok, "the empty set is not found")
	sym.Assert(sym.Panics(func() { c8.Index(e8) }), "the empty set is not indexed")
	sym.Assert(sym.Panics(func() { c16.Index(e16) }), "the empty set is not indexed")
	sym.Assert(len(c8) == n8 && len(c16) == n16, "a refused set leaves the collection as it was")
	var t8 storage.Table8
	var t16 storage.Table16
	if n8 > 0 {
		t8, t16 = append(t8, set8("t", 1)), append(t16, set16("t", 1))
	}
	_, ok = t8.Find(e8)
	sym.Assert(!ok, "the empty set is not found")
	_, ok = t16.Find(e16)
	sym.Assert(!ok, "the empty set is not found")
	sym.Assert(sym.Panics(func() { t8.Index(e8) }), "the empty set is not indexed")
	sym.Assert(sym.Panics(func() { t16.Index(e16) }), "the empty set is not indexed")
	sym.Assert(len(t8) == n8 && len(t16) == n16, "a refused set leaves the table as it was")
}

// C11_Combine: all pairs of ID8, all pairs of ID16, all ID16 and all ID32.
func C11_Combine() {
	h, l := storage.ID8(sym.U8("h")), storage.ID8(sym.U8("l"))
	c := storage.Combine8(h, l)
	sym.Assert(c.Upper() == h && c.Lower() == l, "splitting returns the combined halves")
	sym.Assert(uint16(c) == uint16(h)*256+uint16(l), "the upper half is the high byte")
	x := storage.ID16(sym.U16("x"))
	sym.Assert(storage.Combine8(x.Upper(), x.Lower()) == x, "combining the halves returns the id")

	H, L := storage.ID16(sym.U16("H")), storage.ID16(sym.U16("L"))
	C := storage.Combine16(H, L)
	sym.Assert(C.Upper16() == H && C.Lower16() == L, "splitting returns the combined halves")
	sym.Assert(C.Uint32() == uint32(H)*65536+uint32(L), "the upper half is the high word")
	X := storage.ID32(sym.U32("X"))
	sym.Assert(storage.Combine16(X.Upper16(), X.Lower16()) == X, "combining the halves returns the id")
	sym.Assert(X.Uint32() == uint32(X), "Uint32 is the value")

	h2, l2 := storage.ID8(sym.U8("h2")), storage.ID8(sym.U8("l2"))
	sym.Assert((storage.Combine8(h2, l2) == c) == sym.And(h == h2, l == l2), "different pairs give different ids")
	H2, L2 := storage.ID16(sym.U16("H2")), storage.ID16(sym.U16("L2"))
	sym.Assert((storage.Combine16(H2, L2) == C) == sym.And(H == H2, L == L2), "different pairs give different ids")
	sym.Observe("comb", c, C, x.Upper(), X.Lower16())
	sym.Cover("done")
}

// C24_Sort: Set8 and Set16 of 0..4 (thorough 0..5) arbitrary elements: sorting gives an ascending permutation.
// verif: budget=60
func C24_Sort() {
	m := 4
	if sym.Thorough() {
		m = 5
	}
	k := sym.Choose("len", m+1)
	a, b := set8("v", k), set16("w", k)
	ra, rb := sorted8(a), sorted16(b)
	a.Sort()
	b.Sort()
	sym.Assert(len(a) == k && len(b) == k, "sorting keeps the length")
	sym.Assert(same8(a, ra), "Set8.Sort gives the ascending permutation")
	sym.Assert(same16(b, rb), "Set16.Sort gives the ascending permutation")
	sym.Observe("sort", a, b)
	a.Sort()
	b.Sort()
	sym.Assert(same8(a, ra) && same16(b, rb), "sorting again changes nothing")
	sym.Cover("done")
}

// C24_SortLong: Set8 and Set16 of 12, 13, 20, 33, 64 or 130 (thorough: also 255 and 300) elements, of which one (the first, second, middle or
// last) is arbitrary and the others are in ascending, descending or mixed order: sorting gives the ascending permutation.
// verif: budget=90
func C24_SortLong() {
	long := []int{12, 13, 20, 33, 64, 130}
	if sym.Thorough() {
		long = append(long, 255, 300)
	}
	k := long[sym.Choose("len", len(long))]
	order, at := sym.Choose("order", 3), []int{0, 1, k / 2, k - 1}[sym.Choose("at", 4)]
	wide := sym.Bool("wide")
	a, b := make(storage.Set8, k), make(storage.Set16, k)
	rest := make([]int, 0, k)
	for i := range a {
		v := []int{i * 3, (k - i) * 3, i * 7919}[order] & 0xffff
		if !wide {
			v &= 0xff
		}
		a[i], b[i] = storage.ID8(v), storage.ID16(v)
		if i != at {
			rest = append(rest, v)
		}
	}
	v := 0
	if wide {
		b[at] = storage.ID16(sym.U16("v"))
		v = int(b[at])
		b.Sort()
	} else {
		a[at] = storage.ID8(sym.U8("v"))
		v = int(a[at])
		a.Sort()
	}
	sort.Ints(rest)
	same := true
	for i := range a {
		got := int(a[i])
		if wide {
			got = int(b[i])
		}
		// v moves everything above it one place up
		want := v
		if i < k-1 {
			want = sym.Ite(rest[i] < want, rest[i], want)
		}
		if i > 0 {
			want = sym.Ite(rest[i-1] > want, rest[i-1], want)
		}
		same = sym.And(same, got == want)
	}
	sym.Assert(same, "sorting gives the ascending permutation")
	sym.Cover("done")
}

// C24_Equal: EqualTo on Set8 and Set16 of 0..5 elements each: true exactly for equal length and elements, either
// way round, and nothing is changed.
func C24_Equal() {
	ka, kb := sym.Choose("la", 6), sym.Choose("lb", 6)
	a, b := set8("a", ka), set8("b", kb)
	a0, b0 := append(storage.Set8{}, a...), append(storage.Set8{}, b...)
	sym.Assert(a.EqualTo(b) == same8(a0, b0), "Set8.EqualTo compares the elements")
	c, d := set16("c", ka), set16("d", kb)
	c0, d0 := append(storage.Set16{}, c...), append(storage.Set16{}, d...)
	sym.Assert(c.EqualTo(d) == same16(c0, d0), "Set16.EqualTo compares the elements")
	sym.Assert(a.EqualTo(a) && c.EqualTo(c), "a set equals itself")
	sym.Assert(b.EqualTo(a) == same8(a0, b0) && d.EqualTo(c) == same16(c0, d0), "comparing is symmetric")
	sym.Assert(same8(a, a0) && same8(b, b0) && same16(c, c0) && same16(d, d0), "comparing changes nothing")
	sym.Cover("done")
}

// C24_EqualLong: Set8 and Set16 of 9, 16, 17, 33, 65, 129 or 254..257 elements that differ at one arbitrary position, or not.
func C24_EqualLong() {
	long := []int{9, 16, 17, 33, 65, 129, 254, 255, 256, 257}
	k := long[sym.Choose("len", len(long))]
	at := sym.Int("at", 0, 256)
	sym.Assume(at < k)
	v, w := sym.U16("v"), sym.U16("w")
	a, b := make(storage.Set16, k), make(storage.Set16, k)
	a[at], b[at] = storage.ID16(v), storage.ID16(w)
	sym.Assert(a.EqualTo(b) == (v == w), "Set16.EqualTo compares every element")
	c, d := make(storage.Set8, k), make(storage.Set8, k)
	c[at], d[at] = storage.ID8(v), storage.ID8(w)
	sym.Assert(c.EqualTo(d) == (storage.ID8(v) == storage.ID8(w)), "Set8.EqualTo compares every element")
	e := make(storage.Set8, k+1)
	copy(e, c)
	sym.Assert(!c.EqualTo(e), "sets of different length differ")
}

// C24_LessSwap: the sort.Interface methods on sets of 1..4 elements at arbitrary positions.
func C24_LessSwap() {
	k := 1 + sym.Choose("len", 4)
	a, b := set8("v", k), set16("w", k)
	i, j := sym.Choose("i", k), sym.Choose("j", k)
	sym.Assert(a.Len() == k && b.Len() == k, "Len is the number of elements")
	sym.Assert(a.Less(i, j) == (uint8(a[i]) < uint8(a[j])), "Set8.Less compares the values")
	sym.Assert(b.Less(i, j) == (uint16(b[i]) < uint16(b[j])), "Set16.Less compares the values")
	a2, b2 := append(storage.Set8{}, a...), append(storage.Set16{}, b...)
	a2.Swap(i, j)
	b2.Swap(i, j)
	for x := 0; x < k; x++ {
		y := x
		if x == i {
			y = j
		} else if x == j {
			y = i
		}
		sym.Assert(a2[x] == a[y] && b2[x] == b[y], "Swap exchanges two elements")
	}
}

// C10_Lengths: a set of 4 to 300 elements (8-bit: to 85), and one which differs in the last, are indexed, a longer and a shorter one too or not; finding a sorted set of that length
// which differs from the first at one place (the first, the last, or one of two in the middle) or not, or one element longer or shorter: found exactly if it was indexed.
// verif: budget=90
func C10_Lengths() {
	k := []int{4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 80, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300}[sym.Choose("len", 27)]
	d := sym.U8("d")
	sym.Assume(d < 3)
	at := []int{0, k / 3, k / 2, k - 1}[sym.Choose("at", 4)]
	base := func(n int) storage.Set16 {
		s := make(storage.Set16, n)
		for i := range s {
			s[i] = storage.ID16(3 * i)
		}
		return s
	}
	a, b, q := base(k), base(k), base(k)
	b[k-1] += 2
	q[at] += storage.ID16(d)
	others := sym.Bool("others")
	want := 0
	switch {
	case at == k-1 && d == 2:
		want = 1
	case d != 0:
		want = -1
	}
	if k <= 85 && sym.Bool("narrow") {
		narrow := func(s storage.Set16) storage.Set8 {
			r := make(storage.Set8, len(s))
			for i := range s {
				r[i] = storage.ID8(s[i])
			}
			return r
		}
		var all storage.Collection8x8
		if others {
			all.Index(narrow(base(k + 1)))
			all.Index(narrow(base(k - 1)))
		}
		ids := []storage.ID16{all.Index(narrow(a)), all.Index(narrow(b))}
		id, ok := all.Find(narrow(q))
		sym.Assert(ok == (want >= 0), "found exactly if indexed")
		sym.Assert(want < 0 || id == ids[want], "found under the ID that indexing gave")
		_, ok = all.Find(narrow(base(k - 1)))
		sym.Assert(ok == others, "a shorter set is found exactly if indexed")
		_, ok = all.Find(narrow(base(k + 1)))
		sym.Assert(ok == others, "a longer set is found exactly if indexed")
	} else {
		var all storage.Collection16
		if others {
			all.Index(base(k + 1))
			all.Index(base(k - 1))
		}
		ids := []storage.ID32{all.Index(a), all.Index(b)}
		id, ok := all.Find(q)
		sym.Assert(ok == (want >= 0), "found exactly if indexed")
		sym.Assert(want < 0 || id == ids[want], "found under the ID that indexing gave")
		_, ok = all.Find(base(k - 1))
		sym.Assert(ok == others, "a shorter set is found exactly if indexed")
		_, ok = all.Find(base(k + 1))
		sym.Assert(ok == others, "a longer set is found exactly if indexed")
	}
	sym.Cover("done")
}
