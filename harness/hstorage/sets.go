package hstorage

import (
	"io"

	"github.com/amarin/gomorphy/pkg/storage"
	"verif.test/v/sym"
)

func set8(name string, n int) storage.Set8 {
	s := make(storage.Set8, n)
	for i := range s {
		s[i] = storage.ID8(sym.U8(name))
	}
	return s
}

func set16(name string, n int) storage.Set16 {
	s := make(storage.Set16, n)
	for i := range s {
		s[i] = storage.ID16(sym.U16(name))
	}
	return s
}

func same8(a, b storage.Set8) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	return eq
}

func same16(a, b storage.Set16) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	return eq
}

// C07_Set8RoundTrip: every Set8 there is, of 0 to 255 arbitrary elements; 3 arbitrary trailing bytes after the set; reads of
// one byte each time as Set8 does.
// verif: budget=40
func C07_Set8RoundTrip() {
	s := set8("v", sym.Choose("len", 256))
	orig := append(storage.Set8{}, s...)
	w := &sink{limit: 1 << 20}
	n, err := s.WriteTo(w)
	sym.Assert(err == nil, "write of a representable set succeeds")
	sym.Assert(n == int64(len(w.buf)), "written count is the number of bytes written")
	sym.Assert(same8(s, orig), "writing leaves the set as it was")
	tail := sym.Bytes("tail", 3)
	r := &source{data: append(append([]byte{}, w.buf...), tail...), end: io.EOF}
	var back storage.Set8
	if sym.Bool("dirty") { // a set that held something else before
		back = storage.Set8{9, 8, 7}
	}
	m, err := back.ReadFrom(r)
	sym.Assert(err == nil, "what was written is read back")
	sym.Assert(m == n, "read count equals written count")
	sym.Assert(r.pos == len(w.buf), "exactly the set's own bytes are consumed")
	sym.Assert(same8(back, orig), "the set read back equals the set written")
	sym.Observe("rt8", n, []storage.ID8(back), err)
	sym.Cover("done")
}

// C07_Set16RoundTrip: every Set16 with a length of 0 to 300 (thorough: 0 to 1000), or 512, 1024, 4096, 20000, 40000, 65535 and arbitrary
// element values; 3 arbitrary trailing bytes after the set; the reader may split every read of a short set (up to 3 elements) at any place.
// verif: budget=40
func C07_Set16RoundTrip() {
	sz := []int{512, 1024, 4096, 20000, 40000, 65535}
	short := 301
	if sym.Thorough() {
		short = 1001
	}
	k := sym.Choose("len", short+len(sz))
	if k >= short {
		k = sz[k-short]
	}
	s := set16("v", k)
	orig := append(storage.Set16{}, s...)
	w := &sink{limit: 1 << 20}
	n, err := s.WriteTo(w)
	sym.Assert(err == nil, "write of a representable set succeeds")
	sym.Assert(n == int64(len(w.buf)), "written count is the number of bytes written")
	sym.Assert(same16(s, orig), "writing leaves the set as it was")
	tail := sym.Bytes("tail", 3)
	r := &source{data: append(append([]byte{}, w.buf...), tail...), end: io.EOF, chunked: k <= 3 && sym.Bool("chunked")}
	back := storage.Set16{}
	m, err := back.ReadFrom(r)
	sym.Assert(err == nil, "what was written is read back")
	sym.Assert(m == n, "read count equals written count")
	sym.Assert(r.pos == len(w.buf), "exactly the set's own bytes are consumed")
	sym.Assert(same16(back, orig), "the set read back equals the set written")
	sym.Observe("rt16", n, []storage.ID16(back), err)
	sym.Cover("done")
}

// C07_Set8TooLong: Set8 of 256 and 257 elements (more than its length byte can hold), arbitrary values: either WriteTo
// fails, or what it wrote reads back as the same set.
func C07_Set8TooLong() {
	s := set8("v", 256+sym.Choose("extra", 2))
	w := &sink{limit: 1 << 20}
	n, err := s.WriteTo(w)
	if err != nil {
		sym.Assert(n == int64(len(w.buf)) && n == 0, "nothing of a refused set is written or counted")
		sym.Cover("refused")
		return
	}
	var back storage.Set8
	_, err = back.ReadFrom(&source{data: w.buf, end: io.EOF})
	sym.Assert(err == nil, "what was written is read back")
	sym.Assert(same8(back, s), "the set read back equals the set written")
}

// C07_Set16TooLong: Set16 of 65535, 65536 and 65537 elements, of which the first and last are arbitrary: either
// WriteTo fails (never for 65535), or what it wrote reads back as the same set.
// verif: budget=60
func C07_Set16TooLong() {
	k := 65535 + sym.Choose("extra", 3)
	s := make(storage.Set16, k)
	s[0] = storage.ID16(sym.U16("first"))
	s[k-1] = storage.ID16(sym.U16("last"))
	w := &sink{limit: 1 << 20}
	n, err := s.WriteTo(w)
	if err != nil {
		sym.Assert(k > 65535, "write of a representable set succeeds")
		sym.Assert(n == int64(len(w.buf)) && n == 0, "nothing of a refused set is written or counted")
		sym.Cover("refused")
		return
	}
	back := storage.Set16{}
	_, err = back.ReadFrom(&source{data: w.buf, end: io.EOF})
	sym.Assert(err == nil, "what was written is read back")
	sym.Assert(same16(back, s), "the set read back equals the set written")
}
