package hstorage

import (
	"io"

	"github.com/amarin/gomorphy/pkg/storage"
	"verif.test/v/sym"
)

func maxLen() int {
	if sym.Thorough() {
		return 6
	}
	return 4
}

// lens chooses the length of a set: 0 to 8 (thorough: 0 to 16), or one of those given.
func lens(long ...int) int {
	short := 9
	if sym.Thorough() {
		short = 17
	}
	k := sym.Choose("len", short+len(long))
	if k >= short {
		k = long[k-short]
	}
	return k
}

// C08_Set8WriteFault: every Set8 of 0..8 (thorough 0..16), 100 or 255 arbitrary elements written to a writer that stops accepting
// after any number of bytes, for good or once, reporting an error or only a short count.
func C08_Set8WriteFault() {
	k := lens(100, 255)
	s := set8("v", k)
	full := &sink{limit: 1 << 20}
	_, err := s.WriteTo(full)
	sym.Assert(err == nil, "write without faults succeeds")
	w := &sink{limit: sym.Choose("limit", k+1), short: sym.Bool("short"), once: sym.Bool("once")}
	n, err := s.WriteTo(w)
	sym.Assert(err != nil, "a failed write is reported")
	sym.Assert(n == int64(len(w.buf)), "reported count is the number of bytes accepted")
	sym.Assert(sameBytes(w.buf, full.buf[:len(w.buf)]), "what was accepted is the beginning of the full encoding")
	sym.Observe("wf8", n, err)
	sym.Cover("fault")
}

// C08_Set16WriteFault: the same for Set16; the writer may stop in the middle of an element.
func C08_Set16WriteFault() {
	k := lens(100, 256)
	s := set16("v", k)
	full := &sink{limit: 1 << 20}
	_, err := s.WriteTo(full)
	sym.Assert(err == nil, "write without faults succeeds")
	w := &sink{limit: sym.Choose("limit", 2*(k+1)), short: sym.Bool("short"), once: sym.Bool("once")}
	n, err := s.WriteTo(w)
	sym.Assert(err != nil, "a failed write is reported")
	sym.Assert(n <= int64(len(w.buf)) && n > int64(len(w.buf))-2, "reported count covers the elements accepted")
	sym.Assert(sameBytes(w.buf, full.buf[:len(w.buf)]), "what was accepted is the beginning of the full encoding")
	sym.Observe("wf16", n, err)
	sym.Cover("fault")
}

func sameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	return eq
}

func ends(b bool) error {
	if b {
		return errFault
	}
	return io.EOF
}

// C08_Set8ReadFault: every encoding of a Set8 of 0..8 (thorough 0..16), 100 or 255 arbitrary elements cut at any place, where the
// reader then ends or fails, with the last bytes or after them: an error is returned.
func C08_Set8ReadFault() {
	k := lens(100, 255)
	s := set8("v", k)
	w := &sink{limit: 1 << 20}
	_, err := s.WriteTo(w)
	sym.Assert(err == nil, "write without faults succeeds")
	cut := sym.Choose("cut", k+1)
	r := &source{data: w.buf[:cut], end: ends(sym.Bool("fails")), eofEarly: sym.Bool("early"), chunked: true}
	var back storage.Set8
	n, err := back.ReadFrom(r)
	sym.Assert(err != nil, "truncated data is refused")
	sym.Assert(n >= 0 && n <= int64(cut), "reported count does not exceed the bytes taken")
	sym.Assert(n >= int64(r.pos)-1, "reported count covers the elements taken")
	sym.Observe("rf8", n, err)
	sym.Cover("fault")
}

// C08_Set16ReadFault: the same for Set16 of 0..4 (thorough 0..6), 100 or 256 elements; the cut may fall inside an element and the
// reader may split every read (of the short sets).
func C08_Set16ReadFault() {
	k := sym.Choose("len", maxLen()+3)
	short := k <= maxLen()
	if !short {
		k = []int{100, 256}[k-maxLen()-1]
	}
	s := set16("v", k)
	w := &sink{limit: 1 << 20}
	_, err := s.WriteTo(w)
	sym.Assert(err == nil, "write without faults succeeds")
	cut := sym.Choose("cut", 2*(k+1))
	r := &source{data: w.buf[:cut], end: ends(sym.Bool("fails")), eofEarly: sym.Bool("early"), chunked: short}
	back := storage.Set16{}
	n, err := back.ReadFrom(r)
	sym.Assert(err != nil, "truncated data is refused")
	sym.Assert(n >= 0 && n <= int64(cut), "reported count does not exceed the bytes taken")
	sym.Assert(n > int64(r.pos)-3, "reported count covers the elements taken")
	sym.Observe("rf16", n, err)
	sym.Cover("fault")
}

// C08_ReadHiccup: every encoding of a Set8 of 0..8 (thorough 0..16), 100 or 255, or of a Set16 of 0..4 (thorough 0..6), 100 or 256 arbitrary elements from a reader which
// fails once, anywhere, and then goes on: an error is returned.
func C08_ReadHiccup() {
	if sym.Bool("16") {
		k := sym.Choose("len", maxLen()+3)
		if k > maxLen() {
			k = []int{100, 256}[k-maxLen()-1]
		}
		s := set16("v", k)
		w := &sink{limit: 1 << 20}
		_, err := s.WriteTo(w)
		sym.Assert(err == nil, "write without faults succeeds")
		r := &source{data: w.buf, end: io.EOF, fails: true, failAt: sym.Choose("cut", len(w.buf))}
		back := storage.Set16{}
		n, err := back.ReadFrom(r)
		sym.Assert(err != nil, "a failing reader is reported")
		sym.Assert(n >= 0 && n <= int64(r.pos) && n > int64(r.pos)-3, "reported count is that of the bytes taken")
		sym.Cover("fault")
		return
	}
	k := lens(100, 255)
	s := set8("v", k)
	w := &sink{limit: 1 << 20}
	_, err := s.WriteTo(w)
	sym.Assert(err == nil, "write without faults succeeds")
	r := &source{data: w.buf, end: io.EOF, fails: true, failAt: sym.Choose("cut", len(w.buf))}
	var back storage.Set8
	n, err := back.ReadFrom(r)
	sym.Assert(err != nil, "a failing reader is reported")
	sym.Assert(n >= 0 && n <= int64(r.pos) && n >= int64(r.pos)-1, "reported count is that of the bytes taken")
	sym.Cover("fault")
}

// C08_Set8Chunks: whole encodings of Set8 of 0..8 (thorough 0..16), 100 or 255 elements from a reader that splits reads at any
// place and may report its end together with the last byte.
func C08_Set8Chunks() {
	k := lens(100, 255)
	s := set8("v", k)
	w := &sink{limit: 1 << 20}
	n, _ := s.WriteTo(w)
	r := &source{data: w.buf, end: ends(sym.Bool("fails")), eofEarly: sym.Bool("early"), chunked: true}
	var back storage.Set8
	m, err := back.ReadFrom(r)
	sym.Assert(err == nil, "complete data is accepted")
	sym.Assert(m == n && same8(back, s), "complete data is read back")
	sym.Cover("whole")
}

// C08_Set16Chunks: the same for Set16 of 0..4 (thorough 0..6) elements.
func C08_Set16Chunks() {
	k := sym.Choose("len", maxLen()+1)
	s := set16("v", k)
	w := &sink{limit: 1 << 20}
	n, _ := s.WriteTo(w)
	r := &source{data: w.buf, end: ends(sym.Bool("fails")), eofEarly: sym.Bool("early"), chunked: true}
	back := storage.Set16{}
	m, err := back.ReadFrom(r)
	sym.Assert(err == nil, "complete data is accepted")
	sym.Assert(m == n && same16(back, s), "complete data is read back")
	sym.Cover("whole")
}

// C08_Set8AnyBytes: any stream of 0..9 (thorough 0..20), 100, 255, 256 or 257 arbitrary bytes: accepted exactly if it holds as many elements
// as its first byte says, and then the elements are those bytes.
// verif: maxconc=300
func C08_Set8AnyBytes() {
	m := 10
	if sym.Thorough() {
		m = 21
	}
	size := sym.Choose("size", m+4)
	if size >= m {
		size = []int{100, 255, 256, 257}[size-m]
	}
	data := sym.Bytes("data", size)
	r := &source{data: data, end: io.EOF}
	var s storage.Set8
	n, err := s.ReadFrom(r)
	if len(data) == 0 {
		sym.Assert(err != nil, "empty stream is refused")
		return
	}
	ok := int(data[0]) <= len(data)-1
	sym.Assert((err == nil) == ok, "a stream is accepted exactly if it is complete")
	if err == nil {
		sym.Assert(n == int64(1+len(s)) && len(s) == int(data[0]), "length is the prefix")
		for i := range s {
			sym.Assert(byte(s[i]) == data[1+i], "elements are the bytes that follow")
		}
		sym.Cover("accepted")
	} else {
		sym.Assert(n <= int64(len(data)), "reported count does not exceed the bytes there are")
		sym.Cover("refused")
	}
}

// C08_Set16AnyBytes: the same for Set16 and streams of 0..15 (thorough 0..19) arbitrary bytes.
func C08_Set16AnyBytes() {
	m := 15
	if sym.Thorough() {
		m = 19
	}
	data := sym.Bytes("data", sym.Choose("size", m+1))
	if len(data) >= 2 {
		sym.Assume(data[0] == 0 && data[1] <= 8 || data[0] == 0xff && data[1] == 0xff)
	}
	r := &source{data: data, end: io.EOF}
	s := storage.Set16{}
	n, err := s.ReadFrom(r)
	if len(data) < 2 {
		sym.Assert(err != nil, "incomplete length is refused")
		return
	}
	want := int(data[0])<<8 | int(data[1])
	ok := 2*want <= len(data)-2
	sym.Assert((err == nil) == ok, "a stream is accepted exactly if it is complete")
	if err == nil {
		sym.Assert(n == int64(2+2*len(s)) && len(s) == want, "length is the prefix")
		for i := range s {
			sym.Assert(uint16(s[i]) == uint16(data[2+2*i])<<8|uint16(data[3+2*i]), "elements are big-endian words")
		}
		sym.Cover("accepted")
	} else {
		sym.Assert(n <= int64(len(data)), "reported count does not exceed the bytes there are")
		sym.Cover("refused")
	}
}
