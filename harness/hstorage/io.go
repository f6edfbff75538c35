// Package hstorage holds the entry points of the checks about package storage.
package hstorage

import (
	"errors"
	"io"

	"verif.test/v/sym"
)

var errFault = errors.New("injected fault")

// sink is an io.Writer that accepts limit bytes and then fails, either with an error or by a short write; for good, or once.
type sink struct {
	buf   []byte
	limit int
	short bool
	once  bool
	fails int
}

func (s *sink) Write(p []byte) (int, error) {
	room := s.limit - len(s.buf)
	if room >= len(p) || s.once && s.fails > 0 {
		s.buf = append(s.buf, p...)
		return len(p), nil
	}
	s.buf = append(s.buf, p[:room]...)
	s.fails++
	if s.short {
		return room, io.ErrShortWrite
	}
	return room, errFault
}

// source is an io.Reader over data that may return fewer bytes than asked for and may return its final error together
// with the last bytes or after them.
type source struct {
	data     []byte
	pos      int
	chunked  bool // split every read at an arbitrary place
	eofEarly bool // report the end together with the last bytes
	end      error
	fails    bool // fail once, at failAt, then go on
	failAt   int
}

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	left := len(s.data) - s.pos
	if left == 0 {
		return 0, s.end
	}
	n := len(p)
	if n > left {
		n = left
	}
	if s.chunked && n > 1 {
		n = 1 + sym.Choose("chunk", n)
	}
	if s.fails && s.failAt < s.pos+n {
		n = s.failAt - s.pos
		copy(p, s.data[s.pos:s.pos+n])
		s.pos += n
		s.fails = false
		return n, errFault
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.eofEarly && s.pos == len(s.data) {
		return n, s.end
	}
	return n, nil
}
