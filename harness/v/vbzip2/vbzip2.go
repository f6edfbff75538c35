// Package vbzip2 is a stand-in for compress/bzip2: the archive is the text itself, and the harness decides whether and
// where it is corrupt.
package vbzip2

import (
	"io"

	"verif.test/v/sym"
)

// StructuralError is returned when the bzip2 data is found to be invalid.
type StructuralError string

func (s StructuralError) Error() string { return "bzip2 data invalid: " + string(s) }

// CorruptAt is the position at which the archive is found corrupt; negative: nowhere.
var CorruptAt = -1

// CutShort says that the archive is corrupt as it ends at CorruptAt.
var CutShort bool

func init() {
	sym.Reset = append(sym.Reset, func() { CorruptAt, CutShort = -1, false })
}

type reader struct {
	r   io.Reader
	pos int
}

// NewReader decompresses.
func NewReader(r io.Reader) io.Reader { return &reader{r: r} }

func (r *reader) Read(p []byte) (int, error) {
	if CorruptAt >= 0 && r.pos+len(p) > CorruptAt {
		p = p[:CorruptAt-r.pos]
		if len(p) == 0 {
			if CutShort {
				return 0, io.ErrUnexpectedEOF
			}
			return 0, StructuralError("bad magic value")
		}
	}
	n, err := r.r.Read(p)
	r.pos += n
	return n, err
}
