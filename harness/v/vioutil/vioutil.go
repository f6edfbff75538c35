// Package vioutil stands in for io/ioutil over the in-memory files.
package vioutil

import (
	"io"
	"io/fs"

	"verif.test/v/vos"
)

// Discard takes everything.
var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return vos.WriteFile(name, data, perm)
}
func NopCloser(r io.Reader) io.ReadCloser             { return io.NopCloser(r) }
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)     { return vos.MkdirTemp(dir, pattern) }

// ReadDir lists a directory.
func ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := vos.ReadDir(name)
	var r []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}
