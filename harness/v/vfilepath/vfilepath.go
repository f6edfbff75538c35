// Package vfilepath stands in for package path/filepath: it is the real one, except that the working directory is that of
// the stand-in for package os. The workspace of a check points every import of "path/filepath" in the code under test at it.
package vfilepath

import (
	"io/fs"
	"path/filepath"
	"strings"

	"verif.test/v/vos"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

type WalkFunc = filepath.WalkFunc

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
)

// Abs makes a path absolute.
func Abs(path string) (string, error) {
	if filepath.IsAbs(path) {
		return filepath.Clean(path), nil
	}
	wd, err := vos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, path), nil
}

func Base(path string) string                       { return filepath.Base(path) }
func Clean(path string) string                      { return filepath.Clean(path) }
func Dir(path string) string                        { return filepath.Dir(path) }
func Ext(path string) string                        { return filepath.Ext(path) }
func FromSlash(path string) string                  { return path }
func ToSlash(path string) string                    { return path }
func HasPrefix(p, prefix string) bool               { return strings.HasPrefix(p, prefix) }
func IsAbs(path string) bool                        { return filepath.IsAbs(path) }
func IsLocal(path string) bool                      { return filepath.IsLocal(path) }
func Join(elem ...string) string                    { return filepath.Join(elem...) }
func Match(pattern, name string) (bool, error)      { return filepath.Match(pattern, name) }
func Rel(basePath, targPath string) (string, error) { return filepath.Rel(basePath, targPath) }
func Split(path string) (dir, file string)          { return filepath.Split(path) }
func SplitList(path string) []string                { return filepath.SplitList(path) }
func VolumeName(path string) string                 { return "" }

// EvalSymlinks: there are no links.
func EvalSymlinks(path string) (string, error) {
	if _, err := vos.Stat(path); err != nil {
		return "", err
	}
	return filepath.Clean(path), nil
}

// Glob lists the files and directories that match.
func Glob(pattern string) (matches []string, err error) {
	abs := filepath.IsAbs(pattern)
	for _, n := range vos.All() {
		if !abs {
			wd := vos.Wd
			if wd != "/" {
				wd += "/"
			}
			if !strings.HasPrefix(n, wd) {
				continue
			}
			n = n[len(wd):]
		}
		ok, err := filepath.Match(pattern, n)
		if err != nil {
			return nil, err
		}
		if ok {
			matches = append(matches, n)
		}
	}
	return matches, nil
}

// Walk visits a tree.
func Walk(root string, fn WalkFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	l, err := vos.ReadDir(path)
	if err1 := fn(path, info, err); err != nil || err1 != nil {
		return err1
	}
	for _, e := range l {
		i, _ := e.Info()
		if err = walk(Join(path, e.Name()), i, fn); err != nil {
			if err != SkipDir || !i.IsDir() {
				return err
			}
		}
	}
	return nil
}

// WalkDir visits a tree.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(path string, info fs.FileInfo, err error) error {
		if info == nil {
			return fn(path, nil, err)
		}
		return fn(path, fs.FileInfoToDirEntry(info), err)
	})
}
