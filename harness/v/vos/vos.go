// Package vos is an in-memory stand-in for package os with injected faults. The workspace of a check points every
// import of "os" in the code under test at it.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"strconv"
	"time"

	"verif.test/v/sym"
)

// Types and values shared with the real package.
type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	PathError    = fs.PathError
	DirEntry     = fs.DirEntry
	SyscallError struct {
		Syscall string
		Err     error
	}
	Signal interface {
		String() string
		Signal()
	}
)

// LinkError is the error of operations on two names.
type LinkError struct {
	Op, Old, New string
	Err          error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

type signal string

func (s signal) String() string { return string(s) }
func (s signal) Signal()        {}

// Signals, which are never sent.
var (
	Interrupt Signal = signal("interrupt")
	Kill      Signal = signal("killed")
)

func (e *SyscallError) Error() string { return e.Syscall + ": " + e.Err.Error() }
func (e *SyscallError) Unwrap() error { return e.Err }

const (
	ModePerm   = fs.ModePerm
	ModeDir    = fs.ModeDir
	ModeAppend = fs.ModeAppend
	ModeType   = fs.ModeType

	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathListSeparator = ':'

	O_RDONLY      = 0
	O_WRONLY      = 1
	O_RDWR        = 2
	O_CREATE      = 0x40
	O_EXCL        = 0x80
	O_TRUNC       = 0x200
	O_APPEND      = 0x400
	O_SYNC        = 0x101000
	PathSeparator = '/'
	DevNull       = "/dev/null"
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrDeadlineExceeded = errors.New("i/o timeout")

	// ErrFault is the error of injected faults.
	ErrFault = errors.New("injected fault")
)

type node struct {
	name  string
	dir   bool
	data  []byte
	mtime time.Time
	gone  bool
}

var (
	nodes []*node
	temp  int

	// Args are the program arguments.
	Args = []string{"prog"}

	// Wd is the working directory.
	Wd = "/"

	// Fault, if set, may fail an operation: open, create, stat, remove, rename, mkdir, close, sync, getwd, chdir.
	Fault func(op, name string) error

	// OnWrite, if set, gives the number of bytes of a write that are accepted and its error.
	OnWrite func(name string, n int) (int, error)

	// OnRead, if set, gives the largest number of bytes a read may return, and an error instead.
	OnRead func(name string, n int) (int, error)

	// OpenFiles counts the files that are open.
	OpenFiles int

	// Creates and Writes count changes of the file system.
	Creates, Writes, Removes int

	// ExitCode is the code of the last Exit.
	ExitCode = -1

	Stdin  = &File{name: "/dev/stdin", n: &node{name: "/dev/stdin"}}
	Stdout = &File{name: "/dev/stdout", n: &node{name: "/dev/stdout"}, std: true}
	Stderr = &File{name: "/dev/stderr", n: &node{name: "/dev/stderr"}, std: true}
)

// Exited is the panic value of Exit.
type Exited struct{ Code int }

func init() {
	sym.Reset = append(sym.Reset, func() {
		Wd = "/"
		nodes, temp, Args, Fault, OnWrite, OnRead, OpenFiles = nil, 0, []string{"prog"}, nil, nil, nil, 0
		Creates, Writes, Removes, ExitCode, Clock = 0, 0, 0, -1, time.Time{}
	})
}

func clean(name string) string {
	if len(name) == 0 || name[0] != '/' {
		name = Wd + "/" + name
	}
	return path.Clean(name)
}

func find(name string) *node {
	name = clean(name)
	for _, n := range nodes {
		if !n.gone && n.name == name {
			return n
		}
	}
	return nil
}

func isDir(name string) bool {
	name = clean(name)
	if name == "/" {
		return true
	}
	n := find(name)
	return n != nil && n.dir
}

func add(name string, dir bool) *node {
	n := &node{name: clean(name), dir: dir, mtime: Clock}
	nodes = append(nodes, n)
	return n
}

// Clock is the modification time given to files.
var Clock time.Time

// Put places a file, and Dir a directory, with all parents.
func Put(name string, data []byte, mtime time.Time) {
	Dir(path.Dir(clean(name)))
	n := find(name)
	if n == nil {
		n = add(name, false)
	}
	n.data, n.mtime = data, mtime
}

// Dir makes a directory and its parents.
func Dir(name string) {
	name = clean(name)
	if isDir(name) {
		return
	}
	Dir(path.Dir(name))
	add(name, true)
}

// Content returns the bytes of a file.
func Content(name string) ([]byte, bool) {
	n := find(name)
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// Has reports whether a file or directory is there.
func Has(name string) bool { return find(name) != nil }

// Names lists the files (not directories) in order of creation.
func Names() (r []string) {
	for _, n := range nodes {
		if !n.gone && !n.dir {
			r = append(r, n.name)
		}
	}
	return
}

// All lists files and directories.
func All() (r []string) {
	for _, n := range nodes {
		if !n.gone {
			r = append(r, n.name)
		}
	}
	return
}

// IsDir reports whether a directory is there.
func IsDir(name string) bool { return isDir(name) }

func fault(op, name string) error {
	if Fault == nil {
		return nil
	}
	if err := Fault(op, clean(name)); err != nil {
		return &PathError{Op: op, Path: name, Err: err}
	}
	return nil
}

// File is an open file.
type File struct {
	name   string
	n      *node
	pos    int
	r, w   bool
	app    bool
	std    bool
	closed bool
}

// OpenFile opens a file.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	op := "open"
	if flag&O_CREATE != 0 {
		op = "create"
	}
	if err := fault(op, name); err != nil {
		return nil, err
	}
	n := find(name)
	switch {
	case n == nil && flag&O_CREATE == 0:
		return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
	case n == nil && !isDir(path.Dir(clean(name))):
		return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
	case n != nil && flag&O_CREATE != 0 && flag&O_EXCL != 0:
		return nil, &PathError{Op: "open", Path: name, Err: ErrExist}
	case n != nil && n.dir && flag&3 != O_RDONLY:
		return nil, &PathError{Op: "open", Path: name, Err: errors.New("is a directory")}
	case n == nil:
		n = add(name, false)
		Creates++
	}
	if flag&O_TRUNC != 0 {
		n.data, n.mtime = nil, Clock
		Creates++
	}
	OpenFiles++
	return &File{name: name, n: n, r: flag&3 != O_WRONLY, w: flag&3 != O_RDONLY, app: flag&O_APPEND != 0}, nil
}

// Open opens a file for reading.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create makes or empties a file.
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

// CreateTemp makes a new file in dir.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	temp++
	return OpenFile(path.Join(dir, tempName(pattern)), O_RDWR|O_CREATE|O_EXCL, 0o600)
}

func tempName(pattern string) string {
	num := strconv.Itoa(temp)
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			return pattern[:i] + num + pattern[i+1:]
		}
	}
	return pattern + num
}

// MkdirTemp makes a new directory in dir.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	temp++
	name := path.Join(dir, tempName(pattern))
	return name, Mkdir(name, 0o700)
}

func (f *File) check() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: "use", Path: f.name, Err: ErrClosed}
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Read(p []byte) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	if f.n.dir {
		return 0, &PathError{Op: "read", Path: f.name, Err: errors.New("is a directory")}
	}
	if len(p) == 0 {
		return 0, nil
	}
	k := len(f.n.data) - f.pos
	if k > len(p) {
		k = len(p)
	}
	if OnRead != nil {
		m, err := OnRead(clean(f.name), k)
		if err != nil {
			return 0, &PathError{Op: "read", Path: f.name, Err: err}
		}
		if m < k {
			k = m
		}
	}
	if k <= 0 {
		return 0, io.EOF
	}
	copy(p, f.n.data[f.pos:f.pos+k])
	f.pos += k
	return k, nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	if int(off) >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(p, f.n.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	if f.std {
		return len(p), nil
	}
	if !f.w {
		return 0, &PathError{Op: "write", Path: f.name, Err: ErrPermission}
	}
	k := len(p)
	var err error
	if OnWrite != nil {
		k, err = OnWrite(clean(f.name), len(p))
	}
	Writes++
	if f.app {
		f.pos = len(f.n.data)
	}
	data := append([]byte{}, f.n.data...)
	for len(data) < f.pos {
		data = append(data, 0)
	}
	data = append(data[:f.pos], p[:k]...)
	if f.pos+k < len(f.n.data) {
		data = append(data, f.n.data[f.pos+k:]...)
	}
	f.n.data = data
	f.n.mtime = Clock
	f.pos += k
	if err != nil {
		return k, &PathError{Op: "write", Path: f.name, Err: err}
	}
	if k < len(p) {
		return k, io.ErrShortWrite
	}
	return k, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	p := int(off)
	switch whence {
	case 1:
		p += f.pos
	case 2:
		p += len(f.n.data)
	}
	if p < 0 {
		return 0, &PathError{Op: "seek", Path: f.name, Err: ErrInvalid}
	}
	f.pos = p
	return int64(p), nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check(); err != nil {
		return err
	}
	data := append([]byte{}, f.n.data...)
	for len(data) < int(size) {
		data = append(data, 0)
	}
	f.n.data = data[:size]
	return nil
}

func (f *File) Sync() error {
	if err := f.check(); err != nil {
		return err
	}
	return fault("sync", f.name)
}

func (f *File) Chmod(mode FileMode) error { return f.check() }

// Close closes the file; a fault is reported after it is closed.
func (f *File) Close() error {
	if err := f.check(); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	f.closed = true
	OpenFiles--
	return fault("close", f.name)
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check(); err != nil {
		return nil, err
	}
	return f.n.info(), nil
}

type info struct {
	name  string
	size  int64
	dir   bool
	mtime time.Time
	n     *node
}

func (n *node) info() FileInfo {
	return &info{path.Base(n.name), int64(len(n.data)), n.dir, n.mtime, n}
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) ModTime() time.Time { return i.mtime }
func (i *info) IsDir() bool        { return i.dir }
func (i *info) Sys() interface{}   { return nil }
func (i *info) Mode() FileMode {
	if i.dir {
		return ModeDir | 0o755
	}
	return 0o644
}

// Stat describes a file.
func Stat(name string) (FileInfo, error) {
	if err := fault("stat", name); err != nil {
		return nil, err
	}
	if clean(name) == "/" {
		return &info{name: "/", dir: true}, nil
	}
	n := find(name)
	if n == nil {
		return nil, &PathError{Op: "stat", Path: name, Err: ErrNotExist}
	}
	return n.info(), nil
}

// Lstat describes a file.
func Lstat(name string) (FileInfo, error) { return Stat(name) }

// below reports whether name is in the tree of p.
func below(name, p string) bool {
	return len(name) > len(p) && name[:len(p)] == p && name[len(p)] == '/'
}

// Remove removes a file or an empty directory.
func Remove(name string) error {
	if err := fault("remove", name); err != nil {
		return err
	}
	n := find(name)
	if n == nil {
		return &PathError{Op: "remove", Path: name, Err: ErrNotExist}
	}
	if n.dir {
		for _, o := range nodes {
			if !o.gone && below(o.name, n.name) {
				return &PathError{Op: "remove", Path: name, Err: errors.New("directory not empty")}
			}
		}
	}
	n.gone = true
	Removes++
	return nil
}

// RemoveAll removes a tree.
func RemoveAll(name string) error {
	if err := fault("remove", name); err != nil {
		return err
	}
	p := clean(name)
	for _, n := range nodes {
		if n.name == p || below(n.name, p) {
			if !n.gone {
				Removes++
			}
			n.gone = true
		}
	}
	return nil
}

// Rename moves a file or directory, replacing a target that is a file.
func Rename(from, to string) error {
	if err := fault("rename", from); err != nil {
		return err
	}
	n := find(from)
	if n == nil || !isDir(path.Dir(clean(to))) {
		return &LinkError{Op: "rename", Old: from, New: to, Err: ErrNotExist}
	}
	if t := find(to); t != nil && t != n {
		if t.dir || n.dir {
			return &LinkError{Op: "rename", Old: from, New: to, Err: ErrExist}
		}
		t.gone = true
	}
	old := n.name
	n.name = clean(to)
	for _, o := range nodes {
		if n.dir && !o.gone && below(o.name, old) {
			o.name = n.name + o.name[len(old):]
		}
	}
	return nil
}

// Link gives a file a second name, which is not modelled.
func Link(from, to string) error {
	return &LinkError{Op: "link", Old: from, New: to, Err: errors.New("operation not permitted")}
}

// Symlink makes a symbolic link, which is not modelled.
func Symlink(from, to string) error {
	return &LinkError{Op: "symlink", Old: from, New: to, Err: errors.New("operation not permitted")}
}

// Readlink fails: there are no symbolic links.
func Readlink(name string) (string, error) {
	return "", &PathError{Op: "readlink", Path: name, Err: ErrInvalid}
}

type entry struct{ FileInfo }

func (e entry) Type() FileMode          { return e.Mode().Type() }
func (e entry) Info() (FileInfo, error) { return e.FileInfo, nil }

// ReadDir lists a directory in order of names.
func ReadDir(name string) ([]DirEntry, error) {
	if err := fault("open", name); err != nil {
		return nil, err
	}
	p := clean(name)
	if !isDir(p) {
		return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
	}
	var r []DirEntry
	for _, n := range nodes {
		if n.gone || path.Dir(n.name) != p || n.name == p {
			continue
		}
		i := len(r)
		for i > 0 && r[i-1].Name() > path.Base(n.name) {
			i--
		}
		r = append(r, nil)
		copy(r[i+1:], r[i:])
		r[i] = entry{n.info()}
	}
	return r, nil
}

// ReadDir lists an open directory.
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.check(); err != nil {
		return nil, err
	}
	r, err := ReadDir(f.n.name)
	if err != nil {
		return nil, err
	}
	if f.pos > len(r) {
		f.pos = len(r)
	}
	r = r[f.pos:]
	if n > 0 && len(r) == 0 {
		return nil, io.EOF
	}
	if n > 0 && len(r) > n {
		r = r[:n]
	}
	f.pos += len(r)
	return r, nil
}

// Readdirnames lists the names in an open directory.
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var r []string
	for _, e := range l {
		r = append(r, e.Name())
	}
	return r, err
}

// Readdir describes what is in an open directory.
func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.ReadDir(n)
	var r []FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}

// WriteAt writes at a place.
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.check(); err != nil {
		return 0, err
	}
	at := f.pos
	f.pos = int(off)
	n, err := f.Write(p)
	f.pos = at
	return n, err
}

func (f *File) SetDeadline(time.Time) error      { return f.check() }
func (f *File) SetReadDeadline(time.Time) error  { return f.check() }
func (f *File) SetWriteDeadline(time.Time) error { return f.check() }
func (f *File) Chown(uid, gid int) error         { return f.check() }
func (f *File) Chdir() error                     { return Chdir(f.name) }

// SameFile reports whether two descriptions are of the same file.
func SameFile(a, b FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.n == y.n
}

// Mkdir makes a directory.
func Mkdir(name string, perm FileMode) error {
	if err := fault("mkdir", name); err != nil {
		return err
	}
	if find(name) != nil {
		return &PathError{Op: "mkdir", Path: name, Err: ErrExist}
	}
	if !isDir(path.Dir(clean(name))) {
		return &PathError{Op: "mkdir", Path: name, Err: ErrNotExist}
	}
	add(name, true)
	return nil
}

// MkdirAll makes a directory and its parents.
func MkdirAll(name string, perm FileMode) error {
	if err := fault("mkdir", name); err != nil {
		return err
	}
	for p := clean(name); p != "/"; p = path.Dir(p) {
		if n := find(p); n != nil && !n.dir {
			return &PathError{Op: "mkdir", Path: name, Err: errors.New("not a directory")}
		}
	}
	Dir(name)
	return nil
}

// Getwd returns the working directory.
func Getwd() (string, error) {
	if err := fault("getwd", "."); err != nil {
		return "", err
	}
	return Wd, nil
}

// Chdir changes the working directory.
func Chdir(name string) error {
	if err := fault("chdir", name); err != nil {
		return err
	}
	if !isDir(name) {
		return &PathError{Op: "chdir", Path: name, Err: ErrNotExist}
	}
	Wd = clean(name)
	return nil
}

// ReadFile returns the content of a file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(f)
	_ = f.Close()
	return b, err
}

// WriteFile replaces the content of a file.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Truncate changes the size of a file.
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	err = f.Truncate(size)
	_ = f.Close()
	return err
}

func Chtimes(name string, atime, mtime time.Time) error {
	n := find(name)
	if n == nil {
		return &PathError{Op: "chtimes", Path: name, Err: ErrNotExist}
	}
	n.mtime = mtime
	return nil
}

func Chmod(name string, mode FileMode) error  { return nil }
func TempDir() string                         { return "/tmp" }
func UserHomeDir() (string, error)            { return "/root", nil }
func UserCacheDir() (string, error)           { return "/root/.cache", nil }
func UserConfigDir() (string, error)          { return "/root/.config", nil }
func Getenv(key string) string                { return "" }
func LookupEnv(key string) (string, bool)     { return "", false }
func Setenv(key, value string) error          { return nil }
func Getpid() int                             { return 4242 }
func Hostname() (string, error)               { return "host", nil }
func Executable() (string, error)             { return "/bin/prog", nil }
func IsNotExist(err error) bool               { return errors.Is(err, ErrNotExist) }
func IsExist(err error) bool                  { return errors.Is(err, ErrExist) }
func IsPermission(err error) bool             { return errors.Is(err, ErrPermission) }
func IsPathSeparator(c uint8) bool            { return c == '/' }
func Exit(code int)                           { ExitCode = code; panic(Exited{code}) }
func NewSyscallError(s string, e error) error { return &SyscallError{s, e} }

func Environ() []string                      { return nil }
func Unsetenv(key string) error              { return nil }
func Clearenv()                              {}
func ExpandEnv(s string) string              { return Expand(s, Getenv) }
func Getuid() int                            { return 0 }
func Geteuid() int                           { return 0 }
func Getgid() int                            { return 0 }
func Getegid() int                           { return 0 }
func Getppid() int                           { return 1 }
func Getpagesize() int                       { return 4096 }
func IsTimeout(err error) bool               { return errors.Is(err, ErrDeadlineExceeded) }
func Chown(name string, uid, gid int) error  { return nil }
func Lchown(name string, uid, gid int) error { return nil }

// Expand replaces $name and ${name}.
func Expand(s string, mapping func(string) string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '$' || i+1 == len(s) {
			r += s[i : i+1]
			continue
		}
		j := i + 1
		if s[j] == '{' {
			for j < len(s) && s[j] != '}' {
				j++
			}
			if j == len(s) {
				return r
			}
			r += mapping(s[i+2 : j])
			i = j
			continue
		}
		for j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
			j++
		}
		r += mapping(s[i+1 : j])
		i = j - 1
	}
	return r
}
