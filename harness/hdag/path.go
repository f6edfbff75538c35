package hdag

import (
	"path"
	"strings"
	"time"

	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
	"verif.test/v/vos"
)

// C22_Recompose: every path "/d/"+x with x of 1 to 3 (thorough: 4) arbitrary bytes but '/' and NUL, no such file or a file there:
// directory, name and extension put together again are the absolute path; the extension starts at the last dot;
// a missing file is an error.
// verif: budget=60
func C22_Recompose() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := 1 + sym.Choose("len", max)
	x := sym.String("x", n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(x[i] != '/', x[i] != 0))
	}
	sym.Assume(x != "." && x != "..")
	exists := sym.Bool("exists")
	vos.Dir("/d")
	if exists {
		vos.Put("/d/"+x, []byte("x"), time.Time{})
	}
	dir, name, ext, err := dag.ResolveFilePath("/d/" + x)
	sym.Assert((err == nil) == exists, "a missing file is reported, a present one is not")
	sym.Assert(dir == "/d/", "the directory is the file's directory")
	sym.Assert(name+ext == x, "name and extension put together are the file name")
	sym.Assert(ext == "" || ext[0] == '.' && strings.LastIndexByte(ext, '.') == 0, "the extension starts at the last dot")
	if ext == "" {
		sym.Assert(strings.IndexByte(x, '.') < 0, "a file name with a dot has an extension")
	}
	sym.Observe("resolved", dir, name, ext, err != nil)
	sym.Cover("done")
}

// C22_AnyPath: every path of 0 to 5 (thorough: 6) bytes over the letters / . a, with files a, a.a and directory d
// present: no panic; on success the parts recompose to a path that names an existing file, and are the parts of that
// file's absolute path.
// verif: budget=60
func C22_AnyPath() {
	max := 6
	if sym.Thorough() {
		max = 7
	}
	n := sym.Choose("len", max)
	p := sym.String("p", n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.Or(p[i] == '/', sym.Or(p[i] == '.', p[i] == 'a')))
	}
	vos.Put("/a", []byte("x"), time.Time{})
	vos.Put("/a.a", []byte("x"), time.Time{})
	dir, name, ext, err := dag.ResolveFilePath(p)
	sym.Assert(len(dir) > 0 && dir[0] == '/' && dir[len(dir)-1] == '/', "the directory is absolute")
	sym.Assert(!strings.Contains(dir, "//") && !strings.Contains(dir, "/./") && !strings.Contains(dir, "/../"), "the directory is clean")
	if err == nil {
		full := dir + name + ext
		sym.Assert(full == "/a" || full == "/a.a", "success names an existing file")
		sym.Cover("found")
	} else {
		full := dir + name + ext
		sym.Assert(full != "/a" && full != "/a.a", "an existing file is found")
		sym.Cover("missing")
	}
	sym.Observe("any", dir, name, ext, err != nil)
}

// C22_Relative: every path of 0 to 3 (thorough: 4) bytes over the letters / . a, in the working directory /a or /a/a, where there are files
// named a, .a and a.a in both and in /; the working directory cannot be read, or can: what is resolved is the absolute path of what is
// named; if the working directory is needed and cannot be read, or the file cannot be accessed, there is an error.
// verif: budget=60
func C22_Relative() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	n := sym.Choose("len", max)
	p := sym.String("p", n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.Or(p[i] == '/', sym.Or(p[i] == '.', p[i] == 'a')))
	}
	for _, d := range []string{"/", "/a/", "/a/a/"} {
		for _, f := range []string{"aa", ".a", "a.a"} {
			vos.Put(d+f, []byte("x"), time.Time{})
		}
	}
	vos.Dir("/a/a/a")
	vos.Wd = []string{"/a", "/a/a"}[sym.Choose("wd", 2)]
	failing := []string{"", "getwd", "stat"}[sym.Choose("failing", 3)]
	hit := false
	vos.Fault = func(op, name string) error {
		if op == failing {
			hit = true
			return vos.ErrFault
		}
		return nil
	}
	dir, name, ext, err := dag.ResolveFilePath(p)
	vos.Fault = nil
	if hit {
		sym.Assert(err != nil, "every failure is reported")
		sym.Cover("failure")
		return
	}
	full := p
	if n == 0 || p[0] != '/' {
		full = vos.Wd + "/" + p
	}
	full = path.Clean(full)
	sym.Assert(dir+name+ext == full, "what is resolved is the absolute path of what is named")
	sym.Assert(strings.IndexByte(name+ext, '/') < 0, "the directory ends with the last slash")
	if full == "/" {
		sym.Cover("root")
		return
	}
	sym.Assert((err == nil) == vos.Has(full), "there is an error if and only if there is no such file")
	sym.Observe("relative", dir, name, ext, err != nil)
	sym.Cover("done")
}
