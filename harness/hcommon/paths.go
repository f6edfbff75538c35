package hcommon

import (
	"github.com/amarin/gomorphy/pkg/common"
	"verif.test/v/sym"
	"verif.test/v/vos"
)

// plain is a name of 1 to max arbitrary bytes without slash that names an entry of a directory.
func plain(what string, max int) string {
	n := 1 + sym.Choose(what+"Len", max)
	x := sym.String(what, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(x[i] != '/', x[i] != 0))
	}
	if n <= 2 {
		sym.Assume(x != "." && x != "..")
	}
	return x
}

// domain is a plain name, or two of 1 byte with a slash between: above is what is above its last name, with the slash.
func domain() (d, above string) {
	d = plain("domain", max())
	if len(d) == 1 && sym.Bool("nested") {
		above = plain("above", 1) + "/"
	}
	return above + d, above
}

func max() int {
	if sym.Thorough() {
		return 4
	}
	return 3
}

// C27_Paths: every domain and file of 1 to 3 (thorough: 4) arbitrary bytes but '/' and NUL, and every domain below another: the path of the domain is its name in the data
// path, that of a file its name in that; different names give different paths.
// verif: budget=60
func C27_Paths() {
	root := common.GetDataPath()
	sym.Assert(root != "", "there is a data path")
	d, _ := domain()
	p := common.DomainDataPath(d)
	sym.Assert(p == root+"/"+d, "the path of a domain is its name in the data path")
	f := plain("file", 2)
	q := common.DomainFilePath(d, f)
	sym.Assert(q == root+"/"+d+"/"+f, "the path of a file is its name in the path of the domain")
	sym.Observe("paths", p, q)
	sym.Cover("done")
}

// C27_Make: the directory of any domain of 1 to 3 (thorough: 4) arbitrary bytes, or one below another of 1 byte each, is made in a working directory /, /w or /w/x, where there is
// nothing, the data path, the directory itself with a file in it, or a file in place of either; the working directory cannot be
// read, or the directory not made, or nothing fails: without an error it is there, with all that was there before and nothing else new;
// an error is returned if and only if something failed.
// verif: budget=60
func C27_Make() {
	wd := []string{"/", "/w", "/w/x"}[sym.Choose("wd", 3)]
	vos.Dir(wd)
	vos.Wd = wd
	root := wd + "/" + common.GetDataPath()
	if wd == "/" {
		root = wd + common.GetDataPath()
	}
	d, above := domain()
	before := sym.Choose("before", 5)
	switch before {
	case 1:
		vos.Dir(root)
	case 2:
		vos.Put(root+"/"+d+"/f", []byte("x"), vos.Clock)
	case 3:
		vos.Put(root, []byte("x"), vos.Clock)
	case 4:
		vos.Put(root+"/"+d, []byte("x"), vos.Clock)
	}
	had := vos.All()
	failing := []string{"", "getwd", "mkdir"}[sym.Choose("failing", 3)]
	hit := false
	vos.Fault = func(op, name string) error {
		if op == failing {
			hit = true
			return vos.ErrFault
		}
		return nil
	}
	err := common.MakeDomainDataPath(d)
	vos.Fault = nil
	sym.Assert(vos.Wd == wd, "the working directory stays")
	for _, n := range had {
		sym.Assert(vos.Has(n), "what was there stays")
	}
	data, ok := vos.Content(root + "/" + d + "/f")
	sym.Assert(ok == (before == 2) && (!ok || string(data) == "x"), "files in the directory stay")
	if err != nil {
		sym.Assert(hit || before >= 3, "there is an error only if something failed")
		sym.Cover("failure")
	} else {
		sym.Assert(!hit && before < 3, "every failure is reported")
		sym.Assert(vos.IsDir(root+"/"+d), "the directory is there")
		sym.Cover("made")
	}
	for _, n := range vos.All() {
		old := n == root || n == root+"/"+d || above != "" && n+"/" == root+"/"+above
		for _, h := range had {
			old = old || n == h
		}
		sym.Assert(old, "nothing else is made")
	}
	sym.Observe("made", err != nil)
}
