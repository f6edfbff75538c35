package hopen

import (
	"errors"
	"path"
	"strings"

	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	"verif.test/v/sym"
	"verif.test/v/vhttp"
	"verif.test/v/vos"
	"verif.test/v/vxml"
)

// where gives the data paths a loader may be given, and the directories they mean with working directory /w.
func where() (given, want string) {
	c := sym.Choose("path", 7)
	given = []string{"", "/d", "d", "d/", "./d/../e", "../up/x", "/a//b/."}[c]
	want = []string{"/w/" + common.DomainDataPath(opencorpora.DomainName), "/d", "/w/d", "/w/d", "/w/e", "/up/x", "/a/b"}[c]
	return
}

// C27_Loader: a loader made with, or given later, any of 7 data paths, in the working directory /w, with no local files, the download,
// also the unpacked file, or also the compiled index, (if the path was given later also files of those names elsewhere); a server with newer data, the same or
// none; no operation fails, or any one: updating, asking and loading open, make, rename and remove files only in the data path, find
// the files there only, and a successful update leaves the index there.
// verif: budget=150
func C27_Loader() {
	given, want := where()
	vos.Dir("/w")
	vos.Wd = "/w"
	vxml.Parse = version
	l := opencorpora.NewLoader(given)
	later := sym.Bool("later")
	if later {
		l = opencorpora.NewLoader("/elsewhere")
		l.SetDataPath(given)
	}
	p := l.DataPath()
	if p[0] != '/' {
		p = "/w/" + p
	}
	sym.Assert(path.Clean(p) == want, "the data path is the one given, or that of the domain")
	vos.Dir(want)
	names := []string{opencorpora.LocalSourceFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalCompiledFilename}
	local := sym.Choose("local", 4)
	for i := 0; i < local && i < 2; i++ {
		vos.Put(want+"/"+names[i], []byte(oldData), at(int64(100+i)))
	}
	if local > 2 {
		sym.Assert(l.ParseUpdate(want+"/"+names[1], want+"/"+names[2]) == nil, "the old version is compiled")
	}
	if later { // to mislead it
		for _, n := range names {
			vos.Put("/w/"+n, []byte("other---"), at(500))
			vos.Put("/elsewhere/"+n, []byte("other---"), at(500))
		}
	}
	vos.Clock = at(300)
	server := sym.Choose("server", 3)
	vhttp.Do = func(method, url string) (*vhttp.Response, error) {
		switch server {
		case 0:
			r := head(200, "Thu, 01 Jan 1970 00:03:20 GMT")
			r.Body = &body{data: []byte(newData)}
			return r, nil
		case 1:
			return head(200, "Thu, 01 Jan 1970 00:00:20 GMT"), nil
		}
		return nil, errors.New("unreachable")
	}
	if local == 0 {
		sym.Assume(server != 1)
	}
	s := &steps{at: sym.Int("at", -1, 60)}
	inside := func(name string) bool { return name == want || strings.HasPrefix(name, want+"/") }
	vos.Fault = func(op, name string) error {
		sym.Assert(inside(name) || op == "getwd", "only files in the data path are used")
		if s.fails() {
			return vos.ErrFault
		}
		return nil
	}
	vos.OnWrite = func(name string, n int) (int, error) {
		sym.Assert(inside(name), "only files in the data path are written")
		if s.fails() {
			return n / 2, vos.ErrFault
		}
		return n, nil
	}
	vos.OnRead = func(name string, n int) (int, error) {
		sym.Assert(inside(name), "only files in the data path are read")
		return n, nil
	}
	if s.at < 0 {
		sym.Assert(l.IsDownloadExists() == (local > 0), "the download is looked for in the data path")
		sym.Assert(l.IsUnpackedExists() == (local > 1), "the unpacked file is looked for in the data path")
	}
	err := l.Update(true)
	if s.at >= 0 && !s.hit {
		sym.Assert(s.n < 60, "every operation may be the failing one")
		sym.Stop()
	}
	s.at = -1
	x, lerr := l.LoadIndex()
	vos.Fault, vos.OnWrite, vos.OnRead = nil, nil, nil
	if err == nil {
		sym.Assert(lerr == nil && vos.Has(want+"/"+names[2]), "a successful update leaves the index in the data path")
		v := "v1"
		if server == 0 && !s.hit {
			v = "v2"
		}
		_, ferr := x.FetchString(v)
		sym.Assert(ferr == nil || s.hit, "the index is that of the data in the data path or on the server")
		sym.Cover("updated")
	} else {
		sym.Cover("failed")
	}
}
