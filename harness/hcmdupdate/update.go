package hcmdupdate

import (
	"encoding/xml"
	"errors"
	"io"
	"strings"
	"time"

	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	"verif.test/v/sym"
	"verif.test/v/vbzip2"
	"verif.test/v/vhttp"
	"verif.test/v/vos"
	"verif.test/v/vxml"
)

func verifFile(name string) string { return common.DomainDataPath(opencorpora.DomainName) + "/" + name }

// run runs the program and returns its exit code.
func verifRun(args ...string) (code int) {
	vos.Args = append([]string{"update"}, args...)
	code = -1
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(vos.Exited)
			if !ok {
				panic(r)
			}
			code = e.Code
		}
	}()
	main()
	return 0
}

func verifDocument(data []byte) ([]xml.Token, error) {
	if string(data) != "new" && string(data) != "old" {
		return nil, vxml.ErrSyntax
	}
	var t []xml.Token
	add := func(x ...xml.Token) { t = append(t, x...) }
	add(vxml.Start("dictionary"), vxml.Start("grammemes"), vxml.Start("grammeme", "parent", ""), vxml.Start("name"), vxml.Text("NOUN"), vxml.End("name"),
		vxml.End("grammeme"), vxml.End("grammemes"), vxml.Start("lemmata"), vxml.Start("lemma", "id", "1", "rev", "1"), vxml.Start("l", "t", "a"),
		vxml.Start("g", "v", "NOUN"), vxml.End("g"), vxml.End("l"), vxml.Start("f", "t", string(data)), vxml.End("f"), vxml.End("lemma"),
		vxml.End("lemmata"), vxml.End("dictionary"))
	return t, nil
}

type verifFailing struct{ io.Reader }

func (f verifFailing) Close() error { return nil }

// C26_Status: no local data, or data of an older version as downloaded, unpacked or compiled; a server which is fine, unreachable,
// refusing (any status of 16 bits but 200), or breaks off; any one operation on files failing or none; a corrupt archive; with -f,
// -f=false, or neither, and -d or not: the program ends with 0 if and only if the compiled index is that of the data it had to use.
// verif: budget=120
func C26_Status() {
	local := sym.Choose("local", 4)
	old := time.Unix(100, 0)
	vos.Clock = old
	vxml.Parse = verifDocument
	vos.Dir(verifFile("."))
	for i, f := range []string{opencorpora.LocalSourceFilename, opencorpora.LocalUnpackedFilename} {
		if local > i {
			vos.Put(verifFile(f), []byte("old"), old)
		}
	}
	l := opencorpora.NewLoader("")
	if local > 2 {
		sym.Assert(l.ParseUpdate(verifFile(opencorpora.LocalUnpackedFilename), verifFile(opencorpora.LocalCompiledFilename)) == nil, "compiled")
	}
	vos.Clock = time.Unix(300, 0)
	server := sym.Choose("server", 5)
	code := int(sym.U16("code"))
	sym.Assume(code != 200)
	vhttp.Do = func(method, url string) (*vhttp.Response, error) {
		r := &vhttp.Response{StatusCode: 200, Header: vhttp.Header{"Last-Modified": {"Thu, 01 Jan 1970 00:03:20 GMT"}}, Body: verifFailing{strings.NewReader("new")}}
		switch {
		case server == 1:
			return nil, errors.New("unreachable")
		case server == 2, server == 3 && method == "GET":
			r.StatusCode, r.Body = code, verifFailing{strings.NewReader("old")}
		case server == 4:
			r.Body = verifFailing{io.MultiReader(strings.NewReader("ne"), verifErrReader{})}
		}
		return r, nil
	}
	var args []string
	force := true
	switch sym.Choose("force", 4) {
	case 1:
		args = append(args, "-f")
	case 2:
		args, force = append(args, "-f=false"), false
	case 3:
		args = append(args, "-f=true")
	}
	if sym.Bool("debug") {
		args = append(args, "-d")
	}
	at, hit := -1, false
	n := 0
	if server == 0 {
		if sym.Bool("corrupt") {
			vbzip2.CorruptAt = 1
			vbzip2.CutShort = sym.Bool("short")
		} else {
			at = sym.Int("at", -1, 100)
		}
	}
	fails := func() bool {
		if at < 0 {
			return false
		}
		n++
		if n-1 != at {
			return false
		}
		hit = true
		return true
	}
	vos.Fault = func(op, name string) error {
		if fails() {
			return vos.ErrFault
		}
		return nil
	}
	vos.OnWrite = func(name string, k int) (int, error) {
		if fails() {
			return 0, vos.ErrFault
		}
		return k, nil
	}
	status := verifRun(args...)
	vos.Fault, vos.OnWrite = nil, nil
	sym.Assert(status >= 0, "the program ends with a status")
	sym.Assert(n < 100, "every operation may be the failing one")
	want := "new"
	if force && local > 0 && (server == 1 || server == 2) {
		want = "old"
	}
	x, err := l.LoadIndex()
	right := false
	if err == nil {
		_, err = x.FetchString(want)
		right = err == nil && x.WordsCount() == 1
	}
	if hit && force && local > 0 && !right && x != nil {
		_, err = x.FetchString("old") // the local download could not be compared with the server's
		right = err == nil
	}
	if status == 0 {
		sym.Assert(right, "a program which ends with success leaves the index of the data it had to use")
		sym.Cover("success")
		return
	}
	sym.Cover("failure")
	sym.Assert(hit || vbzip2.CorruptAt >= 0 || server > 0 && want == "new", "a program ends with failure only if something failed")
}

type verifErrReader struct{}

func (verifErrReader) Read(p []byte) (int, error) { return 0, io.ErrUnexpectedEOF }

// C26_Help: asked for its usage, the program ends with success and touches neither files nor network.
// verif: budget=30
func C26_Help() {
	args := []string{"-h"}
	if sym.Bool("more") {
		args = append([]string{"-f"}, args...)
	}
	touched := false
	vos.Fault = func(op, name string) error { touched = true; return nil }
	vhttp.Do = func(method, url string) (*vhttp.Response, error) { touched = true; return nil, errors.New("x") }
	sym.Assert(verifRun(args...) == 0, "help ends with success")
	sym.Assert(!touched, "help touches nothing")
	sym.Cover("done")
}
