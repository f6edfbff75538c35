package hopen

import (
	"encoding/xml"
	"errors"
	"io"
	"time"

	http "verif.test/v/vhttp"

	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	"verif.test/v/sym"
	"verif.test/v/vbzip2"
	"verif.test/v/vos"
	"verif.test/v/vxml"
)

func at(sec int64) time.Time { return time.Unix(sec, 0) }

// body is the body of a response.
type body struct {
	data []byte
	fail bool // at the end, instead of EOF
	shut bool
}

func (b *body) Read(p []byte) (int, error) {
	if b.shut {
		return 0, errors.New("read of a closed body")
	}
	if len(b.data) == 0 {
		if b.fail {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}

func (b *body) Close() error { b.shut = true; return nil }

func head(code int, date ...string) *http.Response {
	r := &http.Response{StatusCode: code, Header: http.Header{}, Body: &body{}}
	if date != nil {
		r.Header["Last-Modified"] = date
	}
	return r
}

func digits(n int, w int) string {
	s := ""
	for i := 0; i < w; i++ {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

// C17_Date: a server date of January 2021 with any day and hour, or any minute and second (thorough: and any of 12 months), and any local
// modification time of 32 bits of seconds and 0, 1 or 999999999 nanoseconds: an update is required if and only if the server's date is later.
// verif: budget=100
func C17_Date() {
	day, hour, min, sec := 15, 12, 30, 30
	switch sym.Choose("fields", 2) {
	case 0:
		day, hour = sym.Int("day", 1, 28), sym.Int("hour", 0, 23)
	case 1:
		min, sec = sym.Int("min", 0, 59), sym.Int("sec", 0, 59)
	}
	two := func(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }
	month, first := "Jan", int64(1609459200)
	if sym.Thorough() {
		m := sym.Choose("month", 12)
		month = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}[m]
		for i := 0; i < m; i++ {
			first += 86400 * []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30}[i]
		}
	}
	// the name of the day is not checked against the date by anyone
	date := "Mon, " + two(day) + " " + month + " 2021 " + two(hour) + ":" + two(min) + ":" + two(sec) + " GMT"
	server := first + int64(day-1)*86400 + int64(hour)*3600 + int64(min)*60 + int64(sec)
	local, ns := int64(sym.U32("local")), []int64{0, 1, 999999999}[sym.Choose("ns", 3)]
	vos.Put(packed, []byte("x"), time.Unix(local, ns))
	http.Do = func(method, url string) (*http.Response, error) {
		sym.Assert(method == "HEAD" && url == opencorpora.RemoteURL, "the date of the dictionary is asked for")
		return head(200, date), nil
	}
	req, err := opencorpora.NewLoader(dir).IsUpdateRequired()
	sym.Assert(err == nil, "there is an answer")
	sym.Assert(req == (server > local), "an update is required if and only if the server's date is later than the local one")
	sym.Cover("done")
}

// C17_DateNear: a server date with any second of one of 5 minutes (around midnight, the ends of a month, of February and of a year, and noon), and a local modification time up to 127 seconds around
// that minute with 0, 1 or 999999999 nanoseconds, in a local time zone of Greenwich, 3 hours before or 5:30 after it: an update is required if and only if the server's date is later.
// verif: budget=60
func C17_DateNear() {
	k := sym.Choose("minute", 5)
	base := []int64{1704110400, 1704153540, 1706745600, 1709251140, 1735689540}[k]
	text := []string{"Mon, 01 Jan 2024 12:00:", "Mon, 01 Jan 2024 23:59:", "Thu, 01 Feb 2024 00:00:", "Thu, 29 Feb 2024 23:59:", "Tue, 31 Dec 2024 23:59:"}[k]
	if zone := sym.Choose("zone", 3); zone > 0 {
		old := time.Local
		time.Local = time.FixedZone("ZON", []int{0, 3 * 3600, -19800}[zone])
		defer func() { time.Local = old }()
	}
	sec := sym.Int("sec", 0, 59)
	date := text + string([]byte{byte('0' + sec/10), byte('0' + sec%10)}) + " GMT"
	server := base + int64(sec)
	local, ns := base-100+int64(sym.U8("local")), []int64{0, 1, 999999999}[sym.Choose("ns", 3)]
	vos.Put(packed, []byte("x"), time.Unix(local, ns))
	http.Do = func(method, url string) (*http.Response, error) { return head(200, date), nil }
	req, err := opencorpora.NewLoader(dir).IsUpdateRequired()
	sym.Assert(err == nil, "there is an answer")
	sym.Assert(req == (server > local), "an update is required if and only if the server's date is later than the local one")
	sym.Cover("done")
}

// C17_Answer: no local file, one, or one that cannot be accessed; any response status (16 bits), an unreachable server, a date
// of any text of up to 3 bytes, no date at all or an empty list: an update is required exactly when there is no local file or
// the date cannot be read; anything but a status of 200 is an error.
// verif: budget=60
func C17_Answer() {
	local := sym.Choose("local", 3)
	if local == 1 {
		vos.Put(packed, []byte("x"), at(100))
	}
	if local == 2 {
		vos.Put(packed, []byte("x"), at(100))
		vos.Fault = func(op, name string) error {
			if op == "stat" {
				return []error{vos.ErrFault, vos.ErrPermission}[sym.Choose("error", 2)]
			}
			return nil
		}
	}
	code := int(sym.U16("code"))
	server := sym.Choose("server", 4)
	http.Do = func(method, url string) (*http.Response, error) {
		switch server {
		case 0:
			return nil, errors.New("unreachable")
		case 1:
			return head(code, sym.String("date", sym.Choose("len", 4))), nil
		case 2:
			return head(code), nil
		}
		return head(code, []string{}...), nil
	}
	req, err := opencorpora.NewLoader(dir).IsUpdateRequired()
	switch {
	case local == 0:
		sym.Assert(req && err == nil, "without a local file an update is required")
	case local == 2, server == 0:
		sym.Assert(!req && err != nil, "a failure is reported")
	default:
		sym.Assert((err != nil) == (code != 200), "a refusing server is an error")
		if err == nil {
			sym.Assert(req == (server == 1), "an unreadable date requires an update, a missing one does not")
		}
	}
	sym.Cover("done")
}

// C17_Download: no local download or an older one; the server answers the question for the date with 200 and the request for the
// data with any status (16 bits) and the data, another text, or nothing: the data is taken if and only if the status is 200, and
// then the download holds what was answered; otherwise it is an error and the local download is what it was.
func C17_Download() {
	vos.Dir(dir)
	vos.Clock = at(300)
	local := sym.Bool("local")
	if local {
		vos.Put(packed, []byte(oldData), at(100))
	}
	code := int(sym.U16("code"))
	text := []string{newData, "page", ""}[sym.Choose("body", 3)]
	http.Do = func(method, url string) (*http.Response, error) {
		r := head(200, "Thu, 01 Jan 1970 00:03:20 GMT")
		if method == "GET" {
			r.StatusCode, r.Body = code, &body{data: []byte(text)}
		}
		return r, nil
	}
	updated, err := opencorpora.NewLoader(dir).DownloadUpdate()
	sym.Assert((err != nil) == (code != 200), "the data is taken if and only if the server does not refuse it")
	sym.Assert(updated == (err == nil), "it is told whether there is new data")
	got, there := vos.Content(packed)
	if err == nil {
		sym.Assert(there && string(got) == text, "the download holds what the server answered")
		sym.Cover("taken")
	} else {
		sym.Assert(there == local && (!local || string(got) == oldData), "a refusing server leaves the local download as it was")
		sym.Cover("refused")
	}
}

// version makes a document whose only word tells its version.
func version(data []byte) ([]xml.Token, error) {
	if len(data) != 8 {
		return nil, vxml.ErrSyntax
	}
	d := &doc{}
	d.head()
	d.open("lemmata")
	d.lemma(lemma{tags: []int{0}, forms: []form{{[]rune(string(data[:2])), nil}}}, false)
	d.close("lemmata")
	d.foot()
	return d.t, nil
}

// holds reports whether the compiled index can be loaded and is of this version.
func holds(v string) bool {
	x, err := opencorpora.NewLoader(dir).LoadIndex()
	if err != nil {
		return false
	}
	n, err := x.FetchString(v)
	if err != nil || x.WordsCount() != 1 {
		return false
	}
	s := n.TagSets()
	return len(s) == 1 && len(s[0]) == 1 && s[0][0] == dag.Tag{Parent: "POST", Name: "NOUN"}
}

const (
	oldData = "v1------"
	newData = "v2------"
)

// steps counts operations which may fail, and fails the one chosen; with kill all after it fail as well, so that nothing
// changes any more, as if the program had been killed.
type steps struct {
	n, at int
	kill  bool
	hit   bool
}

func (s *steps) fails() bool {
	if s.at < 0 {
		return false
	}
	if s.hit {
		return s.kill
	}
	s.n++
	if s.n-1 != s.at {
		return false
	}
	s.hit = true
	return true
}

// world places the local files and the server; local says which files there are: 0 none, 1 the download, 2 and the unpacked
// file, 3 and the compiled index; all of the old version.
func world(local int, serverNewer bool, s *steps) {
	vos.Clock = at(100)
	files := []string{packed, unpacked}
	for i, f := range files {
		if local > i {
			vos.Put(f, []byte(oldData), at(int64(100+i)))
		}
	}
	vxml.Parse = version
	if local > 2 {
		sym.Assert(opencorpora.NewLoader(dir).ParseUpdate(unpacked, compiled) == nil, "the old version is compiled")
		data, _ := vos.Content(compiled)
		vos.Put(compiled, data, at(102))
	}
	vos.Clock = at(300)
	vos.OpenFiles = 0
	date, data := "Thu, 01 Jan 1970 00:01:30 GMT", oldData
	if serverNewer {
		date, data = "Thu, 01 Jan 1970 00:03:20 GMT", newData
	}
	http.Do = func(method, url string) (*http.Response, error) {
		sym.Assert(url == opencorpora.RemoteURL, "the dictionary is asked for")
		if s.fails() {
			return nil, errors.New("unreachable")
		}
		code := 200
		if s.fails() {
			code = 503
		}
		if method == "HEAD" {
			return head(code, date), nil
		}
		r := head(code, date)
		cut := 8
		if s.fails() {
			cut = 0
		} else if s.fails() {
			cut = 5
		}
		r.Body = &body{data: []byte(data)[:cut], fail: cut < 8}
		return r, nil
	}
	vos.Fault = func(op, name string) error {
		if s.fails() {
			return vos.ErrFault
		}
		return nil
	}
	vos.OnRead = func(name string, n int) (int, error) {
		if s.fails() {
			return 0, vos.ErrFault
		}
		if n > 5 {
			n = 5 // several reads each
		}
		return n, nil
	}
	vos.OnWrite = func(name string, n int) (int, error) {
		if s.fails() {
			return 0, vos.ErrFault
		}
		if s.fails() {
			return n / 2, vos.ErrFault
		}
		return n, nil
	}
}

// C17_Update: with no local files, the download, also the unpacked file, or also the compiled index; a server with the same or
// newer data; forced or not: updating succeeds and the compiled index is of the server's version. If any one operation on
// files or network fails, or the archive is corrupt or cut short at its start, middle or end, updating returns an error, or succeeds with
// the right index (of the local data if the check of the server failed and it is forced); all files are closed; and updating
// again without failures succeeds.
// verif: budget=150
func C17_Update() {
	local, newer, force := sym.Choose("local", 4), sym.Bool("newer"), sym.Bool("force")
	s := &steps{at: -1}
	vos.Dir(dir)
	world(local, newer, s)
	want := "v1"
	if newer {
		want = "v2"
	}
	mode := sym.Choose("mode", 3)
	switch mode {
	case 1:
		s.at = sym.Int("at", 0, 120)
	case 2:
		vbzip2.CorruptAt = []int{0, 3, 8}[sym.Choose("corrupt", 3)]
		vbzip2.CutShort = sym.Bool("short")
	}
	l := opencorpora.NewLoader(dir)
	err := l.Update(force)
	sym.Assert(vos.OpenFiles == 0, "all files are closed")
	s.at = -1
	vbzip2.CorruptAt = -1
	if !s.hit && mode == 1 {
		sym.Assert(s.n < 120, "every operation may be the failing one")
		sym.Stop()
	}
	if mode == 0 {
		sym.Assert(err == nil, "an update without failures succeeds")
	}
	if mode == 2 && (newer || local < 2) {
		sym.Assert(err != nil, "a corrupt archive is reported")
	}
	if err == nil {
		ok := holds(want)
		if s.hit && force && newer && local > 0 {
			ok = ok || holds("v1") // the server could not be asked
		}
		sym.Assert(ok, "a successful update leaves the index of the data it had to use")
		sym.Cover("success")
	} else {
		sym.Assert(local < 3 || holds("v1") || holds("v2"), "after a failure there still is an index if there was one")
		sym.Cover("failure")
	}
	err = l.Update(force)
	sym.Assert(err == nil, "updating again after a failure succeeds")
	sym.Assert(holds(want), "updating again after a failure leaves the right index")
}

// C17_Killed: the same local files and servers; the program is killed at any operation on files or network, in the middle of a
// write as well, of the same or of longer data: updating again succeeds with the right index, at once or after the index could not be loaded.
// verif: budget=150
func C17_Killed() {
	local, newer, force := sym.Choose("local", 4), sym.Bool("newer"), sym.Bool("force")
	s := &steps{at: sym.Int("at", 0, 120), kill: true}
	vos.Dir(dir)
	at := s.at
	s.at = -1
	world(local, newer, s)
	s.at = at
	want := "v1"
	if newer {
		want = "v2"
	}
	l := opencorpora.NewLoader(dir)
	err := l.Update(force)
	if !s.hit {
		sym.Assert(s.n < 120, "the program may be killed at every operation")
		sym.Stop()
	}
	s.at, s.hit = -1, false
	vos.OpenFiles = 0
	sym.Assert(local < 3 || holds("v1") || holds("v2"), "after being killed there still is an index if there was one")
	if sym.Bool("longer") {
		for _, f := range vos.Names() {
			if data, ok := vos.Content(f); ok && f != packed && f != unpacked && f != compiled {
				vos.Put(f, append(data, make([]byte, 300)...), time.Unix(250, 0))
			}
		}
	}
	err = l.Update(force)
	sym.Assert(err == nil, "updating again after being killed succeeds")
	sym.Assert(holds(want), "updating again after being killed leaves the right index")
	sym.Cover("done")
}
