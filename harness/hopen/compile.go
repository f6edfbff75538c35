package hopen

import (
	"encoding/xml"
	"time"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	"verif.test/v/sym"
	"verif.test/v/vos"
	"verif.test/v/vtime"
	"verif.test/v/vxml"
)

const (
	dir      = "/d"
	packed   = dir + "/" + opencorpora.LocalSourceFilename
	unpacked = dir + "/" + opencorpora.LocalUnpackedFilename
	compiled = dir + "/" + opencorpora.LocalCompiledFilename
)

// form and lemma are what a document says.
type form struct {
	word []rune
	tags []int
}

type lemma struct {
	tags  []int
	forms []form
}

// names are the grammemes of the documents, parents theirs.
var (
	names   = []dag.TagName{"NOUN", "plur", "gent"}
	parents = []dag.TagName{"POST", "NMbr", dag.EmptyTagName}
)

// doc collects the tokens of a document.
type doc struct{ t []xml.Token }

func (d *doc) open(name string, attrs ...string) { d.t = append(d.t, vxml.Start(name, attrs...)) }
func (d *doc) text(s string)                     { d.t = append(d.t, vxml.Text(s)) }
func (d *doc) close(names ...string) {
	for _, n := range names {
		d.t = append(d.t, vxml.End(n))
	}
}

func (d *doc) leaf(name string, attrs ...string) {
	d.open(name, attrs...)
	d.close(name)
}

// head opens the document and declares the grammemes.
func (d *doc) head() {
	d.open("dictionary", "version", "0.92", "revision", "418")
	d.open("grammemes")
	for i, n := range names {
		parent := parents[i]
		if parent == dag.EmptyTagName {
			parent = ""
		}
		d.open("grammeme", "parent", string(parent))
		d.open("name")
		d.text(string(n))
		d.close("name")
		d.leaf("alias")
		d.leaf("description")
		d.close("grammeme")
	}
	d.close("grammemes")
	d.open("restrictions")
	d.open("restr", "type", "maybe")
	d.leaf("left", "type", "lemma")
	d.leaf("right", "type", "form")
	d.close("restr", "restrictions")
}

func (d *doc) tags(tags []int) {
	for _, t := range tags {
		d.leaf("g", "v", string(names[t]))
	}
}

func (d *doc) l(l lemma) {
	d.open("l", "t", "base")
	d.tags(l.tags)
	d.close("l")
}

func (d *doc) lemma(l lemma, late bool) {
	d.open("lemma", "id", "1", "rev", "1")
	if !late {
		d.l(l)
	}
	for _, f := range l.forms {
		d.text("\n")
		d.open("f", "t", string(f.word))
		d.tags(f.tags)
		d.close("f")
	}
	if late {
		d.l(l)
	}
	d.close("lemma")
}

func (d *doc) foot() {
	d.open("link_types")
	d.leaf("type", "id", "1")
	d.close("link_types")
	d.open("links")
	d.leaf("link", "id", "1", "from", "5", "to", "6", "type", "1")
	d.close("links", "dictionary")
}

// compile puts the document and compiles it.
func compile(d *doc) error {
	vos.Put(unpacked, []byte("document"), time.Time{})
	vxml.Parse = func(data []byte) ([]xml.Token, error) {
		sym.Assert(string(data) == "document", "the document is read to its end")
		return d.t, nil
	}
	return opencorpora.NewLoader(dir).ParseUpdate(unpacked, compiled)
}

func load() *index.Index {
	x, err := opencorpora.NewLoader(dir).LoadIndex()
	sym.Assert(err == nil && x != nil, "the compiled index is loaded")
	return x
}

// same reports whether a tag set of the index has these tags, each as often, and the parents declared.
func same(s dag.TagSet, tags []int) bool {
	if len(s) != len(tags) {
		return false
	}
	var n [3]int
	for _, t := range tags {
		n[t]++
	}
	for _, t := range s {
		k := -1
		for i := range names {
			if t.Name == names[i] && t.Parent == parents[i] {
				k = i
			}
		}
		if k < 0 {
			return false
		}
		n[k]--
	}
	return n == [3]int{}
}

func sameInts(a, b []int) bool {
	var n [3]int
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
	}
	return n == [3]int{}
}

func sameRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	return eq
}

// expect checks what the index says about the word.
func expect(x *index.Index, lemmas []lemma, q []rune) {
	var want [][]int
	for _, l := range lemmas {
		for _, f := range l.forms {
			if !sameRunes(f.word, q) {
				continue
			}
			all := append(append([]int{}, l.tags...), f.tags...)
			seen := false
			for _, w := range want {
				seen = seen || sameInts(w, all)
			}
			if !seen {
				want = append(want, all)
			}
		}
	}
	n, err := x.FetchString(string(q))
	if len(want) == 0 {
		sym.Assert(err != nil || len(n.TagSets()) == 0, "nothing but the forms is a tagged word")
		sym.Cover("other word")
		return
	}
	sym.Assert(err == nil, "every form is found")
	sym.Assert(n.Word() == string(q), "the word found is the form")
	got := n.TagSets()
	sym.Assert(len(got) == len(want), "a form has as many tag sets as it has different ones in the document")
	for _, w := range want {
		ok := false
		for _, g := range got {
			ok = ok || same(g, w)
		}
		sym.Assert(ok, "a form has the tags of its lemma and its own")
	}
	sym.Cover("form")
}

func declared(x *index.Index) {
	tags := x.Tags()
	sym.Assert(len(tags) == len(names), "as many tags as declared grammemes")
	for i, n := range names {
		id, ok := tags.Find(n)
		sym.Assert(ok, "every grammeme is a tag")
		t, ok := tags.Get(id)
		sym.Assert(ok && t.Name == n && t.Parent == parents[i], "with its parent")
	}
}

var some = [][]int{{}, {0}, {0, 1}, {2}, {1, 0, 0}}

func letter(label string) []rune { return []rune{rune(0x400 + uint32(sym.U8(label)))} }

// C16_Words: documents of 1 lemma with 1-2 forms, or 2 lemmas with one each, every form a word of 1 arbitrary letter of 256,
// with lemma and form tags out of 5 lists of 0-3 tags of 3 grammemes, the base form before or after the forms; any query of 1
// letter: found with exactly the tags of the document if it is a form, and untagged otherwise.
// verif: budget=100
func C16_Words() {
	shape := [][]int{{1}, {2}, {1, 1}}[sym.Choose("shape", 3)]
	late := sym.Choose("late", 2) == 1
	var lemmas []lemma
	d := &doc{}
	d.head()
	d.open("lemmata")
	empty := false
	choices := len(some)
	if len(shape) > 1 && !sym.Thorough() {
		choices = 3
	}
	for _, n := range shape {
		l := lemma{tags: some[sym.Choose("l", choices)]}
		for i := 0; i < n; i++ {
			f := form{word: letter("w"), tags: some[sym.Choose("f", choices)]}
			empty = empty || len(l.tags)+len(f.tags) == 0
			l.forms = append(l.forms, f)
		}
		lemmas = append(lemmas, l)
		d.lemma(l, late)
	}
	d.close("lemmata")
	d.foot()
	err := compile(d)
	if empty {
		sym.Assert(err != nil && !vos.Has(compiled), "a form without any tag is refused")
		sym.Cover("empty")
		return
	}
	sym.Assert(err == nil, "the document is compiled")
	x := load()
	declared(x)
	expect(x, lemmas, letter("q"))
}

// C16_Prefixes: a lemma with forms of 1 and 2 arbitrary letters in either order: each is found with its tags, and any query of
// 2 letters is answered accordingly.
// verif: budget=60
func C16_Prefixes() {
	a, b := letter("a"), append(letter("b"), letter("b")...)
	l := lemma{tags: []int{0}, forms: []form{{a, []int{1}}, {b, []int{2}}}}
	if sym.Bool("swap") {
		l.forms[0], l.forms[1] = l.forms[1], l.forms[0]
	}
	d := &doc{}
	d.head()
	d.open("lemmata")
	d.lemma(l, false)
	d.close("lemmata")
	d.foot()
	sym.Assert(compile(d) == nil, "the document is compiled")
	x := load()
	expect(x, []lemma{l}, a)
	expect(x, []lemma{l}, append(letter("q"), letter("q")...))
}

// anyLetters are n arbitrary characters of XML, without control characters.
func anyLetters(label string, n int) (r []rune) {
	for i := 0; i < n; i++ {
		c := sym.Rune(label)
		sym.Assume(sym.And(c >= 0x20, c <= 0x10ffff))
		sym.Assume(sym.Or(c < 0xd800, sym.And(c > 0xdfff, sym.Or(c < 0xfffd, c > 0xffff))))
		r = append(r, c)
	}
	return r
}

// C16_AnyForm: a lemma with a form of an arbitrary character of XML, first or after another, and another of two fixed letters, which is the base form or
// not: both are found with their tags, spelt as in the document, and any query like it is answered accordingly.
// verif: budget=60
func C16_AnyForm() {
	head := [][]rune{{}, {0x430}}[sym.Choose("head", 2)]
	w := append(append([]rune{}, head...), anyLetters("w", 1)...)
	l := lemma{tags: []int{0}, forms: []form{{w, []int{1}}, {[]rune("ёж"), []int{2}}}}
	if sym.Bool("swap") {
		l.forms[0], l.forms[1] = l.forms[1], l.forms[0]
	}
	d := &doc{}
	d.head()
	d.open("lemmata")
	d.lemma(l, false)
	d.close("lemmata")
	d.foot()
	sym.Assert(compile(d) == nil, "the document is compiled")
	x := load()
	n, err := x.FetchString(string(w))
	sym.Assert(err == nil && n.Word() == string(w), "the form is found and spelt")
	expect(x, []lemma{l}, w)
	expect(x, []lemma{l}, append(append([]rune{}, head...), anyLetters("q", 1)...))
}

// C16_Grammemes: 1-3 grammemes with names of 4 arbitrary bytes and parents of 0 or 4, the name in one piece or two, then a
// lemma tagged with any of them: the tags are the grammemes, in order, each once, with the parent of the first of that name.
// verif: budget=100
func C16_Grammemes() {
	d := &doc{}
	d.open("dictionary")
	d.open("grammemes")
	n := 1 + sym.Choose("n", 2)
	if sym.Thorough() {
		n = 1 + sym.Choose("more", 3)
	}
	split := sym.Choose("split", 5)
	var want []dag.Tag
	var all []dag.TagName
	for i := 0; i < n; i++ {
		name, parent := sym.String("name", 4), sym.String("parent", 4*sym.Choose("p", 2))
		for _, s := range []string{name, parent} {
			if len(s) > 0 {
				sym.Assume(s[3] != ' ')
			}
		}
		d.open("grammeme", "parent", parent)
		d.open("name")
		if split > 0 && split < 4 {
			d.text(name[:split])
			d.t = append(d.t, xml.Comment("x"))
			d.text(name[split:])
		} else {
			d.text(name)
		}
		d.close("name", "grammeme")
		all = append(all, dag.TagName(name))
		known := false
		for _, w := range want {
			known = known || w.Name == dag.TagName(name)
		}
		if !known {
			want = append(want, *dag.NewTag(dag.TagName(parent), dag.TagName(name)))
		}
	}
	d.close("grammemes")
	d.open("lemmata")
	d.open("lemma", "id", "1", "rev", "2")
	tag := all[sym.Choose("tag", n)]
	d.open("l", "t", "a")
	d.leaf("g", "v", string(tag))
	d.close("l")
	d.leaf("f", "t", "a")
	d.close("lemma", "lemmata", "dictionary")
	sym.Assert(compile(d) == nil, "the document is compiled")
	x := load()
	tags := x.Tags()
	sym.Assert(len(tags) == len(want), "every grammeme is one tag")
	for i, w := range want {
		sym.Assert(tags[i].Name == w.Name && tags[i].Parent == w.Parent, "grammemes are tags in order, with their parents")
	}
	node, err := x.FetchString("a")
	sym.Assert(err == nil, "the form is found")
	sets := node.TagSets()
	sym.Assert(len(sets) == 1 && len(sets[0]) == 1 && sets[0][0].Name == tag, "the form has the tag of its lemma")
	sym.Cover("done")
}

// C16_Numbers: a lemma whose id or rev, or a dictionary whose revision, is any text of 0-2 (thorough 0-3) bytes: compiled if it
// is a number, refused otherwise.
// verif: budget=60
func C16_Numbers() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	s := sym.String("s", sym.Choose("len", max))
	id, rev, revision := "1", "-1", "007"
	switch sym.Choose("which", 3) {
	case 0:
		id = s
	case 1:
		rev = s
	case 2:
		revision = s
	}
	d := &doc{}
	d.open("dictionary", "revision", revision)
	d.open("grammemes")
	d.open("grammeme", "parent", "")
	d.open("name")
	d.text("NOUN")
	d.close("name", "grammeme", "grammemes")
	d.open("lemmata")
	d.open("lemma", "rev", rev, "id", id)
	d.l(lemma{tags: []int{0}})
	d.leaf("f", "t", "a")
	d.close("lemma", "lemmata", "dictionary")
	err := compile(d)
	sym.Assert((err == nil) == isNumber(s), "a malformed number is refused, and nothing else")
	sym.Assert(vos.Has(compiled) == (err == nil), "there is a compiled file if the document was accepted")
	sym.Cover("done")
}

func isNumber(s string) bool {
	if len(s) > 0 && sym.Or(s[0] == '-', s[0] == '+') {
		s = s[1:]
	}
	if len(s) == 0 {
		return false
	}
	ok := true
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, sym.And(s[i] >= '0', s[i] <= '9'))
	}
	return ok
}

// C16_Undeclared: a form of a lemma tagged with 1-3 tags, one of which, at any place, is any 4 bytes (or 0, 3 or 5): compiled
// with that tag if it is a declared grammeme, refused otherwise.
// verif: budget=60
func C16_Undeclared() {
	n := 1 + sym.Choose("n", 3)
	at := sym.Choose("at", n)
	name := dag.TagName(sym.String("name", []int{4, 0, 3, 5}[sym.Choose("len", 4)]))
	inL := sym.Choose("inL", n+1)
	d := &doc{}
	d.head()
	d.open("lemmata")
	d.open("lemma", "id", "1", "rev", "2")
	d.open("l", "t", "a")
	for i := 0; i < n; i++ {
		if i == inL {
			d.close("l")
			d.open("f", "t", "a")
		}
		if i == at {
			d.leaf("g", "v", string(name))
		} else {
			d.leaf("g", "v", string(names[i]))
		}
	}
	if inL == n {
		d.close("l")
		d.open("f", "t", "a")
	}
	d.close("f", "lemma", "lemmata")
	d.foot()
	err := compile(d)
	known := false
	for _, w := range names {
		known = sym.Or(known, name == w)
	}
	sym.Assert((err == nil) == known, "an undeclared tag is refused, and nothing else")
	sym.Assert(vos.Has(compiled) == (err == nil), "there is a compiled file if the document was accepted")
	sym.Cover("done")
}

// known are the elements of a document by path, with the attributes each has to have.
var known = map[string]string{
	".dictionary":                          "",
	".dictionary.grammemes":                "",
	".dictionary.grammemes.grammeme":       "parent",
	".dictionary.grammemes.grammeme.name":  "",
	".dictionary.grammemes.grammeme.alias": "",
	".dictionary.restrictions":             "",
	".dictionary.restrictions.restr":       "",
	".dictionary.restrictions.restr.left":  "",
	".dictionary.lemmata":                  "",
	".dictionary.lemmata.lemma":            "id rev",
	".dictionary.lemmata.lemma.l":          "t",
	".dictionary.lemmata.lemma.l.g":        "v",
	".dictionary.lemmata.lemma.f":          "t",
	".dictionary.lemmata.lemma.f.g":        "v",
	".dictionary.link_types":               "",
	".dictionary.link_types.type":          "",
	".dictionary.links":                    "",
	".dictionary.links.link":               "",
}

var elements = []string{"dictionary", "grammemes", "grammeme", "name", "lemmata", "lemma", "l", "f", "g", "restrictions",
	"restr", "left", "links", "link", "unknown"}

// C16_Elements: every tree of up to 4 (thorough 5) elements below lemmata or the dictionary, each out of 14 known names and an
// unknown one, one of them without one of its attributes: refused if and only if an element is not expected where it is, lacks
// a required attribute, or a form has no tags; never crashes.
// verif: budget=150
func C16_Elements() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	d := &doc{}
	d.open("dictionary")
	stack := []string{"dictionary"}
	path := ".dictionary"
	if sym.Bool("words") {
		d.open("grammemes")
		d.open("grammeme", "parent", "")
		d.open("name")
		d.text("NOUN")
		d.close("name", "grammeme", "grammemes")
		d.open("lemmata")
		stack = append(stack, "lemmata")
		path += ".lemmata"
		if sym.Bool("lemma") {
			d.open("lemma", "id", "1", "rev", "2")
			stack = append(stack, "lemma")
			path += ".lemma"
		}
	}
	bad, lacking := false, sym.Choose("lacking", n+1)
	lemmaTags, formTags, untagged := 0, []int{}, false
	shut := func() {
		top := stack[len(stack)-1]
		if top == "lemma" {
			for _, k := range formTags {
				untagged = untagged || k+lemmaTags == 0
			}
			lemmaTags, formTags = 0, nil
		}
		stack = stack[:len(stack)-1]
		path = path[:len(path)-len(top)-1]
		d.close(top)
	}
	for opened := 0; opened < n && !bad; {
		k := sym.Choose("next", len(elements)+1)
		if k == 0 {
			if len(stack) == 1 {
				break
			}
			shut()
			continue
		}
		name := elements[k-1]
		path += "." + name
		need, ok := known[path]
		stack = append(stack, name)
		var attrs []string
		switch need {
		case "parent":
			attrs = []string{"parent", "POST"}
		case "id rev":
			attrs = []string{"rev", "2", "id", "1"}
		case "t":
			attrs = []string{"t", "a"}
		case "v":
			attrs = []string{"v", "NOUN"}
		}
		if opened == lacking && len(attrs) > 0 {
			k := 2 * sym.Choose("attr", len(attrs)/2)
			attrs = append(append([]string{}, attrs[:k]...), attrs[k+2:]...)
			bad = true
		}
		bad = bad || !ok
		switch path {
		case ".dictionary.lemmata.lemma.l.g":
			lemmaTags++
		case ".dictionary.lemmata.lemma.f":
			formTags = append(formTags, 0)
		case ".dictionary.lemmata.lemma.f.g":
			formTags[len(formTags)-1]++
		}
		d.open(name, attrs...)
		opened++
	}
	for len(stack) > 0 {
		shut()
	}
	err := compile(d)
	grammeme := false
	for _, t := range d.t {
		if s, ok := t.(xml.StartElement); ok && s.Name.Local == "name" {
			grammeme = true
		}
	}
	if !bad && !untagged && !grammeme {
		// forms may be tagged with a grammeme which this document does not declare
		for _, t := range d.t {
			if s, ok := t.(xml.StartElement); ok && s.Name.Local == "g" {
				untagged = true
			}
		}
		if untagged {
			sym.Assert(err == nil || !vos.Has(compiled), "nothing is compiled of a refused document")
			return
		}
	}
	sym.Assert((err != nil) == (bad || untagged), "a document is refused if and only if it is malformed")
	sym.Assert(vos.Has(compiled) == (err == nil), "there is a compiled file if the document was accepted")
	sym.Assert(vos.OpenFiles == 0, "all files are closed")
	sym.Cover("done")
}

// C16_Asides: a document of a lemma with two forms, of an arbitrary letter and of two, into which a comment, a processing instruction, a
// directive, or (in the dictionary, but not in a name) white space is put at any place (thorough: at any two places): it is compiled
// to the same words and tags.
// verif: budget=60
func C16_Asides() {
	l := lemma{tags: []int{0}, forms: []form{{letter("a"), []int{1}}, {[]rune{'x', 'y'}, []int{2}}}}
	d := &doc{}
	d.head()
	d.open("lemmata")
	d.lemma(l, sym.Bool("late"))
	d.close("lemmata")
	d.foot()
	n := 1
	if sym.Thorough() {
		n = 2
	}
	for ; n > 0; n-- {
		at := sym.Choose("at", len(d.t)+1)
		var aside xml.Token
		switch sym.Choose("aside", 4) {
		case 0:
			aside = xml.Comment(sym.String("comment", 2))
		case 1:
			aside = xml.ProcInst{Target: "xml", Inst: []byte(sym.String("inst", 1))}
		case 2:
			aside = xml.Directive("DOCTYPE dictionary")
		case 3:
			if at == 0 || at == len(d.t) {
				continue
			}
			name := false
			for _, t := range d.t[:at] {
				switch t := t.(type) {
				case xml.StartElement:
					name = t.Name.Local == "name"
				case xml.EndElement:
					name = false
				}
			}
			if name {
				continue
			}
			aside = xml.CharData([]string{" ", "\n\t"}[sym.Choose("space", 2)])
		}
		d.t = append(d.t[:at:at], append([]xml.Token{aside}, d.t[at:]...)...)
	}
	sym.Assert(compile(d) == nil, "the document is compiled")
	x := load()
	declared(x)
	expect(x, []lemma{l}, l.forms[0].word)
	expect(x, []lemma{l}, l.forms[1].word)
	expect(x, []lemma{l}, letter("q"))
}

// C16_AnyName: in a lemma or in one of its forms, an element whose name is any 1 byte (thorough: or 2) with an attribute whose
// name is any 1 byte and whose value is any 4 ASCII characters: accepted if and only if it is the element expected there (l, f in a lemma, g in
// a form), has the attribute it needs, and a tag is declared.
// verif: budget=60
func C16_AnyName() {
	n := 1
	if sym.Thorough() {
		n += sym.Choose("more", 2)
	}
	name, attr, value := sym.String("name", n), sym.String("attr", 1), sym.String("value", 4)
	inForm := sym.Bool("inForm")
	for i := 0; i < 4; i++ {
		sym.Assume(value[i] < 0x80)
	}
	d := &doc{}
	d.head()
	d.open("lemmata")
	d.open("lemma", "id", "1", "rev", "1")
	d.l(lemma{tags: []int{0}})
	if inForm {
		d.open("f", "t", "a")
	}
	d.leaf(name, attr, value)
	if inForm {
		d.close("f")
	}
	d.close("lemma", "lemmata")
	d.foot()
	err := compile(d)
	ok := sym.And(sym.Or(name == "l", name == "f"), attr == "t")
	if inForm {
		declared := sym.Or(value == "NOUN", sym.Or(value == "plur", value == "gent"))
		ok = sym.And(sym.And(name == "g", attr == "v"), declared)
	}
	sym.Assert((err == nil) == ok, "an element is accepted if and only if it is expected")
	sym.Assert(vos.Has(compiled) == (err == nil), "there is a compiled file if the document was accepted")
	sym.Cover("done")
}

// C16_Damage: a document which cannot be opened, cannot be read from any position, or ends with a syntax error after any of its
// tokens: an error, and no compiled file.
// verif: budget=60
func C16_Damage() {
	d := &doc{}
	d.head()
	d.open("lemmata")
	d.lemma(lemma{tags: []int{0}, forms: []form{{[]rune("a"), []int{1}}}}, false)
	d.close("lemmata")
	d.foot()
	vos.Put(unpacked, []byte("document"), time.Time{})
	vxml.Parse = func(data []byte) ([]xml.Token, error) { return d.t, nil }
	switch sym.Choose("case", 3) {
	case 0:
		if sym.Bool("missing") {
			sym.Assert(vos.Remove(unpacked) == nil, "removed")
		} else {
			vos.Fault = func(op, name string) error {
				if op == "open" {
					return vos.ErrFault
				}
				return nil
			}
		}
	case 1:
		left := sym.Choose("at", 9)
		vos.OnRead = func(name string, n int) (int, error) {
			if left == 0 {
				return 0, vos.ErrFault
			}
			if n > left {
				n = left
			}
			left -= n
			return n, nil
		}
	case 2:
		cut := sym.Choose("tokens", len(d.t)+1)
		vxml.Parse = func(data []byte) ([]xml.Token, error) { return d.t[:cut], vxml.ErrSyntax }
	}
	err := opencorpora.NewLoader(dir).ParseUpdate(unpacked, compiled)
	sym.Assert(err != nil, "the failure is reported")
	sym.Assert(!vos.Has(compiled), "no compiled file")
	sym.Assert(vos.OpenFiles == 0, "all files are closed")
	sym.Cover("done")
}

// C16_Slow: a document of 3 lemmas with one form each, the last of one arbitrary letter, and 1, 9.99 or 11 seconds, or 1000 hours, passing before any one look at the clock, or every one: every form is found with its tags.
// verif: budget=60
func C16_Slow() {
	now := time.Unix(1700000000, 0)
	pass := []time.Duration{time.Second, 9990 * time.Millisecond, 11 * time.Second, 1000 * time.Hour}[sym.Choose("pass", 4)]
	look, at, every := 0, sym.Int("at", 0, 30), sym.Bool("every")
	vtime.Clock = func() time.Time {
		if every || look == at {
			now = now.Add(pass)
		}
		look++
		return now
	}
	lemmas := []lemma{
		{tags: []int{0}, forms: []form{{word: []rune("ab"), tags: []int{1}}}},
		{tags: []int{0, 1}, forms: []form{{word: []rune("a"), tags: []int{2}}}},
		{tags: []int{2}, forms: []form{{word: letter("w"), tags: []int{0}}}},
	}
	d := &doc{}
	d.head()
	d.open("lemmata")
	for _, l := range lemmas {
		d.lemma(l, false)
	}
	d.close("lemmata")
	d.foot()
	err := compile(d)
	sym.Assert(err == nil, "the document is compiled")
	vtime.Clock = nil
	x := load()
	for _, l := range lemmas {
		expect(x, lemmas, l.forms[0].word)
	}
	sym.Assert(x.WordsCount() == 3, "nothing but the forms is a tagged word")
}
