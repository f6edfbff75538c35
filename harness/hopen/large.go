package hopen

import (
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// largeTags is the number of grammemes of the large document.
const largeTags = 60

func largeName(i int) dag.TagName {
	return dag.TagName([]byte{'G', 'r', byte('0' + i/10), byte('0' + i%10)})
}

// bag is a set of tags, each with how often it is there.
type bag [largeTags]int

func bagOf(lists ...[]int) (b bag) {
	for _, l := range lists {
		for _, t := range l {
			b[t]++
		}
	}
	return b
}

// largeWord is a word and what it has to be tagged with.
type largeWord struct {
	word []rune
	bags []bag
}

// C16_Large: a document of 60 grammemes and 13 lemmas with 1 to 30 forms of 1 to 40 letters, of which many are forms of several lemmas or beginnings of others, lemma and
// form tags of 0 to 20 (one lemma with all 60); one form is an arbitrary letter, alone or before others, in the first or the last lemma: every form is found with exactly the tags of the document.
// verif: budget=120
func C16_Large() {
	probe := letter("w")
	if sym.Bool("longer") {
		probe = append(probe, 'a', 'b')
	}
	last := sym.Bool("last")
	d := &doc{}
	d.open("dictionary")
	d.open("grammemes")
	for i := 0; i < largeTags; i++ {
		parent := "POST"
		if i > 40 {
			parent = string(largeName(i % 7))
		}
		d.open("grammeme", "parent", parent)
		d.open("name")
		d.text(string(largeName(i)))
		d.close("name", "grammeme")
	}
	d.close("grammemes")
	d.open("lemmata")
	var words []largeWord
	put := func(w []rune, b bag) {
		for i := range words {
			if sameRunes(words[i].word, w) {
				for _, o := range words[i].bags {
					if o == b {
						return
					}
				}
				words[i].bags = append(words[i].bags, b)
				return
			}
		}
		words = append(words, largeWord{w, []bag{b}})
	}
	tags := func(l []int) {
		for _, t := range l {
			d.leaf("g", "v", string(largeName(t)))
		}
	}
	run := func(n, from, step int) []int {
		l := make([]int, n)
		for i := range l {
			l[i] = (from + i*step) % largeTags
		}
		return l
	}
	for i := 0; i < 13; i++ {
		base := run([]int{1, 0, 2, 20, 60, 3}[i%6], i*5, 7)
		if i%6 == 4 {
			base = run(60, 59, 59)
		}
		late := i%4 == 3
		d.open("lemma", "id", "1", "rev", "1")
		if !late {
			d.open("l", "t", "base")
			tags(base)
			d.close("l")
		}
		forms := []int{3, 30, 1, 8}[i%4]
		for k := 0; k < forms; k++ {
			w := make([]rune, 1+(i*3+k)%7)
			if k == 5 {
				w = make([]rune, 40)
			}
			for p := range w {
				w[p] = rune(0x430 + (i/2+k/3+p*p)%11)
			}
			own := run(1+(i+k)%4, i+k*3, 11)
			if len(base) > 0 && k%5 == 1 {
				own = nil
			}
			if k == 2 {
				own = append(own, base...) // tags named twice
			}
			if k == 0 && (i == 0 && !last || i == 12 && last) {
				w = probe
			}
			d.open("f", "t", string(w))
			tags(own)
			d.close("f")
			put(w, bagOf(base, own))
		}
		if late {
			d.open("l", "t", "base")
			tags(base)
			d.close("l")
		}
		d.close("lemma")
	}
	d.close("lemmata")
	d.foot()
	sym.Assert(compile(d) == nil, "the document is compiled")
	x := load()
	all := x.Tags()
	sym.Assert(len(all) == largeTags, "as many tags as declared grammemes")
	for i := 0; i < largeTags; i++ {
		want := dag.TagName("POST")
		if i > 40 {
			want = largeName(i % 7)
		}
		sym.Assert(all[i].Name == largeName(i) && all[i].Parent == want, "grammemes are tags with their parents")
	}
	for _, e := range words {
		n, err := x.FetchString(string(e.word))
		sym.Assert(err == nil && n.Word() == string(e.word), "every form is found")
		got := n.TagSets()
		sym.Assert(len(got) == len(e.bags), "a form has as many tag sets as it has different ones in the document")
		for _, s := range got {
			b := bagOf(nil)
			for _, t := range s {
				b[int(t.Name[2]-'0')*10+int(t.Name[3]-'0')]++
			}
			known := false
			for _, o := range e.bags {
				known = known || o == b
			}
			sym.Assert(known, "a form has the tags of its lemma and its own")
		}
	}
	sym.Assert(x.WordsCount() == len(words), "nothing but the forms is a tagged word")
	onlyForms(x, words)
	sym.Cover("done")
}

// onlyForms checks that every node with tags is a form.
func onlyForms(x *index.Index, words []largeWord) {
	tagged := 0
	for i := 1; i <= x.NodesCount(); i++ {
		n, err := x.Get(dag.ID(i))
		sym.Assert(err == nil, "every node is there")
		if len(n.TagSets()) > 0 {
			tagged++
		}
	}
	sym.Assert(tagged == len(words), "nothing but the forms is a tagged word")
}
