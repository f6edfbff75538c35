package hindex

import (
	"github.com/amarin/gomorphy/internal/index"
	"verif.test/v/sym"
)

// C01_Two: two indexes filled in alternation: 3 additions of a word of 1, 2 and 1 (thorough 1 to 2 each)
// arbitrary Cyrillic letters with an arbitrary tag, each to any of the two, then possibly one of them is optimized or saved and loaded: each answers
// for its own words, with their tag sets, and not for those of the other.
// verif: budget=90
func C01_Two() {
	const steps = 3
	xs := [2]*index.Index{newIndex(), newIndex()}
	ms := [2]*model{{}, {}}
	for i := 0; i < steps; i++ {
		k := sym.Choose("index", 2)
		n := 1 + i%2
		if sym.Thorough() {
			n = 1 + sym.Choose("len", 2)
		}
		w := cyr("w", n)
		l, c := tagList(1)
		d, err := xs[k].AddRunes(w)
		sym.Assert(err == nil, "a word is added")
		sym.Assert(d.AddTagSet(l...) == nil, "known tags are attached")
		ms[k].add(w).attach(c)
	}
	switch k := sym.Choose("then", 3); k {
	case 1:
		xs[0].Optimize()
	case 2:
		xs[1] = reload(xs[1], "reload")
	}
	q := cyr("q", 1)
	for k := range xs {
		what := []string{"the first", "the second"}[k]
		ms[k].check(xs[k], what)
		ms[k].checkCounts(xs[k], what)
		ms[k].query(xs[k], q, what)
	}
	sym.Cover("done")
}
