package hindex

import (
	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// C04_InIndex: any history of 3 (thorough: 4) registrations with an index of names of 4 arbitrary bytes with parents of 0 or 4, with a word added and tagged, the index
// optimized, saved and loaded, or tags looked up or refused, after any one of them: IDs are dense, stable and unique per name, and an arbitrary name or ID is found exactly if it was registered.
// verif: budget=90
func C04_InIndex() {
	x := index.New()
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	var want []dag.Tag
	at := sym.Choose("at", steps)
	for i := 0; i < steps; i++ {
		name, parent := sym.String("name", 4), sym.String("parent", 4*sym.Choose("plen", 2))
		sym.Assume(name[0] != ' ' && (len(parent) == 0 || parent[0] != ' '))
		id := x.TagID(dag.TagName(name), dag.TagName(parent))
		k := len(want)
		for j, t := range want {
			if string(t.Name) == name {
				k = j
				break
			}
		}
		if k == len(want) {
			p := dag.TagName(parent)
			if len(p) == 0 {
				p = dag.EmptyTagName
			}
			want = append(want, dag.Tag{Name: dag.TagName(name), Parent: p})
		}
		sym.Assert(int(id) == k, "a known name keeps its ID, a new one gets the next")
		if i != at {
			continue
		}
		switch sym.Choose("then", 5) {
		case 0:
			n, err := x.AddString("ab")
			sym.Assert(err == nil && n.AddTagSet(want[0].Name) == nil, "a word is added and tagged")
			sym.Assert(n.AddTagSet(want[0].Name, want[len(want)-1].Name) == nil, "a word is tagged")
			x.Optimize()
		case 1:
			x = reload(x, "reload")
		case 2:
			n, err := x.AddString("ab")
			sym.Assert(err == nil, "a word is added")
			bad := dag.TagName(sym.String("bad", 4))
			for _, t := range want {
				sym.Assume(t.Name != bad)
			}
			sym.Assert(n.AddTagSet(bad) != nil, "an unknown tag is refused")
		case 3:
			tags := x.Tags()
			_, _ = tags.Find("none")
			_, _ = tags.Get(200)
		}
	}
	tags := x.Tags()
	sym.Assert(tags.Len() == len(want), "as many tags as names registered")
	q := dag.TagName(sym.String("q", 4))
	id, found := tags.Find(q)
	for j, t := range want {
		if t.Name == q {
			sym.Assert(found && int(id) == j, "a name registered is found under its ID")
			sym.Cover("found")
		}
		g, ok := tags.Get(dag.TagID(j))
		sym.Assert(ok && g.Name == t.Name && (g.Parent == t.Parent || len(g.Parent) == 0 && t.Parent == dag.EmptyTagName), "an ID gives its name and first parent")
	}
	sym.Assert(!found || int(id) < len(want) && want[id].Name == q, "a name never registered is not found")
	any := dag.TagID(sym.U8("id"))
	_, ok := tags.Get(any)
	sym.Assert(ok == (int(any) < len(want)), "an ID never given out is not found")
	sym.Cover("done")
}
