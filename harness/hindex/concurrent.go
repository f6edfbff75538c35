package hindex

import (
	"sync"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/dag"
	"verif.test/v/sym"
)

// C21_Allocate: after 0 to 9 allocations, 2 goroutines allocate 1 or 2 nodes each, at once, with arbitrary letters and
// parents, under every schedule with up to 3 (thorough: 4) preemptions: numbers are distinct and without gap, every node has its parent and
// letter, no data race.
// verif: budget=120 concurrent
func C21_Allocate() {
	items := index.NewItems()
	before := sym.Choose("before", 10)
	type node struct {
		parent dag.ID
		letter rune
		id     dag.ID
	}
	var all []node
	for i := 0; i < before; i++ {
		l := rune('a' + i)
		all = append(all, node{dag.ID(i), l, items.NewChild(dag.ID(i), l).ID})
	}
	threads := 2
	bound := 3
	if sym.Thorough() {
		bound = 4
	}
	each := make([][]node, threads)
	for i := range each {
		n := 1
		if i == 0 {
			n += sym.Choose("n", 2)
		}
		each[i] = make([]node, n)
		for j := range each[i] {
			each[i][j] = node{parent: dag.ID(sym.U32("parent")), letter: rune(sym.U16("letter"))}
		}
	}
	sym.Races(bound)
	var wg sync.WaitGroup
	wg.Add(threads)
	for i := range each {
		mine := each[i]
		go func() {
			for j := range mine {
				it := items.NewChild(mine[j].parent, mine[j].letter)
				mine[j].id = it.ID
				sym.Assert(it.Parent == mine[j].parent && it.Letter == mine[j].letter && it.Variants == 0, "the node given is the one asked for")
			}
			wg.Done()
		}()
	}
	wg.Wait()
	for i := range each {
		all = append(all, each[i]...)
	}
	seen := make([]bool, len(all)+1)
	for _, n := range all {
		sym.Assert(n.id >= 1 && int(n.id) <= len(all) && !seen[n.id], "numbers are distinct and without gap")
		seen[n.id] = true
		it := items.Get(n.id)
		sym.Assert(it != nil && it.ID == n.id && it.Parent == n.parent && it.Letter == n.letter && it.Variants == 0, "every node has its parent and letter")
	}
	sym.Assert(int(items.NextID()) == len(all)+1, "no number is skipped")
	sym.Assert(items.Get(items.NextID()) == nil, "no other node is there")
	sym.Cover("done")
}

// C21_Three: 3 goroutines allocate one node each, starting around the points where storage is extended, with up to 2
// (thorough: 3) preemptions.
// verif: budget=120 concurrent
func C21_Three() {
	items := index.NewItems()
	before := 4 + sym.Choose("before", 6)
	for i := 0; i < before; i++ {
		items.NewChild(0, 'a')
	}
	bound := 2
	if sym.Thorough() {
		bound = 3
	}
	var ids [3]dag.ID
	var letters [3]rune
	for i := range letters {
		letters[i] = rune(sym.U16("letter"))
	}
	sym.Races(bound)
	var wg sync.WaitGroup
	wg.Add(3)
	for i := range ids {
		i := i
		go func() {
			ids[i] = items.NewChild(dag.ID(i), letters[i]).ID
			wg.Done()
		}()
	}
	wg.Wait()
	for i := range ids {
		sym.Assert(int(ids[i]) > before && int(ids[i]) <= before+3, "no number is skipped")
		for j := range ids[:i] {
			sym.Assert(ids[i] != ids[j], "numbers are distinct")
		}
		it := items.Get(ids[i])
		sym.Assert(it != nil && it.ID == ids[i] && int(it.Parent) == i && it.Letter == letters[i], "every node has its parent and letter")
	}
	sym.Cover("done")
}

// look performs one lookup and returns what it found in a comparable form.
func look(x *index.Index, kind int, q []rune, id dag.ID, tag dag.TagName) (r []string) {
	show := func(d dag.Node) {
		r = append(r, d.Word(), d.String())
		for _, s := range d.TagSets() {
			for _, t := range s {
				r = append(r, string(t.Name), string(t.Parent))
			}
		}
	}
	switch kind {
	case 0:
		if d, err := x.FetchRunes(q); err == nil {
			show(d)
		}
	case 1:
		if d, err := x.FetchString(string(q)); err == nil {
			show(d)
		}
	case 2:
		if d, err := x.FetchItemFromParent(id, q); err == nil {
			show(d)
		}
	case 3:
		if d, err := x.FetchFromItem(id, q); err == nil {
			show(d)
		}
	case 4:
		r = append(r, "")
		for l := range x.GetChildrenMap(id) {
			if l == q[0] {
				r[0] = "yes"
			}
		}
	case 5:
		r = append(r, "")
		if _, ok := x.GetChildrenIDMap(id)[q[0]]; ok {
			r[0] = "yes"
		}
	case 6:
		if d, err := x.Get(id); err == nil {
			show(d)
		}
	case 7:
		r = append(r, string(rune(x.WordsCount())), string(rune(x.NodesCount())), string(rune(len(x.Children()))))
	case 8:
		if c, err := x.Variants(index.VariantID(id)); err == nil {
			for _, s := range c {
				if l, ok := x.TagSetIndex().Get(s); ok {
					if ts, err := x.TagSet(l); err == nil {
						for _, t := range ts {
							r = append(r, string(t.Name))
						}
					}
				}
			}
		}
	case 9:
		if i, ok := x.Tags().Find(tag); ok {
			t, _ := x.Tags().Get(i)
			r = append(r, string(t.Name))
		}
		if t, ok := x.Tags().Get(dag.TagID(id)); ok {
			r = append(r, string(t.Parent))
		}
	}
	return r
}

const looks = 10

func sameText(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	return eq
}

// readable is an index of three words, built or loaded.
func readable(loaded bool) *index.Index {
	x := newIndex()
	for i, w := range []string{"мы", "мя", "я"} {
		d, err := x.AddString(w)
		sym.Assert(err == nil, "a word is added")
		sym.Assert(d.AddTagSet(tagNames[i]) == nil, "known tags are attached")
		sym.Assert(d.AddTagSet(tagNames[0], tagNames[2]) == nil, "known tags are attached")
	}
	if loaded {
		return reload(x, "reload")
	}
	return x
}

// C14_Pure: one lookup of each of 10 kinds with an arbitrary word of 1 or 2 Cyrillic letters, an arbitrary 32-bit number
// and an arbitrary name: it answers the same again, and the index is written exactly as before.
// verif: budget=60
func C14_Pure() {
	x := readable(sym.Bool("loaded"))
	before, err := save(x)
	sym.Assert(err == nil, "the index is written")
	kind := sym.Choose("kind", looks)
	q := cyr("q", 1+sym.Choose("qlen", 2))
	id := dag.ID(sym.U32("id"))
	tag := dag.TagName(sym.String("tag", 4))
	nodes, words := x.NodesCount(), x.WordsCount()
	first := look(x, kind, q, id, tag)
	sym.Assert(sameText(first, look(x, kind, q, id, tag)), "a lookup answers the same again")
	after, err := save(x)
	sym.Assert(err == nil && string(before) == string(after), "a lookup changes nothing that is written")
	sym.Assert(x.NodesCount() == nodes && x.WordsCount() == words, "a lookup changes no count")
	sym.Cover("done")
}

// C14_Readers: two goroutines at once, each making one lookup of any kind with an arbitrary letter (or one after a known
// one) and an arbitrary number up to 7 or of a combination, under every schedule with up to 2 preemptions: no data race, and the
// answers are those of a single reader.
// verif: budget=120 concurrent
func C14_Readers() {
	loaded := sym.Bool("loaded")
	x, y := readable(loaded), readable(loaded)
	q := cyr("q", 1)
	id := dag.ID(sym.U32("id"))
	sym.Assume(sym.Or(id < 8, id == 0x10001))
	var kinds [2]int
	var got, want [2][]string
	for i := range kinds {
		kinds[i] = sym.Choose("kind", looks)
	}
	sym.Assume(kinds[0] <= kinds[1])
	if kinds[0] < 2 {
		q = append([]rune{'я'}, q...)
	}
	for i := range kinds {
		want[i] = look(y, kinds[i], q, id, "plur")
	}
	sym.Races(2)
	var wg sync.WaitGroup
	wg.Add(len(kinds))
	for i := range kinds {
		i := i
		go func() {
			got[i] = look(x, kinds[i], q, id, "plur")
			wg.Done()
		}()
	}
	wg.Wait()
	for i := range kinds {
		sym.Assert(sameText(got[i], want[i]), "a reader is answered as if it were alone")
	}
	sym.Cover("done")
}
