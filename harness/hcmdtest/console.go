package hcmdtest

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/amarin/logging"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
	"verif.test/v/sym"
	"verif.test/v/vos"
	"verif.test/v/vreadline"
)

var verifTagNames = []dag.TagName{"NOUN", "plur", "gent"}

type verifWord struct {
	text string
	sets [][]dag.TagName
}

func verifIndexFile() string {
	return common.DomainDataPath(opencorpora.DomainName) + "/" + opencorpora.LocalCompiledFilename
}

// place saves an index of the words where the console looks for it.
func verifPlace(words []verifWord) *index.Index {
	x := index.New()
	for _, t := range verifTagNames {
		x.TagID(t, "POST")
	}
	for _, w := range words {
		n, err := x.AddString(w.text)
		sym.Assert(err == nil, "a word is added")
		for _, s := range w.sets {
			sym.Assert(n.AddTagSet(s...) == nil, "tags are attached")
		}
	}
	vos.Dir(common.DomainDataPath(opencorpora.DomainName))
	sym.Assert(opencorpora.NewLoader("").SaveIndex(x, verifIndexFile()) == nil, "the index is saved")
	return x
}

func verifStandard() *index.Index {
	return verifPlace([]verifWord{
		{"ab", [][]dag.TagName{{"NOUN"}, {"NOUN", "plur"}}},
		{"a", [][]dag.TagName{{"gent"}}},
		{"c", nil},
	})
}

// console runs the program on the lines and returns its exit code and everything it logged.
func verifConsole(lines ...string) (code int, log []string) {
	vreadline.Lines = lines
	code = -1
	logging.Record = func(level logging.Level, format string, args []interface{}) {
		line := ""
		if level == logging.LevelError {
			line = "error:"
		}
		for _, a := range args {
			if _, isTime := a.(time.Duration); isTime {
				continue
			}
			line += fmt.Sprint(a) + " "
		}
		log = append(log, line)
	}
	defer func() {
		logging.Record = nil
		if r := recover(); r != nil {
			e, ok := r.(vos.Exited)
			if !ok {
				panic(r)
			}
			code = e.Code
		}
	}()
	main()
	code = 0
	return
}

// goesOn runs the lines and asserts that each was read, and the end of input after them.
func verifGoesOn(lines ...string) {
	code, crashed := 0, false
	func() {
		defer func() {
			if r := recover(); r != nil {
				crashed = true
			}
		}()
		code, _ = verifConsole(lines...)
	}()
	sym.Assert(!crashed, "the console does not crash: "+verifClass(lines[0]))
	sym.Assert(code == 0, "the console ends normally at the end of input")
	sym.Assert(vreadline.Reads == len(lines)+1, "the console asks for the next line")
	sym.Cover("done")
}

// class names the call site which takes the number of a line, if the number is below 0.
func verifClass(line string) string {
	f := strings.Split(line, " ")
	site := ""
	switch f[0] {
	case "t", "tag":
		site = "processTag"
	case "n", "node":
		site = "processNode"
	case "s", "set":
		if len(f) == 3 && f[1] == "table" {
			site = "processSet, table"
		}
	}
	if len(f) < 2 || site == "" {
		return "any line"
	}
	if n, err := strconv.Atoi(f[len(f)-1]); err != nil || n >= 0 {
		return "any line"
	}
	return site + " given a number below 0"
}

var verifCommands = []string{"tag ", "t ", "set ", "set table ", "s ", "var ", "v ", "node ", "n "}

// C23_Args: every command which takes an argument with any argument of up to 2 (thorough: 3) bytes: the console goes on.
// verif: budget=120
func C23_Args() {
	verifStandard()
	max := 3
	if sym.Thorough() {
		max = 4
	}
	verifGoesOn(verifCommands[sym.Choose("command", len(verifCommands))] + sym.String("arg", sym.Choose("len", max)))
}

// C23_Line: any line of up to 2 (thorough: 3) bytes but e (exit): the console goes on.
// verif: budget=120
func C23_Line() {
	verifStandard()
	max := 3
	if sym.Thorough() {
		max = 4
	}
	line := sym.String("line", sym.Choose("len", max))
	sym.Assume(line != "e" && !strings.HasPrefix(line, "e "))
	verifGoesOn(line)
}

// C23_Numbers: every command with any decimal number of 1 to 3 digits, signed or not, any number whose distance to 2^8,
// 2^16, 2^31, 2^32, 2^63, 2^64 is less than 100 (its last 2 digits are any), or hexadecimal ones of 1, 8, 9, 17 digits: the
// console goes on.
// verif: budget=120
func C23_Numbers() {
	verifStandard()
	cmd := verifCommands[sym.Choose("command", len(verifCommands))]
	var arg string
	if sym.Bool("hex") {
		arg = []string{"", "-"}[sym.Choose("sign", 2)] + "0x"
		n := []int{1, 8, 9, 17}[sym.Choose("digits", 4)]
		for i := 0; i < n; i++ {
			arg += []string{"0", "1", "f"}[sym.Choose("h", 1+verifMin(2, 2*verifBoolInt(i == 0 || i == n-1)))]
		}
	} else {
		arg = []string{"", "-", "+"}[sym.Choose("sign", 3)]
		n := 2
		switch k := sym.Choose("size", 9); k {
		case 0, 1, 2:
			n = k + 1
		default:
			arg += []string{"2", "655", "21474836", "42949672", "92233720368547758", "184467440737095516"}[k-3]
		}
		d := sym.String("d", n)
		for i := 0; i < n; i++ {
			sym.Assume(sym.And(d[i] >= '0', d[i] <= '9'))
		}
		arg += d
	}
	verifGoesOn(cmd + arg)
}

func verifMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func verifBoolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C23_Counts: every form of every command with 0 to 4 arguments out of count, tables, table, 0, 1, NOUN, ab and the empty one:
// the console goes on.
// verif: budget=120
func C23_Counts() {
	verifStandard()
	line := []string{"tag", "t", "set", "s", "var", "v", "node", "n"}[sym.Choose("command", 8)]
	args := []string{"count", "tables", "table", "0", "1", "0x10000", "NOUN", "ab", ""}
	max := 3
	if sym.Thorough() {
		max = 4
	}
	for i, n := 0, sym.Choose("n", max); i < n; i++ {
		line += " " + args[sym.Choose("arg", len(args))]
	}
	verifGoesOn(line)
}

// C23_Word: the words of an index, a prefix, and any other word of up to 2 bytes: every tag set of the word looked up is
// shown, and no other.
// verif: budget=60
func C23_Word() {
	x := verifStandard()
	q := []string{"ab", "a", "c", "b", "\u0430"}[sym.Choose("q", 5)]
	code, log := verifConsole(q)
	sym.Assert(code == 0 && vreadline.Reads == 2, "the console goes on")
	n, err := x.FetchString(q)
	shown := 0
	for _, line := range log {
		if strings.Contains(line, "NOUN") || strings.Contains(line, "gent") || strings.Contains(line, "plur") {
			shown++
		}
	}
	if err != nil {
		sym.Assert(shown == 0, "no tags are shown for an unknown word")
		sym.Cover("unknown")
		return
	}
	sets := n.TagSets()
	sym.Assert(shown == len(sets), "as many tag sets are shown as the word has")
	for _, s := range sets {
		seen := false
		for _, line := range log {
			seen = seen || strings.Contains(line, s.String()) && strings.Count(line, ",") == len(s)-1
		}
		sym.Assert(seen, "every tag set of the word is shown")
	}
	sym.Cover("known")
}

// C23_Empty: an empty index: any command with an argument out of a few, and any line of up to 2 bytes: the console goes on.
// verif: budget=60
func C23_Empty() {
	x := index.New()
	vos.Dir(common.DomainDataPath(opencorpora.DomainName))
	sym.Assert(opencorpora.NewLoader("").SaveIndex(x, verifIndexFile()) == nil, "the index is saved")
	if sym.Bool("command") {
		args := []string{"count", "tables", "table 0", "0", "1", "-1", "a", ""}
		verifGoesOn(verifCommands[sym.Choose("command", len(verifCommands))] + args[sym.Choose("arg", len(args))])
		return
	}
	line := sym.String("line", sym.Choose("len", 3))
	sym.Assume(line != "e" && !strings.HasPrefix(line, "e "))
	verifGoesOn(line)
}

// C23_Start: with no index, a cut one, or no terminal, the console ends with a failure and asks for nothing.
// verif: budget=60
func C23_Start() {
	switch sym.Choose("case", 3) {
	case 0:
		vos.Dir(common.DomainDataPath(opencorpora.DomainName))
	case 1:
		verifStandard()
		data, _ := vos.Content(verifIndexFile())
		vos.Put(verifIndexFile(), data[:sym.Choose("cut", len(data))], time.Time{})
	case 2:
		verifStandard()
		vreadline.NewErr = vos.ErrFault
	}
	code, _ := verifConsole("ab")
	sym.Assert(code > 0, "the console ends with a failure")
	sym.Assert(vreadline.Reads == 0, "the console asks for nothing")
	sym.Cover("done")
}

// C23_Session: 2 (thorough: 3) arbitrary commands of a list, then exit: each is answered, and exit ends the console with success.
// verif: budget=120
func C23_Session() {
	verifStandard()
	all := []string{"ab", "", "tag 1", "tag 3", "set 0", "set table 1", "set table 9", "var 1", "var 0x10000", "node a",
		"node 3", "node 4", "r", "reload", "node zz"}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	var lines []string
	for i := 0; i < n; i++ {
		lines = append(lines, all[sym.Choose("line", len(all))])
	}
	lines = append(lines, []string{"e", "exit"}[sym.Choose("exit", 2)], "ab")
	code, _ := verifConsole(lines...)
	sym.Assert(code == 0, "exit ends the console with success")
	sym.Assert(vreadline.Reads == n+1, "every line before exit is read and none after it")
	sym.Cover("done")
}

// C23_Found: tag, set and node commands with every ID of the index, and the ones next to them: what exists is shown, what does
// not is refused.
// verif: budget=60
func C23_Found() {
	x := verifStandard()
	id := sym.Choose("id", 7)
	arg := strconv.Itoa(id)
	switch sym.Choose("command", 4) {
	case 0:
		_, log := verifConsole("tag " + arg)
		sym.Assert(verifRefused(log) == (id >= len(x.Tags())), "tag: a tag is shown if and only if there is one")
	case 1:
		_, log := verifConsole("set table " + arg)
		sym.Assert(verifRefused(log) == (id >= len(x.TagSetIndex())), "set table: a table is shown if and only if there is one")
	case 2:
		_, log := verifConsole("node " + arg)
		n, _ := x.Get(dag.ID(id))
		if id == x.NodesCount() {
			sym.Assert(!verifRefused(log), "node: the last node is shown")
		} else {
			sym.Assert(verifRefused(log) == (n == nil), "node: a node is shown if and only if there is one")
		}
	case 3:
		id += []int{0, 0x10000, 0x20000}[sym.Choose("table", 3)]
		high := sym.Choose("high", 2)
		_, log := verifConsole("set " + strconv.Itoa(id+high<<32))
		ts := x.TagSetIndex()
		_, ok := ts.Get(index.TagSetID(id))
		if high != 0 {
			sym.Assert(verifRefused(log), "set: a number which no ID has is refused")
		} else {
			sym.Assert(verifRefused(log) == !ok, "set: a tag set is shown if and only if there is one")
		}
	}
	sym.Cover("done")
}

func verifRefused(log []string) bool {
	return len(log) > 0 && strings.HasPrefix(log[len(log)-1], "error:")
}

// C23_Reload: reloading answers from the index saved meanwhile; if it cannot be loaded, the console ends with a failure.
// verif: budget=60
func C23_Reload() {
	verifStandard()
	first := true
	vos.Fault = func(op, name string) error {
		if op != "open" {
			return nil
		}
		if !first {
			return vos.ErrFault
		}
		first = false
		return nil
	}
	code, _ := verifConsole([]string{"r", "reload"}[sym.Choose("r", 2)], "ab")
	sym.Assert(code > 0, "a failing reload ends the console with a failure")
	sym.Assert(vreadline.Reads == 1, "nothing is asked for after a failing reload")
	sym.Cover("done")
}

// C23_Rich: an index of 23 tags, of which the last has a name of q and 3 arbitrary letters, with a word of 14 tag sets, one with a set of 20 tags, and one of 60 letters, some Cyrillic: looking a word up shows each of
// its tag sets with the names of all its tags, a tag is shown with name and parent by number and by name, a table with as many sets as it has; every node, and lines of 70 to 5000 bytes and
// of 1 to 300 arguments leave the console running.
// verif: budget=120
func C23_Rich() {
	const n = 23
	x := index.New()
	names := make([]dag.TagName, n)
	for i := range names {
		names[i] = dag.TagName([]byte{'T', 'g', 'a' + byte(i/10), 'a' + byte(i%10)})
	}
	last := sym.String("name", 4)
	for i := range last {
		sym.Assume(sym.And(last[i] >= 'a', last[i] <= 'z'))
	}
	sym.Assume(last[0] == 'q') // in no other text
	names[n-1] = dag.TagName(last)
	for _, t := range names {
		x.TagID(t, "POST")
	}
	long := strings.Repeat("\u0430b", 30)
	want := map[string][][]dag.TagName{"many": nil, "large": {names[2:22]}, long: {{names[n-1]}}}
	for i := 0; i < 14; i++ {
		want["many"] = append(want["many"], names[i:i+1+i%3])
	}
	for _, w := range []string{"many", "large", long} {
		node, err := x.AddString(w)
		sym.Assert(err == nil, "a word is added")
		for _, s := range want[w] {
			sym.Assert(node.AddTagSet(s...) == nil, "tags are attached")
		}
	}
	vos.Dir(common.DomainDataPath(opencorpora.DomainName))
	sym.Assert(opencorpora.NewLoader("").SaveIndex(x, verifIndexFile()) == nil, "the index is saved")
	switch sym.Choose("what", 6) {
	case 0:
		q := []string{"many", "large", long}[sym.Choose("q", 3)]
		_, log := verifConsole(q)
		shown := 0
		for _, line := range log {
			for _, t := range names {
				if strings.Contains(line, string(t)) {
					shown++
					break
				}
			}
		}
		sym.Assert(shown == len(want[q]), "as many tag sets are shown as the word has")
		for _, s := range want[q] {
			seen := false
			for _, line := range log {
				all := strings.Count(line, ",") == len(s)-1
				for _, t := range s {
					all = all && strings.Contains(line, string(t))
				}
				seen = seen || all
			}
			sym.Assert(seen, "every tag set of the word is shown, with all its tags")
		}
	case 1:
		id := []int{0, 1, 9, 10, 21, 22}[sym.Choose("id", 6)]
		arg := strconv.Itoa(id)
		if sym.Bool("by name") {
			sym.Assume(last != "coun") // not one letter short of a subcommand
			arg = string(names[id])
		}
		_, log := verifConsole("tag " + arg)
		seen := false
		for _, line := range log {
			seen = seen || strings.Contains(line, string(names[id])) && strings.Contains(line, "POST")
		}
		sym.Assert(seen && !verifRefused(log), "a tag is shown with name and parent")
	case 2:
		sets := x.TagSetIndex()
		for id := range sets {
			_, log := verifConsole("set table " + strconv.Itoa(id))
			sym.Assert(!verifRefused(log), "a table is shown")
			vreadline.Reads = 0
		}
	case 3:
		for id := 0; id <= x.NodesCount(); id++ {
			vreadline.Reads = 0
			code, log := verifConsole("node " + strconv.Itoa(id))
			sym.Assert(code == 0, "the console goes on")
			if id < x.NodesCount() {
				sym.Assert(!verifRefused(log), "a node is shown")
			}
		}
	case 4:
		verifGoesOn(strings.Repeat([]string{"a", " ", "9", "\u0430", "t "}[sym.Choose("unit", 5)], []int{70, 500, 1000}[sym.Choose("times", 3)]))
	case 5:
		verifGoesOn(verifCommands[sym.Choose("command", len(verifCommands))] + strings.Repeat("1 ", []int{1, 2, 3, 40, 300}[sym.Choose("times", 5)]))
	}
	sym.Cover("done")
}
