// Package sym is the harness API. The symbolic engine intercepts these functions; this is their native twin, which
// takes the values of one solver model, so that the same harness replays a counterexample against the compiled code.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
)

type result struct {
	Failed []string `json:"failed"`
	Panic  string   `json:"panic"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
	End    bool     `json:"end"`
}

var (
	inputs   map[string]uint64
	counts   map[string]int
	cur      *result
	thorough bool
	limit    uint64
	limit0   uint64
)

type stop struct{}

func get(name string) uint64 {
	n := counts[name]
	counts[name] = n + 1
	return inputs[fmt.Sprintf("%s#%d", name, n)]
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return get(name) == 1 }

// U8, U16, U32, U64 are arbitrary machine words.
func U8(name string) uint8   { return uint8(get(name)) }
func U16(name string) uint16 { return uint16(get(name)) }
func U32(name string) uint32 { return uint32(get(name)) }
func U64(name string) uint64 { return get(name) }

// Rune is an arbitrary int32.
func Rune(name string) rune { return rune(get(name)) }

// Int is an arbitrary integer in lo..hi.
func Int(name string, lo, hi int) int {
	n := counts[name]
	counts[name] = n + 1
	v, ok := inputs[fmt.Sprintf("%s#%d", name, n)]
	if !ok {
		return lo
	}
	return int(v)
}

// Choose is an arbitrary integer in 0..n-1, split case by case.
func Choose(name string, n int) int {
	if n <= 0 {
		n = 1
	}
	return int(get(name)) % n
}

// Bytes are n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(name))
	}
	return b
}

// String is n arbitrary bytes as text.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(stop{})
	}
}

// Assert is the property.
func Assert(c bool, label string) {
	if !c {
		cur.Failed = append(cur.Failed, label)
		panic(stop{})
	}
}

// Cover marks a reachability witness.
func Cover(label string) { cur.Covers = append(cur.Covers, label) }

// Concretize splits on the values of n.
func Concretize(n int) int { return n }

// Thorough is set in the thorough tier.
func Thorough() bool { return thorough }

// Symbolic is set under the engine.
func Symbolic() bool { return false }

// Races turns on data race detection and sets the number of preemptions explored.
func Races(bound int) {}

// AllocLimit sets the largest single allocation allowed from here on, in bytes (0: any).
func AllocLimit(n int) {
	checkAlloc()
	limit = uint64(n)
	if n > 0 {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		limit0 = ms.TotalAlloc
	}
}

func checkAlloc() {
	if limit == 0 {
		return
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.TotalAlloc-limit0 > limit {
		cur.Failed = append(cur.Failed, "allocation bounded")
	}
	limit = 0
}

// Stop ends the path.
func Stop() { panic(stop{}) }

// Panics calls f and reports whether it panicked.
func Panics(f func()) (res bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stop); ok {
				panic(p)
			}
			res = true
		}
	}()
	f()
	return false
}

// Observe records values for the comparison of the encoding with the compiled code.
func Observe(label string, vals ...interface{}) {
	var sb strings.Builder
	sb.WriteString(label)
	for _, v := range vals {
		sb.WriteByte(' ')
		render(&sb, v)
	}
	cur.Obs = append(cur.Obs, sb.String())
}

func render(sb *strings.Builder, v interface{}) {
	if v == nil {
		sb.WriteString("nil")
		return
	}
	if _, ok := v.(error); ok {
		sb.WriteString("error")
		return
	}
	rv(sb, reflect.ValueOf(v))
}

func rv(sb *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Slice, reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			rv(sb, v.Index(i))
		}
		sb.WriteByte(']')
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			rv(sb, v.Field(i))
		}
		sb.WriteByte('}')
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Elem().Type().Implements(errT) {
			sb.WriteString("error")
			return
		}
		rv(sb, v.Elem())
	default:
		fmt.Fprintf(sb, "?%s", v.Kind())
	}
}

var errT = reflect.TypeOf((*error)(nil)).Elem()

func one(f func()) (r result) {
	cur = &r
	counts = map[string]int{}
	limit = 0
	for _, h := range Reset {
		h()
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stop); !ok {
				r.Panic = fmt.Sprint(p)
				if r.Panic == "" {
					r.Panic = "panic"
				}
			}
		}
		checkAlloc()
		r.End = true
	}()
	f()
	return
}

// Reset holds functions that restore the stand-in environment before each case.
var Reset []func()

// Main runs the cases of a file.
func Main(fns map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var in struct {
		Thorough bool `json:"thorough"`
		Cases    []struct {
			Fn     string            `json:"fn"`
			Inputs map[string]uint64 `json:"inputs"`
		} `json:"cases"`
	}
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	thorough = in.Thorough
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(out)
	for _, c := range in.Cases {
		inputs = c.Inputs
		if inputs == nil {
			inputs = map[string]uint64{}
		}
		_ = enc.Encode(one(fns[c.Fn]))
	}
	out.Close()
}

// And, Or, Not and Implies combine conditions without splitting the path.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }

// Ite is a if c holds and b otherwise, without splitting the path.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
