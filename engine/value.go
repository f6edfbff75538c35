package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an interpreted Go value:
//
//	*Term                 booleans and integers of every width
//	float64, complex128   (concrete only)
//	string, *SymStr       strings: concrete, or concrete length with symbolic bytes
//	*Opaque               text whose content is not modelled (formatted output of symbolic operands)
//	Struct, Array, Tuple  aggregates
//	Slice, *Map, *Chan, Iface
//	*Value                pointers (cells); *SymPtr: a pointer to one of several scalar cells
//	*ssa.Function, *ssa.Builtin, *Closure, nil func as (*ssa.Function)(nil)
type Value = interface{}

type Struct []Value
type Array []Value
type Tuple []Value

// SymStr is a string with symbolic bytes.
type SymStr struct{ b []*Term }

// Opaque is text whose content is not modelled; identity is what is known about it.
type Opaque struct{ why string }

// Arr is the backing store of slices.
type Arr struct {
	cells  []Value
	sparse map[int]*Value // lazily created zero cells, for symbolic lengths
	elem   types.Type
}

// Slice has native length and capacity unless sn/sc are set.
type Slice struct {
	arr       *Arr
	off, n, c int
	sn, sc    *Term
}

// SymPtr addresses cells[idx] for a symbolic in-range idx.
type SymPtr struct {
	cells []*Value
	idx   *Term
}

type mapEntry struct {
	k, v Value
	dead bool
}

// Map keeps insertion order; keys may be symbolic.
type Map struct {
	kt, vt types.Type
	ents   []*mapEntry
	idx    map[string]*mapEntry // concrete keys
	nsym   int                  // live or dead entries with a symbolic key
	live   int
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	v    Value
	ok   bool
	done bool
	g    *goroutine
}

// bad is the zero register.
type badT struct{}

// iterators
type mapIter struct {
	m     *Map
	i     int
	start int // iteration begins here and goes round
	n     int // the number of entries at the beginning
}
type strIter struct {
	s   Value
	pos int
}

func width(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			panic("zero of untyped nil")
		}
		if t.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if t.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
		if t.Info()&types.IsString != 0 {
			return ""
		}
		if t.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		w, _, _ := width(t)
		if w == 0 {
			return in.db.False
		}
		return in.db.Const(0, w)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(Array, t.Len())
		if len(a) > 0 {
			a[0] = in.zero(t.Elem())
			_, agg := a[0].(Struct)
			_, agg2 := a[0].(Array)
			for i := 1; i < len(a); i++ {
				if agg || agg2 {
					a[i] = in.zero(t.Elem())
				} else {
					a[i] = a[0]
				}
			}
		}
		return a
	case *types.Named, *types.Alias:
		return in.zero(t.Underlying())
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return Slice{}
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = in.zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return in.zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = in.zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic(unsupported("zero of type parameter " + t.String()))
	}
	panic(unsupported(fmt.Sprintf("zero of %T", t)))
}

// copyVal copies aggregates.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

func (a *Arr) at(in *Interp, i int) *Value {
	if a.sparse != nil {
		p, ok := a.sparse[i]
		if !ok {
			p = new(Value)
			*p = in.zero(a.elem)
			a.sparse[i] = p
		}
		return p
	}
	return &a.cells[i]
}

func (s Slice) symbolic() bool { return s.sn != nil || s.sc != nil }

// ---- strings ----

func (in *Interp) mkStr(b []*Term) Value {
	conc := true
	for _, t := range b {
		if !t.isC() {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.k)
		}
		return string(bs)
	}
	return &SymStr{b: b}
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case *Opaque:
		panic(unsupported("length of unmodelled text: " + s.why))
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func (in *Interp) strBytes(v Value) []*Term {
	switch s := v.(type) {
	case string:
		b := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = in.db.Const(uint64(s[i]), 8)
		}
		return b
	case *SymStr:
		return s.b
	case *Opaque:
		panic(unsupported("content of unmodelled text: " + s.why))
	}
	panic(fmt.Sprintf("strBytes of %T", v))
}

func (in *Interp) strSub(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return in.mkStr(s.b[lo:hi])
	}
	panic(unsupported("slice of unmodelled text"))
}

func (in *Interp) strCat(a, b Value) Value {
	if s, ok := a.(string); ok {
		if t, ok := b.(string); ok {
			return s + t
		}
		if s == "" {
			return b
		}
	}
	if t, ok := b.(string); ok && t == "" {
		return a
	}
	if _, ok := a.(*Opaque); ok {
		return &Opaque{why: "concatenation"}
	}
	if _, ok := b.(*Opaque); ok {
		return &Opaque{why: "concatenation"}
	}
	x, y := in.strBytes(a), in.strBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return in.mkStr(r)
}

func (in *Interp) strEq(a, b Value) *Term {
	db := in.db
	if s, ok := a.(string); ok {
		if t, ok := b.(string); ok {
			return db.Bool(s == t)
		}
	}
	if o, ok := a.(*Opaque); ok {
		if o == b {
			return db.True
		}
		panic(unsupported("comparison of unmodelled text: " + o.why))
	}
	if o, ok := b.(*Opaque); ok {
		panic(unsupported("comparison of unmodelled text: " + o.why))
	}
	if strLen(a) != strLen(b) {
		return db.False
	}
	x, y := in.strBytes(a), in.strBytes(b)
	r := db.True
	for i := range x {
		r = db.And(r, db.Eq(x[i], y[i]))
		if r == db.False {
			break
		}
	}
	return r
}

// strLt is the lexicographic order.
func (in *Interp) strLt(a, b Value) *Term {
	db := in.db
	if s, ok := a.(string); ok {
		if t, ok := b.(string); ok {
			return db.Bool(s < t)
		}
	}
	x, y := in.strBytes(a), in.strBytes(b)
	n := min(len(x), len(y))
	r := db.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = db.Or(db.ULt(x[i], y[i]), db.And(db.Eq(x[i], y[i]), r))
	}
	return r
}

// ---- equality ----

func (in *Interp) equals(t types.Type, x, y Value) *Term {
	db := in.db
	switch x := x.(type) {
	case *Term:
		return db.Eq(x, y.(*Term))
	case float64:
		return db.Bool(x == y.(float64))
	case complex128:
		return db.Bool(x == y.(complex128))
	case string, *SymStr, *Opaque:
		return in.strEq(x, y)
	case *Value:
		if sp, ok := y.(*SymPtr); ok {
			return in.symPtrEq(sp, x)
		}
		return db.Bool(x == y.(*Value))
	case *SymPtr:
		if p, ok := y.(*Value); ok {
			return in.symPtrEq(x, p)
		}
		panic(unsupported("comparison of symbolic pointers"))
	case *Chan:
		return db.Bool(x == y.(*Chan))
	case *Map:
		if ym, ok := y.(*Map); ok && (x == nil || ym == nil) {
			return db.Bool(x == ym)
		}
	case Slice:
		if ys, ok := y.(Slice); ok && (x.arr == nil || ys.arr == nil) {
			return db.Bool(x.arr == nil && ys.arr == nil)
		}
	case Struct:
		st := t.Underlying().(*types.Struct)
		r := db.True
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = db.And(r, in.equals(st.Field(i).Type(), x[i], y.(Struct)[i]))
			if r == db.False {
				break
			}
		}
		return r
	case Array:
		et := t.Underlying().(*types.Array).Elem()
		r := db.True
		for i := range x {
			r = db.And(r, in.equals(et, x[i], y.(Array)[i]))
			if r == db.False {
				break
			}
		}
		return r
	case Iface:
		yi := y.(Iface)
		if x.t == nil || yi.t == nil {
			return db.Bool(x.t == nil && yi.t == nil)
		}
		if !identical(x.t, yi.t) {
			return db.False
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return in.equals(x.t, x.v, yi.v)
	case *ssa.Function, *Closure, *ssa.Builtin:
		return db.Bool(isNilFunc(x) && isNilFunc(y))
	}
	panic(unsupported(fmt.Sprintf("equality of %T and %T", x, y)))
}

func (in *Interp) symPtrEq(sp *SymPtr, p *Value) *Term {
	r := in.db.False
	for i, c := range sp.cells {
		if c == p {
			r = in.db.Or(r, in.db.Eq(sp.idx, in.db.Const(uint64(i), sp.idx.w)))
		}
	}
	return r
}

func isNilFunc(v Value) bool {
	f, ok := v.(*ssa.Function)
	return ok && f == nil
}

func identical(a, b types.Type) bool { return a == b || types.Identical(a, b) }

// keyString gives a canonical string for a fully concrete key; ok=false when symbolic.
func keyString(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.isC() {
			return false
		}
		fmt.Fprintf(sb, "i%d;", x.k)
	case string:
		fmt.Fprintf(sb, "s%d:%s", len(x), x)
	case float64:
		fmt.Fprintf(sb, "f%v;", x)
	case *Value:
		fmt.Fprintf(sb, "p%p;", x)
	case *Chan:
		fmt.Fprintf(sb, "c%p;", x)
	case Struct:
		for _, e := range x {
			if !keyString(e, sb) {
				return false
			}
		}
	case Array:
		for _, e := range x {
			if !keyString(e, sb) {
				return false
			}
		}
	case Iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		fmt.Fprintf(sb, "t%s:", types.TypeString(x.t, nil))
		return keyString(x.v, sb)
	default:
		return false
	}
	return true
}

// ---- maps ----

func newMap(kt, vt types.Type) *Map {
	return &Map{kt: kt, vt: vt, idx: map[string]*mapEntry{}}
}

// find returns the entry equal to k, forking on symbolic comparisons.
func (in *Interp) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	var sb strings.Builder
	conc := keyString(k, &sb)
	if conc {
		if e := m.idx[sb.String()]; e != nil && !e.dead {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if in.branch(in.equals(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	if m == nil {
		in.goPanicStr("assignment to entry in nil map")
	}
	in.raceMap(m, true)
	if e := in.mapFind(m, k); e != nil {
		old := e.v
		in.journalFn(func() { e.v = old })
		e.v = v
		return
	}
	in.mapPut(m, k, v)
}

// mapPut adds an entry for a key that is not there.
func (in *Interp) mapPut(m *Map, k, v Value) {
	e := &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.live++
	var sb strings.Builder
	conc := keyString(k, &sb)
	var prev *mapEntry
	ks := sb.String()
	if conc {
		prev = m.idx[ks]
		m.idx[ks] = e
	} else {
		m.nsym++
	}
	in.journalFn(func() {
		m.ents = m.ents[:len(m.ents)-1]
		m.live--
		if conc {
			if prev != nil {
				m.idx[ks] = prev
			} else {
				delete(m.idx, ks)
			}
		} else {
			m.nsym--
		}
	})
}

func (in *Interp) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	in.raceMap(m, true)
	if e := in.mapFind(m, k); e != nil {
		e.dead = true
		m.live--
		in.journalFn(func() { e.dead = false; m.live++ })
	}
}

// toS describes a value for messages.
func toS(v Value) string {
	switch x := v.(type) {
	case *Term:
		if x.isC() {
			return fmt.Sprint(x.k)
		}
		return "<sym>"
	case string:
		return x
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if s, ok := x.v.(string); ok {
			return x.t.String() + ":" + s
		}
		return x.t.String()
	}
	return fmt.Sprintf("%T", v)
}
