package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The types of package sync whose bodies rest on the runtime: what they do, and what happens before what.

// syncEnt is what a key of a sync.Map stands for; a load synchronises with the store it observes.
type syncEnt struct {
	v  Value
	vc []int
}

type syncMapKey struct{ p *Value }
type poolKey struct{ p *Value }
type condKey struct{ p *Value }

var anyType = types.NewInterfaceType(nil, nil).Complete()

func (in *Interp) syncMapOf(v Value) *Map {
	p := cellOf(v)
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if in.merging > 0 {
		panic(mergeAbort{"sync.Map"})
	}
	in.sched()
	k := syncMapKey{p}
	if m, ok := in.side[k].(*Map); ok {
		return m
	}
	m := newMap(anyType, anyType)
	in.side[k] = m
	return m
}

func (in *Interp) syncFind(m *Map, k Value) *syncEnt {
	in.hashable(k)
	if e := in.mapFind(m, k); e != nil {
		s := e.v.(*syncEnt)
		in.acquire(s.vc)
		return s
	}
	return nil
}

func (in *Interp) syncSet(m *Map, k, v Value) {
	if e := in.mapFind(m, k); e != nil {
		s := e.v.(*syncEnt)
		s.v = v
		s.vc = in.release(s.vc)
		return
	}
	s := &syncEnt{v: v}
	s.vc = in.release(s.vc)
	in.mapPut(m, k, s)
}

// hashable panics, as the runtime does, for a key whose dynamic type cannot be compared.
func (in *Interp) hashable(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		in.rtPanic("hash of unhashable type " + i.t.String())
	}
}

func syncDrop(m *Map, e *mapEntry) {
	e.dead = true
	m.live--
}

var syncIntrinsics = map[string]intrinsic{}

func syncInit() {
	intr := func(name string, f func(in *Interp, fr *frame, a []Value) Value) {
		syncIntrinsics[name] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return f(in, fr, a) }
	}
	intr("(*sync.Map).Load", func(in *Interp, fr *frame, a []Value) Value {
		if e := in.syncFind(in.syncMapOf(a[0]), a[1]); e != nil {
			return Tuple{e.v, in.db.True}
		}
		return Tuple{Iface{}, in.db.False}
	})
	intr("(*sync.Map).Store", func(in *Interp, fr *frame, a []Value) Value {
		m := in.syncMapOf(a[0])
		in.hashable(a[1])
		in.syncSet(m, a[1], a[2])
		return nil
	})
	intr("(*sync.Map).LoadOrStore", func(in *Interp, fr *frame, a []Value) Value {
		m := in.syncMapOf(a[0])
		if e := in.syncFind(m, a[1]); e != nil {
			return Tuple{e.v, in.db.True}
		}
		in.syncSet(m, a[1], a[2])
		return Tuple{a[2], in.db.False}
	})
	loadAndDelete := func(in *Interp, fr *frame, a []Value) Value {
		m := in.syncMapOf(a[0])
		in.hashable(a[1])
		if e := in.mapFind(m, a[1]); e != nil {
			s := e.v.(*syncEnt)
			in.acquire(s.vc)
			syncDrop(m, e)
			return Tuple{s.v, in.db.True}
		}
		return Tuple{Iface{}, in.db.False}
	}
	intr("(*sync.Map).LoadAndDelete", loadAndDelete)
	intr("(*sync.Map).Delete", func(in *Interp, fr *frame, a []Value) Value {
		loadAndDelete(in, fr, a)
		return nil
	})
	intr("(*sync.Map).Swap", func(in *Interp, fr *frame, a []Value) Value {
		m := in.syncMapOf(a[0])
		r := Tuple{Iface{}, in.db.False}
		if e := in.syncFind(m, a[1]); e != nil {
			r = Tuple{e.v, in.db.True}
		}
		in.syncSet(m, a[1], a[2])
		return r
	})
	intr("(*sync.Map).CompareAndSwap", func(in *Interp, fr *frame, a []Value) Value {
		m := in.syncMapOf(a[0])
		e := in.syncFind(m, a[1])
		if e == nil || !in.branch(in.equals(anyType, e.v, a[2])) {
			return in.db.False
		}
		in.syncSet(m, a[1], a[3])
		return in.db.True
	})
	intr("(*sync.Map).CompareAndDelete", func(in *Interp, fr *frame, a []Value) Value {
		m := in.syncMapOf(a[0])
		e := in.syncFind(m, a[1])
		if e == nil || !in.branch(in.equals(anyType, e.v, a[2])) {
			return in.db.False
		}
		syncDrop(m, in.mapFind(m, a[1]))
		return in.db.True
	})
	intr("(*sync.Map).Clear", func(in *Interp, fr *frame, a []Value) Value {
		m := in.syncMapOf(a[0])
		for _, e := range m.ents {
			if !e.dead {
				syncDrop(m, e)
			}
		}
		return nil
	})
	intr("(*sync.Map).Range", func(in *Interp, fr *frame, a []Value) Value {
		m := in.syncMapOf(a[0])
		n := len(m.ents)
		start := 0
		if in.eng.mapOrder && n > 1 {
			start = in.choose(n, 'c')
		}
		for i := 0; i < n; i++ {
			e := m.ents[(start+i)%n]
			if e.dead {
				continue
			}
			s := e.v.(*syncEnt)
			in.acquire(s.vc)
			if !in.branch(in.call(fr, a[1], []Value{e.k, s.v}).(*Term)) {
				break
			}
		}
		return nil
	})

	// A pool gives back what was put into it if there is anything: on one processor and without a collection the present
	// runtime keeps the first in a private place, and the others on a stack.
	intr("(*sync.Pool).Get", func(in *Interp, fr *frame, a []Value) Value {
		in.sched()
		p := cellOf(a[0])
		if in.merging > 0 {
			panic(mergeAbort{"sync.Pool"})
		}
		if l, _ := in.side[poolKey{p}].([]*syncEnt); len(l) > 0 {
			e := l[0]
			if e != nil {
				l[0] = nil
			} else {
				e = l[len(l)-1]
				l = l[:len(l)-1]
			}
			if len(l) == 1 && l[0] == nil {
				l = nil
			}
			in.side[poolKey{p}] = l
			in.acquire(e.vc)
			return e.v
		}
		s := (*p).(Struct)
		// New is the last field of the structure
		if f := s[len(s)-1]; !isNilFunc(f) {
			return in.call(fr, f, nil)
		}
		return Iface{}
	})
	intr("(*sync.Pool).Put", func(in *Interp, fr *frame, a []Value) Value {
		if in.merging > 0 {
			panic(mergeAbort{"sync.Pool"})
		}
		if a[1].(Iface).t == nil {
			return nil
		}
		p := cellOf(a[0])
		e := &syncEnt{v: a[1]}
		e.vc = in.release(e.vc)
		l, _ := in.side[poolKey{p}].([]*syncEnt)
		if len(l) > 0 && l[0] == nil {
			l[0] = e
		} else {
			l = append(l, e)
		}
		in.side[poolKey{p}] = l
		in.sched()
		return nil
	})

	try := func(read bool) func(in *Interp, fr *frame, a []Value) Value {
		return func(in *Interp, fr *frame, a []Value) Value {
			p := cellOf(a[0])
			s := in.lockOf(p)
			in.sched()
			if s.w || !read && s.r > 0 {
				return in.db.False
			}
			if read {
				s.r++
				in.journalFn(func() { s.r-- })
			} else {
				s.w = true
				in.journalFn(func() { s.w = false })
			}
			in.acquire(s.vc)
			return in.db.True
		}
	}
	intr("(*sync.Mutex).TryLock", try(false))
	intr("(*sync.RWMutex).TryLock", try(false))
	intr("(*sync.RWMutex).TryRLock", try(true))

	intr("(*sync.WaitGroup).Go", func(in *Interp, fr *frame, a []Value) Value {
		if in.merging > 0 {
			panic(mergeAbort{"goroutine"})
		}
		s := in.lockOf(cellOf(a[0]))
		s.n++
		f := a[1]
		in.spawnGo(func() {
			in.call(nil, f, nil)
			s.n--
			s.vc = in.release(s.vc)
			in.sched()
		})
		return nil
	})

	intr("reflect.DeepEqual", func(in *Interp, fr *frame, a []Value) Value {
		return in.deepEqual(anyType, a[0], a[1], 0)
	})
	intr("slices.overlaps", func(in *Interp, fr *frame, a []Value) Value {
		x, y := in.fixLen(a[0].(Slice)), in.fixLen(a[1].(Slice))
		return in.db.Bool(x.n > 0 && y.n > 0 && x.arr == y.arr && x.off < y.off+y.n && y.off < x.off+x.n)
	})
	intr("maps.clone", func(in *Interp, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		m := i.v.(*Map)
		in.raceMap(m, false)
		n := newMap(m.kt, m.vt)
		for _, e := range m.ents {
			if !e.dead {
				in.mapPut(n, copyVal(e.k), copyVal(e.v))
			}
		}
		return Iface{t: i.t, v: n}
	})

	// sync.Cond: the waiters in a line
	waiters := func(in *Interp, v Value) *[]*bool {
		k := condKey{cellOf(v)}
		if w, ok := in.side[k].(*[]*bool); ok {
			return w
		}
		w := new([]*bool)
		in.side[k] = w
		return w
	}
	condL := func(in *Interp, v Value) Iface {
		for _, f := range (*cellOf(v)).(Struct) {
			if i, ok := f.(Iface); ok {
				return i
			}
		}
		panic(unsupported("sync.Cond"))
	}
	intr("(*sync.Cond).Wait", func(in *Interp, fr *frame, a []Value) Value {
		if in.merging > 0 {
			panic(mergeAbort{"sync.Cond"})
		}
		w := waiters(in, a[0])
		woken := new(bool)
		*w = append(*w, woken)
		l := condL(in, a[0])
		in.call(fr, in.methodByName(l.t, "Unlock"), []Value{l.v})
		in.block("Wait of a sync.Cond that is never signalled", func() bool { return *woken })
		in.call(fr, in.methodByName(l.t, "Lock"), []Value{l.v})
		return nil
	})
	intr("(*sync.Cond).Signal", func(in *Interp, fr *frame, a []Value) Value {
		if w := waiters(in, a[0]); len(*w) > 0 {
			*(*w)[0] = true
			*w = (*w)[1:]
		}
		in.sched()
		return nil
	})
	intr("(*sync.Cond).Broadcast", func(in *Interp, fr *frame, a []Value) Value {
		w := waiters(in, a[0])
		for _, b := range *w {
			*b = true
		}
		*w = nil
		in.sched()
		return nil
	})
}

// deepEqual is reflect.DeepEqual of two values of one type.
func (in *Interp) deepEqual(t types.Type, x, y Value, depth int) *Term {
	db := in.db
	if depth > 200 {
		panic(unsupported("reflect.DeepEqual of a deep structure"))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, b := in.fixLen(x.(Slice)), in.fixLen(y.(Slice))
		if (a.arr == nil) != (b.arr == nil) || a.n != b.n {
			return db.False
		}
		r := db.True
		for i := 0; i < a.n && r != db.False; i++ {
			p, q := a.arr.at(in, a.off+i), b.arr.at(in, b.off+i)
			if p == q {
				continue
			}
			in.raceCell(p, false)
			in.raceCell(q, false)
			r = db.And(r, in.deepEqual(u.Elem(), *p, *q, depth+1))
		}
		return r
	case *types.Array:
		r := db.True
		for i := range x.(Array) {
			r = db.And(r, in.deepEqual(u.Elem(), x.(Array)[i], y.(Array)[i], depth+1))
		}
		return r
	case *types.Struct:
		r := db.True
		for i := range x.(Struct) {
			r = db.And(r, in.deepEqual(u.Field(i).Type(), x.(Struct)[i], y.(Struct)[i], depth+1))
			if r == db.False {
				break
			}
		}
		return r
	case *types.Pointer:
		a, ok1 := x.(*Value)
		b, ok2 := y.(*Value)
		if !ok1 || !ok2 {
			panic(unsupported("reflect.DeepEqual of symbolic pointers"))
		}
		if a == b {
			return db.True
		}
		if a == nil || b == nil {
			return db.False
		}
		in.raceCell(a, false)
		in.raceCell(b, false)
		return in.deepEqual(u.Elem(), *a, *b, depth+1)
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t == nil || b.t == nil {
			return db.Bool(a.t == nil && b.t == nil)
		}
		if !identical(a.t, b.t) {
			return db.False
		}
		return in.deepEqual(a.t, a.v, b.v, depth+1)
	case *types.Map:
		a, b := x.(*Map), y.(*Map)
		if a == b {
			return db.True
		}
		if a == nil || b == nil || a.live != b.live {
			return db.False
		}
		in.raceMap(a, false)
		in.raceMap(b, false)
		r := db.True
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			f := in.mapFind(b, e.k)
			if f == nil {
				return db.False
			}
			r = db.And(r, in.deepEqual(u.Elem(), e.v, f.v, depth+1))
		}
		return r
	case *types.Signature:
		return db.Bool(isNilFunc(x) && isNilFunc(y))
	}
	return in.equals(t, x, y)
}
