package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value

const symPkg = "verif.test/v/sym."

var intrinsics map[string]intrinsic

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if i := strings.Index(name, symPkg); i >= 0 {
		if f, ok := intrinsics["sym."+name[i+len(symPkg):]]; ok {
			return f
		}
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	// packages that are never entered
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "internal/race", "internal/msan", "internal/asan":
			return nopIntr
		}
	}
	return nil
}

func nopIntr(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	default:
		return in.zero(res)
	}
}

func cellOf(v Value) *Value {
	p, _ := v.(*Value)
	return p
}

func (in *Interp) strArg(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic text where a constant is needed"))
	}
	return s
}

func init() {
	intrinsics = map[string]intrinsic{
		"os.Getwd": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return Tuple{"/", Iface{}}
		},
		// the clock stands still
		"time.runtimeNow": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return Tuple{in.db.Const(1700000000, 64), in.db.Const(0, 32), in.db.Const(0, 64)}
		},
		"time.runtimeNano": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			return in.db.Const(1, 64)
		},
		"time.initLocal":           nopIntr,
		"runtime/debug.PrintStack": nopIntr,
		// ---- harness API ----
		"sym.Bool": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			t, n := in.fresh(in.strArg(a[0]), 0)
			in.addInput(n, t)
			return t
		},
		"sym.U8":   symInt(8),
		"sym.U16":  symInt(16),
		"sym.U32":  symInt(32),
		"sym.U64":  symInt(64),
		"sym.Rune": symInt(32),
		"sym.Int": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			lo, hi := in.intOf(a[1].(*Term)), in.intOf(a[2].(*Term))
			span := uint64(hi - lo)
			w := uint8(1)
			for w < 64 && span > mask(w) {
				w++
			}
			t, n := in.fresh(in.strArg(a[0]), w)
			if k, ok := in.pinned[n]; ok { // inputs are kept with the lower end added
				t = in.db.Const((k-uint64(lo))&mask(w), w)
			}
			v := in.db.Add(in.db.ZExt(t, 64), in.db.Const(uint64(lo), 64))
			in.addInput(n, v)
			if span != mask(w) {
				in.assumeFresh(in.db.ULe(t, in.db.Const(span, w)))
			}
			return v
		},
		"sym.Choose": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			name := in.strArg(a[0])
			n := int(in.intOf(a[1].(*Term)))
			if in.merging > 0 {
				panic(mergeAbort{"choose"})
			}
			c := in.names[name]
			in.names[name] = c + 1
			k := 0
			if in.pinned != nil {
				k = int(in.pinned[fmt.Sprintf("%s#%d", name, c)])
			} else {
				k = in.choose(n, 'c')
			}
			v := in.db.Const(uint64(k), 64)
			in.addInput(fmt.Sprintf("%s#%d", name, c), v)
			return v
		},
		"sym.Bytes": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			n := int(in.intOf(a[1].(*Term)))
			cells := make([]Value, n)
			for i := range cells {
				t, nm := in.fresh(in.strArg(a[0]), 8)
				in.addInput(nm, t)
				cells[i] = t
			}
			return Slice{arr: &Arr{cells: cells, elem: types.Typ[types.Uint8]}, n: n, c: n}
		},
		"sym.String": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			n := int(in.intOf(a[1].(*Term)))
			b := make([]*Term, n)
			for i := range b {
				t, nm := in.fresh(in.strArg(a[0]), 8)
				in.addInput(nm, t)
				b[i] = t
			}
			return in.mkStr(b)
		},
		"sym.Assume": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.assume(a[0].(*Term))
			return nil
		},
		"sym.Assert": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.assert(a[0].(*Term), in.strArg(a[1]), "assertion failed")
			return nil
		},
		"sym.Cover": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if in.merging > 0 {
				panic(mergeAbort{"cover"})
			}
			in.covers = append(in.covers, in.strArg(a[0]))
			return nil
		},
		"sym.Concretize": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.db.Const(in.concretize(a[0].(*Term)), 64)
		},
		"sym.Observe": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if in.merging > 0 {
				panic(mergeAbort{"observe"})
			}
			s := a[1].(Slice)
			o := Obs{label: in.strArg(a[0])}
			for i := 0; i < s.n; i++ {
				o.vals = append(o.vals, in.snapshot(*s.arr.at(in, s.off+i), 0))
			}
			in.obs = append(in.obs, o)
			return nil
		},
		"sym.And": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.db.And(a[0].(*Term), a[1].(*Term))
		},
		"sym.Or": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.db.Or(a[0].(*Term), a[1].(*Term))
		},
		"sym.Not": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.db.Not(a[0].(*Term)) },
		"sym.Implies": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.db.Or(in.db.Not(a[0].(*Term)), a[1].(*Term))
		},
		"sym.Ite": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.db.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		"sym.Thorough": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.db.Bool(in.eng.thorough)
		},
		"sym.Symbolic": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.db.True },
		"sym.Races": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.initConc()
			in.conc.races = true
			in.conc.bound = int(in.intOf(a[0].(*Term)))
			return nil
		},
		"sym.AllocLimit": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.allocLim = a[0].(*Term)
			if in.allocLim.isC() && in.allocLim.k == 0 {
				in.allocLim = nil
			}
			return nil
		},
		"sym.Stop": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { panic(pathEnd{"stop"}) },
		"sym.Panics": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) (res Value) {
			return in.panics(fr, a[0])
		},

		// ---- fmt, errors ----
		"fmt.Errorf":   fmtErrorf,
		"fmt.Sprintf":  func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.sprintf(fr, a[0], a[1]) },
		"fmt.Sprint":   func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.sprint(fr, a[0], false) },
		"fmt.Sprintln": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.sprint(fr, a[0], true) },
		"fmt.Fprintf": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.fprint(fr, a[0], in.sprintf(fr, a[1], a[2]))
		},
		"fmt.Fprint": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.fprint(fr, a[0], in.sprint(fr, a[1], false))
		},
		"fmt.Fprintln": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.fprint(fr, a[0], in.sprint(fr, a[1], true))
		},
		"fmt.Printf": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.sprintf(fr, a[0], a[1])
			return Tuple{in.db.Const(0, 64), Iface{}}
		},
		"fmt.Println": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.sprint(fr, a[0], true)
			return Tuple{in.db.Const(0, 64), Iface{}}
		},
		"fmt.Print": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.sprint(fr, a[0], false)
			return Tuple{in.db.Const(0, 64), Iface{}}
		},
		"errors.Is": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.errorsIs(fr, a[0].(Iface), a[1].(Iface))
		},
		"errors.As":     errorsAs,
		"errors.AsType": nil,

		// ---- sync ----
		"(*sync.Mutex).Lock":     func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.lock(cellOf(a[0])); return nil },
		"(*sync.Mutex).Unlock":   func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.unlock(cellOf(a[0])); return nil },
		"(*sync.RWMutex).Lock":   func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.lock(cellOf(a[0])); return nil },
		"(*sync.RWMutex).Unlock": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.unlock(cellOf(a[0])); return nil },
		"(*sync.RWMutex).RLock":  func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.rlock(cellOf(a[0])); return nil },
		"(*sync.RWMutex).RUnlock": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.runlock(cellOf(a[0]))
			return nil
		},
		"(*sync.Once).Do": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			s := in.lockOf(cellOf(a[0]))
			in.sched()
			in.block("once", func() bool { return !s.w })
			if s.n == 0 {
				s.w = true
				in.journalFn(func() { s.w = false; s.n = 0 })
				func() {
					defer func() { s.w = false; s.n = 1 }()
					in.call(fr, a[1], nil)
				}()
				s.vc = in.release(s.vc)
			} else {
				in.acquire(s.vc)
			}
			return nil
		},
		"(*sync.WaitGroup).Add": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			s := in.lockOf(cellOf(a[0]))
			d := int(in.intOf(a[1].(*Term)))
			s.n += d
			in.journalFn(func() { s.n -= d })
			if s.n < 0 {
				in.rtPanic("sync: negative WaitGroup counter")
			}
			if d < 0 {
				s.vc = in.release(s.vc)
				in.sched()
			}
			return nil
		},
		"(*sync.WaitGroup).Done": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			s := in.lockOf(cellOf(a[0]))
			s.n--
			in.journalFn(func() { s.n++ })
			if s.n < 0 {
				in.rtPanic("sync: negative WaitGroup counter")
			}
			s.vc = in.release(s.vc)
			in.sched()
			return nil
		},
		"(*sync.WaitGroup).Wait": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			s := in.lockOf(cellOf(a[0]))
			in.block("WaitGroup.Wait", func() bool { return s.n == 0 })
			in.acquire(s.vc)
			return nil
		},

		// ---- atomics ----
		"sync/atomic.AddInt32": atomicAdd, "sync/atomic.AddInt64": atomicAdd, "sync/atomic.AddUint32": atomicAdd, "sync/atomic.AddUint64": atomicAdd,
		"sync/atomic.LoadInt32": atomicLoad, "sync/atomic.LoadInt64": atomicLoad, "sync/atomic.LoadUint32": atomicLoad, "sync/atomic.LoadUint64": atomicLoad, "sync/atomic.LoadPointer": atomicLoad,
		"sync/atomic.StoreInt32": atomicStore, "sync/atomic.StoreInt64": atomicStore, "sync/atomic.StoreUint32": atomicStore, "sync/atomic.StoreUint64": atomicStore, "sync/atomic.StorePointer": atomicStore,
		"sync/atomic.CompareAndSwapInt32": atomicCAS, "sync/atomic.CompareAndSwapInt64": atomicCAS, "sync/atomic.CompareAndSwapUint32": atomicCAS, "sync/atomic.CompareAndSwapUint64": atomicCAS, "sync/atomic.CompareAndSwapPointer": atomicCAS,
		"sync/atomic.SwapInt32": atomicSwap, "sync/atomic.SwapInt64": atomicSwap, "sync/atomic.SwapUint32": atomicSwap, "sync/atomic.SwapUint64": atomicSwap,
		"(*sync/atomic.Pointer[T]).Load":           atomicField("v", 'l'),
		"(*sync/atomic.Pointer[T]).Store":          atomicField("v", 's'),
		"(*sync/atomic.Pointer[T]).Swap":           atomicField("v", 'x'),
		"(*sync/atomic.Pointer[T]).CompareAndSwap": atomicField("v", 'c'),
		"(*sync/atomic.Value).Load":                atomicField("v", 'l'),
		"(*sync/atomic.Value).Store":               atomicField("v", 's'),
		"(*sync/atomic.Value).Swap":                atomicField("v", 'x'),
		"(*sync/atomic.Value).CompareAndSwap":      atomicField("v", 'c'),

		// ---- bytealg and friends (assembly in the standard library) ----
		"internal/bytealg.IndexByte": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.indexByte(in.sliceBytes(a[0]), a[1].(*Term))
		},
		"internal/bytealg.IndexByteString": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.indexByte(in.strBytes(a[0]), a[1].(*Term))
		},
		"internal/bytealg.LastIndexByteString": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.lastIndexByte(in.strBytes(a[0]), a[1].(*Term))
		},
		"internal/bytealg.LastIndexByte": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.lastIndexByte(in.sliceBytes(a[0]), a[1].(*Term))
		},
		"internal/bytealg.Count": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.countByte(in.sliceBytes(a[0]), a[1].(*Term))
		},
		"internal/bytealg.CountString": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.countByte(in.strBytes(a[0]), a[1].(*Term))
		},
		"internal/bytealg.Equal": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.strEq(in.mkStr(in.sliceBytes(a[0])), in.mkStr(in.sliceBytes(a[1])))
		},
		"bytes.Equal": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.strEq(in.mkStr(in.sliceBytes(a[0])), in.mkStr(in.sliceBytes(a[1])))
		},
		"internal/bytealg.Compare": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.cmpStr(in.mkStr(in.sliceBytes(a[0])), in.mkStr(in.sliceBytes(a[1])))
		},
		"internal/bytealg.CompareString": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.cmpStr(a[0], a[1]) },
		"strings.Compare":                func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.cmpStr(a[0], a[1]) },
		"internal/bytealg.MakeNoZero": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			n := int(in.intOf(a[0].(*Term)))
			c := roundupsize(n, 1)
			cells := make([]Value, c)
			for i := range cells {
				cells[i] = in.db.Const(0, 8)
			}
			return Slice{arr: &Arr{cells: cells, elem: types.Typ[types.Uint8]}, n: n, c: c}
		},
		"internal/bytealg.Index": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.indexSeq(in.sliceBytes(a[0]), in.sliceBytes(a[1]))
		},
		"internal/bytealg.IndexString": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.indexSeq(in.strBytes(a[0]), in.strBytes(a[1]))
		},
		"internal/stringslite.Index": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.indexSeq(in.strBytes(a[0]), in.strBytes(a[1]))
		},
		"strings.Index": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.indexSeq(in.strBytes(a[0]), in.strBytes(a[1]))
		},
		"strings.Clone":                             func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"internal/stringslite.Clone":                func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"(*strings.Builder).copyCheck":              nopIntr,
		"strings.noescape":                          func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"internal/abi.NoEscape":                     func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"internal/abi.Escape":                       func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"runtime.KeepAlive":                         nopIntr,
		"runtime.GC":                                nopIntr,
		"runtime.Gosched":                           func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.sched(); return nil },
		"runtime.GOMAXPROCS":                        func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.db.Const(8, 64) },
		"runtime.NumCPU":                            func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.db.Const(8, 64) },
		"runtime.SetFinalizer":                      nopIntr,
		"internal/godebug.New":                      func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return new(Value) },
		"(*internal/godebug.Setting).Value":         func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": nopIntr,
		"time.Sleep":                                func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.sched(); return nil },
		"math.Float64bits": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.db.Const(f64bits(a[0].(float64)), 64)
		},
		"math.Float64frombits": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return f64from(uint64(in.intOf(a[0].(*Term))))
		},
		"math.Float32bits": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.db.Const(uint64(f32bits(float32(a[0].(float64)))), 32)
		},
		"math.Float32frombits": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return float64(f32from(uint32(in.intOf(a[0].(*Term)))))
		},

		// ---- sorting: same algorithm, results joined instead of split ----
		"sort.Sort":          mergeStd,
		"sort.Stable":        mergeStd,
		"slices.Sort":        mergeStd,
		"slices.SortFunc":    mergeStd,
		"sort.Ints":          mergeStd,
		"sort.Slice":         sortSlice,
		"sort.SliceStable":   sortSlice,
		"strconv.Itoa":       strconvItoa,
		"strconv.FormatInt":  strconvFormatInt(true),
		"strconv.FormatUint": strconvFormatInt(false),
		"unicode/utf8.ValidString": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return runBody(in, fr, fn, a)
		},
	}
	syncInit()
	for k, v := range syncIntrinsics {
		intrinsics[k] = v
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
}

func (in *Interp) assumeFresh(c *Term) {
	// the bound on a variable that nothing mentions yet: always satisfiable; the model's default 0 satisfies it
	in.addPC(c)
}

func symInt(w uint8) intrinsic {
	return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t, n := in.fresh(in.strArg(a[0]), w)
		in.addInput(n, t)
		return t
	}
}

// runBody interprets fn although it has an intrinsic.
func runBody(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	return in.run(fr, in.info(fn), a, nil)
}

func mergeStd(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	if in.eng.merge {
		arg := a[0]
		if in.hasSym(arg, 0) {
			if v, ok := in.mergeRegion(func() Value { return runBody(in, fr, fn, a) }); ok {
				return v
			}
		}
	}
	return runBody(in, fr, fn, a)
}

// sortSlice is insertion sort, which is what the library uses up to 12 elements.
func sortSlice(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	s := in.fixLen(a[0].(Iface).v.(Slice))
	if s.n > 12 && fn.Name() != "SliceStable" {
		for i := 0; i < s.n; i++ {
			if in.hasSym(*s.arr.at(in, s.off+i), 0) {
				panic(unsupported("sort.Slice of more than 12 symbolic elements"))
			}
		}
	}
	body := func() Value {
		for i := 1; i < s.n; i++ {
			for j := i; j > 0; j-- {
				if !in.branch(in.call(fr, a[1], []Value{in.db.Const(uint64(j), 64), in.db.Const(uint64(j-1), 64)}).(*Term)) {
					break
				}
				p, q := s.arr.at(in, s.off+j), s.arr.at(in, s.off+j-1)
				x, y := copyVal(*p), copyVal(*q)
				in.raceCell(p, true)
				in.raceCell(q, true)
				in.storeInto(p, y)
				in.storeInto(q, x)
			}
		}
		return nil
	}
	if in.eng.merge && in.hasSym(s, 0) {
		if _, ok := in.mergeRegion(body); ok {
			return nil
		}
	}
	return body()
}

// panics calls f and reports whether it panicked.
func (in *Interp) panics(fr *frame, f Value) (res Value) {
	if in.merging > 0 {
		panic(mergeAbort{"panics"})
	}
	top := in.top
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(goPanic); ok {
				in.top = top
				res = in.db.True
				return
			}
			panic(p)
		}
	}()
	in.call(fr, f, nil)
	return in.db.False
}

// noteAlloc asserts the harness's limit on a single allocation.
func (in *Interp) noteAlloc(n *Term, size uint64) {
	if in.allocLim == nil {
		return
	}
	if in.merging > 0 {
		panic(mergeAbort{"allocation"})
	}
	lim := in.db.Const(in.allocLim.k/size, 64)
	in.assert(in.db.ULe(n, lim), "allocation bounded", "allocation beyond the stated limit")
}

// ---- atomics ----

func atomicAdd(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	in.sched()
	p := cellOf(a[0])
	s := in.lockOf(p)
	in.acquire(s.vc)
	v := in.db.Add((*p).(*Term), a[1].(*Term))
	in.setCell(p, v)
	s.vc = in.release(s.vc)
	return v
}

func atomicLoad(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	in.sched()
	p := cellOf(a[0])
	in.acquire(in.lockOf(p).vc)
	return *p
}

func atomicStore(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	in.sched()
	p := cellOf(a[0])
	in.setCell(p, a[1])
	s := in.lockOf(p)
	s.vc = in.release(s.vc)
	return nil
}

func atomicSwap(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	in.sched()
	p := cellOf(a[0])
	s := in.lockOf(p)
	in.acquire(s.vc)
	old := *p
	in.setCell(p, a[1])
	s.vc = in.release(s.vc)
	return old
}

func atomicCAS(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	in.sched()
	p := cellOf(a[0])
	s := in.lockOf(p)
	in.acquire(s.vc)
	t := fn.Signature.Params().At(1).Type()
	if in.branch(in.equals(t, *p, a[1])) {
		in.setCell(p, a[2])
		s.vc = in.release(s.vc)
		return in.db.True
	}
	return in.db.False
}

// atomicField is an operation (l, s, x: swap, c: compare and swap) on a field of the receiver.
func atomicField(name string, op byte) intrinsic {
	return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.sched()
		p := cellOf(a[0])
		l := in.lockOf(p)
		st := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		s := (*p).(Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() != name {
				continue
			}
			if x, ok := s[i].(Iface); ok && op != 'l' {
				// Value refuses nil and a second type
				v := a[len(a)-1].(Iface)
				if v.t == nil {
					in.goPanicStr("sync/atomic: store of nil value into Value")
				}
				if x.t != nil && !types.Identical(x.t, v.t) {
					in.goPanicStr("sync/atomic: store of inconsistently typed value into Value")
				}
			}
			if op != 's' {
				in.acquire(l.vc)
			}
			old := s[i]
			switch op {
			case 'l':
				return old
			case 'c':
				if !in.branch(in.equals(st.Field(i).Type(), old, a[1])) {
					return in.db.False
				}
				in.setCell(&s[i], a[2])
			default:
				in.setCell(&s[i], a[1])
			}
			l.vc = in.release(l.vc)
			switch op {
			case 'x':
				return old
			case 'c':
				return in.db.True
			}
			return nil
		}
		panic(unsupported("atomic field"))
	}
}

// ---- byte searches ----

func (in *Interp) sliceBytes(v Value) []*Term {
	s := in.fixLen(v.(Slice))
	b := make([]*Term, s.n)
	for i := range b {
		c := s.arr.at(in, s.off+i)
		in.raceCell(c, false)
		b[i] = (*c).(*Term)
	}
	return b
}

func (in *Interp) indexByte(b []*Term, c *Term) Value {
	for i, x := range b {
		if in.branch(in.db.Eq(x, c)) {
			return in.db.Const(uint64(i), 64)
		}
	}
	return in.db.Const(^uint64(0), 64)
}

func (in *Interp) lastIndexByte(b []*Term, c *Term) Value {
	for i := len(b) - 1; i >= 0; i-- {
		if in.branch(in.db.Eq(b[i], c)) {
			return in.db.Const(uint64(i), 64)
		}
	}
	return in.db.Const(^uint64(0), 64)
}

func (in *Interp) countByte(b []*Term, c *Term) Value {
	r := in.db.Const(0, 64)
	one := in.db.Const(1, 64)
	for _, x := range b {
		r = in.db.Add(r, in.db.Ite(in.db.Eq(x, c), one, in.db.Const(0, 64)))
	}
	return r
}

func (in *Interp) indexSeq(b, sub []*Term) Value {
	for i := 0; i+len(sub) <= len(b); i++ {
		e := in.db.True
		for k := range sub {
			e = in.db.And(e, in.db.Eq(b[i+k], sub[k]))
		}
		if in.branch(e) {
			return in.db.Const(uint64(i), 64)
		}
	}
	return in.db.Const(^uint64(0), 64)
}

func (in *Interp) cmpStr(a, b Value) Value {
	db := in.db
	lt, eq := in.strLt(a, b), in.strEq(a, b)
	return db.Ite(eq, db.Const(0, 64), db.Ite(lt, db.Const(^uint64(0), 64), db.Const(1, 64)))
}

// ---- strconv ----

func strconvItoa(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	if t := a[0].(*Term); t.isC() {
		return strconv.FormatInt(int64(t.k), 10)
	}
	return runBody(in, fr, fn, a)
}

func strconvFormatInt(signed bool) intrinsic {
	return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t, b := a[0].(*Term), a[1].(*Term)
		if t.isC() && b.isC() {
			if signed {
				return strconv.FormatInt(int64(t.k), int(b.k))
			}
			return strconv.FormatUint(t.k, int(b.k))
		}
		return runBody(in, fr, fn, a)
	}
}

// ---- errors ----

func (in *Interp) errorsIs(fr *frame, err, target Iface) Value {
	if err.t == nil || target.t == nil {
		return in.db.Bool(err.t == nil && target.t == nil)
	}
	return in.db.Bool(in.isErr(fr, err, target, types.Comparable(target.t)))
}

func (in *Interp) isErr(fr *frame, err, target Iface, comparable bool) bool {
	for {
		if comparable && identical(err.t, target.t) && in.branch(in.equals(err.t, err.v, target.v)) {
			return true
		}
		if m := in.methodByName(err.t, "Is"); m != nil && m.Signature.Params().Len() == 1 && m.Signature.Results().Len() == 1 {
			if in.branch(in.callFn(fr, m, []Value{copyVal(err.v), target}, nil).(*Term)) {
				return true
			}
		}
		m := in.methodByName(err.t, "Unwrap")
		if m == nil || m.Signature.Results().Len() != 1 {
			return false
		}
		switch u := in.callFn(fr, m, []Value{copyVal(err.v)}, nil).(type) {
		case Iface:
			if u.t == nil {
				return false
			}
			err = u
		case Slice:
			for i := 0; i < u.n; i++ {
				if e := (*u.arr.at(in, u.off+i)).(Iface); e.t != nil && in.isErr(fr, e, target, comparable) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func errorsAs(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	err, target := a[0].(Iface), a[1].(Iface)
	if err.t == nil {
		return in.db.False
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		in.rtPanic("errors: target must be a non-nil pointer")
	}
	tt := pt.Elem()
	for {
		if it, isI := tt.Underlying().(*types.Interface); isI && in.implements(err.t, it) {
			in.store(target.v, err)
			return in.db.True
		} else if !isI && identical(err.t, tt) {
			in.store(target.v, err.v)
			return in.db.True
		}
		m := in.methodByName(err.t, "Unwrap")
		if m == nil || m.Signature.Results().Len() != 1 {
			return in.db.False
		}
		u, isI := in.callFn(fr, m, []Value{copyVal(err.v)}, nil).(Iface)
		if !isI || u.t == nil {
			return in.db.False
		}
		err = u
	}
}
