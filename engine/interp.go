package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unsupportedErr ends a path as undecided.
type unsupportedErr struct{ what string }

func unsupported(s string) unsupportedErr { return unsupportedErr{s} }

// goPanic is a panic of the interpreted program.
type goPanic struct {
	v     Value // Iface
	where string
}

// pathEnd ends the path: infeasible assumption, exit, reported violation.
type pathEnd struct{ why string }

type killed struct{}

type opnd struct {
	slot int32
	val  Value
	set  bool
}

type cinstr struct {
	ins ssa.Instruction
	ops []opnd
	dst int32
}

type fnInfo struct {
	fn     *ssa.Function
	nreg   int
	blocks [][]cinstr
	params []int32
	frees  []int32
	slots  map[ssa.Value]int32
	intr   intrinsic
	name   string
	repo   bool
	pure   int8 // 0 unknown, 1 mergeable, -1 not
}

type deferred struct {
	fn   Value
	args []Value
	next *deferred
	bi   *ssa.Builtin
}

type frame struct {
	in        *Interp
	caller    *frame
	info      *fnInfo
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    Value
	panicking bool
	panicVal  interface{}
	cur       *cinstr
	depth     int
}

type jent struct {
	addr *Value
	old  Value
	fn   func()
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if i, ok := in.infos[fn]; ok {
		return i
	}
	i := &fnInfo{fn: fn, name: fn.String(), slots: map[ssa.Value]int32{}}
	in.infos[fn] = i
	i.intr = lookupIntrinsic(fn)
	if fn.Pkg != nil {
		i.repo = strings.HasPrefix(fn.Pkg.Pkg.Path(), in.eng.modPath) && !strings.Contains(fn.Pkg.Pkg.Path(), "/internal/verif")
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		i.repo = strings.HasPrefix(o.Pkg.Pkg.Path(), in.eng.modPath)
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		i.repo = strings.HasPrefix(fn.Object().Pkg().Path(), in.eng.modPath)
	}
	slot := func(v ssa.Value) int32 {
		n := int32(i.nreg)
		i.slots[v] = n
		i.nreg++
		return n
	}
	for _, p := range fn.Params {
		i.params = append(i.params, slot(p))
	}
	for _, f := range fn.FreeVars {
		i.frees = append(i.frees, slot(f))
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				slot(v)
			}
		}
	}
	i.blocks = make([][]cinstr, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cs := make([]cinstr, 0, len(b.Instrs))
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			c := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				c.dst = i.slots[v]
			}
			for _, op := range ins.Operands(nil) {
				o := opnd{slot: -1}
				if op != nil && *op != nil {
					o.set = true
					switch v := (*op).(type) {
					case *ssa.Const:
						o.val = in.constVal(v)
					case *ssa.Global:
						o.val = in.global(v)
						if v.Pkg != nil && !in.eng.initPkg(v.Pkg.Pkg.Path()) && !zeroOK[v.Pkg.Pkg.Path()] && initialised(v) {
							o.val = uninit{v.String()}
						}
					case *ssa.Function, *ssa.Builtin:
						o.val = v
					default:
						o.slot = i.slots[v]
					}
				}
				c.ops = append(c.ops, o)
			}
			cs = append(cs, c)
		}
		i.blocks[bi] = cs
	}
	return i
}

func (in *Interp) global(g *ssa.Global) *Value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = in.zero(g.Type().Underlying().(*types.Pointer).Elem())
	in.globals[g] = p
	return p
}

// uninit stands for a variable whose initial value is not known.
type uninit struct{ name string }

// zeroOK are packages whose variables are set by postInit or only used by intrinsics.
var zeroOK = map[string]bool{"os": true}

// initialised reports whether the package initialiser sets g.
func initialised(g *ssa.Global) bool {
	f := g.Pkg.Func("init")
	if f == nil || g.Name() == "init$guard" {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				if *op == g {
					return true
				}
			}
		}
	}
	return false
}

func (in *Interp) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("constant of type " + c.Type().String()))
	}
	switch {
	case t.Info()&types.IsBoolean != 0:
		return in.db.Bool(constant.BoolVal(c.Value))
	case t.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case t.Info()&types.IsFloat != 0:
		f := c.Float64()
		if t.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case t.Info()&types.IsComplex != 0:
		return c.Complex128()
	case t.Info()&types.IsInteger != 0:
		w, signed, _ := width(t)
		if signed {
			return in.db.Const(uint64(c.Int64()), w)
		}
		return in.db.Const(c.Uint64(), w)
	}
	panic(unsupported("constant " + c.String()))
}

func (fr *frame) o(i int) Value {
	op := &fr.cur.ops[i]
	if op.slot >= 0 {
		return fr.regs[op.slot]
	}
	if u, ok := op.val.(uninit); ok {
		panic(unsupported("variable " + u.name + " of a package whose initialisation is not executed"))
	}
	return op.val
}

func (fr *frame) has(i int) bool { return fr.cur.ops[i].set }

func (fr *frame) ot(i int) *Term {
	t, ok := fr.o(i).(*Term)
	if !ok {
		panic(fmt.Sprintf("not a scalar: %T in %s: %v", fr.o(i), fr.info.name, fr.cur.ins))
	}
	return t
}

// ---- memory ----

func (in *Interp) journalFn(f func()) { in.journal = append(in.journal, jent{fn: f}) }

func (in *Interp) setCell(p *Value, v Value) {
	if in.frozen != nil && in.frozen[p] {
		panic(unsupported("write to memory shared with a text by package unsafe"))
	}
	in.journal = append(in.journal, jent{addr: p, old: *p})
	*p = v
}

func (in *Interp) undo(mark int) {
	for i := len(in.journal) - 1; i >= mark; i-- {
		e := &in.journal[i]
		if e.fn != nil {
			e.fn()
		} else {
			*e.addr = e.old
		}
		e.fn, e.old, e.addr = nil, nil, nil
	}
	in.journal = in.journal[:mark]
}

func (in *Interp) load(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		in.raceCell(p, false)
		return copyVal(*p)
	case *SymPtr:
		return in.loadSym(p)
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (in *Interp) loadSym(p *SymPtr) Value {
	db := in.db
	// runs of equal values, as a balanced tree of comparisons
	type run struct {
		hi int // exclusive
		v  *Term
	}
	var runs []run
	for i, c := range p.cells {
		in.raceCell(c, false)
		t := (*c).(*Term)
		if n := len(runs); n > 0 && runs[n-1].v == t {
			runs[n-1].hi = i + 1
		} else {
			runs = append(runs, run{i + 1, t})
		}
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if b-a == 1 {
			return runs[a].v
		}
		m := (a + b) / 2
		return db.Ite(db.ULt(p.idx, db.Const(uint64(runs[m-1].hi), p.idx.w)), build(a, m), build(m, b))
	}
	return build(0, len(runs))
}

func (in *Interp) store(p Value, v Value) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		in.raceCell(p, true)
		// aggregates keep their identity: pointers to fields stay valid
		in.storeInto(p, v)
		return
	case *SymPtr:
		for i, c := range p.cells {
			in.raceCell(c, true)
			in.setCell(c, in.db.Ite(in.db.Eq(p.idx, in.db.Const(uint64(i), p.idx.w)), v.(*Term), (*c).(*Term)))
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (in *Interp) storeInto(p *Value, v Value) {
	switch o := (*p).(type) {
	case Struct:
		if n, ok := v.(Struct); ok && len(n) == len(o) {
			if len(o) > 0 && len(n) > 0 && &o[0] == &n[0] {
				return
			}
			for i := range o {
				in.storeInto(&o[i], n[i])
			}
			return
		}
	case Array:
		if n, ok := v.(Array); ok && len(n) == len(o) {
			if len(o) > 0 && len(n) > 0 && &o[0] == &n[0] {
				return
			}
			for i := range o {
				in.storeInto(&o[i], n[i])
			}
			return
		}
	}
	in.setCell(p, copyVal(v))
}

// ---- panics ----

func (in *Interp) rtPanic(msg string) {
	var t types.Type
	if in.eng.rtErrorT != nil {
		t = in.eng.rtErrorT
	} else {
		t = types.Typ[types.String]
	}
	panic(goPanic{v: Iface{t: t, v: msg}, where: in.where()})
}

func (in *Interp) goPanicStr(msg string) { in.rtPanic(msg) }

func (in *Interp) where() string {
	var sb strings.Builder
	n := 0
	for fr := in.top; fr != nil && n < 8; fr = fr.caller {
		pos := token.Position{}
		if fr.cur != nil {
			pos = in.eng.prog.Fset.Position(fr.cur.ins.Pos())
		}
		if n > 0 {
			sb.WriteString(" < ")
		}
		file := pos.Filename
		if i := strings.LastIndexByte(file, '/'); i >= 0 {
			file = file[i+1:]
		}
		fmt.Fprintf(&sb, "%s (%s:%d)", fr.info.name, file, pos.Line)
		n++
	}
	return sb.String()
}

// ---- calls ----

func (in *Interp) call(caller *frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.callFn(caller, f, args, nil)
	case *Closure:
		return in.callFn(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return in.builtin(caller, f, args, nil)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

func (in *Interp) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	info := in.info(fn)
	in.fnSeen[info]++
	if info.intr != nil {
		return info.intr(in, caller, fn, args)
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("function without body: " + info.name))
	}
	if fn.Synthetic != "" && fn.Name() == "init" && fn.Pkg != nil && fn.Pkg.Func("init") == fn {
		if !in.eng.initPkg(fn.Pkg.Pkg.Path()) {
			return nil
		}
	}
	if in.mergeable(info) {
		if v, ok := in.mergeCall(caller, info, args, env); ok {
			return v
		}
	}
	return in.run(caller, info, args, env)
}

func (in *Interp) run(caller *frame, info *fnInfo, args []Value, env []Value) Value {
	fn := info.fn
	fr := &frame{in: in, caller: caller, info: info, regs: make([]Value, info.nreg)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > in.eng.maxDepth {
			panic(goPanic{v: Iface{t: types.Typ[types.String], v: "stack overflow"}, where: in.where()})
		}
	}
	if len(args) != len(info.params) {
		panic(fmt.Sprintf("call of %s with %d args, want %d", info.name, len(args), len(info.params)))
	}
	for i, s := range info.params {
		fr.regs[s] = args[i]
	}
	for i, s := range info.frees {
		fr.regs[s] = env[i]
	}
	fr.block = fn.Blocks[0]
	saved := in.top
	in.top = fr
	for fr.block != nil {
		in.runFrame(fr)
	}
	in.top = saved
	return fr.result
}

func (in *Interp) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		p := recover()
		switch p.(type) {
		case goPanic:
		default:
			if p != nil {
				if _, isRT := p.(interface{ RuntimeError() }); isRT {
					panic(p)
				}
			}
			panic(p)
		}
		in.top = fr
		fr.panicking = true
		fr.panicVal = p
		in.runDefers(fr)
		// recovered
		fr.block = fr.info.fn.Recover
		if fr.block == nil {
			// no named results: return zero values
			fr.result = nil
			res := fr.info.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = in.zero(res.At(0).Type())
			default:
				fr.result = in.zero(res)
			}
		}
	}()
	for {
		code := fr.info.blocks[fr.block.Index]
	blk:
		for k := range code {
			ci := &code[k]
			fr.cur = ci
			in.steps++
			if in.steps&0x3ffff == 0 {
				in.onTime()
			}
			if in.steps > in.stepLimit {
				if in.eng.verbose {
					n := 0
					for f := fr; f != nil && n < 12; f, n = f.caller, n+1 {
						fmt.Fprintln(os.Stderr, "   ", f.info.name, in.eng.prog.Fset.Position(f.cur.ins.Pos()))
					}
				}
				panic(pathEnd{"step limit"})
			}
			switch in.exec(fr, ci) {
			case kReturn:
				return
			case kJump:
				break blk
			}
		}
	}
}

func (in *Interp) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		in.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (in *Interp) runDefer(fr *frame, d *deferred) {
	ok := false
	defer func() {
		if !ok {
			p := recover()
			if gp, is := p.(goPanic); is {
				in.top = fr
				fr.panicking = true
				fr.panicVal = gp
				return
			}
			panic(p)
		}
	}()
	if d.bi != nil {
		in.builtin(fr, d.bi, d.args, nil)
	} else {
		in.call(fr, d.fn, d.args)
	}
	ok = true
}

func doRecover(in *Interp, caller *frame) Value {
	// caller is the frame calling recover; it must be a deferred call run by a panicking frame
	if caller != nil && caller.caller != nil && caller.caller.panicking && !caller.panicking {
		f := caller.caller
		f.panicking = false
		p := f.panicVal
		f.panicVal = nil
		if gp, ok := p.(goPanic); ok {
			return gp.v
		}
		panic(p)
	}
	return Iface{}
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

func (in *Interp) exec(fr *frame, ci *cinstr) cont {
	set := func(v Value) { fr.regs[ci.dst] = v }
	switch ins := ci.ins.(type) {
	case *ssa.UnOp:
		set(in.unop(fr, ins))
	case *ssa.BinOp:
		set(in.binop(ins.Op, ins.X.Type(), ins.Y.Type(), fr.o(0), fr.o(1)))
	case *ssa.Call:
		fn, args := in.prepCall(fr, &ins.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			set(in.builtin(fr, b, args, ins))
		} else {
			set(in.call(fr, fn, args))
		}
	case *ssa.ChangeInterface:
		set(fr.o(0))
	case *ssa.ChangeType:
		set(fr.o(0))
	case *ssa.Convert:
		set(in.conv(fr, ins.X.Type(), ins.Type(), fr.o(0)))
	case *ssa.MultiConvert:
		set(in.conv(fr, ins.X.Type(), ins.Type(), fr.o(0)))
	case *ssa.SliceToArrayPointer:
		s := fr.o(0).(Slice)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.symbolic() {
			panic(unsupported("array pointer of a symbolic-length slice"))
		}
		if s.n < n {
			in.rtPanic("cannot convert slice to array pointer: length")
		}
		if s.arr == nil {
			set((*Value)(nil))
			break
		}
		v := new(Value)
		*v = Array(s.arr.cells[s.off : s.off+n])
		set(v)
	case *ssa.MakeInterface:
		set(Iface{t: ins.X.Type(), v: fr.o(0)})
	case *ssa.Extract:
		set(fr.o(0).(Tuple)[ins.Index])
	case *ssa.Slice:
		set(in.slice(fr, ins))
	case *ssa.Return:
		switch len(ins.Results) {
		case 0:
		case 1:
			fr.result = fr.o(0)
		default:
			r := make(Tuple, len(ins.Results))
			for i := range r {
				r[i] = fr.o(i)
			}
			fr.result = r
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		in.runDefers(fr)
	case *ssa.Panic:
		v := fr.o(0).(Iface)
		if v.t == nil {
			in.rtPanic("panic called with nil argument")
		}
		panic(goPanic{v: v, where: in.where()})
	case *ssa.Send:
		in.chanSend(fr.o(0).(*Chan), copyVal(fr.o(1)))
	case *ssa.Store:
		in.store(fr.o(0), fr.o(1))
	case *ssa.If:
		succ := 1
		if in.branch(fr.ot(0)) {
			succ = 0
		}
		in.jump(fr, fr.block.Succs[succ])
		return kJump
	case *ssa.Jump:
		in.jump(fr, fr.block.Succs[0])
		return kJump
	case *ssa.Defer:
		fn, args := in.prepCall(fr, &ins.Call)
		d := &deferred{fn: fn, args: args, next: fr.defers}
		if b, ok := fn.(*ssa.Builtin); ok {
			d.bi = b
		}
		if ins.DeferStack != nil {
			panic(unsupported("defer stack"))
		}
		fr.defers = d
	case *ssa.Go:
		fn, args := in.prepCall(fr, &ins.Call)
		in.spawn(fn, args)
	case *ssa.MakeChan:
		n := in.intOf(fr.ot(0))
		set(&Chan{cap: int(n)})
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(ins.Type().Underlying().(*types.Pointer).Elem())
		set(p)
	case *ssa.MakeSlice:
		et := ins.Type().Underlying().(*types.Slice).Elem()
		set(in.makeSlice(et, in.toInt64(ins.Len.Type(), fr.ot(0)), in.toInt64(ins.Cap.Type(), fr.ot(1))))
	case *ssa.MakeMap:
		mt := ins.Type().Underlying().(*types.Map)
		set(newMap(mt.Key(), mt.Elem()))
	case *ssa.Range:
		switch x := fr.o(0).(type) {
		case *Map:
			set(in.newMapIter(x, ins.Parent()))
		default:
			set(&strIter{s: x})
		}
	case *ssa.Next:
		set(in.next(fr, ins))
	case *ssa.FieldAddr:
		p, ok := fr.o(0).(*Value)
		if !ok {
			panic(unsupported("field of a symbolic pointer"))
		}
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T", *p)))
		}
		set(&s[ins.Field])
	case *ssa.Field:
		set(copyVal(fr.o(0).(Struct)[ins.Field]))
	case *ssa.IndexAddr:
		set(in.indexAddr(fr, ins))
	case *ssa.Index:
		idx := in.toInt64(ins.Index.Type(), fr.ot(1))
		switch x := fr.o(0).(type) {
		case Array:
			i := in.checkIndex(idx, len(x))
			if i >= 0 {
				set(copyVal(x[i]))
				break
			}
			cells := make([]*Value, len(x))
			scalar := true
			for k := range x {
				cells[k] = &x[k]
				if _, ok := x[k].(*Term); !ok {
					scalar = false
				}
			}
			if scalar {
				set(in.loadSym(&SymPtr{cells, idx}))
			} else {
				set(copyVal(x[in.concretize(idx)]))
			}
		default:
			set(in.strIndex(x, idx))
		}
	case *ssa.Lookup:
		switch x := fr.o(0).(type) {
		case *Map:
			if x != nil {
				in.raceMap(x, false)
			}
			e := in.mapFind(x, fr.o(1))
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = in.zero(ins.X.Type().Underlying().(*types.Map).Elem())
			}
			if ins.CommaOk {
				set(Tuple{v, in.db.Bool(e != nil)})
			} else {
				set(v)
			}
		default:
			set(in.strIndex(x, in.toInt64(ins.Index.Type(), fr.ot(1))))
		}
	case *ssa.MapUpdate:
		in.mapSet(fr.o(0).(*Map), copyVal(fr.o(1)), copyVal(fr.o(2)))
	case *ssa.TypeAssert:
		set(in.typeAssert(ins, fr.o(0).(Iface)))
	case *ssa.MakeClosure:
		env := make([]Value, len(ins.Bindings))
		for i := range env {
			env[i] = fr.o(i + 1)
		}
		set(&Closure{fn: ins.Fn.(*ssa.Function), env: env})
	case *ssa.Phi:
		// all phis of a block are evaluated together by jump
	case *ssa.Select:
		set(in.selectStmt(fr, ins))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
	return kNext
}

func (in *Interp) jump(fr *frame, to *ssa.BasicBlock) {
	fr.prev = fr.block
	fr.block = to
	code := fr.info.blocks[to.Index]
	if len(code) == 0 {
		return
	}
	if _, ok := code[0].ins.(*ssa.Phi); !ok {
		return
	}
	pi := -1
	for i, p := range to.Preds {
		if p == fr.prev {
			pi = i
			break
		}
	}
	var tmp [8]Value
	vals := tmp[:0]
	for k := range code {
		if _, ok := code[k].ins.(*ssa.Phi); !ok {
			break
		}
		op := &code[k].ops[pi]
		if op.slot >= 0 {
			vals = append(vals, fr.regs[op.slot])
		} else {
			vals = append(vals, op.val)
		}
	}
	for k, v := range vals {
		fr.regs[code[k].dst] = v
	}
}

func (in *Interp) prepCall(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	n := len(c.Args)
	if c.IsInvoke() {
		recv := fr.o(0).(Iface)
		if recv.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := in.method(recv.t, c.Method)
		if fn == nil {
			panic(unsupported("no method " + c.Method.String() + " on " + recv.t.String()))
		}
		args := make([]Value, n+1)
		args[0] = copyVal(recv.v)
		for i := 0; i < n; i++ {
			args[i+1] = copyVal(fr.o(i + 1))
		}
		return fn, args
	}
	args := make([]Value, n)
	for i := 0; i < n; i++ {
		args[i] = copyVal(fr.o(i + 1))
	}
	return fr.o(0), args
}

type mkey struct {
	t types.Type
	m string
}

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m.Id()}
	if f, ok := in.methods[k]; ok {
		return f
	}
	f := in.eng.lookupMethod(t, m.Pkg(), m.Name())
	in.methods[k] = f
	return f
}

// methodByName finds an exported method.
func (in *Interp) methodByName(t types.Type, name string) *ssa.Function {
	k := mkey{t, "." + name}
	if f, ok := in.methods[k]; ok {
		return f
	}
	f := in.eng.lookupMethod(t, nil, name)
	in.methods[k] = f
	return f
}

func (in *Interp) typeAssert(ins *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && in.implements(x.t, it) {
			ok = true
			v = x
		}
	} else if x.t != nil && identical(x.t, ins.AssertedType) {
		ok = true
		v = copyVal(x.v)
	}
	if !ok {
		if !ins.CommaOk {
			d := "nil"
			if x.t != nil {
				d = x.t.String()
			}
			in.rtPanic("interface conversion: interface is " + d + ", not " + ins.AssertedType.String())
		}
		return Tuple{in.zero(ins.AssertedType), in.db.False}
	}
	if ins.CommaOk {
		return Tuple{v, in.db.True}
	}
	return v
}

type ikey struct {
	t  types.Type
	it *types.Interface
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	k := ikey{t, it}
	if r, ok := in.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	in.impl[k] = r
	return r
}

// ---- integers ----

// toInt64 widens an index-like integer to 64 bits keeping its value (unsigned 64-bit values above MaxInt64
// stay "negative", which every bounds check rejects).
func (in *Interp) toInt64(t types.Type, v *Term) *Term {
	if v.w == 64 {
		return v
	}
	if _, signed, _ := width(t); signed {
		return in.db.SExt(v, 64)
	}
	return in.db.ZExt(v, 64)
}

// intOf makes a term concrete.
func (in *Interp) intOf(v *Term) int64 {
	if v.isC() {
		return sext64(v.k, v.w)
	}
	return sext64(in.concretize(v), v.w)
}

// checkIndex reports out of range as a panic path; returns the index if concrete, else -1.
func (in *Interp) checkIndex(idx *Term, n int) int {
	db := in.db
	if idx.isC() {
		if idx.k >= uint64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.k), n))
		}
		return int(idx.k)
	}
	if !in.branch(db.ULt(idx, db.Const(uint64(n), 64))) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if n == 1 {
		return 0
	}
	return -1
}

func (in *Interp) indexAddr(fr *frame, ins *ssa.IndexAddr) Value {
	idx := in.toInt64(ins.Index.Type(), fr.ot(1))
	var at func(i int) *Value
	n := 0
	switch x := fr.o(0).(type) {
	case Slice:
		if x.sn != nil {
			if !in.branch(in.db.ULt(idx, x.sn)) {
				in.rtPanic("index out of range (symbolic length)")
			}
			i := idx
			if !i.isC() {
				return x.arr.at(in, x.off+int(in.concretize(i)))
			}
			if i.k > 1<<24 {
				panic(unsupported("index beyond 2^24"))
			}
			return x.arr.at(in, x.off+int(i.k))
		}
		n = x.n
		at = func(i int) *Value { return x.arr.at(in, x.off+i) }
	case *Value:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*x).(Array)
		n = len(a)
		at = func(i int) *Value { return &a[i] }
	default:
		panic(unsupported(fmt.Sprintf("index of %T", x)))
	}
	i := in.checkIndex(idx, n)
	if i >= 0 {
		return at(i)
	}
	w, _, scalar := width(ins.Type().Underlying().(*types.Pointer).Elem())
	_ = w
	if scalar && n <= 4096 {
		cells := make([]*Value, n)
		for k := range cells {
			cells[k] = at(k)
		}
		return &SymPtr{cells: cells, idx: idx}
	}
	return at(int(in.concretize(idx)))
}

func (in *Interp) strIndex(s Value, idx *Term) Value {
	n := strLen(s)
	i := in.checkIndex(idx, n)
	b := in.strBytes(s)
	if i >= 0 {
		return b[i]
	}
	cells := make([]*Value, n)
	for k := range cells {
		v := Value(b[k])
		cells[k] = &v
	}
	return in.loadSym(&SymPtr{cells, idx})
}

func (in *Interp) makeSlice(et types.Type, n, c *Term) Value {
	db := in.db
	// makeslice panics on negative or enormous sizes
	sz := uint64(in.sizeof(et))
	if sz == 0 {
		sz = 1
	}
	lim := db.Const(uint64(1<<47)/sz, 64)
	if !in.branch(db.ULe(n, lim)) {
		in.rtPanic("makeslice: len out of range")
	}
	if c != n {
		if !in.branch(db.And(db.ULe(c, lim), db.ULe(n, c))) {
			in.rtPanic("makeslice: cap out of range")
		}
	}
	in.noteAlloc(c, sz)
	if n.isC() && c.isC() {
		if c.k > 1<<22 {
			return Slice{arr: &Arr{sparse: map[int]*Value{}, elem: et}, n: int(n.k), c: int(c.k), sn: n, sc: c}
		}
		cells := make([]Value, c.k)
		if c.k > 0 {
			z := in.zero(et)
			agg := false
			switch z.(type) {
			case Struct, Array:
				agg = true
			}
			for i := range cells {
				if agg && i > 0 {
					cells[i] = in.zero(et)
				} else {
					cells[i] = z
				}
			}
		}
		return Slice{arr: &Arr{cells: cells, elem: et}, n: int(n.k), c: int(c.k)}
	}
	return Slice{arr: &Arr{sparse: map[int]*Value{}, elem: et}, sn: n, sc: c}
}

// fixLen turns a symbolic-length slice into one with native length by case split.
func (in *Interp) fixLen(s Slice) Slice {
	if !s.symbolic() {
		return s
	}
	n := int(in.concretize(s.sn))
	if n > 1<<20 {
		panic(unsupported("huge slice"))
	}
	c := n
	if s.sc != nil && s.sc != s.sn {
		c = int(in.concretize(s.sc))
		if c > 1<<20 {
			c = n // capacity beyond the length is never observed for these sizes
		}
	}
	// materialise: share cells through a dense view
	cells := make([]Value, c)
	same := true
	for i := range cells {
		p := s.arr.at(in, s.off+i)
		cells[i] = *p
	}
	_ = same
	// later writes through the sparse store would not be seen here; keep the sparse one authoritative
	return Slice{arr: s.arr, off: s.off, n: n, c: c}
}

func (in *Interp) slice(fr *frame, ins *ssa.Slice) Value {
	db := in.db
	get := func(i int, v ssa.Value) *Term {
		if !fr.has(i) {
			return nil
		}
		return in.toInt64(v.Type(), fr.ot(i))
	}
	lo, hi, mx := get(1, ins.Low), get(2, ins.High), get(3, ins.Max)
	switch x := fr.o(0).(type) {
	case string, *SymStr, *Opaque:
		if lo == nil && hi == nil {
			return x
		}
		n := strLen(x)
		l, h := 0, n
		if hi != nil {
			if !in.branch(db.ULe(hi, db.Const(uint64(n), 64))) {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [:%s] with length %d", toS(hi), n))
			}
			h = int(in.intOf(hi))
		}
		if lo != nil {
			if !in.branch(db.ULe(lo, db.Const(uint64(h), 64))) {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%d]", toS(lo), h))
			}
			l = int(in.intOf(lo))
		}
		return in.strSub(x, l, h)
	case *Value:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*x).(Array)
		at := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		return in.resl(Slice{arr: &Arr{cells: a, elem: at.Elem()}, n: len(a), c: len(a)}, lo, hi, mx)
	case Slice:
		return in.resl(x, lo, hi, mx)
	}
	panic(unsupported(fmt.Sprintf("slice of %T", fr.o(0))))
}

func (in *Interp) resl(s Slice, lo, hi, mx *Term) Value {
	db := in.db
	capT := db.Const(uint64(s.c), 64)
	lenT := db.Const(uint64(s.n), 64)
	if s.sc != nil {
		capT = s.sc
	}
	if s.sn != nil {
		lenT = s.sn
	}
	if mx == nil {
		mx = capT
	} else if !in.branch(db.ULe(mx, capT)) {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [::%s] with capacity %s", toS(mx), toS(capT)))
	}
	if hi == nil {
		hi = lenT
	}
	if !in.branch(db.ULe(hi, mx)) {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [:%s] with capacity %s", toS(hi), toS(mx)))
	}
	if lo == nil {
		lo = db.Const(0, 64)
	} else if !in.branch(db.ULe(lo, hi)) {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s]", toS(lo), toS(hi)))
	}
	if s.arr == nil {
		return s
	}
	l := in.intOf(lo)
	n := db.Sub(hi, db.Const(uint64(l), 64))
	c := db.Sub(mx, db.Const(uint64(l), 64))
	if !s.symbolic() {
		h := in.intOf(n)
		m := in.intOf(c)
		return Slice{arr: s.arr, off: s.off + int(l), n: int(h), c: int(m)}
	}
	return Slice{arr: s.arr, off: s.off + int(l), sn: n, sc: c}
}

func (in *Interp) sliceLen(s Slice) *Term {
	if s.sn != nil {
		return s.sn
	}
	return in.db.Const(uint64(s.n), 64)
}

// ---- operators ----

func (in *Interp) unop(fr *frame, ins *ssa.UnOp) Value {
	x := fr.o(0)
	switch ins.Op {
	case token.MUL:
		v := in.load(x)
		if sl, ok := v.(Slice); ok && isString(ins.Type()) {
			// *(*string)(unsafe.Pointer(&b)): a text that shares the memory of b, which must not be written any more
			sl = in.fixLen(sl)
			if in.frozen == nil {
				in.frozen = map[*Value]bool{}
			}
			for i := 0; i < sl.n; i++ {
				in.frozen[sl.arr.at(in, sl.off+i)] = true
			}
			return in.mkStr(in.sliceBytes(sl))
		}
		return v
	case token.NOT:
		return in.db.Not(x.(*Term))
	case token.SUB:
		switch x := x.(type) {
		case *Term:
			return in.db.Neg(x)
		case float64:
			return -x
		case complex128:
			return -x
		}
	case token.XOR:
		return in.db.BvNot(x.(*Term))
	case token.ARROW:
		v, ok := in.chanRecv(x.(*Chan), ins.X.Type().Underlying().(*types.Chan).Elem())
		if ins.CommaOk {
			return Tuple{v, in.db.Bool(ok)}
		}
		return v
	}
	panic(unsupported("unary " + ins.Op.String()))
}

func (in *Interp) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	db := in.db
	switch op {
	case token.EQL:
		return in.eqMixed(tx, ty, x, y)
	case token.NEQ:
		return db.Not(in.eqMixed(tx, ty, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		_, signed, _ := width(tx)
		if a.w == 0 {
			switch op {
			case token.AND:
				return db.And(a, b)
			case token.OR:
				return db.Or(a, b)
			}
		}
		switch op {
		case token.ADD:
			return db.Add(a, b)
		case token.SUB:
			return db.Sub(a, b)
		case token.MUL:
			return db.Mul(a, b)
		case token.QUO, token.REM:
			if !in.branch(db.Not(db.Eq(b, db.Const(0, b.w)))) {
				in.rtPanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && signed:
				return db.SDiv(a, b)
			case op == token.QUO:
				return db.UDiv(a, b)
			case signed:
				return db.SRem(a, b)
			default:
				return db.URem(a, b)
			}
		case token.AND:
			return db.bitop(OAnd, a, b)
		case token.OR:
			return db.bitop(OOr, a, b)
		case token.XOR:
			return db.bitop(OXor, a, b)
		case token.AND_NOT:
			return db.bitop(OAnd, a, db.BvNot(b))
		case token.SHL, token.SHR:
			if _, ys, _ := width(ty); ys {
				if !in.branch(db.Not(db.SLt(b, db.Const(0, b.w)))) {
					in.rtPanic("negative shift amount")
				}
			}
			// bring the amount to a's width, saturating
			var s *Term
			if b.w > a.w {
				big := db.Not(db.ULt(b, db.Const(uint64(a.w), b.w)))
				s = db.Ite(big, db.Const(uint64(a.w), a.w), db.Extract(b, 0, a.w))
			} else {
				s = db.ZExt(b, a.w)
			}
			switch {
			case op == token.SHL:
				return db.Shl(a, s)
			case signed:
				return db.AShr(a, s)
			default:
				return db.LShr(a, s)
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt := db.ULt
			if signed {
				lt = db.SLt
			}
			switch op {
			case token.LSS:
				return lt(a, b)
			case token.GTR:
				return lt(b, a)
			case token.LEQ:
				return db.Not(lt(b, a))
			default:
				return db.Not(lt(a, b))
			}
		}
	case float64:
		b := y.(float64)
		f32 := tx.Underlying().(*types.Basic).Kind() == types.Float32
		r := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return r(a + b)
		case token.SUB:
			return r(a - b)
		case token.MUL:
			return r(a * b)
		case token.QUO:
			return r(a / b)
		case token.LSS:
			return db.Bool(a < b)
		case token.LEQ:
			return db.Bool(a <= b)
		case token.GTR:
			return db.Bool(a > b)
		case token.GEQ:
			return db.Bool(a >= b)
		}
	case string, *SymStr, *Opaque:
		switch op {
		case token.ADD:
			return in.strCat(x, y)
		case token.LSS:
			return in.strLt(x, y)
		case token.GTR:
			return in.strLt(y, x)
		case token.LEQ:
			return db.Not(in.strLt(y, x))
		case token.GEQ:
			return db.Not(in.strLt(x, y))
		}
	}
	panic(unsupported(fmt.Sprintf("binary %s on %T", op, x)))
}

// eqMixed compares operands, one of which may be an interface.
func (in *Interp) eqMixed(tx, ty types.Type, x, y Value) *Term {
	_, ix := x.(Iface)
	_, iy := y.(Iface)
	if ix && !iy {
		return in.equals(tx, x, Iface{t: ty, v: y})
	}
	if iy && !ix {
		return in.equals(ty, Iface{t: tx, v: x}, y)
	}
	return in.equals(tx, x, y)
}

func (in *Interp) conv(fr *frame, from, to types.Type, x Value) Value {
	db := in.db
	ut, uf := to.Underlying(), from.Underlying()
	if w, _, ok := width(ut); ok && w > 0 {
		switch v := x.(type) {
		case *Term:
			_, fs, _ := width(uf)
			switch {
			case w == v.w:
				return v
			case w < v.w:
				return db.Extract(v, 0, w)
			case fs:
				return db.SExt(v, w)
			default:
				return db.ZExt(v, w)
			}
		case float64:
			_, signed, _ := width(ut)
			if signed {
				return db.Const(uint64(int64(v)), w)
			}
			if v >= 1<<63 {
				return db.Const(uint64(v), w)
			}
			return db.Const(uint64(int64(v)), w)
		case *Value: // unsafe.Pointer to uintptr
			panic(unsupported("pointer to integer"))
		}
	}
	switch t := ut.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsFloat != 0:
			var f float64
			switch v := x.(type) {
			case float64:
				f = v
			case *Term:
				n := in.intOf(v)
				if _, signed, _ := width(uf); signed {
					f = float64(n)
				} else {
					f = float64(uint64(n) & mask(v.w))
				}
			default:
				panic(unsupported("float conversion"))
			}
			if t.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case t.Info()&types.IsString != 0:
			switch v := x.(type) {
			case string, *SymStr, *Opaque:
				return v
			case *Term:
				// integer to string
				w, signed, _ := width(uf)
				_ = w
				r := v
				if signed {
					r = db.SExt(v, 64)
				} else {
					r = db.ZExt(v, 64)
				}
				ok := db.ULe(r, db.Const(0x10FFFF, 64))
				if !in.branch(ok) {
					return "\uFFFD"
				}
				return in.runeToStr(fr, db.Extract(r, 0, 32))
			case Slice:
				v = in.fixLen(v)
				if v.n == 0 {
					return ""
				}
				if w, _, _ := width(uf.(*types.Slice).Elem()); w == 8 {
					b := make([]*Term, v.n)
					for i := range b {
						c := v.arr.at(in, v.off+i)
						in.raceCell(c, false)
						b[i] = (*c).(*Term)
					}
					return in.mkStr(b)
				}
				var res Value = ""
				for i := 0; i < v.n; i++ {
					c := v.arr.at(in, v.off+i)
					in.raceCell(c, false)
					res = in.strCat(res, in.runeToStr(fr, (*c).(*Term)))
				}
				return res
			}
		case t.Kind() == types.UnsafePointer:
			if p, ok := x.(*Value); ok {
				return p
			}
			panic(unsupported("conversion to unsafe.Pointer"))
		}
	case *types.Pointer:
		if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return x
		}
		return x
	case *types.Slice:
		if isString(from) {
			w, _, _ := width(t.Elem())
			if w == 8 {
				b := in.strBytes(x)
				cells := make([]Value, roundupsize(len(b), 1))
				z := Value(db.Const(0, 8))
				for i := range cells {
					if i < len(b) {
						cells[i] = b[i]
					} else {
						cells[i] = z
					}
				}
				return Slice{arr: &Arr{cells: cells, elem: t.Elem()}, n: len(b), c: len(cells)}
			}
			var rs []Value
			it := &strIter{s: x}
			for {
				_, r, _, ok := in.nextRune(fr, it)
				if !ok {
					break
				}
				rs = append(rs, r)
			}
			n := len(rs)
			c := roundupsize(n*4, 1) / 4
			for len(rs) < c {
				rs = append(rs, Value(db.Const(0, 32)))
			}
			return Slice{arr: &Arr{cells: rs, elem: t.Elem()}, n: n, c: c}
		}
		return x
	}
	if types.Identical(ut, uf) {
		return x
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}

// runeToStr encodes one rune, by interpreting unicode/utf8 when it is symbolic.
func (in *Interp) runeToStr(fr *frame, r *Term) Value {
	if r.isC() {
		return string(rune(int32(r.k)))
	}
	f := in.eng.utf8Append
	if f == nil {
		panic(unsupported("utf8.AppendRune not loaded"))
	}
	s := in.callFn(fr, f, []Value{Slice{}, r}, nil).(Slice)
	b := make([]*Term, s.n)
	for i := range b {
		b[i] = (*s.arr.at(in, s.off+i)).(*Term)
	}
	return in.mkStr(b)
}

// nextRune steps a string iterator.
func (in *Interp) nextRune(fr *frame, it *strIter) (pos int, r *Term, size int, ok bool) {
	n := strLen(it.s)
	if it.pos >= n {
		return 0, nil, 0, false
	}
	pos = it.pos
	if s, isC := it.s.(string); isC {
		for _, c := range s[pos:] {
			r = in.db.Const(uint64(uint32(c)), 32)
			break
		}
		_, size = decodeRune(s[pos:])
	} else {
		b := in.strBytes(it.s)[pos:]
		if in.branch(in.db.ULt(b[0], in.db.Const(0x80, 8))) {
			r, size = in.db.ZExt(b[0], 32), 1
		} else {
			f := in.eng.utf8Decode
			if f == nil {
				panic(unsupported("utf8.DecodeRuneInString not loaded"))
			}
			res := in.callFn(fr, f, []Value{in.strSub(it.s, pos, min(n, pos+4))}, nil).(Tuple)
			r = res[0].(*Term)
			size = int(in.intOf(res[1].(*Term)))
		}
	}
	in.journalFn(func() { it.pos = pos })
	it.pos += size
	return pos, r, size, true
}

// newMapIter begins to iterate over a map: in the order of insertion, or, in harnesses about the order, beginning at any
// entry (which is what the present runtime does for up to 8 entries).
func (in *Interp) newMapIter(m *Map, fn *ssa.Function) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	it.n = len(m.ents)
	if !in.eng.mapOrder || it.n < 2 {
		return it
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return it
	}
	path := fn.Pkg.Pkg.Path()
	if !strings.HasPrefix(path, in.eng.modPath+"/") || strings.HasPrefix(path, in.eng.modPath+"/"+harnessDir+"/h") && !strings.Contains(path, "/hcmd") {
		return it
	}
	if in.merging > 0 {
		panic(mergeAbort{"order of a map"})
	}
	it.start = in.choose(it.n, 'c')
	return it
}

func (in *Interp) next(fr *frame, ins *ssa.Next) Value {
	switch it := fr.o(0).(type) {
	case *strIter:
		pos, r, _, ok := in.nextRune(fr, it)
		if !ok {
			return Tuple{in.db.False, in.db.Const(0, 64), in.db.Const(0, 32)}
		}
		return Tuple{in.db.True, in.db.Const(uint64(pos), 64), r}
	case *mapIter:
		if it.m != nil {
			in.raceMap(it.m, false)
			old := it.i
			in.journalFn(func() { it.i = old })
			for it.i < len(it.m.ents) {
				k := it.i
				if k < it.n {
					k = (k + it.start) % it.n
				}
				e := it.m.ents[k]
				it.i++
				if !e.dead {
					return Tuple{in.db.True, copyVal(e.k), copyVal(e.v)}
				}
			}
		}
		tt := ins.Type().(*types.Tuple)
		z := Tuple{in.db.False, nil, nil}
		for i := 1; i <= 2; i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				z[i] = in.zero(tt.At(i).Type())
			}
		}
		return z
	}
	panic("next")
}

// ---- builtins ----

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, ins *ssa.Call) Value {
	db := in.db
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := in.fixLen(args[0].(Slice))
		var src []Value
		var et types.Type
		switch a := args[1].(type) {
		case string, *SymStr, *Opaque:
			for _, t := range in.strBytes(a) {
				src = append(src, t)
			}
			et = types.Typ[types.Uint8]
		case Slice:
			a = in.fixLen(a)
			src = make([]Value, a.n)
			for i := range src {
				c := a.arr.at(in, a.off+i)
				in.raceCell(c, false)
				src[i] = copyVal(*c)
			}
			if a.arr != nil {
				et = a.arr.elem
			}
		}
		if s.arr != nil {
			et = s.arr.elem
		}
		if len(src) == 0 {
			return s
		}
		if s.n+len(src) <= s.c {
			for i, v := range src {
				c := s.arr.at(in, s.off+s.n+i)
				in.raceCell(c, true)
				in.storeInto(c, v)
			}
			return Slice{arr: s.arr, off: s.off, n: s.n + len(src), c: s.c}
		}
		return in.growAppend(s, src, et)
	case "copy":
		d := in.fixLen(args[0].(Slice))
		var src []Value
		switch a := args[1].(type) {
		case Slice:
			a = in.fixLen(a)
			k := min(d.n, a.n)
			src = make([]Value, k)
			for i := range src {
				c := a.arr.at(in, a.off+i)
				in.raceCell(c, false)
				src[i] = copyVal(*c)
			}
		default:
			bs := in.strBytes(a)
			k := min(d.n, len(bs))
			for _, t := range bs[:k] {
				src = append(src, t)
			}
		}
		for i, v := range src {
			c := d.arr.at(in, d.off+i)
			in.raceCell(c, true)
			in.storeInto(c, v)
		}
		return db.Const(uint64(len(src)), 64)
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return in.sliceLen(x)
		case *Map:
			if x == nil {
				return db.Const(0, 64)
			}
			in.raceMap(x, false)
			return db.Const(uint64(x.live), 64)
		case Array:
			return db.Const(uint64(len(x)), 64)
		case *Value:
			return db.Const(uint64(len((*x).(Array))), 64)
		case *Chan:
			if x == nil {
				return db.Const(0, 64)
			}
			return db.Const(uint64(len(x.buf)), 64)
		default:
			return db.Const(uint64(strLen(x)), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			if x.sc != nil {
				return x.sc
			}
			return db.Const(uint64(x.c), 64)
		case Array:
			return db.Const(uint64(len(x)), 64)
		case *Value:
			return db.Const(uint64(len((*x).(Array))), 64)
		case *Chan:
			return db.Const(uint64(x.cap), 64)
		}
	case "delete":
		in.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range append([]*mapEntry(nil), x.ents...) {
					if !e.dead {
						e := e
						e.dead = true
						x.live--
						in.journalFn(func() { e.dead = false; x.live++ })
					}
				}
			}
		case Slice:
			x = in.fixLen(x)
			for i := 0; i < x.n; i++ {
				in.storeInto(x.arr.at(in, x.off+i), in.zero(x.arr.elem))
			}
		}
		return nil
	case "close":
		in.chanClose(args[0].(*Chan))
		return nil
	case "panic":
		panic(goPanic{v: args[0], where: in.where()})
	case "recover":
		return doRecover(in, fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := b.Type().(*types.Signature).Params().At(0).Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := in.binop(op, t, t, a, r).(*Term)
			if rt, ok := r.(*Term); ok {
				r = db.Ite(c, a.(*Term), rt)
			} else if in.branch(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "Sizeof":
		if ins != nil {
			return db.Const(uint64(in.sizeof(ins.Call.Args[0].Type())), 64)
		}
	case "SliceData", "StringData", "String", "Slice", "Add":
		return in.unsafeBuiltin(b.Name(), args)
	}
	panic(unsupported("builtin " + b.Name()))
}

// dataPtr remembers which slice or string a data pointer came from.
type dataPtr struct {
	s   Slice
	str Value
}

func (in *Interp) unsafeBuiltin(name string, args []Value) Value {
	switch name {
	case "SliceData":
		return &dataPtr{s: args[0].(Slice)}
	case "StringData":
		return &dataPtr{str: args[0]}
	case "String":
		n := int(in.intOf(args[1].(*Term)))
		switch p := args[0].(type) {
		case *dataPtr:
			if p.str != nil {
				return in.strSub(p.str, 0, n)
			}
			b := make([]*Term, n)
			for i := range b {
				b[i] = (*p.s.arr.at(in, p.s.off+i)).(*Term)
			}
			return in.mkStr(b)
		case *Value:
			if n == 0 {
				return ""
			}
		}
	case "Slice":
		n := int(in.intOf(args[1].(*Term)))
		if p, ok := args[0].(*dataPtr); ok {
			if p.str != nil {
				b := in.strBytes(p.str)[:n]
				cells := make([]Value, n)
				for i := range cells {
					cells[i] = b[i]
				}
				return Slice{arr: &Arr{cells: cells, elem: types.Typ[types.Uint8]}, n: n, c: n}
			}
			return Slice{arr: p.s.arr, off: p.s.off, n: n, c: n}
		}
	}
	panic(unsupported("unsafe." + name))
}

func (in *Interp) sizeof(t types.Type) int64 {
	if t == nil {
		return 1
	}
	return in.eng.sizes.Sizeof(t)
}

// growAppend mirrors runtime.growslice so that aliasing after append is the real one.
func (in *Interp) growAppend(s Slice, src []Value, et types.Type) Value {
	newLen := s.n + len(src)
	newCap := nextslicecap(newLen, s.c)
	sz := int(in.sizeof(et))
	if sz > 0 {
		newCap = roundupsize(newCap*sz, sz) / sz
	}
	in.noteAlloc(in.db.Const(uint64(newCap), 64), uint64(max(sz, 1)))
	cells := make([]Value, newCap)
	for i := 0; i < s.n; i++ {
		c := s.arr.at(in, s.off+i)
		in.raceCell(c, false)
		cells[i] = copyVal(*c)
	}
	for i, v := range src {
		cells[s.n+i] = copyVal(v)
	}
	if newCap > newLen {
		z := in.zero(et)
		agg := false
		switch z.(type) {
		case Struct, Array:
			agg = true
		}
		for i := newLen; i < newCap; i++ {
			if agg {
				cells[i] = in.zero(et)
			} else {
				cells[i] = z
			}
		}
	}
	return Slice{arr: &Arr{cells: cells, elem: et}, n: newLen, c: newCap}
}

func nextslicecap(newLen, oldCap int) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		return newLen
	}
	const threshold = 256
	if oldCap < threshold {
		return doublecap
	}
	for {
		newcap += (newcap + 3*threshold) >> 2
		if uint(newcap) >= uint(newLen) {
			break
		}
	}
	if newcap <= 0 {
		return newLen
	}
	return newcap
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n, sz int) int {
	if n == 0 {
		return 0
	}
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	const page = 8192
	return (n + page - 1) / page * page
}

func decodeRune(s string) (rune, int) {
	for i, r := range s {
		_ = i
		n := 0
		for j := range s {
			if j > 0 {
				n = j
				break
			}
		}
		if n == 0 {
			n = len(s)
		}
		return r, n
	}
	return 0, 0
}

var _ = math.MaxInt64
