package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func f64bits(f float64) uint64 { return math.Float64bits(f) }
func f64from(u uint64) float64 { return math.Float64frombits(u) }
func f32bits(f float32) uint32 { return math.Float32bits(f) }
func f32from(u uint32) float32 { return math.Float32frombits(u) }

func (in *Interp) variadic(v Value) []Iface {
	s := v.(Slice)
	r := make([]Iface, s.n)
	for i := range r {
		r[i] = (*s.arr.at(in, s.off+i)).(Iface)
	}
	return r
}

func typeName(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// textOf calls Error or String as package fmt does; ok=false when the operand has neither.
func (in *Interp) textOf(fr *frame, v Iface) (res Value, ok bool) {
	if v.t == nil {
		return nil, false
	}
	var m *ssa.Function
	for _, name := range []string{"Error", "String"} {
		f := in.methodByName(v.t, name)
		if f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
			m = f
			break
		}
	}
	if m == nil {
		return nil, false
	}
	top := in.top
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(goPanic); is {
				// package fmt catches it
				in.top = top
				if pv, isP := v.v.(*Value); isP && pv == nil {
					res, ok = "<nil>", true
				} else {
					res, ok = "%!v(PANIC)", true
				}
				return
			}
			panic(p)
		}
	}()
	return in.callFn(fr, m, []Value{copyVal(v.v)}, nil), true
}

func (in *Interp) fmtArg(fr *frame, flags string, verb byte, v Iface, depth int) Value {
	if verb == 'T' {
		return typeName(v.t)
	}
	if v.t == nil {
		if verb == 'v' || verb == 's' {
			return fmt.Sprintf("%"+flags+string(verb), nil)
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'w' {
		verb = 'v'
	}
	if strings.IndexByte("vsqxX", verb) >= 0 && !(verb == 'v' && strings.Contains(flags, "#")) {
		if s, ok := in.textOf(fr, v); ok {
			return in.fmtStr(flags, verb, s)
		}
	}
	switch x := v.v.(type) {
	case *Term:
		if !x.isC() {
			return &Opaque{why: "formatted symbolic integer"}
		}
		if x.w == 0 {
			return fmt.Sprintf("%"+flags+string(verb), x.k == 1)
		}
		_, signed, _ := width(v.t)
		if signed {
			n := sext64(x.k, x.w)
			switch x.w {
			case 8:
				return fmt.Sprintf("%"+flags+string(verb), int8(n))
			case 16:
				return fmt.Sprintf("%"+flags+string(verb), int16(n))
			case 32:
				return fmt.Sprintf("%"+flags+string(verb), int32(n))
			}
			return fmt.Sprintf("%"+flags+string(verb), n)
		}
		switch x.w {
		case 8:
			return fmt.Sprintf("%"+flags+string(verb), uint8(x.k))
		case 16:
			return fmt.Sprintf("%"+flags+string(verb), uint16(x.k))
		case 32:
			return fmt.Sprintf("%"+flags+string(verb), uint32(x.k))
		}
		return fmt.Sprintf("%"+flags+string(verb), x.k)
	case float64:
		return fmt.Sprintf("%"+flags+string(verb), x)
	case string, *SymStr, *Opaque:
		return in.fmtStr(flags, verb, x)
	case *ssa.Function, *Closure:
		f, _ := x.(*ssa.Function)
		if c, ok := x.(*Closure); ok {
			f = c.fn
		}
		if f == nil {
			return "0x0"
		}
		return fmt.Sprintf("%p", f)
	case Slice:
		x = in.fixLen(x)
		if et, ok := v.t.Underlying().(*types.Slice); ok && depth < 4 && x.n < 64 {
			if w, _, isInt := width(et.Elem()); isInt && w == 8 && (verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
				return in.fmtStr(flags, verb, in.mkStr(in.sliceBytes(x)))
			}
			var r Value = "["
			for i := 0; i < x.n; i++ {
				if i > 0 {
					r = in.strCat(r, " ")
				}
				r = in.strCat(r, in.fmtArg(fr, flags, verb, in.toIface(et.Elem(), *x.arr.at(in, x.off+i)), depth+1))
			}
			return in.strCat(r, "]")
		}
	case Struct:
		if st, ok := v.t.Underlying().(*types.Struct); ok && depth < 4 && flags == "" {
			var r Value = "{"
			for i := range x {
				if i > 0 {
					r = in.strCat(r, " ")
				}
				r = in.strCat(r, in.fmtArg(fr, flags, verb, in.toIface(st.Field(i).Type(), x[i]), depth+1))
			}
			return in.strCat(r, "}")
		}
	case *Value:
		if x == nil {
			return "<nil>"
		}
	}
	return &Opaque{why: "formatted " + typeName(v.t)}
}

func (in *Interp) toIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t, v}
}

func (in *Interp) fmtStr(flags string, verb byte, s Value) Value {
	if c, ok := s.(string); ok {
		return fmt.Sprintf("%"+flags+string(verb), c)
	}
	if flags == "" && (verb == 's' || verb == 'v') {
		return s
	}
	return &Opaque{why: "formatted symbolic text"}
}

func (in *Interp) sprintf(fr *frame, f Value, va Value) Value {
	s, _ := in.format(fr, f, va)
	return s
}

// format returns the text and the operands of %w.
func (in *Interp) format(fr *frame, f Value, va Value) (Value, []Iface) {
	args := in.variadic(va)
	fs, ok := f.(string)
	if !ok {
		return &Opaque{why: "symbolic format"}, nil
	}
	var wrapped []Iface
	var r Value = ""
	k := 0
	lit := 0
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			i++
			continue
		}
		r = in.strCat(r, fs[lit:i])
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			r = in.strCat(r, "%!(NOVERB)")
			lit = len(fs)
			break
		}
		flags, verb := fs[i+1:j], fs[j]
		i = j + 1
		lit = i
		if verb == '%' {
			r = in.strCat(r, "%")
			continue
		}
		if verb == '*' || verb == '[' {
			return &Opaque{why: "format with * or ["}, wrapped
		}
		if k >= len(args) {
			r = in.strCat(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[k]
		k++
		if verb == 'w' {
			if a.t != nil && in.methodByName(a.t, "Error") != nil {
				wrapped = append(wrapped, a)
			}
		}
		r = in.strCat(r, in.fmtArg(fr, flags, verb, a, 0))
	}
	if lit < len(fs) {
		r = in.strCat(r, fs[lit:])
	}
	if k < len(args) {
		r = in.strCat(r, "%!(EXTRA)")
	}
	return r, wrapped
}

func (in *Interp) sprint(fr *frame, va Value, ln bool) Value {
	args := in.variadic(va)
	var r Value = ""
	for i, a := range args {
		if i > 0 {
			_, s1 := a.v.(string)
			_, s2 := args[i-1].v.(string)
			if ln || !s1 && !s2 {
				r = in.strCat(r, " ")
			}
		}
		r = in.strCat(r, in.fmtArg(fr, "", 'v', a, 0))
	}
	if ln {
		r = in.strCat(r, "\n")
	}
	return r
}

func (in *Interp) fprint(fr *frame, w Value, s Value) Value {
	wi := w.(Iface)
	if wi.t == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	m := in.methodByName(wi.t, "Write")
	if m == nil {
		panic(unsupported("Fprint to " + wi.t.String()))
	}
	if _, ok := s.(*Opaque); ok {
		s = "?"
	}
	b := in.strBytes(s)
	cells := make([]Value, len(b))
	for i := range b {
		cells[i] = b[i]
	}
	return in.callFn(fr, m, []Value{copyVal(wi.v), Slice{arr: &Arr{cells: cells, elem: types.Typ[types.Uint8]}, n: len(b), c: len(b)}}, nil)
}

func fmtErrorf(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	s, wrapped := in.format(fr, a[0], a[1])
	mk := func(t types.Type, fields ...Value) Value {
		p := new(Value)
		*p = Struct(fields)
		return Iface{t: types.NewPointer(t), v: p}
	}
	e := in.eng
	switch len(wrapped) {
	case 0:
		return mk(e.errorStringT, s)
	case 1:
		return Iface{t: e.wrapErrorP, v: in.newCell(Struct{s, wrapped[0]})}
	default:
		cells := make([]Value, len(wrapped))
		for i := range wrapped {
			cells[i] = wrapped[i]
		}
		return Iface{t: e.wrapErrorsP, v: in.newCell(Struct{s, Slice{arr: &Arr{cells: cells, elem: e.errorT}, n: len(cells), c: len(cells)}})}
	}
}

func (in *Interp) newCell(v Value) *Value {
	p := new(Value)
	*p = v
	return p
}

// ---- observations ----

// snapshot freezes what is reachable from v for later rendering.
func (in *Interp) snapshot(v Value, depth int) Value {
	if depth > 6 {
		return "..."
	}
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return Iface{}
		}
		if in.methodByName(x.t, "Error") != nil {
			return Iface{t: x.t, v: "error"}
		}
		return Iface{t: x.t, v: in.snapshot(x.v, depth+1)}
	case Slice:
		x = in.fixLen(x)
		a := make(Array, x.n)
		for i := range a {
			a[i] = in.snapshot(*x.arr.at(in, x.off+i), depth+1)
		}
		return a
	case Struct:
		a := make(Struct, len(x))
		for i := range a {
			a[i] = in.snapshot(x[i], depth+1)
		}
		return a
	case Array:
		a := make(Array, len(x))
		for i := range a {
			a[i] = in.snapshot(x[i], depth+1)
		}
		return a
	}
	return v
}

func (in *Interp) renderObs(o Obs) (string, bool) {
	var sb strings.Builder
	sb.WriteString(o.label)
	for _, v := range o.vals {
		sb.WriteByte(' ')
		i, _ := v.(Iface)
		if !in.render(&sb, i.t, v) {
			return "", false
		}
	}
	return sb.String(), true
}

// render writes v under the path's model in the format of sym.Observe's native twin.
func (in *Interp) render(sb *strings.Builder, t types.Type, v Value) bool {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			sb.WriteString("nil")
			return true
		}
		if s, ok := x.v.(string); ok && s == "error" && in.methodByName(x.t, "Error") != nil {
			sb.WriteString("error")
			return true
		}
		return in.render(sb, x.t, x.v)
	case *Term:
		u := in.db.Eval(x, in.model)
		if x.w == 0 {
			fmt.Fprint(sb, u == 1)
			return true
		}
		if t != nil {
			if _, signed, _ := width(t); signed {
				fmt.Fprint(sb, sext64(u, x.w))
				return true
			}
		}
		fmt.Fprint(sb, u)
		return true
	case string:
		fmt.Fprintf(sb, "%q", x)
		return true
	case *SymStr:
		b := make([]byte, len(x.b))
		for i := range b {
			b[i] = byte(in.db.Eval(x.b[i], in.model))
		}
		fmt.Fprintf(sb, "%q", string(b))
		return true
	case Array:
		var et types.Type
		if t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			}
		}
		sb.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(' ')
			}
			if !in.render(sb, et, e) {
				return false
			}
		}
		sb.WriteByte(']')
		return true
	case Struct:
		sb.WriteByte('{')
		st, _ := t.Underlying().(*types.Struct)
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(' ')
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			if !in.render(sb, ft, e) {
				return false
			}
		}
		sb.WriteByte('}')
		return true
	}
	return false
}
