package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term constructor. Terms are bit-vectors of width 1..64 (w>0) or booleans (w==0).
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	ONot // bitwise
	ONeg
	OShl
	OLShr
	OAShr
	OConcat  // args high..low
	OExtract // a[k+w-1:k]
	OSExt
	OEq
	OULt
	OULe
	OSLt
	OSLe
	OBAnd
	OBOr
	OBNot
	OIte
)

// Term is a hash-consed expression.
type Term struct {
	op     Op
	w      uint8
	id     uint32
	args   []*Term
	k      uint64
	name   string
	lo, hi uint64 // unsigned bounds (bit-vectors)
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
	name    string
}

// TermDB interns terms; one per worker.
type TermDB struct {
	tab    map[tkey]*Term
	n      uint32
	True   *Term
	False  *Term
	small  [9][256]*Term // widths 8 (and others by map)
	c64    [512]*Term
	vars   []*Term
	evGen  uint32
	evMark []uint32
	evVal  []uint64

	deep     int               // nesting of constructors
	lemmas   []lemma           // rewrites done, to be certified by the solver
	lemmaKey map[tkey]struct{} // those seen
	lemmaMax int
	bounded  map[*Term]bool // terms whose bounds are proved
	rewrites int            // distinct rewrites (up to lemmaMax; later ones are counted as they come)
}

func NewTermDB() *TermDB {
	db := &TermDB{tab: make(map[tkey]*Term, 1<<14)}
	db.bounded = map[*Term]bool{}
	db.lemmaKey = map[tkey]struct{}{}
	db.lemmaMax = lemmaMax
	db.False = db.raw(OConst, 0, 0, "")
	db.True = db.raw(OConst, 0, 1, "")
	return db
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (db *TermDB) raw(op Op, w uint8, k uint64, name string, args ...*Term) *Term {
	key := tkey{op: op, w: w, k: k, name: name}
	switch len(args) {
	case 0:
	case 1:
		key.a = args[0].id
	case 2:
		key.a, key.b = args[0].id, args[1].id
	case 3:
		key.a, key.b, key.c = args[0].id, args[1].id, args[2].id
	default:
		var sb strings.Builder
		for _, a := range args {
			fmt.Fprintf(&sb, "%d,", a.id)
		}
		key.name = sb.String()
	}
	if t, ok := db.tab[key]; ok {
		return t
	}
	db.n++
	t := &Term{op: op, w: w, id: db.n, k: k, name: name}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	t.lo, t.hi = db.bounds(t)
	db.tab[key] = t
	return t
}

func (db *TermDB) bounds(t *Term) (uint64, uint64) {
	m := mask(t.w)
	if t.w == 0 {
		if t.op == OConst {
			return t.k, t.k
		}
		return 0, 1
	}
	switch t.op {
	case OConst:
		return t.k, t.k
	case OConcat:
		var lo, hi uint64
		for _, a := range t.args {
			lo = lo<<a.w | a.lo
			hi = hi<<a.w | a.hi
		}
		return lo, hi
	case OIte:
		return min(t.args[1].lo, t.args[2].lo), max(t.args[1].hi, t.args[2].hi)
	case OAdd:
		a, b := t.args[0], t.args[1]
		hi, c := bits.Add64(a.hi, b.hi, 0)
		if c == 0 && hi <= m {
			return a.lo + b.lo, hi
		}
		// x + c with c "negative": a.lo + c wraps for all x
		lo, c1 := bits.Add64(a.lo, b.lo, 0)
		if t.w == 64 && c == 1 && c1 == 1 {
			return lo, hi
		}
		if t.w < 64 && lo > m && hi <= 2*m+1 {
			return lo & m, hi & m
		}
	case OSub:
		a, b := t.args[0], t.args[1]
		if a.lo >= b.hi {
			return a.lo - b.hi, a.hi - b.lo
		}
	case OMul:
		a, b := t.args[0], t.args[1]
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			return a.lo * b.lo, l
		}
	case OAnd:
		return 0, min(t.args[0].hi, t.args[1].hi)
	case OOr:
		a, b := t.args[0], t.args[1]
		n := uint8(bits.Len64(a.hi | b.hi))
		return max(a.lo, b.lo), mask(n) & m
	case OXor:
		n := uint8(bits.Len64(t.args[0].hi | t.args[1].hi))
		return 0, mask(n) & m
	case OUDiv:
		a, b := t.args[0], t.args[1]
		if b.lo > 0 {
			return a.lo / b.hi, a.hi / b.lo
		}
	case OURem:
		a, b := t.args[0], t.args[1]
		if b.lo > 0 {
			if a.hi < b.lo {
				return a.lo, a.hi
			}
			return 0, min(a.hi, b.hi-1)
		}
	case OLShr:
		if t.args[1].op == OConst && t.args[1].k < 64 {
			return t.args[0].lo >> t.args[1].k, t.args[0].hi >> t.args[1].k
		}
		return 0, t.args[0].hi
	}
	return 0, m
}

// Const makes a bit-vector constant.
func (db *TermDB) Const(v uint64, w uint8) *Term {
	v &= mask(w)
	if w == 64 && v < 512 {
		if t := db.c64[v]; t != nil {
			return t
		}
		t := db.raw(OConst, w, v, "")
		db.c64[v] = t
		return t
	}
	if w == 8 {
		if t := db.small[8][v]; t != nil {
			return t
		}
		t := db.raw(OConst, w, v, "")
		db.small[8][v] = t
		return t
	}
	return db.raw(OConst, w, v, "")
}

func (db *TermDB) Bool(b bool) *Term {
	if b {
		return db.True
	}
	return db.False
}

func (db *TermDB) Var(name string, w uint8) *Term {
	n := db.n
	t := db.raw(OVar, w, 0, name)
	if db.n != n {
		db.vars = append(db.vars, t)
	}
	return t
}

func (t *Term) isC() bool { return t.op == OConst }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

// ---- pieces (concat normal form) ----

// pieces appends the low-to-high pieces of t.
func (db *TermDB) pieces(t *Term, out []*Term) []*Term {
	if t.op == OConcat {
		for i := len(t.args) - 1; i >= 0; i-- {
			out = append(out, t.args[i])
		}
		return out
	}
	return append(out, t)
}

// fromPieces rebuilds a term from low-to-high pieces, merging neighbours.
func (db *TermDB) fromPieces(ps []*Term) *Term {
	var st []*Term
	for _, p := range ps {
		if p.w == 0 {
			panic("bool piece")
		}
		for {
			if len(st) == 0 {
				break
			}
			q := st[len(st)-1]
			if q.isC() && p.isC() && q.w+p.w <= 64 {
				p = db.Const(p.k<<q.w|q.k, q.w+p.w)
				st = st[:len(st)-1]
				continue
			}
			if p.op == OExtract && q.op == OExtract && p.args[0] == q.args[0] && p.k == q.k+uint64(q.w) {
				p = db.Extract(p.args[0], uint8(q.k), q.w+p.w)
				st = st[:len(st)-1]
				if p.op == OConcat {
					panic("unexpected concat")
				}
				continue
			}
			break
		}
		st = append(st, p)
	}
	if len(st) == 1 {
		return st[0]
	}
	var w uint8
	args := make([]*Term, len(st))
	for i, p := range st {
		args[len(st)-1-i] = p
		w += p.w
	}
	return db.raw(OConcat, w, 0, "", args...)
}

func (db *TermDB) rwZExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.isC() {
		return db.Const(t.k, w)
	}
	ps := db.pieces(t, nil)
	return db.fromPieces(append(ps, db.Const(0, w-t.w)))
}

func (db *TermDB) rwSExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.isC() {
		return db.Const(uint64(sext64(t.k, t.w)), w)
	}
	if t.hi < 1<<(t.w-1) {
		return db.ZExt(t, w)
	}
	if t.op == OIte {
		if t.args[1].isC() || t.args[2].isC() {
			return db.Ite(t.args[0], db.SExt(t.args[1], w), db.SExt(t.args[2], w))
		}
	}
	return db.raw(OSExt, w, 0, "", t)
}

// Extract returns bits [lo, lo+w) of t.
func (db *TermDB) rwExtract(t *Term, lo, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return db.Const(t.k>>lo, w)
	case OExtract:
		return db.Extract(t.args[0], lo+uint8(t.k), w)
	case OConcat:
		var ps []*Term
		pos := uint8(0)
		for i := len(t.args) - 1; i >= 0; i-- {
			p := t.args[i]
			s, e := pos, pos+p.w
			a, b := max(s, lo), min(e, lo+w)
			if a < b {
				ps = append(ps, db.pieces(db.Extract(p, a-s, b-a), nil)...)
			}
			pos = e
		}
		return db.fromPieces(ps)
	case OIte:
		if t.args[1].isC() || t.args[2].isC() {
			return db.Ite(t.args[0], db.Extract(t.args[1], lo, w), db.Extract(t.args[2], lo, w))
		}
	case OSExt:
		in := t.args[0]
		if lo+w <= in.w {
			return db.Extract(in, lo, w)
		}
	case OAnd, OOr, OXor:
		if t.args[1].isC() {
			return db.bitop(t.op, db.Extract(t.args[0], lo, w), db.Extract(t.args[1], lo, w))
		}
	case OAdd, OSub, OMul:
		if lo == 0 && w < t.w {
			a, b := db.Extract(t.args[0], 0, w), db.Extract(t.args[1], 0, w)
			switch t.op {
			case OAdd:
				return db.Add(a, b)
			case OSub:
				return db.Sub(a, b)
			default:
				return db.Mul(a, b)
			}
		}
	}
	return db.raw(OExtract, w, uint64(lo), "", t)
}

func (db *TermDB) rwAdd(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if a.isC() {
		return db.Const(a.k+b.k, a.w)
	}
	if b.isC() {
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.args[1].isC() {
			return db.Add(a.args[0], db.Const(a.args[1].k+b.k, a.w))
		}
		if a.op == OIte && a.args[1].isC() && a.args[2].isC() {
			return db.Ite(a.args[0], db.Add(a.args[1], b), db.Add(a.args[2], b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if r := db.disjoint(a, b); r != nil {
		return r
	}
	return db.raw(OAdd, a.w, 0, "", a, b)
}

func (db *TermDB) rwSub(a, b *Term) *Term {
	if a == b {
		return db.Const(0, a.w)
	}
	if b.isC() {
		return db.Add(a, db.Const(-b.k, a.w))
	}
	return db.raw(OSub, a.w, 0, "", a, b)
}

func (db *TermDB) rwMul(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return db.Const(a.k*b.k, a.w)
		}
		switch {
		case b.k == 0:
			return b
		case b.k == 1:
			return a
		case b.k&(b.k-1) == 0:
			return db.Shl(a, db.Const(uint64(bits.TrailingZeros64(b.k)), a.w))
		}
	}
	return db.raw(OMul, a.w, 0, "", a, b)
}

func (db *TermDB) rwUDiv(a, b *Term) *Term {
	if b.isC() && b.k != 0 {
		if a.isC() {
			return db.Const(a.k/b.k, a.w)
		}
		if b.k&(b.k-1) == 0 {
			return db.LShr(a, db.Const(uint64(bits.TrailingZeros64(b.k)), a.w))
		}
	}
	return db.raw(OUDiv, a.w, 0, "", a, b)
}

func (db *TermDB) rwURem(a, b *Term) *Term {
	if b.isC() && b.k != 0 {
		if a.isC() {
			return db.Const(a.k%b.k, a.w)
		}
		if a.hi < b.k {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return db.bitop(OAnd, a, db.Const(b.k-1, a.w))
		}
	}
	return db.raw(OURem, a.w, 0, "", a, b)
}

func (t *Term) nonneg() bool { return t.hi < 1<<(t.w-1) }

func (db *TermDB) rwSDiv(a, b *Term) *Term {
	if a.nonneg() && b.nonneg() {
		return db.UDiv(a, b)
	}
	if a.isC() && b.isC() && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return db.Const(uint64(-x), a.w)
		}
		return db.Const(uint64(x/y), a.w)
	}
	return db.raw(OSDiv, a.w, 0, "", a, b)
}

func (db *TermDB) rwSRem(a, b *Term) *Term {
	if a.nonneg() && b.nonneg() {
		return db.URem(a, b)
	}
	if a.isC() && b.isC() && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return db.Const(0, a.w)
		}
		return db.Const(uint64(x%y), a.w)
	}
	return db.raw(OSRem, a.w, 0, "", a, b)
}

// disjoint returns a|b as a concat when the two never have a bit in common, by structure; nil otherwise.
func (db *TermDB) disjoint(a, b *Term) *Term {
	if a.op != OConcat && b.op != OConcat {
		return nil
	}
	pa, pb := db.pieces(a, nil), db.pieces(b, nil)
	var out []*Term
	i, j := 0, 0
	var oi, oj uint8
	for i < len(pa) {
		n := min(pa[i].w-oi, pb[j].w-oj)
		x, y := db.Extract(pa[i], oi, n), db.Extract(pb[j], oj, n)
		switch {
		case x.isC() && x.k == 0:
			out = append(out, db.pieces(y, nil)...)
		case y.isC() && y.k == 0:
			out = append(out, db.pieces(x, nil)...)
		default:
			return nil
		}
		oi += n
		oj += n
		if oi == pa[i].w {
			i++
			oi = 0
		}
		if oj == pb[j].w {
			j++
			oj = 0
		}
	}
	return db.fromPieces(out)
}

func (db *TermDB) rwBitop(op Op, a, b *Term) *Term {
	m := mask(a.w)
	if a.isC() {
		a, b = b, a
	}
	if a.isC() {
		switch op {
		case OAnd:
			return db.Const(a.k&b.k, a.w)
		case OOr:
			return db.Const(a.k|b.k, a.w)
		default:
			return db.Const(a.k^b.k, a.w)
		}
	}
	if a == b {
		if op == OXor {
			return db.Const(0, a.w)
		}
		return a
	}
	if b.isC() {
		switch {
		case b.k == 0:
			if op == OAnd {
				return b
			}
			return a
		case b.k == m:
			if op == OAnd {
				return a
			}
			if op == OOr {
				return b
			}
			return db.BvNot(a)
		}
		if op == OAnd {
			// split the mask into runs
			var ps []*Term
			runs := 0
			for pos := uint8(0); pos < a.w; {
				bit := b.k >> pos & 1
				e := pos + 1
				for e < a.w && b.k>>e&1 == bit {
					e++
				}
				if bit == 1 {
					ps = append(ps, db.pieces(db.Extract(a, pos, e-pos), nil)...)
				} else {
					ps = append(ps, db.Const(0, e-pos))
				}
				pos = e
				runs++
			}
			if runs <= 3 {
				return db.fromPieces(ps)
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if op != OAnd {
		if r := db.disjoint(a, b); r != nil {
			return r
		}
	}
	return db.raw(op, a.w, 0, "", a, b)
}

func (db *TermDB) rwBvNot(a *Term) *Term {
	if a.isC() {
		return db.Const(^a.k, a.w)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return db.raw(ONot, a.w, 0, "", a)
}

func (db *TermDB) rwNeg(a *Term) *Term {
	if a.isC() {
		return db.Const(-a.k, a.w)
	}
	return db.raw(ONeg, a.w, 0, "", a)
}

// Shl, LShr, AShr take an amount of the same width; amounts >= width give 0 (or the sign).
func (db *TermDB) rwShl(a, s *Term) *Term {
	if s.isC() {
		if s.k == 0 {
			return a
		}
		if s.k >= uint64(a.w) {
			return db.Const(0, a.w)
		}
		k := uint8(s.k)
		ps := []*Term{db.Const(0, k)}
		ps = append(ps, db.pieces(db.Extract(a, 0, a.w-k), nil)...)
		return db.fromPieces(ps)
	}
	return db.raw(OShl, a.w, 0, "", a, s)
}

func (db *TermDB) rwLShr(a, s *Term) *Term {
	if s.isC() {
		if s.k == 0 {
			return a
		}
		if s.k >= uint64(a.w) {
			return db.Const(0, a.w)
		}
		k := uint8(s.k)
		return db.ZExt(db.Extract(a, k, a.w-k), a.w)
	}
	return db.raw(OLShr, a.w, 0, "", a, s)
}

func (db *TermDB) rwAShr(a, s *Term) *Term {
	if a.nonneg() {
		return db.LShr(a, s)
	}
	if s.isC() {
		k := s.k
		if k >= uint64(a.w) {
			k = uint64(a.w - 1)
		}
		if k == 0 {
			return a
		}
		return db.SExt(db.Extract(a, uint8(k), a.w-uint8(k)), a.w)
	}
	return db.raw(OAShr, a.w, 0, "", a, s)
}

func (db *TermDB) rwEq(a, b *Term) *Term {
	if a == b {
		return db.True
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b == db.True {
				return a
			}
			return db.Not(a)
		}
		if a.op == OBNot && a.args[0] == b || b.op == OBNot && b.args[0] == a {
			return db.False
		}
		return db.raw(OEq, 0, 0, "", a, b)
	}
	if a.lo > b.hi || b.lo > a.hi {
		return db.False
	}
	if a.isC() {
		a, b = b, a
	}
	if a.isC() {
		return db.Bool(a.k == b.k)
	}
	if b.isC() {
		switch a.op {
		case OConcat:
			// constant pieces must agree; compare the rest
			r := db.True
			pos := uint8(0)
			nc := 0
			for i := len(a.args) - 1; i >= 0; i-- {
				if a.args[i].isC() {
					nc++
				}
			}
			if nc > 0 || len(a.args) <= 4 {
				for i := len(a.args) - 1; i >= 0; i-- {
					p := a.args[i]
					r = db.And(r, db.Eq(p, db.Const(b.k>>pos, p.w)))
					if r == db.False {
						return r
					}
					pos += p.w
				}
				return r
			}
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isC() || y.isC() {
				return db.IteB(a.args[0], db.Eq(x, b), db.Eq(y, b))
			}
		case OAdd:
			if a.args[1].isC() {
				return db.Eq(a.args[0], db.Const(b.k-a.args[1].k, a.w))
			}
		case OSExt:
			in := a.args[0]
			v := db.Const(b.k, in.w)
			if uint64(sext64(v.k, in.w))&mask(a.w) != b.k {
				return db.False
			}
			return db.Eq(in, v)
		case ONot:
			return db.Eq(a.args[0], db.Const(^b.k, a.w))
		}
	} else {
		if a.op == OConcat && b.op == OConcat && len(a.args) == len(b.args) {
			same := true
			for i := range a.args {
				if a.args[i].w != b.args[i].w {
					same = false
				}
			}
			if same {
				r := db.True
				for i := range a.args {
					r = db.And(r, db.Eq(a.args[i], b.args[i]))
				}
				return r
			}
		}
		if a.op == OAdd && b.op == OAdd && a.args[1] == b.args[1] {
			return db.Eq(a.args[0], b.args[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return db.raw(OEq, 0, 0, "", a, b)
}

func (db *TermDB) rwULt(a, b *Term) *Term {
	if a == b || a.lo >= b.hi {
		return db.False
	}
	if a.hi < b.lo {
		return db.True
	}
	if b.isC() && b.k == 1 {
		return db.Eq(a, db.Const(0, a.w))
	}
	if x, y, ok := db.unext(a, b); ok {
		return db.ULt(x, y)
	}
	if a.op == OIte && b.isC() && (a.args[1].isC() || a.args[2].isC()) {
		return db.IteB(a.args[0], db.ULt(a.args[1], b), db.ULt(a.args[2], b))
	}
	if b.op == OIte && a.isC() && (b.args[1].isC() || b.args[2].isC()) {
		return db.IteB(b.args[0], db.ULt(a, b.args[1]), db.ULt(a, b.args[2]))
	}
	// canonical: not (b <= a)
	return db.raw(OULt, 0, 0, "", a, b)
}

// unext strips equal zero-extensions from both sides.
func (db *TermDB) unext(a, b *Term) (*Term, *Term, bool) {
	top := func(t *Term) uint8 {
		if t.op == OConcat && t.args[0].isC() && t.args[0].k == 0 {
			return t.args[0].w
		}
		if t.isC() {
			n := uint8(bits.Len64(t.k))
			if n == 0 {
				n = 1
			}
			return t.w - n
		}
		return 0
	}
	if a.isC() && b.isC() {
		return a, b, false
	}
	z := min(top(a), top(b))
	if z == 0 {
		return a, b, false
	}
	return db.Extract(a, 0, a.w-z), db.Extract(b, 0, b.w-z), true
}

func (db *TermDB) ULe(a, b *Term) *Term { return db.Not(db.ULt(b, a)) }

func (db *TermDB) rwSLt(a, b *Term) *Term {
	if a == b {
		return db.False
	}
	if a.nonneg() && b.nonneg() {
		return db.ULt(a, b)
	}
	if a.isC() && b.isC() {
		return db.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if a.nonneg() && b.isC() { // b negative
		return db.False
	}
	if b.nonneg() && a.isC() {
		return db.True
	}
	if a.op == OIte && b.isC() && (a.args[1].isC() || a.args[2].isC()) {
		return db.IteB(a.args[0], db.SLt(a.args[1], b), db.SLt(a.args[2], b))
	}
	if b.op == OIte && a.isC() && (b.args[1].isC() || b.args[2].isC()) {
		return db.IteB(b.args[0], db.SLt(a, b.args[1]), db.SLt(a, b.args[2]))
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return db.SLt(a.args[0], b.args[0])
	}
	return db.raw(OSLt, 0, 0, "", a, b)
}

func (db *TermDB) SLe(a, b *Term) *Term { return db.Not(db.SLt(b, a)) }

func (db *TermDB) rwNot(a *Term) *Term {
	if a.isC() {
		return db.Bool(a == db.False)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return db.raw(OBNot, 0, 0, "", a)
}

func (db *TermDB) rwAnd(a, b *Term) *Term {
	if a == db.False || b == db.False {
		return db.False
	}
	if a == db.True || a == b {
		return b
	}
	if b == db.True {
		return a
	}
	if a.op == OBNot && a.args[0] == b || b.op == OBNot && b.args[0] == a {
		return db.False
	}
	if a.op == OBAnd && (a.args[0] == b || a.args[1] == b) {
		return a
	}
	if b.op == OBAnd && (b.args[0] == a || b.args[1] == a) {
		return b
	}
	return db.raw(OBAnd, 0, 0, "", a, b)
}

func (db *TermDB) rwOr(a, b *Term) *Term {
	if a == db.True || b == db.True {
		return db.True
	}
	if a == db.False || a == b {
		return b
	}
	if b == db.False {
		return a
	}
	if a.op == OBNot && a.args[0] == b || b.op == OBNot && b.args[0] == a {
		return db.True
	}
	return db.raw(OBOr, 0, 0, "", a, b)
}

func (db *TermDB) rwIteB(c, a, b *Term) *Term {
	switch {
	case c == db.True:
		return a
	case c == db.False:
		return b
	case a == b:
		return a
	case a == db.True:
		return db.Or(c, b)
	case a == db.False:
		return db.And(db.Not(c), b)
	case b == db.True:
		return db.Or(db.Not(c), a)
	case b == db.False:
		return db.And(c, a)
	}
	return db.raw(OIte, 0, 0, "", c, a, b)
}

func (db *TermDB) rwIte(c, a, b *Term) *Term {
	if c == db.True || a == b {
		return a
	}
	if c == db.False {
		return b
	}
	if a.w == 0 {
		return db.rwIteB(c, a, b)
	}
	if c.op == OBNot {
		return db.Ite(c.args[0], b, a)
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if a == b {
		return a
	}
	return db.raw(OIte, a.w, 0, "", c, a, b)
}

// ---- evaluation under a model ----

// Model maps variable names to values; missing variables are 0.
type Model map[string]uint64

func (db *TermDB) newEval() {
	db.evGen++
	if n := int(db.n) + 1; len(db.evMark) < n {
		db.evMark = append(db.evMark, make([]uint32, n-len(db.evMark)+4096)...)
		db.evVal = append(db.evVal, make([]uint64, n-len(db.evVal)+4096)...)
	}
}

// Eval evaluates t under m (one-shot memo).
func (db *TermDB) Eval(t *Term, m Model) uint64 {
	db.newEval()
	return db.eval(t, m)
}

func (db *TermDB) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if int(t.id) < len(db.evMark) && db.evMark[t.id] == db.evGen {
		return db.evVal[t.id]
	}
	v := db.eval1(t, m)
	if int(t.id) < len(db.evMark) {
		db.evMark[t.id] = db.evGen
		db.evVal[t.id] = v
	}
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (db *TermDB) eval1(t *Term, m Model) uint64 {
	mk := mask(t.w)
	ev := func(i int) uint64 { return db.eval(t.args[i], m) }
	switch t.op {
	case OVar:
		if t.w == 0 {
			return m[t.name] & 1
		}
		return m[t.name] & mk
	case OAdd:
		return (ev(0) + ev(1)) & mk
	case OSub:
		return (ev(0) - ev(1)) & mk
	case OMul:
		return (ev(0) * ev(1)) & mk
	case OUDiv:
		if ev(1) == 0 {
			return mk
		}
		return ev(0) / ev(1)
	case OURem:
		if ev(1) == 0 {
			return ev(0)
		}
		return ev(0) % ev(1)
	case OSDiv:
		a, b := sext64(ev(0), t.w), sext64(ev(1), t.w)
		if b == 0 {
			if a >= 0 {
				return mk
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & mk
		}
		return uint64(a/b) & mk
	case OSRem:
		a, b := sext64(ev(0), t.w), sext64(ev(1), t.w)
		if b == 0 {
			return uint64(a) & mk
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & mk
	case OAnd:
		return ev(0) & ev(1)
	case OOr:
		return ev(0) | ev(1)
	case OXor:
		return ev(0) ^ ev(1)
	case ONot:
		return ^ev(0) & mk
	case ONeg:
		return -ev(0) & mk
	case OShl:
		s := ev(1)
		if s >= uint64(t.w) {
			return 0
		}
		return ev(0) << s & mk
	case OLShr:
		s := ev(1)
		if s >= uint64(t.w) {
			return 0
		}
		return ev(0) >> s
	case OAShr:
		s := ev(1)
		if s >= uint64(t.w) {
			s = uint64(t.w) - 1
		}
		return uint64(sext64(ev(0), t.w)>>s) & mk
	case OConcat:
		var r uint64
		for i, a := range t.args {
			r = r<<a.w | ev(i)
		}
		return r
	case OExtract:
		return ev(0) >> t.k & mk
	case OSExt:
		return uint64(sext64(ev(0), t.args[0].w)) & mk
	case OEq:
		return b2u(ev(0) == ev(1))
	case OULt:
		return b2u(ev(0) < ev(1))
	case OULe:
		return b2u(ev(0) <= ev(1))
	case OSLt:
		w := t.args[0].w
		return b2u(sext64(ev(0), w) < sext64(ev(1), w))
	case OSLe:
		w := t.args[0].w
		return b2u(sext64(ev(0), w) <= sext64(ev(1), w))
	case OBAnd:
		if ev(0) == 0 {
			return 0
		}
		return ev(1)
	case OBOr:
		if ev(0) == 1 {
			return 1
		}
		return ev(1)
	case OBNot:
		return 1 - ev(0)
	case OIte:
		if ev(0) == 1 {
			return ev(1)
		}
		return ev(2)
	}
	panic("eval: op")
}

// ---- SMT-LIB ----

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

var smtOp = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr",
	OAShr: "bvashr", OConcat: "concat", OEq: "=", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle",
	OBAnd: "and", OBOr: "or", OBNot: "not", OIte: "ite",
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func body(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", uint64(t.w)+t.k-1, t.k, ref(t.args[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(smtOp[t.op])
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}
