package main

import (
	"strconv"
	"time"
)

// Terms are rewritten as they are built. Every rewrite done is kept as a lemma "op(args) = result" and put to the SMT
// solver in its unrewritten form, so that what became true by rewriting rests on the solver's verdict as well.

// lemmaMax bounds the rewrites kept by each worker for each harness.
var lemmaMax = 20000

type lemma struct {
	op   Op
	w    uint8
	k    uint64
	n    int
	args [3]*Term
	res  *Term
}

func (db *TermDB) note(op Op, w uint8, k uint64, res *Term, n int, a, b, c *Term) {
	args := [3]*Term{a, b, c}
	ground := true
	for _, t := range args[:n] {
		ground = ground && t.isC()
	}
	if ground {
		return
	}
	if res.op == op && res.w == w && res.k == k && len(res.args) == n {
		same, swapped := true, n == 2 && res.args[0] == b && res.args[1] == a
		for i := range res.args {
			same = same && res.args[i] == args[i]
		}
		if same || swapped && op != OSub && op != OULt && op != OSLt {
			return
		}
	}
	if len(db.lemmas) >= db.lemmaMax {
		return
	}
	key := tkey{op: op, w: w, k: k, a: a.id}
	if b != nil {
		key.b = b.id
	}
	if c != nil {
		key.c = c.id
	}
	if _, ok := db.lemmaKey[key]; ok {
		return
	}
	db.lemmaKey[key] = struct{}{}
	db.rewrites++
	db.lemmas = append(db.lemmas, lemma{op, w, k, n, args, res})
}

func (db *TermDB) ZExt(t *Term, w uint8) *Term {
	db.deep++
	r := db.rwZExt(t, w)
	if db.deep--; db.deep == 0 && w > t.w {
		db.note(OConcat, w, 0, r, 2, db.Const(0, w-t.w), t, nil)
	}
	return r
}

func (db *TermDB) SExt(t *Term, w uint8) *Term {
	db.deep++
	r := db.rwSExt(t, w)
	if db.deep--; db.deep == 0 && w > t.w {
		db.note(OSExt, w, 0, r, 1, t, nil, nil)
	}
	return r
}

func (db *TermDB) Extract(t *Term, lo, w uint8) *Term {
	db.deep++
	r := db.rwExtract(t, lo, w)
	if db.deep--; db.deep == 0 {
		db.note(OExtract, w, uint64(lo), r, 1, t, nil, nil)
	}
	return r
}

func (db *TermDB) un(op Op, w uint8, f func(a *Term) *Term, a *Term) *Term {
	db.deep++
	r := f(a)
	if db.deep--; db.deep == 0 {
		db.note(op, w, 0, r, 1, a, nil, nil)
	}
	return r
}

func (db *TermDB) bin(op Op, w uint8, f func(a, b *Term) *Term, a, b *Term) *Term {
	db.deep++
	r := f(a, b)
	if db.deep--; db.deep == 0 {
		db.note(op, w, 0, r, 2, a, b, nil)
	}
	return r
}

func (db *TermDB) Add(a, b *Term) *Term  { return db.bin(OAdd, a.w, db.rwAdd, a, b) }
func (db *TermDB) Sub(a, b *Term) *Term  { return db.bin(OSub, a.w, db.rwSub, a, b) }
func (db *TermDB) Mul(a, b *Term) *Term  { return db.bin(OMul, a.w, db.rwMul, a, b) }
func (db *TermDB) UDiv(a, b *Term) *Term { return db.bin(OUDiv, a.w, db.rwUDiv, a, b) }
func (db *TermDB) URem(a, b *Term) *Term { return db.bin(OURem, a.w, db.rwURem, a, b) }
func (db *TermDB) SDiv(a, b *Term) *Term { return db.bin(OSDiv, a.w, db.rwSDiv, a, b) }
func (db *TermDB) SRem(a, b *Term) *Term { return db.bin(OSRem, a.w, db.rwSRem, a, b) }
func (db *TermDB) Shl(a, b *Term) *Term  { return db.bin(OShl, a.w, db.rwShl, a, b) }
func (db *TermDB) LShr(a, b *Term) *Term { return db.bin(OLShr, a.w, db.rwLShr, a, b) }
func (db *TermDB) AShr(a, b *Term) *Term { return db.bin(OAShr, a.w, db.rwAShr, a, b) }
func (db *TermDB) Eq(a, b *Term) *Term   { return db.bin(OEq, 0, db.rwEq, a, b) }
func (db *TermDB) ULt(a, b *Term) *Term  { return db.bin(OULt, 0, db.rwULt, a, b) }
func (db *TermDB) SLt(a, b *Term) *Term  { return db.bin(OSLt, 0, db.rwSLt, a, b) }
func (db *TermDB) And(a, b *Term) *Term  { return db.bin(OBAnd, 0, db.rwAnd, a, b) }
func (db *TermDB) Or(a, b *Term) *Term   { return db.bin(OBOr, 0, db.rwOr, a, b) }
func (db *TermDB) Not(a *Term) *Term     { return db.un(OBNot, 0, db.rwNot, a) }
func (db *TermDB) BvNot(a *Term) *Term   { return db.un(ONot, a.w, db.rwBvNot, a) }
func (db *TermDB) Neg(a *Term) *Term     { return db.un(ONeg, a.w, db.rwNeg, a) }

func (db *TermDB) bitop(op Op, a, b *Term) *Term {
	db.deep++
	r := db.rwBitop(op, a, b)
	if db.deep--; db.deep == 0 {
		db.note(op, a.w, 0, r, 2, a, b, nil)
	}
	return r
}

func (db *TermDB) Ite(c, a, b *Term) *Term {
	db.deep++
	r := db.rwIte(c, a, b)
	if db.deep--; db.deep == 0 {
		db.note(OIte, a.w, 0, r, 3, c, a, b)
	}
	return r
}

func (db *TermDB) IteB(c, a, b *Term) *Term { return db.Ite(c, a, b) }

// cutter rebuilds terms without rewriting, down to a depth below which subterms become variables.
type cutter struct {
	db   *TermDB
	near map[*Term]bool
	memo map[*Term]*Term
	side *Term   // the bounds of the subterms that became variables
	used []*Term // those subterms
}

func (c *cutter) within(v *Term, t *Term) *Term {
	lo := c.db.raw(OULe, 0, 0, "", c.db.Const(t.lo, t.w), v)
	return c.db.raw(OBAnd, 0, 0, "", lo, c.db.raw(OULe, 0, 0, "", v, c.db.Const(t.hi, t.w)))
}

func (c *cutter) expand(roots []*Term, depth int) {
	c.near = map[*Term]bool{}
	for d := 0; d < depth && len(roots) > 0; d++ {
		var next []*Term
		for _, t := range roots {
			if !c.near[t] {
				c.near[t] = true
				next = append(next, t.args...)
			}
		}
		roots = next
	}
}

func (c *cutter) get(t *Term) *Term {
	if r, ok := c.memo[t]; ok {
		return r
	}
	var r *Term
	switch {
	case t.op == OConst:
		r = c.db.raw(OConst, t.w, t.k, "")
	case t.op == OVar || !c.near[t]:
		r = c.db.Var("s"+strconv.Itoa(int(t.id)), t.w)
		if t.op != OVar && t.w > 0 && (t.lo > 0 || t.hi < mask(t.w)) {
			c.used = append(c.used, t)
			if c.side == nil {
				c.side = c.within(r, t)
			} else {
				c.side = c.db.raw(OBAnd, 0, 0, "", c.side, c.within(r, t))
			}
		}
	default:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = c.get(a)
		}
		r = c.db.raw(t.op, t.w, t.k, t.name, args...)
	}
	c.memo[t] = r
	return r
}

// differ is the formula that the lemma does not hold.
func (l *lemma) differ(c *cutter, depth int) *Term {
	c.expand(append([]*Term{l.res}, l.args[:l.n]...), depth)
	if l.n == 0 { // the bounds of a term
		return c.db.raw(OBNot, 0, 0, "", c.within(c.get(l.res), l.res))
	}
	args := make([]*Term, l.n)
	for i := range args {
		args[i] = c.get(l.args[i])
	}
	left := c.db.raw(l.op, l.w, l.k, "", args...)
	return c.db.raw(OBNot, 0, 0, "", c.db.raw(OEq, 0, 0, "", left, c.get(l.res)))
}

// certify puts the lemmas to the solver until the time is up; it gives the number certified and those found wrong. Deep
// subterms are taken as variables within their bounds; the bounds used are proved as lemmas of their own, each from
// those of the term's arguments.
func certify(ls []lemma, bounded map[*Term]bool, kind string, tmo int, until time.Time) (ok int, bad []string, queries int, spent time.Duration) {
	if len(ls) == 0 {
		return
	}
	db := NewTermDB()
	sol := NewSolver(db, kind, tmo)
	defer func() {
		queries, spent = sol.Queries, sol.Time
		sol.Close()
	}()
	var open []*Term
	ask := func(ls []lemma, depth int) Res {
		db = NewTermDB()
		sol.db = db
		sol.sync(nil)
		any := db.False
		var side, used []*Term
		for i := range ls {
			c := &cutter{db: db, memo: map[*Term]*Term{}}
			d := ls[i].differ(c, depth)
			if c.side != nil {
				d = db.raw(OBAnd, 0, 0, "", c.side, d)
			}
			used = append(used, c.used...)
			side = append(side, d)
		}
		for _, d := range side {
			if any == db.False {
				any = d
			} else {
				any = db.raw(OBOr, 0, 0, "", any, d)
			}
		}
		r, _ := sol.Check(nil, any, until)
		if r == Unsat {
			for _, t := range used {
				if !bounded[t] {
					bounded[t] = true
					open = append(open, t)
				}
			}
		}
		return r
	}
	n := 0 // lemmas and bounds proved
	var prove func(ls []lemma, depth int)
	prove = func(ls []lemma, depth int) {
		if time.Now().After(until) {
			return
		}
		r := ask(ls, depth)
		switch {
		case r == Unsat:
			n += len(ls)
		case len(ls) > 1:
			prove(ls[:len(ls)/2], depth)
			prove(ls[len(ls)/2:], depth)
		case depth < 1<<20:
			prove(ls, depth*8)
		case r == Sat:
			bad = append(bad, ls[0].String())
		}
	}
	// the bounds used in a chunk are proved before it counts
	for len(ls) > 0 && len(bad) == 0 && time.Now().Before(until) {
		k := min(len(ls), 64)
		n = 0
		prove(ls[:k], 3)
		ls = ls[k:]
		good := n
		for len(open) > 0 {
			var bs []lemma
			rest := open
			if len(rest) > 64 {
				rest = rest[:64]
			}
			open = append([]*Term(nil), open[len(rest):]...)
			for _, t := range rest {
				bs = append(bs, lemma{res: t})
			}
			n = 0
			prove(bs, 1)
			if n < len(bs) {
				for _, t := range append(open, rest...) {
					delete(bounded, t)
				}
				return
			}
		}
		ok += good
	}
	return
}

func (l *lemma) String() string {
	s := smtOp[l.op] + "["
	for _, a := range l.args[:l.n] {
		s += show(a, 3) + " "
	}
	return s + "] -> " + show(l.res, 3)
}

func show(t *Term, depth int) string {
	if t.op == OConst || t.op == OVar || depth == 0 {
		return ref(t)
	}
	s := "(" + smtOp[t.op] + "." + strconv.Itoa(int(t.w))
	for _, a := range t.args {
		s += " " + show(a, depth-1)
	}
	return s + ")"
}
