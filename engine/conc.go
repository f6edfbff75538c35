package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// goroutine of the interpreted program; only the one holding the baton runs.
type goroutine struct {
	id    int
	wake  chan struct{}
	ended chan struct{}
	vc    []int
	top   *frame
	done  bool
	kill  bool
	ready func() bool // nil: runnable
}

type shadow struct {
	wg, wc int // last write
	reads  []int
}

type concState struct {
	gs      []*goroutine
	cur     *goroutine
	pre     int // preemptions used
	bound   int
	shadows map[interface{}]*shadow
	abort   interface{}
	races   bool
}

type crash struct{ p goPanic }

func (c *concState) active() bool { return len(c.gs) > 1 }

func (in *Interp) runMain(fn *ssa.Function) {
	in.conc.bound = 2
	in.callFn(nil, fn, nil, nil)
}

func (in *Interp) initConc() {
	c := &in.conc
	if len(c.gs) == 0 {
		g := &goroutine{id: 0, wake: make(chan struct{}, 1), vc: []int{1}}
		c.gs = []*goroutine{g}
		c.cur = g
		c.shadows = map[interface{}]*shadow{}
	}
}

func (in *Interp) spawn(fv Value, args []Value) {
	in.spawnGo(func() { in.call(nil, fv, args) })
}

func (in *Interp) spawnGo(body func()) {
	if in.merging > 0 {
		panic(mergeAbort{"goroutine"})
	}
	in.initConc()
	c := &in.conc
	p := c.cur
	g := &goroutine{id: len(c.gs), wake: make(chan struct{}, 1), ended: make(chan struct{})}
	if g.id > 8 {
		panic(unsupported("more than 8 goroutines"))
	}
	for _, o := range c.gs {
		o.vc = append(o.vc, 0)
	}
	g.vc = append([]int(nil), p.vc...)
	g.vc[g.id] = 1
	p.vc[p.id]++
	c.gs = append(c.gs, g)
	go func() {
		defer close(g.ended)
		<-g.wake
		if g.kill {
			g.done = true
			return
		}
		func() {
			defer func() {
				p := recover()
				if p == nil {
					return
				}
				if _, k := p.(killed); k {
					return
				}
				if gp, ok := p.(goPanic); ok {
					p = crash{gp}
				}
				if c.abort == nil {
					c.abort = p
				}
			}()
			body()
		}()
		g.done = true
		if g.kill {
			return
		}
		if c.abort != nil {
			in.hand(c.gs[0])
			return
		}
		// pass the baton on
		defer func() {
			if p := recover(); p != nil {
				if c.abort == nil {
					c.abort = p
				}
				in.hand(c.gs[0])
			}
		}()
		in.hand(in.pick())
	}()
	in.sched()
}

// hand gives the baton to g (the caller must then stop or wait).
func (in *Interp) hand(g *goroutine) {
	in.conc.cur = g
	in.top = g.top
	g.wake <- struct{}{}
}

// pick chooses the next goroutine when the current one cannot go on.
func (in *Interp) pick() *goroutine {
	c := &in.conc
	var rs []*goroutine
	for _, g := range c.gs {
		if !g.done && (g.ready == nil || g.ready()) {
			rs = append(rs, g)
		}
	}
	if len(rs) == 0 {
		if !in.replaying() {
			in.violation("deadlock", "all goroutines are asleep", in.model)
		}
		panic(pathEnd{"violation"})
	}
	return rs[in.choose(len(rs), 's')]
}

func (in *Interp) switchTo(g *goroutine) {
	c := &in.conc
	me := c.cur
	if g == me {
		return
	}
	me.top = in.top
	in.hand(g)
	<-me.wake
	if me.kill {
		panic(killed{})
	}
	in.top = me.top
	if me.id == 0 && c.abort != nil {
		panic(c.abort)
	}
}

// sched is a point where another goroutine may run.
func (in *Interp) sched() {
	c := &in.conc
	if !c.active() {
		return
	}
	rs := []*goroutine{c.cur}
	if c.pre < c.bound {
		for _, g := range c.gs {
			if g != c.cur && !g.done && (g.ready == nil || g.ready()) {
				rs = append(rs, g)
			}
		}
	}
	k := in.choose(len(rs), 's')
	if k > 0 {
		c.pre++
		in.switchTo(rs[k])
	}
}

// block waits until ready holds.
func (in *Interp) block(what string, ready func() bool) {
	if ready() {
		return
	}
	if in.merging > 0 {
		panic(mergeAbort{"blocking"})
	}
	c := &in.conc
	if !c.active() {
		if !in.replaying() {
			in.violation("deadlock", what, in.model)
		}
		panic(pathEnd{"violation"})
	}
	me := c.cur
	me.ready = ready
	for !ready() {
		in.switchTo(in.pick())
	}
	me.ready = nil
}

func (in *Interp) killGoroutines() {
	c := &in.conc
	for i, g := range c.gs {
		if i == 0 {
			continue
		}
		g.kill = true
		select {
		case <-g.ended:
			continue
		default:
		}
		select {
		case g.wake <- struct{}{}:
		default:
		}
		<-g.ended
	}
}

// ---- happens-before ----

func joinVC(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (in *Interp) release(vc []int) []int {
	if !in.conc.active() {
		return vc
	}
	g := in.conc.cur
	vc = joinVC(vc, g.vc)
	g.vc[g.id]++
	return vc
}

func (in *Interp) acquire(vc []int) {
	if !in.conc.active() {
		return
	}
	g := in.conc.cur
	g.vc = joinVC(g.vc, vc)
}

func (in *Interp) raceCell(p *Value, write bool) {
	if !in.conc.races || !in.conc.active() {
		return
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			in.raceCell(&x[i], write)
		}
		return
	case Array:
		for i := range x {
			in.raceCell(&x[i], write)
		}
		return
	}
	in.raceAccess(p, write)
}

func (in *Interp) raceMap(m *Map, write bool) {
	if !in.conc.races || !in.conc.active() {
		return
	}
	in.raceAccess(m, write)
}

func (in *Interp) raceAccess(key interface{}, write bool) {
	c := &in.conc
	g := c.cur
	s := c.shadows[key]
	if s == nil {
		s = &shadow{wg: -1}
		c.shadows[key] = s
	}
	bad := ""
	at := func(id int) int {
		if id < len(g.vc) {
			return g.vc[id]
		}
		return 0
	}
	if s.wg >= 0 && s.wg != g.id && at(s.wg) < s.wc {
		bad = "write"
	}
	if write {
		for id, clk := range s.reads {
			if id != g.id && clk > 0 && at(id) < clk {
				bad = "read"
			}
		}
	}
	if bad != "" && !in.replaying() {
		k := "read"
		if write {
			k = "write"
		}
		what := "memory"
		if _, ok := key.(*Map); ok {
			what = "a map"
		}
		in.violation("data race", fmt.Sprintf("%s of %s races with an earlier %s by another goroutine", k, what, bad), in.model)
		panic(pathEnd{"violation"})
	}
	if write {
		s.wg, s.wc = g.id, g.vc[g.id]
		s.reads = s.reads[:0]
	} else {
		for len(s.reads) <= g.id {
			s.reads = append(s.reads, 0)
		}
		s.reads[g.id] = g.vc[g.id]
	}
}

// ---- locks ----

type lockState struct {
	w  bool
	r  int
	vc []int
	n  int // waitgroup counter, once state
}

func (in *Interp) lockOf(p *Value) *lockState {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if s, ok := in.side[p].(*lockState); ok {
		return s
	}
	s := &lockState{}
	in.side[p] = s
	return s
}

func (in *Interp) lock(p *Value) {
	s := in.lockOf(p)
	in.sched()
	in.block("lock of a mutex that is never unlocked", func() bool { return !s.w && s.r == 0 })
	s.w = true
	in.journalFn(func() { s.w = false })
	in.acquire(s.vc)
}

func (in *Interp) unlock(p *Value) {
	s := in.lockOf(p)
	if !s.w {
		in.fatal("unlock of unlocked mutex")
	}
	s.w = false
	in.journalFn(func() { s.w = true })
	s.vc = in.release(s.vc)
	in.sched()
}

func (in *Interp) rlock(p *Value) {
	s := in.lockOf(p)
	in.sched()
	in.block("read lock of a mutex that is never unlocked", func() bool { return !s.w })
	s.r++
	in.journalFn(func() { s.r-- })
	in.acquire(s.vc)
}

func (in *Interp) runlock(p *Value) {
	s := in.lockOf(p)
	if s.r <= 0 {
		in.fatal("runlock of unlocked mutex")
	}
	s.r--
	in.journalFn(func() { s.r++ })
	s.vc = in.release(s.vc)
	in.sched()
}

func (in *Interp) fatal(msg string) {
	if in.merging > 0 {
		panic(mergeAbort{"fatal"})
	}
	if !in.replaying() {
		in.violation("panic", "fatal error: "+msg, in.model)
	}
	panic(pathEnd{"violation"})
}

// ---- channels ----

type chanExt struct{ vc []int }

func (in *Interp) chanVC(c *Chan) *lockState {
	if s, ok := in.side[c].(*lockState); ok {
		return s
	}
	s := &lockState{}
	in.side[c] = s
	return s
}

func (c *Chan) canSend() bool {
	return c.closed || len(c.buf) < c.cap || c.cap == 0 && len(c.recvq) > len(c.buf)
}

func (in *Interp) chanSend(c *Chan, v Value) {
	if in.merging > 0 {
		panic(mergeAbort{"channel"})
	}
	if c == nil {
		in.block("send on nil channel", func() bool { return false })
	}
	in.sched()
	in.block("send that is never received", c.canSend)
	if c.closed {
		in.rtPanic("send on closed channel")
	}
	s := in.chanVC(c)
	s.vc = in.release(s.vc)
	in.acquire(s.vc)
	c.buf = append(c.buf, v)
	in.sched()
}

func (in *Interp) chanRecv(c *Chan, et types.Type) (Value, bool) {
	if in.merging > 0 {
		panic(mergeAbort{"channel"})
	}
	if c == nil {
		in.block("receive from nil channel", func() bool { return false })
	}
	in.sched()
	c.recvq = append(c.recvq, &waiter{})
	in.block("receive that nobody sends", func() bool { return len(c.buf) > 0 || c.closed })
	c.recvq = c.recvq[:len(c.recvq)-1]
	s := in.chanVC(c)
	in.acquire(s.vc)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	return in.zero(et), false
}

func (in *Interp) chanClose(c *Chan) {
	if in.merging > 0 {
		panic(mergeAbort{"channel"})
	}
	if c == nil {
		in.rtPanic("close of nil channel")
	}
	if c.closed {
		in.rtPanic("close of closed channel")
	}
	s := in.chanVC(c)
	s.vc = in.release(s.vc)
	c.closed = true
	in.sched()
}

func (in *Interp) selectStmt(fr *frame, ins *ssa.Select) Value {
	if in.merging > 0 {
		panic(mergeAbort{"select"})
	}
	in.sched()
	chans := make([]*Chan, len(ins.States))
	sends := make([]Value, len(ins.States))
	k := 0
	for i, st := range ins.States {
		chans[i] = fr.o(k).(*Chan)
		k++
		if st.Dir == types.SendOnly {
			sends[i] = copyVal(fr.o(k))
		}
		if st.Send != nil || true {
			k++
		}
	}
	// operand order is Chan, Send per state
	readyList := func() (r []int) {
		for i, st := range ins.States {
			c := chans[i]
			if c == nil {
				continue
			}
			if st.Dir == types.SendOnly {
				if c.canSend() {
					r = append(r, i)
				}
			} else if len(c.buf) > 0 || c.closed {
				r = append(r, i)
			}
		}
		return
	}
	rs := readyList()
	pickI := -1
	if len(rs) == 0 && ins.Blocking {
		for i, st := range ins.States {
			if st.Dir == types.RecvOnly && chans[i] != nil {
				chans[i].recvq = append(chans[i].recvq, &waiter{})
			}
		}
		in.block("select with no ready case", func() bool { return len(readyList()) > 0 })
		for i, st := range ins.States {
			if st.Dir == types.RecvOnly && chans[i] != nil {
				chans[i].recvq = chans[i].recvq[:len(chans[i].recvq)-1]
			}
		}
		rs = readyList()
	}
	if len(rs) > 0 {
		pickI = rs[in.choose(len(rs), 's')]
	}
	res := Tuple{in.db.Const(uint64(pickI), 64), in.db.False}
	for i, st := range ins.States {
		if st.Dir != types.RecvOnly {
			continue
		}
		et := st.Chan.Type().Underlying().(*types.Chan).Elem()
		if i == pickI {
			v, ok := in.chanRecv(chans[i], et)
			res[1] = in.db.Bool(ok)
			res = append(res, v)
		} else {
			res = append(res, in.zero(et))
		}
	}
	if pickI >= 0 && ins.States[pickI].Dir == types.SendOnly {
		in.chanSend(chans[pickI], sends[pickI])
	}
	return res
}
