package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	K    byte // 'b' branch, 'i' implied branch, 'c' choice, 'v' concretisation, 'm' merge, 'n' merge given up, 's' schedule
	T    bool
	V    uint64
	Subs [][]Dec
}

type decCtx struct {
	prefix []Dec
	pos    int
	rec    []Dec
	push   func(alt []Dec, m Model)
}

// job is an unexplored path: decisions to replay and a model of its path condition.
type job struct {
	dec   []Dec
	model Model
}

// input is a symbolic input in order of creation.
type input struct {
	name string
	t    *Term
}

// Violation is a counterexample found by the solver.
type Violation struct {
	Label  string            `json:"label"`
	Msg    string            `json:"msg"`
	Where  string            `json:"where"`
	Inputs map[string]uint64 `json:"inputs"`
	// Warm are the runs of the harness that went before in the same process.
	Warm []map[string]uint64 `json:"history,omitempty"`
}

// Obs is an observation of a path, for the comparison with the native run.
type Obs struct {
	label string
	vals  []Value
}

type sample struct {
	Inputs map[string]uint64
	Obs    []string
	Covers []string
}

// Result of exploring one harness.
type Result struct {
	mu         sync.Mutex
	Paths      int
	Infeasible int
	Undecided  map[string]int
	Asserts    int // assertion instances
	Discharged int // decided by the solver
	Trivial    int // true by construction of the terms
	Covers     map[string]int
	Labels     map[string]int // assertion labels reached
	Violations []Violation
	seenViol   map[string]int
	Samples    []sample
	Decisions  int
	Steps      int64
	Funcs      map[string]int
	Queries    int
	NSat       int
	NUnsat     int
	NUnk       int
	SolveTime  time.Duration
	MaxQuery   time.Duration
	SolverErrs []string
	Complete   bool
	Merges     int
	Wall       time.Duration
	Rewrites   int      // distinct rewrites of terms kept as lemmas
	Certified  int      // those the solver proved
	BadRewrite []string // those it refuted
	CertQ      int
	CertTime   time.Duration
	Dirty      int                 // paths that left something in package-level variables
	Warm       []warmCase          // some of them
	Warmed     []map[string]uint64 // the history that was run
	Logic      []string            // sampled obligations for the second solver
}

// Interp is one worker.
type Interp struct {
	eng     *Engine
	db      *TermDB
	sol     *Solver
	infos   map[*ssa.Function]*fnInfo
	globals map[*ssa.Global]*Value
	methods map[mkey]*ssa.Function
	impl    map[ikey]bool
	side    map[interface{}]interface{} // intrinsic state keyed by cell
	frozen  map[*Value]bool             // memory shared with a text by package unsafe

	// path state
	journal   []jent
	pc        []*Term
	known     map[*Term]bool
	trail     []*Term
	model     Model
	ctx       *decCtx
	top       *frame
	steps     int
	stepLimit int
	names     map[string]int
	inputs    []input
	obs       []Obs
	covers    []string
	fnSeen    map[*fnInfo]int
	undec     string
	merging   int
	allocLim  *Term
	ids       int

	// runs of the harness before this one
	base     []interface{} // what package-level variables hold at the start
	baseSide map[interface{}]interface{}
	pinned   map[string]uint64
	warmed   []map[string]uint64

	conc concState
	res  *Result
}

func newInterp(e *Engine) *Interp {
	in := &Interp{eng: e}
	in.reset()
	return in
}

// reset builds fresh terms, solver and package state.
func (in *Interp) reset() {
	if in.sol != nil {
		in.flushSolver()
		in.certify()
		in.sol.Close()
	}
	in.db = NewTermDB()
	in.sol = NewSolver(in.db, in.eng.solver, in.eng.queryMS)
	in.infos = map[*ssa.Function]*fnInfo{}
	in.globals = map[*ssa.Global]*Value{}
	in.methods = map[mkey]*ssa.Function{}
	in.impl = map[ikey]bool{}
	in.fnSeen = map[*fnInfo]int{}
	in.side = map[interface{}]interface{}{}
	in.frozen = nil
	in.known = map[*Term]bool{}
	in.names = map[string]int{}
	in.journal = nil
	in.ctx = &decCtx{}
	in.stepLimit = 1 << 40
	in.base, in.baseSide, in.pinned, in.warmed = nil, nil, nil, nil
	in.conc = concState{}
	for _, p := range in.eng.inits {
		if f := p.Func("init"); f != nil {
			in.callFn(nil, f, nil, nil)
		}
	}
	in.postInit()
	if len(in.side) > 0 {
		in.baseSide = in.side // filled when the packages were initialised
	}
	in.journal = in.journal[:0]
	in.fnSeen = map[*fnInfo]int{}
}

// certify has the solver prove the rewrites of terms done since the last time.
func (in *Interp) certify() {
	ls := in.db.lemmas
	in.db.lemmas = nil
	if in.res == nil || len(ls) == 0 {
		return
	}
	ok, bad, n, d := certify(ls, in.db.bounded, in.eng.solver, in.eng.queryMS, time.Now().Add(in.eng.certTime))
	in.res.mu.Lock()
	in.res.Rewrites += len(ls)
	in.res.Certified += ok
	in.res.BadRewrite = append(in.res.BadRewrite, bad...)
	in.res.CertQ += n
	in.res.CertTime += d
	in.res.mu.Unlock()
}

func (in *Interp) flushSolver() {
	r := in.res
	if r == nil {
		return
	}
	r.mu.Lock()
	r.Queries += in.sol.Queries
	r.NSat += in.sol.NSat
	r.NUnsat += in.sol.NUnsat
	r.NUnk += in.sol.NUnk
	r.SolveTime += in.sol.Time
	if in.sol.MaxT > r.MaxQuery {
		r.MaxQuery = in.sol.MaxT
	}
	r.SolverErrs = append(r.SolverErrs, in.sol.Errs...)
	r.mu.Unlock()
	in.sol.Queries, in.sol.NSat, in.sol.NUnsat, in.sol.NUnk, in.sol.Time, in.sol.Errs = 0, 0, 0, 0, 0, nil
}

// ---- path condition ----

func (in *Interp) learn(c *Term, v bool) {
	if c.op == OBNot {
		c, v = c.args[0], !v
	}
	if c.isC() {
		return
	}
	if _, ok := in.known[c]; !ok {
		in.known[c] = v
		in.trail = append(in.trail, c)
	}
}

func (in *Interp) addPC(c *Term) {
	switch {
	case c.isC():
		return
	case c.op == OBAnd:
		in.addPC(c.args[0])
		in.addPC(c.args[1])
		return
	case c.op == OBNot && c.args[0].op == OBOr:
		in.addPC(in.db.Not(c.args[0].args[0]))
		in.addPC(in.db.Not(c.args[0].args[1]))
		return
	}
	if v, ok := in.lookup(c); ok && v {
		return
	}
	in.pc = append(in.pc, c)
	in.learn(c, true)
}

// check asks the solver; past the harness's deadline the path is given up as undecided.
func (in *Interp) check(pc []*Term, extra *Term) (Res, Model) {
	in.onTime()
	r, m := in.sol.Check(pc, extra, in.eng.deadline)
	if r == Unknown {
		in.onTime()
	}
	return r, m
}

func (in *Interp) onTime() {
	if d := in.eng.deadline; !d.IsZero() && time.Now().After(d) {
		panic(unsupported("time budget used up within a path"))
	}
	if in.eng.noMem.Load() {
		panic(unsupported("memory used up within a path"))
	}
}

func (in *Interp) lookup(c *Term) (bool, bool) {
	if c.op == OBNot {
		v, ok := in.known[c.args[0]]
		return !v, ok
	}
	v, ok := in.known[c]
	return v, ok
}

func (in *Interp) replaying() bool { return in.ctx.pos < len(in.ctx.prefix) }

func (in *Interp) take(kinds string) *Dec {
	d := &in.ctx.prefix[in.ctx.pos]
	if !strings.ContainsRune(kinds, rune(d.K)) {
		panic(fmt.Sprintf("re-execution diverged: decision %q, want %q, at %s", d.K, kinds, in.where()))
	}
	in.ctx.pos++
	in.ctx.rec = append(in.ctx.rec, *d)
	return d
}

func (in *Interp) pushAlt(d Dec, m Model) {
	alt := make([]Dec, len(in.ctx.rec)+1)
	copy(alt, in.ctx.rec)
	alt[len(in.ctx.rec)] = d
	in.ctx.push(alt, m)
}

// branch decides a condition, exploring both sides when both are feasible.
func (in *Interp) branch(c *Term) bool {
	if c.isC() {
		return c.k == 1
	}
	if v, ok := in.lookup(c); ok {
		return v
	}
	if in.replaying() {
		d := in.take("bi")
		if d.K == 'i' {
			in.learn(c, d.T)
		} else if d.T {
			in.addPC(c)
		} else {
			in.addPC(in.db.Not(c))
		}
		return d.T
	}
	v := in.db.Eval(c, in.model) == 1
	this, other := c, in.db.Not(c)
	if !v {
		this, other = other, this
	}
	res, m := in.check(in.pc, other)
	switch res {
	case Unsat:
		in.ctx.rec = append(in.ctx.rec, Dec{K: 'i', T: v})
		in.learn(c, v)
		return v
	case Unknown:
		in.note("solver gave no answer for a branch side")
	default:
		in.pushAlt(Dec{K: 'b', T: !v}, m)
	}
	in.ctx.rec = append(in.ctx.rec, Dec{K: 'b', T: v})
	in.addPC(this)
	return v
}

// concretize splits on the possible values of t.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isC() {
		return t.k
	}
	for n := 0; ; n++ {
		if n > in.eng.maxConc {
			panic(unsupported(fmt.Sprintf("more than %d values of a size or index at %s", in.eng.maxConc, in.where())))
		}
		var v uint64
		if in.replaying() {
			d := in.take("v")
			v = d.V
			e := in.db.Eq(t, in.db.Const(v, t.w))
			if d.T {
				in.addPC(e)
				return v
			}
			in.addPC(in.db.Not(e))
			continue
		}
		v = in.db.Eval(t, in.model)
		e := in.db.Eq(t, in.db.Const(v, t.w))
		if known, ok := in.lookup(e); ok && known || e == in.db.True {
			in.ctx.rec = append(in.ctx.rec, Dec{K: 'v', T: true, V: v})
			return v
		}
		res, m := in.check(in.pc, in.db.Not(e))
		switch res {
		case Sat:
			in.pushAlt(Dec{K: 'v', V: v}, m)
		case Unknown:
			in.note("solver gave no answer while splitting on a size or index")
		}
		in.ctx.rec = append(in.ctx.rec, Dec{K: 'v', T: true, V: v})
		in.addPC(e)
		return v
	}
}

// choose splits n ways without conditions.
func (in *Interp) choose(n int, kind byte) int {
	if n <= 1 {
		return 0
	}
	if in.replaying() {
		return int(in.take(string(kind)).V)
	}
	for i := n - 1; i > 0; i-- {
		in.pushAlt(Dec{K: kind, V: uint64(i)}, in.model)
	}
	in.ctx.rec = append(in.ctx.rec, Dec{K: kind})
	return 0
}

func (in *Interp) assume(c *Term) {
	if c.isC() {
		if c.k == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if in.merging > 0 {
		panic(mergeAbort{"assume"})
	}
	if in.replaying() {
		in.addPC(c)
		return
	}
	if v, ok := in.lookup(c); ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	if in.db.Eval(c, in.model) != 1 {
		res, m := in.check(in.pc, c)
		switch res {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			panic(unsupported("solver gave no answer for an assumption"))
		}
		in.model = m
	}
	in.addPC(c)
}

func (in *Interp) assert(c *Term, label, msg string) {
	if in.merging > 0 {
		panic(mergeAbort{"assert"})
	}
	if in.replaying() {
		// decided when this prefix was first explored; on the paths that continue, it held or was reported
		if !c.isC() {
			in.addPC(c)
		} else if c.k == 0 {
			panic(pathEnd{"violation"})
		}
		return
	}
	r := in.res
	r.mu.Lock()
	r.Asserts++
	r.Labels[label]++
	r.mu.Unlock()
	if c == in.db.True {
		r.mu.Lock()
		r.Trivial++
		r.mu.Unlock()
		return
	}
	if v, ok := in.lookup(c); ok && v {
		r.mu.Lock()
		r.Trivial++
		r.mu.Unlock()
		return
	}
	if in.db.Eval(c, in.model) != 1 {
		in.violation(label, msg, in.model)
		if c == in.db.False {
			panic(pathEnd{"violation"})
		}
		res, m := in.check(in.pc, c)
		if res != Sat {
			panic(pathEnd{"violation"})
		}
		in.model = m
		in.addPC(c)
		return
	}
	res, m := in.check(in.pc, in.db.Not(c))
	switch res {
	case Unsat:
		r.mu.Lock()
		r.Discharged++
		if len(r.Logic) < 400 && in.eng.keepLogic {
			r.Logic = append(r.Logic, in.script(in.db.Not(c)))
		}
		r.mu.Unlock()
		in.addPC(c)
	case Sat:
		in.violation(label, msg, m)
		in.addPC(c)
	default:
		in.note("solver gave no answer for assertion " + label)
		in.addPC(c)
	}
}

// script is a self-contained query, for a second solver.
func (in *Interp) script(extra *Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	seen := map[uint32]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t.op == OConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			def(a)
		}
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", ref(t), sortOf(t.w))
		} else {
			fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), body(t))
		}
	}
	for _, t := range append(append([]*Term(nil), in.pc...), extra) {
		def(t)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(t))
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func (in *Interp) assignment(m Model) map[string]uint64 {
	a := map[string]uint64{}
	for _, i := range in.inputs {
		a[i.name] = in.db.Eval(i.t, m)
	}
	return a
}

func (in *Interp) violation(label, msg string, m Model) {
	r := in.res
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.seenViol[label] >= 4 {
		r.seenViol[label]++
		return
	}
	r.seenViol[label]++
	r.Violations = append(r.Violations, Violation{Label: label, Msg: msg, Where: in.where(), Inputs: in.assignment(m), Warm: in.warmed})
}

// note records that this path is decided only in part.
func (in *Interp) note(s string) {
	if in.merging > 0 {
		panic(mergeAbort{s})
	}
	if in.undec == "" {
		in.undec = s
	}
}

func (in *Interp) fresh(name string, w uint8) (*Term, string) {
	n := in.names[name]
	in.names[name] = n + 1
	full := fmt.Sprintf("%s#%d", name, n)
	if in.pinned != nil {
		if w == 0 {
			return in.db.Bool(in.pinned[full] != 0), full
		}
		return in.db.Const(in.pinned[full], w), full
	}
	return in.db.Var(full, w), full
}

func (in *Interp) addInput(name string, t *Term) { in.inputs = append(in.inputs, input{name, t}) }

// ---- one path ----

// begin sets up the state of a path.
func (in *Interp) begin(j job, push func([]Dec, Model)) {
	in.pc = in.pc[:0]
	for _, t := range in.trail {
		delete(in.known, t)
	}
	in.trail = in.trail[:0]
	in.model = j.model
	in.ctx = &decCtx{prefix: j.dec, push: push}
	in.top = nil
	in.steps = 0
	in.stepLimit = in.eng.stepLimit
	in.names = map[string]int{}
	in.inputs, in.obs, in.covers = nil, nil, nil
	in.undec = ""
	in.merging = 0
	in.allocLim = nil
	in.conc = concState{}
	in.side = map[interface{}]interface{}{}
	in.frozen = nil
}

func (in *Interp) runPath(fn *ssa.Function, j job, push func([]Dec, Model)) {
	in.begin(j, push)
	if in.baseSide != nil {
		in.side = in.warmSide()
	}
	if in.base == nil && in.eng.warm == nil && len(in.eng.owned) > 0 {
		for _, g := range in.eng.owned {
			in.global(g)
		}
		in.base = in.carried()
	}
	mark := len(in.journal)

	end := in.protect(func() { in.runMain(fn) })
	in.killGoroutines()

	r := in.res
	r.mu.Lock()
	r.Decisions += len(in.ctx.rec) - len(j.dec)
	r.Steps += int64(in.steps)
	undecided := func(s string) {
		r.Undecided[s]++
	}
	switch e := end.(type) {
	case nil:
		r.Paths++
		if in.undec != "" {
			undecided(in.undec)
		}
	case pathEnd:
		if e.why == "assume" {
			r.Infeasible++
		} else if e.why == "violation" || e.why == "stop" {
			r.Paths++
		} else {
			undecided(e.why)
		}
	case unsupportedErr:
		undecided(e.what)
	default:
		undecided(fmt.Sprint("internal: ", e))
	}
	for _, c := range in.covers {
		r.Covers[c]++
	}
	nsamp := len(r.Samples)
	paths := r.Paths
	r.mu.Unlock()
	if end == nil && (nsamp < in.eng.maxSamples && (paths < in.eng.maxSamples/2 || paths%in.eng.sampleEvery == 0)) {
		s := sample{Inputs: in.assignment(in.model), Covers: in.covers}
		ok := true
		for _, o := range in.obs {
			line, good := in.renderObs(o)
			if !good {
				ok = false
				break
			}
			s.Obs = append(s.Obs, line)
		}
		if ok {
			r.mu.Lock()
			r.Samples = append(r.Samples, s)
			r.mu.Unlock()
		}
	}
	if end == nil && in.eng.warm == nil {
		in.noteCarried()
	}
	in.undo(mark)
	if in.db.n > 3_000_000 {
		in.collectFuncs()
		in.reset()
		if in.eng.warm != nil {
			in.heat(fn)
		}
	}
}

func (in *Interp) collectFuncs() {
	r := in.res
	r.mu.Lock()
	for i, n := range in.fnSeen {
		if i.repo || strings.Contains(i.name, "amarin/binutils") {
			r.Funcs[i.name] += n
		}
	}
	r.mu.Unlock()
	in.fnSeen = map[*fnInfo]int{}
}

// protect runs f and returns what ended it.
func (in *Interp) protect(f func()) (end interface{}) {
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		if c, ok := p.(crash); ok {
			p = c.p
		}
		switch e := p.(type) {
		case goPanic:
			end = nil
			if in.replaying() {
				end = fmt.Sprint("re-execution diverged: panic ", toS(e.v), e.where)
				return
			}
			in.res.mu.Lock()
			in.res.Asserts++
			in.res.mu.Unlock()
			msg := in.panicText(e)
			in.violation("panic", msg+" at "+e.where, in.model)
			end = pathEnd{"violation"}
		case pathEnd, unsupportedErr:
			end = e
			if pe, ok := p.(pathEnd); ok && pe.why == "step limit" && !in.replaying() {
				in.violation("terminates", fmt.Sprintf("still running after %d instructions", in.stepLimit), in.model)
			}
			if u, ok := e.(unsupportedErr); ok && in.eng.verbose && in.firstTime(u.what) {
				fmt.Fprintln(os.Stderr, "undecided:", u.what, "at", in.where())
			}
		default:
			if in.eng.verbose {
				fmt.Fprintln(os.Stderr, "internal error:", p, in.where(), string(debug.Stack()))
			}
			end = fmt.Sprint(p, " at ", in.where())
		}
	}()
	f()
	return nil
}

func (in *Interp) panicText(e goPanic) string {
	if i, ok := e.v.(Iface); ok {
		if s, ok := i.v.(string); ok {
			return s
		}
		if i.t != nil {
			return i.t.String()
		}
	}
	return "panic"
}

// ---- exploring one harness ----

type queue struct {
	mu   sync.Mutex
	cond *sync.Cond
	jobs [][]job // per worker stacks
	busy int
	stop bool
}

// maxMemory is how much the exploration of a harness may take before it is given up.
const maxMemory = 22 << 30

func (e *Engine) Explore(fn *ssa.Function, budget time.Duration) *Result {
	res := &Result{Undecided: map[string]int{}, Covers: map[string]int{}, Labels: map[string]int{},
		seenViol: map[string]int{}, Funcs: map[string]int{}}
	t0 := time.Now()
	q := &queue{jobs: make([][]job, len(e.workers))}
	q.cond = sync.NewCond(&q.mu)
	q.jobs[0] = []job{{model: Model{}}}
	e.deadline = t0.Add(budget + 2*time.Second)
	timer := time.AfterFunc(budget, func() {
		q.mu.Lock()
		q.stop = true
		q.mu.Unlock()
		q.cond.Broadcast()
	})
	defer timer.Stop()
	// a harness which takes too much memory is given up, not the whole check
	e.noMem.Store(false)
	done := make(chan bool)
	defer close(done)
	go func() {
		m := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
		for {
			select {
			case <-done:
				return
			case <-time.After(100 * time.Millisecond):
			}
			metrics.Read(m)
			if m[0].Value.Uint64()-m[1].Value.Uint64() > maxMemory {
				e.noMem.Store(true)
				q.mu.Lock()
				q.stop = true
				q.mu.Unlock()
				q.cond.Broadcast()
			}
		}
	}()
	var wg sync.WaitGroup
	complete := true
	for w := range e.workers {
		if e.maxWorkers > 0 && w >= e.maxWorkers {
			break
		}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			in := e.workers[w]
			in.res = res
			if e.warm != nil {
				in.reset()
				in.heat(fn)
				res.mu.Lock()
				res.Warmed = in.warmed
				res.mu.Unlock()
			}
			for {
				q.mu.Lock()
				var j job
				got := false
				for !got {
					if q.stop {
						break
					}
					if n := len(q.jobs[w]); n > 0 {
						j = q.jobs[w][n-1]
						q.jobs[w] = q.jobs[w][:n-1]
						got = true
						break
					}
					// steal the oldest job of the fullest stack
					best := -1
					for i := range q.jobs {
						if len(q.jobs[i]) > 0 && (best < 0 || len(q.jobs[i]) > len(q.jobs[best])) {
							best = i
						}
					}
					if best >= 0 {
						j = q.jobs[best][0]
						q.jobs[best] = q.jobs[best][1:]
						got = true
						break
					}
					if q.busy == 0 {
						q.stop = true
						q.cond.Broadcast()
						break
					}
					q.cond.Wait()
				}
				if !got {
					for i := range q.jobs {
						if len(q.jobs[i]) > 0 {
							complete = false
						}
					}
					q.mu.Unlock()
					break
				}
				q.busy++
				q.mu.Unlock()
				in.runPath(fn, j, func(alt []Dec, m Model) {
					q.mu.Lock()
					q.jobs[w] = append(q.jobs[w], job{alt, m})
					q.mu.Unlock()
					q.cond.Signal()
				})
				q.mu.Lock()
				q.busy--
				res.mu.Lock()
				if len(res.Violations) >= e.maxViol {
					q.stop = true
				}
				res.mu.Unlock()
				if q.busy == 0 {
					q.cond.Broadcast()
				}
				q.mu.Unlock()
			}
			in.collectFuncs()
			in.flushSolver()
			in.certify()
		}(w)
	}
	wg.Wait()
	for i := range q.jobs {
		if len(q.jobs[i]) > 0 {
			complete = false
		}
	}
	e.deadline = time.Time{}
	res.Complete = complete
	res.Wall = time.Since(t0)
	return res
}

// ---- merging ----

type mergeAbort struct{ why string }

// mergeable reports whether calls of fn are summarised into one value instead of splitting the path: the function
// and everything it calls only reads memory and returns scalars.
func (in *Interp) mergeable(i *fnInfo) bool {
	if i.pure == 0 {
		i.pure = -1
		if in.eng.merge && in.eng.isPure(i.fn) {
			i.pure = 1
		}
	}
	return i.pure == 1
}

func (in *Interp) mergeCall(caller *frame, info *fnInfo, args, env []Value) (Value, bool) {
	any := false
	for _, a := range args {
		if in.hasSym(a, 0) {
			any = true
			break
		}
	}
	if !any {
		return nil, false
	}
	return in.mergeRegion(func() Value { return in.run(caller, info, args, env) })
}

// hasSym is a shallow test for symbolic content reachable from v.
func (in *Interp) hasSym(v Value, depth int) bool {
	if depth > 3 {
		return true
	}
	switch x := v.(type) {
	case *Term:
		return !x.isC()
	case *SymStr, *SymPtr:
		return true
	case Struct:
		for _, e := range x {
			if in.hasSym(e, depth+1) {
				return true
			}
		}
	case Array:
		for _, e := range x {
			if in.hasSym(e, depth+1) {
				return true
			}
		}
	case Slice:
		if x.symbolic() {
			return true
		}
		for i := 0; i < x.n && i < 64; i++ {
			if in.hasSym(*x.arr.at(in, x.off+i), depth+1) {
				return true
			}
		}
	case *Value:
		if x != nil {
			return in.hasSym(*x, depth+1)
		}
	case Iface:
		if x.t != nil {
			return in.hasSym(x.v, depth+1)
		}
	case *Map:
		if x != nil {
			for _, e := range x.ents {
				if in.hasSym(e.k, depth+1) || in.hasSym(e.v, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

type leaf struct {
	cond  *Term
	val   Value
	cells map[*Value]Value
}

// mergeRegion runs f over all its feasible outcomes from the present state and joins the results (and the cells
// written) with if-then-else terms. ok=false: not joinable, nothing has changed.
func (in *Interp) mergeRegion(f func() Value) (Value, bool) {
	if in.conc.active() {
		return nil, false
	}
	outer := in.ctx
	replay := in.replaying()
	var todo []job
	if replay {
		d := in.take("mn")
		if d.K == 'n' {
			return nil, false
		}
		for i := len(d.Subs) - 1; i >= 0; i-- {
			todo = append(todo, job{dec: d.Subs[i]})
		}
	} else {
		todo = []job{{model: in.model}}
	}
	savedModel, savedTop := in.model, in.top
	pcN, trN, mark := len(in.pc), len(in.trail), len(in.journal)
	var leaves []leaf
	var subs [][]Dec
	in.merging++
	restore := func() {
		in.undo(mark)
		in.pc = in.pc[:pcN]
		for _, t := range in.trail[trN:] {
			delete(in.known, t)
		}
		in.trail = in.trail[:trN]
		in.top = savedTop
	}
	aborted := ""
	for len(todo) > 0 && aborted == "" {
		j := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		in.ctx = &decCtx{prefix: j.dec, push: func(alt []Dec, m Model) { todo = append(todo, job{alt, m}) }}
		if !replay {
			in.model = j.model
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					switch e := p.(type) {
					case goPanic:
						aborted = "panic"
					case mergeAbort:
						aborted = e.why
					case unsupportedErr:
						aborted = e.what
					default:
						panic(p)
					}
				}
			}()
			v := f()
			l := leaf{cond: in.db.True, val: v}
			for _, c := range in.pc[pcN:] {
				l.cond = in.db.And(l.cond, c)
			}
			for i := mark; i < len(in.journal); i++ {
				e := &in.journal[i]
				if e.fn != nil {
					aborted = "non-scalar state change"
					return
				}
				if l.cells == nil {
					l.cells = map[*Value]Value{}
				}
				l.cells[e.addr] = *e.addr
			}
			leaves = append(leaves, l)
			subs = append(subs, in.ctx.rec)
		}()
		if len(leaves) > in.eng.maxLeaves {
			aborted = "too many outcomes"
		}
		restore()
	}
	in.merging--
	in.ctx = outer
	in.model = savedModel
	var v Value
	type cellVal struct {
		p *Value
		v Value
	}
	var writes []cellVal
	if aborted == "" {
		// join
		var ok bool
		vals := make([]Value, len(leaves))
		for i := range leaves {
			vals[i] = leaves[i].val
		}
		v, ok = in.join(leaves, vals)
		if !ok {
			aborted = "results not joinable"
		} else {
			seen := map[*Value]bool{}
			for _, l := range leaves {
				for p := range l.cells {
					if seen[p] {
						continue
					}
					seen[p] = true
					for i := range leaves {
						if x, has := leaves[i].cells[p]; has {
							vals[i] = x
						} else {
							vals[i] = *p
						}
					}
					jv, ok := in.join(leaves, vals)
					if !ok {
						aborted = "state not joinable"
						break
					}
					writes = append(writes, cellVal{p, jv})
				}
				if aborted != "" {
					break
				}
			}
		}
	}
	if aborted != "" {
		if in.merging > 0 {
			// an enclosing merge: let it fall back to splitting inside
		}
		if !replay {
			in.ctx.rec = append(in.ctx.rec, Dec{K: 'n'})
		} else {
			panic("re-execution diverged: merge failed on replay: " + aborted)
		}
		return nil, false
	}
	for _, w := range writes {
		in.setCell(w.p, w.v)
	}
	if !replay {
		in.ctx.rec = append(in.ctx.rec, Dec{K: 'm', Subs: subs})
		in.res.mu.Lock()
		in.res.Merges++
		in.res.mu.Unlock()
	}
	return v, true
}

// join combines one value per leaf.
func (in *Interp) join(ls []leaf, vals []Value) (Value, bool) {
	same := true
	for _, v := range vals[1:] {
		if !in.sameVal(v, vals[0]) {
			same = false
			break
		}
	}
	if same {
		return vals[0], true
	}
	switch x := vals[0].(type) {
	case *Term:
		r, ok := vals[len(vals)-1].(*Term)
		if !ok {
			return nil, false
		}
		for i := len(vals) - 2; i >= 0; i-- {
			t, ok := vals[i].(*Term)
			if !ok || t.w != r.w {
				return nil, false
			}
			r = in.db.Ite(ls[i].cond, t, r)
		}
		return r, true
	case Tuple:
		r := make(Tuple, len(x))
		sub := make([]Value, len(vals))
		for k := range x {
			for i := range vals {
				t, ok := vals[i].(Tuple)
				if !ok {
					return nil, false
				}
				sub[i] = t[k]
			}
			v, ok := in.join(ls, sub)
			if !ok {
				return nil, false
			}
			r[k] = v
		}
		return r, true
	case Struct:
		r := make(Struct, len(x))
		sub := make([]Value, len(vals))
		for k := range x {
			for i := range vals {
				t, ok := vals[i].(Struct)
				if !ok || len(t) != len(x) {
					return nil, false
				}
				sub[i] = t[k]
			}
			v, ok := in.join(ls, sub)
			if !ok {
				return nil, false
			}
			r[k] = v
		}
		return r, true
	}
	return nil, false
}

func (in *Interp) sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		return x == b
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *Value, *ssa.Function, *Map, *Chan, *Opaque, *SymStr:
		return a == b
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		return x.t == nil || identical(x.t, y.t) && in.sameVal(x.v, y.v)
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !in.sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !in.sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !in.sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// isPure: no stores outside its own frame, no allocation that escapes, scalar results, only pure callees.
func (e *Engine) isPure(fn *ssa.Function) bool {
	e.pureMu.Lock()
	defer e.pureMu.Unlock()
	return e.pureRec(fn, map[*ssa.Function]bool{}, 0)
}

func (e *Engine) pureRec(fn *ssa.Function, busy map[*ssa.Function]bool, depth int) bool {
	if v, ok := e.pure[fn]; ok {
		return v
	}
	if busy[fn] || depth > 6 || len(fn.Blocks) == 0 || fn.Recover != nil {
		return false
	}
	if lookupIntrinsic(fn) != nil {
		return false
	}
	busy[fn] = true
	defer delete(busy, fn)
	ok := true
	res := fn.Signature.Results()
	if res.Len() == 0 {
		ok = false
	}
	for i := 0; i < res.Len(); i++ {
		if _, _, is := width(res.At(i).Type()); !is {
			ok = false
		}
	}
	branches := len(fn.Blocks) > 1
	for _, b := range fn.Blocks {
		if !ok {
			break
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.MakeChan, *ssa.Select,
				*ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Panic, *ssa.Range, *ssa.Next, *ssa.MakeInterface:
				ok = false
			case *ssa.Alloc:
				ok = false
			case *ssa.Call:
				if x.Call.IsInvoke() {
					ok = false
					break
				}
				switch c := x.Call.Value.(type) {
				case *ssa.Function:
					if !e.pureRec(c, busy, depth+1) && !e.straight(c) {
						ok = false
					}
				case *ssa.Builtin:
					switch c.Name() {
					case "len", "cap", "min", "max":
					default:
						ok = false
					}
				default:
					ok = false
				}
			}
			if !ok {
				break
			}
		}
	}
	_ = branches
	e.pure[fn] = ok
	return ok
}

func (e *Engine) straight(fn *ssa.Function) bool { return false }

// ---- helpers ----

func sortedKeys(m map[string]int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = types.Identical

var shownMu sync.Mutex
var shown = map[string]bool{}

// firstTime limits the verbose output to one line per reason.
func (in *Interp) firstTime(what string) bool {
	shownMu.Lock()
	defer shownMu.Unlock()
	if shown[what] {
		return false
	}
	shown[what] = true
	return true
}
