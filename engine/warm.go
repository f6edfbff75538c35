package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A path starts from freshly initialised packages. Where the code under test keeps something in package-level variables
// (a cache, a pool), what a path leaves there is seen by whatever the process does next: such a harness is explored a
// second time, from the state that a history of its own runs leaves behind.

// warmRuns is how many runs make up the history.
const warmRuns = 3

// ownGlobals are the package-level variables of the code under test.
func (e *Engine) ownGlobals() []*ssa.Global {
	var gs []*ssa.Global
	for _, p := range e.prog.AllPackages() {
		path := p.Pkg.Path()
		if path != e.modPath && !strings.HasPrefix(path, e.modPath+"/") {
			continue
		}
		if strings.HasPrefix(path, e.modPath+"/"+harnessDir+"/") {
			continue
		}
		for n, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && n != "init$guard" {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].RelString(nil) < gs[j].RelString(nil) })
	return gs
}

// carried lists what is reachable from the package-level variables.
func (in *Interp) carried() []interface{} {
	var toks []interface{}
	seen := map[interface{}]bool{}
	first := func(p interface{}) bool {
		toks = append(toks, p)
		if seen[p] || len(toks) > 100000 {
			return false
		}
		seen[p] = true
		return true
	}
	var walk func(v Value)
	var cell func(p *Value)
	walk = func(v Value) {
		switch v := v.(type) {
		case Struct:
			for i := range v {
				cell(&v[i])
			}
		case Array:
			for i := range v {
				cell(&v[i])
			}
		case Tuple:
			for i := range v {
				walk(v[i])
			}
		case *Value:
			if v != nil && first(v) {
				cell(v)
			}
		case *SymPtr:
			if v != nil && first(v) {
				for _, c := range v.cells {
					cell(c)
				}
			}
		case Slice:
			toks = append(toks, v.off, v.n, v.c)
			if v.arr != nil && first(v.arr) {
				for i := range v.arr.cells {
					cell(&v.arr.cells[i])
				}
				toks = append(toks, len(v.arr.sparse))
			}
		case *Map:
			if v != nil && first(v) {
				toks = append(toks, v.live)
				for _, e := range v.ents {
					if !e.dead {
						walk(e.k)
						walk(e.v)
					}
				}
			}
		case *syncEnt:
			if v != nil {
				walk(v.v)
			}
		case Iface:
			toks = append(toks, v.t != nil)
			walk(v.v)
		case *Closure:
			if v != nil && first(v) {
				for _, x := range v.env {
					walk(x)
				}
			}
		case *Chan:
			if v != nil && first(v) {
				toks = append(toks, v.closed)
				for _, x := range v.buf {
					walk(x)
				}
			}
		case SymStr:
			for _, t := range v.b {
				toks = append(toks, t)
			}
		case *SymStr:
			if v != nil {
				for _, t := range v.b {
					toks = append(toks, t)
				}
			}
		case *Term, string, bool, Opaque, *ssa.Function:
			toks = append(toks, v)
		default:
			toks = append(toks, fmt.Sprintf("%T", v))
		}
	}
	cell = func(p *Value) {
		if m, ok := in.side[syncMapKey{p}].(*Map); ok {
			walk(m)
		}
		if l, ok := in.side[poolKey{p}].([]*syncEnt); ok {
			toks = append(toks, len(l))
			for _, e := range l {
				walk(e)
			}
		}
		if s, ok := in.side[p].(*lockState); ok && (s.w || s.r > 0 || s.n > 0) {
			toks = append(toks, s.w, s.r, s.n)
		}
		walk(*p)
	}
	for _, g := range in.eng.owned {
		if p := in.globals[g]; p != nil {
			toks = append(toks, g)
			cell(p)
		}
	}
	return toks
}

func sameToks(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// noteCarried keeps the inputs of a path that left something behind.
func (in *Interp) noteCarried() {
	if len(in.eng.owned) == 0 {
		return
	}
	now := in.carried()
	if sameToks(now, in.base) {
		return
	}
	r := in.res
	a := in.assignment(in.model)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Dirty++
	// the first ones, and those which leave the most
	w := warmCase{inputs: a, size: len(now)}
	if len(r.Warm) < warmRuns {
		r.Warm = append(r.Warm, w)
		return
	}
	least := 1
	for i := 1; i < len(r.Warm); i++ {
		if r.Warm[i].size < r.Warm[least].size {
			least = i
		}
	}
	if w.size > r.Warm[least].size {
		r.Warm[least] = w
	}
}

type warmCase struct {
	inputs map[string]uint64
	size   int
}

// heat runs the history of the engine in this worker: the state it leaves is where paths start from.
func (in *Interp) heat(fn *ssa.Function) {
	in.side = map[interface{}]interface{}{}
	in.warmed = nil
	for _, w := range in.eng.warm {
		in.pinned = w
		in.begin(job{model: Model{}}, func([]Dec, Model) {})
		for k, v := range in.warmSide() {
			in.side[k] = v
		}
		mark := len(in.journal)
		var end interface{}
		func() {
			defer func() { in.pinned = nil }()
			end = in.protect(func() { in.runMain(fn) })
			in.killGoroutines()
		}()
		if end != nil {
			in.undo(mark)
			continue
		}
		side := in.side
		if why := in.protect(in.resetHooks); why != nil {
			in.undo(mark)
			continue
		}
		in.journal = in.journal[:0]
		in.baseSide = side
		in.warmed = append(in.warmed, w)
	}
	in.base = nil
}

// warmSide is a copy of what the history left in locks, pools and concurrent maps.
func (in *Interp) warmSide() map[interface{}]interface{} {
	c := map[interface{}]interface{}{}
	ent := func(e *syncEnt) *syncEnt {
		if e == nil {
			return nil
		}
		return &syncEnt{v: e.v}
	}
	for k, v := range in.baseSide {
		switch v := v.(type) {
		case *lockState:
			if v.w || v.r > 0 || v.n > 0 {
				c[k] = &lockState{w: v.w, r: v.r, n: v.n}
			}
		case *Map:
			m := newMap(v.kt, v.vt)
			m.nsym, m.live = v.nsym, v.live
			at := map[*mapEntry]*mapEntry{}
			for _, e := range v.ents {
				n := &mapEntry{k: e.k, v: e.v, dead: e.dead}
				if s, ok := e.v.(*syncEnt); ok {
					n.v = ent(s)
				}
				at[e] = n
				m.ents = append(m.ents, n)
			}
			for s, e := range v.idx {
				m.idx[s] = at[e]
			}
			c[k] = m
		case []*syncEnt:
			l := make([]*syncEnt, len(v))
			for i := range v {
				l[i] = ent(v[i])
			}
			c[k] = l
		}
	}
	return c
}

// resetHooks restores the stand-in environment, as the native driver does before each run.
func (in *Interp) resetHooks() {
	p := in.eng.symPkg
	if p == nil {
		return
	}
	g, ok := p.Members["Reset"].(*ssa.Global)
	if !ok {
		return
	}
	s, ok := (*in.global(g)).(Slice)
	if !ok {
		return
	}
	for i := 0; i < s.n; i++ {
		in.call(nil, *s.arr.at(in, s.off+i), nil)
	}
}

// add takes in what a second exploration of the harness did.
func (r *Result) add(o *Result) {
	r.Paths += o.Paths
	r.Infeasible += o.Infeasible
	for k, v := range o.Undecided {
		r.Undecided["after other runs: "+k] += v
	}
	r.Asserts += o.Asserts
	r.Discharged += o.Discharged
	r.Trivial += o.Trivial
	for k, v := range o.Covers {
		r.Covers[k] += v
	}
	for k, v := range o.Labels {
		r.Labels[k] += v
	}
	r.Violations = append(r.Violations, o.Violations...)
	r.Decisions += o.Decisions
	r.Steps += o.Steps
	for k, v := range o.Funcs {
		r.Funcs[k] += v
	}
	r.Queries += o.Queries
	r.NSat += o.NSat
	r.NUnsat += o.NUnsat
	r.NUnk += o.NUnk
	r.SolveTime += o.SolveTime
	if o.MaxQuery > r.MaxQuery {
		r.MaxQuery = o.MaxQuery
	}
	r.SolverErrs = append(r.SolverErrs, o.SolverErrs...)
	r.Complete = r.Complete && o.Complete
	r.Merges += o.Merges
	r.Wall += o.Wall
	r.Rewrites += o.Rewrites
	r.Certified += o.Certified
	r.BadRewrite = append(r.BadRewrite, o.BadRewrite...)
	r.CertQ += o.CertQ
	r.CertTime += o.CertTime
	r.Logic = append(r.Logic, o.Logic...)
}
