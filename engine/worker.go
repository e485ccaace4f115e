package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Worker runs paths. Everything it owns is private to it.
type Worker struct {
	varPool   map[string]*Var
	eng       *Engine
	bp        *bitsPool
	fp        *formPool
	sol       *Solver
	ntab      int
	tabSize   int
	lastReset time.Time
	tids      map[types.Type]string

	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]*Cell
	inited  map[*ssa.Package]bool
	initing bool
	undo    []func()
	dirty   bool // a pre-existing (global) location was written on this path

	// path state
	vars    []*Var
	doms    []*Bits
	resid   []*Form
	dec     []byte
	pos     int
	pending [][]byte
	steps   int64
	maxStep int64
	depth   int
	maxDep  int

	epoch     uint32
	floor     uint32
	callFloor uint32
	scope     *scope
	inMemo    int
	memo      map[string]*memoEnt
	feasMemo  map[string]byte
	prodMemo  map[string]*Form

	trackShared  bool
	shared       []sharedEv
	locks        []lockRef
	maxSplit     int
	truncated    int
	curFn        *Fn
	lastPos      string
	folded       int
	asserts      int
	cacheHits    int
	setHits      int
	memoHits     int
	used         map[string]bool
	cands        []cand
	memoAll      map[string]*Tab
	mcache       map[string]*ssa.Function
	tmap         map[string]V
	branches     int
	objSeq       int
	failStop     bool
	recoverStack []*Frame
	initOf       *ssa.Package
	hooked       int
	reCache      map[string]*regexp.Regexp
	syncWrites   int
	reach        map[string]int
	dialect      int
	allSteps     int64
	curInit      *ssa.Package
	obl          []*Form
	excl         []pathRec
	second       bool
	raceMemo     map[string]string
	races        int
	witness      bool
	wantWit      bool
	discharged   int
	oblPaths     int
	identPaths   int
}

// lockRef is a held lock; shared means held for reading.
type lockRef struct {
	c      *Cell
	shared bool
}

type sharedEv struct {
	cell   any
	write  bool
	second bool
	locks  []lockRef
	where  string
}

type scope struct {
	floor  uint32
	dec    []byte
	forms  []*Form
	pos    int
	pend   [][]byte
	parent *scope
	memo   bool
	max    int // local paths before the call is given up
	hit    bool
}

type memoEnt struct {
	abort bool
	outs  []outcome
	slice bool
	lift  *liftFn
}

type outcome struct {
	pc    *Form
	res   V
	panic string
	isP   bool
}

// control-flow panics
type pathEnd struct{ why string }
type goPanic struct {
	v   V
	msg string
}
type scopeAbort struct{ s *scope }
type limitHit struct{ what string }
type unsup struct{ what string }

func (w *Worker) unsupported(s string)  { panic(unsup{s}) }
func (w *Worker) endPath(why string)    { panic(pathEnd{why}) }
func (w *Worker) goPanic(msg string)    { panic(goPanic{V{o: &Iface{w.eng.runtimeErr, vStr(msg)}}, msg}) }
func (w *Worker) abortScope(why string) { panic(scopeAbort{w.scope}) }

func newWorker(e *Engine) *Worker {
	w := &Worker{eng: e, bp: newBitsPool(), fp: newFormPool(), sol: newSolver(e.z3), tids: map[types.Type]string{},
		fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Cell{}, inited: map[*ssa.Package]bool{},
		memo: map[string]*memoEnt{}, feasMemo: map[string]byte{}, used: map[string]bool{}, maxSplit: 160, maxStep: 4000000, maxDep: 6000,
		mcache: map[string]*ssa.Function{}, tmap: map[string]V{}, reCache: map[string]*regexp.Regexp{}, reach: map[string]int{}}
	return w
}

func (w *Worker) dom(v *Var) *Bits { return w.doms[v.id] }

// newVar declares a symbolic input.
func (w *Worker) newVar(d *Domain) *Var {
	id := len(w.vars)
	k := strconv.Itoa(id) + "|" + d.name
	v := w.varPool[k]
	if v == nil {
		// one object per position and domain: merged results of earlier paths refer to it
		v = &Var{uid: len(w.varPool), id: id, dom: d, name: "v" + strconv.Itoa(id) + "n" + strconv.Itoa(len(d.vals))}
		if w.varPool == nil {
			w.varPool = map[string]*Var{}
		}
		w.varPool[k] = v
	}
	w.vars = append(w.vars, v)
	w.doms = append(w.doms, w.bp.full(len(d.vals)))
	return v
}

func (w *Worker) rootTab(d *Domain) *Tab {
	if t, ok := w.memoAll[d.name]; ok {
		return t
	}
	t := w.newTab(len(d.vals), func(i int) (V, bool) { return vStr(d.vals[i]), false })
	if w.memoAll == nil {
		w.memoAll = map[string]*Tab{}
	}
	w.memoAll[d.name] = t
	return t
}

// ---------------------------------------------------------------- constraints

// assume adds a formula to the path condition. It returns false if that is contradictory by domains.
func (w *Worker) assume(f *Form) bool {
	switch f.k {
	case fTrue:
		return true
	case fFalse:
		return false
	case fLit:
		d := w.bp.inter(w.doms[f.v.id], f.set)
		if d == w.doms[f.v.id] {
			return true
		}
		w.doms[f.v.id] = d
		if d.cnt == 0 {
			return false
		}
		return w.propagate()
	case fAnd:
		for _, k := range f.kids {
			if !w.assume(k) {
				return false
			}
		}
		return true
	}
	w.resid = append(w.resid[:len(w.resid):len(w.resid)], f)
	return true
}

func (w *Worker) propagate() bool {
	if len(w.resid) == 0 {
		return true
	}
	rs := w.resid
	var keep []*Form
	var units []*Form
	changed := false
	for _, f := range rs {
		g := w.simp(f)
		if g == w.fp.F {
			return false
		}
		if g != f {
			changed = true
		}
		if g == w.fp.T {
			continue
		}
		if g.k == fOr {
			keep = append(keep, g)
		} else {
			units = append(units, g)
		}
	}
	if !changed {
		return true
	}
	w.resid = keep
	for _, u := range units {
		if !w.assume(u) {
			return false
		}
	}
	return true
}

// pc returns the path condition as a list of formulas.
func (w *Worker) pc() []*Form {
	var out []*Form
	for i, d := range w.doms {
		if d.cnt != d.n {
			out = append(out, w.lit(w.vars[i], d))
			if d.cnt == 0 {
				out = append(out, w.fp.F)
			}
		}
	}
	return append(out, w.resid...)
}

// feasible asks the solver whether the path condition and f can hold together.
func (w *Worker) feasible(f *Form) bool {
	var rel []*Form
	// relevant part of the path condition: variables of f, closed under residual constraints
	need := map[int]bool{}
	for _, v := range f.vars {
		need[v.id] = true
	}
	used := make([]bool, len(w.resid))
	for ch := true; ch; {
		ch = false
		for i, r := range w.resid {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range r.vars {
				if need[v.id] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, v := range r.vars {
					need[v.id] = true
				}
			}
		}
	}
	if f.k == fLit {
		free := true
		for _, u := range used {
			free = free && !u
		}
		if free {
			// one variable: a question about sets; the verdict on the scenario still goes to the solver
			w.setHits++
			return w.bp.inter(w.doms[f.v.id], f.set).cnt > 0
		}
	}
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(f.id))
	for i := range w.vars {
		if need[i] {
			sb.WriteString("|" + strconv.Itoa(i) + ":" + strconv.Itoa(w.doms[i].id))
			if d := w.doms[i]; d.cnt != d.n {
				if d.cnt == 0 {
					return false
				}
				rel = append(rel, w.lit(w.vars[i], d))
			}
		}
	}
	for i, r := range w.resid {
		if used[i] {
			sb.WriteString("&" + strconv.Itoa(r.id))
			rel = append(rel, r)
		}
	}
	k := sb.String()
	if r, ok := w.feasMemo[k]; ok {
		w.cacheHits++
		return r == 1
	}
	res, _ := w.sol.query(append(rel, f), nil)
	r := byte(1)
	if res == "unsat" {
		r = 0
	}
	w.feasMemo[k] = r
	return r == 1
}

// branch decides a condition: the other side becomes a pending path.
func (w *Worker) branch(f *Form) bool {
	f = w.simp(f)
	if f == w.fp.T {
		return true
	}
	if f == w.fp.F {
		return false
	}
	w.branches++
	if s := w.scope; s != nil {
		var d byte = 1
		if s.pos < len(s.dec) {
			d = s.dec[s.pos]
		} else {
			alt := append(append([]byte{}, s.dec...), 0)
			s.pend = append(s.pend, alt)
			s.dec = append(s.dec, 1)
			if len(s.pend) > 4000 {
				w.abortScope("too many")
			}
			if s.max > 0 && len(s.dec) > 4*s.max {
				s.hit = true
				w.abortScope("too deep")
			}
		}
		s.pos++
		g := f
		if d == 0 {
			g = w.not(f)
		}
		s.forms = append(s.forms, g)
		if !w.assume(g) {
			w.endPath("infeasible")
		}
		return d == 1
	}
	if w.pos < len(w.dec) {
		d := w.dec[w.pos]
		w.pos++
		g := f
		if d&1 == 0 {
			g = w.not(f)
		}
		if !w.assume(g) {
			w.endPath("infeasible")
		}
		return d&1 == 1
	}
	nf := w.not(f)
	t := w.feasible(f)
	n := w.feasible(nf)
	switch {
	case t && n:
		w.pending = append(w.pending, append(append(make([]byte, 0, len(w.dec)+1), w.dec...), 0))
		w.dec = append(w.dec, 1)
		w.pos++
		if !w.assume(f) {
			w.endPath("infeasible")
		}
		return true
	case t:
		w.dec = append(w.dec, 3)
		w.pos++
		w.assume(f)
		return true
	case n:
		w.dec = append(w.dec, 2)
		w.pos++
		w.assume(nf)
		return false
	}
	w.endPath("infeasible")
	return false
}

func (w *Worker) truth(v V) bool {
	switch x := v.o.(type) {
	case nil:
		return v.n != 0
	case *Form:
		return w.branch(x)
	}
	return w.concretize(v).n != 0
}

// form returns a boolean value as a formula.
func (w *Worker) form(v V) *Form {
	switch x := v.o.(type) {
	case nil:
		if v.n != 0 {
			return w.fp.T
		}
		return w.fp.F
	case *Form:
		return x
	case *Sym:
		return w.lit(x.v, x.t.setOf(w, "n1"))
	case *Term:
		f, ok := w.productForm("true", []V{v}, func(c []V) bool { return c[0].n != 0 })
		if ok {
			return f
		}
	}
	if w.truth(v) {
		return w.fp.T
	}
	return w.fp.F
}

// ---------------------------------------------------------------- merged calls

type snapshot struct {
	doms  []*Bits
	resid []*Form
	epoch uint32
	floor uint32
	depth int
	cur   *Fn
	nlock int
}

func (w *Worker) snap() snapshot {
	return snapshot{append([]*Bits{}, w.doms...), w.resid, w.epoch, w.floor, w.depth, w.curFn, len(w.locks)}
}

func (w *Worker) restore(s snapshot) {
	w.doms = append(w.doms[:0:0], s.doms...)
	w.resid = s.resid
	w.floor = s.floor
	w.depth = s.depth
	w.curFn = s.cur
	w.locks = w.locks[:s.nlock]
}

// runScope executes a call on all of its local paths; ok=false if it cannot be merged.
func (w *Worker) runScope(f *Fn, args []V, env []V, memo bool) (outs []outcome, ok bool) {
	outs, ok, _ = w.runScopeMax(f, args, env, memo, 0)
	return
}

// runScopeMax gives up after max local paths (hit).
func (w *Worker) runScopeMax(f *Fn, args []V, env []V, memo bool, max int) (outs []outcome, ok, hit bool) {
	sn := w.snap()
	parent := w.scope
	s := &scope{parent: parent, memo: memo, max: max}
	if memo {
		w.inMemo++
		for i := range w.doms {
			w.doms[i] = w.bp.full(w.doms[i].n)
		}
		w.resid = nil
	}
	base := w.snap()
	defer func() {
		w.scope = parent
		w.restore(sn)
		if memo {
			w.inMemo--
		}
	}()
	work := [][]byte{nil}
	paths := 0
	for len(work) > 0 {
		dec := work[len(work)-1]
		work = work[:len(work)-1]
		w.restore(base)
		w.epoch++
		s.floor = w.epoch
		w.floor = w.epoch
		s.dec = append([]byte{}, dec...)
		s.pos = 0
		s.forms = s.forms[:0]
		s.pend = nil
		w.scope = s
		out, fin := w.runOne(f, args, env, s)
		if !fin {
			return nil, false, s.hit
		}
		work = append(work, s.pend...)
		if out != nil {
			out.pc = w.and(append([]*Form{}, s.forms...)...)
			if out.pc != w.fp.F {
				outs = append(outs, *out)
			}
		}
		paths++
		if max > 0 && paths+len(work) > max {
			return nil, false, true
		}
		if paths > 3000 {
			return nil, false, false
		}
	}
	return outs, true, false
}

func (w *Worker) runOne(f *Fn, args, env []V, s *scope) (out *outcome, fin bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				out, fin = nil, true
			case goPanic:
				out, fin = &outcome{panic: x.msg, isP: true, res: x.v}, true
			case scopeAbort:
				if x.s != s && x.s != nil {
					// an inner scope was already gone: treat as ours
				}
				out, fin = nil, false
			default:
				panic(r)
			}
		}
	}()
	r := w.exec(f, args, env)
	return &outcome{res: r}, true
}

// useOutcomes turns the outcomes of a merged call into one value, splitting where it cannot be expressed.
func (w *Worker) useOutcomes(f *Fn, outs []outcome) V {
	var ok []outcome
	for _, o := range outs {
		pc := w.simp(o.pc)
		if pc == w.fp.F {
			continue
		}
		o.pc = pc
		if o.isP {
			if w.branch(pc) {
				panic(goPanic{o.res, o.panic})
			}
			continue
		}
		ok = append(ok, o)
	}
	if len(ok) == 0 {
		w.endPath("infeasible")
	}
	if len(ok) == 1 {
		return ok[0].res
	}
	if f.boolRes {
		var ks []*Form
		for _, o := range ok {
			v := w.form(o.res)
			if v != w.fp.F {
				ks = append(ks, w.and(o.pc, v))
			}
		}
		return vForm(w.simp(w.or(ks...)))
	}
	// group equal results
	type grp struct {
		k  string
		pc []*Form
		r  V
	}
	var gs []*grp
	idx := map[string]*grp{}
	for _, o := range ok {
		k := w.keyOf(o.res)
		g := idx[k]
		if g == nil {
			g = &grp{k: k, r: o.res}
			idx[k] = g
			gs = append(gs, g)
		}
		g.pc = append(g.pc, o.pc)
	}
	if len(gs) == 1 {
		return gs[0].r
	}
	// one variable: build a table
	if _, isT := ok[0].res.o.(tuple); !isT {
		var v *Var
		good := true
		for _, o := range ok {
			if o.pc.k != fLit && o.pc.k != fTrue {
				good = false
				break
			}
			if o.pc.k == fLit {
				if v == nil {
					v = o.pc.v
				} else if v != o.pc.v {
					good = false
					break
				}
			}
			switch x := o.res.o.(type) {
			case *Sym:
				if v == nil {
					v = x.v
				} else if v != x.v {
					good = false
				}
			case *Form, *Rope, *Term:
				good = false
			}
			if x, isS := o.res.o.(*Sym); isS && x.t.hasP {
				good = false
			}
		}
		if good && v != nil {
			key := "merge"
			for _, o := range ok {
				if o.pc.k == fLit {
					key += "|" + strconv.Itoa(o.pc.set.id) + "="
				} else {
					key += "|T="
				}
				if x, isS := o.res.o.(*Sym); isS {
					key += "S" + strconv.Itoa(x.t.id)
				} else {
					key += w.keyOf(o.res)
				}
			}
			rt := w.rootTab(v.dom)
			t := rt.ops[key]
			if t == nil {
				t = w.newTab(len(v.dom.vals), func(i int) (V, bool) {
					for _, o := range ok {
						if o.pc.k == fTrue || o.pc.set.has(i) {
							if x, isS := o.res.o.(*Sym); isS {
								return x.t.vals[x.t.cls[i]], false
							}
							return o.res, false
						}
					}
					return ok[0].resConc(), false
				})
				rt.ops[key] = t
			}
			return w.norm(V{o: &Sym{v, t}})
		}
	}
	for _, g := range gs[:len(gs)-1] {
		if w.branch(w.or(g.pc...)) {
			return g.r
		}
	}
	return gs[len(gs)-1].r
}

func (o outcome) resConc() V {
	if x, ok := o.res.o.(*Sym); ok {
		return x.t.vals[0]
	}
	return o.res
}

// ---------------------------------------------------------------- assertions

type cand struct {
	label string
	asg   map[int]int
	kind  string // assert, panic, limit
	note  string
}

func (w *Worker) model(extra *Form) (map[int]int, string) {
	fs := w.pc()
	if extra != nil {
		fs = append(fs, extra)
	}
	if len(w.vars) == 0 {
		if extra == nil || extra == w.fp.T {
			return map[int]int{}, "sat"
		}
		return nil, "unsat"
	}
	res, asg := w.sol.query(fs, w.vars)
	return asg, res
}

func (w *Worker) assert(f *Form, label string) {
	if w.scope != nil {
		w.abortScope("assert")
	}
	w.asserts++
	if f != w.fp.T {
		w.obl = append(w.obl, f)
	}
	f = w.simp(f)
	if f == w.fp.T {
		w.folded++
		return
	}
	asg, res := w.model(w.not(f))
	if res == "sat" {
		w.cands = append(w.cands, cand{label: label, asg: asg, kind: "assert"})
	}
	if f == w.fp.F {
		w.endPath("violated")
	}
	if res != "unsat" {
		if !w.feasible(f) || !w.assume(f) {
			w.endPath("violated")
		}
	}
}

// discharge: the solver's verdict on a finished path, all assertions at once.
func (w *Worker) discharge() {
	if len(w.vars) == 0 {
		return
	}
	w.oblPaths++
	g := w.and(w.obl...)
	if g == w.fp.T {
		// every assertion is an identity of the encoding on this path
		w.identPaths++
		return
	}
	asg, res := w.model(w.not(g))
	switch res {
	case "unsat":
		w.discharged++
	case "sat":
		w.cands = append(w.cands, cand{label: "assertions of the path", asg: asg, kind: "assert"})
	}
}

func (w *Worker) sharedAccess(c any, write bool) {
	if w.scope != nil && write {
		w.abortScope("shared")
	}
	if len(w.shared) < 20000 {
		w.shared = append(w.shared, sharedEv{c, write, w.second, append([]lockRef{}, w.locks...), w.where()})
	}
}

// holdOnce: the function of a once runs exclusively, and from then on this thread is ordered after
// it (a shared hold: later accesses of two threads are not ordered by it).
func (w *Worker) holdOnce(c *Cell, excl bool) func() {
	for _, l := range w.locks {
		if l.c == c {
			return func() {}
		}
	}
	w.locks = append(w.locks, lockRef{c, !excl})
	return func() {
		for i := range w.locks {
			if w.locks[i].c == c {
				w.locks[i].shared = true
			}
		}
	}
}

func (w *Worker) where() string {
	if w.curFn != nil {
		return w.curFn.name
	}
	return "?"
}

var _ = fmt.Sprint
