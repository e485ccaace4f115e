package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Fn is a compiled SSA function.
type Fn struct {
	ssa     *ssa.Function
	name    string
	nreg    int
	blocks  []*block
	consts  []V
	pure    bool // static candidate for merging
	memo    bool // static candidate for memoisation
	boolRes bool
	basic   bool
	hasDef  bool
	nres    int
	nfree   int
	fixedTy []types.Type
}

type block struct {
	ins  []func(fr *Frame)
	term func(fr *Frame) int
	phis []phi
	np   int
	ssa  *ssa.BasicBlock
}

type phi struct {
	dst int
	src []opnd
}

type opnd int32

// Frame is an activation.
type Frame struct {
	w         *Worker
	fn        *Fn
	r         []V
	pred      int
	ret       V
	defers    []deferred
	panicking bool
	pv        any
	recovered bool
}

type deferred struct {
	call func()
}

func (fr *Frame) get(o opnd) V {
	if o >= 0 {
		return fr.r[o]
	}
	return fr.fn.consts[-o-1]
}

type compiler struct {
	w    *Worker
	f    *ssa.Function
	fn   *Fn
	regs map[ssa.Value]int
	cidx map[ssa.Value]opnd
}

func (w *Worker) fnOf(f *ssa.Function) *Fn {
	if x, ok := w.fns[f]; ok {
		return x
	}
	x := w.compile(f)
	w.fns[f] = x
	return x
}

func (w *Worker) compile(f *ssa.Function) *Fn {
	w.eng.build(f)
	if len(f.Blocks) == 0 {
		w.unsupported("no body: " + f.String())
	}
	fn := &Fn{ssa: f, name: f.String()}
	c := &compiler{w: w, f: f, fn: fn, regs: map[ssa.Value]int{}, cidx: map[ssa.Value]opnd{}}
	reg := func(v ssa.Value) {
		c.regs[v] = fn.nreg
		fn.nreg++
	}
	for _, p := range f.Params {
		reg(p)
	}
	for _, p := range f.FreeVars {
		reg(p)
	}
	fn.nfree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				reg(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				fn.hasDef = true
			}
		}
	}
	for _, b := range f.Blocks {
		fn.blocks = append(fn.blocks, c.block(b))
	}
	if f.Recover != nil {
		// recover block is part of Blocks
	}
	res := f.Signature.Results()
	fn.nres = res.Len()
	fn.basic = res.Len() > 0
	for i := 0; i < res.Len(); i++ {
		if b, ok := res.At(i).Type().Underlying().(*types.Basic); !ok || b.Info()&(types.IsBoolean|types.IsInteger|types.IsString|types.IsFloat) == 0 {
			fn.basic = false
		}
	}
	if res.Len() == 1 {
		if b, ok := res.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			fn.boolRes = true
		}
	}
	if w.eng.pureFn(f) {
		fn.pure = fn.basic
		fn.memo = memoable(f)
	}
	w.used[fn.name] = true
	return fn
}

func memoable(f *ssa.Function) bool {
	if len(f.FreeVars) > 0 {
		return false
	}
	ok := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Info()&(types.IsBoolean|types.IsInteger|types.IsString|types.IsFloat) != 0
		case *types.Slice:
			b, k := u.Elem().Underlying().(*types.Basic)
			return k && b.Info()&(types.IsBoolean|types.IsInteger|types.IsString|types.IsFloat) != 0
		case *types.Signature:
			return true
		}
		return false
	}
	for _, p := range f.Params {
		if !ok(p.Type()) {
			return false
		}
	}
	res := f.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if _, isF := t.Underlying().(*types.Signature); isF {
			return false
		}
		if _, isS := t.Underlying().(*types.Slice); isS && res.Len() > 1 {
			return false
		}
		if !ok(t) {
			return false
		}
	}
	return true
}

func (c *compiler) op(v ssa.Value) opnd {
	if r, ok := c.regs[v]; ok {
		return opnd(r)
	}
	if o, ok := c.cidx[v]; ok {
		return o
	}
	var k V
	switch x := v.(type) {
	case *ssa.Const:
		k = c.constV(x)
	case *ssa.Global:
		k = V{o: c.w.global(x)}
	case *ssa.Function:
		k = V{o: x}
	case *ssa.Builtin:
		k = V{o: x}
	default:
		c.w.unsupported(fmt.Sprintf("operand %T", v))
	}
	c.fn.consts = append(c.fn.consts, k)
	o := opnd(-len(c.fn.consts))
	c.cidx[v] = o
	return o
}

func (c *compiler) constV(x *ssa.Const) V {
	if x.Value == nil {
		if isAgg(x.Type()) {
			return c.w.zero(x.Type())
		}
		return V{}
	}
	t := x.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return vBool(constant.BoolVal(x.Value))
		case b.Info()&types.IsString != 0:
			if x.Value.Kind() == constant.String {
				return vStr(constant.StringVal(x.Value))
			}
			return vStr(string(rune(x.Int64())))
		case b.Info()&types.IsInteger != 0:
			if b.Info()&types.IsUnsigned != 0 {
				return vInt(int64(x.Uint64()))
			}
			return vInt(x.Int64())
		case b.Info()&types.IsFloat != 0:
			f := x.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return vFloat(f)
		case b.Kind() == types.UnsafePointer:
			return V{}
		}
	}
	c.w.unsupported("const " + x.String())
	return V{}
}

func (w *Worker) global(g *ssa.Global) *Cell {
	if c, ok := w.globals[g]; ok {
		return c
	}
	c := &Cell{}
	e := w.epoch
	w.epoch = 0
	c.v = w.zero(g.Type().(*types.Pointer).Elem())
	w.epoch = e
	w.globals[g] = c
	w.initPkg(g.Pkg)
	return c
}

// initPkg runs a package's initialiser once (imported packages are initialised when they are needed).
func (w *Worker) initPkg(p *ssa.Package) {
	if p == nil || w.inited[p] {
		return
	}
	w.inited[p] = true
	if w.eng.noInit(p.Pkg.Path()) {
		return
	}
	w.eng.buildPkg(p)
	f := p.Func("init")
	if f == nil {
		return
	}
	was, e, sc, fl, cf, st, ts := w.initing, w.epoch, w.scope, w.floor, w.callFloor, w.steps, w.trackShared
	w.initing, w.epoch, w.scope, w.floor, w.callFloor, w.trackShared = true, 0, nil, 0, 0, false
	defer func() {
		w.initing, w.epoch, w.scope, w.floor, w.callFloor, w.trackShared = was, e, sc, fl, cf, ts
		w.steps = st
	}()
	w.call(f, nil, nil)
}

// ---------------------------------------------------------------- running

func (w *Worker) exec(fn *Fn, args []V, env []V) V {
	if len(args)+len(env) > fn.nreg {
		w.unsupported("arity " + fn.name)
	}
	w.depth++
	if w.depth > w.maxDep {
		panic(limitHit{"recursion deeper than " + strconv.Itoa(w.maxDep) + " calls in " + fn.name})
	}
	fr := &Frame{w: w, fn: fn, r: make([]V, fn.nreg)}
	copy(fr.r, args)
	copy(fr.r[len(args):], env)
	prev := w.curFn
	w.curFn = fn
	if fn.hasDef {
		fr.runDef()
	} else {
		fr.run(0)
	}
	w.curFn = prev
	w.depth--
	return fr.ret
}

func (fr *Frame) run(b int) {
	w := fr.w
	fn := fr.fn
	for b >= 0 {
		bl := fn.blocks[b]
		if n := len(bl.phis); n > 0 {
			if n == 1 {
				p := &bl.phis[0]
				fr.r[p.dst] = fr.get(p.src[fr.pred])
			} else {
				var tmp [8]V
				t := tmp[:0]
				for i := range bl.phis {
					t = append(t, fr.get(bl.phis[i].src[fr.pred]))
				}
				for i := range bl.phis {
					fr.r[bl.phis[i].dst] = t[i]
				}
			}
		}
		w.steps += int64(len(bl.ins)) + 1
		if w.steps > w.maxStep {
			panic(limitHit{"more than " + strconv.FormatInt(w.maxStep, 10) + " steps in " + fn.name})
		}
		for _, in := range bl.ins {
			in(fr)
		}
		b = bl.term(fr)
	}
}

func (fr *Frame) runDef() {
	w := fr.w
	depth := w.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(goPanic); ok {
					fr.panicking = true
					fr.pv = r
					w.depth = depth
					return
				}
				panic(r)
			}
		}()
		fr.run(0)
	}()
	if !fr.panicking {
		return
	}
	fr.rundefers()
	if fr.panicking {
		panic(fr.pv)
	}
	if rb := fr.fn.ssa.Recover; rb != nil {
		fr.pred = 0
		fr.run(rb.Index)
		return
	}
	fr.ret = w.zero(fr.fn.ssa.Signature.Results())
	if fr.fn.nres == 0 {
		fr.ret = V{}
	}
}

func (fr *Frame) rundefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(goPanic); ok {
						fr.panicking = true
						fr.pv = r
						return
					}
					panic(r)
				}
			}()
			fr.w.recoverStack = append(fr.w.recoverStack, fr)
			d.call()
			fr.w.recoverStack = fr.w.recoverStack[:len(fr.w.recoverStack)-1]
		}()
	}
}

// call invokes a function value.
func (w *Worker) call(f *ssa.Function, args []V, env []V) V {
	if n := w.eng.native(f); n != nil {
		return n(w, args)
	}
	if f.Name() == "init" && f.Signature.Recv() == nil && f.Synthetic == "package initializer" {
		if w.inited[f.Pkg] && f.Pkg.Func("init") == f && w.curInit != f.Pkg {
			// only reached through initPkg for its own package
		}
		if w.initOf != nil && w.initOf != f.Pkg {
			return V{} // imported packages are initialised lazily
		}
		old := w.initOf
		w.initOf = f.Pkg
		defer func() { w.initOf = old }()
		return w.exec(w.fnOf(f), args, env)
	}
	if r, ok := w.eng.hook(w, f, args); ok {
		return r
	}
	fn := w.fnOf(f)
	if w.initing {
		return w.exec(fn, args, env)
	}
	if fn.memo && !w.dirty && len(env) == 0 && !w.trackShared {
		if r, ok := w.memoCall(fn, args); ok {
			return r
		}
	}
	if fn.pure && !w.trackShared {
		outs, ok := w.runScope(fn, args, env, false)
		if ok {
			return w.useOutcomes(fn, outs)
		}
	}
	return w.exec(fn, args, env)
}

func (w *Worker) memoCall(fn *Fn, args []V) (V, bool) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p", fn)
	for _, a := range args {
		if cs, ok := a.o.([]Cell); ok && len(cs) > 1500 && w.maxDep > 6000 {
			return V{}, false // long texts: the key would cost more than the call
		}
		k := w.keyOf(a)
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(len(k)))
		sb.WriteByte(':')
		sb.WriteString(k)
		if _, ok := a.o.(*Closure); ok {
			return V{}, false
		}
	}
	k := sb.String()
	e := w.memo[k]
	if e == nil {
		e = &memoEnt{}
		max := 0
		if fn.basic && w.oneVar(args) {
			max = 60
		}
		outs, ok, hit := w.runScopeMax(fn, args, nil, true, max)
		if hit {
			// a pure function of one variable with many local paths: a table over its domain
			e.lift = &liftFn{name: fmt.Sprintf("%p", fn), nres: fn.nres, boolR: fn.boolRes, interp: fn}
		} else if !ok {
			e.abort = true
		} else if !fn.basic {
			if len(outs) != 1 || outs[0].isP {
				e.abort = true
			} else if cs, isS := outs[0].res.o.([]Cell); isS {
				fresh := true
				for i := range cs {
					if cs[i].ep < w.lastScopeFloor(cs) {
						fresh = false
					}
				}
				_ = fresh
				e.slice = true
				e.outs = outs
				// only freshly built slices are reproduced by copying
				for i := range cs {
					if cs[i].ep == 0 {
						e.abort = true
					}
				}
				for _, a := range args {
					if as, ok := a.o.([]Cell); ok && len(as) > 0 && len(cs) > 0 && &as[0] == &cs[0] {
						e.abort = true
					}
					if as, ok := a.o.([]Cell); ok && cap(as) > 0 && len(cs) > 0 && &as[:cap(as)][cap(as)-1] == &cs[:cap(cs)][cap(cs)-1] {
						e.abort = true
					}
				}
			} else {
				e.outs = outs
			}
		} else {
			e.outs = outs
		}
		w.memo[k] = e
	} else {
		w.memoHits++
	}
	if e.abort {
		return V{}, false
	}
	if e.lift != nil {
		return e.lift.apply(w, append([]V{}, args...)), true
	}
	if e.slice {
		cs := e.outs[0].res.o.([]Cell)
		n := make([]Cell, len(cs), cap(cs))
		for i := range cs {
			n[i] = Cell{v: cs[i].v, ep: w.epoch}
		}
		for i := len(cs); i < cap(cs); i++ {
			n[:cap(n)][i].ep = w.epoch
		}
		return V{o: n}, true
	}
	return w.useOutcomes(fn, e.outs), true
}

// oneVar: the arguments depend on exactly one variable.
func (w *Worker) oneVar(args []V) bool {
	var vars []*Var
	seen := map[*Var]bool{}
	for _, a := range args {
		if r, ok := a.o.(*Rope); ok && r.toks != nil {
			return false
		}
		symVars(a, seen, &vars)
	}
	return len(vars) == 1
}

func (w *Worker) lastScopeFloor(cs []Cell) uint32 { return 0 }

func (w *Worker) callV(f V, args []V) V {
	switch x := f.o.(type) {
	case *ssa.Function:
		return w.call(x, args, nil)
	case *Closure:
		if x.nat != nil {
			return x.nat(w, args)
		}
		return w.call(x.fn, args, x.env)
	case nil:
		w.goPanic("nil function call")
	}
	w.unsupported(fmt.Sprintf("call of %T", f.o))
	return V{}
}

// ---------------------------------------------------------------- compilation

func (c *compiler) block(b *ssa.BasicBlock) *block {
	bl := &block{ssa: b}
	for _, i := range b.Instrs {
		switch x := i.(type) {
		case *ssa.Phi:
			p := phi{dst: c.regs[x]}
			for _, e := range x.Edges {
				p.src = append(p.src, c.op(e))
			}
			bl.phis = append(bl.phis, p)
		case *ssa.Jump:
			t, pi := c.edge(b, 0)
			bl.term = func(fr *Frame) int { fr.pred = pi; return t }
		case *ssa.If:
			bl.term = c.ifTerm(b, x)
		case *ssa.Return:
			bl.term = c.ret(x)
		case *ssa.Panic:
			o := c.op(x.X)
			bl.term = func(fr *Frame) int {
				v := fr.get(o)
				panic(goPanic{v, fr.w.panicText(v)})
			}
		case *ssa.DebugRef:
		default:
			bl.ins = append(bl.ins, c.instr(i))
		}
	}
	return bl
}

func (w *Worker) panicText(v V) string {
	if i, ok := v.o.(*Iface); ok {
		if s, ok := i.v.o.(string); ok {
			return s
		}
	}
	return "panic"
}

func (c *compiler) edge(b *ssa.BasicBlock, k int) (int, int) {
	t := b.Succs[k]
	// position of this edge among t's predecessors
	seen := 0
	want := 0
	for i := 0; i < k; i++ {
		if b.Succs[i] == t {
			want++
		}
	}
	for i, p := range t.Preds {
		if p == b {
			if seen == want {
				return t.Index, i
			}
			seen++
		}
	}
	return t.Index, 0
}

func (c *compiler) ret(x *ssa.Return) func(fr *Frame) int {
	ops := make([]opnd, len(x.Results))
	for i, r := range x.Results {
		ops[i] = c.op(r)
	}
	switch len(ops) {
	case 0:
		return func(fr *Frame) int { return -1 }
	case 1:
		o := ops[0]
		return func(fr *Frame) int { fr.ret = fr.get(o); return -1 }
	}
	return func(fr *Frame) int {
		t := make(tuple, len(ops))
		for i, o := range ops {
			t[i] = fr.get(o)
		}
		fr.ret = V{o: t}
		return -1
	}
}

// ifTerm compiles a conditional branch. A symbolic condition whose two sides only select between
// the same continuations (short-circuit chains, switch cases) is merged into one decision.
func (c *compiler) ifTerm(b *ssa.BasicBlock, x *ssa.If) func(fr *Frame) int {
	o := c.op(x.Cond)
	t, tp := c.edge(b, 0)
	e, ep := c.edge(b, 1)
	var chain func(fr *Frame, f *Form) (int, bool)
	chain = c.chain(b)
	return func(fr *Frame) int {
		v := fr.get(o)
		var r bool
		switch y := v.o.(type) {
		case nil:
			r = v.n != 0
		case *Form:
			f := fr.w.simp(y)
			if f.k == fTrue {
				r = true
			} else if f.k == fFalse {
				r = false
			} else {
				if chain != nil {
					if blk, ok := chain(fr, f); ok {
						return blk
					}
				}
				r = fr.w.branch(f)
			}
		default:
			r = fr.w.branch(fr.w.form(v))
		}
		if r {
			fr.pred = tp
			return t
		}
		fr.pred = ep
		return e
	}
}

// chain recognises b: if c1 goto X else B2; B2: (pure) if c2 goto X else B3; ... where X sees the
// same phi values from every member. The decision "some ci holds" is taken once.
func (c *compiler) chain(b *ssa.BasicBlock) func(fr *Frame, f *Form) (int, bool) {
	for side := 0; side < 2; side++ {
		X := b.Succs[side]
		next := b.Succs[1-side]
		if X == next {
			continue
		}
		type member struct {
			ins  []func(fr *Frame)
			cond opnd
			neg  bool
		}
		var ms []member
		cur := next
		from := b
		ok := true
		var last *ssa.BasicBlock = b
		for len(cur.Preds) == 1 && len(cur.Instrs) > 0 {
			ifi, isIf := cur.Instrs[len(cur.Instrs)-1].(*ssa.If)
			if !isIf {
				break
			}
			k := -1
			if cur.Succs[0] == X && cur.Succs[1] != X {
				k = 0
			} else if cur.Succs[1] == X && cur.Succs[0] != X {
				k = 1
			}
			if k < 0 {
				break
			}
			pure := true
			var m member
			for _, in := range cur.Instrs[:len(cur.Instrs)-1] {
				switch y := in.(type) {
				case *ssa.BinOp:
					if y.Op == token.QUO || y.Op == token.REM || y.Op == token.SHL || y.Op == token.SHR {
						pure = false
					}
					if _, isI := y.X.Type().Underlying().(*types.Interface); isI {
						pure = false
					}
				case *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType:
				case *ssa.UnOp:
					if y.Op == token.MUL {
						if _, isG := y.X.(*ssa.Global); !isG {
							pure = false
						}
					}
				default:
					pure = false
				}
			}
			if !pure {
				break
			}
			// phi values must agree
			agree := true
			for _, in := range X.Instrs {
				ph, isP := in.(*ssa.Phi)
				if !isP {
					break
				}
				_, p1 := c.edge(b, side)
				_, p2 := c.edge(cur, k)
				if !sameVal(ph.Edges[p1], ph.Edges[p2]) {
					agree = false
				}
			}
			if !agree {
				break
			}
			for _, in := range cur.Instrs[:len(cur.Instrs)-1] {
				if _, isD := in.(*ssa.DebugRef); !isD {
					m.ins = append(m.ins, c.instr(in))
				}
			}
			m.cond = c.op(ifi.Cond)
			m.neg = k == 1
			ms = append(ms, m)
			last = cur
			from = cur
			cur = cur.Succs[1-k]
			if len(ms) > 400 {
				break
			}
		}
		_ = from
		if !ok || len(ms) == 0 {
			continue
		}
		xt, xp := c.edge(b, side)
		lk := 0
		if last.Succs[0] == X {
			lk = 1
		}
		nt, np := c.edge(last, lk)
		firstNeg := side == 1
		return func(fr *Frame, f *Form) (int, bool) {
			w := fr.w
			if firstNeg {
				f = w.not(f)
			}
			fs := []*Form{f}
			for i := range ms {
				m := &ms[i]
				for _, in := range m.ins {
					in(fr)
				}
				g := w.form(fr.get(m.cond))
				if m.neg {
					g = w.not(g)
				}
				fs = append(fs, g)
			}
			if w.branch(w.or(fs...)) {
				fr.pred = xp
				return xt, true
			}
			fr.pred = np
			return nt, true
		}
	}
	return nil
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if ok1 && ok2 && types.Identical(x.Type(), y.Type()) {
		if x.Value == nil || y.Value == nil {
			return x.Value == nil && y.Value == nil
		}
		return constant.Compare(x.Value, token.EQL, y.Value)
	}
	return false
}

func (c *compiler) instr(i ssa.Instruction) func(fr *Frame) {
	w := c.w
	switch x := i.(type) {
	case *ssa.Alloc:
		d := c.regs[x]
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if isAgg(t) {
			return func(fr *Frame) { fr.r[d] = V{o: &Cell{v: w.zero(t), ep: w.epoch}} }
		}
		return func(fr *Frame) { fr.r[d] = V{o: &Cell{ep: w.epoch}} }
	case *ssa.BinOp:
		d, a, b := c.regs[x], c.op(x.X), c.op(x.Y)
		f := w.binop(x.Op, x.X.Type(), x.Y.Type(), x.Type())
		return func(fr *Frame) { fr.r[d] = f(fr.get(a), fr.get(b)) }
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		d := c.regs[x]
		f := c.callInstr(&x.Call)
		return func(fr *Frame) { fr.r[d] = f(fr) }
	case *ssa.Go:
		return func(fr *Frame) { w.unsupported("go statement") }
	case *ssa.Defer:
		return c.deferInstr(x)
	case *ssa.RunDefers:
		return func(fr *Frame) {
			fr.rundefers()
			if fr.panicking {
				panic(fr.pv)
			}
		}
	case *ssa.Store:
		a, b := c.op(x.Addr), c.op(x.Val)
		return func(fr *Frame) {
			p, _ := fr.get(a).o.(*Cell)
			w.store(p, w.copyV(fr.get(b)))
		}
	case *ssa.ChangeInterface:
		d, a := c.regs[x], c.op(x.X)
		return func(fr *Frame) { fr.r[d] = fr.get(a) }
	case *ssa.ChangeType:
		d, a := c.regs[x], c.op(x.X)
		return func(fr *Frame) { fr.r[d] = fr.get(a) }
	case *ssa.Convert:
		d, a := c.regs[x], c.op(x.X)
		f := w.convert(x.X.Type(), x.Type())
		return func(fr *Frame) { fr.r[d] = f(fr.get(a)) }
	case *ssa.MultiConvert:
		d, a := c.regs[x], c.op(x.X)
		f := w.convert(x.X.Type(), x.Type())
		return func(fr *Frame) { fr.r[d] = f(fr.get(a)) }
	case *ssa.MakeInterface:
		d, a := c.regs[x], c.op(x.X)
		t := x.X.Type()
		return func(fr *Frame) { fr.r[d] = V{o: &Iface{t, w.copyV(fr.get(a))}} }
	case *ssa.Extract:
		d, a, n := c.regs[x], c.op(x.Tuple), x.Index
		return func(fr *Frame) { fr.r[d] = fr.get(a).o.(tuple)[n] }
	case *ssa.Field:
		d, a, n := c.regs[x], c.op(x.X), x.Field
		return func(fr *Frame) { fr.r[d] = w.copyV(fr.get(a).o.(*Agg).c[n].v) }
	case *ssa.FieldAddr:
		d, a, n := c.regs[x], c.op(x.X), x.Field
		return func(fr *Frame) {
			p, _ := fr.get(a).o.(*Cell)
			if p == nil {
				w.goPanic("nil pointer dereference")
			}
			ag, ok := p.v.o.(*Agg)
			if !ok {
				w.unsupported("field of opaque value in " + fr.fn.name)
			}
			fr.r[d] = V{o: &ag.c[n]}
		}
	case *ssa.Index:
		d, a, b := c.regs[x], c.op(x.X), c.op(x.Index)
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return func(fr *Frame) { fr.r[d] = w.strIndex(fr.get(a), int(w.cint(fr.get(b)))) }
		}
		return func(fr *Frame) {
			ag := fr.get(a).o.(*Agg)
			k := w.cint(fr.get(b))
			if k < 0 || k >= int64(len(ag.c)) {
				w.goPanic("index out of range")
			}
			fr.r[d] = w.copyV(ag.c[k].v)
		}
	case *ssa.IndexAddr:
		d, a, b := c.regs[x], c.op(x.X), c.op(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return func(fr *Frame) {
				s, _ := fr.get(a).o.([]Cell)
				k := w.cint(fr.get(b))
				if k < 0 || k >= int64(len(s)) {
					w.goPanic("index out of range")
				}
				fr.r[d] = V{o: &s[k]}
			}
		}
		return func(fr *Frame) {
			p, _ := fr.get(a).o.(*Cell)
			if p == nil {
				w.goPanic("nil pointer dereference")
			}
			ag := p.v.o.(*Agg)
			k := w.cint(fr.get(b))
			if k < 0 || k >= int64(len(ag.c)) {
				w.goPanic("index out of range")
			}
			fr.r[d] = V{o: &ag.c[k]}
		}
	case *ssa.Lookup:
		d, a, b := c.regs[x], c.op(x.X), c.op(x.Index)
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return func(fr *Frame) { fr.r[d] = w.strIndex(fr.get(a), int(w.cint(fr.get(b)))) }
		}
		elem := x.X.Type().Underlying().(*types.Map).Elem()
		co := x.CommaOk
		return func(fr *Frame) {
			m, _ := fr.get(a).o.(*MapV)
			v, ok := w.mapGet(m, fr.get(b), elem)
			if co {
				fr.r[d] = V{o: tuple{v, ok}}
			} else {
				fr.r[d] = v
			}
		}
	case *ssa.MakeClosure:
		d := c.regs[x]
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(fr *Frame) {
			env := make([]V, len(bs))
			for i, o := range bs {
				env[i] = fr.get(o)
			}
			fr.r[d] = V{o: &Closure{fn: fn, env: env}}
		}
	case *ssa.MakeMap:
		d := c.regs[x]
		et := x.Type().Underlying().(*types.Map).Elem()
		return func(fr *Frame) { fr.r[d] = V{o: &MapV{ep: w.epoch, m: map[string]int{}, elemT: et}} }
	case *ssa.MakeSlice:
		d, a, b := c.regs[x], c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *Frame) {
			n, cp := w.cint(fr.get(a)), w.cint(fr.get(b))
			if n < 0 || cp < n || cp > 1<<22 {
				if n < 0 || cp < n {
					w.goPanic("makeslice: len out of range")
				}
				panic(limitHit{"allocation of " + strconv.FormatInt(cp, 10) + " elements"})
			}
			fr.r[d] = V{o: w.mkCells(int(n), int(cp), et)}
		}
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		return func(fr *Frame) { w.unsupported("channel operation") }
	case *ssa.MapUpdate:
		a, b, e := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *Frame) {
			m, _ := fr.get(a).o.(*MapV)
			if m == nil {
				w.goPanic("assignment to entry in nil map")
			}
			w.mapSet(m, fr.get(b), w.copyV(fr.get(e)))
		}
	case *ssa.Range:
		d, a := c.regs[x], c.op(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return func(fr *Frame) {
				m, _ := fr.get(a).o.(*MapV)
				fr.r[d] = V{o: &mapIter{m: m}}
			}
		}
		return func(fr *Frame) { fr.r[d] = V{o: w.newStrIter(fr.get(a))} }
	case *ssa.Next:
		d, a := c.regs[x], c.op(x.Iter)
		return func(fr *Frame) {
			switch it := fr.get(a).o.(type) {
			case *mapIter:
				fr.r[d] = V{o: it.next()}
			case *strIter:
				fr.r[d] = V{o: it.next(w)}
			}
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		return func(fr *Frame) { w.unsupported("slice to array pointer") }
	case *ssa.TypeAssert:
		d, a := c.regs[x], c.op(x.X)
		t, co := x.AssertedType, x.CommaOk
		return func(fr *Frame) {
			v := fr.get(a)
			if isSym(v) {
				v = w.concretize(v)
			}
			r, ok := w.typeAssert(v, t)
			if co {
				if !ok {
					r = w.zero(t)
				}
				fr.r[d] = V{o: tuple{r, vBool(ok)}}
				return
			}
			if !ok {
				w.goPanic("interface conversion")
			}
			fr.r[d] = r
		}
	}
	return func(fr *Frame) { w.unsupported(fmt.Sprintf("instruction %T", i)) }
}

func (w *Worker) mkCells(n, cp int, et types.Type) []Cell {
	s := make([]Cell, cp)
	if isAgg(et) {
		for i := range s {
			s[i] = Cell{v: w.zero(et), ep: w.epoch}
		}
	} else {
		for i := range s {
			s[i].ep = w.epoch
		}
	}
	return s[:n]
}

func (w *Worker) cint(v V) int64 {
	if v.o != nil {
		v = w.concretize(v)
	}
	return v.n
}

func (w *Worker) typeAssert(v V, t types.Type) (V, bool) {
	i, _ := v.o.(*Iface)
	if i == nil {
		return V{}, false
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return v, true
		}
		if types.Implements(i.t, it) {
			return v, true
		}
		if _, ok := i.v.o.(error); ok && it.NumMethods() == 1 && it.Method(0).Name() == "Error" {
			return v, true
		}
		return V{}, false
	}
	if types.Identical(i.t, t) {
		return w.copyV(i.v), true
	}
	return V{}, false
}

type mapIter struct {
	m *MapV
	i int
}

func (it *mapIter) next() tuple {
	if it.m != nil {
		for it.i < len(it.m.keys) {
			i := it.i
			it.i++
			if !it.m.dead[i] {
				return tuple{vBool(true), it.m.keys[i], it.m.vals[i]}
			}
		}
	}
	return tuple{vBool(false), V{}, V{}}
}

type strIter struct {
	rs  []V
	pos []V
	i   int
	s   string
	c   bool
	off int
}

func (w *Worker) newStrIter(v V) *strIter {
	v = w.norm(v)
	if s, ok := conc(v); ok {
		return &strIter{s: s, c: true}
	}
	it := &strIter{rs: w.strRunes(v)}
	return it
}

func (it *strIter) next(w *Worker) tuple {
	if it.c {
		if it.off >= len(it.s) {
			return tuple{vBool(false), V{}, V{}}
		}
		r, n := utf8.DecodeRuneInString(it.s[it.off:])
		o := it.off
		it.off += n
		return tuple{vBool(true), vInt(int64(o)), vInt(int64(r))}
	}
	if it.i >= len(it.rs) {
		return tuple{vBool(false), V{}, V{}}
	}
	r := it.rs[it.i]
	o := it.off
	it.i++
	// advance the byte offset
	r = w.norm(r)
	if x, ok := r.o.(*Sym); ok {
		lt := w.tabOp(x.t, "runelen", func(v V) (V, bool) { return vInt(int64(utf8.RuneLen(rune(v.n)))), v.o != nil })
		it.off += int(w.concretize(V{o: &Sym{x.v, lt}}).n)
	} else {
		it.off += utf8.RuneLen(rune(r.n))
	}
	return tuple{vBool(true), vInt(int64(o)), r}
}

// ---------------------------------------------------------------- maps

func (w *Worker) mapKey(k V) V {
	k = w.norm(k)
	if i, ok := k.o.(*Iface); ok && isSym(i.v) {
		return V{o: &Iface{i.t, w.concretize(i.v)}}
	}
	return k
}

func (w *Worker) mapGet(m *MapV, k V, elem types.Type) (V, V) {
	k = w.mapKey(k)
	if m != nil && w.trackShared && m.ep < w.callFloor {
		w.sharedAccess(m, false)
	}
	if x, ok := k.o.(*Sym); ok {
		if m == nil {
			return w.zero(elem), vBool(false)
		}
		// table lookup
		simple := true
		for i, v := range m.vals {
			if m.dead[i] {
				continue
			}
			switch v.o.(type) {
			case nil, string:
			case *Sym, *Form, *Rope, *Term:
				simple = false
			default:
				simple = false
			}
			if isSym(m.keys[i]) {
				simple = false
			}
		}
		if simple && !isAgg(elem) {
			vt := w.newTab(x.t.n, func(i int) (V, bool) {
				c := x.t.cls[i]
				if x.t.pan[c] {
					return x.t.vals[c], true
				}
				if j, ok := m.m[x.t.keys[c]]; ok {
					return m.vals[j], false
				}
				return V{}, false
			})
			ok := w.bp.of(x.t.n, func(i int) bool { _, ok := m.m[x.t.keys[x.t.cls[i]]]; return ok })
			return w.norm(V{o: &Sym{x.v, vt}}), vForm(w.simp(w.lit(x.v, ok)))
		}
		// decide membership key by key
		for i, mk := range m.keys {
			if m.dead[i] {
				continue
			}
			if w.branch(w.eqV(k, mk)) {
				return w.copyV(m.vals[i]), vBool(true)
			}
		}
		return w.zero(elem), vBool(false)
	}
	if isSym(k) {
		if m != nil {
			for i, mk := range m.keys {
				if m.dead[i] {
					continue
				}
				if w.branch(w.eqV(k, mk)) {
					return w.copyV(m.vals[i]), vBool(true)
				}
			}
		}
		return w.zero(elem), vBool(false)
	}
	if m == nil {
		return w.zero(elem), vBool(false)
	}
	ks := w.keyOf(k)
	if k.o == nil && m.strKeys() {
		ks = "s"
	}
	if j, ok := m.m[ks]; ok {
		return w.copyV(m.vals[j]), vBool(true)
	}
	for i, mk := range m.keys {
		if !m.dead[i] && isSym(mk) {
			if w.branch(w.eqV(k, mk)) {
				return w.copyV(m.vals[i]), vBool(true)
			}
		}
	}
	return w.zero(elem), vBool(false)
}

func (m *MapV) strKeys() bool {
	for _, k := range m.keys {
		if _, ok := k.o.(string); ok {
			return true
		}
	}
	return false
}

func (w *Worker) mapTouch(m *MapV) {
	if m.ep < w.floor {
		w.abortScope("map")
	}
	if m.ep < w.callFloor {
		w.sharedAccess(m, true)
	}
	if m.ep == 0 && !w.initing {
		c := *m
		c.m = map[string]int{}
		for k, v := range m.m {
			c.m[k] = v
		}
		c.keys = append([]V{}, m.keys...)
		c.vals = append([]V{}, m.vals...)
		c.dead = append([]bool{}, m.dead...)
		w.undo = append(w.undo, func() { *m = c })
		w.dirty = true
	}
}

func (w *Worker) mapSet(m *MapV, k, v V) {
	k = w.mapKey(k)
	w.mapTouch(m)
	if isSym(k) {
		for i, mk := range m.keys {
			if !m.dead[i] && w.branch(w.eqV(k, mk)) {
				m.vals[i] = v
				return
			}
		}
	} else {
		for i, mk := range m.keys {
			if !m.dead[i] && isSym(mk) && w.branch(w.eqV(k, mk)) {
				m.vals[i] = v
				return
			}
		}
	}
	ks := w.keyOf(k)
	if j, ok := m.m[ks]; ok {
		m.vals[j] = v
		return
	}
	m.m[ks] = len(m.keys)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.dead = append(m.dead, false)
	m.live++
}

func (w *Worker) mapDel(m *MapV, k V) {
	if m == nil {
		return
	}
	k = w.mapKey(k)
	if isSym(k) {
		k = w.concretize(k)
	}
	ks := w.keyOf(k)
	if j, ok := m.m[ks]; ok {
		w.mapTouch(m)
		delete(m.m, ks)
		m.dead[j] = true
		m.live--
	}
}

// ---------------------------------------------------------------- operators

func (c *compiler) unop(x *ssa.UnOp) func(fr *Frame) {
	w := c.w
	d, a := c.regs[x], c.op(x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			_ = g
		}
		return func(fr *Frame) {
			p, _ := fr.get(a).o.(*Cell)
			fr.r[d] = w.load(p)
		}
	case token.NOT:
		return func(fr *Frame) {
			v := fr.get(a)
			if v.o == nil {
				fr.r[d] = V{n: 1 - v.n}
				return
			}
			fr.r[d] = vForm(w.not(w.form(v)))
		}
	case token.SUB:
		if isFloat(x.Type()) {
			return func(fr *Frame) {
				v := fr.get(a)
				if v.o != nil {
					v = w.concretize(v)
				}
				fr.r[d] = vFloat(-v.f64())
			}
		}
		k := kindOf(x.Type())
		return func(fr *Frame) {
			v := fr.get(a)
			if v.o != nil {
				fr.r[d] = w.lift1(v, "neg"+strconv.Itoa(int(k)), func(v V) (V, bool) { return vInt(wrap(k, -v.n)), false })
				return
			}
			fr.r[d] = vInt(wrap(k, -v.n))
		}
	case token.XOR:
		k := kindOf(x.Type())
		return func(fr *Frame) {
			fr.r[d] = vInt(wrap(k, ^w.cint(fr.get(a))))
		}
	}
	return func(fr *Frame) { w.unsupported("unop " + x.Op.String()) }
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func kindOf(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Int
}

func wrap(k types.BasicKind, n int64) int64 {
	switch k {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32, types.UntypedRune:
		return int64(int32(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}

func unsigned(k types.BasicKind) bool {
	switch k {
	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
		return true
	}
	return false
}

// lift1 applies a pure function to a symbolic scalar.
func (w *Worker) lift1(v V, name string, f func(v V) (V, bool)) V {
	v = w.norm(v)
	if x, ok := v.o.(*Sym); ok {
		return w.symResult(x.v, w.tabOp(x.t, name, f))
	}
	if isSym(v) {
		v = w.concretize(v)
	}
	r, p := f(v)
	if p {
		s, _ := conc(r)
		w.goPanic(s)
	}
	return r
}

func (w *Worker) lift2(a, b V, name string, f func(a, b V) (V, bool)) V {
	a, b = w.norm(a), w.norm(b)
	x, ok1 := a.o.(*Sym)
	y, ok2 := b.o.(*Sym)
	switch {
	case ok1 && !isSym(b):
		return w.symResult(x.v, w.tabOp(x.t, name+"|r"+w.keyOf(b), func(v V) (V, bool) { return f(v, b) }))
	case ok2 && !isSym(a):
		return w.symResult(y.v, w.tabOp(y.t, name+"|l"+w.keyOf(a), func(v V) (V, bool) { return f(a, v) }))
	case ok1 && ok2 && x.v == y.v:
		k := name + "|s" + strconv.Itoa(y.t.id)
		t, ok := x.t.ops[k]
		if !ok {
			t = w.newTab(x.t.n, func(i int) (V, bool) {
				if x.t.pan[x.t.cls[i]] || y.t.pan[y.t.cls[i]] {
					return vStr("panic"), true
				}
				return f(x.t.vals[x.t.cls[i]], y.t.vals[y.t.cls[i]])
			})
			x.t.ops[k] = t
		}
		return w.symResult(x.v, t)
	}
	if isSym(a) {
		a = w.concretize(a)
	} else if isSym(b) {
		b = w.concretize(b)
	} else {
		r, p := f(a, b)
		if p {
			s, _ := conc(r)
			w.goPanic(s)
		}
		return r
	}
	return w.lift2(a, b, name, f)
}

func (w *Worker) boolTab(v V) V {
	switch x := v.o.(type) {
	case *Sym:
		return vForm(w.simp(w.lit(x.v, x.t.setOf(w, "n1"))))
	}
	return v
}

func (w *Worker) binop(op token.Token, tx, ty, tr types.Type) func(a, b V) V {
	switch u := tx.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.strBinop(op)
		case u.Info()&types.IsBoolean != 0:
			return func(a, b V) V {
				f := w.eqBool(a, b)
				if op == token.NEQ {
					f = w.not(f)
				}
				return vForm(f)
			}
		case u.Info()&types.IsFloat != 0:
			f32 := u.Kind() == types.Float32
			g := func(a, b V) (V, bool) { return floatOp(op, a, b, f32), false }
			cmp := isCmp(op)
			return func(a, b V) V {
				if a.o == nil && b.o == nil {
					return floatOp(op, a, b, f32)
				}
				if ta, ok := a.o.(*Term); ok && (op == token.EQL || op == token.NEQ) {
					if _, ok := b.o.(*Term); ok && w.keyOf(a) == w.keyOf(b) {
						return vBool(op == token.EQL) // NaN is excluded: equal text, and NaN is never a term here
					}
					_ = ta
				}
				if cmp {
					if _, ok := a.o.(*Term); ok || isTerm(b) {
						if f, ok := w.productForm("float"+op.String()+strconv.FormatBool(f32), []V{a, b}, func(c []V) bool { return floatOp(op, c[0], c[1], f32).n != 0 }); ok {
							return vForm(f)
						}
					}
					return w.boolTab(w.lift2(a, b, "f"+op.String(), g))
				}
				return w.lift2(a, b, "f"+op.String(), g)
			}
		case u.Info()&types.IsInteger != 0:
			return w.intBinop(op, u.Kind(), ty)
		}
	}
	// pointers, interfaces, structs, functions, maps, channels
	return func(a, b V) V {
		f := w.eqV(a, b)
		switch op {
		case token.EQL:
			return vForm(f)
		case token.NEQ:
			return vForm(w.not(f))
		}
		w.unsupported("binop " + op.String())
		return V{}
	}
}

func isTerm(v V) bool { _, ok := v.o.(*Term); return ok }

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func (w *Worker) eqBool(a, b V) *Form {
	if a.o == nil && b.o == nil {
		if a.n == b.n {
			return w.fp.T
		}
		return w.fp.F
	}
	x, y := w.form(a), w.form(b)
	return w.or(w.and(x, y), w.and(w.not(x), w.not(y)))
}

func floatOp(op token.Token, a, b V, f32 bool) V {
	x, y := a.f64(), b.f64()
	var r float64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	case token.EQL:
		return vBool(x == y)
	case token.NEQ:
		return vBool(x != y)
	case token.LSS:
		return vBool(x < y)
	case token.LEQ:
		return vBool(x <= y)
	case token.GTR:
		return vBool(x > y)
	case token.GEQ:
		return vBool(x >= y)
	}
	if f32 {
		r = float64(float32(r))
	}
	return vFloat(r)
}

func (w *Worker) strBinop(op token.Token) func(a, b V) V {
	switch op {
	case token.ADD:
		return func(a, b V) V {
			x, ok1 := conc(a)
			y, ok2 := conc(b)
			if ok1 && ok2 {
				return vStr(x + y)
			}
			return w.mkRope(a, b)
		}
	case token.EQL:
		return func(a, b V) V {
			x, ok1 := conc(a)
			y, ok2 := conc(b)
			if ok1 && ok2 {
				return vBool(x == y)
			}
			return vForm(w.simp(w.eqStr(a, b)))
		}
	case token.NEQ:
		return func(a, b V) V {
			x, ok1 := conc(a)
			y, ok2 := conc(b)
			if ok1 && ok2 {
				return vBool(x != y)
			}
			return vForm(w.simp(w.not(w.eqStr(a, b))))
		}
	}
	f := func(a, b V) (V, bool) {
		x, _ := conc(a)
		y, _ := conc(b)
		switch op {
		case token.LSS:
			return vBool(x < y), false
		case token.LEQ:
			return vBool(x <= y), false
		case token.GTR:
			return vBool(x > y), false
		}
		return vBool(x >= y), false
	}
	return func(a, b V) V {
		if !isSym(a) && !isSym(b) {
			r, _ := f(a, b)
			return r
		}
		_, r1 := a.o.(*Rope)
		_, r2 := b.o.(*Rope)
		if r1 || r2 {
			if g, ok := w.productForm("str"+op.String(), []V{a, b}, func(c []V) bool { r, _ := f(c[0], c[1]); return r.n != 0 }); ok {
				return vForm(w.simp(g))
			}
		}
		return w.boolTab(w.lift2(a, b, "str"+op.String(), f))
	}
}

func intOp(op token.Token, k types.BasicKind, x, y int64) (int64, bool) {
	u := unsigned(k)
	switch op {
	case token.ADD:
		return wrap(k, x+y), true
	case token.SUB:
		return wrap(k, x-y), true
	case token.MUL:
		return wrap(k, x*y), true
	case token.QUO:
		if y == 0 {
			return 0, false
		}
		if u {
			return wrap(k, int64(uint64(x)/uint64(y))), true
		}
		if x == math.MinInt64 && y == -1 {
			return wrap(k, x), true
		}
		return wrap(k, x/y), true
	case token.REM:
		if y == 0 {
			return 0, false
		}
		if u {
			return wrap(k, int64(uint64(x)%uint64(y))), true
		}
		if y == -1 {
			return 0, true
		}
		return wrap(k, x%y), true
	case token.AND:
		return x & y, true
	case token.OR:
		return x | y, true
	case token.XOR:
		return wrap(k, x^y), true
	case token.AND_NOT:
		return x &^ y, true
	case token.SHL:
		if uint64(y) >= 64 {
			return 0, true
		}
		return wrap(k, x<<uint64(y)), true
	case token.SHR:
		if u {
			if uint64(y) >= 64 {
				return 0, true
			}
			return wrap(k, int64(uint64(x)>>uint64(y))), true
		}
		if uint64(y) >= 64 {
			y = 63
		}
		return x >> uint64(y), true
	}
	b := false
	switch op {
	case token.EQL:
		b = x == y
	case token.NEQ:
		b = x != y
	case token.LSS:
		b = x < y
		if u {
			b = uint64(x) < uint64(y)
		}
	case token.LEQ:
		b = x <= y
		if u {
			b = uint64(x) <= uint64(y)
		}
	case token.GTR:
		b = x > y
		if u {
			b = uint64(x) > uint64(y)
		}
	case token.GEQ:
		b = x >= y
		if u {
			b = uint64(x) >= uint64(y)
		}
	}
	if b {
		return 1, true
	}
	return 0, true
}

func (w *Worker) intBinop(op token.Token, k types.BasicKind, ty types.Type) func(a, b V) V {
	cmp := isCmp(op)
	name := "i" + op.String() + strconv.Itoa(int(k))
	f := func(a, b V) (V, bool) {
		r, ok := intOp(op, k, a.n, b.n)
		if !ok {
			return vStr("integer divide by zero"), true
		}
		return vInt(r), false
	}
	fast := func(a, b V) (V, bool) { return V{}, false }
	switch op {
	case token.ADD:
		if k == types.Int {
			fast = func(a, b V) (V, bool) { return V{n: a.n + b.n}, true }
		}
	case token.SUB:
		if k == types.Int {
			fast = func(a, b V) (V, bool) { return V{n: a.n - b.n}, true }
		}
	case token.LSS:
		if k == types.Int {
			fast = func(a, b V) (V, bool) { return vBool(a.n < b.n), true }
		}
	case token.GTR:
		if k == types.Int {
			fast = func(a, b V) (V, bool) { return vBool(a.n > b.n), true }
		}
	case token.EQL:
		fast = func(a, b V) (V, bool) { return vBool(a.n == b.n), true }
	case token.NEQ:
		fast = func(a, b V) (V, bool) { return vBool(a.n != b.n), true }
	}
	return func(a, b V) V {
		if a.o == nil && b.o == nil {
			if r, ok := fast(a, b); ok {
				return r
			}
			r, p := f(a, b)
			if p {
				w.goPanic("integer divide by zero")
			}
			return r
		}
		if cmp && (isTerm(a) || isTerm(b)) {
			if isTerm(a) && isTerm(b) && w.keyOf(a) == w.keyOf(b) {
				r, _ := intOp(op, k, 0, 0)
				return vInt(r)
			}
			if g, ok := w.productForm(fmt.Sprint("int", op, k), []V{a, b}, func(c []V) bool { r, _ := intOp(op, k, c[0].n, c[1].n); return r != 0 }); ok {
				return vForm(w.simp(g))
			}
		}
		if op == token.EQL || op == token.NEQ {
			na, nb := w.norm(a), w.norm(b)
			x, ok1 := na.o.(*Sym)
			y, ok2 := nb.o.(*Sym)
			if ok1 && ok2 {
				g := w.eqSym(x, y)
				if op == token.NEQ {
					g = w.not(g)
				}
				return vForm(w.simp(g))
			}
		}
		r := w.lift2(a, b, name, f)
		if cmp {
			return w.boolTab(r)
		}
		return r
	}
}

// eqV is equality of arbitrary comparable values.
func (w *Worker) eqV(a, b V) *Form {
	tf := func(x bool) *Form {
		if x {
			return w.fp.T
		}
		return w.fp.F
	}
	switch x := a.o.(type) {
	case nil:
		switch y := b.o.(type) {
		case nil:
			return tf(a.n == b.n)
		case string:
			return tf(y == "")
		case *Sym:
			return w.eqV(b, a)
		case *Form, *Term:
			return w.eqV(b, a)
		case *Rope:
			return w.eqStr(a, b)
		}
		return w.fp.F
	case string:
		switch b.o.(type) {
		case nil, string, *Sym, *Rope, *Term:
			return w.eqStr(a, b)
		}
		return w.fp.F
	case *Rope:
		return w.eqStr(a, b)
	case *Sym:
		if y, ok := b.o.(*Sym); ok {
			return w.eqSym(x, y)
		}
		if _, ok := b.o.(*Rope); ok {
			return w.eqStr(a, b)
		}
		if b.o == nil {
			// zero value: number or empty text or nil
			s := w.bp.union(x.t.setOf(w, "n"+strconv.FormatInt(b.n, 10)), w.bp.empty(x.t.n))
			if b.n == 0 {
				s = w.bp.union(s, x.t.setOf(w, "s"))
			}
			return w.lit(x.v, s)
		}
		if isTerm(b) {
			return w.eqV(w.concretize(a), b)
		}
		return w.lit(x.v, x.t.setOf(w, w.keyOf(b)))
	case *Form:
		return w.eqBool(a, b)
	case *Term:
		if y, ok := b.o.(*Term); ok {
			if w.keyOf(a) == w.keyOf(b) {
				return w.fp.T
			}
			_ = y
		}
		if f, ok := w.productForm("key", []V{a, b}, func(c []V) bool { return w.keyOf(c[0]) == w.keyOf(c[1]) }); ok {
			return f
		}
		return w.eqV(w.concretize(a), w.concretize(b))
	case *Iface:
		switch y := b.o.(type) {
		case *Iface:
			if !types.Identical(x.t, y.t) {
				return w.fp.F
			}
			if _, ok := x.v.o.([]Cell); ok {
				w.goPanic("comparing uncomparable type")
			}
			return w.eqV(x.v, y.v)
		case *Sym:
			return w.eqV(b, a)
		}
		return w.fp.F
	case *Agg:
		y, ok := b.o.(*Agg)
		if !ok || len(y.c) != len(x.c) {
			return w.fp.F
		}
		var ks []*Form
		for i := range x.c {
			f := w.eqV(x.c[i].v, y.c[i].v)
			if f == w.fp.F {
				return f
			}
			ks = append(ks, f)
		}
		return w.and(ks...)
	case *Cell:
		y, ok := b.o.(*Cell)
		return tf(ok && x == y)
	case []Cell:
		return tf(false)
	case *MapV:
		y, ok := b.o.(*MapV)
		return tf(ok && x == y)
	case *ssa.Function:
		y, ok := b.o.(*ssa.Function)
		return tf(ok && x == y)
	case *Closure:
		y, ok := b.o.(*Closure)
		return tf(ok && x == y)
	}
	return tf(a.o == b.o)
}

func (w *Worker) convert(from, to types.Type) func(v V) V {
	uf, ut := from.Underlying(), to.Underlying()
	if tp, ok := uf.(*types.Interface); ok && tp != nil {
		uf = coreOf(from)
	}
	if _, ok := ut.(*types.Interface); ok {
		ut = coreOf(to)
	}
	bf, okf := uf.(*types.Basic)
	bt, okt := ut.(*types.Basic)
	if okf && okt {
		fi, ti := bf.Info(), bt.Info()
		switch {
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return func(v V) V { return v }
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return func(v V) V { return w.runeStr(v) }
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			k := bt.Kind()
			return func(v V) V {
				if v.o != nil {
					return w.lift1(v, "conv"+strconv.Itoa(int(k)), func(v V) (V, bool) { return vInt(wrap(k, v.n)), false })
				}
				return vInt(wrap(k, v.n))
			}
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			u := unsigned(bf.Kind())
			return func(v V) V {
				n := w.cint(v)
				if u {
					return vFloat(float64(uint64(n)))
				}
				return vFloat(float64(n))
			}
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			k := bt.Kind()
			return func(v V) V {
				if v.o != nil {
					v = w.concretize(v)
				}
				return vInt(wrap(k, int64(v.f64())))
			}
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if bt.Kind() == types.Float32 {
				return func(v V) V {
					if v.o != nil {
						v = w.concretize(v)
					}
					return vFloat(float64(float32(v.f64())))
				}
			}
			return func(v V) V { return v }
		}
	}
	if okf && bf.Info()&types.IsString != 0 {
		if st, ok := ut.(*types.Slice); ok {
			eb, _ := st.Elem().Underlying().(*types.Basic)
			if eb != nil && eb.Kind() == types.Uint8 {
				return func(v V) V { return w.cells(w.strBytes(v)) }
			}
			return func(v V) V { return w.cells(w.strRunes(v)) }
		}
	}
	if okt && bt.Info()&types.IsString != 0 {
		if st, ok := uf.(*types.Slice); ok {
			eb, _ := st.Elem().Underlying().(*types.Basic)
			isByte := eb != nil && eb.Kind() == types.Uint8
			return func(v V) V {
				cs, _ := v.o.([]Cell)
				return w.cellsStr(cs, isByte)
			}
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		return func(v V) V { return v }
	}
	return func(v V) V {
		w.unsupported("convert " + from.String() + " to " + to.String())
		return V{}
	}
}

func coreOf(t types.Type) types.Type { return t.Underlying() }

func (w *Worker) cells(vs []V) V {
	cs := make([]Cell, len(vs))
	for i, v := range vs {
		cs[i] = Cell{v: v, ep: w.epoch}
	}
	return V{o: cs}
}

func (w *Worker) cellsStr(cs []Cell, isByte bool) V {
	allc := true
	for i := range cs {
		if cs[i].v.o != nil {
			allc = false
		}
	}
	if allc {
		if isByte {
			b := make([]byte, len(cs))
			for i := range cs {
				b[i] = byte(cs[i].v.n)
			}
			return vStr(string(b))
		}
		r := make([]rune, len(cs))
		for i := range cs {
			r[i] = rune(cs[i].v.n)
		}
		return vStr(string(r))
	}
	var ps []V
	for i := range cs {
		if isByte {
			ps = append(ps, w.byteStr(cs[i].v))
		} else {
			ps = append(ps, w.runeStr(cs[i].v))
		}
	}
	return w.mkRope(ps...)
}

func (c *compiler) slice(x *ssa.Slice) func(fr *Frame) {
	w := c.w
	d, a := c.regs[x], c.op(x.X)
	var lo, hi, mx opnd
	hasLo, hasHi, hasMax := x.Low != nil, x.High != nil, x.Max != nil
	if hasLo {
		lo = c.op(x.Low)
	}
	if hasHi {
		hi = c.op(x.High)
	}
	if hasMax {
		mx = c.op(x.Max)
	}
	if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		return func(fr *Frame) {
			l, h := 0, -1
			s := fr.get(a)
			if hasLo {
				l = int(w.cint(fr.get(lo)))
			}
			if hasHi {
				hv := w.norm(fr.get(hi))
				// s[l : len(s)-k] on one variable without splitting on the length
				if hs, ok := hv.o.(*Sym); ok {
					if ss, ok := w.norm(s).o.(*Sym); ok && ss.v == hs.v {
						fr.r[d] = w.lift2(V{o: ss}, V{o: hs}, "sl"+strconv.Itoa(l), func(p, q V) (V, bool) {
							t, _ := conc(p)
							if q.n < int64(l) || q.n > int64(len(t)) {
								return vStr("slice bounds out of range"), true
							}
							return vStr(t[l:q.n]), false
						})
						return
					}
				}
				h = int(w.cint(hv))
				if h < 0 {
					w.goPanic("slice bounds out of range")
				}
			}
			fr.r[d] = w.strSlice(s, l, h)
		}
	}
	return func(fr *Frame) {
		v := fr.get(a)
		var cs []Cell
		isNil := false
		switch y := v.o.(type) {
		case []Cell:
			cs = y
		case *Cell:
			cs = y.v.o.(*Agg).c
		case nil:
			isNil = true
		}
		l, h, m := 0, len(cs), cap(cs)
		if hasLo {
			l = int(w.cint(fr.get(lo)))
		}
		if hasHi {
			h = int(w.cint(fr.get(hi)))
		}
		if hasMax {
			m = int(w.cint(fr.get(mx)))
		}
		if l < 0 || h < l || m < h || m > cap(cs) {
			w.goPanic("slice bounds out of range")
		}
		if isNil {
			fr.r[d] = V{}
			return
		}
		fr.r[d] = V{o: cs[l:h:m]}
	}
}

// ---------------------------------------------------------------- calls

func (c *compiler) callInstr(cc *ssa.CallCommon) func(fr *Frame) V {
	w := c.w
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	getArgs := func(fr *Frame) []V {
		vs := make([]V, len(args))
		for i, o := range args {
			vs[i] = fr.get(o)
			if _, ok := vs[i].o.(*Agg); ok {
				vs[i] = w.copyV(vs[i])
			}
		}
		return vs
	}
	if cc.IsInvoke() {
		r := c.op(cc.Value)
		m := cc.Method
		return func(fr *Frame) V {
			v := fr.get(r)
			if isSym(v) {
				v = w.concretize(v)
			}
			i, _ := v.o.(*Iface)
			if i == nil {
				w.goPanic("nil pointer dereference")
			}
			return w.invoke(i, m, getArgs(fr))
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		var ts []types.Type
		for _, a := range cc.Args {
			ts = append(ts, a.Type())
		}
		return func(fr *Frame) V { return w.builtin(fr, f.Name(), getArgs(fr), ts) }
	case *ssa.Function:
		return func(fr *Frame) V { return w.call(f, getArgs(fr), nil) }
	case *ssa.MakeClosure:
		o := c.op(f)
		return func(fr *Frame) V { return w.callV(fr.get(o), getArgs(fr)) }
	}
	o := c.op(cc.Value)
	return func(fr *Frame) V { return w.callV(fr.get(o), getArgs(fr)) }
}

func (w *Worker) invoke(i *Iface, m *types.Func, args []V) V {
	if e, ok := i.v.o.(error); ok && m.Name() == "Error" {
		return vStr(e.Error())
	}
	if i.t == w.eng.runtimeErr && m.Name() == "Error" {
		return i.v
	}
	k := w.typeID(i.t) + "." + m.Id()
	f, ok := w.mcache[k]
	if !ok {
		f = w.eng.lookupMethod(i.t, m)
		w.mcache[k] = f
	}
	if f == nil {
		w.unsupported("method " + k)
	}
	return w.call(f, append([]V{w.copyV(i.v)}, args...), nil)
}

func (c *compiler) deferInstr(x *ssa.Defer) func(fr *Frame) {
	w := c.w
	cc := &x.Call
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	var fo opnd
	b, isB := cc.Value.(*ssa.Builtin)
	if !isB {
		fo = c.op(cc.Value)
	}
	var ts []types.Type
	for _, a := range cc.Args {
		ts = append(ts, a.Type())
	}
	return func(fr *Frame) {
		vs := make([]V, len(args))
		for i, o := range args {
			vs[i] = w.copyV(fr.get(o))
		}
		if isB {
			fr.defers = append(fr.defers, deferred{func() { w.builtin(fr, b.Name(), vs, ts) }})
			return
		}
		fv := fr.get(fo)
		if cc.IsInvoke() {
			i, _ := fv.o.(*Iface)
			fr.defers = append(fr.defers, deferred{func() {
				if i == nil {
					w.goPanic("nil pointer dereference")
				}
				w.invoke(i, cc.Method, vs)
			}})
			return
		}
		fr.defers = append(fr.defers, deferred{func() { w.callV(fv, vs) }})
	}
}

func (w *Worker) builtin(fr *Frame, name string, args []V, ts []types.Type) V {
	switch name {
	case "len", "cap":
		v := args[0]
		switch x := v.o.(type) {
		case nil:
			return vInt(0)
		case []Cell:
			if name == "cap" {
				return vInt(int64(cap(x)))
			}
			return vInt(int64(len(x)))
		case *MapV:
			return vInt(int64(x.live))
		case *Agg:
			return vInt(int64(len(x.c)))
		case *Cell:
			return vInt(int64(len(x.v.o.(*Agg).c)))
		}
		return w.strLen(v)
	case "append":
		st := ts[0].Underlying().(*types.Slice)
		var add []V
		if len(args) > 1 {
			switch y := args[1].o.(type) {
			case []Cell:
				for i := range y {
					add = append(add, w.copyV(y[i].v))
				}
			case nil:
			default:
				add = w.strBytes(args[1])
			}
			if len(args) > 2 {
				w.unsupported("append arity")
			}
		}
		s, _ := args[0].o.([]Cell)
		if len(add) == 0 {
			return args[0]
		}
		n := len(s) + len(add)
		if n > cap(s) {
			nc := growCap(cap(s), n, w.eng.sizeof(st.Elem()))
			if nc > 1<<22 {
				panic(limitHit{"slice of " + strconv.Itoa(nc) + " elements"})
			}
			ns := w.mkCells(len(s), nc, st.Elem())
			for i := range s {
				ns[i].v = w.copyV(s[i].v)
			}
			s = ns
		}
		r := s[:n]
		for i, v := range add {
			c := &r[len(s)+i]
			if _, ok := c.v.o.(*Agg); ok || !isAgg(st.Elem()) {
				w.store(c, v)
			} else {
				c.v = v
			}
		}
		return V{o: r}
	case "copy":
		d, _ := args[0].o.([]Cell)
		var src []V
		switch y := args[1].o.(type) {
		case []Cell:
			for i := range y {
				src = append(src, w.copyV(y[i].v))
			}
		case nil:
		default:
			src = w.strBytes(args[1])
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			w.store(&d[i], src[i])
		}
		return vInt(int64(n))
	case "delete":
		m, _ := args[0].o.(*MapV)
		w.mapDel(m, args[1])
		return V{}
	case "clear":
		switch x := args[0].o.(type) {
		case *MapV:
			w.mapTouch(x)
			x.m = map[string]int{}
			x.keys, x.vals, x.dead, x.live = nil, nil, nil, 0
		case []Cell:
			st := ts[0].Underlying().(*types.Slice)
			for i := range x {
				w.store(&x[i], w.zero(st.Elem()))
			}
		}
		return V{}
	case "panic":
		panic(goPanic{args[0], w.panicText(args[0])})
	case "recover":
		if n := len(w.recoverStack); n > 0 {
			f := w.recoverStack[n-1]
			if f.panicking {
				f.panicking = false
				return f.pv.(goPanic).v
			}
		}
		return V{}
	case "print", "println":
		return V{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less V
			t := ts[0]
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				less = w.strBinop(token.LSS)(a, r)
			} else if isFloat(t) {
				less = floatOp(token.LSS, a, r, false)
			} else {
				less = w.intBinop(token.LSS, kindOf(t), t)(a, r)
			}
			if w.truth(less) == (name == "min") {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].o == nil {
			w.goPanic("nil pointer dereference")
		}
		return args[0]
	}
	w.unsupported("builtin " + name)
	return V{}
}

// growCap mimics the runtime's slice growth so that aliasing of backing arrays is the same.
func growCap(old, need, size int) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if size <= 0 {
		return nc
	}
	mem := nc * size
	r := roundSize(mem)
	return r / size
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}
