package main

import (
	"encoding/binary"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- bit sets

// Bits is an interned set of domain indices of one symbolic variable.
type Bits struct {
	w   []uint64
	n   int
	cnt int
	id  int
	neg *Bits
}

type bitsPool struct {
	m   map[string]*Bits
	and map[[2]int]*Bits
	all []*Bits
}

func newBitsPool() *bitsPool {
	return &bitsPool{m: map[string]*Bits{}, and: map[[2]int]*Bits{}}
}

func (p *bitsPool) intern(n int, w []uint64) *Bits {
	buf := make([]byte, 8*len(w)+4)
	binary.LittleEndian.PutUint32(buf, uint32(n))
	c := 0
	for i, x := range w {
		binary.LittleEndian.PutUint64(buf[4+8*i:], x)
		c += bits.OnesCount64(x)
	}
	if b, ok := p.m[string(buf)]; ok {
		return b
	}
	b := &Bits{w: w, n: n, cnt: c, id: len(p.all)}
	p.all = append(p.all, b)
	p.m[string(buf)] = b
	return b
}

func (p *bitsPool) full(n int) *Bits {
	w := make([]uint64, (n+63)/64)
	for i := 0; i < n; i++ {
		w[i/64] |= 1 << (i % 64)
	}
	return p.intern(n, w)
}

func (p *bitsPool) empty(n int) *Bits { return p.intern(n, make([]uint64, (n+63)/64)) }

func (p *bitsPool) of(n int, f func(i int) bool) *Bits {
	w := make([]uint64, (n+63)/64)
	for i := 0; i < n; i++ {
		if f(i) {
			w[i/64] |= 1 << (i % 64)
		}
	}
	return p.intern(n, w)
}

func (p *bitsPool) inter(a, b *Bits) *Bits {
	if a == b {
		return a
	}
	if a.cnt == a.n {
		return b
	}
	if b.cnt == b.n {
		return a
	}
	k := [2]int{a.id, b.id}
	if a.id > b.id {
		k = [2]int{b.id, a.id}
	}
	if r, ok := p.and[k]; ok {
		return r
	}
	w := make([]uint64, len(a.w))
	for i := range w {
		w[i] = a.w[i] & b.w[i]
	}
	r := p.intern(a.n, w)
	p.and[k] = r
	return r
}

func (p *bitsPool) not(a *Bits) *Bits {
	if a.neg != nil {
		return a.neg
	}
	w := make([]uint64, len(a.w))
	for i := range w {
		w[i] = ^a.w[i]
	}
	if r := a.n % 64; r != 0 {
		w[len(w)-1] &= (1 << r) - 1
	}
	r := p.intern(a.n, w)
	a.neg = r
	r.neg = a
	return r
}

func (p *bitsPool) union(a, b *Bits) *Bits { return p.not(p.inter(p.not(a), p.not(b))) }

// key identifies the set across pools.
func (b *Bits) key() string {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(b.n))
	for _, x := range b.w {
		sb.WriteByte(',')
		sb.WriteString(strconv.FormatUint(x, 36))
	}
	return sb.String()
}

func (b *Bits) has(i int) bool { return b.w[i/64]>>(i%64)&1 == 1 }

// first returns the smallest element, -1 if empty.
func (b *Bits) first() int {
	for i, x := range b.w {
		if x != 0 {
			return i*64 + bits.TrailingZeros64(x)
		}
	}
	return -1
}

func (b *Bits) each(f func(i int) bool) {
	for i, x := range b.w {
		for x != 0 {
			j := bits.TrailingZeros64(x)
			if !f(i*64 + j) {
				return
			}
			x &= x - 1
		}
	}
}

// subset: a ⊆ b
func subset(a, b *Bits) bool {
	for i := range a.w {
		if a.w[i]&^b.w[i] != 0 {
			return false
		}
	}
	return true
}

func disjoint(a, b *Bits) bool {
	for i := range a.w {
		if a.w[i]&b.w[i] != 0 {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- tables

// Var is a symbolic input variable over the finite domain dom.vals.
type Var struct {
	uid  int // distinguishes variables of the same position over different domains
	id   int
	dom  *Domain
	name string
}

// Domain is the finite set of texts a symbolic variable ranges over.
type Domain struct {
	name string
	vals []string
	char bool       // every value is exactly one character
	ph   [][]string // phrases: every value is a list of tokens
	root *Tab
}

// Tab maps every index of a domain to a value: the encoding of a function of one symbolic variable.
type Tab struct {
	id   int
	n    int
	cls  []int32 // index -> class
	vals []V     // class -> value
	keys []string
	pan  []bool // class -> evaluation panics
	hasP bool
	sets []*Bits // class -> set
	eq   map[string]*Bits
	ops  map[string]*Tab
	tup  map[string][]*Tab
	char bool
	kidx map[string]int
}

// Sym is the value tab[v].
type Sym struct {
	v *Var
	t *Tab
}

func (w *Worker) newTab(n int, at func(i int) (V, bool)) *Tab {
	t := &Tab{n: n, cls: make([]int32, n), eq: map[string]*Bits{}, ops: map[string]*Tab{}, kidx: map[string]int{}}
	w.ntab++
	t.id = w.ntab
	w.tabSize += n
	if w.ntab&63 == 0 && w.eng.memLevel.Load() > 1 {
		w.unsupported("memory")
	}
	t.char = true
	for i := 0; i < n; i++ {
		v, p := at(i)
		k := "\x00panic"
		if !p {
			k = w.keyOf(v)
		} else {
			k += w.keyOf(v)
		}
		c, ok := t.kidx[k]
		if !ok {
			c = len(t.vals)
			t.kidx[k] = c
			t.vals = append(t.vals, v)
			t.keys = append(t.keys, k)
			t.pan = append(t.pan, p)
			if p {
				t.hasP = true
			}
			if s, isS := v.o.(string); !isS || !oneRune(s) {
				t.char = false
			}
		}
		t.cls[i] = int32(c)
	}
	ws := make([][]uint64, len(t.vals))
	for c := range ws {
		ws[c] = make([]uint64, (n+63)/64)
	}
	for i, c := range t.cls {
		ws[c][i/64] |= 1 << (i % 64)
	}
	t.sets = make([]*Bits, len(t.vals))
	for c := range ws {
		t.sets[c] = w.bp.intern(n, ws[c])
	}
	return t
}

func oneRune(s string) bool {
	if s == "" {
		return false
	}
	c := 0
	for range s {
		c++
		if c > 1 {
			return false
		}
	}
	return true
}

// set of indices whose value has the given key
func (t *Tab) setOf(w *Worker, k string) *Bits {
	if b, ok := t.eq[k]; ok {
		return b
	}
	var r *Bits
	if c, ok := t.kidx[k]; ok {
		r = t.sets[c]
	} else {
		r = w.bp.empty(t.n)
	}
	t.eq[k] = r
	return r
}

// ---------------------------------------------------------------- formulas

type fkind uint8

const (
	fTrue fkind = iota
	fFalse
	fLit
	fAnd
	fOr
)

// Form is a hash-consed boolean formula over the symbolic variables, in negation normal form.
type Form struct {
	k    fkind
	v    *Var
	set  *Bits
	kids []*Form
	id   int
	neg  *Form
	vars []*Var
}

type formPool struct {
	m    map[string]*Form
	T, F *Form
	n    int
}

func newFormPool() *formPool {
	p := &formPool{m: map[string]*Form{}}
	p.T = &Form{k: fTrue, id: 0}
	p.F = &Form{k: fFalse, id: 1}
	p.T.neg, p.F.neg = p.F, p.T
	p.n = 2
	return p
}

func (w *Worker) lit(v *Var, s *Bits) *Form {
	if s.cnt == 0 {
		return w.fp.F
	}
	if s.cnt == s.n {
		return w.fp.T
	}
	var kb [17]byte
	kb[0] = 'L'
	binary.LittleEndian.PutUint64(kb[1:], uint64(v.uid))
	binary.LittleEndian.PutUint64(kb[9:], uint64(s.id))
	if f, ok := w.fp.m[string(kb[:])]; ok {
		return f
	}
	f := &Form{k: fLit, v: v, set: s, id: w.fp.n, vars: []*Var{v}}
	w.fp.n++
	w.fp.m[string(kb[:])] = f
	return f
}

func (w *Worker) nary(k fkind, kids []*Form) *Form {
	unit, zero := w.fp.T, w.fp.F
	if k == fOr {
		unit, zero = w.fp.F, w.fp.T
	}
	var flat []*Form
	lits := map[int]*Form{}
	var lorder []int
	var add func(f *Form) bool
	add = func(f *Form) bool {
		if f == unit {
			return true
		}
		if f == zero {
			return false
		}
		if f.k == k {
			for _, x := range f.kids {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if f.k == fLit {
			if o, ok := lits[f.v.id]; ok {
				var b *Bits
				if k == fAnd {
					b = w.bp.inter(o.set, f.set)
				} else {
					b = w.bp.union(o.set, f.set)
				}
				nf := w.lit(f.v, b)
				if nf == zero {
					return false
				}
				if nf == unit { // cannot happen for consistent use, keep a neutral element
					return true
				}
				lits[f.v.id] = nf
			} else {
				lits[f.v.id] = f
				lorder = append(lorder, f.v.id)
			}
			return true
		}
		flat = append(flat, f)
		return true
	}
	for _, f := range kids {
		if !add(f) {
			return zero
		}
	}
	for _, v := range lorder {
		flat = append(flat, lits[v])
	}
	if len(flat) == 0 {
		return unit
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	out := flat[:1]
	for _, f := range flat[1:] {
		if f != out[len(out)-1] {
			out = append(out, f)
		}
	}
	for _, f := range out {
		if f.neg != nil {
			for _, g := range out {
				if g == f.neg {
					return zero
				}
			}
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	kb := make([]byte, 1+4*len(out))
	kb[0] = 'A'
	if k == fOr {
		kb[0] = 'O'
	}
	for i, f := range out {
		binary.LittleEndian.PutUint32(kb[1+4*i:], uint32(f.id))
	}
	if f, ok := w.fp.m[string(kb)]; ok {
		return f
	}
	f := &Form{k: k, kids: append([]*Form{}, out...), id: w.fp.n}
	w.fp.n++
	seen := map[int]bool{}
	for _, x := range out {
		for _, v := range x.vars {
			if !seen[v.id] {
				seen[v.id] = true
				f.vars = append(f.vars, v)
			}
		}
	}
	w.fp.m[string(kb)] = f
	return f
}

func (w *Worker) and(a ...*Form) *Form { return w.nary(fAnd, a) }
func (w *Worker) or(a ...*Form) *Form  { return w.nary(fOr, a) }

func (w *Worker) not(f *Form) *Form {
	if f.neg != nil {
		return f.neg
	}
	var r *Form
	switch f.k {
	case fLit:
		r = w.lit(f.v, w.bp.not(f.set))
	case fAnd, fOr:
		ks := make([]*Form, len(f.kids))
		for i, x := range f.kids {
			ks[i] = w.not(x)
		}
		if f.k == fAnd {
			r = w.nary(fOr, ks)
		} else {
			r = w.nary(fAnd, ks)
		}
	}
	f.neg = r
	if r.neg == nil {
		r.neg = f
	}
	return r
}

// simp simplifies f under the current per-variable domains.
func (w *Worker) simp(f *Form) *Form {
	switch f.k {
	case fLit:
		d := w.dom(f.v)
		if disjoint(d, f.set) {
			return w.fp.F
		}
		if subset(d, f.set) {
			return w.fp.T
		}
		return f
	case fAnd, fOr:
		var ks []*Form
		changed := false
		for i, x := range f.kids {
			y := w.simp(x)
			if (f.k == fAnd && y == w.fp.F) || (f.k == fOr && y == w.fp.T) {
				return y
			}
			if y != x && !changed {
				changed = true
				ks = append(ks, f.kids[:i]...)
			}
			if changed {
				ks = append(ks, y)
			}
		}
		if !changed {
			return f
		}
		return w.nary(f.k, ks)
	}
	return f
}

func (f *Form) eval(get func(v *Var) int) bool {
	switch f.k {
	case fTrue:
		return true
	case fFalse:
		return false
	case fLit:
		return f.set.has(get(f.v))
	case fAnd:
		for _, x := range f.kids {
			if !x.eval(get) {
				return false
			}
		}
		return true
	default:
		for _, x := range f.kids {
			if x.eval(get) {
				return true
			}
		}
		return false
	}
}

func (f *Form) size() int {
	n := 1
	for _, k := range f.kids {
		n += k.size()
	}
	return n
}

// smt renders the formula as an SMT-LIB term; set membership is rendered with ranges.
func (f *Form) smt(sb *strings.Builder, def func(v *Var, s *Bits) string) {
	switch f.k {
	case fTrue:
		sb.WriteString("true")
	case fFalse:
		sb.WriteString("false")
	case fLit:
		sb.WriteString(def(f.v, f.set))
	default:
		if f.k == fAnd {
			sb.WriteString("(and")
		} else {
			sb.WriteString("(or")
		}
		for _, k := range f.kids {
			sb.WriteByte(' ')
			k.smt(sb, def)
		}
		sb.WriteByte(')')
	}
}
