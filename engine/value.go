package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// V is an interpreter value. n holds ints, bools (0/1) and float bits; o holds everything else and
// every symbolic value (*Sym, *Form, *Rope, *Term).
type V struct {
	o any
	n int64
}

// Cell is one memory location.
type Cell struct {
	v  V
	ep uint32
}

// Agg is a struct or array value.
type Agg struct{ c []Cell }

// Iface is a non-nil interface value.
type Iface struct {
	t types.Type
	v V
}

// MapV is a map object.
type MapV struct {
	ep    uint32
	m     map[string]int
	keys  []V
	vals  []V
	dead  []bool
	live  int
	elemT types.Type
}

// Closure is a function value.
type Closure struct {
	fn  *ssa.Function
	env []V
	nat nativeFn
	nm  string
}

// Rope is a string built from several pieces, some of them symbolic.
type Rope struct {
	p    []V // string or *Sym
	toks []V // token mode: the tokens this text stands for ("\n" included)
	key  string
}

// Term is a library function applied to symbolic text, kept unevaluated.
type Term struct {
	fn   string
	args []V
	f    func(a []V) (V, bool)
}

type tuple []V

func vInt(n int64) V  { return V{n: n} }
func vStr(s string) V { return V{o: s} }
func vBool(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func vFloat(f float64) V { return V{n: int64(math.Float64bits(f))} }
func (v V) f64() float64 { return math.Float64frombits(uint64(v.n)) }

func vForm(f *Form) V {
	switch f.k {
	case fTrue:
		return V{n: 1}
	case fFalse:
		return V{}
	}
	return V{o: f}
}

func isSym(v V) bool {
	switch v.o.(type) {
	case *Sym, *Form, *Rope, *Term:
		return true
	}
	return false
}

// conc returns the concrete string, ok=false when symbolic.
func conc(v V) (string, bool) {
	switch x := v.o.(type) {
	case nil:
		return "", true
	case string:
		return x, true
	}
	return "", false
}

// keyOf is an injective key for a value (identity for pointers).
func (w *Worker) keyOf(v V) string {
	switch x := v.o.(type) {
	case nil:
		return "n" + strconv.FormatInt(v.n, 10)
	case string:
		return "s" + x
	case *Sym:
		return "S" + strconv.Itoa(x.v.id) + "." + strconv.Itoa(x.t.id)
	case *Form:
		return "F" + strconv.Itoa(x.id)
	case *Rope:
		if x.key == "" {
			var sb strings.Builder
			sb.WriteString("R")
			for _, p := range x.p {
				k := w.keyOf(p)
				sb.WriteString(strconv.Itoa(len(k)))
				sb.WriteByte(':')
				sb.WriteString(k)
			}
			x.key = sb.String()
		}
		return x.key
	case *Term:
		k := "T" + x.fn
		for _, a := range x.args {
			ak := w.keyOf(a)
			k += "|" + strconv.Itoa(len(ak)) + ":" + ak
		}
		return k
	case *Iface:
		return "I" + w.typeID(x.t) + ":" + w.keyOf(x.v)
	case []Cell:
		var sb strings.Builder
		sb.WriteString("[")
		for i := range x {
			k := w.keyOf(x[i].v)
			sb.WriteString(strconv.Itoa(len(k)))
			sb.WriteByte(':')
			sb.WriteString(k)
		}
		return sb.String()
	case *Agg:
		var sb strings.Builder
		sb.WriteString("{")
		for i := range x.c {
			k := w.keyOf(x.c[i].v)
			sb.WriteString(strconv.Itoa(len(k)))
			sb.WriteByte(':')
			sb.WriteString(k)
		}
		return sb.String()
	case error:
		return "E" + x.Error()
	case *ssa.Function:
		return fmt.Sprintf("f%p", x)
	case *Closure:
		return fmt.Sprintf("c%p", x)
	case *Cell:
		return fmt.Sprintf("p%p", x)
	case tuple:
		k := "t"
		for _, a := range x {
			ak := w.keyOf(a)
			k += strconv.Itoa(len(ak)) + ":" + ak
		}
		return k
	default:
		return fmt.Sprintf("?%T%p", x, x)
	}
}

func (w *Worker) typeID(t types.Type) string {
	if s, ok := w.tids[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	w.tids[t] = s
	return s
}

// ---------------------------------------------------------------- zero values, copying

func (w *Worker) zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{c: make([]Cell, u.NumFields())}
		for i := range a.c {
			a.c[i] = Cell{v: w.zero(u.Field(i).Type()), ep: w.epoch}
		}
		return V{o: a}
	case *types.Array:
		a := &Agg{c: make([]Cell, u.Len())}
		if isAgg(u.Elem()) {
			for i := range a.c {
				a.c[i] = Cell{v: w.zero(u.Elem()), ep: w.epoch}
			}
		} else {
			for i := range a.c {
				a.c[i].ep = w.epoch
			}
		}
		return V{o: a}
	case *types.Tuple:
		if u.Len() == 1 {
			return w.zero(u.At(0).Type())
		}
		tp := make(tuple, u.Len())
		for i := range tp {
			tp[i] = w.zero(u.At(i).Type())
		}
		return V{o: tp}
	}
	return V{}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// copyV copies aggregates (value semantics).
func (w *Worker) copyV(v V) V {
	if a, ok := v.o.(*Agg); ok {
		b := &Agg{c: make([]Cell, len(a.c))}
		for i := range a.c {
			b.c[i] = Cell{v: w.copyV(a.c[i].v), ep: w.epoch}
		}
		return V{o: b}
	}
	return v
}

func (w *Worker) load(c *Cell) V {
	if c == nil {
		w.goPanic("nil pointer dereference")
	}
	if w.trackShared && c.ep < w.callFloor {
		w.sharedAccess(c, false)
	}
	return w.copyV(c.v)
}

func (w *Worker) store(c *Cell, v V) {
	if c == nil {
		w.goPanic("nil pointer dereference")
	}
	if a, ok := c.v.o.(*Agg); ok {
		b, ok2 := v.o.(*Agg)
		if !ok2 {
			w.unsupported("store aggregate")
		}
		for i := range a.c {
			w.store(&a.c[i], w.copyV(b.c[i].v))
		}
		return
	}
	if c.ep < w.floor {
		w.abortScope("store")
	}
	if c.ep < w.callFloor {
		w.sharedAccess(c, true)
	}
	if c.ep == 0 && !w.initing {
		old := c.v
		w.undo = append(w.undo, func() { c.v = old })
		w.dirty = true
	}
	c.v = v
}

// ---------------------------------------------------------------- strings

// mkRope concatenates pieces.
func (w *Worker) mkRope(ps ...V) V {
	var out []V
	var add func(v V)
	add = func(v V) {
		switch x := v.o.(type) {
		case nil:
			return
		case string:
			if x == "" {
				return
			}
			if n := len(out); n > 0 {
				if s, ok := out[n-1].o.(string); ok {
					out[n-1] = vStr(s + x)
					return
				}
			}
			out = append(out, v)
		case *Sym:
			if y, ok := w.single(x); ok {
				add(y)
				return
			}
			if n := len(out); n > 0 {
				if y, ok := out[n-1].o.(*Sym); ok && y.v == x.v {
					out[n-1] = V{o: &Sym{x.v, w.catTab(y.t, x.t)}}
					return
				}
			}
			out = append(out, v)
		case *Rope:
			for _, p := range x.p {
				add(p)
			}
		case *Term:
			out = append(out, w.concretize(v))
		default:
			w.unsupported(fmt.Sprintf("rope piece %T", x))
		}
	}
	for _, p := range ps {
		add(p)
	}
	if len(out) == 0 {
		return vStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return V{o: &Rope{p: out}}
}

// catTab: the concatenation of two texts that depend on the same variable.
func (w *Worker) catTab(a, b *Tab) *Tab {
	k := "cat" + strconv.Itoa(b.id)
	if t, ok := a.ops[k]; ok {
		return t
	}
	t := w.newTab(a.n, func(i int) (V, bool) {
		x, _ := a.vals[a.cls[i]].o.(string)
		y, _ := b.vals[b.cls[i]].o.(string)
		return vStr(x + y), a.pan[a.cls[i]] || b.pan[b.cls[i]]
	})
	a.ops[k] = t
	return t
}

// single: the one value a symbolic value has under the current domains (not inside memo scopes,
// where it would be path dependent only through domains that are full anyway).
func (w *Worker) single(s *Sym) (V, bool) {
	d := w.dom(s.v)
	f := d.first()
	if f < 0 {
		return V{}, false
	}
	c := s.t.cls[f]
	if s.t.pan[c] {
		return V{}, false
	}
	if subset(d, s.t.sets[c]) {
		return s.t.vals[c], true
	}
	return V{}, false
}

// norm replaces symbolic values that are determined by the current domains.
func (w *Worker) norm(v V) V {
	switch x := v.o.(type) {
	case *Sym:
		if y, ok := w.single(x); ok {
			return y
		}
	case *Form:
		return vForm(w.simp(x))
	}
	return v
}

type piece struct {
	s   string
	sym *Sym
	rs  []rune
}

// pieces returns the parts of a string value.
func pieces(v V) []V {
	switch x := v.o.(type) {
	case nil:
		return nil
	case string:
		if x == "" {
			return nil
		}
		return []V{v}
	case *Sym:
		return []V{v}
	case *Rope:
		return x.p
	}
	return []V{v}
}

// runesOf expands a string whose symbolic pieces are all single characters; ok=false otherwise.
func runesOf(v V) ([]V, bool) {
	var out []V
	for _, p := range pieces(v) {
		switch x := p.o.(type) {
		case string:
			for _, r := range x {
				out = append(out, vInt(int64(r)))
			}
		case *Sym:
			if !x.t.char {
				return nil, false
			}
			out = append(out, p)
		default:
			return nil, false
		}
	}
	return out, true
}

// eqStr builds the formula a == b for strings.
func (w *Worker) eqStr(a, b V) *Form {
	a, b = w.renorm(a), w.renorm(b)
	sa, oka := conc(a)
	sb, okb := conc(b)
	if oka && okb {
		if sa == sb {
			return w.fp.T
		}
		return w.fp.F
	}
	if oka {
		a, b = b, a
		sa, sb = sb, sa
		oka, okb = okb, oka
	}
	// a symbolic
	if x, ok := a.o.(*Sym); ok {
		if okb {
			return w.lit(x.v, x.t.setOf(w, "s"+sb))
		}
		if y, ok := b.o.(*Sym); ok {
			return w.eqSym(x, y)
		}
	}
	if w.keyOf(a) == w.keyOf(b) {
		return w.fp.T
	}
	// strip common ends
	pa := append([]V{}, pieces(a)...)
	pb := append([]V{}, pieces(b)...)
	ra, ok1 := runesOf(a)
	rb, ok2 := runesOf(b)
	if ok1 && ok2 {
		if len(ra) != len(rb) {
			return w.fp.F
		}
		var ks []*Form
		for i := range ra {
			f := w.eqRune(ra[i], rb[i])
			if f == w.fp.F {
				return f
			}
			ks = append(ks, f)
		}
		return w.and(ks...)
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if w.keyOf(x) == w.keyOf(y) {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		xs, xo := x.o.(string)
		ys, yo := y.o.(string)
		if xo && yo {
			n := 0
			for n < len(xs) && n < len(ys) && xs[n] == ys[n] {
				n++
			}
			if n < len(xs) && n < len(ys) {
				return w.fp.F
			}
			if n == 0 {
				break
			}
			pa[0], pb[0] = vStr(xs[n:]), vStr(ys[n:])
			if n == len(xs) {
				pa = pa[1:]
			}
			if n == len(ys) {
				pb = pb[1:]
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if w.keyOf(x) == w.keyOf(y) {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		xs, xo := x.o.(string)
		ys, yo := y.o.(string)
		if xo && yo {
			n := 0
			for n < len(xs) && n < len(ys) && xs[len(xs)-1-n] == ys[len(ys)-1-n] {
				n++
			}
			if n < len(xs) && n < len(ys) {
				return w.fp.F
			}
			if n == 0 {
				break
			}
			pa[len(pa)-1], pb[len(pb)-1] = vStr(xs[:len(xs)-n]), vStr(ys[:len(ys)-n])
			if n == len(xs) {
				pa = pa[:len(pa)-1]
			}
			if n == len(ys) {
				pb = pb[:len(pb)-1]
			}
			continue
		}
		break
	}
	na, nb := w.mkRope(pa...), w.mkRope(pb...)
	if len(pa) == 0 || len(pb) == 0 {
		rest := append(append([]V{}, pa...), pb...)
		var ks []*Form
		for _, p := range rest {
			if s, ok := p.o.(string); ok {
				if s != "" {
					return w.fp.F
				}
				continue
			}
			x := p.o.(*Sym)
			ks = append(ks, w.lit(x.v, x.t.setOf(w, "s")))
		}
		return w.and(ks...)
	}
	xa, s1 := na.o.(*Sym)
	xb, s2 := nb.o.(*Sym)
	ca, c1 := conc(na)
	cb, c2 := conc(nb)
	switch {
	case s1 && s2:
		return w.eqSym(xa, xb)
	case s1 && c2:
		return w.lit(xa.v, xa.t.setOf(w, "s"+cb))
	case s2 && c1:
		return w.lit(xb.v, xb.t.setOf(w, "s"+ca))
	case c1 && c2:
		if ca == cb {
			return w.fp.T
		}
		return w.fp.F
	}
	return w.eqProduct(na, nb)
}

// eqProduct decides equality of two strings over several variables through the product of the
// current domains, or by case split when that product is too large.
func (w *Worker) eqProduct(a, b V) *Form {
	f, ok := w.productForm("eq", []V{a, b}, func(c []V) bool {
		x, _ := conc(c[0])
		y, _ := conc(c[1])
		return x == y
	})
	if ok {
		return f
	}
	// case split on the first symbolic piece
	for _, p := range append(append([]V{}, pieces(a)...), pieces(b)...) {
		if _, ok := p.o.(*Sym); ok {
			w.concretize(p)
			return w.eqStr(w.renorm(a), w.renorm(b))
		}
	}
	w.unsupported("eqProduct")
	return nil
}

func (w *Worker) renorm(v V) V {
	if r, ok := v.o.(*Rope); ok {
		return w.mkRope(r.p...)
	}
	return w.norm(v)
}

func (w *Worker) eqRune(a, b V) *Form {
	x, ok1 := a.o.(*Sym)
	y, ok2 := b.o.(*Sym)
	switch {
	case !ok1 && !ok2:
		if a.n == b.n {
			return w.fp.T
		}
		return w.fp.F
	case ok1 && ok2:
		return w.eqSym(x, y)
	case ok2:
		x, b = y, a
	}
	return w.lit(x.v, x.t.setOf(w, "s"+string(rune(b.n))))
}

// eqSym: equality of two table values.
func (w *Worker) eqSym(x, y *Sym) *Form {
	if x.v == y.v {
		if x.t == y.t {
			return w.fp.T
		}
		k := "==" + strconv.Itoa(y.t.id)
		if b, ok := x.t.eq[k]; ok {
			return w.lit(x.v, b)
		}
		b := w.bp.of(x.t.n, func(i int) bool { return x.t.keys[x.t.cls[i]] == y.t.keys[y.t.cls[i]] })
		x.t.eq[k] = b
		return w.lit(x.v, b)
	}
	if c, ok := w.single(x); ok {
		return w.lit(y.v, y.t.setOf(w, w.keyOf(c)))
	}
	if c, ok := w.single(y); ok {
		return w.lit(x.v, x.t.setOf(w, w.keyOf(c)))
	}
	var ks []*Form
	for c, k := range x.t.keys {
		if d, ok := y.t.kidx[k]; ok {
			if disjoint(w.dom(x.v), x.t.sets[c]) || disjoint(w.dom(y.v), y.t.sets[d]) {
				continue
			}
			ks = append(ks, w.and(w.lit(x.v, x.t.sets[c]), w.lit(y.v, y.t.sets[d])))
		}
	}
	if w.inMemo > 0 {
		// domains are full here; the formula above is complete
	}
	return w.or(ks...)
}

// byteLen of a piece; splits on the length when it varies.
func (w *Worker) pieceLen(p V) int {
	switch x := p.o.(type) {
	case string:
		return len(x)
	case *Sym:
		lt := w.tabOp(x.t, "len", func(v V) (V, bool) {
			s, _ := conc(v)
			return vInt(int64(len(s))), false
		})
		return int(w.concretize(V{o: &Sym{x.v, lt}}).n)
	}
	w.unsupported("pieceLen")
	return 0
}

// strLen returns len(s).
func (w *Worker) strLen(v V) V {
	v = w.norm(v)
	if s, ok := conc(v); ok {
		return vInt(int64(len(s)))
	}
	if t, ok := v.o.(*Term); ok {
		v = w.concretize(V{o: t})
		s, _ := conc(v)
		return vInt(int64(len(s)))
	}
	n := int64(0)
	var sv *Sym
	for _, p := range pieces(v) {
		if x, ok := p.o.(*Sym); ok {
			lt := w.tabOp(x.t, "len", func(v V) (V, bool) {
				s, _ := conc(v)
				return vInt(int64(len(s))), false
			})
			ls := &Sym{x.v, lt}
			if c, ok := w.single(ls); ok {
				n += c.n
				continue
			}
			if sv == nil {
				sv = ls
				continue
			}
			n += w.concretize(V{o: ls}).n
			continue
		}
		n += int64(len(p.o.(string)))
	}
	if sv == nil {
		return vInt(n)
	}
	if n == 0 {
		return V{o: sv}
	}
	off := n
	nt := w.tabOp(sv.t, "+"+strconv.FormatInt(off, 10), func(v V) (V, bool) { return vInt(v.n + off), false })
	return w.norm(V{o: &Sym{sv.v, nt}})
}

// strSlice returns s[lo:hi]; hi<0 means to the end.
func (w *Worker) strSlice(v V, lo int, hi int) V {
	v = w.norm(v)
	if s, ok := conc(v); ok {
		if hi < 0 {
			hi = len(s)
		}
		if lo < 0 || lo > hi || hi > len(s) {
			w.goPanic("slice bounds out of range")
		}
		return vStr(s[lo:hi])
	}
	if x, ok := v.o.(*Sym); ok {
		t := w.tabOp(x.t, fmt.Sprintf("slice%d:%d", lo, hi), func(v V) (V, bool) {
			s, _ := conc(v)
			h := hi
			if h < 0 {
				h = len(s)
			}
			if lo < 0 || lo > h || h > len(s) {
				return vStr("slice bounds out of range"), true
			}
			return vStr(s[lo:h]), false
		})
		return w.symResult(x.v, t)
	}
	if t, ok := v.o.(*Term); ok {
		return w.strSlice(w.concretize(V{o: t}), lo, hi)
	}
	var out []V
	pos := 0
	ps := pieces(v)
	if lo < 0 || (hi >= 0 && lo > hi) {
		w.goPanic("slice bounds out of range")
	}
	for i, p := range ps {
		if hi >= 0 && pos >= hi {
			break
		}
		if hi < 0 && pos >= lo {
			out = append(out, ps[i:]...)
			pos = -1
			break
		}
		n := w.pieceLen(p)
		a, b := 0, n
		if lo > pos {
			a = lo - pos
		}
		if hi >= 0 && hi < pos+n {
			b = hi - pos
		}
		if a < b {
			if a == 0 && b == n {
				out = append(out, p)
			} else {
				out = append(out, w.strSlice(p, a, b))
			}
		}
		pos += n
	}
	if pos >= 0 && ((hi >= 0 && pos < hi) || pos < lo) {
		w.goPanic("slice bounds out of range")
	}
	return w.mkRope(out...)
}

// strIndex returns the byte s[i].
func (w *Worker) strIndex(v V, i int) V {
	v = w.norm(v)
	if s, ok := conc(v); ok {
		if i < 0 || i >= len(s) {
			w.goPanic("index out of range")
		}
		return vInt(int64(s[i]))
	}
	if x, ok := v.o.(*Sym); ok {
		t := w.tabOp(x.t, fmt.Sprintf("idx%d", i), func(v V) (V, bool) {
			s, _ := conc(v)
			if i < 0 || i >= len(s) {
				return vStr("index out of range"), true
			}
			return vInt(int64(s[i])), false
		})
		return w.symResult(x.v, t)
	}
	if t, ok := v.o.(*Term); ok {
		return w.strIndex(w.concretize(V{o: t}), i)
	}
	pos := 0
	if i < 0 {
		w.goPanic("index out of range")
	}
	for _, p := range pieces(v) {
		n := w.pieceLen(p)
		if i < pos+n {
			return w.strIndex(p, i-pos)
		}
		pos += n
	}
	w.goPanic("index out of range")
	return V{}
}

// strRunes converts a string to its runes, splitting on the rune count of variable pieces.
func (w *Worker) strRunes(v V) []V {
	v = w.norm(v)
	var out []V
	for _, p := range pieces(v) {
		switch x := p.o.(type) {
		case string:
			for _, r := range x {
				out = append(out, vInt(int64(r)))
			}
		case *Sym:
			nt := w.tabOp(x.t, "runecount", func(v V) (V, bool) {
				s, _ := conc(v)
				return vInt(int64(utf8.RuneCountInString(s))), false
			})
			n := w.concretize(V{o: &Sym{x.v, nt}}).n
			for j := 0; j < int(n); j++ {
				j := j
				t := w.tabOp(x.t, fmt.Sprintf("rune%d", j), func(v V) (V, bool) {
					s, _ := conc(v)
					rs := []rune(s)
					if j >= len(rs) {
						return vStr("index out of range"), true
					}
					return vInt(int64(rs[j])), false
				})
				out = append(out, w.norm(V{o: &Sym{x.v, t}}))
			}
		case *Term:
			return w.strRunes(w.concretize(p))
		}
	}
	return out
}

func (w *Worker) strBytes(v V) []V {
	v = w.norm(v)
	var out []V
	for _, p := range pieces(v) {
		switch x := p.o.(type) {
		case string:
			for i := 0; i < len(x); i++ {
				out = append(out, vInt(int64(x[i])))
			}
		case *Sym:
			n := w.pieceLen(p)
			if c, ok := w.single(x); ok {
				s, _ := conc(c)
				for i := 0; i < len(s); i++ {
					out = append(out, vInt(int64(s[i])))
				}
				continue
			}
			for j := 0; j < n; j++ {
				out = append(out, w.strIndex(p, j))
			}
		case *Term:
			return w.strBytes(w.concretize(p))
		}
	}
	return out
}

// runeStr: string(rune)
func (w *Worker) runeStr(v V) V {
	v = w.norm(v)
	if x, ok := v.o.(*Sym); ok {
		t := w.tabOp(x.t, "runestr", func(v V) (V, bool) { return vStr(string(rune(v.n))), false })
		return V{o: &Sym{x.v, t}}
	}
	if isSym(v) {
		v = w.concretize(v)
	}
	return vStr(string(rune(v.n)))
}

// byteStr: string of one byte of valid ASCII text
func (w *Worker) byteStr(v V) V {
	v = w.norm(v)
	if x, ok := v.o.(*Sym); ok {
		t := w.tabOp(x.t, "bytestr", func(v V) (V, bool) { return vStr(string([]byte{byte(v.n)})), false })
		return V{o: &Sym{x.v, t}}
	}
	return vStr(string([]byte{byte(v.n)}))
}

// tabOp maps a pure function over a table, memoised by name.
func (w *Worker) tabOp(t *Tab, name string, f func(v V) (V, bool)) *Tab {
	if r, ok := t.ops[name]; ok {
		return r
	}
	vals := make([]V, len(t.vals))
	pan := make([]bool, len(t.vals))
	for c := range t.vals {
		if t.pan[c] {
			vals[c], pan[c] = t.vals[c], true
			continue
		}
		vals[c], pan[c] = f(t.vals[c])
	}
	r := w.newTab(t.n, func(i int) (V, bool) { c := t.cls[i]; return vals[c], pan[c] })
	t.ops[name] = r
	return r
}

// symResult wraps a table that may contain panicking entries: the panic becomes a branch.
func (w *Worker) symResult(v *Var, t *Tab) V {
	if t.hasP {
		for c, p := range t.pan {
			if p {
				if w.branch(w.lit(v, t.sets[c])) {
					s, _ := conc(t.vals[c])
					w.goPanic(s)
				}
			}
		}
	}
	return w.norm(V{o: &Sym{v, t}})
}

// concretize case-splits a symbolic value into its distinct concrete values.
func (w *Worker) concretize(v V) V {
	v = w.norm(v)
	switch x := v.o.(type) {
	case *Sym:
		n := 0
		d := w.dom(x.v)
		for c := range x.t.vals {
			if disjoint(d, x.t.sets[c]) {
				continue
			}
			if x.t.pan[c] {
				continue
			}
			n++
			if n > w.maxSplit {
				w.truncated++
				w.endPath("case split limit")
			}
			if w.branch(w.lit(x.v, x.t.sets[c])) {
				return x.t.vals[c]
			}
		}
		w.endPath("infeasible")
	case *Form:
		return vBool(w.branch(x))
	case *Rope:
		var sb strings.Builder
		for _, p := range x.p {
			s, _ := conc(w.concretize(p))
			sb.WriteString(s)
		}
		return vStr(sb.String())
	case *Term:
		args := make([]V, len(x.args))
		for i, a := range x.args {
			args[i] = a
			if isSym(a) {
				args[i] = w.concretize(a)
			}
		}
		r, p := x.f(args)
		if p {
			s, _ := conc(r)
			w.goPanic(s)
		}
		return r
	}
	return v
}

// symVars collects the variables in a value.
func symVars(v V, seen map[*Var]bool, out *[]*Var) {
	add := func(x *Var) {
		if !seen[x] {
			seen[x] = true
			*out = append(*out, x)
		}
	}
	switch x := v.o.(type) {
	case *Sym:
		add(x.v)
	case *Rope:
		for _, p := range x.p {
			symVars(p, seen, out)
		}
	case *Form:
		for _, y := range x.vars {
			add(y)
		}
	case *Term:
		for _, a := range x.args {
			symVars(a, seen, out)
		}
	case *Iface:
		symVars(x.v, seen, out)
	case []Cell:
		for i := range x {
			symVars(x[i].v, seen, out)
		}
	}
}

// substV evaluates a value under an assignment.
func substV(v V, get func(*Var) int) V {
	switch x := v.o.(type) {
	case *Sym:
		return x.t.vals[x.t.cls[get(x.v)]]
	case *Rope:
		var sb strings.Builder
		for _, p := range x.p {
			s, _ := conc(substV(p, get))
			sb.WriteString(s)
		}
		return vStr(sb.String())
	case *Form:
		return vBool(x.eval(get))
	case *Term:
		args := make([]V, len(x.args))
		for i, a := range x.args {
			args[i] = substV(a, get)
		}
		r, _ := x.f(args)
		return r
	}
	return v
}

const productLimit = 400000

// productForm builds the exact formula of a predicate over several variables by tabulating it over
// the product of the current domains.
func (w *Worker) productForm(op string, args []V, pred func(c []V) bool) (*Form, bool) {
	var vars []*Var
	seen := map[*Var]bool{}
	for _, a := range args {
		symVars(a, seen, &vars)
	}
	size := 1
	for _, v := range vars {
		size *= w.dom(v).cnt
		if size > productLimit || size == 0 {
			return nil, false
		}
	}
	key := ""
	if size > 64 && plainKey(args) {
		key = op
		for _, a := range args {
			k := w.keyOf(a)
			key += "|" + strconv.Itoa(len(k)) + ":" + k
		}
		for _, v := range vars {
			key += "," + strconv.Itoa(v.uid) + "." + strconv.Itoa(w.dom(v).id)
		}
		if f, ok := w.prodMemo[key]; ok {
			return f, true
		}
	}
	asg := map[*Var]int{}
	get := func(v *Var) int { return asg[v] }
	var rec func(i int) *Form
	rec = func(i int) *Form {
		if i == len(vars) {
			c := make([]V, len(args))
			for j, a := range args {
				c[j] = substV(a, get)
			}
			if pred(c) {
				return w.fp.T
			}
			return w.fp.F
		}
		v := vars[i]
		groups := map[int][]int{}
		forms := map[int]*Form{}
		var order []int
		w.dom(v).each(func(k int) bool {
			asg[v] = k
			f := rec(i + 1)
			if _, ok := forms[f.id]; !ok {
				order = append(order, f.id)
			}
			forms[f.id] = f
			groups[f.id] = append(groups[f.id], k)
			return true
		})
		var ks []*Form
		for _, id := range order {
			f := forms[id]
			if f == w.fp.F {
				continue
			}
			in := map[int]bool{}
			for _, k := range groups[id] {
				in[k] = true
			}
			ks = append(ks, w.and(w.lit(v, w.bp.of(len(v.dom.vals), func(k int) bool { return in[k] })), f))
		}
		return w.or(ks...)
	}
	f := rec(0)
	if key != "" {
		if w.prodMemo == nil || len(w.prodMemo) > 20000 {
			w.prodMemo = map[string]*Form{}
		}
		w.prodMemo[key] = f
	}
	return f, true
}

// plainKey: the keys of the values identify them for good (no addresses).
func plainKey(args []V) bool {
	for _, a := range args {
		switch x := a.o.(type) {
		case nil, string, float64, *Sym, *Form, *Rope, error:
		case *Term:
			if !plainKey(x.args) {
				return false
			}
		case *Iface:
			if !plainKey([]V{x.v}) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
