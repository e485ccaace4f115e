package main

import (
	"errors"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) native(f *ssa.Function) nativeFn {
	if n, ok := e.nativeMemo.Load(f); ok {
		return n.(nativeFn)
	}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	n := e.natives[name]
	e.nativeMemo.Store(f, n)
	return n
}

// ---------------------------------------------------------------- lifting Go functions

type liftFn struct {
	interp *Fn // a function of the repository
	name   string
	fn     reflect.Value
	nres   int
	boolR  bool
	model  string
	term   bool
	slice  bool
	fnArg  bool
}

func (w *Worker) errIface(err error) V {
	if err == nil {
		return V{}
	}
	t := w.eng.runtimeErr
	return V{o: &Iface{t, V{o: err}}}
}

func toGo(v V, t reflect.Type) (reflect.Value, bool) {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := conc(v)
		if !ok {
			return r, false
		}
		r.SetString(s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		r.SetInt(v.n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		r.SetUint(uint64(v.n))
	case reflect.Bool:
		r.SetBool(v.n != 0)
	case reflect.Float64, reflect.Float32:
		r.SetFloat(v.f64())
	case reflect.Slice:
		cs, _ := v.o.([]Cell)
		s := reflect.MakeSlice(t, len(cs), len(cs))
		for i := range cs {
			x, ok := toGo(cs[i].v, t.Elem())
			if !ok {
				return r, false
			}
			s.Index(i).Set(x)
		}
		if v.o != nil {
			r.Set(s)
		}
	case reflect.Ptr:
		if v.o == nil {
			return r, true
		}
		x := reflect.ValueOf(v.o)
		if !x.Type().AssignableTo(t) {
			return r, false
		}
		r.Set(x)
	default:
		return r, false
	}
	return r, true
}

func (w *Worker) fromGo(r reflect.Value) V {
	switch r.Kind() {
	case reflect.String:
		return vStr(r.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return vInt(r.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return vInt(int64(r.Uint()))
	case reflect.Bool:
		return vBool(r.Bool())
	case reflect.Float64, reflect.Float32:
		return vFloat(r.Float())
	case reflect.Slice:
		if r.IsNil() {
			return V{}
		}
		cs := make([]Cell, r.Len())
		for i := range cs {
			cs[i] = Cell{v: w.fromGo(r.Index(i)), ep: w.epoch}
		}
		return V{o: cs}
	case reflect.Interface:
		if r.IsNil() {
			return V{}
		}
		if err, ok := r.Interface().(error); ok {
			return w.errIface(err)
		}
	case reflect.Ptr:
		if r.IsNil() {
			return V{}
		}
		return V{o: r.Interface()}
	}
	w.unsupported("native result " + r.Kind().String())
	return V{}
}

func (l *liftFn) call(w *Worker, args []V) (res []V, panicked string) {
	if l.interp != nil {
		st := w.steps
		outs, ok := w.runScope(l.interp, args, nil, true)
		w.steps = st
		if !ok || len(outs) != 1 {
			w.unsupported("table of " + l.interp.name)
		}
		o := outs[0]
		if o.isP {
			return nil, o.panic
		}
		if t, ok := o.res.o.(tuple); ok {
			return t, ""
		}
		return []V{o.res}, ""
	}
	t := l.fn.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		x, ok := toGo(a, t.In(i))
		if !ok {
			w.unsupported("native argument of " + l.name)
		}
		in[i] = x
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				panic(u)
			}
			panicked = fmt.Sprint(r)
		}
	}()
	var out []reflect.Value
	if t.IsVariadic() {
		out = l.fn.CallSlice(in)
	} else {
		out = l.fn.Call(in)
	}
	for _, o := range out {
		res = append(res, w.fromGo(o))
	}
	return res, ""
}

func pack(res []V) V {
	switch len(res) {
	case 0:
		return V{}
	case 1:
		return res[0]
	}
	return V{o: tuple(res)}
}

func anySym(v V) bool {
	switch x := v.o.(type) {
	case *Sym, *Form, *Rope, *Term:
		return true
	case []Cell:
		for i := range x {
			if anySym(x[i].v) {
				return true
			}
		}
	}
	return false
}

func (w *Worker) normDeep(v V) V {
	switch v.o.(type) {
	case *Sym, *Form:
		return w.norm(v)
	case *Rope:
		if r := v.o.(*Rope); r.toks != nil {
			return v
		}
		return w.renorm(v)
	}
	return v
}

func substDeep(v V, get func(*Var) int) V {
	if cs, ok := v.o.([]Cell); ok {
		n := make([]Cell, len(cs))
		for i := range cs {
			n[i] = Cell{v: substDeep(cs[i].v, get), ep: cs[i].ep}
		}
		return V{o: n}
	}
	return substV(v, get)
}

func (l *liftFn) apply(w *Worker, args []V) V {
	sym := false
	for i := range args {
		if anySym(args[i]) {
			args[i] = w.normDeep(args[i])
			if anySym(args[i]) {
				sym = true
			}
		}
	}
	if !sym {
		r, p := l.call(w, args)
		if p != "" {
			w.goPanic(p)
		}
		return pack(r)
	}
	var vars []*Var
	seen := map[*Var]bool{}
	for _, a := range args {
		symVars(a, seen, &vars)
	}
	if len(vars) == 0 {
		// determined, but not folded: evaluate
		get := func(*Var) int { return 0 }
		for i := range args {
			args[i] = substDeep(args[i], get)
		}
		return l.apply(w, args)
	}
	if len(vars) == 1 && !l.slice {
		v := vars[0]
		key := "fn:" + l.name
		for _, a := range args {
			k := w.keyOf(a)
			key += "|" + strconv.Itoa(len(k)) + ":" + k
		}
		key = strings.ReplaceAll(key, "S"+strconv.Itoa(v.id)+".", "S#.")
		rt := w.rootTab(v.dom)
		ts, ok := rt.tup[key]
		if !ok {
			n := len(v.dom.vals)
			cache := map[string][]V{}
			pc := map[string]string{}
			rows := make([][]V, n)
			pans := make([]string, n)
			idx := 0
			get := func(*Var) int { return idx }
			for idx = 0; idx < n; idx++ {
				ca := make([]V, len(args))
				ck := ""
				for i, a := range args {
					ca[i] = substDeep(a, get)
					k := w.keyOf(ca[i])
					ck += strconv.Itoa(len(k)) + ":" + k
				}
				if _, ok := cache[ck]; !ok {
					r, p := l.call(w, ca)
					if p != "" {
						r = make([]V, l.nres)
					}
					cache[ck], pc[ck] = r, p
				}
				rows[idx], pans[idx] = cache[ck], pc[ck]
			}
			for k := 0; k < l.nres; k++ {
				k := k
				ts = append(ts, w.newTab(n, func(i int) (V, bool) {
					if pans[i] != "" {
						return vStr(pans[i]), true
					}
					return rows[i][k], false
				}))
			}
			if rt.tup == nil {
				rt.tup = map[string][]*Tab{}
			}
			rt.tup[key] = ts
		}
		res := make([]V, len(ts))
		for i, t := range ts {
			res[i] = w.symResult(v, t)
			if l.boolR {
				res[i] = w.boolTab(res[i])
			}
		}
		return pack(res)
	}
	if l.boolR && l.nres == 1 {
		if f, ok := w.productForm("fn:"+l.name, args, func(c []V) bool {
			r, _ := l.call(w, c)
			return len(r) == 1 && r[0].n != 0
		}); ok {
			return vForm(w.simp(f))
		}
	}
	if l.model != "" {
		m := w.eng.pkgs[harnessP+"/model"].Func(l.model)
		if m != nil {
			return w.call(m, args, nil)
		}
	}
	if l.term {
		res := make([]V, l.nres)
		for k := range res {
			k := k
			as := append([]V{}, args...)
			res[k] = V{o: &Term{fn: l.name + "#" + strconv.Itoa(k), args: as, f: func(a []V) (V, bool) {
				r, p := l.call(w, a)
				if p != "" {
					return vStr(p), true
				}
				return r[k], false
			}}}
		}
		return pack(res)
	}
	// case split on one symbolic argument
	for i := range args {
		if anySym(args[i]) {
			args[i] = w.concDeep(args[i])
			break
		}
	}
	return l.apply(w, args)
}

func (w *Worker) concDeep(v V) V {
	if cs, ok := v.o.([]Cell); ok {
		n := make([]Cell, len(cs))
		for i := range cs {
			n[i] = Cell{v: w.concDeep(cs[i].v), ep: w.epoch}
		}
		return V{o: n}
	}
	if isSym(v) {
		return w.concretize(v)
	}
	return v
}

// ---------------------------------------------------------------- registration

func (e *Engine) registerNatives() {
	N := e.natives
	L := func(name string, fn any, opts ...string) {
		l := &liftFn{name: name, fn: reflect.ValueOf(fn)}
		t := l.fn.Type()
		l.nres = t.NumOut()
		if l.nres == 1 && t.Out(0).Kind() == reflect.Bool {
			l.boolR = true
		}
		for i := 0; i < l.nres; i++ {
			if t.Out(i).Kind() == reflect.Slice {
				l.slice = true
			}
		}
		for _, o := range opts {
			if o == "term" {
				l.term = true
			} else if strings.HasPrefix(o, "model:") {
				l.model = o[6:]
			}
		}
		N[name] = func(w *Worker, args []V) V { return l.apply(w, args) }
	}
	L("strings.Contains", strings.Contains, "model:Contains")
	L("strings.ContainsRune", strings.ContainsRune, "model:ContainsRune")
	L("strings.ContainsAny", strings.ContainsAny, "model:ContainsAny")
	L("strings.Index", strings.Index, "model:Index")
	L("strings.IndexByte", strings.IndexByte, "model:IndexByte")
	L("strings.IndexRune", strings.IndexRune, "model:IndexRune")
	L("strings.IndexAny", strings.IndexAny, "model:IndexAny")
	L("strings.LastIndex", strings.LastIndex, "model:LastIndex")
	L("strings.LastIndexByte", strings.LastIndexByte, "model:LastIndexByte")
	L("strings.Count", strings.Count, "model:Count")
	L("strings.Trim", strings.Trim, "model:Trim")
	L("strings.TrimLeft", strings.TrimLeft, "model:TrimLeft")
	L("strings.TrimRight", strings.TrimRight, "model:TrimRight")
	L("strings.TrimPrefix", strings.TrimPrefix, "model:TrimPrefix")
	L("strings.TrimSuffix", strings.TrimSuffix, "model:TrimSuffix")
	L("strings.ReplaceAll", strings.ReplaceAll, "model:ReplaceAll")
	L("strings.Replace", strings.Replace, "model:Replace")
	L("strings.Repeat", strings.Repeat)
	L("strings.Title", strings.Title)
	L("strings.ToTitle", strings.ToTitle)
	L("strings.Compare", strings.Compare)
	L("strings.Split", strings.Split, "model:Split")
	L("strings.SplitN", strings.SplitN)
	L("strings.SplitAfter", strings.SplitAfter)
	L("strings.Fields", strings.Fields, "model:Fields")
	L("strings.Cut", strings.Cut, "model:Cut")
	L("strings.CutPrefix", strings.CutPrefix)
	L("strings.CutSuffix", strings.CutSuffix)
	L("strings.Clone", strings.Clone)
	L("strings.ToValidUTF8", strings.ToValidUTF8)
	L("strconv.Atoi", strconv.Atoi, "term")
	L("strconv.ParseInt", strconv.ParseInt, "term")
	L("strconv.ParseUint", strconv.ParseUint, "term")
	L("strconv.ParseFloat", strconv.ParseFloat, "term")
	L("strconv.ParseBool", strconv.ParseBool, "term")
	L("strconv.Itoa", strconv.Itoa)
	L("strconv.FormatInt", strconv.FormatInt)
	L("strconv.FormatFloat", strconv.FormatFloat)
	L("strconv.FormatBool", strconv.FormatBool)
	L("strconv.Quote", strconv.Quote)
	L("strconv.Unquote", strconv.Unquote)
	L("unicode.IsLetter", unicode.IsLetter)
	L("unicode.IsDigit", unicode.IsDigit)
	L("unicode.IsNumber", unicode.IsNumber)
	L("unicode.IsSpace", unicode.IsSpace)
	L("unicode.IsUpper", unicode.IsUpper)
	L("unicode.IsLower", unicode.IsLower)
	L("unicode.IsPunct", unicode.IsPunct)
	L("unicode.IsControl", unicode.IsControl)
	L("unicode.IsSymbol", unicode.IsSymbol)
	L("unicode.IsPrint", unicode.IsPrint)
	L("unicode.IsGraphic", unicode.IsGraphic)
	L("unicode.ToUpper", unicode.ToUpper)
	L("unicode.ToLower", unicode.ToLower)
	L("unicode/utf8.RuneCountInString", utf8.RuneCountInString, "model:RuneCount")
	L("unicode/utf8.DecodeRuneInString", utf8.DecodeRuneInString, "model:DecodeRune")
	L("unicode/utf8.DecodeLastRuneInString", utf8.DecodeLastRuneInString)
	L("unicode/utf8.RuneLen", utf8.RuneLen)
	L("unicode/utf8.ValidString", utf8.ValidString)
	L("unicode/utf8.ValidRune", utf8.ValidRune)
	L("math.IsInf", math.IsInf, "term")
	L("math.IsNaN", math.IsNaN, "term")
	L("math.Abs", math.Abs, "term")
	L("math.Floor", math.Floor, "term")
	L("math.Ceil", math.Ceil, "term")
	L("math.Trunc", math.Trunc, "term")
	L("math.Round", math.Round, "term")
	L("math.Inf", math.Inf)
	L("math.NaN", math.NaN)
	L("math.Pow", math.Pow)
	L("math.Mod", math.Mod)
	L("math.Float64bits", math.Float64bits, "term")
	L("math.Float64frombits", math.Float64frombits, "term")
	L("internal/bytealg.IndexByteString", strings.IndexByte, "model:IndexByte")
	L("internal/bytealg.CountString", func(s string, c byte) int { return strings.Count(s, string(c)) })
	L(harnessP+"/zz.Fold", specFold)
	foldAll := N[harnessP+"/zz.Fold"]
	N[harnessP+"/zz.Fold"] = func(w *Worker, a []V) V {
		v := w.renorm(a[0])
		r, ok := v.o.(*Rope)
		if !ok || r.toks != nil {
			return foldAll(w, a)
		}
		any := w.fp.F
		for _, p := range r.p {
			any = w.or(any, w.form(N["strings.ContainsAny"](w, []V{p, vStr("\u017f\u212a\u0131\u0130")})))
		}
		if !w.branch(any) {
			return vStr("")
		}
		return foldAll(w, []V{w.renorm(v)})
	}
	L(harnessP+"/zz.IsNum", specIsNum, "term")
	L(harnessP+"/zz.IsIdent", specIsIdent)
	L(harnessP+"/zz.Unquote", specUnquote)
	L(harnessP+"/zz.Newlines", func(s string) int { return strings.Count(s, "\n") }, "model:Newlines")
	L(harnessP+"/zz.Num", specNum, "term")
	L(harnessP+"/zz.SizeKind", specSizeKind)
	L(harnessP+"/zz.SizeVal", specSizeVal)
	L("sort.SearchStrings", nil2(func(a []string, x string) int {
		lo, hi := 0, len(a)
		for lo < hi {
			m := (lo + hi) / 2
			if a[m] < x {
				lo = m + 1
			} else {
				hi = m
			}
		}
		return lo
	}))

	pieceMap := func(name string, f func(string) string) {
		reg := "strings." + name
		if name == "Upper" {
			reg = harnessP + "/zz.Upper"
		}
		N[reg] = func(w *Worker, args []V) V {
			v := args[0]
			if r, ok := v.o.(*Rope); ok && r.toks != nil {
				n := &Rope{}
				for _, p := range r.p {
					n.p = append(n.p, w.mapPiece(p, name, f))
				}
				for _, t := range r.toks {
					n.toks = append(n.toks, w.mapPiece(t, name, f))
				}
				return V{o: n}
			}
			v = w.renorm(v)
			if s, ok := conc(v); ok {
				return vStr(f(s))
			}
			if t, ok := v.o.(*Term); ok {
				s, _ := conc(w.concretize(V{o: t}))
				return vStr(f(s))
			}
			var out []V
			for _, p := range pieces(v) {
				out = append(out, w.mapPiece(p, name, f))
			}
			return w.mkRope(out...)
		}
	}
	pieceMap("ToUpper", strings.ToUpper)
	pieceMap("ToLower", strings.ToLower)
	pieceMap("Upper", asciiUpper)

	N["strings.HasPrefix"] = func(w *Worker, a []V) V { return w.hasFix(a[0], a[1], true) }
	N["strings.HasSuffix"] = func(w *Worker, a []V) V { return w.hasFix(a[0], a[1], false) }
	contains := N["strings.Contains"]
	N["strings.Contains"] = func(w *Worker, a []V) V {
		r, ok := a[0].o.(*Rope)
		n, ok2 := conc(a[1])
		if ok && r.toks != nil && ok2 && n != "" && !strings.ContainsAny(n, " ") {
			var fs []*Form
			for _, p := range r.p {
				fs = append(fs, w.form(contains(w, []V{p, a[1]})))
			}
			return vForm(w.simp(w.or(fs...)))
		}
		return contains(w, a)
	}
	replaceAll := N["strings.ReplaceAll"]
	N["strings.ReplaceAll"] = func(w *Worker, a []V) V {
		if r, ok := a[0].o.(*Rope); ok && r.toks != nil {
			if old, ok := conc(a[1]); ok && old != "" {
				hit := w.form(N["strings.Contains"](w, a[:2]))
				if w.simp(hit) == w.fp.F {
					return a[0]
				}
				if strings.Trim(old, "\t\r") == "" {
					if !w.branch(hit) {
						return a[0]
					}
				}
				if nw, ok := conc(a[2]); ok && !strings.ContainsAny(old, " \n") && nw != "" && strings.TrimSpace(nw) == nw {
					n := &Rope{}
					for _, p := range r.p {
						n.p = append(n.p, replaceAll(w, []V{p, a[1], a[2]}))
					}
					for _, p := range r.toks {
						n.toks = append(n.toks, replaceAll(w, []V{p, a[1], a[2]}))
					}
					return V{o: n}
				}
			}
		}
		return replaceAll(w, a)
	}
	trimSpace := func(w *Worker, v V) V {
		if r, ok := v.o.(*Rope); ok && r.toks != nil {
			t := r.toks
			nl := func(v V) bool { s, ok := conc(v); return ok && s == "\n" }
			for len(t) > 0 && nl(t[0]) {
				t = t[1:]
			}
			for len(t) > 0 && nl(t[len(t)-1]) {
				t = t[:len(t)-1]
			}
			return w.tokRope(t)
		}
		v = w.renorm(v)
		if s, ok := conc(v); ok {
			return vStr(strings.TrimSpace(s))
		}
		if x, ok := v.o.(*Sym); ok {
			return w.symResult(x.v, w.tabOp(x.t, "trimspace", func(v V) (V, bool) { s, _ := conc(v); return vStr(strings.TrimSpace(s)), false }))
		}
		return w.call(w.eng.pkgs[harnessP+"/model"].Func("TrimSpace"), []V{v}, nil)
	}
	N["strings.TrimSpace"] = func(w *Worker, a []V) V { return trimSpace(w, a[0]) }
	N["strings.EqualFold"] = func(w *Worker, a []V) V {
		x, y := w.renorm(a[0]), w.renorm(a[1])
		rx, ok1 := runesOf(x)
		ry, ok2 := runesOf(y)
		_, r1 := x.o.(*Rope)
		_, r2 := y.o.(*Rope)
		if (r1 || r2) && ok1 && ok2 {
			if len(rx) != len(ry) {
				return vBool(false)
			}
			var ks []*Form
			l := &liftFn{name: "foldRune", nres: 1, boolR: true, fn: reflect.ValueOf(func(a, b string) bool { return strings.EqualFold(a, b) })}
			str := func(v V) V {
				if v.o == nil {
					return vStr(string(rune(v.n)))
				}
				return v
			}
			for i := range rx {
				ks = append(ks, w.form(l.apply(w, []V{str(rx[i]), str(ry[i])})))
			}
			return vForm(w.simp(w.and(ks...)))
		}
		l := &liftFn{name: "strings.EqualFold", nres: 1, boolR: true, fn: reflect.ValueOf(strings.EqualFold)}
		return l.apply(w, []V{x, y})
	}
	N["strings.Join"] = func(w *Worker, a []V) V {
		cs, _ := a[0].o.([]Cell)
		var ps []V
		for i := range cs {
			if i > 0 {
				ps = append(ps, a[1])
			}
			ps = append(ps, cs[i].v)
		}
		return w.mkRope(ps...)
	}
	N["strings.Map"] = nil
	delete(N, "strings.Map")

	// builders
	leaf := func(w *Worker, v V, i int) *Cell {
		c, _ := v.o.(*Cell)
		if c == nil {
			w.goPanic("nil pointer dereference")
		}
		return &c.v.o.(*Agg).c[i]
	}
	for _, b := range []struct {
		t string
		i int
	}{{"(*strings.Builder)", 1}, {"(*bytes.Buffer)", 0}} {
		b := b
		get := func(w *Worker, v V) V {
			c := leaf(w, v, b.i)
			r := w.load(c)
			if cs, ok := r.o.([]Cell); ok {
				return w.cellsStr(cs, true)
			}
			if r.o == nil {
				return vStr("")
			}
			return r
		}
		add := func(w *Worker, v V, s V) {
			n := w.mkRope(get(w, v), s)
			w.store(leaf(w, v, b.i), n)
		}
		N[b.t+".WriteString"] = func(w *Worker, a []V) V {
			add(w, a[0], a[1])
			return V{o: tuple{vInt(0), V{}}}
		}
		N[b.t+".WriteByte"] = func(w *Worker, a []V) V { add(w, a[0], w.byteStr(a[1])); return V{} }
		N[b.t+".WriteRune"] = func(w *Worker, a []V) V {
			add(w, a[0], w.runeStr(a[1]))
			return V{o: tuple{vInt(1), V{}}}
		}
		N[b.t+".Write"] = func(w *Worker, a []V) V {
			cs, _ := a[1].o.([]Cell)
			add(w, a[0], w.cellsStr(cs, true))
			return V{o: tuple{vInt(int64(len(cs))), V{}}}
		}
		N[b.t+".String"] = func(w *Worker, a []V) V { return get(w, a[0]) }
		N[b.t+".Len"] = func(w *Worker, a []V) V { return w.strLen(get(w, a[0])) }
		N[b.t+".Cap"] = func(w *Worker, a []V) V { return w.strLen(get(w, a[0])) }
		N[b.t+".Reset"] = func(w *Worker, a []V) V { w.store(leaf(w, a[0], b.i), V{}); return V{} }
		N[b.t+".Grow"] = func(w *Worker, a []V) V { return V{} }
	}

	// errors and formatting
	N["errors.New"] = func(w *Worker, a []V) V {
		s, ok := conc(a[0])
		if !ok {
			s, _ = conc(w.concretize(a[0]))
		}
		return w.errIface(errors.New(s))
	}
	N["fmt.Sprintf"] = func(w *Worker, a []V) V { return w.sprintf(a) }
	N["fmt.Errorf"] = func(w *Worker, a []V) V {
		s, _ := conc(w.concretize(w.sprintf(a)))
		return w.errIface(errors.New(s))
	}
	N["fmt.Sprint"] = func(w *Worker, a []V) V {
		cs, _ := a[0].o.([]Cell)
		var ps []V
		for i := range cs {
			ps = append(ps, w.fmtVal(cs[i].v, "%v"))
		}
		return w.mkRope(ps...)
	}
	for _, p := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		N[p] = func(w *Worker, a []V) V { return V{o: tuple{vInt(0), V{}}} }
	}
	for _, p := range []string{"log.Println", "log.Printf", "log.Print"} {
		N[p] = func(w *Worker, a []V) V { return V{} }
	}
	N["errors.As"] = func(w *Worker, a []V) V {
		// target: pointer to a variable of the wanted type
		t, _ := a[1].o.(*Iface)
		pt := t.t.Underlying().(*types.Pointer).Elem()
		v := a[0]
		if v.o == nil {
			return vBool(false)
		}
		r, ok := w.typeAssert(v, pt)
		if ok {
			w.store(t.v.o.(*Cell), r)
		}
		return vBool(ok)
	}
	N["errors.Is"] = func(w *Worker, a []V) V { return vForm(w.eqV(a[0], a[1])) }

	// regexp
	re := func(w *Worker, v V) *regexp.Regexp {
		r, ok := v.o.(*regexp.Regexp)
		if !ok {
			w.goPanic("nil regexp")
		}
		return r
	}
	compile := func(w *Worker, v V) (*regexp.Regexp, error) {
		s, ok := conc(v)
		if !ok {
			s, _ = conc(w.concretize(v))
		}
		if r, ok := w.reCache[s]; ok {
			return r, nil
		}
		r, err := regexp.Compile(s)
		if err == nil {
			w.reCache[s] = r
		}
		return r, err
	}
	N["regexp.MustCompile"] = func(w *Worker, a []V) V {
		r, err := compile(w, a[0])
		if err != nil {
			w.goPanic(err.Error())
		}
		return V{o: r}
	}
	N["regexp.Compile"] = func(w *Worker, a []V) V {
		r, err := compile(w, a[0])
		if err != nil {
			return V{o: tuple{V{}, w.errIface(err)}}
		}
		return V{o: tuple{V{o: r}, V{}}}
	}
	N["(*regexp.Regexp).MatchString"] = func(w *Worker, a []V) V { return w.reMatch(re(w, a[0]), a[1]) }
	N["regexp.MatchString"] = func(w *Worker, a []V) V {
		r, err := compile(w, a[0])
		if err != nil {
			return V{o: tuple{vBool(false), w.errIface(err)}}
		}
		return V{o: tuple{w.reMatch(r, a[1]), V{}}}
	}
	L("(*regexp.Regexp).FindString", func(r *regexp.Regexp, s string) string { return r.FindString(s) })
	L("(*regexp.Regexp).FindStringIndex", func(r *regexp.Regexp, s string) []int { return r.FindStringIndex(s) })
	L("(*regexp.Regexp).FindStringSubmatch", func(r *regexp.Regexp, s string) []string { return r.FindStringSubmatch(s) })
	L("(*regexp.Regexp).FindAllString", func(r *regexp.Regexp, s string, n int) []string { return r.FindAllString(s, n) })
	L("(*regexp.Regexp).ReplaceAllString", func(r *regexp.Regexp, s, t string) string { return r.ReplaceAllString(s, t) })

	e.registerSync()
	e.registerZZ()
}

func nil2(f any) any { return f }

func (w *Worker) mapPiece(p V, name string, f func(string) string) V {
	switch x := p.o.(type) {
	case *Sym:
		return w.norm(V{o: &Sym{x.v, w.tabOp(x.t, "map:"+name, func(v V) (V, bool) { s, _ := conc(v); return vStr(f(s)), false })}})
	case nil:
		return vStr("")
	}
	s, ok := conc(p)
	if !ok {
		s, _ = conc(w.concretize(p))
	}
	return vStr(f(s))
}

func (w *Worker) hasFix(s, fix V, prefix bool) V {
	name := "HasPrefix"
	if !prefix {
		name = "HasSuffix"
	}
	var ps []V
	if r, ok := s.o.(*Rope); ok {
		ps = r.p
		if r.toks == nil {
			s = w.renorm(s)
			ps = pieces(s)
		}
	}
	f, okc := conc(w.renorm(fix))
	if okc && len(ps) > 1 {
		// decided by the first (last) pieces when they are concrete or single characters
		var fs []*Form
		rest := f
		i := 0
		for rest != "" {
			if i >= len(ps) {
				return vBool(false)
			}
			k := i
			if !prefix {
				k = len(ps) - 1 - i
			}
			i++
			p := w.norm(ps[k])
			if t, ok := conc(p); ok {
				n := len(t)
				if n > len(rest) {
					n = len(rest)
				}
				if prefix {
					if t[:n] != rest[:n] {
						return vBool(false)
					}
					rest = rest[n:]
				} else {
					if t[len(t)-n:] != rest[len(rest)-n:] {
						return vBool(false)
					}
					rest = rest[:len(rest)-n]
				}
				continue
			}
			x := p.o.(*Sym)
			if !x.t.char {
				goto general
			}
			var r rune
			var n int
			if prefix {
				r, n = utf8.DecodeRuneInString(rest)
				rest = rest[n:]
			} else {
				r, n = utf8.DecodeLastRuneInString(rest)
				rest = rest[:len(rest)-n]
			}
			fs = append(fs, w.lit(x.v, x.t.setOf(w, "s"+string(r))))
		}
		return vForm(w.simp(w.and(fs...)))
	}
general:
	l := &liftFn{name: "strings." + name, nres: 1, boolR: true, model: name}
	if prefix {
		l.fn = reflect.ValueOf(strings.HasPrefix)
	} else {
		l.fn = reflect.ValueOf(strings.HasSuffix)
	}
	return l.apply(w, []V{s, fix})
}

// tokRope builds a text given as a list of tokens.
func (w *Worker) tokRope(toks []V) V {
	r := &Rope{toks: append([]V{}, toks...)}
	if r.toks == nil {
		r.toks = []V{}
	}
	for i, t := range toks {
		if i > 0 {
			r.p = append(r.p, vStr(" "))
		}
		r.p = append(r.p, t)
	}
	return V{o: r}
}

func (w *Worker) sprintf(a []V) V {
	f, ok := conc(a[0])
	if !ok {
		f, _ = conc(w.concretize(a[0]))
	}
	cs, _ := a[1].o.([]Cell)
	var ps []V
	k := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			ps = append(ps, vStr(f[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[i : j+1]
		i = j + 1
		if verb == "%%" {
			ps = append(ps, vStr("%"))
			continue
		}
		if k >= len(cs) {
			ps = append(ps, vStr("%!"+verb[1:]+"(MISSING)"))
			continue
		}
		ps = append(ps, w.fmtVal(cs[k].v, verb))
		k++
	}
	return w.mkRope(ps...)
}

func (w *Worker) fmtVal(v V, verb string) V {
	i, _ := v.o.(*Iface)
	if i == nil {
		return vStr(fmt.Sprintf(verb, any(nil)))
	}
	if err, ok := i.v.o.(error); ok {
		return vStr(fmt.Sprintf(verb, err))
	}
	switch u := i.t.Underlying().(type) {
	case *types.Basic:
		if _, named := i.t.(*types.Named); named {
			if m := w.eng.prog.MethodSets.MethodSet(i.t).Lookup(nil, "String"); m != nil {
				return w.call(w.eng.prog.MethodValue(m), []V{i.v}, nil)
			}
		}
		if u.Info()&types.IsString != 0 {
			if verb == "%s" || verb == "%v" {
				if i.v.o == nil {
					return vStr("")
				}
				return i.v
			}
			l := &liftFn{name: "fmt" + verb, nres: 1, fn: reflect.ValueOf(func(s string) string { return fmt.Sprintf(verb, s) })}
			return l.apply(w, []V{i.v})
		}
		if u.Info()&types.IsBoolean != 0 {
			l := &liftFn{name: "fmtb" + verb, nres: 1, fn: reflect.ValueOf(func(s bool) string { return fmt.Sprintf(verb, s) })}
			return l.apply(w, []V{i.v})
		}
		if u.Info()&types.IsInteger != 0 {
			if u.Kind() == types.Int32 && verb == "%c" {
				return w.runeStr(i.v)
			}
			l := &liftFn{name: "fmti" + verb, nres: 1, fn: reflect.ValueOf(func(s int64) string { return fmt.Sprintf(verb, s) })}
			return l.apply(w, []V{i.v})
		}
		if u.Info()&types.IsFloat != 0 {
			l := &liftFn{name: "fmtf" + verb, nres: 1, fn: reflect.ValueOf(func(s float64) string { return fmt.Sprintf(verb, s) })}
			return l.apply(w, []V{i.v})
		}
	}
	if m := w.eng.prog.MethodSets.MethodSet(i.t).Lookup(nil, "Error"); m != nil {
		return w.call(w.eng.prog.MethodValue(m), []V{i.v}, nil)
	}
	w.unsupported("format " + i.t.String())
	return V{}
}

// ---------------------------------------------------------------- regular expressions

// reMatch decides an unanchored match; on texts of several symbolic characters the pattern's
// automaton is composed with the symbolic text.
func (w *Worker) reMatch(r *regexp.Regexp, v V) V {
	v = w.renorm(v)
	l := &liftFn{name: "re:" + r.String(), nres: 1, boolR: true, fn: reflect.ValueOf(r.MatchString)}
	rope, ok := v.o.(*Rope)
	if !ok {
		return l.apply(w, []V{v})
	}
	for _, p := range rope.p {
		if x, ok := p.o.(*Sym); ok && !x.t.char {
			return l.apply(w, []V{v})
		}
	}
	rs, ok := runesOf(v)
	if !ok {
		return l.apply(w, []V{v})
	}
	ast, err := syntax.Parse(r.String(), syntax.Perl)
	if err != nil {
		return l.apply(w, []V{v})
	}
	prog, err := syntax.Compile(ast.Simplify())
	if err != nil {
		return l.apply(w, []V{v})
	}
	memo := map[string]*Form{}
	var closure func(pc uint32, cond syntax.EmptyOp, set map[uint32]bool)
	closure = func(pc uint32, cond syntax.EmptyOp, set map[uint32]bool) {
		if set[pc] {
			return
		}
		in := &prog.Inst[pc]
		set[pc] = true
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			closure(in.Out, cond, set)
			closure(in.Arg, cond, set)
		case syntax.InstCapture, syntax.InstNop:
			closure(in.Out, cond, set)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^cond == 0 {
				closure(in.Out, cond, set)
			}
		}
	}
	// word-boundary and multi-line assertions need the neighbours: not supported here
	for _, in := range prog.Inst {
		if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary|syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
			return l.apply(w, []V{v})
		}
	}
	n := len(rs)
	cond := func(i int) syntax.EmptyOp {
		var c syntax.EmptyOp
		if i == 0 {
			c |= syntax.EmptyBeginText
		}
		if i == n {
			c |= syntax.EmptyEndText
		}
		return c
	}
	var rec func(i int, starts map[uint32]bool) *Form
	rec = func(i int, starts map[uint32]bool) *Form {
		set := map[uint32]bool{}
		for pc := range starts {
			closure(pc, cond(i), set)
		}
		closure(uint32(prog.Start), cond(i), set)
		for pc := range set {
			if prog.Inst[pc].Op == syntax.InstMatch {
				return w.fp.T
			}
		}
		if i == n {
			return w.fp.F
		}
		var ids []int
		for pc := range set {
			ids = append(ids, int(pc))
		}
		sortInts(ids)
		key := fmt.Sprint(i, ids)
		if f, ok := memo[key]; ok {
			return f
		}
		step := func(r rune) (map[uint32]bool, string) {
			nx := map[uint32]bool{}
			var k []int
			for _, pc := range ids {
				in := &prog.Inst[pc]
				switch in.Op {
				case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
					if in.MatchRune(r) && !nx[in.Out] {
						nx[in.Out] = true
						k = append(k, int(in.Out))
					}
				}
			}
			sortInts(k)
			return nx, fmt.Sprint(k)
		}
		var f *Form
		if x, ok := rs[i].o.(*Sym); ok {
			groups := map[string][]*Form{}
			nxt := map[string]map[uint32]bool{}
			var order []string
			for c, val := range x.t.vals {
				s, _ := conc(val)
				rr, _ := utf8.DecodeRuneInString(s)
				nx, k := step(rr)
				if _, ok := groups[k]; !ok {
					order = append(order, k)
				}
				groups[k] = append(groups[k], w.lit(x.v, x.t.sets[c]))
				nxt[k] = nx
			}
			var fs []*Form
			for _, k := range order {
				g := rec(i+1, nxt[k])
				fs = append(fs, w.and(w.or(groups[k]...), g))
			}
			f = w.or(fs...)
		} else {
			nx, _ := step(rune(rs[i].n))
			f = rec(i+1, nx)
		}
		memo[key] = f
		return f
	}
	return vForm(w.simp(rec(0, map[uint32]bool{})))
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// ---------------------------------------------------------------- synchronisation

func firstLeaf(c *Cell) *Cell {
	for {
		a, ok := c.v.o.(*Agg)
		if !ok || len(a.c) == 0 {
			return c
		}
		k := 0
		for k < len(a.c)-1 {
			if b, ok := a.c[k].v.o.(*Agg); ok && len(b.c) == 0 {
				k++
				continue
			}
			break
		}
		c = &a.c[k]
	}
}

// quietStore writes synchronised state: not a data race, but still state that survives the call.
func (w *Worker) quietStore(c *Cell, v V) {
	if w.scope != nil {
		w.abortScope("sync")
	}
	if c.ep == 0 && !w.initing {
		old := c.v
		w.undo = append(w.undo, func() { c.v = old })
		w.dirty = true
	}
	if c.ep < w.callFloor {
		w.syncWrites++
	}
	c.v = v
}

func (e *Engine) registerSync() {
	N := e.natives
	lock := func(w *Worker, a []V) V {
		c, _ := a[0].o.(*Cell)
		if w.scope != nil {
			w.abortScope("lock")
		}
		w.locks = append(w.locks, lockRef{c, false})
		return V{}
	}
	rlock := func(w *Worker, a []V) V {
		lock(w, a)
		w.locks[len(w.locks)-1].shared = true
		return V{}
	}
	unlock := func(w *Worker, a []V) V {
		c, _ := a[0].o.(*Cell)
		if w.scope != nil {
			w.abortScope("lock")
		}
		for i := len(w.locks) - 1; i >= 0; i-- {
			if w.locks[i].c == c {
				w.locks = append(append([]lockRef{}, w.locks[:i]...), w.locks[i+1:]...)
				break
			}
		}
		return V{}
	}
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		N[t+".Lock"], N[t+".RLock"] = lock, rlock
		N[t+".Unlock"], N[t+".RUnlock"] = unlock, unlock
		N[t+".TryLock"] = func(w *Worker, a []V) V { lock(w, a); return vBool(true) }
	}
	noop := func(w *Worker, a []V) V { return V{} }
	N["(*sync.WaitGroup).Add"], N["(*sync.WaitGroup).Done"], N["(*sync.WaitGroup).Wait"] = noop, noop, noop
	N["(*sync.Once).Do"] = func(w *Worker, a []V) V {
		c := a[0].o.(*Cell)
		l := firstLeaf(c)
		run := w.holdOnce(c, l.v.n == 0) // what is done under the once happens before every later use
		if l.v.n == 0 {
			w.quietStore(l, vInt(1))
			w.callV(a[1], nil)
		}
		run()
		return V{}
	}
	onceFn := func(w *Worker, a []V) V {
		f := a[0]
		st := &Cell{ep: w.epoch}
		done := &Cell{ep: w.epoch}
		return V{o: &Closure{nm: "once", nat: func(w *Worker, _ []V) V {
			run := w.holdOnce(done, done.v.n == 0)
			if done.v.n == 0 {
				w.quietStore(done, vInt(1))
				w.quietStore(st, w.callV(f, nil))
			}
			run()
			return st.v
		}}}
	}
	N["sync.OnceFunc"], N["sync.OnceValue"], N["sync.OnceValues"] = onceFn, onceFn, onceFn
	N["(*sync.Pool).Get"] = func(w *Worker, a []V) V {
		c := a[0].o.(*Cell)
		ag := c.v.o.(*Agg)
		l := firstLeaf(c)
		if cs, ok := l.v.o.([]Cell); ok && len(cs) > 0 {
			v := cs[len(cs)-1].v
			w.quietStore(l, V{o: append([]Cell{}, cs[:len(cs)-1]...)})
			return v
		}
		nf := ag.c[len(ag.c)-1].v
		if nf.o == nil {
			return V{}
		}
		return w.callV(nf, nil)
	}
	N["(*sync.Pool).Put"] = func(w *Worker, a []V) V {
		l := firstLeaf(a[0].o.(*Cell))
		cs, _ := l.v.o.([]Cell)
		w.quietStore(l, V{o: append(append([]Cell{}, cs...), Cell{v: a[1]})})
		return V{}
	}
	smap := func(w *Worker, v V) (*Cell, *MapV) {
		l := firstLeaf(v.o.(*Cell))
		m, _ := l.v.o.(*MapV)
		return l, m
	}
	sload := func(w *Worker, a []V) V {
		_, m := smap(w, a[0])
		if m == nil {
			return V{o: tuple{V{}, vBool(false)}}
		}
		k := w.concIface(a[1])
		if j, ok := m.m[w.keyOf(k)]; ok {
			return V{o: tuple{m.vals[j], vBool(true)}}
		}
		return V{o: tuple{V{}, vBool(false)}}
	}
	sstore := func(w *Worker, a []V) V {
		l, m := smap(w, a[0])
		k := w.concIface(a[1])
		n := &MapV{m: map[string]int{}}
		if m != nil {
			for i, x := range m.keys {
				if !m.dead[i] {
					n.m[w.keyOf(x)] = len(n.keys)
					n.keys, n.vals, n.dead = append(n.keys, x), append(n.vals, m.vals[i]), append(n.dead, false)
					n.live++
				}
			}
		}
		ks := w.keyOf(k)
		if j, ok := n.m[ks]; ok {
			n.vals[j] = a[2]
		} else {
			n.m[ks] = len(n.keys)
			n.keys, n.vals, n.dead = append(n.keys, k), append(n.vals, a[2]), append(n.dead, false)
			n.live++
		}
		w.quietStore(l, V{o: n})
		return V{}
	}
	N["(*sync.Map).Load"] = sload
	N["(*sync.Map).Store"] = sstore
	N["(*sync.Map).LoadOrStore"] = func(w *Worker, a []V) V {
		r := sload(w, a[:2]).o.(tuple)
		if r[1].n == 1 {
			return V{o: r}
		}
		sstore(w, a)
		return V{o: tuple{a[2], vBool(false)}}
	}
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool", "Pointer", "Value"} {
		t := "(*sync/atomic." + k + ")"
		N[t+".Load"] = func(w *Worker, a []V) V { return a[0].o.(*Cell).last().v }
		N[t+".Store"] = func(w *Worker, a []V) V { w.quietStore(a[0].o.(*Cell).last(), a[1]); return V{} }
		N[t+".Add"] = func(w *Worker, a []V) V {
			c := a[0].o.(*Cell).last()
			v := vInt(c.v.n + a[1].n)
			w.quietStore(c, v)
			return v
		}
		N[t+".Swap"] = func(w *Worker, a []V) V {
			c := a[0].o.(*Cell).last()
			v := c.v
			w.quietStore(c, a[1])
			return v
		}
		N[t+".CompareAndSwap"] = func(w *Worker, a []V) V {
			c := a[0].o.(*Cell).last()
			if w.keyOf(c.v) == w.keyOf(a[1]) {
				w.quietStore(c, a[2])
				return vBool(true)
			}
			return vBool(false)
		}
	}
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		N["sync/atomic.Add"+k] = func(w *Worker, a []V) V {
			c := a[0].o.(*Cell)
			v := vInt(c.v.n + a[1].n)
			w.quietStore(c, v)
			return v
		}
		N["sync/atomic.Load"+k] = func(w *Worker, a []V) V { return a[0].o.(*Cell).v }
		N["sync/atomic.Store"+k] = func(w *Worker, a []V) V { w.quietStore(a[0].o.(*Cell), a[1]); return V{} }
	}
}

// last finds the value field of an atomic type (its last scalar field).
func (c *Cell) last() *Cell {
	for {
		a, ok := c.v.o.(*Agg)
		if !ok || len(a.c) == 0 {
			return c
		}
		c = &a.c[len(a.c)-1]
	}
}

func (w *Worker) concIface(v V) V {
	if i, ok := v.o.(*Iface); ok && anySym(i.v) {
		return V{o: &Iface{i.t, w.concDeep(i.v)}}
	}
	return v
}
